// lt-expand: the list of pairs is what the entries of the dictionary say, direction by direction.
#include "dix.h"
#include <lttoolbox/expander.h>
typedef std::vector<std::pair<U32,U32>> Pairs;
static bool same(const U32& a, const U32& b) { if (a.size()!=b.size()) return false; bool ok=true; for (size_t i=0;i<a.size();i++) ok=ok&(a[i]==b[i]); return ok; }
static bool within(const Pairs& a, const Pairs& b) { bool all=true; for (auto& x : a) { bool any=false; for (auto& y : b) any=any|(same(x.first,y.first)&same(x.second,y.second)); all=all&any; } return all; }
static bool same(const Pairs& a, const Pairs& b) { return within(a,b)&within(b,a); }
static const uint32_t LETTERS[]={'a','b','c','d'};
static El sid() { El e=id("a"); e.l[0]=e.r[0]=hx_char("x",LETTERS,4); return e; }
static El spr(const char* r) { El e=pr("a",r); e.l[0]=hx_char("x",LETTERS,4); return e; }
static const char SPEC[]="^$/<>{}\\*@#+~:";
static std::string expand(const std::string& xml, const DOpt& o, bool keep=false) { hx_file_put("d.dix",xml); Expander e; e.setKeepBoundaries(keep); e.setAltValue(hx_u(o.alt.c_str())); e.setVariantValue(hx_u(o.var.c_str())); e.setVariantLeftValue(hx_u(o.vl.c_str())); e.setVariantRightValue(hx_u(o.vr.c_str())); HxUOut w; e.expand(hx_path("d.dix"),w.u); return w.done(); }
static U32 raw32(const std::string& s) { U32 o; for (size_t i=0;i<s.size();) { unsigned char c=s[i++]; uint32_t v=c; int k=c<0x80?0:c<0xe0?1:c<0xf0?2:3; if (k) v=c&(0x3f>>k); while (k-- && i<s.size()) v=v<<6|((unsigned char)s[i++]&63); o.push_back(v); } return o; }
// one line "l:r", "l:>:r" or "l:<:r"
static bool line(const U32& t, U32& l, U32& r, int& dir) { std::vector<U32> f(1); bool mark=false; dir=0; for (size_t i=0;i<t.size();i++) { uint32_t c=t[i]; bool sp=c<128 && strchr(SPEC,(int)c);
    if (c=='\\') { if (++i>=t.size() || t[i]>=128 || !strchr(SPEC,(int)t[i])) return false; c=t[i]; if (c=='+'||c=='#'||c=='~') c|=LITX; f.back().push_back(c); }
    else if (c==':') { if (f.size()==1 && i+2<t.size() && (t[i+1]=='>'||t[i+1]=='<') && t[i+2]==':') { dir=t[i+1]=='>'?1:2; mark=true; i+=2; } f.push_back({}); }
    else if (c=='<') { size_t j=i; std::string n; while (j<t.size() && t[j]!='>') { n+=(char)t[j]; j++; } n+='>'; unsigned k=0; while (k<(sizeof TAGS/sizeof *TAGS) && n!=TAGS[k]) k++; if (k==(sizeof TAGS/sizeof *TAGS)) return false; f.back().push_back(TAG0+k); i=j; }
    else if (c=='>') f.back().push_back(MB);
    else if (sp && c!='#' && c!='+' && c!='~') return false;
    else f.back().push_back(c); }
  (void)mark; if (f.size()!=2) return false; l=f[0]; r=f[1]; return true; }
static bool parse(const std::string& out, Pairs& lr, Pairs& rl) { size_t i=0; while (i<out.size()) { size_t j=out.find('\n',i); if (j==std::string::npos) return false; U32 l,r; int d; if (!line(raw32(out.substr(i,j-i)),l,r,d)) return false; if (d!=2) lr.push_back({l,r}); if (d!=1) rl.push_back({l,r}); i=j+1; } return true; }
static U32 bound(const U32& s, bool keep) { U32 o; for (auto c : s) if (c!=MB || keep) o.push_back(c); return o; }
// the variant attribute of monolingual dictionaries restricts the direction: entries of another variant are only read
static std::vector<En> nov(std::vector<En> es, const DOpt& o) { for (auto& e : es) { if (!e.v.empty() && (!o.rl || among(e.v,o.var))) e.v=""; } return es; }
static Pairs means(Dix d, DOpt o, bool rl, bool keep) { o.rl=rl; for (auto& p : d.ps) p.es=nov(p.es,o); if (rl && o.var.empty()) o.var="-"; std::vector<Trip> m; for (auto& s : d.ss) meaning(d,nov(s.es,o),o,m); Pairs p; for (auto& t : m) p.push_back({bound(t.l,keep),bound(t.r,keep)}); return p; }
static void check(const Dix& d, const DOpt& o, const char* gap="", bool keep=false) { Pairs lr, rl; std::string out=expand(xml_of(d,gap),o,keep); CHECK(parse(out,lr,rl),"a line of the expansion is not a pair of texts"); CHECK(same(lr,means(d,o,false,keep)),"the pairs for reading from left to right are not those of the dictionary"); CHECK(same(rl,means(d,o,true,keep)),"the pairs for reading from right to left are not those of the dictionary"); sx_reach(0); }
static En shape(unsigned k) { El lit=k==5||k==7?id("a"):sid(); switch (k) { case 0: return en({lit}); case 1: return en({lit,par("P")}); case 2: return en({par("P"),lit}); case 3: return en({lit,par("P"),pr("b","c")}); case 4: return en({lit,par("Q")}); case 5: return en({par("Q"),par("P")}); case 6: return en({par("P"),lit,par("P")}); default: return en({par("Q")}); } }
static const char* const RS[]={"","LR","RL"};
// ---- paradigms in every position, restricted or not
HARNESS(h_exp_par) { Dix d; DOpt o; auto r=[&](En e){ e.r=RS[hx_pick("r",3)]; return e; }; Par P{"P",{r(en({spr("b")})),r(en({spr("<n>")}))}}, R{"Q",{hx_pick("nest",2)?r(en({id("a"),par("P")})):r(en({spr("<v>")}))}}; if (hx_pick("more",2)) R.es.push_back(r(en({pr("c","")}))); d.ps={P,R}; Sec s{"main","standard",{r(shape(hx_pick("shape",8))),shape(Q(0,1)?hx_pick("shape",8):0)}}; d.ss={s}; check(d,o); }
// ---- variants, alternatives, ignored entries
HARNESS(h_exp_attr) { Dix d; DOpt o; static const char* const V[]={"","x","xy","yx xy"}; static const char* const OV[]={"","x","xy"}; unsigned kind=hx_pick("kind",4); const char* ov=OV[hx_pick("opt",3)]; switch (kind) { case 0: o.alt=ov; break; case 1: o.var=ov; break; case 2: o.vl=ov; break; default: o.vr=ov; }
  auto attr=[&](En& e){ const char* v=V[hx_pick("val",4)]; switch (kind) { case 0: e.alt=v; break; case 1: e.v=v; break; case 2: e.vl=v; break; default: e.vr=v; } };
  Par P{"P",{en({spr("c")}),en({pr("c","<n>")})}}; P.es[1].r=RS[hx_pick("pr",3)]; attr(P.es[0]); d.ps={P}; Sec s{"main","standard",{en({sid(),par("P"),id("b")}),en({pr("c","a")})}}; s.es[0].r=RS[hx_pick("r",3)]; attr(s.es[0]); s.es[1].ig=hx_pick("ig",2); d.ss={s}; check(d,o,hx_pick("gap",2)?"\n <!-- x --> ":""); }
// ---- characters with a meaning in the list are escaped, elements are shown as their signs; any characters
static void put_text(std::string& xml, std::string& exp, uint32_t c) { if (c=='<') xml+="&lt;"; else if (c=='&') xml+="&amp;"; else put8(xml,c); bool sp=false; for (const char* p=SPEC;*p;p++) sp=sp|(c==(unsigned char)*p); if (sp) exp+='\\'; put8(exp,c); }
static uint32_t anychar() { uint32_t c=(uint32_t)sx_below("char",0x110000); if (c<0x20 || (c>=0x7f && c<0xa0) || (c>=0xd800 && c<0xe000) || (c&0xfffe)==0xfffe) sx_end(); return c; }
static void piece(std::string& xml, std::string& exp, bool keep) { switch (hx_pick("piece",9)) { case 0: xml+="<b/>"; exp+=' '; break; case 1: xml+="<j/>"; exp+='+'; break; case 2: xml+="<a/>"; exp+='~'; break; case 3: xml+="<s n=\"n\"/>"; exp+="<n>"; break; case 4: xml+="<m/>"; if (keep) exp+='>'; break; case 5: xml+="<w/>"; exp+="<ANY_CHAR>"; break; case 6: xml+="<t/>"; exp+="<ANY_TAG>"; break; case 7: xml+="<d/>"; exp+="<$>"; break; default: xml+="<g>"; exp+='#'; { uint32_t c=anychar(); put_text(xml,exp,c); } xml+="</g>"; } }
HARNESS(h_exp_text) { bool keep=hx_pick("keep",2); std::string x="<dictionary><alphabet/><sdefs><sdef n=\"n\"/></sdefs><section id=\"main\" type=\"standard\"><e>", l, r, xl, xr; std::string *t=&xl, *o=&l; unsigned el=hx_pick("el",3); if (el==2) { t=&xr; o=&r; } unsigned k=hx_pick("order",3); if (k==0) piece(*t,*o,keep); put_text(*t,*o,anychar()); if (k==1) piece(*t,*o,keep); if (k==2 || TIER) put_text(*t,*o,anychar()); if (el==0) { x+="<i>"+xl+"</i>"; r=l; } else { if (el==1) { xr+="q"; r+="q"; } else { xl+="q"; l+="q"; } x+="<p><l>"+xl+"</l><r>"+xr+"</r></p>"; } x+="</e></section></dictionary>\n"; std::string out=expand(x,DOpt(),keep), want=l+":"+r+"\n"; CHECK(out==want,"an entry is not printed as its two texts, escaped"); sx_reach(0); }
// ---- groups that are the same on both sides but for the mark
HARNESS(h_exp_group) { Dix d; DOpt o; auto r=[&](En e){ e.r=RS[hx_pick("r",3)]; return e; }; El g=ig(" a"); g.l[1]=g.r[2]=hx_char("g",LETTERS,4); Par P{"P",{r(en({g})),r(en({pr("c","<n>")}))}}; d.ps={P}; Sec s{"main","standard",{r(hx_pick("sh",2)?en({sid(),par("P")}):en({id("b"),g,pr("","<v>")})),en({id("d"),ig("b")})}}; d.ss={s}; check(d,o,hx_pick("gap",2)?"\n":""); }
// ---- regular expressions are shown by their text after a mark
HARNESS(h_exp_re) { std::string x="<dictionary><alphabet/><sdefs><sdef n=\"n\"/></sdefs><pardefs><pardef n=\"P\"><e><re>", t, e; uint32_t a=anychar(), b=anychar(); for (uint32_t c : {a,b}) { if (c=='<') t+="&lt;"; else if (c=='&') t+="&amp;"; else put8(t,c); } static const char SP[]="^$/<>{}*@#+~:"; bool esc=false; for (uint32_t c : {a,b}) { bool sp=false; for (const char* p=SP;*p;p++) sp=sp|(c==(unsigned char)*p); if (esc) esc=false; else if (sp) e+='\\'; else if (c=='\\') esc=true; put8(e,c); }
  x+=t+"</re><p><l/><r><s n=\"n\"/></r></p></e></pardef></pardefs><section id=\"main\" type=\"standard\"><e><i>q</i><par n=\"P\"/></e><e r=\"RL\"><re>"+t+"</re><i>q</i></e></section></dictionary>\n"; std::string out=expand(x,DOpt()), re="__REGEXP__"+e, want="q"+re+":q"+re+"<n>\n"+re+"q:<:"+re+"q\n"; CHECK(same(out,want),"a regular expression is not shown by its text"); sx_reach(0); }
// ---- what cannot be understood is refused
HARNESS(h_exp_errors) { Dix d; d.ss={{"main","standard",{en({id("a")})}}}; std::string x=xml_of(d), ins; switch (hx_pick("err",8)) { case 0: ins="<e><i>a</i><par n=\"zz\"/></e>"; break; case 1: ins="<e><q/></e>"; break; case 2: ins="<e><p><l>a</l><l>b</l></p></e>"; break; case 3: ins="<e><i>a<b>x</b></i></e>"; break; case 4: ins="<e><p><l>b</l><r>b<q/></r></p></e>"; break; case 5: ins="<q/>"; break; case 6: ins="<e><p><l>a</l>x<r>b</r></p></e>"; break; default: ins="<e><i>b</i>text</e>"; break; } size_t p=x.find("</section>"); x.insert(p,ins); sx_exit_policy(1); sx_reach(0); expand(x,DOpt()); CHECK(false,"an invalid dictionary is expanded"); }
