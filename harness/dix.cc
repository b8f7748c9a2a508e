// lt-comp: the compiled transducer of a dictionary is what its entries say.
#include "dix.h"
static const uint32_t SY[]={'a','b','c',TAG0,TAG0+1,' '};
static void words(Alphabet& al, int* u, int* v, int n, unsigned nt=5) { uint32_t tab[6]; for (unsigned i=0;i<6;i++) tab[i]=(uint32_t)code_in(al,SY[i]); for (int i=0;i<n;i++) u[i]=(int)hx_char("u",tab,nt); for (int i=0;i<n;i++) v[i]=(int)hx_char("v",tab,nt); }
static void check(const Dix& d, const DOpt& o, int n, const char* gap="", unsigned nt=5) { for (auto& s : d.ss) { std::vector<Trip> m; meaning(d,s.es,o,m); if (refused(m,o.rl)) sx_end(); }
  Loaded L; load_bytes(L,compile(xml_of(d,gap),o)); int u[5],v[5],x[36],y[36]; words(L.al,u,v,n,nt); size_t used=0;
  for (auto& s : d.ss) { std::vector<Trip> m; meaning(d,s.es,o,m); UString nm=hx_u((s.id+"@"+s.type).c_str()); if (!L.ts.count(nm)) { CHECK(m.empty(),"a section is missing"); continue; } used++; rel_pairs(L.al,m,o.rl,u,v,n,x); rel_trans(L.ts[nm],L.al,u,v,n,y); CHECK(eqv(x,y,(n+1)*(n+1)),"the compiled dictionary does not hold exactly the entries of the source"); }
  CHECK(used==L.ts.size(),"a section nobody wrote"); std::set<UChar32> let; for (auto c : u32_of(d.letters.c_str())) let.insert(c); CHECK(L.letters==let,"the letters are not those of the alphabet element"); sx_reach(0); }
// ---- paradigms in every position
static En shape(unsigned k, const char* lit) { switch (k) { case 0: return en({id(lit)}); case 1: return en({id(lit),par("P")}); case 2: return en({par("P"),id(lit)}); case 3: return en({id(lit),par("P"),pr("b","c")}); case 4: return en({id(lit),par("Q")}); case 5: return en({par("Q"),par("P")}); case 6: return en({par("P"),id(lit),par("P")}); case 7: return en({pr("",""),par("P")}); case 8: return en({par("P"),pr("","")}); case 9: return en({pr("",""),id(lit)}); default: return en({par("Q")}); } }
static const char* LIT[]={"a","b","ab"};
static unsigned shp(unsigned k) { return k==7?10:k; }
HARNESS(h_dix_par) { Dix d; DOpt o; o.rl=hx_pick("rl",2); static const std::vector<El> PE[]={{pr("a","b")},{id("b")},{pr("","<n>")},{pr("b","")}}; Par P{"P",{}}, R{"Q",{}}; unsigned a=hx_pick("p",4); P.es.push_back(en(PE[a])); P.es.push_back(en(PE[(a+1+hx_pick("q",2))%4])); R.es.push_back(hx_pick("nest",2)?en({id("a"),par("P")}):en({pr("a","<v>")})); d.ps={P,R};
  Sec s{"main","standard",{}}; for (int i=0;i<2;i++) s.es.push_back(shape(shp(hx_pick("shape",8)),LIT[i?hx_pick("lit",2):0])); if (Q(0,1)) s.es.push_back(shape(shp(hx_pick("shape",8)),"b")); d.ss={s}; check(d,o,3); }
// ---- restrictions, variants, alternatives, ignored entries
HARNESS(h_dix_attr) { Dix d; DOpt o; o.rl=hx_pick("rl",2); static const char* const V[]={"","x","xy","yx xy"}; static const char* const OV[]={"","x","xy","y"}; unsigned kind=hx_pick("kind",4); o.alt=kind==0?OV[hx_pick("opt",4)]:""; o.var=kind==1?OV[hx_pick("opt",4)]:""; o.vl=kind==2?OV[hx_pick("opt",4)]:""; o.vr=kind==3?OV[hx_pick("opt",4)]:"";
  auto attr=[&](En& e){ const char* v=V[hx_pick("val",4)]; switch (kind) { case 0: e.alt=v; break; case 1: e.v=v; break; case 2: e.vl=v; break; default: e.vr=v; } };
  Par P{"P",{en({pr("b","c")}),en({pr("c","<n>")})}}; P.es[1].r=hx_pick("pr",2)?"RL":"LR"; attr(P.es[0]); d.ps={P}; Sec s{"main","standard",{en({id("a")}),en({id("b"),par("P")}),en({pr("c","a")})}}; static const char* const RS[]={"","LR","RL"}; s.es[0].r=RS[hx_pick("r",3)]; attr(s.es[0]); s.es[2].ig=hx_pick("ig",2); d.ss={s}; check(d,o,2,hx_pick("gap",2)?"\n <!-- x --> ":""); }
// ---- any names in a list of variants, and two kinds of restriction at once
HARNESS(h_dix_name) { Dix d; DOpt o; o.rl=hx_pick("rl",2); Sec s{"main","standard",{en({id("a")}),en({pr("c","a")})}}; auto set=[&](unsigned kind, const std::string& v, const std::string& ov){ En& e=s.es[0]; switch (kind) { case 0: e.alt=v; o.alt=ov; break; case 1: e.v=v; o.var=ov; break; case 2: e.vl=v; o.vl=ov; break; default: e.vr=v; o.vr=ov; } };
  static const uint32_t TN[]={'x','y',' '}; unsigned k1=hx_pick("kind",4); std::string v, ov; unsigned n=1+hx_pick("n",Q(3,4)), m=hx_pick("m",3); for (unsigned i=0;i<n;i++) v+=(char)hx_char("v",TN,3); for (unsigned i=0;i<m;i++) ov+=(char)hx_char("o",TN,2); sx_assume(v.find(" ")==std::string::npos || !ov.empty()); set(k1,v,ov); if (n==1) { unsigned k2=hx_pick("kind2",4); static const char* const W[]={"x","y"}; static const char* const OW[]={"","x"}; if (k2!=k1) set(k2,W[hx_pick("v2",2)],OW[hx_pick("o2",2)]); static const char* const RS[]={"","LR","RL"}; s.es[0].r=RS[hx_pick("r",3)]; } d.ss={s}; check(d,o,1,""); }
// ---- weights add up along the entry
HARNESS(h_dix_w) { Dix d; DOpt o; o.rl=hx_pick("rl",2); static const double WT[]={0,1.5,0.25,-1}; /*quarters*/ auto w=[&](unsigned k){ return WT[hx_pick("w",k)]; }; Par P{"P",{en({pr("b","c")},w(Q(3,4))),en({pr("c","")},w(2))}}, R{"Q",{en({id("a"),par("P")},w(2)),en({par("P")},w(2))}}; d.ps={P,R}; Sec s{"main","standard",{}}; s.es.push_back(shape(hx_pick("shape",11),"a")); s.es.back().w=WT[2+hx_pick("w1",2)]; s.es.push_back(shape(hx_pick("shape",Q(3,11)),"ab")); s.es.back().w=w(2); d.ss={s}; check(d,o,3); }
// ---- several sections, blanks, joins, groups, marks
HARNESS(h_dix_sec) { Dix d; DOpt o; o.rl=hx_pick("rl",2); static const char* const TY[]={"standard","inconditional","postblank","preblank"};  static const std::vector<El> PE[]={{pr("a b","a+b")},{pr("~a","a")},{pr("ab","a#b")},{ig(" b")},{id("é")},{pr("😀","<n>a")},{pr("a&","<v>")},{pr("",""),id("a")}}; unsigned t=hx_pick("type",4); d.letters=t%2?"aé😀":"ab"; for (int k=0;k<2;k++) { Sec s{k?"two":"one",TY[(t+k)%4],{}}; for (int i=0;i<(k?1:2);i++) { std::vector<El> e=PE[hx_pick("e",8)]; e.insert(e.begin(),id(i?"a":"b")); s.es.push_back(en(e)); } d.ss.push_back(s); }
  // symbols of both texts, any order
  for (auto& s : d.ss) { std::vector<Trip> m; meaning(d,s.es,o,m); if (refused(m,o.rl)) sx_end(); } Loaded L; load_bytes(L,compile(xml_of(d),o)); static const uint32_t TT[]={'a','b',' ','+','#','~',0xe9,0x1f600,'&'}; const int n=3; int u[3],v[3],x[16],y[16]; uint32_t tab[11]; for (int i=0;i<9;i++) tab[i]=TT[i]; tab[9]=(uint32_t)code_in(L.al,TAG0); tab[10]=(uint32_t)code_in(L.al,TAG0+1); for (int i=0;i<n;i++) { u[i]=(int)hx_char("u",tab,11); v[i]=(int)hx_char("v",tab,11); }
  for (auto& s : d.ss) { std::vector<Trip> m; meaning(d,s.es,o,m); UString nm=hx_u((s.id+"@"+s.type).c_str()); CHECK(L.ts.count(nm),"a section is missing"); rel_pairs(L.al,m,o.rl,u,v,n,x); rel_trans(L.ts[nm],L.al,u,v,n,y); CHECK(eqv(x,y,16),"the compiled dictionary does not hold exactly the entries of the source"); } CHECK(L.ts.size()==d.ss.size(),"a section nobody wrote"); std::set<UChar32> let; for (auto c : u32_of(d.letters.c_str())) let.insert(c); CHECK(L.letters==let,"the letters are not those of the alphabet element"); sx_reach(0); }
// ---- regular expressions inside entries
HARNESS(h_dix_re) { Dix d; DOpt o; o.rl=hx_pick("rl",2); static const std::vector<El> PE[]={{re("[ab]",{"a","b"})},{re("ab|c",{"ab","c"})},{re("a?b",{"b","ab"})},{re("(a|b)c",{"ac","bc"})},{re("[^ab]",{})}}; Par P{"P",{en({PE[hx_pick("p",4)][0],pr("","<n>")})}}; d.ps={P}; Sec s{"main","standard",{}}; s.es.push_back(en({PE[hx_pick("r",4)][0],pr("","<v>")})); s.es.push_back(hx_pick("par",2)?en({id("b"),par("P")}):en({id("c"),PE[hx_pick("r2",4)][0]})); d.ss={s}; check(d,o,3); }
// ---- what cannot be understood is refused
HARNESS(h_dix_errors) { Dix d; d.ss={{"main","standard",{en({id("a")})}}}; std::string x=xml_of(d), ins; switch (hx_pick("err",16)) { case 0: ins="<e><i>a<s n=\"zz\"/></i></e>"; break; case 1: ins="<e><i>a</i><par n=\"zz\"/></e>"; break; case 2: ins="<e><q/></e>"; break; case 3: ins="<e><i/></e>"; break; case 4: ins="<e><i><b/>a</i></e>"; break; case 5: ins="<e><p><l>a</l><l>b</l></p></e>"; break; case 6: ins="<e><i>b</i>text</e>"; break; case 7: ins="<e><i>a<b>x</b></i></e>"; break; case 8: ins="<e><p><l>b</l><r>b<q/></r></p></e>"; break; case 9: ins="<e><re>a<b/></re></e>"; break; case 10: ins="<e><re/></e>"; break; case 11: ins="<q/>"; break; case 12: ins="</section><section id=\"x\">"; break; case 13: ins="</section><pardefs><pardef n=\"p\"><e><i>a</i></e><e><i>b</i><par n=\"p\"/></e></pardef></pardefs><section id=\"x\" type=\"standard\">"; break; case 14: ins="<e w=\"x\"><i>b</i></e>"; break; case 15: ins="<e w=\"-\"><i>b</i></e>"; break; } size_t p=x.find("</section>"); x.insert(p,ins); sx_exit_policy(1); sx_reach(0); compile(x,DOpt()); CHECK(false,"an invalid dictionary is compiled"); }
