// lt-proc -p / -t: left-to-right longest-match rewriting of plain text.
#include "proc.h"
struct W { std::string blank, wb; U32 s; std::vector<std::string> inner; };
static std::string merge(const std::string& a, const std::string& b) { if (a.empty()) return b; if (b.empty()) return a; return a.substr(0,a.size()-2)+"; "+b.substr(2); }
static int spaces(const U32& w) { int n=0; for (auto c : w) n+=c==' '; return n; }
// longest rule that matches v from s on; its replacement
static size_t longest(const std::vector<Ent>& D, const U32& v, size_t s, const U32& letters, U32& rep) {
  size_t best=0; const Ent* be=nullptr; for (auto& e : D) { if (e.l.size()<=best || s+e.l.size()>v.size()) continue; bool d=false, ok=true; for (size_t i=0;i<e.l.size() && ok;i++) ok=chmatch(v[s+i],e.l[i],false,d); if (ok) { best=e.l.size(); be=&e; } }
  if (!be) return 0; bool d=false, fu=false, up=false; int seen=0; for (size_t i=0;i<best;i++) { chmatch(v[s+i],be->l[i],false,d); if (alnum(v[s+i],letters)) { if (seen==0) { fu=u_isupper(v[s+i]); seen=fu?1:2; } else if (seen==1) { up=u_isupper(v[s+i]); seen=2; } } }
  rep.clear(); for (size_t i=0;i<be->r.size();i++) { uint32_t c=be->r[i]; if (i<best && !istag(v[s+i]) && u_isupper(v[s+i]) && c==(uint32_t)u_tolower(v[s+i])) c=v[s+i]; if (d && up && !istag(c)) c=u_toupper(c); rep.push_back(c); }
  if (d && fu && !rep.empty()) { size_t k=rep[0]=='~'?1:0; if (k<rep.size() && rep[k]<0x10000) rep[k]=u_toupper(rep[k]); }
  return best; }
static std::string ref_post(const std::vector<Ent>& D, const U32& letters, std::vector<W> ws, const std::string& tail, bool drop) {
  std::string out; for (size_t k=0;k<ws.size();) { U32 cur=ws[k].s; std::vector<std::string> bl=ws[k].inner; std::string wb=ws[k].wb, lead=ws[k].blank; k++; int diff=0; size_t s=0;
    while (s<cur.size()) { U32 v=cur; std::vector<size_t> cut; for (size_t j=k;j<ws.size();j++) { cut.push_back(v.size()); v.push_back(' '); v.insert(v.end(),ws[j].s.begin(),ws[j].s.end()); }
      U32 rep; size_t n=longest(D,v,s,letters,rep); if (!n) { s++; continue; } size_t m=s+n; // words reached by the match become one
      size_t nj=0; for (size_t c : cut) if (m>c) { if (m==c+1 && !rep.empty() && rep.back()==' ') { rep.pop_back(); m=c; break; } nj++; }
      while (nj--) { cur.push_back(' '); cur.insert(cur.end(),ws[k].s.begin(),ws[k].s.end()); bl.push_back(ws[k].blank); bl.insert(bl.end(),ws[k].inner.begin(),ws[k].inner.end()); wb=merge(wb,ws[k].wb); k++; }
      size_t i=0; while (i<rep.size() && i<m-s && rep[rep.size()-1-i]==cur[m-1-i]) i++;
      U32 nw(cur.begin(),cur.begin()+s); nw.insert(nw.end(),rep.begin(),rep.end()); nw.insert(nw.end(),cur.begin()+m,cur.end()); diff+=spaces(nw)-spaces(cur); size_t src=m-s; cur=nw; s+=rep.size()-i; if (i==src) s++; }
    out+=lead; out+=wb; int sc=spaces(cur), so=0; size_t q=0; for (auto c : cur) { if (c==' ') { if (so+diff>=sc) out+=' '; else out+=bl[q++]; so++; } else if (drop && c=='~') {} else { if (!istag(c) && reserved(c)) out+='\\'; put8s(out,c); } }
    if (!wb.empty()) out+="[[/]]"; while (q<bl.size()) { if (bl[q]!=" ") out+=bl[q]; q++; } }
  return out+tail; }
static std::string text(const std::vector<W>& ws) { std::string o; for (auto& w : ws) { size_t q=0; o+=w.blank+w.wb; for (auto c : w.s) { if (c==' ') { o+=w.inner[q++]; continue; } if (!istag(c) && reserved(c)) o+='\\'; put8s(o,c); } if (!w.wb.empty()) o+="[[/]]"; } return o; }
static std::vector<Ent> dict(unsigned k) { switch (k) {
  case 0: return {ent("ab","x"),ent("ba","yyy"),ent("a b","a-b"),ent("abb","abc")};
  case 1: return {ent("~a b","~c b"),ent("a ","bb"),ent("b a","q a ")  ,ent("bb","b b")};
  case 2: return {ent("a","xa"),ent("b ","c "),ent("ba b","d"),ent("é","É@")};
  case 3: return {ent("ab","cab"),ent("aé","é"),ent("b","")};
  case 5: return {ent("a<n>","b"),ent("<n>","<v>a"),ent("b<v>","<v>c"),ent("a b","<n>")};
  default: return {ent("a b a","c"),ent("a b","a c"),ent("bb","aéb"),ent("b","b<n>")}; } }
static std::vector<W> split(const U32& t, std::string& tail) { std::vector<W> ws; std::string b; W cur; bool in=false; for (auto c : t) { if (c==' ') { if (in) { ws.push_back(cur); in=false; } b+=' '; } else { if (!in) { cur=W(); cur.blank=b; b.clear(); in=true; } cur.s.push_back(c); } } if (in) ws.push_back(cur); tail=b; return ws; }
static void plain(unsigned d, const uint32_t* tab, unsigned nt, int n, bool drop) { FSTProcessor fp; dict_load(fp,dict(d),"ab"); fp.initPostgeneration(); U32 t; for (int i=0;i<n;i++) t.push_back(hx_char("c",tab,nt)); std::string in; for (auto c : t) { if (reserved(c)) in+='\\'; put8(in,c); } std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ if (drop) fp.postgeneration(i,u); else fp.intergeneration(i,u); }); std::string tail; std::vector<W> ws=split(t,tail); CHECK(same(out,ref_post(dict(d),u32_of("ab"),ws,tail,drop)),"the text is not rewritten by the longest rules from left to right"); sx_reach(0); }
static const uint32_t A0[]={'a','b',' ','x'}, A1[]={'a','b','~',' '}, A2[]={'a','b',' ',0xe9}, A3[]={'a','B','A','b',0xe9}, A4[]={'a','b',' '}, A5[]={'a','A','B',' '};
HARNESS(h_post0) { plain(0,A0,4,Q(6,7),true); }
HARNESS(h_post1) { plain(1,A1,4,Q(6,7),hx_pick("drop",2)); }
HARNESS(h_post2) { plain(2,A2,4,Q(5,6),true); }
HARNESS(h_post3) { plain(3,A3,5,Q(4,6),true); }
HARNESS(h_post4) { plain(4,A4,3,Q(7,8),true); }
HARNESS(h_post_case) { plain(hx_pick("d",2),A5,4,Q(5,6),true); }
// blanks with formatting and word-bound blanks keep their place
HARNESS(h_post_blank) { unsigned d=hx_pick("d",5); FSTProcessor fp; dict_load(fp,dict(d),"ab"); fp.initPostgeneration(); std::vector<W> ws; static const uint32_t LT[]={'a','b'}, BC[]={'x','^','\n','$'}; static const uint32_t TL[]={'a','b'};
  for (int k=0;k<3;k++) { W w; switch (hx_pick("bl",3)) { case 0: w.blank=k?" ":""; break; case 1: w.blank="["; put8(w.blank,hx_char("b",BC,4)); w.blank+="]"; break; case 2: w.blank=" [y]\n"; break; } if (k!=1 && hx_pick("wb",2)) w.wb=k?"[[t:2]]":"[[t:1]]"; w.s.push_back(hx_char("c",LT,2)); if (k==Q(0,1)) w.s.push_back(hx_char("c",TL,2)); ws.push_back(w); }
  std::string tail=hx_pick("tail",2)?" [z]":""; std::string in=text(ws)+tail; std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.postgeneration(i,u); }); CHECK(same(out,ref_post(dict(d),u32_of("ab"),ws,tail,true)),"a blank is lost, doubled or moved by post-generation"); sx_reach(0); }
// word-bound blanks over several words, also next to each other
HARNESS(h_post_span) { static const unsigned DS[]={0,1,2,4}; unsigned d=DS[hx_pick("d",4)]; FSTProcessor fp; dict_load(fp,dict(d),"ab"); fp.initPostgeneration(); static const uint32_t LT[]={'a','b','/'}; static const char* const BL[]={" ","[x]","\n [y]"}; std::vector<W> ws; W a; a.wb="[[t:1]]"; unsigned sh=hx_pick("shape",3); a.s={hx_char("c",LT,Q(2,3)),' '}; a.inner={BL[hx_pick("i",Q(2,3))]}; if (sh<2) a.s.push_back(hx_char("c",LT,3)); if (sh==1) { a.s.push_back(' '); a.inner.push_back(" "); a.s.push_back(hx_char("c",LT,Q(2,3))); }
  W b; b.blank=hx_pick("gap",2)?" ":"[z]"; b.s={hx_char("c",LT,2)}; if (hx_pick("wb",2)) { b.wb="[[t:2]]"; if (hx_pick("two",2)) { b.s.push_back(' '); b.inner={BL[1]}; b.s.push_back('b'); } } if (hx_pick("order",2)) { std::swap(a,b); a.blank=""; b.blank=" "; } ws={a,b}; std::string out=proc_run(text(ws),[&](InputFile& i, UFILE* u){ fp.postgeneration(i,u); }); CHECK(same(out,ref_post(dict(d),u32_of("ab"),ws,"",true)),"a word-bound blank over several words, or a blank in it, is lost or moved"); sx_reach(0); }
// tags in the text
HARNESS(h_post_tags) { FSTProcessor fp; dict_load(fp,dict(5),"ab"); fp.initPostgeneration(); static const uint32_t TT[]={'a','b',TAG0,TAG0+1,' '}; W a,b; int n=1+hx_pick("n",Q(3,4)); for (int i=0;i<n;i++) a.s.push_back(hx_char("c",TT,4)); b.blank=" "; b.s={hx_char("c",TT,4)}; for (W* w : {&a,&b}) for (auto& c : w->s) c=(uint32_t)sx_concretize(c); std::vector<W> ws={a,b}; std::string out=proc_run(text(ws),[&](InputFile& i, UFILE* u){ fp.transliteration(i,u); }); CHECK(same(out,ref_post(dict(5),u32_of("ab"),ws,"",false)),"text with tags is not rewritten by the longest rules"); sx_reach(0); }
// nothing matches: the text comes back byte for byte, apart from the wake-up mark
HARNESS(h_post_id) { std::vector<Ent> D={ent("zz","y")}; FSTProcessor fp; dict_load(fp,D,"z"); fp.initPostgeneration(); static const uint32_t R0[]={1,9,0x7f,0x80,0xa0,0xad,0xdf,0x130,0x3000,0xfffe,0xd7ff,0xe000,0x10ffff,0x10000,0x1f600,'~','+','*','#','%','"','Z','z','\n','\r'}; unsigned n=sizeof R0/sizeof *R0; U32 t; t.push_back(hx_char("c",R0,n)); t.push_back(hx_char("d",RESV,11)); std::string in, exp; for (auto c : t) { if (reserved(c)) in+='\\'; put8(in,c); } in+=" [b] "; bool drop=hx_pick("drop",2); for (auto c : t) { if (drop && c=='~') continue; if (reserved(c)) exp+='\\'; put8(exp,c); } exp+=" [b] ";
  std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ if (drop) fp.postgeneration(i,u); else fp.transliteration(i,u); }); CHECK(same(out,exp),"text that no rule matches is changed"); sx_reach(0); }
HARNESS(h_post_null) { unsigned d=hx_pick("d",5); FSTProcessor fp; dict_load(fp,dict(d),"ab"); fp.initPostgeneration(); fp.setNullFlush(true); std::string in, exp; for (int k=0;k<2;k++) { U32 t; int n=hx_pick("len",4); for (int i=0;i<n;i++) t.push_back(hx_char("c",A4,3)); for (auto c : t) put8(in,c); std::string tail; std::vector<W> ws=split(t,tail); exp+=ref_post(dict(d),u32_of("ab"),ws,tail,true); in+='\0'; exp+='\0'; }
  std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.postgeneration(i,u); }); CHECK(same(out,exp),"a part between nulls is not processed on its own"); sx_reach(0); }
// blanks with any contents
HARNESS(h_post_any) { unsigned d=hx_pick("d",2); FSTProcessor fp; dict_load(fp,dict(d),"ab"); fp.initPostgeneration(); bool wb=hx_pick("w",2); W a,b; static const uint32_t LT[]={'a','b'}; a.s={hx_char("c",LT,2)}; b.s={hx_char("c",LT,2)}; b.blank=" "; (wb?a.wb:b.blank)=anyblank(wb,Q(2,3)); std::vector<W> ws={a,b}; std::string out=proc_run(text(ws),[&](InputFile& i, UFILE* u){ fp.postgeneration(i,u); }); CHECK(same(out,ref_post(dict(d),u32_of("ab"),ws,"",true)),"a blank is lost, doubled, moved or changed by post-generation"); sx_reach(0); }
