// lt-proc -e: unknown words as compounds of dictionary words.
#include "proc.h"
#include <algorithm>
static const uint32_t LPART=TAG0+3, RPART=TAG0+4;
static bool has(const U32& v, uint32_t c) { for (auto x : v) if (x==c) return true; return false; }
struct Cmp { U32 r; int parts; bool dirty; double w; };
// every way to cut w[p..p+n) into parts that may stand on the left and a last one that may stand on the right
static void cuts(const std::vector<Ent>& D, const U32& w, size_t p, size_t n, const Opt& o, U32 r, int parts, bool dirty, double wt, std::vector<Cmp>& out) {
  for (auto& e : D) { size_t m=e.l.size(); if (m==0 || m>n) continue; bool d; if (!ematch(e,w,p,m,o,d)) continue; U32 q=r; if (parts) q.push_back('+'); q.insert(q.end(),e.r.begin(),e.r.end());
    if (m==n) { if (has(e.r,RPART)) out.push_back({q,parts+1,dirty||d,wt+e.w}); } else if (has(e.r,LPART)) cuts(D,w,p+m,n-m,o,q,parts+1,dirty||d,wt+e.w,out); } }
static std::string show(const U32& r, bool dirty, bool fu, bool up, bool control) { std::string s; for (size_t i=0;i<r.size();i++) { uint32_t c=r[i]; if (!control && (c==LPART || c==RPART)) continue; if (reserved(c)) s+='\\'; if (!istag(c) && dirty && (up || (fu && i==0))) c=u_toupper(c); put8s(s,c); } return s; }
static std::vector<Ana> compounds(const std::vector<Ent>& D, const U32& w, size_t p, size_t n, const Opt& o, int maxj, bool control) { std::vector<Cmp> c; cuts(D,w,p,n,o,U32(),0,false,0,c); int best=maxj+1; for (auto& x : c) if (x.parts<best) best=x.parts; bool fu=!o.dictcase && w[p]<0x10000 && u_isupper(w[p]), up=fu && n>1 && w[p+n-1]<0x10000 && u_isupper(w[p+n-1]); std::vector<Ana> out; for (auto& x : c) { if (x.parts>best) continue; Ana a{show(x.r,x.dirty,fu,up,control),x.w}; bool dup=false; for (auto& y : out) dup|=y.s==a.s; if (!dup) out.push_back(a); } 
  for (size_t i=1;i<out.size();i++) for (size_t k=i;k>0 && out[k-1].w>out[k].w;k--) std::swap(out[k-1],out[k]); return out; }
static std::vector<Ana> whole(const std::vector<Ent>& D, const U32& w, size_t p, size_t n, const Opt& o, bool control) { std::vector<Ana> out; bool fu=!o.dictcase && w[p]<0x10000 && u_isupper(w[p]), up=fu && n>1 && w[p+n-1]<0x10000 && u_isupper(w[p+n-1]); for (auto& e : D) { bool d; if (has(e.r,LPART) || !ematch(e,w,p,n,o,d)) continue; Ana a{show(e.r,d,fu,up,control),e.w}; bool dup=false; for (auto& y : out) dup|=y.s==a.s; if (!dup) out.push_back(a); } for (size_t i=1;i<out.size();i++) for (size_t k=i;k>0 && out[k-1].w>out[k].w;k--) std::swap(out[k-1],out[k]); return out; }
// words of letters separated by single other characters; the expected output, with '|' choices for readings of equal weight left to permutations
static std::vector<Ana> reading(const std::vector<Ent>& D, const U32& w, size_t p, size_t n, const Opt& o, int maxj, bool control) { std::vector<Ana> a=whole(D,w,p,n,o,control); if (!a.empty()) return a; a=compounds(D,w,p,n,o,maxj,control); if (!a.empty()) return a; U32 low; for (size_t i=0;i<n;i++) low.push_back(u_tolower(w[p+i])); a=whole(D,low,0,n,o,control); if (!a.empty()) return a; return compounds(D,low,0,n,o,maxj,control); }
static bool expect(const std::string& out, size_t at, const std::vector<Ent>& D, const U32& letters, const U32& w, size_t p, const Opt& o, int maxj, bool control) {
  if (p==w.size()) return at==out.size(); std::string e; if (!alnum(w[p],letters)) { if (reserved(w[p])) e+='\\'; put8(e,w[p]); if (out.size()<at+e.size() || !same(out.substr(at,e.size()),e)) return false; return expect(out,at+e.size(),D,letters,w,p+1,o,maxj,control); }
  size_t n=1; while (p+n<w.size() && alnum(w[p+n],letters)) n++; std::string sf; for (size_t i=0;i<n;i++) put8(sf,w[p+i]); std::vector<Ana> a=reading(D,w,p,n,o,maxj,control); if (a.empty()) { e="^"+sf+"/*"+sf+"$"; if (out.size()<at+e.size() || !same(out.substr(at,e.size()),e)) return false; return expect(out,at+e.size(),D,letters,w,p+n,o,maxj,control); }
  std::vector<int> ix; for (size_t i=0;i<a.size();i++) ix.push_back((int)i); do { bool sorted=true; for (size_t i=1;i<ix.size();i++) sorted&=a[ix[i-1]].w<=a[ix[i]].w; if (!sorted) continue; e="^"+sf; for (int i : ix) { e+="/"+a[i].s; if (o.weights) e+=fmtw(a[i].w); } e+="$"; if (out.size()>=at+e.size() && same(out.substr(at,e.size()),e)) return expect(out,at+e.size(),D,letters,w,p+n,o,maxj,control); } while (std::next_permutation(ix.begin(),ix.end()));
  return false; }
#define L "<compound-only-L>"
#define R "<compound-R>"
static std::vector<Ent> dict(unsigned k) { switch (k) {
  case 0: return {ent("a","a<n>" L),ent("b","b<n>" R),ent("ab","ab<v>" L),ent("ba","q<v>" L R),ent("c","c<n>")};
  case 1: return {ent("a","x<n>" L),ent("aa","y<n>" L "<v>"),ent("ab","z<n>" R "<v>"),ent("b","b<x>" L),ent("b","b<n>" R),ent("a","a<n>" R)};
  case 2: return {ent("a","a<n>" L,STD,1),ent("ab","ab<n>" L,STD,0.5),ent("b","b<n>" R,STD,2),ent("bb","bb<n>" R,STD,1.5),ent("b","b<v>" L,STD,0.25)};
  case 3: return {ent("aB","aB<n>" L),ent("a","a<n>" L),ent("é","é<n>" R),ent("b","B<n>" R)};
  case 5: return {ent("a","a<n>" L),ent("aa",L "y"),ent("b","b" R),ent("ab","ab<n>" R),ent("ba",R),ent("b",R "q"),ent("b",L)};
  default: return {ent("𐐨","𐐨<n>" L),ent("a","a<n>" R),ent("a𐐨","x𐐨<n>" R),ent("𐐨a","w<n>" L)}; } }
static void run(unsigned d, const uint32_t* tab, unsigned nt, int n, const Opt& o, int maxj, bool control) { auto D=dict(d); FSTProcessor fp; dict_load(fp,D,"abAB"); if (control) { } fp.initDecomposition(); fp.setDictionaryCaseMode(o.dictcase); fp.setCaseSensitiveMode(o.cs); fp.setDisplayWeightsMode(o.weights); if (maxj!=4) fp.setCompoundMaxElements(maxj);
  U32 t; std::string in; for (int i=0;i<n;i++) { t.push_back(hx_char("c",tab,nt)); put8(in,t.back()); } std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); CHECK(expect(out,0,D,u32_of("abAB"),t,0,o,maxj,control),"an unknown word is not read as the shortest compounds the dictionary allows"); sx_reach(0); }
static const uint32_t T0[]={'a','b','c',' '}, T1[]={'a','b','-'}, T3[]={'a','B','A',0xe9,0xc9,'b'}, T4[]={'a',0x10428,0x10400,'A'};
HARNESS(h_cmp0) { run(0,T0,4,Q(6,7),Opt(),4,false); }
HARNESS(h_cmp1) { run(1,T1,3,Q(7,8),Opt(),4,false); }
HARNESS(h_cmp_w) { Opt o; o.weights=true; W_AT_END=hx_pick("end",2); run(2,T1,3,Q(6,8),o,4,false); }
HARNESS(h_cmp_case) { Opt o; unsigned m=hx_pick("m",3); o.cs=m==1; o.dictcase=m==2; run(3,T3,6,Q(4,5),o,4,false); }
HARNESS(h_cmp_uni) { run(4,T4,4,Q(4,5),Opt(),4,false); }
HARNESS(h_cmp_short) { run(5,T1,3,Q(6,7),Opt(),hx_pick("max",2)?4:2,false); }
HARNESS(h_cmp_max) { int m=1+(int)hx_pick("max",3); run(hx_pick("d",2),T1,2,Q(6,7),Opt(),m,false); }
// every name the two marks may have
HARNESS(h_cmp_names) { static const char* const LN[]={"<:co:only-L>","<:compound:only-L>","<@co:only-L>","<@compound:only-L>","<compound-only-L>"}; static const char* const RN[]={"<:co:R>","<:compound:R>","<@co:R>","<@compound:R>","<compound-R>"}; TAGN[3]=LN[hx_pick("ln",5)]; TAGN[4]=RN[hx_pick("rn",5)]; run(0,T0,3,Q(3,5),Opt(),4,false); }
// a compound whose first part contains a blank
HARNESS(h_cmp_space) { std::vector<Ent> D={ent("a -","p<n>" L),ent("b","b<n>" R),ent("a","a<v>"),ent("b","b<v>"),ent("-","-<x>",INC),ent("a -c","q<n>"),ent("bcbc","k<n>")}; bool aw=hx_pick("aword",2); if (!aw) D.erase(D.begin()+2); FSTProcessor fp; dict_load(fp,D,"abc"); fp.initDecomposition(); static const uint32_t TT[]={'b','c',' ','-',0xe9}; U32 t={'a',' ','-'}; int pre=hx_pick("pre",3); std::string in=pre==1?"bcbc,":pre==2?"b ":""; in+="a -"; std::vector<uint32_t> x; for (int i=0;i<Q(3,4);i++) { x.push_back(hx_char("c",TT,5)); put8(in,x.back()); }
  std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); auto letter=[](uint32_t c){ return c=='b'||c=='c'||c==0xe9; }; size_t n=0; while (n<x.size() && letter(x[n])) n++; std::string e=pre==1?"^bcbc/k<n>$,":pre==2?"^b/b<n>/b<v>$ ":"", e2=pre==2?"^b/b<v>/b<n>$ ":e; std::string rest; size_t i=0;
  if (n==1 && x[0]=='b') { rest="^a -b/p<n>+b<n>$"; i=1; } else if (n==1 && x[0]=='c') { rest="^a -c/q<n>$"; i=1; } else rest=aw?"^a/a<v>$ ^-/-<x>$":"^a/*a$ ^-/-<x>$";
  // the rest word by word
  std::vector<std::string> alt={""}; while (i<x.size()) { if (letter(x[i])) { size_t m=1; while (i+m<x.size() && letter(x[i+m])) m++; std::string sf; for (size_t k=i;k<i+m;k++) put8(sf,x[k]); std::vector<std::string> add; if (m==1 && x[i]=='b') { add.push_back("^b/b<n>/b<v>$"); add.push_back("^b/b<v>/b<n>$"); } else add.push_back("^"+sf+"/*"+sf+"$"); std::vector<std::string> na; for (auto& a : alt) for (auto& b : add) na.push_back(a+b); alt=na; i+=m; } else { if (x[i]=='-') for (auto& a : alt) a+="^-/-<x>$"; else for (auto& a : alt) put8(a,x[i]); i++; } }
  bool ok=false; for (auto& a : alt) ok=ok|same(out,e+rest+a)|same(out,e2+rest+a); CHECK(ok,"a compound that begins with several words is not found, or text around it changes"); sx_reach(n==1); }
