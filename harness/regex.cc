// Regular expressions in dictionary entries.
#include "fstm.h"
#include <lttoolbox/regexp_compiler.h>
#include "dix.h"
// reference: recursive descent into a tree, matching by sets of positions
struct Nd { char k; uint32_t c; int a=-1,b=-1; bool neg=false; std::vector<std::pair<uint32_t,uint32_t>> rs; };
struct Rx { const std::vector<uint32_t>& s; size_t p=0; std::vector<Nd> n; bool bad=false;
  Rx(const std::vector<uint32_t>& x):s(x) {}
  static bool res(uint32_t c) { return c=='('||c==')'||c=='['||c==']'||c=='*'||c=='?'||c=='+'||c=='-'||c=='^'||c=='\\'||c=='|'; }
  bool is(uint32_t c) { return p<s.size() && s[p]==c; }
  int mk(Nd x) { n.push_back(x); return (int)n.size()-1; }
  bool letter(uint32_t& c) { if (p>=s.size()) return false; if (s[p]=='\\') { p++; if (p>=s.size() || !res(s[p])) return false; c=s[p++]; return true; } if (res(s[p])) return false; c=s[p++]; return true; }
  int alt() { int l=cat(); while (!bad && is('|')) { p++; int r=cat(); l=mk({'|',0,l,r}); } return l; }
  int cat() { int l=-1; for (;;) { if (bad) return l; if (p>=s.size() || is('|') || is(')')) break; int t=term(); l=l<0?t:mk({'.',0,l,t}); } if (l<0) bad=true; return l; }
  int term() { int t=-1; if (is('(')) { p++; t=alt(); if (bad || !is(')')) { bad=true; return t; } p++; } else if (is('[')) { p++; Nd x{'[',0}; if (is('^')) { p++; x.neg=true; } while (!is(']')) { uint32_t a,b; if (!letter(a)) { bad=true; return t; } b=a; if (is('-')) { p++; if (!letter(b) || a>b) { bad=true; return t; } } x.rs.push_back({a,b}); } p++; if (x.rs.empty() && !x.neg) { bad=true; return t; } t=mk(x); } else { uint32_t c; if (!letter(c)) { bad=true; return t; } t=mk({'c',c}); }
    if (is('*')||is('?')||is('+')) { char k=is('*')?'*':is('?')?'?':'+'; p++; t=mk({k,0,t}); } return t; }
  int parse() { int r=alt(); if (p!=s.size()) bad=true; return r; }
  int step(int i, int m, const int* u, int len) { const Nd x=n[i]; switch (x.k) {
    case 'c': { int o=0; for (int k=0;k<len;k++) o|=isel(u[k]==(int)x.c,(m>>k&1)<<(k+1),0); return o; }
    case '[': { int o=0; for (int k=0;k<len;k++) { bool h=false; for (auto& r : x.rs) h=h|((u[k]>=(int)r.first)&(u[k]<=(int)r.second)); if (x.neg) h=(!h)&(u[k]<256)&(u[k]>0); o|=isel(h,(m>>k&1)<<(k+1),0); } return o; }
    case '.': return step(x.b,step(x.a,m,u,len),u,len);
    case '|': return step(x.a,m,u,len)|step(x.b,m,u,len);
    case '?': return m|step(x.a,m,u,len);
    default: { int o=x.k=='*'?m:0, cur=m; for (int k=0;k<=len;k++) { cur=step(x.a,cur,u,len); o|=cur; } return o; } } } };
static void check_re(const std::vector<uint32_t>& s, const uint32_t* tab, unsigned nt, int len) { Rx r(s); int root=r.parse(); std::vector<int32_t> v(s.begin(),s.end()); Alphabet al; RegexpCompiler rc; rc.initialize(&al);
  if (r.bad) { sx_exit_policy(1); sx_reach(1); rc.compile(v); CHECK(false,"an invalid regular expression is accepted"); return; }
  rc.compile(v); sx_reach(0); int u[4], got[25]; for (int i=0;i<len;i++) u[i]=(int)hx_char("u",tab,nt); M m=mfrom(rc.getTransducer()); mbest2q(m,u,len,u,len,got,[&](int t){ auto p=al.decode(t); return std::make_pair((int)p.first,(int)p.second); });
  int want=r.step(root,1,u,len); bool ok=true; for (int i=0;i<=len;i++) ok=ok&(got[i*(len+1)+i]==isel((want>>i&1)!=0,0,IINF)); CHECK(ok,"the compiled expression does not accept exactly the strings it describes"); }
static const uint32_t ALL[]={'a','b','(',')','[',']','*','?','+','|','\\','-','^'}, OPS[]={'a','(',')','*','|','b','?','+'}, BRK[]={'a','b',']','-','\\','^','c'}, LET[]={'a','b','c','(','-'}, LE2[]={'a','b'};
static std::vector<uint32_t> toks(const uint32_t* t, unsigned nt, unsigned n) { std::vector<uint32_t> s; for (unsigned i=0;i<n;i++) s.push_back(hx_char("t",t,nt)); return s; }
HARNESS(h_re_all) { check_re(toks(ALL,13,1+hx_pick("n",Q(3,4))),LET,5,2); }
HARNESS(h_re_ops) { check_re(toks(OPS,Q(6,8),Q(5,6)),LE2,2,3); }
HARNESS(h_re_brk) { std::vector<uint32_t> s={'['}; for (auto c : toks(BRK,7,Q(3,4))) s.push_back(c); s.push_back(']'); if (hx_pick("post",2)) { sx_assume(s[1]!='^'); s.push_back('+'); } check_re(s,LET,5,2); }
HARNESS(h_re_nest) { std::vector<uint32_t> s={'('}; for (auto c : toks(OPS,5,3)) s.push_back(c); s.push_back(')'); s.push_back("*+?b|"[hx_pick("p",5)]); s.push_back("abc("[hx_pick("q",3)]); if (hx_pick("r",2)) s.push_back('*'); check_re(s,LET,3,3); }
HARNESS(h_re_neg) { std::vector<uint32_t> s={'[','^'}; static const uint32_t N[]={'a',0xff,1,0xe9}; s.push_back(hx_char("c",N,4)); unsigned k=hx_pick("k",3); if (k==1) { s.push_back('-'); s.push_back(0xf0); } if (k==2) s.push_back('b'); s.push_back(']'); static const uint32_t V[]={'a','b',0xff,1,0xe9,0xea,0xf0,0xf1}; check_re(s,V,8,Q(1,2)); }
HARNESS(h_re_uni) { static const uint32_t X[]={0x1f600,0x1f601,0xe9,'a','-'}; std::vector<uint32_t> s; if (hx_pick("b",2)) { s={'[',hx_char("c",X,4),'-',0x1f601,']'}; if (s[1]<0x10000) { s[3]=s[1]+1; } } else { s={hx_char("c",X,4),'?',hx_char("d",X,4),'+'}; } check_re(s,X,4,3); }
// in a dictionary: the text of the element, and entries around it
HARNESS(h_re_entry) { static const char* const R[]={"a+","(a|b)c?","[a-c]","a\\+","b|aa","[^a-y]?c"}; Dix d; d.letters="abc"; unsigned k=hx_pick("re",5); d.ss={{"main","standard",{en({id("a"),re(R[k],{}),pr("b","c")}),en({id("c")})}}}; if (hx_pick("par",2)) { d.ps={{"P",{en({re(R[k],{})})}}}; d.ss[0].es[0].e={id("a"),par("P"),pr("b","c")}; } DOpt o; o.rl=hx_pick("rl",2); Loaded L; load_bytes(L,compile(xml_of(d),o)); sx_reach(0);
  std::vector<uint32_t> s; for (const char* p=R[k];*p;p++) s.push_back((unsigned char)*p); Rx r(s); int root=r.parse(); const int n=4; int u[4], got[25]; static const uint32_t W[]={'a','b','c','+'}; for (int i=0;i<n;i++) u[i]=(int)hx_char("u",W,4);
  // the string on the left, with the last letter changed on the right
  int v[4]; for (int i=0;i<n;i++) v[i]=u[i]; unsigned len=1+hx_pick("len",4); int want=IINF; if (len==1) want=isel(u[0]=='c',0,IINF); else { int m=r.step(root,isel(u[0]=='a',2,0),u,n); want=isel((m>>(len-1)&1)!=0 && u[len-1]==(o.rl?'c':'b'),0,IINF); v[len-1]=isel(u[len-1]==(o.rl?'c':'b'),o.rl?'b':'c',u[len-1]); }
  M m=mfrom(L.ts[u"main@standard"]); mbest2q(m,u,len,v,len,got,[&](int t){ auto p=L.al.decode(t); return std::make_pair((int)p.first,(int)p.second); }); CHECK(got[(len+1)*(len+1)-1]==want,"an entry with a regular expression does not hold exactly its strings"); }
