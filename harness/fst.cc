// Transducer algebra: every operation has its specified effect on the weighted language, compared with the plain
// arc-list oracle of fstm.h on a symbolic word.
#include "fstm.h"
// skeletons: (source,target) of the arcs over states 0..n-1
struct Sk { int n; int na; int a[6][2]; };
static const Sk SK[]={
  {3,3,{{0,1},{1,2},{0,2}}}, {3,3,{{0,1},{1,1},{1,2}}}, {3,3,{{0,1},{1,2},{2,1}}}, {3,3,{{0,1},{0,2},{2,1}}}, {3,4,{{0,1},{1,0},{0,2},{2,2}}},
  {4,4,{{0,1},{0,2},{1,3},{2,3}}}, {4,4,{{0,1},{1,2},{2,3},{0,3}}}, {3,4,{{0,1},{0,1},{1,2},{1,2}}}, {2,3,{{0,0},{0,1},{1,1}}}, {4,5,{{0,1},{1,2},{2,0},{1,3},{3,3}}} };
static M sym_aut(unsigned nsk, unsigned ntag, unsigned nw, unsigned nfw, unsigned base=0) {
  const Sk& s=SK[base+hx_pick("skel",nsk)]; M m; m.n=s.n;
  static const uint32_t TAG[]={0,1,2,3}; unsigned budget=2;
  for (int i=0;i<s.na;i++) { int tag=(int)hx_char("tag",TAG,ntag); double w=0; if (nw>1 && budget) { w=wpick("w",nw); budget--; }
    for (auto& x : m.a) if (x.s==s.a[i][0] && x.t==s.a[i][1]) sx_assume(x.tag!=tag);
    m.arc(s.a[i][0],s.a[i][1],tag,w); }
  unsigned f=1+hx_pick("finals",(1u<<(s.n<3?s.n:3))-1); for (int i=0;i<3;i++) if (f&(1u<<i)) m.fin.push_back({i==2?s.n-1:i,nfw>1?wpick("fw",nfw):0.0});
  return m;
}
static void sym_word(int* w, unsigned len, unsigned ntag) { static const uint32_t TAG[]={1,2,3}; for (unsigned i=0;i<len;i++) w[i]=(int)hx_char("c",TAG,ntag); }
static void same_language(const M& a, Transducer& t, const char* msg, unsigned len, unsigned ntag) { M b=mfrom(t); int w[8],x[9],y[9]; sym_word(w,len,ntag); mbestq(a,w,len,x); mbestq(b,w,len,y); bool ok=true; for (unsigned i=0;i<=len;i++) ok=ok&(x[i]==y[i]); CHECK(ok,msg); }
static bool det(const M& m) { for (size_t i=0;i<m.a.size();i++) for (size_t j=0;j<i;j++) if (m.a[i].s==m.a[j].s && m.a[i].tag==m.a[j].tag && m.a[i].w==m.a[j].w) return false; return true; }
HARNESS(h_determinize) { M m=sym_aut(Q(5,9),3,1,1,0); Transducer t=mbuild(m); t.determinize(); M b=mfrom(t); CHECK(det(b),"determinize left two arcs with one label in a state"); for (auto& x : b.a) CHECK(x.tag!=0,"determinize left an empty arc"); same_language(m,t,"determinize changed the language",3,2); sx_reach(0); }
HARNESS(h_minimize) { M m=sym_aut(Q(5,9),3,1,1,0); Transducer t=mbuild(m); t.minimize(); M b=mfrom(t); CHECK(det(b),"minimize left two arcs with one label in a state"); same_language(m,t,"minimize changed the language",3,2); sx_reach(0); }
HARNESS(h_minimize_w) { M m=sym_aut(Q(2,4),3,Q(2,3),2,Q(0,0)); Transducer t=mbuild(m); t.minimize(); M b=mfrom(t); CHECK(det(b),"minimize left two identical arcs"); same_language(m,t,"minimize changed the weight of a string",Q(2,3),2); sx_reach(0); }
HARNESS(h_determinize_w) { M m=sym_aut(Q(2,4),3,Q(2,3),2,Q(5,5)); Transducer t=mbuild(m); t.determinize(); same_language(m,t,"determinize changed the weight of a string",Q(2,3),2); sx_reach(0); }
HARNESS(h_reverse) { M m=sym_aut(Q(4,9),3,2,2,Q(1,0)); Transducer t=mbuild(m); t.reverse(); M b=mfrom(t); int w[8],r[8],x[9],y[9]; int n=Q(3,4); sym_word(w,n,2); for (int i=0;i<n;i++) r[i]=w[n-1-i]; mbestq(m,w,n,x); mbestq(b,r,n,y); CHECK(x[n]==y[n],"reverse: a string and its mirror image differ in weight"); sx_reach(0); }
// ---------------------------------------------------------------- combinators
static void cat_model(M& m, const M& b, int from, int& last) { // append a copy of b after state `from`; `last` is a fresh state reached after b
  int off=m.n; m.n+=b.n+1; last=m.n-1; m.arc(from,off+b.init,0,0); for (auto& x : b.a) m.arc(off+x.s,off+x.t,x.tag,x.w); for (auto& f : b.fin) m.arc(off+f.first,last,0,f.second); }
static M small_aut(const char* nm, unsigned ntag, unsigned nw, unsigned nfw) { // 2-3 states, 2 arcs
  static const int sk[4][2][2]={{{0,1},{1,2}},{{0,1},{0,2}},{{0,1},{1,0}},{{0,1},{1,1}}}; static const uint32_t TAG[]={0,1,2}; M m; m.n=3; unsigned k=hx_pick(nm,4);
  for (int i=0;i<2;i++) m.arc(sk[k][i][0],sk[k][i][1],(int)hx_char("tag",TAG,ntag),nw>1?wpick("w",nw):0.0);
  unsigned f=hx_pick("fin",3); if (f!=1) m.fin.push_back({k==2||k==3?1:2,nfw>1?wpick("fw",nfw):0.0}); if (f>=1) m.fin.push_back({f==1?1:0,nfw>1?wpick("fw",nfw):0.0}); return m; }
HARNESS(h_insert_transducer) { M a=small_aut("ska",3,1,2), b=small_aut("skb",3,1,2); std::vector<int> st; Transducer t=mbuild(a,&st), u=mbuild(b); unsigned at=hx_pick("at",3); int r=t.insertTransducer(st[at],u); double fw=wpick("last",2); t.setFinal(r,fw);
  int last; cat_model(a,b,at,last); a.fin.push_back({last,fw}); same_language(a,t,"insertTransducer: the inserted part does not read exactly its strings with their weights",3,2); M ub=mfrom(u); sx_reach(0); }
HARNESS(h_union) { M a=small_aut("ska",3,1,2), b=small_aut("skb",3,1,2); Transducer t=mbuild(a), u=mbuild(b); Alphabet al; t.unionWith(al,u); int last; cat_model(a,b,a.init,last); a.fin.push_back({last,0}); same_language(a,t,"unionWith is not the union",3,2); sx_reach(0); }
HARNESS(h_optional) { M a=sym_aut(Q(4,6),3,1,2,Q(1,0)); Transducer t=mbuild(a); t.optional(); M b=a; b.n=a.n+2; b.init=a.n; b.arc(a.n,a.init,0,0); b.arc(a.n,a.n+1,0,0); b.fin.push_back({a.n+1,0}); same_language(b,t,"optional does not add exactly the empty string",Q(2,3),2); sx_reach(0); }
static void kleene(const M& a, Transducer& t, bool zero, const char* msg, int n) { // weight of the best decomposition into pieces
  M b=mfrom(t); int w[6],y[7]; sym_word(w,n,2); mbestq(b,w,n,y); int B[6][7]; for (int j=0;j<=n;j++) mbestq(a,w+j,n-j,B[j]); int P[7]; bool ok=true;
  for (int i=0;i<=n;i++) { P[i]=B[0][i]; for (int j=1;j<i;j++) P[i]=imin(P[i],isel((P[j]>=IINF/2)|(B[j][i-j]>=IINF/2),IINF,P[j]+B[j][i-j])); int e=P[i]; if (zero && i==0) e=imin(e,0); ok=ok&(e==y[i]); } CHECK(ok,msg); }
HARNESS(h_one_or_more) { M a=small_aut("ska",3,2,2); Transducer t=mbuild(a); t.oneOrMore(); kleene(a,t,false,"oneOrMore is not the positive closure",Q(3,4)); sx_reach(0); }
HARNESS(h_zero_or_more) { M a=small_aut("ska",3,2,2); Transducer t=mbuild(a); t.zeroOrMore(); kleene(a,t,true,"zeroOrMore is not the closure",Q(3,4)); sx_reach(0); }
HARNESS(h_join_finals) { M a=sym_aut(Q(4,9),3,1,2,0); Transducer t=mbuild(a); t.joinFinals(); CHECK(t.getFinals().size()==1,"joinFinals leaves several final states"); same_language(a,t,"joinFinals changed the language",Q(2,3),2); sx_reach(0); }
HARNESS(h_closure) { M a=sym_aut(Q(6,10),3,1,1,0); std::vector<int> st; Transducer t=mbuild(a,&st); unsigned s=hx_pick("s",2); std::set<int> c=t.closure(st[s]); auto all=t.closure_all(0);
  std::vector<int> d(a.n,IINF); d[s]=0; MQ q=mq(a); mclose(q,d,0); bool ok=true,ok2=true; for (int i=0;i<a.n;i++) { ok=ok&((d[i]==0)==(c.count(st[i])!=0)); ok2=ok2&((d[i]==0)==(all[st[s]].count(st[i])!=0)); } CHECK(ok,"closure is not the set of states reachable by empty arcs"); CHECK(ok2,"closure_all is not the set of states reachable by empty arcs"); sx_reach(0); }
// trie insertion: after inserting symbolic strings the language is exactly those strings
HARNESS(h_trie) { Transducer t; static const uint32_t TAG[]={1,2,3}; int ws[3][3], len[3]; for (int k=0;k<Q(2,3);k++) { len[k]=1+hx_pick("len",3); int s=t.getInitial(); for (int i=0;i<len[k];i++) { ws[k][i]=(int)hx_char("c",TAG,2); s=t.insertSingleTransduction(ws[k][i],s); CHECK(s>=0,"insertSingleTransduction failed"); } t.setFinal(s); CHECK(t.isFinal(s),"setFinal"); }
  M b=mfrom(t); CHECK(det(b),"string insertion made two arcs with one label"); int w[4],y[5]; int n=4; sym_word(w,n,2); mbestq(b,w,n,y); bool ok=true; for (int i=0;i<=n;i++) { bool in=false; for (int k=0;k<Q(2,3);k++) if (len[k]==i) { bool e=true; for (int j=0;j<i;j++) e=e&(ws[k][j]==w[j]); in=in|e; } ok=ok&(in==(y[i]==0)); } CHECK(ok,"the inserted strings are not exactly the language"); sx_reach(0); }
// copies are independent values
HARNESS(h_copy) { M a=sym_aut(Q(4,9),3,2,2,0); Transducer t=mbuild(a); Transducer c(t), d; d=t; d=d; Transducer& e=t; int s=e.insertNewSingleTransduction(1,e.getInitial(),0); e.setFinal(s); e.joinFinals(); e.minimize(); unsigned k=hx_pick("which",2); same_language(a,k?c:d,"a copy changed when the original was modified",Q(2,3),2); sx_reach(0); }
HARNESS(h_clear) { M a=small_aut("ska",3,2,2); Transducer t=mbuild(a); CHECK(!t.isEmpty(),"isEmpty on a non-empty transducer"); t.clear(); CHECK(t.isEmpty()&&t.hasNoFinals()&&t.numberOfTransitions()==0,"clear leaves something behind"); int s=t.insertSingleTransduction(1,t.getInitial()); t.setFinal(s); M b; b.n=2; b.arc(0,1,1); b.fin.push_back({1,0}); same_language(b,t,"a cleared transducer is not usable",2,2); sx_reach(0); }
