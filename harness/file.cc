// Compiled dictionary files: what is written is what both readers give back.
#include "fstm.h"
#include "proc.h"
#include <lttoolbox/trans_exe.h>
#include <lttoolbox/state.h>
typedef std::pair<int,int> IP;
struct R2 { M m; std::vector<IP> lab; void arc(int s,int t,int l,int r,double w=0) { m.arc(s,t,(int)lab.size(),w); lab.push_back({l,r}); } };
static Transducer rbuild(const R2& r, Alphabet& al) { M m=r.m; for (auto& x : m.a) x.tag=al(r.lab[x.tag].first,r.lab[x.tag].second); return mbuild(m,nullptr); }
static void rel_r2(const R2& r, const int* u,int ul,const int* v,int vl,int* out) { mbest2q(r.m,u,ul,v,vl,out,[&](int t){ return r.lab[t]; }); }
static void rel_t(Transducer& t, const Alphabet& al, const int* u,int ul,const int* v,int vl,int* out) { M m=mfrom(t); mbest2q(m,u,ul,v,vl,out,[&](int k){ return al.decode(k); }); }
static const int SK[6][4][2]={{{0,1},{1,2},{0,2},{2,3}},{{0,1},{1,1},{1,3},{0,2}},{{0,3},{3,0},{3,2},{2,2}},{{0,1},{0,1},{1,2},{2,3}},{{0,2},{2,1},{1,3},{3,3}},{{3,2},{2,1},{1,0},{0,3}}};
static const IP PT[]={{'a','b'},{'b',0},{0x1f600,'a'},{-1,-1},{'a',-2},{'b','b'},{-2,0x1f600},{'a',0}};
// four states (so arcs go forwards and backwards), labels and weights split into paths
static R2 rel(unsigned nsk, unsigned nl, bool weights) { R2 r; r.m.n=4; unsigned k=hx_pick("sk",nsk); static const double W[]={0,1.5,-2.25,1e-3,0.1,12345.678};
  for (int i=0;i<4;i++) { IP p=PT[i<3?hx_pick("lab",nl):(k*3+1)%8]; for (size_t j=0;j<r.m.a.size();j++) if (r.m.a[j].s==SK[k][i][0] && r.m.a[j].t==SK[k][i][1]) sx_assume(r.lab[j]!=p); r.arc(SK[k][i][0],SK[k][i][1],p.first,p.second,weights?W[hx_pick("w",i<2?3:1)]:0.0); }
  r.m.init=k==5?3:0; r.m.fin.push_back({2,weights?1.5*hx_pick("fw",2):0.0}); if (hx_pick("two",2)) r.m.fin.push_back({k==5?0:3,0}); return r; }
static void alpha(Alphabet& al) { al.includeSymbol(u"<n>"); al.includeSymbol(u"<vblex>"); }
static std::string put(std::map<UString,Transducer>& ts, Alphabet& al, UStringView let) { HxOut o; writeTransducerSet(o.f,let,al,ts); return o.done(); }
static const uint32_t TS[]={'a','b',0x1f600,(uint32_t)-1,(uint32_t)-2};
static void words(int* u, int* v, int n) { for (int i=0;i<n;i++) { u[i]=(int)hx_char("u",TS,5); v[i]=(int)hx_char("v",TS,5); } }
static bool eqv(const int* a, const int* b, int n) { bool ok=true; for (int i=0;i<n;i++) ok=ok&(a[i]==b[i]); return ok; }
static void reread(bool weights, bool old) { Alphabet al, al2; alpha(al); std::map<UString,Transducer> ts, ts2; R2 r=rel(Q(6,6),Q(weights?2:4,weights?4:8),weights), r2; r2.m.n=2; r2.arc(0,1,'a','a',weights?2.0:0); r2.m.fin.push_back({1,0}); ts[u"main@standard"]=rbuild(r,al); ts[u"p@postblank"]=rbuild(r2,al); std::string b=put(ts,al,u"ab\xd83d\xde00");
  if (old) { // the format before headers existed
    std::string o; for (size_t i=0;i<b.size();i++) { if (!b.compare(i,4,"LTTB") || !b.compare(i,4,"LTTD")) { i+=11; continue; } o+=b[i]; } b=o; }
  std::set<UChar32> let; FILE* f=hx_reader(b); readTransducerSet(f,let,al2,ts2); fclose(f); CHECK(let.size()==3 && let.count('a') && let.count('b') && let.count(0x1f600),"the letters are not the ones written"); CHECK(ts2.size()==2 && ts2.count(u"main@standard") && ts2.count(u"p@postblank"),"a section is missing");
  const int n=2; int u[3],v[3],x[9],y[9]; words(u,v,n); CHECK(al2(u"<n>")==-1 && al2(u"<vblex>")==-2,"the tags are renumbered"); rel_r2(r,u,n,v,n,x); rel_t(ts2[u"main@standard"],al2,u,n,v,n,y); CHECK(eqv(x,y,9),"a dictionary read back is not the one written"); rel_r2(r2,u,n,v,n,x); rel_t(ts2[u"p@postblank"],al2,u,n,v,n,y); CHECK(eqv(x,y,9),"the second section read back is not the one written"); CHECK(ts2[u"main@standard"].size()==ts[u"main@standard"].size() && ts2[u"main@standard"].getInitial()==ts[u"main@standard"].getInitial(),"the states are not the ones written"); sx_reach(0); }
HARNESS(h_file_fst) { reread(false,false); }
HARNESS(h_file_fst_w) { reread(true,false); }
HARNESS(h_file_old) { reread(false,true); }
// the processor's reader: every path with its output and weight
struct Out { std::string s; double w; };
static void paths(const R2& r, int st, const int* u, int k, int n, std::string o, double w, std::vector<Out>& res) { if (k==n) { double f=r.m.fw(st); if (f<MINF) res.push_back({o,w+f}); } if (o.size()>24) return;
  for (auto& a : r.m.a) { if (a.s!=st) continue; IP p=r.lab[a.tag]; if (k<n && p.first==u[k]) { std::string q=o; if (p.second>0) put8(q,p.second); else if (p.second==-1) q+="<n>"; else if (p.second==-2) q+="<vblex>"; paths(r,a.t,u,k+1,n,q,w+a.w,res); } } }
HARNESS(h_file_exe) { Alphabet al, al2; alpha(al); std::map<UString,Transducer> ts; bool wt=hx_pick("weighted",2); R2 r=rel(Q(4,6),Q(2,4),wt); ts[u"main@standard"]=rbuild(r,al); std::string b=put(ts,al,u"ab"); std::set<UChar32> let; std::map<UString,TransExe> te; FILE* f=hx_reader(b); readTransducerSet(f,let,al2,te); fclose(f); CHECK(te.size()==1,"a section is missing"); TransExe& t=te[u"main@standard"];
  for (int n=0;n<=2;n++) { int u[2]; if (n==1) u[0]=TS[hx_pick("u",Q(3,5))]; if (n==2) { static const int U[4][2]={{'a','b'},{'b','a'},{'a','a'},{'a',0x1f600}}; unsigned k=hx_pick("uu",Q(2,4)); u[0]=U[k][0]; u[1]=U[k][1]; }
    State s; s.init(t.getInitial()); for (int i=0;i<n;i++) s.step(u[i]); std::vector<UString> got; std::set<UChar32> esc; s.filterFinalsArray(got,t.getFinals(),al2,esc,true,1<<20,1<<20); std::vector<Out> exp; paths(r,r.m.init,u,0,n,"",0,exp); std::set<std::string> a, c; for (auto& g : got) { std::string o; for (size_t i=0;i<g.size();) { UChar32 ch; U16_NEXT(g.data(),i,g.size(),ch); put8(o,(uint32_t)ch); } a.insert(o); } for (auto& e : exp) { bool best=true; for (auto& e2 : exp) if (e2.s==e.s && e2.w<e.w) best=false; if (best) c.insert(e.s+fmtw(e.w)); } CHECK(a==c,"the processor reads another dictionary than the one written"); } sx_reach(wt); }
// files from a later version are refused, not misread
HARNESS(h_file_features) { Alphabet al, al2; alpha(al); std::map<UString,Transducer> ts, ts2; R2 r; r.m.n=2; r.arc(0,1,'a','b',1); r.m.fin.push_back({1,0}); ts[u"main@standard"]=rbuild(r,al); std::string b=put(ts,al,u"ab"); size_t p1=4, p2=b.find("LTTD")+4; unsigned which=hx_pick("which",2); size_t p=which?p2:p1; uint64_t f=sx_u64("features"); for (int i=0;i<8;i++) b[p+i]=(char)(f>>(56-8*i)); bool known=which?f<2:f<1; if (which && f==0) sx_end();
  unsigned rd=hx_pick("reader",2); std::set<UChar32> let; std::map<UString,TransExe> te; FILE* in=hx_reader(b); bool ok=hx_try([&]{ if (rd) readTransducerSet(in,let,al2,te); else readTransducerSet(in,let,al2,ts2); }); fclose(in); CHECK(ok==known,"a file with unknown features is accepted, or a known one refused"); sx_reach(ok); }
// writing what was read gives the same bytes
HARNESS(h_file_stable) { Alphabet al, al2; alpha(al); std::map<UString,Transducer> ts, ts2; bool wt=hx_pick("weighted",2); R2 r=rel(Q(3,6),Q(3,6),false); if (wt) { r.m.a[0].w=1.5; r.m.fin[0].second=0.25; } ts[u"main@standard"]=rbuild(r,al); ts[u"x@inconditional"]=Transducer(); std::set<UChar32> let; static const uint32_t LT[]={'a','z',0xe9,0x1f600,0xffff,0x10000}; for (int i=0;i<2;i++) let.insert((UChar32)LT[hx_pick("l",6)]); HxOut o; writeTransducerSet(o.f,let,al,ts); std::string b=o.done(); std::set<UChar32> let2; FILE* f=hx_reader(b); readTransducerSet(f,let2,al2,ts2); fclose(f); CHECK(let==let2,"the letters change when a dictionary is rewritten"); HxOut o2; writeTransducerSet(o2.f,let2,al2,ts2); std::string b2=o2.done(); CHECK(b==b2,"rewriting a dictionary that was read changes it"); sx_reach(0); }
// many states: chains of every length around the sizes where the encoding of state numbers changes, with arcs back and forth
HARNESS(h_file_big) { static const unsigned N[]={62,63,64,65,66,127,128,129,255,256,257,300}; unsigned n=N[hx_pick("n",12)]; static const int BK[]={0,1,2}; unsigned bk=BK[hx_pick("back",3)]; bool wt=hx_pick("weighted",2); Alphabet al, al2, al3; alpha(al); for (unsigned i=0;i<70;i++) { UString x=u"<t"; x+=to_ustring(std::to_string(i).c_str()); x+=u'>'; al.includeSymbol(x); }
  Transducer t; int s=t.getInitial(); std::vector<int> st={s}; for (unsigned i=1;i<n;i++) { int l='a'+i%5, o=i%7==3?al(u"<t69>"):i%7?l:0; s=t.insertNewSingleTransduction(al(l,o),s,wt?0.25*(i%3):0.0); st.push_back(s); } t.linkStates(st[n-1],st[bk==2?n/2:bk],al('z',0),wt?1.5:0.0); t.linkStates(st[0],st[n-1],al('y','y'),0.0); t.setFinal(st[n-1],wt?2.0:0.0); t.setFinal(st[n/2],0.0);
  std::map<UString,Transducer> ts,ts2; ts[u"main@standard"]=t; ts[u"b@standard"]=t; std::string b=put(ts,al,u"abc"); std::set<UChar32> let; FILE* f=hx_reader(b); readTransducerSet(f,let,al2,ts2); fclose(f); CHECK(ts2.size()==2,"a section is missing"); for (auto& p : ts2) { M x=mfrom(t), y=mfrom(p.second); auto key=[](const M& m){ std::set<std::vector<int>> k; for (auto& a : m.a) k.insert({a.s,a.t,a.tag,(int)(a.w*100)}); for (auto& q : m.fin) k.insert({q.first,(int)(q.second*100)}); return k; }; CHECK(x.init==y.init && key(x)==key(y),"a large dictionary read back is not the one written"); }
  std::map<UString,TransExe> te; f=hx_reader(b); let.clear(); readTransducerSet(f,let,al3,te); fclose(f); TransExe& e=te[u"main@standard"]; State q; q.init(e.getInitial()); bool go=hx_pick("loop",2); unsigned i0=0; if (go) { q.step('y'); q.step('z'); i0=bk==2?n/2:bk; } for (unsigned i=i0+1;i<n;i++) { CHECK(q.size()==1,"the processor loses its way in a large dictionary"); q.step('a'+i%5); } CHECK(q.size()==1 && q.isFinal(e.getFinals()),"the processor does not reach the end of a large dictionary"); q.step('q'); CHECK(q.size()==0,"the processor follows an arc that is not there"); sx_reach(0); }
