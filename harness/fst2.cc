// Relational operations on transducers over a symbol alphabet: composition, inversion, trimming, renaming, deletion.
#include "fstm.h"
typedef std::pair<int,int> IP;
struct R2 { M m; std::vector<IP> lab; void arc(int s,int t,int l,int r,double w=0) { m.arc(s,t,(int)lab.size(),w); lab.push_back({l,r}); } };
static Transducer rbuild(const R2& r, Alphabet& al, std::vector<int>* st=nullptr) { M m=r.m; for (auto& x : m.a) x.tag=al(r.lab[x.tag].first,r.lab[x.tag].second); return mbuild(m,st); }
static void rel_r2(const R2& r, const int* u,int ul,const int* v,int vl,int* out) { mbest2q(r.m,u,ul,v,vl,out,[&](int t){ return r.lab[t]; }); }
static void rel_t(Transducer& t, const Alphabet& al, const int* u,int ul,const int* v,int vl,int* out) { M m=mfrom(t); mbest2q(m,u,ul,v,vl,out,[&](int k){ return al.decode(k); }); }
static const int SKR[5][3][2]={{{0,1},{1,2},{0,2}},{{0,1},{1,1},{1,2}},{{0,1},{1,2},{2,0}},{{0,1},{0,1},{1,2}},{{0,0},{0,1},{1,2}}};
// relation with 3 states: skeleton and label pairs split into paths, weights symbolic
static const IP PT[]={{'a','b'},{0,'a'},{'b',0},{-1,-1},{'a','a'},{0,-1},{-1,0},{'b',-1},{'b','a'},{-1,'b'}};
static R2 sym_rel(const char* nm, unsigned nsk, const IP* tab, unsigned nt, int w, unsigned na=3, unsigned fixed=99) {
  R2 r; r.m.n=3; unsigned k=hx_pick(nm,nsk); for (unsigned i=0;i<na;i++) { IP p = i>=fixed ? tab[(i*3)%nt] : tab[hx_pick("lab",nt)];
    for (size_t j=0;j<r.m.a.size();j++) if (r.m.a[j].s==SKR[k][i][0] && r.m.a[j].t==SKR[k][i][1]) sx_assume(r.lab[j]!=p);
    r.arc(SKR[k][i][0],SKR[k][i][1],p.first,p.second,w==1&&i<2?wpick("w",2):w==2&&i<2?0.25*(i+1+hx_pick("w",2)):0.0); }
  r.m.fin.push_back({na<3?(k==1?1:k==0?2:1):2,w==1?wpick("fw",2):w==2?1.5*hx_pick("fw",2):0.0}); if (hx_pick("initfin",2)) r.m.fin.push_back({0,0}); return r; }
static void sym_str(const char* nm, int* w, int n, const uint32_t* t, unsigned k) { for (int i=0;i<n;i++) w[i]=(int)hx_char(nm,t,k); }
static bool eqv(const int* a, const int* b, int n) { bool ok=true; for (int i=0;i<n;i++) ok=ok&(a[i]==b[i]); return ok; }
static const uint32_t TB[]={0,'a','b',(uint32_t)-1}; static const uint32_t TS[]={'a','b',(uint32_t)-1};
HARNESS(h_invert) { Alphabet al; al.includeSymbol(u"<n>"); R2 r=sym_rel("sk",Q(4,5),PT,Q(6,10),true); Transducer t=rbuild(r,al); t.invert(al); const int n=2; int u[3],v[3],x[9],y[9]; sym_str("u",u,n,TS,3); sym_str("v",v,n,TS,3); rel_r2(r,u,n,v,n,x); rel_t(t,al,v,n,u,n,y); bool ok=true; for (int i=0;i<=n;i++) for (int j=0;j<=n;j++) ok=ok&(x[i*(n+1)+j]==y[j*(n+1)+i]); CHECK(ok,"invert does not swap the two sides"); sx_reach(0); }
static R2 product(const R2& f, const R2& g, bool finv, bool any) { R2 p; p.m.n=f.m.n*g.m.n; p.m.init=f.m.init*g.m.n+g.m.init; auto id=[&](int a,int b){ return a*g.m.n+b; };
  auto fi=[&](size_t k){ return finv?f.lab[k].second:f.lab[k].first; }; auto fo=[&](size_t k){ return finv?f.lab[k].first:f.lab[k].second; };
  auto put=[&](int s,int t,int l,int r,double w) { if (finv) p.arc(s,t,r,l,w); else p.arc(s,t,l,r,w); };
  for (size_t k=0;k<f.m.a.size();k++) { auto& a=f.m.a[k]; for (size_t l=0;l<g.m.a.size();l++) { auto& b=g.m.a[l]; if (g.lab[l].first!=0 && fo(k)==g.lab[l].first) put(id(a.s,b.s),id(a.t,b.t),fi(k),g.lab[l].second,a.w+b.w); }
    for (int q=0;q<g.m.n;q++) { if (fo(k)==0) put(id(a.s,q),id(a.t,q),fi(k),0,a.w); else if (any && q==g.m.init) put(id(a.s,q),id(a.t,q),fi(k),fo(k),a.w); } }
  for (size_t l=0;l<g.m.a.size();l++) if (g.lab[l].first==0) for (int q=0;q<f.m.n;q++) put(id(q,g.m.a[l].s),id(q,g.m.a[l].t),0,g.lab[l].second,g.m.a[l].w);
  if (any) for (auto& b : g.m.fin) if (b.first!=g.m.init) for (int q=0;q<f.m.n;q++) put(id(q,b.first),id(q,g.m.init),0,0,b.second); // and on behind a match
  for (auto& a : f.m.fin) { for (auto& b : g.m.fin) p.m.fin.push_back({id(a.first,b.first),a.second+b.second}); if (any) { bool gf=false; for (auto& b : g.m.fin) gf|=b.first==g.m.init; if (!gf) p.m.fin.push_back({id(a.first,g.m.init),a.second}); } }
  return p; }
static void compose_case(bool finv, bool any, unsigned nskf, unsigned nskg, unsigned naf, unsigned nag, int w) {
  // two alphabets that number the common tag differently
  Alphabet fa, ga; fa.includeSymbol(u"<n>"); ga.includeSymbol(u"<x>"); ga.includeSymbol(u"<n>");
  static const IP FT[]={{'a','b'},{'a',0},{0,'a'},{-1,-1},{'b','a'},{'b',-1},{-1,0},{0,-1}}, GT[]={{'b','a'},{0,'b'},{'a',0},{-1,-1},{'a','b'},{-1,'a'},{0,-1},{'b',-1}}; R2 f=sym_rel("skf",nskf,FT,Q(w?3:6,w?4:8),w,naf), g=sym_rel("skg",nskg,GT,Q(w?3:6,w?4:8),w,nag);
  if (finv) for (auto& x : f.lab) std::swap(x.first,x.second);
  R2 gg=g; int gn=ga(u"<n>"); for (auto& x : gg.lab) { if (x.first==-1) x.first=gn; if (x.second==-1) x.second=gn; }
  Transducer tf=rbuild(f,fa), tg=rbuild(gg,ga); Transducer gf=tf.compose(tg,fa,ga,finv,any);
  R2 p=product(f,g,finv,any); const int n=Q(2,2); int u[3],v[3],x[9],y[9]; sym_str("u",u,n,TS,3); sym_str("v",v,n,TS,3); rel_r2(p,u,n,v,n,x); rel_t(gf,fa,u,n,v,n,y); CHECK(eqv(x,y,(n+1)*(n+1)),"compose is not the composition of the two relations"); sx_reach(0); }
HARNESS(h_compose) { compose_case(false,false,Q(2,4),Q(2,4),2,2,0); }
HARNESS(h_compose_w) { compose_case(false,false,1,1,2,2,2); }
HARNESS(h_compose_inv) { compose_case(true,false,1,2,2,2,0); }
HARNESS(h_compose_any_inv) { compose_case(true,true,1,1,2,2,0); }
HARNESS(h_compose_anywhere) { compose_case(false,true,Q(1,2),1,2,2,0); }
// renaming into another alphabet keeps the strings
HARNESS(h_update_alphabet) { Alphabet a,b; a.includeSymbol(u"<n>"); a.includeSymbol(u"<v>"); unsigned pre=hx_pick("pre",3); b.includeSymbol(u"<z>"); if (pre==1) b.includeSymbol(u"<v>"); if (pre==2) { b.includeSymbol(u"<q>"); b(5,6); b(-1,0); }
  static const IP T2[]={{-1,-2},{-2,-2},{'a',-1},{0,-2},{'a','a'},{-2,0},{-1,-1},{'a',0}}; R2 r=sym_rel("sk",Q(2,5),T2,Q(6,8),false); Transducer t=rbuild(r,a); t.updateAlphabet(a,b); int nn=b(u"<n>"), vv=b(u"<v>"); auto tr=[&](int s){ return s==-1?nn:s==-2?vv:s; };
  const int n=2; int u[3],v[3],u2[3],v2[3],x[9],y[9]; static const uint32_t S2[]={'a',(uint32_t)-1,(uint32_t)-2}; sym_str("u",u,n,S2,3); sym_str("v",v,n,S2,3); for (int i=0;i<n;i++) { u2[i]=isel(u[i]==-1,nn,isel(u[i]==-2,vv,u[i])); v2[i]=isel(v[i]==-1,nn,isel(v[i]==-2,vv,v[i])); }
  rel_r2(r,u,n,v,n,x); rel_t(t,b,u2,n,v2,n,y); CHECK(eqv(x,y,9),"updateAlphabet changed the relation"); for (auto& p : t.getTransitions()) for (auto& q : p.second) { auto d=b.decode(q.first); (void)d; } sx_reach(0); }
HARNESS(h_delete_symbols) { Alphabet al; al.includeSymbol(u"<n>"); R2 r=sym_rel("sk",Q(4,5),PT,Q(6,10),false); Transducer t=rbuild(r,al); sorted_vector<int32_t> s; IP dp=PT[hx_pick("del",4)]; int l=dp.first, rr=dp.second; s.insert(al(l,rr)); bool eps=hx_pick("epsilonize",2); 
  if (eps) t.epsilonizeSymbols(s); else t.deleteSymbols(s); R2 q; q.m=r.m; q.m.a.clear(); for (size_t k=0;k<r.m.a.size();k++) { bool hit=r.lab[k].first==l && r.lab[k].second==rr; if (!hit) q.arc(r.m.a[k].s,r.m.a[k].t,r.lab[k].first,r.lab[k].second,r.m.a[k].w); else if (eps) q.arc(r.m.a[k].s,r.m.a[k].t,0,0,r.m.a[k].w); }
  const int n=2; int u[3],v[3],x[9],y[9]; sym_str("u",u,n,TS,3); sym_str("v",v,n,TS,3); rel_r2(q,u,n,v,n,x); rel_t(t,al,u,n,v,n,y); CHECK(eqv(x,y,9),"deleting or emptying a label does not act on exactly the arcs that carry it"); sx_reach(eps); }
HARNESS(h_acx) { Alphabet al; al.includeSymbol(u"<n>"); R2 r=sym_rel("sk",Q(4,5),PT,Q(6,10),true); Transducer t=rbuild(r,al); std::map<int32_t,sorted_vector<int32_t>> acx; acx['a'].insert('c'); acx['a'].insert('b'); if (hx_pick("two",2)) acx['b'].insert('d'); t.applyACX(al,acx);
  R2 q=r; for (size_t k=0;k<r.m.a.size();k++) { auto it=acx.find(r.lab[k].first); if (it!=acx.end()) for (auto& s : it->second) q.arc(r.m.a[k].s,r.m.a[k].t,s,r.lab[k].second,r.m.a[k].w); }
  static const uint32_t S2[]={'a','b','c','d'}; const int n=2; int u[3],v[3],x[9],y[9]; sym_str("u",u,n,S2,4); sym_str("v",v,n,TS,3); rel_r2(q,u,n,v,n,x); rel_t(t,al,u,n,v,n,y); CHECK(eqv(x,y,9),"applyACX does not add exactly the equivalent characters"); sx_reach(0); }
HARNESS(h_dotstar) { Alphabet al; al.includeSymbol(u"<n>"); R2 r=sym_rel("sk",Q(4,5),PT,Q(6,10),false); Transducer t=rbuild(r,al); std::set<int> loop; int ln=al(-1,-1), lc=al('c','c'); loop.insert(ln); loop.insert(0); if (hx_pick("c",2)) loop.insert(lc); Transducer d=t.appendDotStar(loop);
  R2 q=r; for (auto& f : r.m.fin) { q.arc(f.first,f.first,-1,-1); if (loop.count(lc)) q.arc(f.first,f.first,'c','c'); }
  static const uint32_t S2[]={'a','b',(uint32_t)-1,'c'}; const int n=2; int u[3],v[3],x[9],y[9],z[9]; sym_str("u",u,n,S2,4); sym_str("v",v,n,S2,4); rel_r2(q,u,n,v,n,x); rel_t(d,al,u,n,v,n,y); CHECK(eqv(x,y,9),"appendDotStar is not the language followed by any symbols"); rel_t(t,al,u,n,v,n,y); rel_r2(r,u,n,v,n,z); CHECK(eqv(z,y,9),"appendDotStar changed its operand"); sx_reach(0); }
// ---- trimming.  The monolingual side is a dictionary of strings (identity pairs), the trimmer likewise.
static void add_entry(Transducer& t, Alphabet& al, const int* w, int n, double fw=0) { int s=t.getInitial(); for (int i=0;i<n;i++) s=t.insertSingleTransduction(al(w[i],w[i]),s); t.setFinal(s,fw); }
// does the trimmer dictionary accept s[0..n) : configurations (position in which entry | root, remembered configuration before the first '+')
struct Cfg { int e,p; }; // entry index (-1: root), position
static bool trim_accepts(const std::vector<std::vector<int>>& D, const std::vector<int>& s) {
  // the set of prefixes is kept as concrete strings; a trie node is named by its string
  typedef std::vector<int> S; std::set<std::pair<S,S>> cur; std::set<S> nodes; std::set<S> fin; for (auto& d : D) { for (size_t i=0;i<=d.size();i++) nodes.insert(S(d.begin(),d.begin()+i)); fin.insert(d); }
  nodes.insert(S()); std::vector<std::pair<std::pair<S,S>,bool>> c; // ((here, before-plus), is-set)
  c.push_back({{S(),S()},false});
  for (int x : s) { std::vector<std::pair<std::pair<S,S>,bool>> nx; auto add=[&](const std::pair<std::pair<S,S>,bool>& v) { for (auto& y : nx) if (y==v) return; nx.push_back(v); };
    for (auto& k : c) { S here=k.first.first, pre=k.first.second; bool set=k.second;
      if (x=='+' && (!set || fin.count(here))) add({{S(),set?pre:here},true}); // a new word starts; all but the first are complete where they end
      S from=here; bool st=set; S pr=pre; if (x=='#' && set) { if (!fin.count(here)) continue; from=pre; }
      S to=from; to.push_back(x); if (nodes.count(to)) { if (st && x=='#') add({{to,S()},false}); else add({{to,pr},st}); } }
    c.swap(nx); }
  for (auto& k : c) if (fin.count(k.first.first) && (!k.second || fin.count(k.first.second))) return true; return false; }
HARNESS(h_trim_simple) { // no multiword symbols: exactly the entries whose right side the trimmer accepts survive, weights unchanged
  Alphabet ma, ta; ma.includeSymbol(u"<n>"); ma.includeSymbol(u"<v>"); ta.includeSymbol(u"<v>"); ta.includeSymbol(u"<x>"); ta.includeSymbol(u"<n>"); int tn=ta(u"<n>"), tv=ta(u"<v>");
  static const uint32_t T2[]={'a','b',(uint32_t)-1,(uint32_t)-2}; Transducer m,t; std::vector<std::vector<int>> D; int mw[2][3], ml[2]; double fw[2];
  for (int k=0;k<2;k++) { ml[k]=1+hx_pick("mlen",2); for (int i=0;i<ml[k];i++) mw[k][i]=(int)T2[k+i==0?0:hx_pick("m",Q(3,4))]; fw[k]=0.25+k; add_entry(m,ma,mw[k],ml[k],fw[k]); }
  for (int k=0;k<2;k++) { int n=1+hx_pick("tlen",2); std::vector<int> d; int w[3]; for (int i=0;i<n;i++) { int c=(int)T2[hx_pick("t",Q(3,4))]; d.push_back(c); w[i]=c==-1?tn:c==-2?tv:c; } D.push_back(d); add_entry(t,ta,w,n); }
  M before=mfrom(m); Transducer r=m.trim(t,ma,ta); const int n=2; int u[3],x[9],y[9]; sym_str("u",u,n,T2,Q(3,4)); auto dec=[&](int k){ return IP(ma.decode(k).first,0); }; int none[1]; mbest2q(before,u,n,none,0,x,dec); rel_t(r,ma,u,n,u,n,y);
  bool ok=true; for (int i=0;i<=n;i++) { bool in=false; for (auto& d : D) if ((int)d.size()==i) { bool e=true; for (int j=0;j<i;j++) e=e&(d[j]==u[j]); in=in|e; } ok=ok&(y[i*(n+1)+i]==isel(in,x[i],IINF)); } CHECK(ok,"trim does not keep exactly the strings accepted by the trimmer"); sx_reach(0); }
HARNESS(h_trim_join) { // '+' joins words, '#' resumes the word before the first '+'
  Alphabet ma, ta; ma.includeSymbol(u"<n>"); ta.includeSymbol(u"<n>"); Transducer m,t; unsigned order=hx_pick("order",2); if (order) ma('#','#');
  static const uint32_t TM[]={'a','b','+','#',(uint32_t)-1}; std::vector<std::vector<int>> E,D; static const int LEN[]={3,4};
  for (int k=0;k<2;k++) { std::vector<int> e; int w[6]; w[0]='a'; w[1]='+'; w[2]='b'; int n=3; if (k==0) { w[n++]=(int)hx_char("m",TM,5); w[n++]=(int)hx_char("m",TM,5); } else { w[n++]=(int)hx_char("m2",TM,5); w[n++]=(int)hx_char("m2",TM,5); w[n++]='b'; } for (int i=0;i<n;i++) e.push_back(w[i]); E.push_back(e); add_entry(m,ma,w,n); }
  static const int DD[6][3]={{'a','#','b'},{'b','a',0},{'b',0,0},{'a',0,0},{'b',-1,0},{'b','b',0}}; unsigned sel=hx_pick("dict",Q(6,64)); if (!TIER) { static const unsigned SEL[]={1|4,2|8,1|2|8,4|16,1|32|2,63}; sel=SEL[sel]; }
  sx_assume(sel); for (int k=0;k<6;k++) if (sel&(1u<<k)) { std::vector<int> d; for (int i=0;i<3 && DD[k][i];i++) d.push_back(DD[k][i]); D.push_back(d); add_entry(t,ta,d.data(),d.size()); }
  Transducer r=m.trim(t,ma,ta); for (auto& e : E) { M q=mfrom(r); std::vector<int> out((e.size()+1)*(e.size()+1)); std::vector<int> w=e; for (auto& c : w) c=(int)sx_concretize((uint32_t)c); mbest2q(q,w.data(),w.size(),w.data(),w.size(),out.data(),[&](int k){ return ma.decode(k); }); CHECK((out.back()==0)==trim_accepts(D,w),"trim does not keep exactly the joined words whose parts the trimmer accepts"); } sx_reach(0); }
// any word over letters, +, # and the marks of compounds, which do not count
HARNESS(h_trim_parts) { Alphabet ma, ta; ma.includeSymbol(u"<n>"); ma.includeSymbol(u"<compound-only-L>"); ma.includeSymbol(u"<compound-R>"); ta.includeSymbol(u"<n>"); Transducer m,t;
  static const int DD[7][3]={{'a','b',0},{'a',0,0},{'b',0,0},{'a','#','b'},{'b','a',0},{'a','+','b'},{'b','#','a'}}; static const unsigned SEL[]={1,1|2,1|4|8,2|4|16|32,2|4|8,16|32|64,1|4|64,1|32}; unsigned sel=SEL[hx_pick("dict",Q(6,8))]; std::vector<std::vector<int>> D; for (int k=0;k<7;k++) if (sel&(1u<<k)) { std::vector<int> d; for (int i=0;i<3 && DD[k][i];i++) d.push_back(DD[k][i]); D.push_back(d); add_entry(t,ta,d.data(),d.size()); }
  static const uint32_t TM[]={'a','b','+','#',(uint32_t)-2,(uint32_t)-3}; const int n=Q(5,6); std::vector<int> w,bare; w.push_back('a'); for (int i=1;i<n;i++) w.push_back((int)sx_concretize(hx_char("m",TM,i==2?6:5))); std::vector<int> b2={'a','+','b'}; add_entry(m,ma,w.data(),n,0.5); add_entry(m,ma,b2.data(),3); for (int c : w) if (c!=-2 && c!=-3) bare.push_back(c);
  Transducer r=m.trim(t,ma,ta); M q=mfrom(r); auto best=[&](const std::vector<int>& x) { std::vector<int> out((x.size()+1)*(x.size()+1)); mbest2q(q,x.data(),x.size(),x.data(),x.size(),out.data(),[&](int k){ return ma.decode(k); }); return out.back(); };
  int a=best(w), b=best(b2); bool same=w==b2; CHECK(a==(trim_accepts(D,bare)?(same?0:wq(0.5)):IINF),"trim does not keep exactly the words all of whose parts the trimmer accepts"); if (!same) CHECK(b==(trim_accepts(D,b2)?0:IINF),"trim does not treat each word by itself"); sx_reach(0); }
