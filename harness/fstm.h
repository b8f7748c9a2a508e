// Small reference automaton used as oracle: plain arc list, own bounded shortest-distance computation.
#pragma once
#include "hx.h"
#include <lttoolbox/transducer.h>
#include <lttoolbox/alphabet.h>
struct MArc { int s,t; int tag; double w; };
static const double MINF=1e300;
struct M {
  int n=0, init=0; std::vector<MArc> a; std::vector<std::pair<int,double>> fin;
  void arc(int s,int t,int tag,double w=0) { a.push_back({s,t,tag,w}); }
  double fw(int s) const { double b=MINF; for (auto& f : fin) if (f.first==s && f.second<b) b=f.second; return b; }
};
static M mfrom(Transducer& t) { M m; m.init=t.getInitial(); int mx=m.init; for (auto& s : t.getTransitions()) { if (s.first>mx) mx=s.first; for (auto& x : s.second) { m.arc(s.first,x.second.first,x.first,x.second.second); if (x.second.first>mx) mx=x.second.first; } } m.n=mx+1; for (auto& f : t.getFinals()) { m.fin.push_back(f); if (f.first>=m.n) m.n=f.first+1; } return m; }
// build the real object through its public interface; state numbers of the model are mapped to those of the transducer
static Transducer mbuild(const M& m, std::vector<int>* map=nullptr) {
  Transducer t; std::vector<int> st(m.n,-1); st[m.init]=t.getInitial();
  for (int i=0;i<m.n;i++) if (st[i]<0) st[i]=t.insertNewSingleTransduction(0,t.getInitial(),0.0);   // fresh states
  // drop the helper arcs again
  t.getTransitions()[t.getInitial()].clear();
  for (auto& x : m.a) t.linkStates(st[x.s],st[x.t],x.tag,x.w);
  for (auto& f : m.fin) t.setFinal(st[f.first],f.second);
  if (map) *map=st; return t;
}
// Branch-free so that symbolic labels, weights and words stay inside one formula for the solver.
// Weights are multiples of 1/4 taken from WTAB (the upper half of the double determines them).
static const int IINF=1<<20;
static inline int isel(bool c, int a, int b) { int m=-(int)c; return b^((a^b)&m); }
static inline int imin(int a, int b) { return isel(a<b,a,b); }
static const uint32_t WHI[]={0,0x3FF80000u,0x3FD00000u,0x40080000u,0xBFF00000u,0x40000000u}; static const int WQ[]={0,6,1,12,-4,8};   // 0 1.5 0.25 3 -1 2
static inline double wfrom(uint32_t hi) { uint64_t b=(uint64_t)hi<<32; double d; memcpy(&d,&b,8); return d; }
static inline double wpick(const char* n, unsigned k) { return wfrom(hx_char(n,WHI,k)); }
// quarter units of a weight that is a sum of at most two table entries (concrete weights: exact)
static inline int wq(double d) { uint64_t b; memcpy(&b,&d,8); if (!sx_is_symbolic(b)) return (int)(d*4); uint32_t hi=(uint32_t)(b>>32); int r=0; for (int i=1;i<6;i++) r|=isel(hi==WHI[i],WQ[i],0); return r; }
struct MQ { int n,init; std::vector<MArc> a; std::vector<int> w; std::vector<int> fw; };
static MQ mq(const M& m) { MQ q; q.n=m.n; q.init=m.init; q.a=m.a; for (auto& x : m.a) q.w.push_back(wq(x.w)); q.fw.assign(m.n,IINF); for (auto& f : m.fin) q.fw[f.first]=imin(q.fw[f.first],wq(f.second)); return q; }
static inline int iadd(int d, int w) { return isel(d>=IINF/2,IINF,d+w); }
static void mclose(const MQ& m, std::vector<int>& d, int eps) { for (int k=0;k<m.n;k++) for (size_t i=0;i<m.a.size();i++) { auto& x=m.a[i]; d[x.t]=imin(d[x.t],isel(x.tag==eps,iadd(d[x.s],m.w[i]),IINF)); } }
static int mfinal(const MQ& m, const std::vector<int>& d) { int b=IINF; for (int i=0;i<m.n;i++) b=imin(b,isel((d[i]>=IINF/2)|(m.fw[i]>=IINF/2),IINF,d[i]+m.fw[i])); return b; }
// out[i]: weight of the best path reading the first i labels of w (label eps reads nothing), IINF if there is none
static void mbestq(const M& mm, const int* w, int len, int* out, int eps=0) {
  MQ m=mq(mm); std::vector<int> d(m.n,IINF); d[m.init]=0;
  for (int i=0;;i++) { mclose(m,d,eps); out[i]=mfinal(m,d); if (i==len) break; std::vector<int> e(m.n,IINF);
    for (size_t k=0;k<m.a.size();k++) { auto& x=m.a[k]; e[x.t]=imin(e[x.t],isel((x.tag!=eps)&(x.tag==w[i]),iadd(d[x.s],m.w[k]),IINF)); } d.swap(e); }
}
// how often the empty arcs have to be followed: the longest chain if they form no cycle
static int mrounds(const MQ& m, const std::vector<std::pair<int,int>>& lab) { std::vector<int> dep(m.n,0); for (int r=0;r<9;r++) { bool ch=false; for (size_t k=0;k<m.a.size();k++) if (!lab[k].first && !lab[k].second && dep[m.a[k].t]<dep[m.a[k].s]+1) { dep[m.a[k].t]=dep[m.a[k].s]+1; ch=true; } if (!ch) { int x=0; for (int y : dep) if (y>x) x=y; return x; } } return m.n; }
// the same for a pair of strings; dec(tag) gives the (input,output) pair of a concrete label, 0 = empty.
// out[i*(vl+1)+j]: prefixes of lengths i and j
template<class D> static void mbest2q(const M& mm, const int* u, int ul, const int* v, int vl, int* out, D dec) {
  MQ m=mq(mm); std::vector<std::pair<int,int>> lab; for (auto& x : m.a) lab.push_back(dec(x.tag));
  int rounds=mrounds(m,lab); int W=(ul+1)*(vl+1); std::vector<int> d((size_t)m.n*W,IINF); d[(size_t)m.init*W]=0;
  for (int i=0;i<=ul;i++) for (int j=0;j<=vl;j++) { int c=i*(vl+1)+j;
    for (int r=0;r<rounds;r++) for (size_t k=0;k<m.a.size();k++) { auto& x=m.a[k]; if (lab[k].first||lab[k].second) continue; int& t=d[(size_t)x.t*W+c]; t=imin(t,iadd(d[(size_t)x.s*W+c],m.w[k])); }
    for (size_t k=0;k<m.a.size();k++) { auto& x=m.a[k]; int di=lab[k].first!=0, dj=lab[k].second!=0; if (!(di|dj) || i+di>ul || j+dj>vl) continue;
      bool ok=true; if (di) ok=ok&(u[i]==lab[k].first); if (dj) ok=ok&(v[j]==lab[k].second); int& t=d[(size_t)x.t*W+(i+di)*(vl+1)+j+dj]; t=imin(t,isel(ok,iadd(d[(size_t)x.s*W+c],m.w[k]),IINF)); }
    std::vector<int> col(m.n); for (int s=0;s<m.n;s++) col[s]=d[(size_t)s*W+c]; out[c]=mfinal(m,col); }
}
