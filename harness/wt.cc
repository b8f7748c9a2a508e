// Weights: order of the answers, limits on their number, display.
#include "proc.h"
#include <cmath>
#include <lttoolbox/state.h>
#include <lttoolbox/node.h>
static const double WT[]={0,1,2.5,1,0.25,-1};
struct Alt { std::string s; double w; };
// all readings of an entry list for one word, best weight first; the same reading counts once, with its best weight
static void reading(std::vector<Alt>& v, const std::string& s, double w) { for (auto& x : v) if (x.s==s) { if (w<x.w) x.w=w; return; } v.push_back({s,w}); }
static void sortalt(std::vector<Alt>& v) { for (size_t i=1;i<v.size();i++) for (size_t k=i;k>0 && v[k-1].w>v[k].w;k--) std::swap(v[k-1],v[k]); }
static size_t allowed(const std::vector<Alt>& v, int N, int L) { size_t n=0; int cls=0; for (size_t i=0;i<v.size();i++) { if (i==0 || v[i].w!=v[i-1].w) cls++; if (cls>L || (int)i>=N) break; n++; } return n; }
// is the list of printed readings an answer to the limits?  Readings of equal weight may come in any order
static bool answer(const std::vector<std::string>& got, const std::vector<Alt>& v, int N, int L, bool show) { size_t n=allowed(v,N,L); if (got.size()!=n) return false; for (size_t i=0;i<n;i++) { bool hit=false; for (auto& a : v) if (a.w==v[i].w && got[i]==a.s+(show?fmtw(a.w):std::string())) hit=true; if (!hit) return false; for (size_t j=0;j<i;j++) if (got[i]==got[j]) return false; } return true; }
static std::vector<std::string> parts(const std::string& s) { std::vector<std::string> r; std::string c; for (size_t i=0;i<s.size();i++) { if (s[i]=='/') { r.push_back(c); c.clear(); } else c+=s[i]; } r.push_back(c); return r; }
static void limits(FSTProcessor& fp, int& N, int& L, bool& show, unsigned nn, unsigned nl) { N=1<<30; L=1<<30; unsigned a=hx_pick("N",nn), b=hx_pick("L",nl); if (a) { N=(int)a; fp.setMaxAnalysesValue(N); } if (b) { L=(int)b; fp.setMaxWeightClassesValue(L); } show=hx_pick("show",2); fp.setDisplayWeightsMode(show); }
enum { ANA, GEN, BIL };
// four readings of one word with any weights, one of them possibly twice (in two sections)
static void best(int mode) { std::vector<Ent> D; static const char* const RA[]={"a<n>","b<n>","a<v>"}; static const char* const RG[]={"p","q","r"}; const char* lhs=mode==ANA?"ab":"ab<n>"; std::vector<Alt> v; unsigned dup=hx_pick("dup",3);
  for (unsigned i=0;i<4;i++) { unsigned k=i<3?i:dup; double w=WT[hx_pick("w",i<3?Q(3,5):2)]; const char* r=mode==GEN?RG[k]:RA[k]; D.push_back(ent(lhs,r,i<3?STD:INC,w)); reading(v,r,w); } D.push_back(ent(mode==ANA?"a":"a<n>",mode==GEN?"x":"x<n>",STD,1)); sortalt(v);
  FSTProcessor fp; dict_load(fp,D,"ab"); if (mode==ANA) fp.initAnalysis(); else if (mode==GEN) fp.initGeneration(); else fp.initBiltrans(); int N,L; bool show; limits(fp,N,L,show,Q(4,5),Q(3,4));
  std::string in=mode==ANA?"ab":"^ab<n>$", out=proc_run(in,[&](InputFile& i, UFILE* u){ if (mode==ANA) fp.analysis(i,u); else if (mode==GEN) fp.generation(i,u,gm_unknown); else fp.bilingual(i,u,gm_unknown); });
  if (mode!=GEN) { CHECK(out.size()>2 && out[0]=='^' && out[out.size()-1]=='$',"no answer"); out=out.substr(1,out.size()-2); } std::vector<std::string> p=parts(out); if (mode!=GEN) { CHECK(p[0]==(mode==ANA?"ab":"ab<n>"),"the word itself is not printed"); p.erase(p.begin()); }
  CHECK(answer(p,v,N,L,show),"not the best readings within the limits, best first"); sx_reach(show); }
HARNESS(h_best_ana) { best(ANA); }
HARNESS(h_best_gen) { best(GEN); }
HARNESS(h_best_bil) { best(BIL); }
// the weight of a reading is the sum over its path, arcs without symbols and the end included
HARNESS(h_path_sum) { Alphabet al; al.includeSymbol(u"<n>"); int n=al(u"<n>"); std::map<UString,Transducer> ts; Transducer& t=ts[u"main@standard"]; double w[5]; for (int i=0;i<5;i++) w[i]=WT[hx_pick("w",i==2?4:Q(2,3))+(i==1||i==4?4:0)]; int a=t.getInitial(), b=t.insertNewSingleTransduction(al('a','a'),a,w[0]), c=t.insertNewSingleTransduction(0,b,w[1]), d=t.insertNewSingleTransduction(al(0,n),c,w[2]), e=t.insertNewSingleTransduction(al('b','x'),b,w[3]); t.setFinal(d,w[4]); t.setFinal(e,1.5);
  HxOut o; writeTransducerSet(o.f,u"ab",al,ts); FSTProcessor fp; FILE* f=hx_reader(o.done()); fp.load(f); fclose(f); fp.initAnalysis(); fp.setDisplayWeightsMode(true); static const uint32_t TT[]={'a','b','A'}; uint32_t c0=hx_char("c",TT,3), c1=hx_char("c",TT,3); std::string in; in+=(char)c0; in+=(char)c1; in+=" a"; std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.analysis(i,u); });
  std::string sfx=" ^a/a<n>"+fmtw(w[0]+w[1]+w[2]+w[4])+"$", hd=out.substr(0,out.size()>sfx.size()?out.size()-sfx.size():0); CHECK(out.size()>sfx.size() && same(out.substr(out.size()-sfx.size()),sfx),"the weight of a reading is not the sum of its parts"); bool ab=(c0=='a'||c0=='A')&&c1=='b'; std::string e1="^a b/"; 
  std::string h1="^"+in.substr(0,2)+"/", ex; if (ab) { ex=h1; ex+=(char)c0; ex+="x"+fmtw(w[0]+w[3]+1.5)+"$"; } else { ex=h1+"*"+in.substr(0,2)+"$"; } CHECK(same(hd,ex),"the weight of a reading is not the sum of its parts"); sx_reach(ab); }
static double num(const char* p) { bool neg=*p=='-'; if (neg) p++; double r=0; while (*p>='0' && *p<='9') r=r*10+(*p++-'0'); double f=1; if (*p=='.') for (p++;*p>='0' && *p<='9';p++) { f/=10; r+=f*(*p-'0'); } return neg?-r:r; }
// any weight is printed, however large
HARNESS(h_show) { static const double BW[]={1e30,-1e30,1e-7,123456.789,-0.5,1e100}; double w=BW[hx_pick("w",6)]; FSTProcessor fp; std::vector<Ent> D={ent("a","a<n>",STD,w),ent("a","b<n>",STD,0)}; dict_load(fp,D,"ab"); fp.initAnalysis(); fp.setDisplayWeightsMode(true); unsigned mode=hx_pick("two",2); std::string in=mode?"a a":"a"; std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.analysis(i,u); });
  std::vector<Alt> v={{"a<n>",w},{"b<n>",0}}; sortalt(v); std::string e="^a"; for (auto& x : v) { e+="/"+x.s+"<W:"; size_t at=out.find(x.s+"<W:"); CHECK(at!=std::string::npos,"a reading is lost"); double g=num(out.c_str()+at+x.s.size()+3); CHECK(std::fabs(g-x.w)<=1e-6+std::fabs(x.w)*1e-6,"a weight is printed wrongly"); } CHECK(mode==0 || out.find("$ ^a/")!=std::string::npos,"a word is lost"); sx_reach(0); }

// any weights at all: which readings are kept, and in which order, follows from their sums alone
static double dbl(const char* nm) { static const uint32_t HI[]={0,0x3ff00000,0xbff00000,0x3fd00000,0x40040000,0x3ff80000,0x7e37e43c,0xbfe00000}; uint64_t b=(uint64_t)hx_char(nm,HI,Q(5,8))<<32; double d; memcpy(&d,&b,8); return d; }
HARNESS(h_nbest) { const int K=Q(4,4); Alphabet al; Node root; Node fin[5]; std::map<Node*,double> finals; static const UChar LT[]={'p','q','r'}; UString str[5]; double w[5]; unsigned dup=hx_pick("dup",3); unsigned where=hx_pick("where",2); // the weight is on the arc or on the end
  for (int i=0;i<K;i++) { unsigned k=i<3?i:dup; str[i]=UString(1,LT[k]); w[i]=dbl("w"); double v= i==0?1.5:0; root.addTransition('a',LT[k],&fin[i],where?w[i]-v:v); finals[&fin[i]]=where?v:w[i]-v; }
  Node other; root.addTransition('b','b',&other,dbl("x")); State s; s.init(&root); s.step('a'); int N=1+(int)hx_pick("N",4), L=1+(int)hx_pick("L",3); std::vector<UString> r; std::set<UChar32> esc; s.filterFinalsArray(r,finals,al,esc,false,N,L);
  auto W=[&](const UString& t){ bool any=false; double m=0; for (int i=0;i<K;i++) if (str[i]==t) { if (!any || w[i]<m) m=w[i]; any=true; } CHECK(any,"a reading nobody wrote"); return m; };
  CHECK(!r.empty(),"no reading at all"); CHECK((int)r.size()<=N,"more readings than asked for"); int cls=1; for (size_t i=0;i<r.size();i++) for (size_t j=0;j<i;j++) CHECK(r[i]!=r[j],"a reading twice"); for (size_t i=1;i<r.size();i++) { double a=W(r[i-1]), b=W(r[i]); CHECK(a<=b,"readings are not ordered by weight"); if (a<b) cls++; } CHECK(cls<=L,"more weight classes than asked for");
  double last=W(r.back()); for (int i=0;i<K;i++) { bool in=false; for (auto& x : r) in|=x==str[i]; if (in) continue; double m=W(str[i]); CHECK(m>=last,"a better reading is left out"); CHECK((int)r.size()==N || (cls==L && m>last),"a reading within the limits is left out"); } sx_reach(0); }
