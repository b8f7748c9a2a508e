// Compiled dictionaries as lists of entries, and the command line tools that work on them.
#pragma once
#include "dix.h"
#include <getopt.h>
#include <lttoolbox/file_utils.h>
typedef std::map<std::string,std::vector<Trip>> Secs;
static bool hx_wants_min=true;
static inline Trip tr(const char* l, const char* r, double w=0) { return {u32_of(l),u32_of(r),w}; }
static void add_trip(Transducer& t, Alphabet& al, const Trip& e) { int s=t.getInitial(); size_t n=std::max(e.l.size(),e.r.size()); if (!n) { t.setFinal(s,e.w); return; } for (size_t i=0;i<n;i++) { int l=i<e.l.size()?code_in(al,e.l[i]):0, r=i<e.r.size()?code_in(al,e.r[i]):0; s=t.insertNewSingleTransduction(al(l,r),s,i+1==n?e.w:0.0); } t.setFinal(s,0.0); }
// tags: the numbers of the tags to declare, in this order
static std::string dict_bytes(const Secs& ss, const std::vector<int>& tags, const char* letters) { Alphabet al; for (int k : tags) al.includeSymbol(hx_u(TAGS[k])); std::map<UString,Transducer> ts; for (auto& s : ss) { Transducer t; for (auto& e : s.second) add_trip(t,al,e); if (!s.second.empty() && hx_wants_min) t.minimize(); ts[hx_u(s.first.c_str())]=t; } std::set<UChar32> let; for (auto c : u32_of(letters)) let.insert(c); HxOut o; writeTransducerSet(o.f,let,al,ts); return o.done(); }
static int run_main(int (*m)(int,char**), const std::vector<std::string>& a) { std::vector<std::string> s=a; std::vector<char*> v; for (auto& x : s) v.push_back(&x[0]); v.push_back(nullptr); optind=1; return m((int)a.size(),v.data()); }
static std::string pth(const char* n) { return hx_path(n); }
static void load_file(Loaded& L, const char* n) { std::string b; CHECK(hx_file_get(n,b),"the tool wrote no file"); load_bytes(L,b); }
static const uint32_t SYT[]={'a','b','c',TAG0,TAG0+1};
// every section of the file holds exactly these entries
static void check_secs(Loaded& L, const Secs& want, int n, unsigned nt=5, const char* msg="a section does not hold exactly the expected entries") { int u[5],v[5],x[36],y[36]; uint32_t tab[5]; for (unsigned i=0;i<5;i++) tab[i]=istag(SYT[i]) && !L.al.isSymbolDefined(hx_u(TAGS[SYT[i]-TAG0]))?(uint32_t)'z':(uint32_t)code_in(L.al,SYT[i]); for (int i=0;i<n;i++) u[i]=(int)hx_char("u",tab,nt); for (int i=0;i<n;i++) v[i]=(int)hx_char("v",tab,nt);
  size_t used=0; for (auto& s : want) { UString nm=hx_u(s.first.c_str()); CHECK(L.ts.count(nm),"a section is missing"); used++; rel_pairs(L.al,s.second,false,u,v,n,x); rel_trans(L.ts[nm],L.al,u,v,n,y); CHECK(eqv(x,y,(n+1)*(n+1)),msg); } CHECK(used==L.ts.size(),"there is a section too many"); }
static void check_letters(Loaded& L, const char* s) { std::set<UChar32> let; for (auto c : u32_of(s)) let.insert(c); CHECK(L.letters==let,"the letters are not the expected ones"); }
