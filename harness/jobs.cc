// Working on several sections at the same time (-j): no two tasks touch the same data, and the result is the one of working in sequence.
#include "tools.h"
int lt_comp_main(int, char**), lt_compose_main(int, char**);
static Secs secs_of(const Dix& d, const DOpt& o) { Secs w; for (auto& s : d.ss) { std::vector<Trip> m; meaning(d,s.es,o,m); if (refused(m,o.rl)) sx_end(); if (m.empty()) continue; auto& x=w[s.id+"@"+s.type]; for (auto& t : m) { if (o.rl) std::swap(t.l,t.r); x.push_back(t); } } return w; }
static const std::vector<El> PE[]={{id("ab")},{pr("c","ab")},{id("b"),par("P")},{pr("b","a<n>")},{par("P"),id("a")}};
HARNESS(h_jobs_comp) { bool rl=hx_pick("rl",2); Dix d; d.ps={{"P",{en({pr("a","c")}),en({pr("b","")},1.5)}}}; auto e=[&](unsigned n, double w=0){ return en(PE[hx_pick("e",n)],w); }; Sec s{"main","standard",{e(5,0.5),e(Q(1,3))}}, z{"fin","inconditional",{en({id("c")}),e(Q(3,5),0.25),en({pr("ca","b")})}}, y{"pre","preblank",{e(2),en({pr("b","c<n>")},0.25)}}; d.ss={s,z}; if (hx_pick("three",2)) d.ss.push_back(y); DOpt o; o.rl=rl; Secs w=secs_of(d,o); hx_file_put("in",xml_of(d));
  CHECK(run_main(lt_comp_main,{"lt-comp",hx_pick("long",2)?"--jobs":"-j",rl?"rl":"lr",pth("in"),pth("out")})==0,"lt-comp failed"); Loaded L; load_file(L,"out"); check_secs(L,w,2,4); sx_reach(rl); }
// any letters in the entries
HARNESS(h_jobs_any) { static const uint32_t LT[]={'a','b','c',0xe9,0x1f600}; auto l=[&](){ U32 u={hx_char("l",LT,5)}; return u; }; auto x=[&](const char* f, const U32& u){ std::string r=f; size_t k=r.find('%'); std::string m; for (auto c : u) put8(m,c); return r.substr(0,k)+m+r.substr(k+1); }; U32 p=l(), q=l(), r=l();
  std::string xml="<?xml version=\"1.0\"?>\n<dictionary><alphabet>ab</alphabet><sdefs><sdef n=\"n\"/></sdefs><section id=\"m\" type=\"standard\">"+x("<e><p><l>a%</l><r>b</r></p></e>",p)+"<e><i>ab</i></e></section><section id=\"k\" type=\"postblank\">"+x("<e><p><l>b</l><r>%</r></p></e>",q)+x("<e><i>%a</i></e>",r)+"</section></dictionary>"; hx_file_put("in",xml); CHECK(run_main(lt_comp_main,{"lt-comp","-j","lr",pth("in"),pth("out")})==0,"lt-comp failed");
  Secs w; U32 ap={'a'}; ap.push_back(p[0]); U32 ra=r; ra.push_back('a'); w["m@standard"]={{ap,{'b'},0},{{'a','b'},{'a','b'},0}}; w["k@postblank"]={{{'b'},q,0},{ra,ra,0}}; Loaded L; load_file(L,"out"); check_secs(L,w,2,3); sx_reach(0); }
static const Trip E1[]={tr("a","a<n>"),tr("ab","b<n>",1.5),tr("b","a<v>"),tr("b","b<n><v>"),tr("c","a")};
HARNESS(h_jobs_compose) { static const Trip G[]={tr("a<n>","b<n>"),tr("b<n>","a",1.5),tr("a<v>","c<v>"),tr("a","b"),tr("b<n><v>","<n>")}; auto e=[&](){ return E1[hx_pick("e",Q(4,5))]; }; auto g=[&](){ return G[hx_pick("g",Q(4,5))]; }; Secs f={{"m@standard",{e(),E1[0]}},{"x@inconditional",{e()}}}, b={{"m@standard",{g(),G[0]}},{"q@standard",{g()}}}; if (hx_pick("three",2)) f["y@postblank"]={tr("c","b<n>"),tr("a","a")};
  hx_file_put("1",dict_bytes(f,{0,1},"ab")); hx_file_put("2",dict_bytes(b,{2,1,0},"c")); Secs w; for (auto& s : f) { std::vector<Trip> k; for (auto& t : s.second) for (auto& bs : b) for (auto& x : bs.second) if (t.r==x.l) { Trip n=t; n.r=x.r; n.w+=x.w; k.push_back(n); } if (!k.empty()) w[s.first]=k; } if (w.empty()) sx_end();
  CHECK(run_main(lt_compose_main,{"lt-compose",hx_pick("long",2)?"--jobs":"-j",pth("1"),pth("2"),pth("3")})==0,"lt-compose fails"); Loaded L; load_file(L,"3"); check_secs(L,w,3,5,"a section is not the composition with the second dictionary"); check_letters(L,"ab"); sx_reach(w.size()>1); }
