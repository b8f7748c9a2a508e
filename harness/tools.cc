// The tools that combine compiled dictionaries, from file to file.
#include "tools.h"
int lt_append_main(int,char**), lt_invert_main(int,char**), lt_restrict_main(int,char**), lt_trim_main(int,char**), lt_compose_main(int,char**), lt_apply_acx_main(int,char**);
static const Trip E1[]={tr("a","a<n>"),tr("ab","b<n>",1.5),tr("b","a<v>"),tr("b","b<n><v>"),tr("a","b<v><n>",0.25),tr("c","a"),tr("c","c<n>")};
// ---- lt-append
HARNESS(h_append) { bool keep=hx_pick("keep",2); auto e=[&](){ return E1[hx_pick("e",Q(4,7))]; }; Secs a={{"m@standard",{e(),tr("c","b")}},{"x@postblank",{e()}}}, b={{"m@standard",{e()}},{"n@inconditional",{e(),tr("a","<n>")}}}; hx_file_put("1",dict_bytes(a,{0,1},"a😀")); hx_file_put("2",dict_bytes(b,{1,2,0},"bé"));
  std::vector<std::string> av={"lt-append",pth("1"),pth("2"),pth("3")}; if (keep) av.insert(av.begin()+1,hx_pick("long",2)?"--keep":"-k"); CHECK(run_main(lt_append_main,av)==0,"lt-append fails"); Loaded L; load_file(L,"3"); Secs w=a; for (auto& s : b) if (!keep || !a.count(s.first)) w[s.first]=s.second; check_secs(L,w,3); check_letters(L,"a😀bé"); sx_reach(keep); }
// ---- lt-invert
HARNESS(h_inverted) { Secs a={{"m@standard",{E1[hx_pick("e",7)],E1[hx_pick("e2",7)]}},{"x@postblank",{tr("a","bb")}}}; hx_file_put("1",dict_bytes(a,{1,0},"ab😀")); CHECK(run_main(lt_invert_main,{"lt-invert",pth("1"),pth("2")})==0,"lt-invert fails"); Loaded L; load_file(L,"2"); for (auto& s : a) for (auto& t : s.second) std::swap(t.l,t.r); check_secs(L,a,3); check_letters(L,"ab😀"); sx_reach(0); }
// ---- lt-restrict of a dictionary compiled for both directions is the dictionary compiled for one
HARNESS(h_restrict) { bool wm=hx_pick("w",2); Dix d; DOpt o; o.rl=hx_pick("rl",2); static const char* const V[]={"","x","xy","yx xy"}; static const char* const OV[]={"","x","xy"}; unsigned kind=hx_pick("kind",4); const char* ov=OV[hx_pick("opt",3)]; if (kind==2 && !o.rl) ov=""; if (kind==3 && o.rl) ov=""; switch (kind) { case 0: o.alt=ov; break; case 1: o.var=ov; break; case 2: o.vl=ov; break; default: o.vr=ov; }
  auto attr=[&](En& e){ const char* v=V[hx_pick("val",4)]; switch (kind) { case 0: e.alt=v; break; case 1: e.v=v; break; case 2: e.vl=v; break; default: e.vr=v; } };
  static const char* const RS[]={"","LR","RL"}; Par P{"P",{en({pr("b","c")}),en({pr("c","<n>")})}}; P.es[1].r=RS[1+hx_pick("pr",2)]; attr(P.es[0]); d.ps={P}; Sec s{"main","standard",{en({id("a")},wm*1.5),en({id("b"),par("P")}),en({pr("c","a")})}}; s.es[0].r=RS[hx_pick("r",3)]; attr(s.es[0]); d.ss={s};
  hx_file_put("d.dix",xml_of(d)); { Compiler c; c.parse(hx_path("d.dix"),u"U"); HxOut w; c.write(w.f); hx_file_put("1",w.done()); }
  std::vector<std::string> av={"lt-restrict"}; static const char* const OPT[]={"-a","-v","-l","-r"}; if (*ov) { av.push_back(OPT[kind]); av.push_back(ov); } if (wm) av.push_back("-m"); av.push_back(o.rl?"rl":"lr"); av.push_back(pth("1")); av.push_back(pth("2")); CHECK(run_main(lt_restrict_main,av)==0,"lt-restrict fails"); Loaded L; load_file(L,"2"); std::vector<Trip> m; meaning(d,s.es,o,m); if (o.rl) for (auto& t : m) std::swap(t.l,t.r); check_secs(L,{{"main@standard",m}},2,4); check_letters(L,"ab"); sx_reach(o.rl); }
// ---- two entries with two lists of names each, in one dictionary for both directions
HARNESS(h_restrict_many) { Dix d; DOpt o; o.rl=hx_pick("rl",2); static const char* const V[]={"x y","x xy","y xy"}; static const char* const OV[]={"x","xy"}; unsigned ka=hx_pick("ka",4), kb=(ka+1+hx_pick("kb",3))%4; auto setv=[&](En& e, unsigned k, const char* v){ (k==0?e.alt:k==1?e.v:k==2?e.vl:e.vr)=v; };
  std::vector<std::string> av={"lt-restrict"}; static const char* const OPT[]={"-a","-v","-l","-r"}; auto opt=[&](unsigned k){ if ((k==2 && !o.rl) || (k==3 && o.rl)) return; const char* v=OV[hx_pick("opt",2)]; (k==0?o.alt:k==1?o.var:k==2?o.vl:o.vr)=v; av.push_back(OPT[k]); av.push_back(v); }; opt(ka); opt(kb);
  Sec s{"main","standard",{en({id("a")}),en({pr("b","c")}),en({pr("c","a")})}}; setv(s.es[0],ka,V[hx_pick("v",3)]); setv(s.es[0],kb,V[0]); setv(s.es[1],ka,V[hx_pick("v",3)]); setv(s.es[1],kb,V[hx_pick("v",Q(2,3))]); d.ss={s};
  hx_file_put("d.dix",xml_of(d)); { Compiler c; c.parse(hx_path("d.dix"),u"U"); HxOut w; c.write(w.f); hx_file_put("1",w.done()); }
  av.push_back(o.rl?"rl":"lr"); av.push_back(pth("1")); av.push_back(pth("2")); CHECK(run_main(lt_restrict_main,av)==0,"lt-restrict fails"); Loaded L; load_file(L,"2"); std::vector<Trip> m; meaning(d,s.es,o,m); if (o.rl) for (auto& t : m) std::swap(t.l,t.r); check_secs(L,{{"main@standard",m}},2,3); sx_reach(o.rl); }
// ---- lt-trim over sections
static bool covers(const Trip& b, const U32& r) { if (b.l.size()>r.size()) return false; for (size_t i=0;i<b.l.size();i++) if (b.l[i]!=r[i]) return false; for (size_t i=b.l.size();i<r.size();i++) if (!istag(r[i])) return false; return true; }
HARNESS(h_trim_secs) { static const Trip BI[]={tr("a<n>","b<n>"),tr("b","a"),tr("b<n>","b<v>"),tr("a","c<n>"),tr("a<v>","c",1.5),tr("b<n><n>","a")}; auto e=[&](){ return E1[hx_pick("e",Q(5,7))]; }; auto g=[&](){ return BI[hx_pick("b",Q(4,6))]; }; Secs a={{"m@standard",{e(),E1[3]}},{"x@inconditional",{e(),E1[0]}}}, b={{"m@standard",{g()}},{"q@standard",{g()}}}; bool match=hx_pick("match",2); std::vector<int> ta={0,1}, tb={1,2,0};
  hx_file_put("1",dict_bytes(a,ta,"ab😀")); hx_file_put("2",dict_bytes(b,tb,"c")); Secs w; for (auto& s : a) { std::vector<Trip> k; for (auto& t : s.second) { bool ok=false; for (auto& bs : b) { bool use=match?((s.first=="m@standard")==(bs.first=="m@standard")):true; if (use) for (auto& x : bs.second) ok|=covers(x,t.r); } if (ok) k.push_back(t); } if (!k.empty()) w[s.first]=k; } if (w.empty()) sx_end();
  std::vector<std::string> av={"lt-trim"}; if (match) { av.push_back("-s"); av.push_back("m@standard"); } av.push_back(pth("1")); av.push_back(pth("2")); av.push_back(pth("3")); CHECK(run_main(lt_trim_main,av)==0,"lt-trim fails"); Loaded L; load_file(L,"3"); check_secs(L,w,3,5,"a section does not hold exactly the entries the other dictionary covers"); check_letters(L,"ab😀"); sx_reach(match); }
// ---- lt-compose over sections
HARNESS(h_compose_secs) { static const Trip G[]={tr("a<n>","b<n>"),tr("b<n>","a",1.5),tr("a<v>","c<v>"),tr("a","b"),tr("b<n><v>","<n>"),tr("a<n>","c",0.25)}; bool inv=hx_pick("inv",2); auto e=[&](){ Trip t=E1[hx_pick("e",Q(4,7))]; if (inv) std::swap(t.l,t.r); return t; }; auto g=[&](){ return G[hx_pick("g",Q(5,6))]; }; Secs f={{"m@standard",{e(),e()}},{"x@inconditional",{e()}}}, b={{"m@standard",{g()}},{"q@standard",{g()}}};
  hx_file_put("1",dict_bytes(f,{0,1},"ab😀")); hx_file_put("2",dict_bytes(b,{2,1,0},"c")); Secs w; for (auto& s : f) { std::vector<Trip> k; for (auto& t : s.second) for (auto& bs : b) for (auto& x : bs.second) { if ((inv?t.l:t.r)==x.l) { Trip n=t; (inv?n.l:n.r)=x.r; n.w+=x.w; k.push_back(n); } } if (!k.empty()) w[s.first]=k; } if (w.empty()) sx_end();
  std::vector<std::string> av={"lt-compose"}; if (inv) av.push_back("-i"); av.push_back(pth("1")); av.push_back(pth("2")); av.push_back(pth("3")); CHECK(run_main(lt_compose_main,av)==0,"lt-compose fails"); Loaded L; load_file(L,"3"); check_secs(L,w,3,5,"a section is not the composition with the second dictionary"); check_letters(L,"ab😀"); sx_reach(inv); }
// ---- lt-apply-acx
HARNESS(h_acx_secs) { Secs a={{"m@standard",{E1[hx_pick("e",7)],tr("ab","a<n>")}},{"x@postblank",{tr("b","a")}}}; hx_file_put("1",dict_bytes(a,{1,0},"ab😀")); unsigned k=hx_pick("acx",3); std::string x="<?xml version=\"1.0\"?>\n<analysis-chars>\n"; if (k!=1) x+=" <char value=\"a\"><equiv-char value=\"c\"/>"+std::string(k==2?"<equiv-char value=\"b\"/>":"")+"</char>\n"; if (k) x+=" <char value=\"b\">\n  <equiv-char value=\"c\"/></char>\n"; x+="</analysis-chars>\n"; hx_file_put("acx",x);
  CHECK(run_main(lt_apply_acx_main,{"lt-apply-acx",pth("1"),pth("acx"),pth("2")})==0,"lt-apply-acx fails"); Loaded L; load_file(L,"2"); Secs w; for (auto& s : a) for (auto& t : s.second) { std::vector<Trip> cur={t}; for (size_t i=0;i<t.l.size();i++) { std::vector<Trip> nx=cur; for (auto& c : cur) { auto add=[&](uint32_t z){ Trip n=c; n.l[i]=z; nx.push_back(n); }; if (t.l[i]=='a' && k!=1) { add('c'); if (k==2) add('b'); } if (t.l[i]=='b' && k) add('c'); } cur=nx; } auto& o=w[s.first]; o.insert(o.end(),cur.begin(),cur.end()); } check_secs(L,w,3,5,"a section does not hold exactly the entries with their equivalent characters"); check_letters(L,"ab😀"); sx_reach(0); }
// any set of sections to be matched by name
HARNESS(h_trim_many) { static const Trip BI[]={tr("a<n>","b<n>"),tr("b","a"),tr("b<n>","b<v>"),tr("a","c<n>")}; auto g=[&](){ return BI[hx_pick("b",4)]; }; Secs a={{"m@standard",{tr("a","a<n>"),tr("b","b<n>")}},{"x@inconditional",{tr("a","a<n>",0.5),tr("c","b<n>")}},{"y@postblank",{tr("ab","a<n>"),tr("b","b<n>",1)}}}, b={{"m@standard",{g()}},{"q@standard",{g()}},{"x@inconditional",{g()}}}; unsigned k=hx_pick("match",4); std::set<std::string> ms; std::vector<std::string> av={"lt-trim"}; auto add=[&](const char* n, const char* o){ ms.insert(n); av.push_back(o); av.push_back(n); }; if (k&1) add("m@standard","-s"); if (k&2) add("x@inconditional",hx_pick("long",2)?"--match-section":"-s");
  hx_file_put("1",dict_bytes(a,{0,1},"ab")); hx_file_put("2",dict_bytes(b,{1,2,0},"c")); Secs w; for (auto& s : a) { std::vector<Trip> kp; for (auto& t : s.second) { bool ok=false; for (auto& bs : b) { bool use=ms.count(s.first)?bs.first==s.first:!ms.count(bs.first); if (use) for (auto& x : bs.second) ok|=covers(x,t.r); } if (ok) kp.push_back(t); } if (!kp.empty()) w[s.first]=kp; } if (w.empty()) sx_end();
  av.push_back(pth("1")); av.push_back(pth("2")); av.push_back(pth("3")); CHECK(run_main(lt_trim_main,av)==0,"lt-trim fails"); Loaded L; load_file(L,"3"); check_secs(L,w,2,5,"a section does not hold exactly the entries the other dictionary covers"); sx_reach(0); }
// ---- lt-compose anywhere: any stretches of the side are rewritten, the rest is passed through
static void anyw(const U32& r, size_t i, const std::vector<Trip>& g, U32 out, double w, std::vector<std::pair<U32,double>>& res) { if (i==r.size()) { res.push_back({out,w}); return; } U32 o=out; o.push_back(r[i]); anyw(r,i+1,g,o,w,res); for (auto& x : g) { if (i+x.l.size()>r.size() || !std::equal(x.l.begin(),x.l.end(),r.begin()+i)) continue; U32 q=out; q.insert(q.end(),x.r.begin(),x.r.end()); anyw(r,i+x.l.size(),g,q,w+x.w,res); } }
HARNESS(h_compose_any) { static const Trip G[]={tr("a<n>","b<n>"),tr("b","a",1.5),tr("<v>","c<v>"),tr("a","bb"),tr("ab","c"),tr("<n>","",0.25)}; static const Trip F[]={tr("c","ab<n>"),tr("b","aa<n>",0.5),tr("a","b<v><n>"),tr("<n>","ba")}; bool inv=hx_pick("inv",2); auto e=[&](){ Trip t=F[hx_pick("e",4)]; if (inv) std::swap(t.l,t.r); return t; }; auto g=[&](){ return G[hx_pick("g",6)]; }; Secs f={{"m@standard",{e()}},{"x@inconditional",{e()}}}, b={{"m@standard",{g()}},{"q@standard",{g()}}}; std::vector<Trip> all=b["m@standard"]; all.push_back(b["q@standard"][0]);
  hx_file_put("1",dict_bytes(f,{0,1},"ab😀")); hx_file_put("2",dict_bytes(b,{2,1,0},"c")); Secs w; for (auto& s : f) for (auto& t : s.second) { std::vector<std::pair<U32,double>> res; anyw(inv?t.l:t.r,0,all,{},t.w,res); for (auto& x : res) { Trip n=t; (inv?n.l:n.r)=x.first; n.w=x.second; w[s.first].push_back(n); } }
  std::vector<std::string> av={"lt-compose"}; if (inv) av.push_back("--inverted"); av.push_back(hx_pick("long",2)?"--anywhere":"-a"); av.push_back(pth("1")); av.push_back(pth("2")); av.push_back(pth("3")); CHECK(run_main(lt_compose_main,av)==0,"lt-compose fails"); Loaded L; load_file(L,"3"); check_secs(L,w,4,5,"a section is not the composition anywhere with the second dictionary"); sx_reach(inv); }
// ---- lt-trim with groups: in the bilingual dictionary the rest of the lemma comes before the tags, in the other one after them
HARNESS(h_trim_group) { static const Trip BI[]={tr("a#b<n>","x#y<n>"),tr("a#c<v>","x<v>"),tr("a#b<v>","z"),tr("a<n>","c<n>"),tr("a#bb<n>","y"),tr("a#cb<n><v>","y"),tr("ab#c<n>","w"),tr("b#c<v>","b")}; unsigned i=hx_pick("b1",8), j=hx_pick("b2",8); sx_assume(i<=j); std::vector<Trip> B={BI[i],BI[j],tr("b<v>","b<v>")};
  bool join=hx_pick("join",2), ab=hx_pick("ab",2); U32 lem={'a'}; if (ab) lem.push_back('b'); static const uint32_t QT[]={'b','c'}; U32 tags={TAG0+hx_pick("t1",2)}; if (hx_pick("two",2)) tags.push_back(TAG0+hx_pick("t2",2)); U32 q={hx_char("q",QT,2)}; if (hx_pick("q2",2)) q.push_back(hx_char("q",QT,2)); if (hx_pick("noq",2)) { if (join) sx_end(); q.clear(); }
  U32 r=lem; r.insert(r.end(),tags.begin(),tags.end()); if (join) { r.push_back('+'); r.push_back('b'); r.push_back(TAG0+1); } if (!q.empty()) { r.push_back('#'); r.insert(r.end(),q.begin(),q.end()); }
  auto known=[&](const U32& l, const U32& t, const U32& g){ U32 h=l; if (!g.empty()) { h.push_back('#'); h.insert(h.end(),g.begin(),g.end()); } for (auto& b : B) { size_t n=b.l.size(); if (n<=h.size() || n>h.size()+t.size()) continue; bool ok=true; for (size_t k=0;k<n;k++) ok=ok&(b.l[k]==(k<h.size()?h[k]:t[k-h.size()])); if (ok) return true; } return false; };
  bool keep=known(lem,tags,q); Trip e{u32_of("q"),r,0.5}, always=tr("b","b<v>",0.25); hx_file_put("1",dict_bytes({{"main@standard",{e,always}}},{0,1},"ab")); hx_file_put("2",dict_bytes({{"main@standard",B}},{1,0},"abc")); CHECK(run_main(lt_trim_main,{"lt-trim",pth("1"),pth("2"),pth("3")})==0,"lt-trim fails"); Loaded L; load_file(L,"3"); UString nm=u"main@standard"; CHECK(L.ts.count(nm) && L.ts.size()==1,"a section is missing");
  auto weight=[&](const Trip& t){ std::vector<int> u,v; for (auto c : t.l) u.push_back(code_in(L.al,c)); for (auto c : t.r) v.push_back((int)sx_concretize((uint32_t)code_in(L.al,c))); std::vector<int> y((u.size()+1)*(v.size()+1)); M m=mfrom(L.ts[nm]); mbest2q(m,u.data(),(int)u.size(),v.data(),(int)v.size(),y.data(),[&](int k){ return L.al.decode(k); }); return y.back(); }; CHECK(weight(e)==(keep?2:IINF),"a word with a group is kept although it has no translation, or dropped although it has one"); CHECK(weight(always)==1,"another word changed"); sx_reach(keep); }
