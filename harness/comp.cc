// The lt-comp command: directions, variants, boundaries, equivalent characters, section size, separable dictionaries, ATT input.
#include "tools.h"
int lt_comp_main(int, char**);
static void comp(const std::vector<std::string>& opts, const char* dir, bool acx=false) { std::vector<std::string> v={"lt-comp"}; v.insert(v.end(),opts.begin(),opts.end()); v.push_back(dir); v.push_back(pth("in")); v.push_back(pth("out")); if (acx) v.push_back(pth("acx")); CHECK(run_main(lt_comp_main,v)==0,"lt-comp failed"); }
static Secs secs_of(const Dix& d, const DOpt& o) { Secs w; for (auto& s : d.ss) { std::vector<Trip> m; meaning(d,s.es,o,m); if (refused(m,o.rl)) sx_end(); if (m.empty()) continue; auto& x=w[s.id+"@"+s.type]; for (auto& t : m) { if (o.rl) std::swap(t.l,t.r); x.push_back(t); } } return w; }
// ---- direction, alternative and variants from the command line
HARNESS(h_comp_opts) { static const char* const DIR[]={"lr","rl","x"}; unsigned di=hx_pick("dir",3); DOpt o; o.rl=di==1; std::vector<std::string> v; unsigned used=0; static const char SO[]="avlr"; static const char* const LO[]={"alt","var","var-left","var-right"}; std::string* const TO[]={&o.alt,&o.var,&o.vl,&o.vr};
  for (unsigned n=0;n<2;n++) { unsigned k=hx_pick("opt",5); if (k==4) break; if (used>>k&1) sx_end(); used|=1<<k; const char* val=hx_pick("val",2)?"y":"x"; *TO[k]=val; if (hx_pick("long",2)) v.push_back(std::string("--")+LO[k]+"="+val); else { v.push_back(std::string("-")+SO[k]); v.push_back(val); } }
  Dix d; Sec s{"main","standard",{en({id("a")}),en({pr("b","c")}),en({pr("ab","c")}),en({pr("ca","a")}),en({pr("cb","ba")}),en({id("ac")})}}; s.es[0].r="LR"; s.es[1].alt="x"; s.es[2].v="y"; s.es[3].vl="x"; s.es[4].vr="y"; d.ss={s}; hx_file_put("in",xml_of(d));
  bool bad=di==2 || (di==0 && (used>>2&1)) || (di==1 && (used>>3&1)); if (bad) { sx_exit_policy(1); sx_reach(1); comp(v,DIR[di]); CHECK(false,"an unknown direction or a variant of the wrong side was accepted"); return; }
  Secs w=secs_of(d,o); comp(v,DIR[di]); Loaded L; load_file(L,"out"); check_secs(L,w,2,3,"the compiled file does not hold what the options ask for"); check_letters(L,"ab"); sx_reach(0); }
// ---- morpheme boundaries
HARNESS(h_comp_bound) { bool keep=hx_pick("m",2), rl=hx_pick("rl",2); static const char* const X[]={"a<m/>b","<m/>a","ab<m/>"}; unsigned k=hx_pick("x",3), q=hx_pick("par",2); std::string e=q?std::string("<e><i>")+X[k]+"</i><par n=\"P\"/></e>":std::string("<e><p><l>")+X[k]+"</l><r>c</r></p></e>"; hx_file_put("in","<?xml version=\"1.0\"?>\n<dictionary><alphabet>ab</alphabet><pardefs><pardef n=\"P\"><e><p><l>c<m/></l><r>c</r></p></e></pardef></pardefs><section id=\"main\" type=\"standard\">"+e+"</section></dictionary>\n"); comp(keep?std::vector<std::string>{hx_pick("long",2)?"--keep-boundaries":"-m"}:std::vector<std::string>{},rl?"rl":"lr");
  U32 l, r, s; for (const char* p=X[k];*p;p++) { if (*p=='<') { if (keep) s.push_back('>'); p+=3; } else s.push_back((unsigned char)*p); } l=s; if (q) { r=s; l.push_back('c'); if (keep) l.push_back('>'); r.push_back('c'); } else r={'c'}; Trip t{l,r,0}; if (rl) std::swap(t.l,t.r); Loaded L; load_file(L,"out"); static const uint32_t T[]={'a','b','c','>'}; const int n=5; int u[5],vv[5],x[36],y[36]; for (int i=0;i<n;i++) u[i]=(int)hx_char("u",T,4); for (int i=0;i<n;i++) vv[i]=(int)hx_char("v",T,4); rel_pairs(L.al,{t},false,u,vv,n,x); rel_trans(L.ts[u"main@standard"],L.al,u,vv,n,y); CHECK(eqv(x,y,36),"morpheme boundaries are not kept or left out as asked"); sx_reach(0); }
// ---- equivalent characters
HARNESS(h_comp_acx) { bool rl=hx_pick("rl",2); unsigned k=hx_pick("acx",3); Dix d; d.ps={{"P",{en({pr("a","c")}),en({pr("","b")},1.5)}}}; static const std::vector<El> PE[]={{id("ab")},{pr("cb","ab")},{pr("b","a")},{pr("ca","a<n>")},{id("b"),par("P")},{pr("cc","ac")},{par("P"),id("a")},{pr("ca","b")},{pr("c","ba")}}; Sec s{"main","standard",{en(PE[hx_pick("e",9)]),en(PE[hx_pick("e",9)],hx_pick("w",2)?0.25:0)}}; d.ss={s}; hx_file_put("in",xml_of(d)); std::string x="<?xml version=\"1.0\"?>\n<analysis-chars>\n"; if (k!=1) x+=" <char value=\"a\"><equiv-char value=\"c\"/>"+std::string(k==2?"<equiv-char value=\"b\"/>":"")+"</char>\n"; if (k) x+=" <char value=\"b\">\n  <equiv-char value=\"c\"/></char>\n"; x+="</analysis-chars>\n"; hx_file_put("acx",x);
  DOpt o; o.rl=rl; Secs a=secs_of(d,o), w; if (rl) w=a; else for (auto& sc : a) for (auto& t : sc.second) { std::vector<Trip> cur={t}; for (size_t i=0;i<t.l.size();i++) { std::vector<Trip> nx=cur; for (auto& c : cur) { auto add=[&](uint32_t z){ Trip n=c; n.l[i]=z; nx.push_back(n); }; if (t.l[i]=='a' && k!=1) { add('c'); if (k==2) add('b'); } if (t.l[i]=='b' && k) add('c'); } cur=nx; } auto& q=w[sc.first]; q.insert(q.end(),cur.begin(),cur.end()); }
  comp({},rl?"rl":"lr",true); Loaded L; load_file(L,"out"); check_secs(L,w,2+(rl==0),5,"the compiled file does not hold exactly the entries with their equivalent characters"); sx_reach(rl); }
// ---- a limit on the size of a section changes only how the entries are spread
HARNESS(h_comp_max) { unsigned mx=1+hx_pick("max",3); bool rl=hx_pick("rl",2); Dix d; d.ps={{"P",{en({pr("a","c")}),en({pr("b","")},1.5)}}}; static const std::vector<El> PE[]={{id("ab")},{pr("c","ab")},{pr("b","a")},{id("b"),par("P")}}; Sec s{"main","standard",{en(PE[hx_pick("e",4)]),en(PE[hx_pick("e",4)]),en(PE[hx_pick("e",4)])}}, z{"fin","inconditional",{en({id("c")}),en({pr("ca","b")})}}; if (hx_pick("skip",2)) s.es[1].ig=true; d.ss={s,z}; DOpt o; o.rl=rl; Secs w=secs_of(d,o);
  hx_file_put("d.dix",xml_of(d)); Loaded L; { Compiler c; c.setMaxSectionEntries(mx); c.parse(hx_path("d.dix"),rl?u"RL":u"LR"); HxOut f; c.write(f.f); load_bytes(L,f.done()); } const int n=2; int u[3],v[3],x[9],y[9]; for (int i=0;i<n;i++) u[i]=(int)hx_char("u",SYT,3); for (int i=0;i<n;i++) v[i]=(int)hx_char("v",SYT,3);
  size_t seen=0; for (auto& sc : d.ss) { for (int i=0;i<9;i++) x[i]=IINF; std::string suf="@"+sc.type; for (auto& t : L.ts) { if (t.first.size()<suf.size() || !(t.first.substr(t.first.size()-suf.size())==hx_u(suf.c_str()))) continue; seen++; rel_trans(t.second,L.al,u,v,n,y); for (int i=0;i<9;i++) x[i]=imin(x[i],y[i]); } rel_pairs(L.al,w[sc.id+suf],false,u,v,n,y); CHECK(eqv(x,y,9),"splitting a section changed what it holds"); } CHECK(seen==L.ts.size(),"a section of unknown kind"); sx_reach(0); }
// ---- separable dictionaries: any-tag and any-character loops, word boundaries
static const char* const SN[]={"a","b","<t/>","<w/>","<d/>","<d space=\"yes\"/>","<d space=\"no\"/>","<f/>","<s n=\"n\"/>"}; static const char* const SC[]={"a","b","<ANY_TAG>","<ANY_CHAR>","<$>","<$_>","<$->","</>","<n>"};
HARNESS(h_comp_lsx) { bool rl=hx_pick("rl",2); struct P { std::vector<int> l,r; }; std::vector<P> es; std::string xml=std::string("<?xml version=\"1.0\"?>\n<dictionary type=\"")+(hx_pick("seq",2)?"sequential":"separable")+"\"><alphabet></alphabet><sdefs><sdef n=\"n\"/></sdefs><section id=\"main\" type=\"standard\">"; for (int i=0;i<2;i++) { P p; unsigned first=hx_pick("f",i?3:2); p.l.push_back(first==2?4:first?2:0); p.l.push_back((int)hx_pick("l",i?3:Q(6,9))+2*(i==0 && TIER==0)); switch (hx_pick("r",3)) { case 0: p.r=p.l; break; case 1: p.r={p.l[0]}; break; default: p.r={p.l[0],1}; } if (rl) std::swap(p.l,p.r); es.push_back(p); std::string l,r; for (int c : p.l) l+=SN[c]; for (int c : p.r) r+=SN[c]; xml+="<e><p><l>"+l+"</l><r>"+r+"</r></p></e>"; } xml+="</section></dictionary>\n"; hx_file_put("in",xml); comp({},rl?"rl":"lr"); Loaded L; load_file(L,"out"); CHECK(L.ts.size()==1 && L.ts.count(u"main@standard"),"not exactly one section");
  int code[9]; for (int i=0;i<9;i++) code[i]=i<2?SC[i][0]:L.al(hx_u(SC[i])); const int n=3; int u[3],v[3],x[16],y[16]; uint32_t tab[9]; for (int i=0;i<9;i++) tab[i]=(uint32_t)code[i]; for (int i=0;i<n;i++) u[i]=(int)hx_char("u",tab,Q(6,9)); for (int i=0;i<n;i++) v[i]=(int)hx_char("v",tab,Q(6,9));
  for (int i=0;i<16;i++) x[i]=IINF; for (auto& p : es) { auto &l=rl?p.r:p.l, &r=rl?p.l:p.r; size_t m=std::max(l.size(),r.size()); for (int k0=1;k0<=3;k0++) for (int k1=1;k1<=3;k1++) for (int e=0;e<2;e++) { std::vector<int> a,b; bool skip=false; for (size_t i=0;i<m;i++) { int cl=i<l.size()?l[i]:-1, cr=i<r.size()?r[i]:-1; bool loop=(cl==2 || cl==3) && (cr==cl || cr==-1); int k=i?k1:k0; if (k>1 && !loop) skip=true; for (int q=0;q<k;q++) { if (cl>=0) a.push_back(code[cl]); if (cr>=0) b.push_back(code[cr]); } } if (m<2 && k1>1) skip=true; if (skip) continue; if (e) { a.push_back(code[4]); b.push_back(code[4]); } if ((int)a.size()>n || (int)b.size()>n) continue; bool ok=true; for (size_t i=0;i<a.size();i++) ok=ok&(u[i]==a[i]); for (size_t i=0;i<b.size();i++) ok=ok&(v[i]==b[i]); int& c=x[a.size()*(n+1)+b.size()]; c=imin(c,isel(ok,0,IINF)); } }
  rel_trans(L.ts[u"main@standard"],L.al,u,v,n,y); CHECK(eqv(x,y,16),"the separable dictionary does not hold exactly its entries, loops and boundaries"); sx_reach(0); }
// ---- text transducers are recognised, in both directions, whole or split
HARNESS(h_comp_att) { static const char* const DIR[]={"lr","rl","u"}; unsigned di=hx_pick("dir",3); bool S=hx_pick("S",2), H=hx_pick("H",2); std::string t="0\t1\ta\tb\n1\t2\tc\tε\n2\n0\t3\t.\ta\n3\n"; hx_file_put("in",t); std::vector<std::string> v; if (S) v.push_back(hx_pick("long",2)?"--no-split":"-S"); if (H) v.push_back("-H"); comp(v,DIR[di]); Loaded L; load_file(L,"out"); bool rl=di==1; Trip a=tr("ac","b"), b=tr(".","a"); if (H) a.r.push_back(0x3b5); if (rl) { std::swap(a.l,a.r); std::swap(b.l,b.r); } Secs w; w["main@standard"]={a}; if (S || rl) w["main@standard"].push_back(b); else w["final@inconditional"]={b};
  static const uint32_t T[]={'a','b','c','.',0x3b5}; int u[3],vv[3],x[16],y[16]; const int n=2; for (int i=0;i<n;i++) u[i]=(int)hx_char("u",T,5); for (int i=0;i<n;i++) vv[i]=(int)hx_char("v",T,5); CHECK(w.size()==L.ts.size(),"the sections are not the expected ones"); for (auto& s : w) { UString nm=hx_u(s.first.c_str()); CHECK(L.ts.count(nm),"a section is missing"); rel_pairs(L.al,s.second,false,u,vv,n,x); rel_trans(L.ts[nm],L.al,u,vv,n,y); CHECK(eqv(x,y,9),"the text transducer is not compiled as asked"); } sx_reach(0); }
HARNESS(h_comp_errors) { sx_exit_policy(1); unsigned k=hx_pick("what",5); std::string acx="<?xml version=\"1.0\"?>\n<analysis-chars><char value=\"a\"><equiv-char value=\"c\"/></char></analysis-chars>\n"; Dix d; d.ss={{"main","standard",{en({id("a")})}}}; std::string x=xml_of(d); std::vector<std::string> v={"lt-comp","lr",pth("in"),pth("out"),pth("acx")}; switch (k) { case 0: acx="<?xml version=\"1.0\"?>\n<analysis-chars><char value=\"ab\"/></analysis-chars>\n"; break; case 1: acx="<?xml version=\"1.0\"?>\n<analysis-chars><char><equiv-char value=\"c\"/></char></analysis-chars>\n"; break; case 2: acx="<?xml version=\"1.0\"?>\n<analysis-chars><e/></analysis-chars>\n"; break; case 3: v.resize(3); break; default: v[2]=pth("nofile"); } hx_file_put("in",x); hx_file_put("acx",acx); sx_reach(0); run_main(lt_comp_main,v); CHECK(false,"a wrong command line or file of equivalent characters was accepted"); }
