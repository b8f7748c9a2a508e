// Command lines: what the tools take from their arguments, and what they refuse.
#include "tools.h"
#include <lttoolbox/cli.h>
#include <lttoolbox/tmx_compiler.h>
struct Arg { const char* a; const char* b; };
static const Arg EL[]={{"-a",0},{"--str","v1"},{"f1",0},{"-sv2",0},{"--",0},{"-abc",0},{"--nope",0},{"-m","-a"},{"-",0},{"-s",0},{"--mark=",0},{"--bar",0},{"-bs","f2"},{"--al",0},{"-z",0},{"--all",0},{"--all=x",0},{"",0},{"--str=v=3",0},{"-ba",0},{"--bare",0},{"-mx","y"}};
struct Got { std::set<std::string> b; std::map<std::string,std::vector<std::string>> s; std::vector<std::string> f; bool bad=false; };
// options: a all, b bare, c all-in, s str (value), m mark (value); an unambiguous beginning of a long name will do
static Got read_args(const std::vector<std::string>& v) { Got g; static const struct { char c; const char* n; bool val; } O[]={{'a',"all",false},{'b',"bare",false},{'c',"all-in",false},{'s',"str",true},{'m',"mark",true}}; size_t i=0;
  for (;i<v.size();i++) { const std::string& x=v[i]; if (x=="--") { i++; break; } if (x.size()<2 || x[0]!='-') { g.f.push_back(x); continue; }
    if (x[1]=='-') { size_t e=x.find('='); std::string n=x.substr(2,e==std::string::npos?e:e-2); int hit=-1, many=0; for (int k=0;k<5;k++) { std::string o=O[k].n; if (o==n) { hit=k; many=1; break; } if (o.compare(0,n.size(),n)==0) { hit=k; many++; } } if (many!=1) { g.bad=true; return g; }
      if (O[hit].val) { if (e!=std::string::npos) g.s[O[hit].n].push_back(x.substr(e+1)); else if (i+1<v.size()) g.s[O[hit].n].push_back(v[++i]); else { g.bad=true; return g; } } else { if (e!=std::string::npos) { g.bad=true; return g; } g.b.insert(O[hit].n); } }
    else for (size_t j=1;j<x.size();j++) { int hit=-1; for (int k=0;k<5;k++) if (O[k].c==x[j]) hit=k; if (hit<0) { g.bad=true; return g; } if (!O[hit].val) { g.b.insert(O[hit].n); continue; } if (j+1<x.size()) g.s[O[hit].n].push_back(x.substr(j+1)); else if (i+1<v.size()) g.s[O[hit].n].push_back(v[++i]); else { g.bad=true; return g; } break; } }
  for (;i<v.size();i++) g.f.push_back(v[i]); return g; }
static void args_run(const std::vector<std::string>& v, unsigned need, unsigned most) { Got g=read_args(v); CLI c("test","1"); c.add_bool_arg('a',"all","x"); c.add_str_arg('s',"str","x","V"); c.add_bool_arg('b',"bare","x"); c.add_bool_arg('c',"all-in","x"); c.add_str_arg('m',"mark","x","V"); for (unsigned i=0;i<most;i++) c.add_file_arg("file",i>=need);
  if (g.f.size()<need || g.f.size()>most) g.bad=true; while (g.f.size()<most) g.f.push_back("");
  std::vector<std::string> s={"dir/prog"}; s.insert(s.end(),v.begin(),v.end()); std::vector<char*> p; for (auto& x : s) p.push_back(&x[0]); p.push_back(nullptr); optind=0;
  if (g.bad) { sx_exit_policy(2); c.parse_args((int)s.size(),p.data()); CHECK(false,"a wrong command line was accepted"); return; }
  c.parse_args((int)s.size(),p.data()); CHECK(c.get_files()==g.f,"the files are not the ones given"); std::set<std::string> b; for (auto& x : c.get_bools()) if (x.second) b.insert(x.first); CHECK(b==g.b,"the options are not the ones given"); std::map<std::string,std::vector<std::string>> st; for (auto& x : c.get_strs()) if (!x.second.empty()) st.insert(x); CHECK(st==g.s,"the values of options are not the ones given"); sx_reach(0); if (v.size()>2 && g.f.size()>1 && !b.empty()) sx_reach(1); }
HARNESS(h_cli_args) { unsigned n=hx_pick("n",Q(4,5)); std::vector<std::string> v; for (unsigned i=0;i<n;i++) { auto& e=EL[hx_pick("e",i==0?22:i==1?Q(14,22):Q(9,12))]; v.push_back(e.a); if (e.b) v.push_back(e.b); } args_run(v,1,2+(n<3)); }
HARNESS(h_cli_count) { unsigned need=hx_pick("need",3), most=need+hx_pick("most",3), n=hx_pick("n",6); std::vector<std::string> v; for (unsigned i=0;i<n;i++) v.push_back("f"+std::to_string(i)); unsigned p=hx_pick("at",n+2); if (p<=n) v.insert(v.begin()+p,"-a"); args_run(v,need,most); }
HARNESS(h_cli_version) { bool last=hx_pick("last",2), lng=hx_pick("long",2); CLI c("test","3.1"); c.add_bool_arg('a',"all","x"); c.add_bool_arg('v',"version","x"); c.add_file_arg("file",false); std::vector<std::string> s={"prog",lng?"--version":"-v"}; s.insert(s.begin()+1+last,"-a"); std::vector<char*> p; for (auto& x : s) p.push_back(&x[0]); p.push_back(nullptr); optind=0; sx_reach(0); sx_exit_policy(3); c.parse_args((int)s.size(),p.data()); CHECK(false,"the version was not the answer"); }
// any letters: joined options, and anything that could be a long one
static std::string anyb(unsigned n) { std::string o; for (unsigned i=0;i<n;i++) { char c=(char)sx_u8("b"); sx_assume(c!=0); o+=c; } return o; }
HARNESS(h_cli_letters) { unsigned n=1+hx_pick("n",Q(2,3)); std::string x="-"+anyb(n); sx_assume(x[1]!='-'); std::vector<std::string> v={"f1",x,"f2"}; if (hx_pick("rev",2)) std::swap(v[0],v[1]); args_run(v,1,2); }
HARNESS(h_cli_long) { unsigned n=1+hx_pick("n",Q(3,4)); std::vector<std::string> v={"f1","--"+anyb(n),"v"}; args_run(v,1,2); }
HARNESS(h_cli_value) { unsigned n=hx_pick("n",Q(3,4)); std::string x=anyb(n); std::vector<std::string> v; switch (hx_pick("how",4)) { case 0: v={"-s",x}; break; case 1: if (!n) sx_end(); v={"-as"+x}; break; case 2: v={"--str",x}; break; default: v={"--str="+x}; } v.insert(v.begin()+(hx_pick("first",2)?0:v.size()),"f"); args_run(v,1,2); }
// ---- the tools
#define M(x) int x##_main(int,char**);
M(lt_append) M(lt_apply_acx) M(lt_comp) M(lt_compose) M(lt_expand) M(lt_invert) M(lt_merge) M(lt_paradigm) M(lt_print) M(lt_proc) M(lt_restrict) M(lt_tmxcomp) M(lt_tmxproc) M(lt_trim)
#undef M
struct Tool { int (*m)(int,char**); const char* a[4]; unsigned need, most; const char* g[4]; };    // arguments of a good call; . stands for a missing file, o for the output
static const Tool TL[]={{lt_append_main,{".",".","o"},1,3,{"a.bin","b.bin","o.bin"}},{lt_apply_acx_main,{".",".","o"},1,3,{"a.bin","x.acx","o.bin"}},{lt_comp_main,{"lr",".","o"},3,4,{"lr","a.dix","o.bin","x.acx"}},{lt_compose_main,{".",".","o"},1,3,{"a.bin","b.bin","o.bin"}},{lt_expand_main,{".","o"},1,2,{"a.dix","o.txt"}},{lt_invert_main,{".","o"},0,2,{"a.bin","o.bin"}},{lt_merge_main,{".","o"},0,2,{"a.dix","o.dix"}},{lt_paradigm_main,{".",".","o"},1,3,{"a.bin","o.txt"}},{lt_print_main,{".","o"},0,2,{"a.bin","o.txt"}},{lt_proc_main,{".",".","o"},1,3,{"a.bin","i.txt","o.txt"}},{lt_restrict_main,{"lr",".","o"},1,3,{"lr","a.dix","o.dix"}},{lt_tmxcomp_main,{"a-b",".","o"},3,3,{"aa-bb","m.tmx","o.bin"}},{lt_tmxproc_main,{".",".","o"},1,3,{"t.bin","i.txt","o.txt"}},{lt_trim_main,{".",".","o"},1,3,{"a.bin","b.bin","o.bin"}}};
static void make_good() { hx_file_put("a.dix","<dictionary><alphabet>ab</alphabet><sdefs/><section id=\"m\" type=\"standard\"><e><i>ab</i></e></section></dictionary>"); hx_file_put("x.acx","<analysis-chars><char value=\"a\"><equiv-char value=\"b\"/></char></analysis-chars>"); hx_file_put("i.txt","ab"); hx_file_put("m.tmx","<tmx version=\"1.4\"><header/><body><tu><tuv xml:lang=\"aa\"><seg>kake er godt</seg></tuv><tuv xml:lang=\"bb\"><seg>hei alle sammen</seg></tuv></tu></body></tmx>");
  { Compiler c; c.parse(hx_path("a.dix"),u"LR"); HxOut w; c.write(w.f); std::string b=w.done(); hx_file_put("a.bin",b); hx_file_put("b.bin",b); } { TMXCompiler c; c.parse(hx_path("m.tmx"),u"aa",u"bb"); HxOut w; c.write(w.f); hx_file_put("t.bin",w.done()); } }
HARNESS(h_cli_tool) { auto& t=TL[hx_pick("tool",14)]; unsigned kind=hx_pick("kind",5); std::vector<std::string> v={"tool"}; for (auto a : t.a) if (a) v.push_back(!strcmp(a,".")?pth("missing"):!strcmp(a,"o")?pth("out"):std::string(a));
  switch (kind) { case 0: if (!t.need) sx_end(); v.resize(t.need); break; case 1: { /* files that are all there, so that nothing else is wrong */ make_good(); v={"tool"}; for (auto a : t.g) if (a) v.push_back(strchr(a,'.')?pth(a):std::string(a)); unsigned at=1+hx_pick("at",v.size()); std::string x=hx_pick("extra",2)?"x":v[at<v.size()?at:at-1]; while (v.size()<t.most+2) v.insert(v.begin()+at,x); break; } case 2: v.insert(v.begin()+1+hx_pick("at",v.size()),"-Q"); break; case 3: v.insert(v.begin()+1+hx_pick("at",v.size()),"--no-such-thing"); break; default: ; }
  sx_reach(0); sx_exit_policy(2); int r=run_main(t.m,v); CHECK(r!=0,"a tool reports success where it could not do its work"); }
