// ATT text: reading it gives exactly the transducer it describes, printing and reading again changes nothing.
#include "tools.h"
#include <lttoolbox/att_compiler.h>
int lt_print_main(int,char**);
typedef std::pair<uint32_t,uint32_t> IP;
struct AA { int s,t; uint32_t l,r; int w; };   // 0: empty; w: number of the weight, 0 none
struct At { std::vector<AA> a; std::vector<std::pair<int,int>> fin; };
static const char* const WS[]={"","1.5","0.25","-1","3.000000","2"}; static const double WV[]={0,1.5,0.25,-1,3,2};
static std::string sym(uint32_t c, int style) { if (!c) return style==1?"@0@":style==2?"@_EPSILON_SYMBOL_@":"ε"; if (c==' ' && style) return "@_SPACE_@"; if (c=='\t') return "@_TAB_@"; std::string o; put8s(o,c); return o; }
static std::string num(int n) { return std::to_string(n); }
static std::string arc_text(const AA& a, int style) { return num(a.s)+"\t"+num(a.t)+"\t"+sym(a.l,style)+"\t"+sym(a.r,style)+(a.w?std::string("\t")+WS[a.w]:"")+"\n"; }
static std::string fin_text(const std::pair<int,int>& f) { return num(f.first)+(f.second?std::string("\t")+WS[f.second]:"")+"\n"; }
static std::string text(const At& x, int style, unsigned order) { std::string s; size_t n=x.a.size(); s+=arc_text(x.a[0],style); std::string fs; for (auto& f : x.fin) fs+=fin_text(f); if (order==2) s+=fs; for (size_t i=1;i<n;i++) s+=arc_text(x.a[order==1?n-i:i],style); if (order!=2) s+=fs; return s; }
// the same as a reference automaton; the first file's states start at 1, each further one behind
static void model(const std::vector<At>& xs, Alphabet& al, bool rl, M& m, std::vector<std::pair<int,int>>& lab) { m.n=1; m.init=0; for (auto& x : xs) { int mx=0; for (auto& a : x.a) mx=std::max(mx,std::max(a.s,a.t)); for (auto& f : x.fin) mx=std::max(mx,f.first); int off=m.n; m.n+=mx+1; lab.push_back({0,0}); m.arc(0,off+x.a[0].s,(int)lab.size()-1); for (auto& a : x.a) { int l=a.l?code_in(al,a.l):0, r=a.r?code_in(al,a.r):0; lab.push_back(rl?std::make_pair(r,l):std::make_pair(l,r)); m.arc(off+a.s,off+a.t,(int)lab.size()-1,WV[a.w]); } for (auto& f : x.fin) m.fin.push_back({off+f.first,WV[f.second]}); } }
static std::string att_compile(const std::string& t, bool rl, bool split, bool hfst) { hx_file_put("t.att",t); AttCompiler c; c.setHfstSymbols(hfst); c.setSplitting(split); c.parse(hx_path("t.att"),rl); HxOut w; c.write(w.f); return w.done(); }
static const uint32_t SYA[]={'a','b','.',TAG0,' ',0x1f600,0x3b5,'\t'};
static void words(Alphabet& al, int* u, int* v, int n, unsigned nt) { al.includeSymbol(hx_u(TAGS[0])); uint32_t tab[8]; for (unsigned i=0;i<nt;i++) tab[i]=(uint32_t)code_in(al,SYA[i]); for (int i=0;i<n;i++) u[i]=(int)hx_char("u",tab,nt); for (int i=0;i<n;i++) v[i]=(int)hx_char("v",tab,nt); }
static const int SK[6][4][2]={{{0,1},{1,2},{0,2},{2,3}},{{0,1},{1,1},{1,2},{0,3}},{{5,1},{1,3},{3,3},{5,3}},{{0,1},{0,2},{2,1},{1,3}},{{0,2},{0,1},{1,3},{2,1}},{{0,1},{1,0},{1,2},{2,2}}};
static const IP LT[]={{'a','b'},{'b',0},{0,'a'},{TAG0,TAG0},{'a',' '},{' ','a'},{'b','b'},{0x1f600,'a'},{'.','.'},{0,0}};
static At skel(unsigned k, unsigned nl, bool w) { At x; for (int i=0;i<4;i++) { IP p=LT[i<3?hx_pick("lab",nl):(k*2+i)%8]; for (auto& a : x.a) if (a.s==SK[k][i][0] && a.t==SK[k][i][1] && a.l==p.first && a.r==p.second) sx_end(); x.a.push_back({SK[k][i][0],SK[k][i][1],p.first,p.second,w?(int)hx_pick("w",i<2?3:1):0}); } x.fin.push_back({k==5?0:3,w?4*(int)hx_pick("fw",2):0}); if (hx_pick("two",2)) x.fin.push_back({k==2?1:2,0}); return x; }
static void check_all(const std::vector<At>& xs, const std::string& t, bool rl, bool hfst) { Loaded L; load_bytes(L,att_compile(t,rl,false,hfst)); CHECK(L.ts.size()==1 && L.ts.count(u"main@standard"),"there is not exactly one section"); const int n=2; int u[3],v[3],x[9],y[9]; words(L.al,u,v,n,6); M m; std::vector<std::pair<int,int>> lab; model(xs,L.al,rl,m,lab); mbest2q(m,u,n,v,n,x,[&](int k){ return lab[k]; }); rel_trans(L.ts[u"main@standard"],L.al,u,v,n,y); CHECK(eqv(x,y,9),"the compiled transducer is not the one described by the text"); sx_reach(0); }
HARNESS(h_att_read) { unsigned k=hx_pick("sk",6); bool rl=hx_pick("rl",2); At x=skel(k,Q(5,8),false); unsigned st=(k+rl)%3; check_all({x},text(x,(int)st,Q((k+x.fin.size())%3,hx_pick("order",3))),rl,st!=0); }
HARNESS(h_att_w) { unsigned k=hx_pick("sk",Q(4,6)); At x=skel(k,Q(3,4),true); check_all({x},text(x,0,(k+x.fin.size())%3),false,false); }
HARNESS(h_att_many) { At x=skel(hx_pick("sk",Q(3,6)),Q(3,4),false), y; y.a.push_back({0,1,LT[hx_pick("y1",4)].first,LT[0].second,1}); y.a.push_back({1,2,'b','a',0}); y.fin.push_back({2,2}); if (hx_pick("rev",2)) check_all({y,x},text(y,0,0)+"--\n"+text(x,0,1),false,false); else check_all({x,y},text(x,0,0)+"--\n\n"+text(y,0,2),false,false); }
// symbols of several characters, any characters
HARNESS(h_att_case) { static const uint32_t TC[]={'a','A',0xc9,0xe9,0x10400,0x10428,0x3a9,0x1c5,'1',0xdf,'!'}; uint32_t c=hx_char("c",TC,11), e=hx_char("e",TC,11); std::string s,t; put8s(s,c); put8s(t,e); Loaded L; load_bytes(L,att_compile("0\t1\t"+s+"\t"+t+"\n1\n",hx_pick("rl",2),false,false)); for (uint32_t x : {c,e}) { UChar32 oc=u_islower((UChar32)x)?u_toupper((UChar32)x):u_isupper((UChar32)x)?u_tolower((UChar32)x):(UChar32)x; CHECK(L.letters.count((UChar32)x)==(x!='!') && L.letters.count(oc)==(x!='!'),"a letter of the text or its other case is missing from the letters"); } sx_reach(0); }
HARNESS(h_att_multi) { uint32_t c=(uint32_t)sx_below("char",0x110000); if (c<0x20 || (c>=0xd800 && c<0xe000) || c==0xffff || c==0x3b5 || c=='<') sx_end(); bool rl=hx_pick("rl",2); std::string s; put8(s,c); std::string l=rl?"q"+s:s+"q"; Loaded L; load_bytes(L,att_compile("0\t1\t"+l+"\t"+s+"\t1.5\n1\t2\tx\tε\n2\n",rl,false,false)); int cc=(int)c; bool first=l[0]!='q'||c=='q'; (void)first; int lu[4]={0},lv[2]={0}; if (l[0]=='q' && l.size()>1 && l!=s+"q") { lu[0]='q'; lu[1]=cc; } else { lu[0]=cc; lu[1]='q'; } lu[2]='x'; lv[0]=cc; int x[8]; M m=mfrom(L.ts[u"main@standard"]); int r[16]; (void)x; if (!rl) { mbest2q(m,lu,3,lv,1,r,[&](int k){ return L.al.decode(k); }); CHECK(r[3*2+1]==6,"the characters of a symbol are not read one by one"); } else { mbest2q(m,lv,1,lu,3,r,[&](int k){ return L.al.decode(k); }); CHECK(r[1*4+3]==6,"the characters of a symbol are not written one by one"); } CHECK(m.fin.size()==1,"finals"); bool pun=u_ispunct((UChar32)c)||u_isspace((UChar32)c); bool comb=(c>=0x300&&c<=0x36f)||(c>=0x1ab0&&c<=0x1aff)||(c>=0x1dc0&&c<=0x1dff)||(c>=0x20d0&&c<=0x20ff)||(c>=0xfe20&&c<=0xfe2f); CHECK(L.letters.count((UChar32)c)==(comb||!pun),"a letter of the text is missing from the letters, or punctuation is among them"); sx_reach(0); }
// words are split into a standard and an unconditional section by their first character
HARNESS(h_att_split) { unsigned k=hx_pick("sk",5); static const IP ST[]={{'a','b'},{'.','a'},{' ','b'},{0,'b'},{'b','a'},{TAG0,'a'}}; At x; for (int i=0;i<4;i++) { bool init=SK[k][i][0]==SK[k][0][0]; IP p=ST[i<3?hx_pick("lab",init?2:Q(4,6)):k%2]; for (auto& a : x.a) if (a.s==SK[k][i][0] && a.t==SK[k][i][1] && a.l==p.first && a.r==p.second) sx_end(); x.a.push_back({SK[k][i][0],SK[k][i][1],p.first,p.second,0}); } x.fin.push_back({3,0}); if (hx_pick("two",2)) x.fin.push_back({k==2?1:2,1});
  Loaded L; load_bytes(L,att_compile(text(x,0,hx_pick("order",2)),false,true,false)); const int n=3; int u[4],v[4],z[16],y[16]; words(L.al,u,v,n,5); M m; std::vector<std::pair<int,int>> lab; model({x},L.al,false,m,lab); mbest2q(m,u,n,v,n,z,[&](int q){ return lab[q]; });
  bool pun=u[0]=='.', ok=true; for (auto& s : L.ts) { bool P=s.first==u"final@inconditional"; CHECK(P || s.first==u"main@standard","an unexpected section"); rel_trans(s.second,L.al,u,v,n,y); for (int i=0;i<16;i++) ok=ok&(y[i]==isel(pun==P,z[i],IINF)); } if (!L.ts.count(u"final@inconditional")) for (int i=0;i<16;i++) ok=ok&(!pun|(z[i]==IINF)); CHECK(ok,"a word is missing from its section or in the wrong one"); CHECK(L.ts.count(u"main@standard"),"there is no standard section"); sx_reach(L.ts.size()-1); }
// lt-print and back
HARNESS(h_att_print) { bool hfst=hx_pick("hfst",2); Secs a; static const Trip EP[]={tr("a","b<n>"),tr("b a","a"),tr("ab","",1.5),tr("😀","a<n>"),tr("a<n>","a b",0.25),tr("","b")}; auto e=[&](){ return EP[hx_pick("e",6)]; }; Trip sp=tr("b","b"); sp.l.push_back(hfst?0x3b5:' '); if (hfst) sp.r.push_back('\t'); a["m@standard"]={e(),e()}; unsigned k=hx_pick("second",3); if (k) a["x@postblank"]=k==1?std::vector<Trip>{sp}:std::vector<Trip>{}; hx_wants_min=hx_pick("min",2); hx_file_put("1",dict_bytes(a,{0,1},"ab😀")); std::vector<std::string> av={"lt-print"}; if (hfst) av.push_back("-H"); av.push_back(pth("1")); av.push_back(pth("2")); CHECK(run_main(lt_print_main,av)==0,"lt-print fails"); std::string t; CHECK(hx_file_get("2",t),"lt-print wrote no file"); Loaded L; load_bytes(L,att_compile(t,false,false,hfst));
  std::vector<Trip> w; for (auto& s : a) w.insert(w.end(),s.second.begin(),s.second.end()); const int n=3; int u[4],v[4],x[16],y[16]; words(L.al,u,v,n,hfst?8:6); rel_pairs(L.al,w,false,u,v,n,x); rel_trans(L.ts[u"main@standard"],L.al,u,v,n,y); CHECK(eqv(x,y,16),"a dictionary that is printed and compiled again changes"); sx_reach(k); }
// the alphabet listing
HARNESS(h_print_alpha) { uint32_t c=(uint32_t)sx_below("char",0x110000); if (c<0x20 || (c>=0xd800 && c<0xe000) || c=='a' || c==0xffff) sx_end(); std::string s; put8(s,c); Alphabet al; al.includeSymbol(u"<n>"); al.includeSymbol(u"<vblex>"); std::map<UString,Transducer> ts; Transducer t; t.setFinal(t.insertNewSingleTransduction(al('a','a'),t.getInitial(),0.0),0.0); ts[u"m@standard"]=t; std::set<UChar32> let; let.insert('a'); let.insert((UChar32)c); HxOut o; writeTransducerSet(o.f,let,al,ts); hx_file_put("1",o.done()); CHECK(run_main(lt_print_main,{"lt-print","-a",pth("1"),pth("2")})==0,"lt-print fails"); std::string r; CHECK(hx_file_get("2",r),"lt-print wrote no file"); std::string w=(c<'a'?s+"\na\n":"a\n"+s+"\n")+"<n>\n<vblex>\n"; CHECK(r==w,"the listed alphabet is not that of the dictionary"); sx_reach(0); }
// what is not ATT is refused
HARNESS(h_att_errors) { static const char* const BAD[]={"0\t1\ta\n1\n","0\t1\ta\tb\t1\t2\n1\n","0\tx\ta\tb\n1\n","x\t1\ta\tb\n1\n","0\t1\ta\tb\tz\n1\n","0\t1\ta\tb\n1\tz\n","hello\n","0\t1\ta\tb\t1.2.3\n1\n","0\t1\ta\tb\t-\n1\n"}; sx_exit_policy(1); sx_reach(0); att_compile(BAD[hx_pick("bad",9)],hx_pick("rl",2),hx_pick("split",2),false); CHECK(false,"a malformed text is compiled"); }
