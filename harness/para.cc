// lt-paradigm: the paths of a dictionary that match a pattern.
#include "tools.h"
int lt_paradigm_main(int, char**);
struct PTok { int k; uint32_t c; };
// letters, any letters, tags (known or not), any tags, one of, any of, any but
static const char* const TX[]={"","*","<n>","<v>","<*>","<|n|v>","<|v|zz>","<*|n|zz>","<*-n>","<zz>","<|zz>","<*-n-v>","<*|zz>"};
static std::string text(const std::vector<PTok>& p) { std::string o; for (auto& t : p) if (t.k) o+=TX[t.k]; else put8(o,t.c); return o; }
static bool one(int k, uint32_t c, int ex) { bool n=c==TAG0, v=c==TAG0+1; switch (k) { case 1: return c=='a'||c=='b'||c==0xe9||c==0x1f600; case 2: return n; case 3: return v; case 4: return istag(c) && !(ex&1 && n) && !(ex&2 && v); case 5: return n||v; case 6: return v; case 7: return n; case 8: return istag(c) && !n && !(ex&2 && v); case 9: case 10: return false; case 11: return istag(c) && !n && !v; } return false; }
static bool match(const std::vector<PTok>& p, size_t i, const U32& s, size_t j, int ex) { if (i==p.size()) return j==s.size(); int k=p[i].k; if (!k) return j<s.size() && s[j]==p[i].c && match(p,i+1,s,j+1,ex); bool star=k==1||k==4||k==7||k==8||k>=11; if (!star) return j<s.size() && one(k,s[j],ex) && match(p,i+1,s,j+1,ex); if (match(p,i+1,s,j,ex)) return true; return j<s.size() && one(k,s[j],ex) && match(p,i,s,j+1,ex); }
static std::string plain(const U32& s) { std::string o; for (auto c : s) if (istag(c)) o+=TAGS[c-TAG0]; else put8(o,c); return o; }
static Secs dict(unsigned d) { Secs s; if (d==0) { s["main@standard"]={tr("ab<n>","ab"),tr("ab<n><v>","abé"),tr("b<v>","b"),tr("a","b"),tr("<n>","q"),tr("ab<v>",""),tr("a<n>","x",1)}; s["z@inconditional"]={tr("b<v>","ba"),tr("ab<n>","ab")}; } else s["main@standard"]={tr("é<n><n>","éa"),tr("a😀<n>","x"),tr("😀","😀b"),tr("éa<v>","a"),tr("é<v>","é"),tr("é","é")}; return s; }
static const uint32_t TC[2][4]={{'a','b','c','a'},{0xe9,0x1f600,'a','n'}};
static std::vector<PTok> pattern(unsigned d, unsigned n) { std::vector<PTok> p; for (unsigned i=0;i<n;i++) { PTok t{(int)hx_pick("tok",13),0}; if (!t.k) t.c=hx_char("c",TC[d],3+d); p.push_back(t); } return p; }
static std::vector<std::string> listing(const Secs& ss, const std::vector<PTok>& p, int ex) { std::vector<std::string> out; for (auto& s : ss) for (auto& e : s.second) { if (e.l.empty() || e.r.empty() || !match(p,0,e.l,0,ex)) continue; std::string x=plain(e.l)+":"+plain(e.r); bool dup=false; for (auto& y : out) dup|=y==x; if (!dup) out.push_back(x); } return out; }
static void run(unsigned d, const std::vector<std::vector<PTok>>& ps, bool analyser, int ex, bool sort, char sep, bool last) { Secs ss=dict(d), st; for (auto& s : ss) for (auto e : s.second) { if (analyser) std::swap(e.l,e.r); st[s.first].push_back(e); } hx_file_put("d.bin",dict_bytes(st,{0,1},"abé😀")); std::string in; for (size_t i=0;i<ps.size();i++) { in+=text(ps[i]); if (i+1<ps.size() || last) in+=sep; } hx_file_put("in",in);
  std::vector<std::string> a={"lt-paradigm"}; if (analyser) a.push_back("-a"); if (ex&1) { a.push_back("-e"); a.push_back("<n>"); } if (ex&2) { a.push_back("-e"); a.push_back("<v>"); } if (sort) a.push_back("-s"); a.push_back(pth("d.bin")); a.push_back(pth("in")); a.push_back(pth("out")); CHECK(run_main(lt_paradigm_main,a)==0,"the tool fails"); std::string out; CHECK(hx_file_get("out",out),"no output");
  size_t at=0; bool full=false; for (size_t i=0;i<ps.size();i++) { std::vector<std::string> want=listing(ss,ps[i],ex), got; if (!want.empty()) full=true; size_t left=0; std::vector<bool> seen(want.size(),false); while (at<out.size() && out[at]!=sep && left<64) { size_t e=at; while (e<out.size() && out[e]!='\n') e++; std::string l=out.substr(at,e-at); CHECK(e<out.size(),"a path is not a line"); at=e+1; got.push_back(l); bool f=false; for (size_t k=0;k<want.size();k++) if (want[k]==l) { f=true; seen[k]=true; } CHECK(f,"a path that does not match the pattern is listed"); left++; }
    for (size_t k=0;k<want.size();k++) CHECK(seen[k],"a path that matches the pattern is missing"); if (sort) { CHECK(got.size()==want.size(),"a path is listed twice"); for (size_t k=1;k<got.size();k++) CHECK(got[k-1]<got[k],"the listing is not sorted"); }
    if (i+1<ps.size() || last) { CHECK(at<out.size() && out[at]==sep,"the listings are not separated as the patterns are"); at++; } } CHECK(at==out.size(),"something follows the last listing"); sx_reach(full); }
HARNESS(h_para) { unsigned d=hx_pick("d",2); unsigned n=1+hx_pick("n",Q(2,3)); run(d,{pattern(d,n)},hx_pick("a",2),0,false,'\n',true); }
HARNESS(h_para3) { std::vector<PTok> p={{(int)hx_pick("tok",2),'a'}}; auto q=pattern(0,Q(2,3)); p.insert(p.end(),q.begin(),q.end()); run(0,{p},false,0,false,'\n',true); }
HARNESS(h_para_opt) { unsigned d=hx_pick("d",2); int ex=hx_pick("ex",4); std::vector<PTok> p={{1,0}}; auto q=pattern(d,Q(1,2)); p.insert(p.end(),q.begin(),q.end()); run(d,{p},hx_pick("a",2),ex,hx_pick("s",2),hx_pick("z",2)?'\0':'\n',true); }
HARNESS(h_para_many) { char sep=hx_pick("z",2)?'\0':'\n'; std::vector<std::vector<PTok>> ps; unsigned n=1+hx_pick("n",3); static const std::vector<PTok> PT[]={{},{{1,0},{4,0}},{{0,'b'},{3,0}},{{9,0}},{{1,0},{5,0},{4,0}}}; for (unsigned i=0;i<n;i++) ps.push_back(PT[hx_pick("p",5)]); run(0,ps,false,0,hx_pick("s",2),sep,hx_pick("last",2)); }
