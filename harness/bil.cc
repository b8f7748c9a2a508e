// lt-proc -b and its variants, and the word-by-word bilingual lookup functions.
#include "proc.h"
static const uint32_t ANY=TAG0+5; static const uint32_t UNK=TAG0+100; // a tag that the dictionary does not have
static void sym8(std::string& o, uint32_t c) { if (c==UNK) o+="<zzz>"; else put8s(o,c); }
static std::string esc8(const U32& s, size_t from=0, bool star=true) { std::string o; for (size_t i=from;i<s.size();i++) { if (!istag(s[i]) && (reserved(s[i]) || (star && i==0 && s[i]=='*'))) o+='\\'; sym8(o,s[i]); } return o; }
// translations of s[0..n): entries that match it whole
static std::vector<Ana> trans(const std::vector<Ent>& D, const U32& s, size_t n, const Opt& o, bool lowered, size_t off=0) {
  std::vector<Ana> out; bool fu=!lowered && !istag(s[off]) && u_isupper(s[off]), up=fu && s.size()>off+1 && !istag(s[off+1]) && u_isupper(s[off+1]);
  for (auto& e : D) { if (e.l.size()!=n) continue; bool dirty=false, ok=true; U32 in; for (size_t i=0;i<n && ok;i++) { uint32_t c=s[i]; bool tg=istag(c); if (lowered && !tg && !o.cs) c=u_tolower(c); in.push_back(c); if (c==e.l[i]) continue; if (i<off) { ok=false; break; } if (e.l[i]==ANY) { dirty=true; continue; } if (!lowered && !tg && !o.cs && (uint32_t)u_tolower(c)==e.l[i]) { dirty=true; continue; } ok=false; }
    if (!ok) continue; Ana a; a.w=e.w; for (size_t i=0;i<e.r.size();i++) { uint32_t c=e.r[i]; if (c==ANY && i<n) c=in[i]; if (!istag(c) && reserved(c)) a.s+='\\'; if (!istag(c) && dirty && (up || (fu && i==0)) && c<0x10000) c=u_toupper(c); else if (!istag(c) && dirty && up) c=u_toupper(c); sym8(a.s,c); }
    size_t k=out.size(); out.push_back(a); while (k>0 && out[k-1].w>out[k].w) { std::swap(out[k-1],out[k]); k--; } }
  std::vector<Ana> r; for (auto& x : out) { bool dup=false; for (auto& y : r) dup|=y.s==x.s; if (!dup) r.push_back(x); } return r; }
struct Bw { std::string blank, wb; char mark=0; U32 s; };
static std::string lookup_ref(const std::vector<Ent>& D, const Bw& w, int mode, const Opt& o, bool open=true) { // from ^ to $
  std::string src=(w.mark=='#'?"#":"")+esc8(w.s); if (w.mark=='*') { std::string c=esc8(w.s,0,false); return std::string(open?"^":"")+"*"+c+"/"+(mode==gm_clean?"":"*")+c+"$"; } if (w.s.empty()) return open?"^$":"$";
  U32 s=w.s; size_t off=0; if (w.mark=='#') { s.insert(s.begin(),'#'); off=1; } bool tags=false; for (auto c : s) tags|=istag(c);
  std::vector<Ana> res; size_t used=0; for (int t=0;t<2 && res.empty();t++) { if (t && mode!=gm_all && mode!=gm_bilgen) break; used=0; for (size_t n=1+off;n<=s.size();n++) { std::vector<Ana> a=trans(D,s,n,o,t==1,off); if (!a.empty()) { res=a; used=n; } }
    if ((!tags || mode==gm_all || mode==gm_bilgen) && used<s.size()) res.clear(); }
  std::string out=open?"^":""; out+=src; out+='/'; if (res.empty()) { out+=mode==gm_all?'#':'@'; out+=src; } else { std::string q=esc8(w.s,used-off); for (size_t i=0;i<res.size();i++) { if (i) out+='/'; out+=res[i].s; if (o.weights) out+=fmtw(res[i].w); out+=q; } } out+='$'; return out; }
static std::vector<Ent> dict(unsigned k) { switch (k) {
  case 0: return {ent("a<n>","b<v>"),ent("ab<n>","q<n>"),ent("ab<n>","r<v>",STD,1),ent("a<n><v><x>","long<x>"),ent("#a<n>","w<n>"),ent("b","c")};
  case 1: return {ent("A<n>","Z<n>"),ent("ab<n><v>","xY<n>"),ent("é<n>","e<n>"),ent("<ANY_CHAR>b<n>","<ANY_CHAR>c<v>",STD,2),ent("/<n>","a/b@<n>")};
  default: return {ent("😀<n>","😀a<n>"),ent("a😀<n>","b<n>"),ent("a","a<x>"),ent("*a<n>","s<n>"),ent("a b<n>","c d<n>")}; } }
static const uint32_t T0[]={'a','b','A','B','x'}, T1[]={'a','b','A',0xe9,0xc9,'/','B'}, T2[]={'a',0x1f600,'*','A',' ','b'};
static void tags(U32& s) { switch (hx_pick("tags",7)) { case 0: break; case 1: s.push_back(TAG0); break; case 2: s.push_back(TAG0); s.push_back(TAG0+1); break; case 3: s.push_back(UNK); break; case 4: s.push_back(TAG0); s.push_back(UNK); break; case 5: s.push_back(TAG0); s.push_back(TAG0+1); s.push_back(UNK); break; case 6: s.push_back(TAG0); s.push_back(TAG0+1); s.push_back(TAG0+2); break; } }
static Bw word(const uint32_t* t, unsigned nt, unsigned maxl) { Bw w; unsigned l=1+hx_pick("len",maxl); for (unsigned i=0;i<l;i++) w.s.push_back(hx_char("c",t,nt)); tags(w.s); return w; }
static std::string instr(const Bw& w) { std::string o=w.blank+w.wb+"^"; if (w.mark) o+=w.mark; o+=esc8(w.s,0,w.mark==0); return o+"$"; }
static void start(FSTProcessor& fp, unsigned d, const Opt& o) { dict_load(fp,dict(d),"ab"); fp.initBiltrans(); fp.setCaseSensitiveMode(o.cs); fp.setDisplayWeightsMode(o.weights); }
static void run(unsigned d, const std::vector<Bw>& W, int mode, const Opt& o) { FSTProcessor fp; start(fp,d,o); std::string in, exp; for (auto& w : W) { in+=instr(w); exp+=w.blank+w.wb+lookup_ref(dict(d),w,mode,o); } std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.bilingual(i,u,(GenerationMode)mode); }); CHECK(same(out,exp),"the translation is not that of the longest matching prefix with the rest of the tags attached"); sx_reach(0); }
HARNESS(h_bil0) { Opt o; unsigned m=hx_pick("m",3); o.cs=m==1; o.weights=m==2; run(0,{word(T0,5,Q(3,4))},gm_unknown,o); }
HARNESS(h_bil1) { run(1,{word(T1,7,Q(3,4))},gm_unknown,Opt()); }
HARNESS(h_bil2) { run(2,{word(T2,6,Q(3,4))},gm_unknown,Opt()); }
HARNESS(h_bil_modes) { static const int M[]={gm_bilgen,gm_all,gm_clean}; int m=M[hx_pick("mode",3)]; unsigned d=hx_pick("d",2); Bw w=word(T0,5,2); run(d,{w},m,Opt()); }
HARNESS(h_bil_hash) { Bw w=word(T0,5,2); w.mark='#'; static const int M[]={gm_unknown,gm_bilgen,gm_all}; run(0,{w},M[hx_pick("mode",3)],Opt()); }
HARNESS(h_bil_unknown) { static const int M[]={gm_unknown,gm_clean,gm_bilgen}; Bw w; w.mark='*'; static const uint32_t TU[]={'a','/','A',0x1f600,'*'}; w.s={hx_char("c",TU,5),hx_char("c",TU,5)}; if (hx_pick("t",2)) w.s.push_back(TAG0); run(hx_pick("d",3),{w},M[hx_pick("mode",3)],Opt()); }
HARNESS(h_bil_stream) { std::vector<Bw> W; static const uint32_t BT[]={' ','x','.',0xe9,'\n'}; for (int k=0;k<2;k++) { Bw w; switch (hx_pick("blank",4)) { case 0: break; case 1: put8(w.blank,hx_char("b",BT,5)); break; case 2: w.blank="[<b>"; put8(w.blank,hx_char("b",BT,5)); w.blank+="] "; break; case 3: w.blank=" \\^"; break; } if (hx_pick("wb",2)) w.wb="[[w]]"; static const uint32_t TS[]={'a','b'}; w.s={'a',hx_char("c",TS,2)}; w.s.push_back(hx_pick("t",2)?TAG0:UNK); if (k==0 && hx_pick("mark",2)) w.mark='*'; W.push_back(w); } run(0,W,gm_unknown,Opt()); }
// surface forms in front of the analysis
HARNESS(h_bil_surf) { unsigned keep=hx_pick("keep",2); FSTProcessor fp; start(fp,0,Opt()); if (keep) fp.setBiltransSurfaceFormsKeep(true); else fp.setBiltransSurfaceForms(true); Bw w; static const uint32_t TS[]={'a','b','A','/'}; U32 sf={hx_char("s",TS,4),'c'}; w.s={hx_char("c",TS,3)}; if (hx_pick("l",2)) w.s.push_back('b'); tags(w.s); if (hx_pick("unk",2)) w.mark='*'; bool more=hx_pick("more",2); std::string in="x ^"+esc8(sf,0,false)+"/"+(w.mark?"*":"")+esc8(w.s)+(more?"/b<n>":"")+"$ y"; std::string exp="x ^"; if (keep) exp+=esc8(sf,0,false)+"/"; exp+=lookup_ref(dict(0),w,gm_unknown,Opt(),false)+" y";
  std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.bilingual(i,u,gm_unknown); }); CHECK(same(out,exp),"the surface form is not kept or dropped as asked"); sx_reach(keep); }
HARNESS(h_bil_null) { FSTProcessor fp; start(fp,0,Opt()); fp.setNullFlush(true); std::string in, exp; for (int k=0;k<2;k++) { unsigned n=hx_pick("n",2); for (unsigned i=0;i<n;i++) { Bw w; w.blank=hx_pick("bl",2)?"x ":""; static const uint32_t TS[]={'a','b','A'}; w.s={'a',hx_char("c",TS,3)}; if (hx_pick("t",2)) w.s.push_back(TAG0); if (hx_pick("mk",2)) w.mark='*'; in+=instr(w); exp+=w.blank+lookup_ref(dict(0),w,gm_unknown,Opt()); } std::string tail=hx_pick("tail",2)?" y":""; in+=tail; exp+=tail; in+='\0'; exp+='\0'; }
  std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.bilingual(i,u,gm_unknown); }); CHECK(same(out,exp),"a null in the stream is lost or moved"); sx_reach(0); }
// ---- lookup of single words
static UString u16_of(const std::string& s) { return to_ustring(s.c_str()); }
static std::vector<Ana> api_res(const std::vector<Ent>& D, const U32& s, size_t& used) { std::vector<Ana> res; used=0; for (size_t n=1;n<=s.size();n++) { Opt o; std::vector<Ana> a=trans(D,s,n,o,false); if (!a.empty()) { res=a; used=n; } } return res; }
HARNESS(h_bil_api) { unsigned d=hx_pick("d",2)?2:0; FSTProcessor fp; start(fp,d,Opt()); Bw w=word(d?T2:T0,d?6:5,2); if (d==2) sx_assume(w.s[0]!='*'); bool delim=hx_pick("delim",2); unsigned fn=hx_pick("fn",3); bool mark=hx_pick("mark",2); std::string body=esc8(w.s,0,false), in=(mark?"=":"")+body; if (delim) in="^"+in+"$"; UString r; int ql=0; UString wi=u16_of(in); if (fn==0) r=fp.biltrans(wi,delim); else if (fn==1) { auto p=fp.biltransWithQueue(wi,delim); r=p.first; ql=p.second; } else r=fp.biltransWithoutQueue(wi,delim);
  size_t used; std::vector<Ana> res=api_res(dict(d),w.s,used); bool tags=false; for (auto c : w.s) tags|=istag(c); if (fn==1 && !tags && used<w.s.size()) res.clear(); if (fn==2 && used<w.s.size()) res.clear(); std::string exp, q; if (res.empty()) { exp=(delim?"^@":"@")+(mark?std::string("="):std::string())+body+(delim?"$":""); } else { if (delim) exp+='^'; if (mark) exp+='='; q=fn==2?"":esc8(w.s,used,false); for (size_t i=0;i<res.size();i++) { if (i) exp+='/'; exp+=res[i].s; exp+=q; } if (delim) exp+='$'; if (fn==1) CHECK(ql==(int)u16_of(q).size(),"the length of the unmatched rest is wrong"); }
  std::string got; for (size_t i=0;i<r.size();) { UChar32 c; U16_NEXT(r.data(),i,r.size(),c); put8(got,(uint32_t)c); } CHECK(same(got,exp),"looking up one word does not give its translations"); sx_reach(fn); }
HARNESS(h_lookup_api) { unsigned d=hx_pick("d",3); FSTProcessor fp; start(fp,d,Opt()); Bw w=word(d==2?T2:T0,d==2?6:5,2); std::string body=esc8(w.s,0,false); std::vector<UString> res; bool ok=fp.lookup(u16_of(body),res); Opt o; std::vector<Ana> a=trans(dict(d),w.s,w.s.size(),o,false); if (d==1) { a.clear(); std::vector<Ent> D; for (auto& e : dict(1)) { bool any=false; for (auto c : e.l) any|=c==ANY; if (!any) D.push_back(e); } a=trans(D,w.s,w.s.size(),o,false); } CHECK(ok==!a.empty() && res.size()==a.size(),"lookup finds a different number of readings"); std::string got, exp; for (auto& r : res) { for (size_t i=0;i<r.size();) { UChar32 c; U16_NEXT(r.data(),i,r.size(),c); put8(got,(uint32_t)c); } got+='/'; } for (auto& x : a) exp+=x.s+"/"; CHECK(same(got,exp),"lookup gives other readings"); sx_reach(0); }
// blanks with any contents
HARNESS(h_bil_blank) { bool wb=hx_pick("w",2); Bw w; w.s={'a',TAG0}; (wb?w.wb:w.blank)=anyblank(wb,Q(2,3)); Bw v; v.s={'b',TAG0}; v.blank=wb?"[[/]] ":" "; run(0,{w,v},gm_unknown,Opt()); sx_reach(0); }
