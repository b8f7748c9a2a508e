// lt-proc -g and its modes.
#include "proc.h"
struct Word { std::string blank, wblank; char mark=0; U32 lem; U32 tags; bool badtag=false; std::string more; };
static const char* BAD="<zzz>";
static std::string content(const Word& w) { std::string o; for (auto c : w.lem) { if (reserved(c)) o+='\\'; put8(o,c); } for (auto t : w.tags) o+=TAGS[t-TAG0]; if (w.badtag) o+=BAD; return o; }
static std::string bare(const Word& w) { if (w.lem.empty()) return content(w); std::string o; for (auto c : w.lem) { if (reserved(c)) o+='\\'; put8(o,c); } return o; }
static std::string stream_of(const Word& w) { std::string o=w.blank+w.wblank+"^"; if (w.mark) o+=w.mark; return o+content(w)+w.more+"$"; }
// reference
static std::vector<Ana> generated(const std::vector<Ent>& D, const Word& w, int mode, const Opt& o) {
  std::vector<Ana> out; if (w.badtag) return out; U32 s=w.lem; s.insert(s.end(),w.tags.begin(),w.tags.end()); if (s.empty()) return out;
  U32 c16; std::string ct=content(w); // the first two characters of the written form decide about the case
  uint32_t c0=w.lem.empty()||reserved(w.lem[0])?'\\':w.lem[0], c1=w.lem.empty()?'n':reserved(w.lem[0])?w.lem[0]:w.lem.size()>1?(reserved(w.lem[1])?'\\':w.lem[1]):'<'; if (c0>=0x10000) { c0='x'; c1='x'; } if (c1>=0x10000) c1='x';
  bool fu=!o.dictcase && u_isupper(c0), up=!o.dictcase && u_isupper(c1);
  for (auto& e : D) { if (e.l.size()!=s.size()) continue; bool dirty=false, ok=true; for (size_t i=0;i<s.size() && ok;i++) { if (s[i]==e.l[i]) continue; if (istag(s[i]) || o.cs || !u_isupper(s[i]) || (uint32_t)u_tolower(s[i])!=e.l[i]) { ok=false; break; }
      if (mode==gm_carefulcase) for (auto& x : D) { if (x.sec!=e.sec || x.l.size()<=i || x.l[i]!=s[i]) continue; bool pre=true; for (size_t j=0;j<i;j++) pre=pre && x.l[j]==e.l[j] && (j<x.r.size()?x.r[j]:0)==(j<e.r.size()?e.r[j]:0); if (pre) ok=false; }
      dirty=true; }
    if (!ok) continue; Ana a; a.w=e.w; size_t first=e.r.size()>0 && e.r[0]=='~'; for (size_t i=0;i<e.r.size();i++) { uint32_t c=e.r[i]; if (reserved(c)) a.s+='\\'; if (!istag(c) && dirty && (up || (fu && i==first))) c=u_toupper(c); put8s(a.s,c); }
    size_t k=out.size(); out.push_back(a); while (k>0 && out[k-1].w>out[k].w) { std::swap(out[k-1],out[k]); k--; } }
  std::vector<Ana> r; for (auto& x : out) { bool dup=false; for (auto& y : r) dup|=y.s==x.s; if (!dup) r.push_back(x); } return r; }
static std::string ref_gen(const std::vector<Ent>& D, const Word& w, int mode, const Opt& o) {
  std::string out=w.blank+w.wblank, ct=content(w), st=bare(w), mk(1,w.mark);
  if (w.mark=='*' || w.mark=='%') { if (mode==gm_tagged_nm) return out+"^"+st+"/"+mk+ct+"$"; return out+(mode==gm_clean?"":mk)+ct; }
  if (w.mark=='@') { if (mode==gm_all) return out+mk+ct; if (mode==gm_bilgen || mode==gm_clean) return out+st; if (mode==gm_tagged_nm) return out+"^"+st+"/@"+ct+"$"; return out+"@"+st; }
  if (w.mark=='=') out+="=";
  std::vector<Ana> g=generated(D,w,mode,o); bool tg=mode==gm_tagged || mode==gm_tagged_nm;
  if (!g.empty()) { if (tg) out+="^"; out+=anastr(g,o).substr(1); if (tg) out+="/"+ct+"$"; return out; }
  switch (mode) { case gm_all: return out+"#"+ct; case gm_bilgen: case gm_clean: return out+st; case gm_tagged_nm: return out+"^"+st+"/#"+ct+"$"; default: return out+(ct.empty()?"":"#")+st; } }
static std::vector<Ent> dict(unsigned k) { switch (k) {
  case 0: return {ent("a<n>","a"),ent("ab<n>","xby"),ent("ab<n>","qb",STD,1),ent("A<n>","Z",STD,2),ent("a","q"),ent("ab","pr")};
  case 1: return {ent("aB<n>","a"),ent("ab<n>","b/c",STD,1),ent("é<n><v>","éa"),ent("a b<v>","a b"),ent("/<n>","x@",INC)};
  case 3: return {ent("a<n>","~a"),ent("ab<n>","~~éb"),ent("aé<n>","é~b",STD,1),ent("b<n>","~"),ent("ba<n>","~B",STD,2),ent("a b<n>","~a")};
  default: return {ent("😀a<n>","a😀"),ent("a😀<n>","é"),ent("@a<n>","a"),ent("Éa<v>","b")}; } }
static const uint32_t T0[]={'a','b','A','B'}, T1[]={'a','B','b','/','A',0xe9,0xc9,' '}, T2[]={'a',0x1f600,'@','A',0xc9};
static const int MODES[]={gm_unknown,gm_clean,gm_all,gm_tagged,gm_tagged_nm,gm_carefulcase,gm_bilgen};
static Word word(const uint32_t* tab, unsigned nt, unsigned maxl, bool marks) { Word w; unsigned l=1+hx_pick("len",maxl); for (unsigned i=0;i<l;i++) w.lem.push_back(hx_char("c",tab,nt)); switch (hx_pick("tags",5)) { case 0: break; case 1: w.tags={TAG0}; break; case 2: w.tags={TAG0,TAG0+1}; break; case 3: w.tags={TAG0+1}; break; case 4: w.tags={TAG0}; w.badtag=true; break; } if (marks) w.mark="\0*@#=%"[hx_pick("mark",6)]; return w; }
static void run(unsigned d, const std::vector<Word>& W, int mode, const Opt& o) { FSTProcessor fp; dict_load(fp,dict(d),"ab"); fp.initGeneration(); fp.setCaseSensitiveMode(o.cs); fp.setDictionaryCaseMode(o.dictcase); std::string in, exp; for (auto& w : W) { in+=stream_of(w); exp+=ref_gen(dict(d),w,mode,o); } std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.generation(i,u,(GenerationMode)mode); }); CHECK(same(out,exp),"the generated form is not the one in the dictionary, or the mark is wrong"); sx_reach(0); }
HARNESS(h_gen0) { Opt o; unsigned m=hx_pick("m",3); o.cs=m==1; o.dictcase=m==2; run(0,{word(T0,4,Q(3,4),false)},gm_unknown,o); }
HARNESS(h_gen1) { run(1,{word(T1,8,Q(3,4),false)},gm_unknown,Opt()); }
HARNESS(h_gen2) { run(2,{word(T2,5,Q(3,4),false)},gm_unknown,Opt()); }
HARNESS(h_gen_wake) { static const uint32_t TW[]={'a','A','b','B',0xe9}; Word w; unsigned l=1+hx_pick("len",Q(2,3)); for (unsigned i=0;i<l;i++) w.lem.push_back(hx_char("c",TW,5)); w.tags={TAG0}; Opt o; o.dictcase=hx_pick("dc",2); run(3,{w},MODES[hx_pick("mode",7)],o); }
HARNESS(h_gen_modes) { int mode=MODES[hx_pick("mode",7)]; unsigned d=hx_pick("dict",2); Word w; unsigned l=1+hx_pick("len",2); static const uint32_t TM[]={'a','B','/','b'}; for (unsigned i=0;i<l;i++) w.lem.push_back(hx_char("c",TM,4)); if (hx_pick("tag",2)) w.tags={TAG0}; w.mark="\0*@#=%"[hx_pick("mark",6)]; run(d,{w},mode,Opt()); }
HARNESS(h_gen_careful) { static const uint32_t TC[]={'a','A','b','B'}; std::vector<Word> W; Word w; w.lem={hx_char("c",TC,4)}; if (hx_pick("two",2)) w.lem.push_back(hx_char("c",TC,4)); w.tags={TAG0}; W.push_back(w); run(hx_pick("dict",2),W,gm_carefulcase,Opt()); }
// a stream of words: every blank comes back, words do not influence each other
static std::string blankof(const char* nm) { std::string b; static const uint32_t BT[]={' ','x','.',0xe9,'\n'}; switch (hx_pick(nm,5)) { case 0: break; case 1: put8(b,hx_char("b",BT,5)); break; case 2: b="["; put8(b,hx_char("b",BT,5)); b+="] "; break; case 3: b=" \\"; put8(b,hx_char("e",T1+3,1)); break; case 4: b=" [[t:"; put8(b,hx_char("b",BT,5)); b+="]] "; break; } return b; }
HARNESS(h_gen_stream) { std::vector<Word> W; for (int k=0;k<2;k++) { Word w; w.blank=blankof("blank"); if (hx_pick("wb",2)) w.wblank="[[w]]"; static const uint32_t TS[]={'a','B'}; w.lem={'a'}; if (k==hx_pick("which",2)) w.lem.push_back(hx_char("c",TS,2)); w.tags={TAG0}; if (k==0) { w.mark="\0*"[hx_pick("mark",2)]; if (hx_pick("more",2)) w.more="/b<n>"; } W.push_back(w); } run(0,W,gm_unknown,Opt()); }
HARNESS(h_gen_null) { FSTProcessor fp; dict_load(fp,dict(0),"ab"); fp.initGeneration(); fp.setNullFlush(true); std::string in, exp; for (int k=0;k<2;k++) { unsigned n=hx_pick("n",2); for (unsigned i=0;i<=n;i++) { Word w; if (i<n) { w.blank=hx_pick("bl",2)?"x ":""; static const uint32_t TS[]={'a','b','A'}; w.lem={'a'}; w.lem.push_back(hx_char("c",TS,3)); if (hx_pick("tg",2)) w.tags={TAG0}; in+=stream_of(w); exp+=ref_gen(dict(0),w,gm_unknown,Opt()); } } std::string tail=hx_pick("tail",2)?" y":""; in+=tail; exp+=tail; in+='\0'; exp+='\0'; }
  std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.generation(i,u,gm_unknown); }); CHECK(same(out,exp),"a null in the stream is lost or moved"); sx_reach(0); }
// blanks with any contents
HARNESS(h_gen_blank) { bool wb=hx_pick("w",2); std::vector<Word> W; Word w; w.lem={'a'}; w.tags={TAG0}; (wb?w.wblank:w.blank)=anyblank(wb,Q(2,3)); W.push_back(w); Word v; v.lem={'b'}; v.tags={TAG0}; v.blank=wb?"[[/]] ":" "; W.push_back(v); run(0,W,gm_unknown,Opt()); sx_reach(0); }
