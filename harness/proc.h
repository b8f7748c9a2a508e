// Dictionaries as plain data, and the real processor built from them through a compiled file in memory.
#pragma once
#include "hx.h"
#include <lttoolbox/alphabet.h>
#include <lttoolbox/transducer.h>
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/file_utils.h>
#include <lttoolbox/input_file.h>
#include <lttoolbox/string_utils.h>
#include <unicode/uchar.h>
typedef std::vector<uint32_t> U32; // code points; tags are TAG0+k
static const uint32_t TAG0=0x200000;
static const char* const TAGS[]={"<n>","<v>","<x>","<compound-only-L>","<compound-R>","<ANY_CHAR>"};
static const char* TAGN[8]={};   // other names for some of them in the compiled file
static inline bool istag(uint32_t c) { return c>=TAG0; }
enum { STD=0, INC=1, POST=2, PRE=3 };
static const char* const SECN[]={"main@standard","inc@inconditional","post@postblank","pre@preblank"};
struct Ent { int sec; U32 l, r; double w; };
// "text" with tags written as in a dictionary; UTF-8
static U32 u32_of(const char* s) { U32 o; while (*s) { if (*s=='<') { bool hit=false; for (unsigned k=0;k<sizeof TAGS/sizeof *TAGS;k++) { size_t n=strlen(TAGS[k]); if (!strncmp(s,TAGS[k],n)) { o.push_back(TAG0+k); s+=n; hit=true; break; } } if (hit) continue; }
    unsigned char c=*s++; uint32_t v=c; int m=c>=0xf0?3:c>=0xe0?2:c>=0xc0?1:0; if (m) v=c&(0x3f>>m); while (m--) v=v<<6|(*s++&0x3f); o.push_back(v); } return o; }
static inline Ent ent(const char* l, const char* r, int sec=STD, double w=0) { return {sec,u32_of(l),u32_of(r),w}; }
static inline void put8(std::string& o, uint32_t c) { if (c<0x80) o+=(char)c; else if (c<0x800) { o+=(char)(0xc0|c>>6); o+=(char)(0x80|(c&63)); } else if (c<0x10000) { o+=(char)(0xe0|c>>12); o+=(char)(0x80|(c>>6&63)); o+=(char)(0x80|(c&63)); } else { o+=(char)(0xf0|c>>18); o+=(char)(0x80|(c>>12&63)); o+=(char)(0x80|(c>>6&63)); o+=(char)(0x80|(c&63)); } }
static inline void put8s(std::string& o, uint32_t c) { if (istag(c)) o+=TAGS[c-TAG0]; else put8(o,c); }
static std::string u8_of(const U32& s) { std::string o; for (auto c : s) put8s(o,c); return o; }
// the compiled dictionary, as lt-comp writes it
static bool W_AT_END=false; // weights on the final states instead of the last arcs
static std::string dict_bytes(const std::vector<Ent>& D, const char* letters) {
  Alphabet al; std::map<UString,Transducer> ts; int sym[8]; for (unsigned k=0;k<sizeof TAGS/sizeof *TAGS;k++) { if (k==5) continue; UString tn=hx_u(TAGN[k]?TAGN[k]:TAGS[k]); al.includeSymbol(tn); sym[k]=al(tn); }
  bool any=false; for (auto& e : D) for (auto c : e.l) any|=c==TAG0+5; if (any) { al.includeSymbol(u"<ANY_CHAR>"); sym[5]=al(u"<ANY_CHAR>"); }
  auto code=[&](uint32_t c){ return istag(c)?sym[c-TAG0]:(int)c; };
  for (auto& e : D) { Transducer& t=ts[hx_u(SECN[e.sec])]; int s=t.getInitial(); size_t n=e.l.size()>e.r.size()?e.l.size():e.r.size(); for (size_t i=0;i<n;i++) s=t.insertSingleTransduction(al(i<e.l.size()?code(e.l[i]):0,i<e.r.size()?code(e.r[i]):0),s,i+1==n && !W_AT_END?e.w:0.0); t.setFinal(s,W_AT_END?e.w:0.0); }
  if (!W_AT_END) for (auto& p : ts) p.second.minimize();
  UString let; for (auto c : u32_of(letters)) { if (c<0x10000) let+=(UChar)c; else { let+=(UChar)U16_LEAD(c); let+=(UChar)U16_TRAIL(c); } }
  HxOut o; writeTransducerSet(o.f,let,al,ts); return o.done(); }
static void dict_load(FSTProcessor& fp, const std::vector<Ent>& D, const char* letters) { FILE* f=hx_reader(dict_bytes(D,letters)); fp.load(f); fclose(f); }
template<class F> static std::string proc_run(const std::string& in, F f) { std::string r; { InputFile i; i.wrap(hx_reader(in)); HxUOut o; f(i,o.u); r=o.done(); } return r; }
// equality of two byte strings of concrete length with symbolic contents, as one formula
static inline bool same(const std::string& a, const std::string& b) { if (a.size()!=b.size()) return false; bool ok=true; for (size_t i=0;i<a.size();i++) ok=ok&(a[i]==b[i]); return ok; }
// ---- tokens of an input text
struct Tok { uint32_t c; std::string blank; bool esc; };
static const uint32_t RESV[]={91,93,123,125,94,36,47,92,64,60,62};
static inline bool reserved(uint32_t c) { return c=='['||c==']'||c=='{'||c=='}'||c=='^'||c=='$'||c=='/'||c=='\\'||c=='@'||c=='<'||c=='>'; }
static std::string text_of(const std::vector<Tok>& t) { std::string o; for (auto& k : t) { if (!k.blank.empty()) o+=k.blank; else { if (k.esc) o+='\\'; put8s(o,k.c); } } return o; }
struct Opt { bool cs=false, dictcase=false, weights=false; int N=1<<30, L=1<<30; };
// ---- reference of the dictionary lookup: what the whole string w[0..n) means
struct Ana { std::string s; double w; };
static bool alnum(uint32_t c, const U32& letters) { if (istag(c)) return false; if (u_isalnum(c)) return true; for (auto l : letters) if (l==c) return true; return false; }
static inline bool chmatch(uint32_t t, uint32_t e, bool cs, bool& dirty) { if (t==e) return true; if (!cs && !istag(t) && u_isupper(t) && (uint32_t)u_tolower(t)==e) { dirty=true; return true; } return false; }
static bool ematch(const Ent& e, const U32& w, size_t p, size_t n, const Opt& o, bool& dirty) { dirty=false; if (e.l.size()!=n) return false; for (size_t i=0;i<n;i++) if (!chmatch(w[p+i],e.l[i],o.cs,dirty)) return false; return true; }
static bool eprefix(const Ent& e, const U32& w, size_t p, size_t n, const Opt& o) { bool d=false; if (e.l.size()<n) return false; for (size_t i=0;i<n;i++) if (!chmatch(w[p+i],e.l[i],o.cs,d)) return false; return true; }
static std::string fmtw(double w) { char b[64]; snprintf(b,64,"<W:%f>",w); return b; }
static std::vector<Ana> analyses(const std::vector<Ent>& D, const U32& w, size_t p, size_t n, const Opt& o) {
  std::vector<Ana> out; bool fu=!o.dictcase && w[p]<0x10000 && u_isupper(w[p]), up=fu && n>1 && w[p+n-1]<0x10000 && u_isupper(w[p+n-1]);
  for (auto& e : D) { bool dirty; if (!ematch(e,w,p,n,o,dirty)) continue; Ana a; a.w=e.w; for (size_t i=0;i<e.r.size();i++) { uint32_t c=e.r[i]; if (reserved(c)) a.s+='\\'; if (!istag(c) && dirty && (up || (fu && i==0))) c=u_toupper(c); put8s(a.s,c); } 
    size_t k=out.size(); out.push_back(a); while (k>0 && out[k-1].w>out[k].w) { std::swap(out[k-1],out[k]); k--; } }
  std::vector<Ana> r; int cls=0; double last=0; for (size_t i=0;i<out.size();i++) { if (i==0 || out[i].w!=last) { cls++; last=out[i].w; } if (cls>o.L || (int)i>=o.N) break; bool dup=false; for (auto& x : r) dup|=x.s==out[i].s; if (!dup) r.push_back(out[i]); }
  return r; }
static std::string anastr(const std::vector<Ana>& v, const Opt& o) { std::string s; for (auto& a : v) { s+='/'; s+=a.s; if (o.weights) s+=fmtw(a.w); } return s; }
// ---- reference of lt-proc -a: longest match from left to right
struct Piece { int kind; size_t p,n; std::string txt; }; // 0: a character, 1: known word, 2: unknown word
static std::string ref_analysis(const std::vector<Ent>& D, const U32& letters, const std::vector<Tok>& T, const Opt& o, std::vector<Piece>* pieces=nullptr) {
  std::string out; U32 w; for (auto& t : T) w.push_back(t.c); size_t N=w.size(); std::vector<std::string> bq; size_t p=0, qh=0; // blanks are taken in order of the text
  std::vector<size_t> bpos; for (size_t i=0;i<N;i++) if (!T[i].blank.empty()) { bq.push_back(T[i].blank); } else if (w[i]==' ' && !T[i].esc) bq.push_back(" ");
  auto esc=[&](size_t i){ if (reserved(w[i])) out+='\\'; put8s(out,w[i]); };
  while (p<N) {
    size_t best=0; int how=-1;
    for (size_t n=1;p+n<=N;n++) { bool any=false; for (auto& e : D) any|=eprefix(e,w,p,n,o); if (!any) break;
      bool s[4]={false,false,false,false}; for (auto& e : D) { bool d; if (ematch(e,w,p,n,o,d)) s[e.sec]=true; }
      if (s[INC]) { best=n; how=INC; } else if (s[POST]) { best=n; how=POST; } else if (s[PRE]) { best=n; how=PRE; } else if (s[STD] && !(p+n<N && alnum(w[p+n],letters))) { best=n; how=STD; } }
    if (best) { if (how==PRE) out+=' '; out+='^'; size_t late=0; for (size_t i=p;i<p+best;i++) { esc(i); if (w[i]==' ') { if (qh<bq.size() && bq[qh]==" ") qh++; else late++; } }
      out+=anastr(analyses(D,w,p,best,o),o); out+='$'; while (late-- && qh<bq.size()) out+=bq[qh++]; if (how==POST) out+=' '; if (pieces) pieces->push_back({1,p,best,""}); p+=best; continue; }
    if (!alnum(w[p],letters)) { if (pieces) pieces->push_back({0,p,1,""}); if (u_isspace(w[p])) { if ((w[p]==' ' || !T[p].blank.empty()) && qh<bq.size()) out+=bq[qh++]; else put8(out,w[p]); } else esc(p); p++; continue; }
    size_t n=1; while (p+n<N && alnum(w[p+n],letters)) n++;
    // an unknown word gets a second chance in lower case
    U32 low; for (size_t i=0;i<n;i++) low.push_back(u_tolower(w[p+i])); std::vector<Ana> a=analyses(D,low,0,n,o);
    out+='^'; for (size_t i=0;i<n;i++) esc(p+i); if (a.empty()) { out+="/*"; for (size_t i=0;i<n;i++) esc(p+i); } else out+=anastr(a,o); out+='$'; if (pieces) pieces->push_back({a.empty()?2:1,p,n,""}); p+=n; }
  while (qh<bq.size()) out+=bq[qh++];
  return out; }
// a bracketed or word-bound blank with any contents the format allows: escapes, brackets, signs
static std::string anyblank(bool w, int n) { static const uint32_t BP[]={'a',' ','<','/','$','^','[','{','@','*',0xe9,0x1f600}, BE[]={']','\\','a','[',0xe9,0x1f600,'^'}; std::string o=w?"[[":"["; bool br=false;
  for (int i=0;i<n;i++) switch (hx_pick("bk",w?4:3)) { case 0: { uint32_t c=hx_char("bc",BP,12); if (!w && o.size()==1) sx_assume(c!='['); put8(o,c); br=false; break; } case 1: o+='\\'; put8(o,hx_char("be",BE,7)); br=false; break; case 2: break; case 3: if (br) sx_end(); o+=']'; br=true; break; }
  if (br) sx_end(); return o+(w?"]]":"]"); }
