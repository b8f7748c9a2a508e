// Reading text and stream units (input_file.cc, stream_reader.cc, ustring.*, symbol_iter.cc).
#include "proc.h"
#include <lttoolbox/stream_reader.h>
#include <lttoolbox/symbol_iter.h>
#include <sstream>
static uint32_t anycp(const char* nm) { uint32_t c=sx_u32(nm); sx_assume(c>0 && c<0x110000 && !(c>=0xD800&&c<0xE000) && c!=0xFFFF /* the sign for the end of input */); return c; }
static void put16(UString& o, uint32_t c) { if (c<0x10000) o.push_back((UChar)c); else { o.push_back((UChar)(0xD800+((c-0x10000)>>10))); o.push_back((UChar)(0xDC00+((c-0x10000)&0x3ff))); } }
static bool same16(const UString& a, const UString& b) { if (a.size()!=b.size()) return false; bool ok=true; for (size_t i=0;i<a.size();i++) ok=ok&(a[i]==b[i]); return ok; }
// every code point comes back, looking ahead and putting back change nothing
HARNESS(h_in_char) { uint32_t c=anycp("c"), d=Q((uint32_t)sx_below("d",0x80),anycp("d")); std::string s; put8(s,c); put8(s,d); InputFile i; i.wrap(hx_reader(s)); unsigned how=hx_pick("how",6);
  if (how==1) CHECK((uint32_t)i.peek()==c,"looking ahead gives another character");
  if (how==2) { CHECK((uint32_t)i.get()==c,"a character is read as another one"); i.unget((UChar32)c); CHECK((uint32_t)i.peek()==c,"a character put back is not the next one"); }
  if (how==3) { UChar32 x=i.get(), y=i.get(); CHECK((uint32_t)x==c && (uint32_t)y==d,"a character is read as another one"); i.unget(y); i.unget(x); }
  if (how==4) { i.get(); i.unget('#'); CHECK(i.get()=='#',"a character put back is not read"); i.unget((UChar32)c); }
  if (how==5) { UChar32 x=i.get(); CHECK((uint32_t)i.peek()==d,"looking ahead gives another character"); i.unget(x); }
  CHECK(!i.eof(),"end of input before the last character"); CHECK((uint32_t)i.get()==c,"a character is read as another one"); CHECK((uint32_t)i.get()==d,"the character after another one is lost"); CHECK(i.get()==U_EOF,"something is read after the end"); CHECK(i.eof(),"the end of input is not reported"); CHECK(i.get()==U_EOF,"reading after the end"); sx_reach(0); if (c>0xffff) sx_reach(1); }
// starting over, or with another input, leaves nothing of what was read before
HARNESS(h_in_restart) { uint32_t c=anycp("c"), d=(uint32_t)sx_below("d",0x80), e=(uint32_t)sx_below("e",0x80); sx_assume(d && e); unsigned len=hx_pick("len",3); std::string s; if (len) put8(s,c); if (len>1) put8(s,d); InputFile i; i.wrap(hx_reader(s)); unsigned n=hx_pick("gets",4); UChar32 l=0; for (unsigned k=0;k<n;k++) l=i.get(); switch (hx_pick("look",3)) { case 1: i.peek(); break; case 2: i.unget(l); }
  if (hx_pick("other",2)) { s=std::string(1,(char)e); i.wrap(hx_reader(s)); CHECK((uint32_t)i.get()==e,"another input does not start with its first character"); CHECK(i.get()==U_EOF && i.eof(),"another input does not end where it ends"); sx_reach(0); }
  else { i.rewind(); if (len) CHECK((uint32_t)i.get()==c,"starting over does not give the first character"); if (len>1) CHECK((uint32_t)i.get()==d,"starting over does not give the second character"); CHECK(i.get()==U_EOF && i.eof(),"starting over does not end at the end"); sx_reach(1); } }
// any bytes: a well-formed character is read as what it is, anything else is reported
HARNESS(h_in_bytes) { unsigned n=1+hx_pick("n",4); std::string s; for (unsigned k=0;k<n;k++) s+=(char)sx_u8("b"); auto B=[&](unsigned k){ return (uint32_t)(unsigned char)s[k]; };
  uint32_t b0=B(0); unsigned len=0; uint32_t v=0; if (b0<0x80) { len=1; v=b0; } else if (b0>=0xC2 && b0<0xE0) { len=2; v=b0&31; } else if (b0>=0xE0 && b0<0xF0) { len=3; v=b0&15; } else if (b0>=0xF0 && b0<0xF5) { len=4; v=b0&7; }
  bool ok=len>0 && len<=n; if (ok) { for (unsigned k=1;k<len;k++) { ok=ok&((B(k)&0xC0)==0x80); v=v<<6|(B(k)&63); } if (len==3) ok=ok&(v>=0x800)&!(v>=0xD800&&v<0xE000); if (len==4) ok=ok&(v>=0x10000)&(v<0x110000); }
  InputFile i; i.wrap(hx_reader(s)); UChar32 g=0; bool thrown=!hx_try([&]{ g=i.get(); });
  if (ok) { CHECK(!thrown,"a well-formed character is refused"); CHECK((uint32_t)g==v,"a well-formed character is read as another one"); if (len<n && B(len)<0x80) CHECK((uint32_t)i.get()==B(len),"a character takes bytes of the next one"); sx_reach(0); } else { CHECK(thrown,"malformed text is read as a character"); sx_reach(1); } }
// ---- conversions
HARNESS(h_conv) { uint32_t c=anycp("c"), d=anycp("d"); std::string s; put8(s,c); put8(s,d); UString want; put16(want,c); put16(want,d); UString got; got+=(UChar32)c; got+=(UChar32)d; CHECK(same16(got,want),"appending a code point");
  CHECK(same16(to_ustring(s.c_str()),want),"reading UTF-8 changes a character"); CHECK(same16(to_ustring((const uint8_t*)s.c_str()),want),"reading UTF-8 bytes changes a character");
  std::vector<int32_t> v={7}; ustring_to_vec32(want,v); CHECK(v.size()==3 && v[0]==7 && (uint32_t)v[1]==c && (uint32_t)v[2]==d,"code points of a string"); std::vector<int32_t> e; ustring_to_vec32(UString(),e); CHECK(e.empty(),"code points of an empty string");
  unsigned pre=hx_pick("view",2); UString big=hx_u("q"); big+=want; big+=hx_u("z"); UStringView w=pre?UStringView(big).substr(1,want.size()):UStringView(want); HxUOut o; write(w,o.u); CHECK(same(o.done(),s),"writing a string changes it"); std::ostringstream os; os<<w; CHECK(same(os.str(),s),"printing a string changes it"); sx_reach(0); if (c>0xffff) sx_reach(1); }
// ---- cutting a string into symbols
static const uint32_t ST[]={'a','<','>','\\','n',0x1f600,'+'};
HARNESS(h_symbols) { unsigned n=hx_pick("n",Q(5,6)); std::vector<uint32_t> t; UString s; for (unsigned k=0;k<n;k++) { t.push_back(ST[hx_pick("c",Q(6,7))]); put16(s,t.back()); } std::vector<UString> want;
  for (unsigned k=0;k<n;k++) { UString x; if (t[k]=='\\') { if (++k<n) put16(x,t[k]); else break; } else if (t[k]=='<') { unsigned j=k; while (j<n && t[j]!='>') j++; if (j<n) { for (;k<j;k++) put16(x,t[k]); } put16(x,t[k]); } else put16(x,t[k]); want.push_back(x); }
  UString big=s+hx_u(">x"); std::vector<UString> got; for (auto y : symbol_iter(UStringView(big).substr(0,s.size()))) { got.push_back(US(y)); if (got.size()>8) break; } CHECK(got==want,"a string is cut into other symbols"); sx_reach(0); if (n>3) sx_reach(1); }
// ---- blanks and units
static const char* const BK[]={""," ","x\\^y","[b]","[\\]^]","[\\\\]z","\xF0\x9F\x98\x80 ","[[w]]","[[w]] ","a[b][c]\n","[[\\]]]","[]"};
static const char* const WB[]={"","[[w]]","[[t:b:1; x]]","[[\\]]]","[[a]b]]"};
struct Rd { uint32_t mark; U32 body; };       // body: letters (escaped when reserved), tags from T
static const char* const T[]={"<n>","<sg>","<q\\>r>","<>"};
static const char RES[]="^$/<>{}[]\\@*";
static bool resv(uint32_t c) { return c<0x80 && c && strchr(RES,(int)c); }
static void esc8(std::string& o, uint32_t c) { if (c>=TAG0) o+=T[c-TAG0]; else { if (c<0x80 && resv((uint32_t)sx_concretize(c))) o+='\\'; put8(o,c); } }
static std::string rd8(const Rd& r) { std::string o; if (r.mark) o+=(char)r.mark; for (auto c : r.body) esc8(o,c); return o; }
static const uint32_t LT[]={'a',0xe9,'B',0x1f600,'-','/','$','\\','{','^'};
struct U1 { std::string blank, wb, chunk; std::vector<Rd> rd; int end=0; };   // end 0: unit, 1: null instead of a unit, 2: end of input
static std::string u8(const U1& u) { std::string o=u.blank; if (u.end) { if (u.end==1) o+='\0'; return o; } o+=u.wb; o+='^'; for (size_t i=0;i<u.rd.size();i++) { if (i) o+='/'; o+=rd8(u.rd[i]); } o+=u.chunk; return o+'$'; }
static void run_units(const std::vector<U1>& us, unsigned mode) { std::string in; for (auto& u : us) in+=u8(u); InputFile i; i.wrap(hx_reader(in)); StreamReader r(&i); Alphabet al; al.includeSymbol(hx_u("<other>")); al.includeSymbol(hx_u("<n>")); if (mode) r.alpha=&al; r.add_unknowns=mode==2; bool fresh=false;
  for (auto& u : us) { r.next(); CHECK(same16(r.blank,to_ustring(u.blank.c_str())),"a blank is not read as it is"); CHECK(r.at_eof==(u.end==2) && r.at_null==(u.end==1),"nulls and the end of input are not reported where they are");
    if (u.end) { CHECK(r.readings.empty() && r.wblank.empty() && r.chunk.empty(),"a unit where there is none"); continue; }
    CHECK(same16(r.wblank,to_ustring(u.wb.c_str())),"a word-bound blank is not read as it is"); CHECK(same16(r.chunk,to_ustring(u.chunk.c_str())),"the content of a chunk is not read as it is"); CHECK(r.readings.size()==u.rd.size(),"the number of readings of a unit");
    for (size_t k=0;k<u.rd.size();k++) { const Rd& w=u.rd[k]; std::string b; for (auto c : w.body) esc8(b,c); CHECK((uint32_t)r.readings[k].mark==w.mark,"the mark of a reading"); CHECK(same16(r.readings[k].content,to_ustring(b.c_str())),"a reading is not read as it is");
      auto& sy=r.readings[k].symbols; if (!mode) { CHECK(sy.empty(),"symbols without an alphabet"); continue; } CHECK(sy.size()==w.body.size(),"the number of symbols of a reading");
      for (size_t q=0;q<sy.size();q++) { if (w.body[q]<TAG0) CHECK(sy[q]==(int32_t)w.body[q],"a letter of a reading has another symbol"); else { UString t=hx_u(T[w.body[q]-TAG0]); bool known=w.body[q]==TAG0; if (known || mode==2) { CHECK(al.isSymbolDefined(t) && sy[q]==al(t) && sy[q]<0,"a tag of a reading has another symbol"); fresh|=!known; } else CHECK(sy[q]==0 && !al.isSymbolDefined(t),"a tag that is not in the alphabet got a symbol"); } } } }
  sx_reach(0); if (fresh) sx_reach(1); }
static Rd reading(unsigned nm, unsigned len, unsigned nl, unsigned nt) { static const uint32_t M[]={0,'*','@','#','=','%'}; Rd r; r.mark=M[hx_pick("mark",nm)]; unsigned n=hx_pick("len",len+1); for (unsigned i=0;i<n;i++) { unsigned k=hx_pick("kind",1+nt); if (k) r.body.push_back(TAG0+k-1); else r.body.push_back(LT[hx_pick("l",nl)]); } return r; }
static U1 last(unsigned nb) { U1 u; u.end=2; u.blank=BK[hx_pick("tail",nb)]; return u; }
HARNESS(h_unit) { U1 u; u.blank=BK[hx_pick("blank",2)]; u.rd.push_back(reading(6,Q(2,3),Q(5,10),3)); if (hx_pick("two",2)) u.rd.push_back({0,{'b',TAG0}}); run_units({u,last(2)},hx_pick("mode",3)); }
HARNESS(h_unit_any) { U1 u; Rd r; r.mark=0; uint32_t c=anycp("c"); sx_assume(c>=0x80 || (c!='^'&&c!='$'&&c!='/'&&c!='<'&&c!='>'&&c!='{'&&c!='}'&&c!='['&&c!=']'&&c!='\\'&&c!='@'&&c!='*'&&c!='#'&&c!='='&&c!='%')); r.body={c}; u.rd={r}; u.blank=""; put8(u.blank,c); run_units({u,last(1)},1+hx_pick("mode",2)); }
HARNESS(h_unit_esc) { U1 u; Rd r; r.mark=0; unsigned n=Q(2,3); for (unsigned i=0;i<n;i++) r.body.push_back(LT[hx_pick("l",10)]); Rd z; z.mark=0; u.rd={r,z}; if (hx_pick("rev",2)) std::swap(u.rd[0],u.rd[1]); run_units({u,last(1)},hx_pick("mode",2)); }
HARNESS(h_unit_blank) { U1 u; u.blank=BK[hx_pick("blank",12)]; if (hx_pick("pre",2)) u.blank=BK[hx_pick("blank2",12)]+u.blank; unsigned wb=hx_pick("wb",5); u.wb=WB[wb]; size_t n=u.blank.size(); sx_assume(wb || n<2 || u.blank.compare(n-2,2,"]]")!=0); u.rd={{0,{'a'}}}; run_units({u,last(12)},0); }
HARNESS(h_unit_chunk) { static const char* const CH[]={"","{}","{^a<n>/b$ ^c$}","{\\}}","{[[w]]^a$}"}; U1 u; u.chunk=CH[hx_pick("chunk",5)]; u.rd={reading(2,1,2,1)}; U1 v; v.blank=BK[hx_pick("blank",2)]; v.rd={{'*',{'z'}}}; if (hx_pick("second",2)) v.chunk="{x}"; run_units({u,v,last(1)},hx_pick("mode",2)); }
HARNESS(h_unit_many) { std::vector<U1> us; unsigned n=2+hx_pick("n",2); for (unsigned i=0;i<n;i++) { U1 u; u.blank=BK[hx_pick("blank",3)]; u.end=hx_pick("null",2); if (!u.end) { u.wb=WB[hx_pick("wb",2)]; u.rd={{0,{LT[i],TAG0}}}; if (hx_pick("rd",2)) u.rd.push_back({'@',{0x1f600}}); } us.push_back(u); } us.push_back(last(2)); run_units(us,1); }
