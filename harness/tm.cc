// Translation memories: lt-tmxcomp and lt-tmxproc.
#include "tools.h"
int lt_tmxcomp_main(int, char**);
int lt_tmxproc_main(int, char**);
// a side of a unit: text, PHM where there is mark-up
static const uint32_t PHM=0x31000000;
typedef std::pair<U32,U32> Tu;
static U32 side_of(const char* s) { U32 o; for (auto c : u32_of(s)) o.push_back(c=='|'?PHM:c); return o; }
static std::string seg_x(const U32& s, unsigned mark) { static const char* const M[]={"<ph/>","<ph x=\"1\"></ph>","<hi></hi>"}; std::string o; for (auto c : s) { if (c==PHM) o+=M[mark]; else switch (c) { case '<': o+="&lt;"; break; case '&': o+="&amp;"; break; default: put8(o,c); } } return o; }
struct TOpt { unsigned order=0, other=0, mark=0, attr=0; const char *pre="", *post="", *gap=""; };
static std::string tmx_of(const std::vector<Tu>& U, const TOpt& o) { std::string x="<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<tmx version=\"1.4\">"; x+=o.gap; x+="<header srclang=\"aa\"><prop type=\"t\">kake 7</prop></header>"; x+=o.gap; x+="<body>"; const char* at=o.attr?"lang":"xml:lang";
  for (auto& u : U) { auto tuv=[&](const char* l, const U32& s){ return std::string("<tuv ")+at+"=\""+l+"\">"+o.gap+"<seg>"+o.pre+seg_x(s,o.mark)+o.post+"</seg>"+o.gap+"</tuv>"+o.gap; }; std::string a=tuv("aa",u.first), b=tuv("bb",u.second), c=tuv("cc",u32_of("something else")); x+="<tu>"; x+=o.gap; if (o.other==1) x+=c; x+=o.order?b:a; if (o.other==2) x+=c; x+=o.order?a:b; x+="</tu>"; x+=o.gap; }
  return x+"</body></tmx>\n"; }
static bool dig(uint32_t c) { return c>='0' && c<='9'; }
static const uint32_t NUM=TAG0;   // <n>
// what the unit means: numbers of the first side stand for any number, and the second side refers to them
static Trip unit_of(const Tu& u) { std::vector<U32> nums; Trip t; t.w=0; auto len=[](const U32& s, size_t i){ if (!dig(s[i])) return (size_t)0; size_t n=1; for (size_t j=i+1;j<s.size() && (dig(s[j]) || s[j]=='.' || s[j]==',');j++) if (dig(s[j])) n=j-i+1; return n; };
  for (size_t i=0;i<u.first.size();) { size_t n=len(u.first,i); if (n) { nums.push_back(U32(u.first.begin()+i,u.first.begin()+i+n)); t.l.push_back(NUM); i+=n; } else { t.l.push_back(u.first[i]==PHM?(uint32_t)' ':u.first[i]); i++; } }
  for (size_t i=0;i<u.second.size();) { size_t n=len(u.second,i); if (n) { U32 x(u.second.begin()+i,u.second.begin()+i+n); size_t k=0; while (nums[k]!=x) k++; t.r.push_back('@'); t.r.push_back('('); if (k>=9) t.r.push_back('0'+(k+1)/10); t.r.push_back('0'+(k+1)%10); t.r.push_back(')'); i+=n; } else if (u.second[i]==PHM) { t.r.push_back('('); t.r.push_back('#'); t.r.push_back(')'); i++; } else t.r.push_back(u.second[i++]); }
  return t; }
static void tm_compile(const std::vector<Tu>& U, const TOpt& o) { hx_file_put("m.tmx",tmx_of(U,o)); CHECK(run_main(lt_tmxcomp_main,{"lt-tmxcomp","aa-bb",pth("m.tmx"),pth("m.bin")})==0,"lt-tmxcomp failed"); }
static std::string tm_run(const std::string& in, bool sp, bool lng=false) { hx_file_put("i",in); std::vector<std::string> v={"lt-tmxproc"}; if (sp) v.push_back(lng?"--space":"-s"); v.push_back(pth("m.bin")); v.push_back(pth("i")); v.push_back(pth("o")); CHECK(run_main(lt_tmxproc_main,v)==0,"lt-tmxproc failed"); std::string o; CHECK(hx_file_get("o",o),"no output"); return o; }
// all pairs of the compiled memory
static void all_pairs(Transducer& t, int s, U32 l, U32 r, const Alphabet& al, std::vector<std::pair<U32,U32>>& out, int depth) { if (depth>120) return; if (t.isFinal(s)) out.push_back({l,r}); auto& tr=t.getTransitions(); auto it=tr.find(s); if (it==tr.end()) return; for (auto& e : it->second) { auto p=al.decode(e.first); U32 l2=l, r2=r; if (p.first) l2.push_back((uint32_t)p.first); if (p.second) r2.push_back((uint32_t)p.second); all_pairs(t,e.second.first,l2,r2,al,out,depth+1); } }
static void check_memory(const std::vector<Tu>& U) { Loaded L; load_file(L,"m.bin"); CHECK(L.ts.size()==1,"a compiled memory has one section"); std::vector<std::pair<U32,U32>> got, want; all_pairs(L.ts.begin()->second,L.ts.begin()->second.getInitial(),{}, {},L.al,got,0); for (auto& u : U) { Trip t=unit_of(u); if (t.l.size()<5 || t.r.size()<5) continue; for (auto& c : t.l) if (c==NUM) c=(uint32_t)L.al(u"<n>"); want.push_back({t.l,t.r}); }
  for (auto& w : want) CHECK(std::find(got.begin(),got.end(),w)!=got.end(),"a unit of the memory was not compiled, or not as it stands"); for (auto& g : got) CHECK(std::find(want.begin(),want.end(),g)!=want.end(),"the compiled memory has a unit that the file does not have"); }
static const uint32_t LT[]={'a','k','K',0xe9,'$',')','(','@','#','\\',0x1f600,'.','<'};
// one unit, two letters of any kind on each side
HARNESS(h_tm_unit) { U32 a=u32_of("bcde"), b=u32_of("fghi"); a.insert(a.begin()+hx_pick("pa",4),hx_char("ca",LT,Q(13,13))); b.insert(b.begin()+hx_pick("pb",2)*3,hx_char("cb",LT,13)); std::vector<Tu> U={{a,b}}; TOpt o; tm_compile(U,o); check_memory(U); sx_reach(0); }
// blanks around the text, languages, order
HARNESS(h_tm_file) { std::vector<Tu> U={{side_of("kake|eg"),side_of("kuke|eg")}}; if (hx_pick("two",2)) U.push_back({side_of("kakao"),side_of("other side")}); TOpt o; o.order=hx_pick("order",2); o.other=hx_pick("other",3); o.mark=hx_pick("mark",3); o.attr=hx_pick("attr",2); if (hx_pick("blanks",2)) { o.pre=" \n"; o.post="\t "; } if (hx_pick("gap",2)) o.gap="\n  "; tm_compile(U,o); check_memory(U); sx_reach(0); }
// the length of the sides
HARNESS(h_tm_short) { U32 a,b; unsigned na=3+hx_pick("na",4), nb=3+hx_pick("nb",4); for (unsigned i=0;i<na;i++) a.push_back('a'+i); for (unsigned i=0;i<nb;i++) b.push_back('p'+i); if (hx_pick("num",2)) { a[1]='7'; b[0]='7'; } std::vector<Tu> U={{a,b},{u32_of("xyzuv"),u32_of("vuzyx")}}; tm_compile(U,{}); check_memory(U); sx_reach(0); }
// numbers and mark-up
static const char* const NA[]={"ab 1 cd","1 og 22","ab 12, 1.","7 x 7 y","1.5 ab,2","ab|1|cd","1 2 3 4 5 6 7 8 9 10 11","ab 1.. c"};
static const char* const NB[]={"ef 1 gh","22 og 1","1.ef 12,","y 7 x 7","ab,2 1.5","1|ef|gh","11 og 10 og 1 x","xyz 1.. y"};
HARNESS(h_tm_num) { unsigned k=hx_pick("k",8), j=hx_pick("j",Q(8,8)); std::vector<Tu> U={{side_of(NA[k]),side_of(NB[k])}}; if (j!=k) U.push_back({side_of(NA[j]),side_of(NB[j])}); tm_compile(U,{}); check_memory(U); sx_reach(0); }
// ---- use
static const std::vector<Tu>& MEM() { static std::vector<Tu> m={{side_of("kake 1"),side_of("kuke 1")},{side_of("xyz 1 og 2"),side_of("x 2 og 1")},{side_of("pqrst"),side_of("p$rs)t")},{side_of("pqrst.abc"),side_of("newthing")},{side_of("ab|cde"),side_of("XY|ZWE")},{side_of("la$ra"),side_of("no [la]")}}; return m; }
struct Sg { const char *in, *out; };
static const Sg SG[]={{"kake 5","kuke 5"},{"xyz 12 og 7","x 7 og 12"},{"pqrst","p\\$rs)t"},{"pqrst.abc","newthing"},{"ab cde","XY ZWE"},{"ab[<b>]cde","XY<b>ZWE"},{"la\\$ra","no \\[la\\]"},{"kAke 123","kuke 123"}};
static const uint32_t FOL[]={'.',',','!','-',' ','\n','x',')','\\',';'};
// text before, a segment, what follows it
HARNESS(h_tm_use) { tm_compile(MEM(),{}); static const char* const PRE[]={"","hei ","[<i>]","\\$ . ","5 "}; std::string in=PRE[hx_pick("pre",5)], out=in; auto& s=SG[hx_pick("s",8)]; bool sp=hx_pick("space",2); unsigned f=hx_pick("f",10); uint32_t c=FOL[f]; std::string fol; if (c=='\\') fol="\\]"; else put8(fol,c); bool punct=c!=' ' && c!='\n' && c!='x'; bool hit=punct || (sp && (c==' ' || c=='\n')); static const char* const POST[]={""," bla.","7 "}; fol+=POST[hx_pick("post",3)]; 
  if (!strcmp(s.in,"pqrst") && c=='.') sx_end(); in+=s.in; in+=fol; out+=hit?std::string("[")+s.out+"]":!strcmp(s.in,"pqrst.abc")?std::string("[p\\$rs)t].abc"):std::string(s.in); out+=fol; out+='\0'; CHECK(same(tm_run(in,sp,true),out),"text with a segment of the memory came out wrong"); sx_reach(hit); }
// text that has no segment of the memory, cut off anywhere
HARNESS(h_tm_other) { tm_compile(MEM(),{}); static const char* const P[]={"kak","kake ","xyz 5 o","pqrst.ab","ab[<b>]cd","la\\$r","ab[<b>]","\\^","a\\@b"," [x]","7","pqrs."}; std::string in=P[hx_pick("p",12)]; bool cut=hx_pick("cut",2); if (!cut) { in+=" "; in+=hx_char("c",LT,4)=='a'?"ab":"zz"; in+=hx_pick("e",2)?".":""; } bool sp=hx_pick("space",2); std::string want=in; if (in.substr(0,8)=="pqrst.ab") want="[p\\$rs)t]"+in.substr(5); want+='\0'; CHECK(same(tm_run(in,sp),want),"text outside the memory was changed or lost"); sx_reach(cut); }
// any letters
static const uint32_t AT[]={'k','p',' ','.','7',0xe9,'^','q','['};
HARNESS(h_tm_text) { std::vector<Tu> U={{u32_of("pqqqq"),u32_of("rrrrr")}}; tm_compile(U,{}); unsigned n=1+hx_pick("n",Q(3,4)); std::string in; for (unsigned i=0;i<n;i++) { uint32_t c=hx_char("c",AT,9); if (c=='^' || c=='[') in+='\\'; put8(in,c); } std::string want=in; want+='\0'; CHECK(same(tm_run(in,hx_pick("space",2)),want),"text outside the memory was changed or lost"); sx_reach(0); }
// parts of the text with nulls between them have nothing to do with each other
HARNESS(h_tm_null) { tm_compile(MEM(),{}); static const char* const P[]={"kake 5.","9","kak","xyz 4","kake 3","ab[<b>]cd",""," ","pqrst, x","xyz 12 og 7!"}; static const char* const O[]={"[kuke 5].","9","kak","xyz 4","kake 3","ab[<b>]cd",""," ","[p\\$rs)t], x","[x 7 og 12]!"}; unsigned a=hx_pick("a",10), b=hx_pick("b",10); std::string in=P[a], want=O[a]; in+='\0'; want+='\0'; in+=P[b]; want+=O[b]; want+='\0'; CHECK(same(tm_run(in,false),want),"a part of the text had an influence on the next one"); sx_reach(0); }
HARNESS(h_tm_two) { tm_compile(MEM(),{}); unsigned a=hx_pick("a",8), b=hx_pick("b",8), m=hx_pick("m",3); static const char* const MID[]={", ","! hei ","-"}; std::string in=std::string(SG[a].in)+MID[m]+SG[b].in+";", out=std::string("[")+SG[a].out+"]"+MID[m]+"["+SG[b].out+"];"; out+='\0'; CHECK(same(tm_run(in,false),out),"two segments of the memory came out wrong"); sx_reach(0); }
// any character after a segment, and in a text without one
static uint32_t anych(const char* nm) { uint32_t c=sx_u32(nm); sx_assume(c>0 && c<0xd800 && c!=0x74 && c!=0x54); sx_assume(!reserved(c) && !(c>='0' && c<='9')); return c; }
HARNESS(h_tm_any) { std::vector<Tu> U={{u32_of("pqrst"),u32_of("xyzuv")}}; tm_compile(U,{}); uint32_t c=anych("c"); bool sp=hx_pick("space",2), other=hx_pick("other",2); std::string t; put8(t,c); std::string in=other?"pqrs":"pqrst", out; bool hit=!other && (u_ispunct((UChar32)c) || (sp && u_isspace((UChar32)c))); in+=t; out=hit?"[xyzuv]"+t:in; in+=" ab"; out+=" ab"; out+='\0'; CHECK(same(tm_run(in,sp),out),"a segment followed by some character came out wrong"); sx_reach(hit); }
HARNESS(h_tm_digits) { tm_compile(MEM(),{}); static const uint32_t DT[]={'0','5','9',0x663,0x967,0x1d7cf}; std::string a,b; unsigned na=1+hx_pick("na",3), nb=1+hx_pick("nb",2); for (unsigned i=0;i<na;i++) put8(a,hx_char("d",DT,Q(5,6))); for (unsigned i=0;i<nb;i++) put8(b,hx_char("e",DT,6)); bool two=hx_pick("two",2); std::string in=two?"xyz "+a+" og "+b+".":"kake "+a+".", out=two?"[x "+b+" og "+a+"].":"[kuke "+a+"]."; out+='\0'; CHECK(same(tm_run(in,false),out),"the numbers of a segment came out wrong"); sx_reach(two); }
// many numbers in one segment, any of them used in the translation
HARNESS(h_tm_many) { unsigned n=Q(12,22), k=hx_pick("k",n), j=hx_pick("j",Q(3,n)); auto num=[](unsigned i){ return std::to_string(i); }; std::string a, b, in; for (unsigned i=0;i<n;i++) { a+=num(i)+" x "; in+=num(3*i+40)+" x "; } a+="y"; in+="y"; b=num(k)+" q "+num(j)+" r"; std::vector<Tu> U={{u32_of(a.c_str()),u32_of(b.c_str())}}; tm_compile(U,{}); check_memory(U); std::string out="["+num(3*k+40)+" q "+num(3*j+40)+" r]."; out+='\0'; in+="."; CHECK(tm_run(in,false)==out,"a segment with many numbers came out wrong"); sx_reach(0); }
// texts that are longer than the window the processor keeps
HARNESS(h_tm_long) { tm_compile(MEM(),{}); unsigned n=2034+hx_pick("pad",16); std::string pad; for (unsigned i=0;i+1<n;i++) pad+=i%5==4?' ':'z'; pad+=' '; auto& s=SG[hx_pick("s",3)]; uint32_t c=hx_char("c",FOL,4); std::string f; put8(f,c); bool cut=hx_pick("cut",2); std::string in=pad+(cut?std::string(s.in).substr(0,4)+"z":std::string(s.in))+f+" zz", out=pad+(cut?std::string(s.in).substr(0,4)+"z":std::string("[")+s.out+"]")+f+" zz"; out+='\0'; CHECK(same(tm_run(in,false),out),"text beyond the window of the processor came out wrong"); sx_reach(0); }
