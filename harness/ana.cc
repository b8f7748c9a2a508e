// lt-proc -a on symbolic texts: longest match, unknown words, blanks, case, sections, escapes.
#include "proc.h"
#include <algorithm>
static std::vector<Ent> dict(unsigned k) { switch (k) {
  case 0: return {ent("a","a<n>"),ent("ab","ab<n>"),ent("ab","a<v>",STD,1),ent("a b","a b<n>")};
  case 1: return {ent("ab","b<n>"),ent("a-b","ab<n>"),ent("a b a","c<v>"),ent("-","-<x>",INC)};
  case 2: return {ent("a","a<n>",PRE),ent("ab","ab<n>",POST),ent("b","b<n>"),ent("aba","q<x>",INC)};
  case 3: return {ent("aB","B<n>"),ent("A","A<n>"),ent("b'","b<n>"),ent("ba","b@<n>")};
  case 4: return {ent("é","é<n>"),ent("aé😀","e<n>"),ent("😀b","b<v>"),ent("aa","a<n>",INC)};
  default: return {ent("-a","x<n>"),ent("- b","y<n>"),ent("a-","z<n>"),ent("bb","w<n>")}; } }
static const char* LET(unsigned k) { return k==3?"aABb'":"ab"; }
// N characters from a table, each any of its members
static std::vector<Tok> chars(const uint32_t* tab, unsigned nt, int n) { std::vector<Tok> t; for (int i=0;i<n;i++) { Tok k; k.c=hx_char("c",tab,nt); k.esc=false; t.push_back(k); } return t; }
static void compare(unsigned d, const std::vector<Tok>& T, const Opt& o, FSTProcessor& fp) { auto D=dict(d); std::string out=proc_run(text_of(T),[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); std::string exp=ref_analysis(D,u32_of(LET(d)),T,o);
  CHECK(same(out,exp),"the analysis of a text is not the longest-match reading of it"); sx_reach(0); }
static void setup(FSTProcessor& fp, unsigned d) { dict_load(fp,dict(d),LET(d)); fp.initAnalysis(); }
static void plain(unsigned d, const uint32_t* tab, unsigned nt, int n) { FSTProcessor fp; setup(fp,d); compare(d,chars(tab,nt,n),Opt(),fp); }
static const uint32_t T0[]={'a','b','x',' ','-','1'}, T1[]={'a','b','-',' ','c'}, T2[]={'a','b',' ','-'}, T3[]={'a','B','A','b','\'','-'}, T4[]={'a',0xe9,0x1f600,'b',0xc9,' '}, T5[]={'-','a','b',' '};
HARNESS(h_ana0) { plain(0,T0,6,Q(6,7)); }
HARNESS(h_ana1) { plain(1,T1,5,Q(6,8)); }
HARNESS(h_ana2) { plain(2,T2,4,Q(6,8)); }
HARNESS(h_ana3) { plain(3,T3,6,Q(6,7)); }
HARNESS(h_ana4) { plain(4,T4,6,Q(5,6)); }
HARNESS(h_ana5) { plain(5,T5,4,Q(6,8)); }
// a word of every kind of section that starts a longer word of every kind of section
HARNESS(h_ana_types) { static const int TT[]={STD,INC,POST,PRE}; bool let=hx_pick("letter",2); std::string a=let?"a":"-"; std::vector<Ent> D={ent(a.c_str(),"x<n>",TT[hx_pick("t1",4)]),ent((a+"b").c_str(),"y<n>",TT[hx_pick("t2",4)]),ent((a+" b").c_str(),"z<n>",TT[hx_pick("t3",4)])}; const char* L=hx_pick("bletter",2)?"ab":"a"; FSTProcessor fp; dict_load(fp,D,L); fp.initAnalysis(); uint32_t TX[]={let?(uint32_t)'a':(uint32_t)'-','b',' '}; std::vector<Tok> T=chars(TX,3,Q(4,6)); std::string out=proc_run(text_of(T),[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); CHECK(same(out,ref_analysis(D,u32_of(L),T,Opt())),"the analysis of a text with words of several kinds of sections is not the longest-match reading of it"); sx_reach(0); }
// texts that are longer than the window the processor keeps
HARNESS(h_ana_long) { static const unsigned DS[]={0,1,2,5}; unsigned d=DS[hx_pick("d",4)]; unsigned n=2042+hx_pick("pad",8); static const uint32_t TL[]={'a','b','-',' '}; std::vector<Tok> T=chars(TL,d==0?2:d==2?3:4,Q(4,5)); if (d==0) T[1].c=' '; FSTProcessor fp; setup(fp,d); std::string pad(n,','); std::string out=proc_run(pad+text_of(T),[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); std::string exp=pad+ref_analysis(dict(d),u32_of(LET(d)),T,Opt()); CHECK(same(out,exp),"the analysis of a long text is not the longest-match reading of it"); sx_reach(0); }
HARNESS(h_ana_longword) { unsigned n=2044+hx_pick("len",8); static const uint32_t TL[]={' ','a',','}; FSTProcessor fp; setup(fp,0); std::string w(n,'b'), in=hx_pick("before",2)?",":"", exp=in; in+=w; exp+="^"+w+"/*"+w+"$"; std::vector<Tok> T; Tok k; k.esc=false; k.c=' '; T.push_back(k); k.c=hx_char("c",TL,3); T.push_back(k); k.c='a'; T.push_back(k); in+=text_of(T); exp+=ref_analysis(dict(0),u32_of(LET(0)),T,Opt()); std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); CHECK(same(out,exp),"a word that fills the window, or what follows it, is not analysed"); sx_reach(0); }
// case modes: case-sensitive matching, dictionary case
HARNESS(h_ana_modes) { static const uint32_t TM[]={'a','B','A','b',0xc9,0xe9}; Opt o; unsigned m=hx_pick("mode",3); o.cs=m!=1; o.dictcase=m!=0; unsigned d=hx_pick("dict",2)?4:3; FSTProcessor fp; setup(fp,d); fp.setCaseSensitiveMode(o.cs); fp.setDictionaryCaseMode(o.dictcase); compare(d,chars(TM,6,Q(3,4)),o,fp); }
// equally good analyses: all of them, each once, in any order
HARNESS(h_ana_ties) { std::vector<Ent> D={ent("a","a<n>"),ent("a","b<n>"),ent("a","a<v>"),ent("aa","a<n>"),ent("aa","a<x>"),ent("b","a<n>",INC),ent("b","b<x>"),ent("b","a<n>",STD)}; FSTProcessor fp; dict_load(fp,D,"ab"); fp.initAnalysis(); static const uint32_t TT[]={'a','b'}; U32 w; unsigned n=1+hx_pick("n",2); if (n==1) w.push_back(hx_char("c",TT,2)); else w={'a','a'}; std::string in=u8_of(w); std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.analysis(i,u); });
  std::vector<Ana> a=analyses(D,w,0,n,Opt()); bool any=false; std::vector<int> ix; for (size_t i=0;i<a.size();i++) ix.push_back((int)i); do { std::string e="^"+in; for (int i : ix) e+="/"+a[i].s; e+="$"; any=any|same(out,e); } while (std::next_permutation(ix.begin(),ix.end())); CHECK(any,"a word does not get each of its analyses once"); sx_reach(0); }
// soft hyphens are skipped by default and kept on request
HARNESS(h_ana_ignored) { bool ign=hx_pick("ignore",2); unsigned d=hx_pick("dict",2); FSTProcessor fp; fp.setUseDefaultIgnoredChars(ign); setup(fp,d); static const uint32_t TI[]={'a','b',' ',0xad}; std::vector<Tok> T=chars(TI,4,Q(4,5)), K; std::string in=text_of(T); if (ign) { for (auto& t : T) if (t.c!=0xad) K.push_back(t); } else K=T;
  std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); CHECK(same(out,ref_analysis(dict(d),u32_of(LET(d)),K,Opt())),"ignored characters change the analysis of the rest"); sx_reach(ign); }
// ---- formatting: blanks in brackets, word-bound blanks, escaped characters
static const uint32_t RS[]={'[',']','{','}','^','$','/','\\','@','<','>'};
static Tok token(unsigned kinds, const uint32_t* tab, unsigned nt) { Tok t; t.esc=false; t.c=' '; static const uint32_t BC[]={'x','^','$','/',' ','\n','<','{'}; switch (hx_pick("kind",kinds)) {
  case 0: t.c=hx_char("c",tab,nt); break;
  case 1: t.blank="["; put8(t.blank,hx_char("b",BC,8)); t.blank+="]"; break;
  case 2: t.esc=true; t.c=hx_char("e",nt==4?RS:RS+4,nt==4?11:5); break;
  case 3: t.blank="[["; put8(t.blank,hx_char("b",BC,8)); t.blank+="]]"; break;
  case 4: t.blank="[\\"; put8(t.blank,hx_char("e",RS+4,4)); t.blank+="]"; break;
  default: t.blank="[]"; } return t; }
static void blanks(unsigned d, unsigned kinds, const uint32_t* tab, unsigned nt, int n) { FSTProcessor fp; setup(fp,d); std::vector<Tok> T; for (int i=0;i<n;i++) T.push_back(token(kinds,tab,nt)); compare(d,T,Opt(),fp); }
static const uint32_t TB0[]={'a','b',' ','\n'}, TB1[]={'a','b',' '}, TB3[]={'b','a','\''};
HARNESS(h_blank0) { blanks(0,4,TB0,4,Q(3,4)); }
HARNESS(h_blank1) { blanks(1,3,TB1,3,Q(5,6)); }
HARNESS(h_blank2) { blanks(2,3,TB1,3,Q(4,5)); }
HARNESS(h_blank3) { blanks(3,6,TB3,3,Q(3,4)); }
// any character at all is either part of a word or printed as it is
HARNESS(h_anychar) { std::vector<Ent> D={ent("a","a<n>"),ent("ab","ab<n>"),ent("-a","x<n>")}; FSTProcessor fp; dict_load(fp,D,"ab"); fp.initAnalysis(); static const uint32_t R0[]={1,9,10,13,32,0x7f,0x80,0xa0,0xad,0xdf,0x130,0x131,0x3000,0x2028,0xfeff,0xffff-1,0xd7ff,0xe000,0x10ffff,0x10000,0x1d400,0x10400,0x1c5,0x1c4,0x300,0x661,'~','+','*','#','%','"'}; unsigned n=sizeof R0/sizeof *R0; fp.setUseDefaultIgnoredChars(false);
  std::vector<Tok> T; for (int i=0;i<3;i++) { Tok t; t.esc=false; t.c= i==1?hx_char("c",R0,n):'a'; T.push_back(t); } unsigned where=hx_pick("where",3); if (where==1) std::swap(T[0],T[1]); if (where==2) T[0].c='-'; std::string out=proc_run(text_of(T),[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); CHECK(same(out,ref_analysis(D,u32_of("ab"),T,Opt())),"a character of the text is lost or changed"); sx_reach(0); }
// with null flush every part is treated as if it were alone
HARNESS(h_nullflush) { unsigned d=hx_pick("dict",3); FSTProcessor fp; setup(fp,d); fp.setNullFlush(true); std::vector<Tok> P[3]; std::string in, exp; const int np=2; for (int k=0;k<np;k++) { int n=hx_pick("len",Q(3,4)); for (int i=0;i<n;i++) P[k].push_back(token(2,TB1,3)); in+=text_of(P[k]); in+='\0'; }
  std::string out=proc_run(in,[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); for (int k=0;k<np;k++) { exp+=ref_analysis(dict(d),u32_of(LET(d)),P[k],Opt()); exp+='\0'; } CHECK(out.size()>=exp.size() && same(out.substr(0,exp.size()),exp),"a part between nulls is not processed on its own"); for (size_t i=exp.size();i<out.size();i++) CHECK(out[i]==0,"something is printed after the last part"); sx_reach(0); }
// blanks with any contents
HARNESS(h_blank_any) { unsigned d=hx_pick("d",2)?2:0; bool w=hx_pick("w",2); std::string b=anyblank(w,Q(2,3)); FSTProcessor fp; setup(fp,d); std::vector<Tok> T; auto ch=[&](uint32_t c) { Tok t; t.esc=false; t.c=c; T.push_back(t); }; static const uint32_t TL[]={'a','b'}; unsigned k=hx_pick("before",2); if (k) ch(hx_char("c",TL,2)); Tok t; t.esc=false; t.c=' '; t.blank=b; T.push_back(t); ch(hx_char("c",TL,2)); if (w) { t.blank="[[/]]"; T.push_back(t); } ch('a'); compare(d,T,Opt(),fp); }
// several blanks within one word, and text after it
HARNESS(h_blank_many) { std::vector<Ent> D={ent("a b a","x<n>"),ent("a b a b","y<n>"),ent("a b a b a","z<n>"),ent("b","b<n>")}; FSTProcessor fp; dict_load(fp,D,"ab"); fp.initAnalysis(); static const char* const B[]={" ","[x]","[]","[[w]]"}; static const uint32_t AF[]={'-','b','c',' '}; std::vector<Tok> T; auto ch=[&](uint32_t c) { Tok t; t.esc=false; t.c=c; T.push_back(t); }; auto bl=[&](unsigned n) { Tok t; t.esc=false; t.c=' '; t.blank=B[hx_pick("blank",n)]; if (t.blank==" ") t.blank.clear(); T.push_back(t); };
  unsigned n=2+hx_pick("n",3); ch('a'); for (unsigned i=0;i<n;i++) { bl(i<2?3:2); ch(i%2?'a':'b'); } ch(hx_char("after",AF,4)); bl(4); ch(hx_char("last",AF,3)); std::string out=proc_run(text_of(T),[&](InputFile& i, UFILE* u){ fp.analysis(i,u); }); CHECK(same(out,ref_analysis(D,u32_of("ab"),T,Opt())),"blanks within a word are not kept after it"); sx_reach(0); }
