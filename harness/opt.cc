// The command line of lt-proc: which processing the options select, ignored and restored characters.
#include "tools.h"
#include <algorithm>
int lt_proc_main(int, char**);
struct Flag { char s; const char* l; };
static const Flag FL[]={{'a',"analysis"},{'b',"bilingual"},{'o',"surf-bilingual"},{'O',"surf-bilingual-keep"},{'g',"generation"},{'e',"decompose-nouns"},{'p',"post-generation"},{'x',"inter-generation"},{'t',"transliteration"},{'d',"debugged-gen"},{'l',"tagged-gen"},{'m',"tagged-nm-gen"},{'n',"non-marked-gen"},{'C',"careful-case"},{'c',"case-sensitive"},{'w',"dictionary-case"},{'z',"null-flush"},{'W',"show-weights"},{'I',"no-default-ignore"}};
static std::vector<Ent> odict() { return {ent("ab","ba<n>",STD,1),ent("ab","b<v>",STD,2),ent("Aa","aA<v>"),ent("ba<n>","ab",STD,0.5),ent("ba<n>","aab",STD,1),ent("bA<v>","Ab"),ent("~a b","c"),ent("a","a<compound-only-L>"),ent("b","b<n><compound-R>"),ent(".",".<x>",INC)}; }
static std::string text_for(char m) { switch (m) { case 'b': return "^ba<n><x>$ [x]^Ba<n>$^zz<n>$ ^*q$ ^bA<v>$^BA<v>$"; case 'o': return "^sf/ba<n><x>$ [x]^Sf/Ba<n>$^qq/zz<n>$ ^q/*q$ ^a/BA<v>$"; case 'g': return "^ba<n>$ [x]^Ba<n>$^zz<n>$ ^*q$^@r<n>$ ^#s<v>$ ^BA<v>$^ba<x>$"; case 'p': case 't': return "~a b ~ab [x] ~A B \xc2\xad."; default: return "ab Ab Aa aa [x]AB xyz\xc2\xad aab. bb"; } }
static void h_flags(const std::vector<int>& fs, const std::vector<std::string>& args, bool nul) {
  auto has=[&](char c){ for (int f : fs) if (FL[f].s==c) return true; return false; };
  bool bad=false; char m=0; auto excl=[&](char c){ if (has(c)) { if (m) bad=true; m=c; } };
  // one task at a time; the bilingual variants belong together, and bilingual lookup may generate
  excl('a'); excl('b'); if (has('o') || has('O')) { if (m && m!='b') bad=true; m='b'; } if (has('g')) { if (m && m!='b') bad=true; else if (!m) m='g'; } bool bilgen=m=='b' && has('g'); excl('e'); excl('p'); if (has('x') || has('t')) { if (m) bad=true; m='t'; }
  GenerationMode gm=bilgen?gm_bilgen:gm_unknown; static const struct { char c; GenerationMode g; } G[]={{'d',gm_all},{'l',gm_tagged},{'m',gm_tagged_nm},{'n',gm_clean},{'C',gm_carefulcase}}; for (auto& g : G) if (has(g.c)) { gm=g.g; if (!m) m='g'; }
  std::string in=text_for(m=='b' && (has('o') || has('O'))?'o':m); if (nul) in+=std::string(1,'\0')+text_for(m=='b' && (has('o') || has('O'))?'o':m); in+="\n";
  std::string dict=dict_bytes(odict(),"abxyz"); hx_file_put("d",dict); hx_file_put("i",in); std::vector<std::string> v={"lt-proc"}; v.insert(v.end(),args.begin(),args.end()); v.push_back(pth("d")); v.push_back(pth("i")); v.push_back(pth("o"));
  if (bad) { sx_exit_policy(1); run_main(lt_proc_main,v); CHECK(false,"two tasks at a time were accepted"); return; }
  CHECK(run_main(lt_proc_main,v)==0,"lt-proc failed"); std::string out; CHECK(hx_file_get("o",out),"no output");
  FSTProcessor fp; fp.setBiltransSurfaceForms(has('o')); fp.setBiltransSurfaceFormsKeep(has('O')); fp.setCaseSensitiveMode(has('c')); fp.setUseDefaultIgnoredChars(!has('I')); fp.setDisplayWeightsMode(has('W')); fp.setNullFlush(has('z')); fp.setDictionaryCaseMode(has('w')); { FILE* f=hx_reader(dict); fp.load(f); fclose(f); }
  std::string want=proc_run(in,[&](InputFile& i, UFILE* u){ switch (m) { case 'g': fp.initGeneration(); fp.generation(i,u,gm); break; case 'b': fp.initBiltrans(); fp.bilingual(i,u,gm); break; case 'p': fp.initPostgeneration(); fp.postgeneration(i,u); break; case 't': fp.initPostgeneration(); fp.transliteration(i,u); break; case 'e': fp.initDecomposition(); fp.analysis(i,u); break; default: fp.initAnalysis(); fp.analysis(i,u); } });
  CHECK(out==want,"lt-proc did something else than its options ask for"); sx_reach(m==0?0:m=='b'?2:1); }
static std::string spell(int f, bool lng) { return lng?std::string("--")+FL[f].l:std::string("-")+FL[f].s; }
HARNESS(h_opt_two) { unsigned a=hx_pick("f",20), b=a+hx_pick("g",20-a); std::vector<int> fs; std::vector<std::string> v; bool lng=hx_pick("long",2); if (a<19) { fs.push_back(a); v.push_back(spell(a,lng)); } if (b<19 && b!=a) { fs.push_back(b); v.push_back(spell(b,!lng)); } h_flags(fs,v,false); }
// several letters in one argument, any order, null flushing
HARNESS(h_opt_many) { static const int M[]={0,1,2,3,4,5,6,8}, X[]={14,15,17,18,12,11}; int a=M[hx_pick("m",8)], b=X[hx_pick("x",6)], c=X[hx_pick("y",6)]; bool o=hx_pick("order",2); std::vector<int> fs={a,b,c,16}; std::string s="-"; if (o) { s+=FL[c].s; s+='z'; s+=FL[a].s; s+=FL[b].s; } else { s+=FL[a].s; s+=FL[b].s; s+=FL[c].s; s+='z'; } h_flags(fs,{s},true); }
// limits
HARNESS(h_opt_num) { static const char* const V[]={"1","2","3","17","0","-1","x",""}; static const char O[]="NLM"; unsigned k=hx_pick("opt",3); const char* val=V[hx_pick("v",8)]; unsigned how=hx_pick("how",3); bool twice=hx_pick("twice",2); static const char* const LN[]={"analyses","weight-classes","compound-max-elements"};
  std::string d=dict_bytes(odict(),"ab"), in=k==2?"aaab aab\n":"ab aab ba\n"; hx_file_put("d",d); hx_file_put("i",in); std::vector<std::string> v={"lt-proc"}; if (k==2) v.push_back("-e"); if (twice) { v.push_back(std::string("-")+O[k]); v.push_back("1"); } if (how==0) { v.push_back(std::string("-")+O[k]); v.push_back(val); } else if (how==1) { if (!*val) sx_end(); v.push_back(std::string("-")+O[k]+val); } else v.push_back(std::string("--")+LN[k]+"="+val); v.push_back(pth("d")); v.push_back(pth("i")); v.push_back(pth("o"));
  int n=!strcmp(val,"17")?17:*val>='1' && *val<='3'?*val-'0':0; if (n<1) { sx_exit_policy(1); run_main(lt_proc_main,v); CHECK(false,"a limit below one was accepted"); return; }
  CHECK(run_main(lt_proc_main,v)==0,"lt-proc failed"); std::string out; CHECK(hx_file_get("o",out),"no output"); FSTProcessor fp; if (k==0) fp.setMaxAnalysesValue(n); else if (k==1) fp.setMaxWeightClassesValue(n); else fp.setCompoundMaxElements(n); { FILE* f=hx_reader(d); fp.load(f); fclose(f); }
  std::string want=proc_run(in,[&](InputFile& i, UFILE* u){ if (k==2) fp.initDecomposition(); else fp.initAnalysis(); fp.analysis(i,u); }); CHECK(out==want,"the limit was not used as given"); sx_reach(0); }
// ignored characters: the text is read as if they were not there
static const uint32_t IC[]={'b',0xad,0x301,0x1f600,'-'};
static std::string xmlchars(const std::vector<uint32_t>& cs, unsigned gap) { std::string o="<?xml version=\"1.0\"?>\n<ignored-chars>"; for (auto c : cs) { if (gap) o+="\n  <!-- x -->"; o+="<char value=\""; put8(o,c); o+="\"/>"; } return o+"</ignored-chars>\n"; }
HARNESS(h_opt_icx) { std::vector<uint32_t> ic; unsigned n=1+hx_pick("n",2); for (unsigned i=0;i<n;i++) ic.push_back(IC[hx_pick("ic",5)]); bool noI=hx_pick("I",2); static const uint32_t T[]={'a','b',' ',0xad,0x301,0x1f600}; std::vector<Tok> toks, K; unsigned len=Q(3,4); for (unsigned i=0;i<len;i++) { Tok t; t.esc=false; t.c=hx_char("t",T,i?6:4); toks.push_back(t); }
  unsigned b=n>1?0:hx_pick("blank",3); if (b) { Tok t; t.esc=b==2; t.c=b==2?'b':' '; if (b==1) t.blank="[b\xc2\xad]"; toks.insert(toks.begin()+1,t); }
  for (auto& t : toks) { bool ig=!noI && t.c==0xad; for (auto c : ic) ig|=t.c==c; if (!ig || t.esc || !t.blank.empty()) K.push_back(t); }
  std::vector<Ent> D={ent("a","a<n>"),ent("ab","b<n>"),ent("a a","c<n>"),ent("a\xc2\xad","d<n>"),ent("a\xf0\x9f\x98\x80","e<n>")}; hx_file_put("d",dict_bytes(D,"ab")); std::string in=text_of(toks); hx_file_put("i",in); std::vector<std::string> v={"lt-proc"}; if (noI) v.push_back("-I");
  bool two=hx_pick("two",2); if (two && n<2) sx_end(); if (two) { hx_file_put("x",xmlchars({ic[0]},0)); hx_file_put("y",xmlchars({ic[1]},1)); v.push_back("-i"); v.push_back(pth("x")); v.push_back("-i"); v.push_back(pth("y")); } else { hx_file_put("x",xmlchars(ic,1)); v.push_back("-i"); v.push_back(pth("x")); }
  v.push_back(pth("d")); v.push_back(pth("i")); v.push_back(pth("o")); CHECK(run_main(lt_proc_main,v)==0,"lt-proc failed"); std::string out; CHECK(hx_file_get("o",out),"no output"); CHECK(same(out,ref_analysis(D,u32_of("ab"),K,Opt())),"the text is not read as if the ignored characters were not there"); sx_reach(0); }
// restored characters: a listed character also matches every character it may stand for
struct Rc { uint32_t c; std::vector<uint32_t> to; };
static std::vector<uint32_t> stands(const std::vector<Rc>& R, uint32_t c, bool cs) { std::vector<uint32_t> o; bool in=false; for (auto& r : R) if (r.c==c) { in=true; o.insert(o.end(),r.to.begin(),r.to.end()); } if (!cs && u_isupper(c)) { uint32_t l=u_tolower(c); o.push_back(l); if (in) for (auto& r : R) if (r.c==l) o.insert(o.end(),r.to.begin(),r.to.end()); } return o; }
HARNESS(h_opt_rcx) { static const char* const TABS[]={"a>\xc3\xa1\xc3\xa0","a>\xc3\xa1,A>\xc3\x81","\xc3\xa9>e,\xc3\x89>E","\xf0\x90\x90\x8d>x,a>\xf0\x90\x91\x86","A>\xc3\x81","a>b,b>a","x>\xf0\x90\x90\xb5"}; const char* s=TABS[hx_pick("tab",7)]; std::vector<Rc> R; std::string xml="<?xml version=\"1.0\"?>\n<restore-chars>"; { U32 u=u32_of(s); size_t i=0; while (i<u.size()) { Rc r; r.c=u[i]; xml+="<char value=\""; put8(xml,u[i]); xml+="\">"; i+=2; for (;i<u.size() && u[i]!=',';i++) { r.to.push_back(u[i]); xml+="<restore-char value=\""; put8(xml,u[i]); xml+="\"/>"; } i++; xml+="</char>\n"; R.push_back(r); } xml+="</restore-chars>\n"; }
  std::vector<Ent> D={ent("a","a<n>"),ent("\xc3\xa1","b<n>"),ent("\xc3\xa0","c<n>"),ent("\xc3\xa1\xc3\xa0","d<n>"),ent("A","e<n>"),ent("ea","f<n>"),ent("Eb","g<n>"),ent("x","h<n>"),ent("xb","i<n>"),ent("\xf0\x90\x91\x86","j<n>"),ent("b\xc3\xa1","k<n>"),ent("\xf0\x90\x90\xb5","l<n>"),ent("\xc3\xa9","m<n>"),ent("ab","o<n>")};
  static const uint32_t T[]={'a','A','b','x',0xe9,0xc9,0x1040d}; U32 w; unsigned n=1+hx_pick("n",2); for (unsigned i=0;i<n;i++) w.push_back(hx_char("t",T,7)); bool cs=hx_pick("cs",2);
  std::vector<std::string> an; auto look=[&](bool restore){ bool fu=w[0]<0x10000 && u_isupper(w[0]), up=fu && n>1 && w[n-1]<0x10000 && u_isupper(w[n-1]); for (auto& e : D) { if (e.l.size()!=n) continue; bool ok=true, dirty=false; for (unsigned i=0;i<n && ok;i++) { uint32_t c=restore?w[i]:u_tolower(w[i]); if (c==e.l[i]) continue; ok=false; if (restore) for (auto x : stands(R,c,cs)) if (x==e.l[i]) { ok=true; dirty=true; } } if (!ok) continue; std::string a; for (size_t i=0;i<e.r.size();i++) { uint32_t c=e.r[i]; if (restore && !istag(c) && dirty && (up || (fu && i==0))) c=u_toupper(c); put8s(a,c); } if (std::find(an.begin(),an.end(),a)==an.end()) an.push_back(a); } };
  look(true); if (an.empty()) look(false); std::sort(an.begin(),an.end()); std::string in; for (auto c : w) put8(in,c);
  hx_file_put("d",dict_bytes(D,"ab")); hx_file_put("i",in+"\n"); hx_file_put("r",xml); std::vector<std::string> v={"lt-proc"}; if (cs) v.push_back("-c"); v.push_back(hx_pick("long",2)?"--restore-chars="+pth("r"):"-r"+pth("r")); v.push_back(pth("d")); v.push_back(pth("i")); v.push_back(pth("o")); CHECK(run_main(lt_proc_main,v)==0,"lt-proc failed"); std::string out; CHECK(hx_file_get("o",out),"no output");
  if (an.empty()) { CHECK(out=="^"+in+"/*"+in+"$\n","a word without any reading was changed"); sx_reach(0); return; }
  std::string head="^"+in+"/", tail="$\n"; CHECK(out.size()>head.size()+2 && out.compare(0,head.size(),head)==0 && out.compare(out.size()-2,2,tail)==0,"the word is not printed as known"); std::vector<std::string> got; std::string b=out.substr(head.size(),out.size()-2-head.size()); size_t i=0; while (i<=b.size()) { size_t j=b.find('/',i); if (j==std::string::npos) j=b.size(); got.push_back(b.substr(i,j-i)); i=j+1; } std::sort(got.begin(),got.end()); CHECK(got==an,"the readings are not those of all words the text may stand for"); sx_reach(1); }
// files
HARNESS(h_opt_files) { unsigned k=hx_pick("what",7); std::vector<std::string> v={"lt-proc"}; hx_file_put("i","ab\n"); hx_file_put("d",dict_bytes(odict(),"ab")); sx_exit_policy(1); switch (k) { case 0: break; case 1: v.push_back(pth("nofile")); v.push_back(pth("i")); v.push_back(pth("o")); break; case 2: v.push_back(pth("d")); v.push_back(pth("nofile")); v.push_back(pth("o")); break; case 3: v.push_back("-i"); v.push_back(pth("nofile")); v.push_back(pth("d")); v.push_back(pth("i")); v.push_back(pth("o")); break; case 5: case 6: hx_file_put("x",k==5?"<?xml version=\"1.0\"?>\n<ignored-chars><char value=\"\"/></ignored-chars>\n":"<?xml version=\"1.0\"?>\n<restore-chars><char value=\"a\"><restore-char/></char></restore-chars>\n"); v.push_back(k==5?"-i":"-r"); v.push_back(pth("x")); v.push_back(pth("d")); v.push_back(pth("i")); v.push_back(pth("o")); break; case 4: v.push_back(pth("d")); v.push_back(pth("i")); v.push_back(pth("o")); v.push_back("x"); break; } sx_reach(0); run_main(lt_proc_main,v); CHECK(false,"a missing file or a superfluous argument was accepted"); }
