// Pattern lists: words (lemma and tags, joined with +, with a queue) are classified by the first pattern that matches
#include "proc.h"
#include <lttoolbox/pattern_list.h>
#include <lttoolbox/match_exe.h>
#include <lttoolbox/match_state.h>
#include <sstream>
#include <algorithm>
// symbols of words and patterns in the reference: letters >0, tags <0 (-1..), special pattern items
static UString u16_of(const char* s) { UString r; for (;*s;s++) r+=(UChar)(unsigned char)*s; return r; }
enum { ANYC=-100, ANYT=-101, QUEUE=-102 };
static const char* const PTAGN[]={"","n","vb","x12"};
typedef std::vector<int> Seq;
// does the word from i match the pattern from j
static bool letter(int c) { return c>0 && c!='+'; }
static bool fits(const Seq& p, size_t j, const Seq& w, size_t i) { if (j==p.size()) return i==w.size(); switch (p[j]) {
  case ANYC: case ANYT: for (size_t k=i;k<w.size() && (p[j]==ANYC?letter(w[k]):w[k]<0);k++) if (fits(p,j+1,w,k+1)) return true; return false;
  case QUEUE: if (fits(p,j+1,w,i)) return true; if (i<w.size() && (w[i]==' ' || w[i]=='#' || w[i]=='_')) { for (size_t k=i+1;;k++) { if (fits(p,j+1,w,k)) return true; if (k>=w.size() || !letter(w[k])) break; } } return false;
  default: return i<w.size() && w[i]==p[j] && fits(p,j+1,w,i+1); } }
struct It { const char* lem; const char* tags; };
static Seq item(const It& t) { Seq s; if (!*t.lem) s.push_back(ANYC); for (const char* p=t.lem;*p;p++) s.push_back(*p=='*'?ANYC:*p); if (!*t.tags) s.push_back(ANYT); else { std::string g; for (const char* p=t.tags;;p++) { if (*p=='.' || !*p) { if (g=="*") s.push_back(ANYT); else for (int k=1;k<4;k++) if (g==PTAGN[k]) s.push_back(-k); g.clear(); if (!*p) break; } else g+=*p; } } return s; }
static const It ITEMS[]={{"","n"},{"a","n"},{"","vb"},{"a*",""},{"a","n.*"},{"ab","n.vb"},{"*b","*.vb"},{"a*b","*"},{"a","*.n.vb"},{"",""},{"a","vb.*"},{"a","x12.vb.n.vb"},{"","n.x12.*.n"}};
static const unsigned NI=sizeof ITEMS/sizeof *ITEMS;
static void ins(PatternList& pl, int id, const It& t) { pl.insert(id,u16_of(t.lem),u16_of(t.tags)); }
// a word from the stream is read one symbol at a time, as the tagger and the transfer modules do
static int code(Alphabet& al, int c);
static int classify(PatternList& pl, MatchExe& me, const Seq& w) { Alphabet& al=pl.getAlphabet(); int ac=al(PatternList::ANY_CHAR), at=al(PatternList::ANY_TAG); MatchState ms; ms.init(me.getInitial()); for (int c : w) { if (c=='+') ms.step('+'); else if (c>0) ms.step(c,ac); else ms.step(code(al,c),at); } return ms.classifyFinals(me.getFinals()); }
static int tagc(unsigned n) { static const uint32_t T[]={(uint32_t)-1,(uint32_t)-2,(uint32_t)-3}; return (int)hx_char("t",T,n); }
// the code of a tag that may be any of the three
static int code(Alphabet& al, int c) { uint32_t T[3]; for (int k=1;k<4;k++) { UString t=u"<"; t+=u16_of(PTAGN[k]); t+=u">"; T[k-1]=(uint32_t)(al.isSymbolDefined(t)?al(t):al(PatternList::ANY_TAG)); } return (int)sx_table((uint32_t)(-1-c),T,3); }
static Seq word(bool plus, bool queue, unsigned ml=3, unsigned mt=5) { static const uint32_t TW[]={'a','b','c'}; Seq w; unsigned n=1+hx_pick("len",ml); for (unsigned i=0;i<n;i++) w.push_back((int)hx_char("c",TW,3)); for (unsigned i=hx_pick("tags",mt);i>0;i--) w.push_back(tagc(3)); if (queue) { unsigned q=hx_pick("q",4); if (q) { w.push_back(" #_"[q-1]); for (unsigned i=hx_pick("ql",3);i>0;i--) w.push_back((int)hx_char("qc",TW,2)); } } if (plus && hx_pick("plus",2)) { w.push_back('+'); unsigned m=1+hx_pick("len2",2); for (unsigned i=0;i<m;i++) w.push_back(i?(int)'b':(int)hx_char("c",TW,2)); for (unsigned i=hx_pick("tags2",3);i>0;i--) w.push_back(tagc(2)); if (queue && hx_pick("q2",2)) { w.push_back(' '); w.push_back('c'); } } return w; }
typedef std::vector<std::pair<int,Seq>> Pats;
static int ref(const Pats& P, const Seq& w) { int r=-1; for (auto& p : P) if (fits(p.second,0,w,0) && (r<0 || p.first<r)) r=p.first; return r; }
static void judge(PatternList& pl, const Pats& P, const Seq& w) { MatchExe* me=pl.newMatchExe(); int got=classify(pl,*me,w), exp=ref(P,w); delete me; CHECK(got==exp,"a word is not given the first pattern that matches it"); if (exp<0) sx_reach(1); else sx_reach(0); }
static Seq q(Seq s) { s.push_back(QUEUE); return s; }
static Seq join(Seq a, const Seq& b) { a.push_back('+'); a.insert(a.end(),b.begin(),b.end()); return a; }
HARNESS(h_pat) { PatternList pl; Pats P; for (int k=0;k<2;k++) { const It& t=ITEMS[hx_pick("p",NI)]; int id=k?1+2*hx_pick("id",2):2; ins(pl,id,t); P.push_back({id,q(item(t))}); } pl.buildTransducer(); judge(pl,P,word(false,false)); }
HARNESS(h_pat_queue) { PatternList pl; Pats P; for (int k=0;k<2;k++) { const It& t=ITEMS[hx_pick("p",5)]; ins(pl,k+1,t); P.push_back({k+1,q(item(t))}); } pl.buildTransducer(); judge(pl,P,word(false,true)); }
// sequences of items, of labels, and of both
HARNESS(h_pat_seq) { PatternList pl; Pats P; unsigned m=hx_pick("mode",4); const It& a=ITEMS[hx_pick("a",4)]; const It& b=ITEMS[hx_pick("b",3)]; int next=1; Pats L; auto lab=[&](const It& t){ ins(pl,next,t); P.push_back({next,q(item(t))}); L.push_back(P.back()); return next++; };
  if (m==0) { pl.beginSequence(); ins(pl,next,a); ins(pl,next,b); pl.endSequence(); P.push_back({next,q(join(item(a),item(b)))}); }
  else { int la=lab(a), lb=m==1?lab(b):la; if (m==3) { ins(pl,la,b); P.push_back({la,q(item(b))}); } pl.beginSequence(); if (m==2) { ins(pl,next,b); pl.insert(next,la); P.push_back({next,q(join(item(b),q(item(a))))}); } else { pl.insert(next,la); pl.insert(next,lb); Pats N; for (auto& x : P) if (x.first==la) for (auto& y : P) if (y.first==lb) N.push_back({next,q(join(x.second,y.second))}); P.insert(P.end(),N.begin(),N.end()); } pl.endSequence(); }
  pl.buildTransducer(); judge(pl,P,word(true,m!=0,Q(1,2),Q(2,3))); }
HARNESS(h_pat_mixed) { PatternList pl; Pats P; static const unsigned AI[]={0,1,9,4}; const It& a=ITEMS[AI[hx_pick("a",4)]]; const It& b=ITEMS[hx_pick("b",3)]; unsigned first=hx_pick("first",2); ins(pl,1,a); P.push_back({1,q(item(a))}); ins(pl,2,b); P.push_back({2,q(item(b))}); for (int k=0;k<2;k++) { int id=3+k; pl.beginSequence(); if ((unsigned)k==first) { ins(pl,id,a); ins(pl,id,b); P.push_back({id,q(join(item(a),item(b)))}); } else { pl.insert(id,1); pl.insert(id,2); P.push_back({id,q(join(q(item(a)),q(item(b))))}); } pl.endSequence(); } pl.buildTransducer(); judge(pl,P,word(true,true,1,Q(2,3))); }
// saved and loaded again, and copied
HARNESS(h_pat_file) { PatternList pl; Pats P; const It& a=ITEMS[hx_pick("a",NI)]; const It& b=ITEMS[hx_pick("b",4)]; ins(pl,1,a); P.push_back({1,q(item(a))}); pl.beginSequence(); ins(pl,5,b); ins(pl,5,a); pl.endSequence(); P.push_back({5,q(join(item(b),item(a)))}); pl.buildTransducer(); unsigned how=hx_pick("how",3); PatternList r;
  if (how==0) { FILE* f=fopen(hx_path("f"),"wb"); pl.write(f); fputc('!',f); fclose(f); f=fopen(hx_path("f"),"rb"); r.read(f); CHECK(fgetc(f)=='!',"reading a pattern list does not consume exactly its bytes"); fclose(f); }
  else if (how==1) { std::stringstream s; pl.serialise(s); s.put('!'); r.deserialise(s); CHECK(s.get()=='!',"reading a pattern list does not consume exactly its bytes"); } else { PatternList t(pl); r=t; }
  judge(r,P,word(true,false,2,Q(2,3))); }
// the state can be copied in the middle of a word, cleared and used again
HARNESS(h_pat_state) { PatternList pl; Pats P; const It& a=ITEMS[hx_pick("a",NI)]; ins(pl,1,a); P.push_back({1,q(item(a))}); ins(pl,2,ITEMS[0]); P.push_back({2,q(item(ITEMS[0]))}); pl.buildTransducer(); MatchExe* me=pl.newMatchExe(); Alphabet& al=pl.getAlphabet(); int ac=al(PatternList::ANY_CHAR), at=al(PatternList::ANY_TAG); auto step=[&](MatchState& ms, int c){ if (c>0) ms.step(c,ac); else ms.step(code(al,c),at); };
  Seq w=word(false,false), v={'a',-1}; MatchState m; m.init(me->getInitial()); if (hx_pick("used",2)) { for (int c : v) step(m,c); m.clear(); CHECK(m.size()==0,"a cleared state is not empty"); m.init(me->getInitial()); } step(m,w[0]); MatchState c(m), d; d.init(me->getInitial()); d=m; for (size_t i=1;i<w.size();i++) step(c,w[i]); for (size_t i=1;i<v.size();i++) step(m,v[i]); for (size_t i=1;i<w.size();i++) step(d,w[i]); Seq u={w[0],-1}; CHECK(c.classifyFinals(me->getFinals())==ref(P,w),"a copied state does not go on as the original would"); CHECK(d.classifyFinals(me->getFinals())==ref(P,w),"an assigned state does not go on as the original would"); CHECK(m.classifyFinals(me->getFinals())==ref(P,u),"going on with a copy changes the original"); delete me; sx_reach(0); }
// many words in a row with one state: the ring of the state does not leak
HARNESS(h_pat_long) { PatternList pl; Pats P; for (int k=0;k<3;k++) { ins(pl,k+1,ITEMS[k*3]); P.push_back({k+1,q(item(ITEMS[k*3]))}); } pl.buildTransducer(); MatchExe* me=pl.newMatchExe(); Alphabet& al=pl.getAlphabet(); int ac=al(PatternList::ANY_CHAR), at=al(PatternList::ANY_TAG); unsigned n=330+hx_pick("n",20); static const uint32_t TW[]={'a','b'}; Seq w={(int)hx_char("c",TW,2)}; for (unsigned i=0;i<n;i++) w.push_back('a'); w.push_back((int)hx_char("c",TW,2)); w.push_back(tagc(2)); MatchState ms; ms.init(me->getInitial()); for (int c : w) { if (c>0) ms.step(c,ac); else ms.step(code(al,c),at); } CHECK(ms.classifyFinals(me->getFinals())==ref(P,w),"a long word is not given the first pattern that matches it"); delete me; sx_reach(0); }
HARNESS(h_pat_errors) { PatternList pl; sx_exit_policy(1); switch (hx_pick("e",3)) { case 0: pl.beginSequence(); sx_reach(0); pl.beginSequence(); break; case 1: sx_reach(0); pl.endSequence(); break; default: ins(pl,1,ITEMS[0]); sx_reach(0); pl.insert(2,1); break; } CHECK(false,"a misplaced call is accepted"); }
