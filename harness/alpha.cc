// Alphabet (symbol table) and the stream serialisation of containers
#include "hx.h"
#include <lttoolbox/alphabet.h>
#include <lttoolbox/serialiser.h>
#include <lttoolbox/deserialiser.h>
#include <sstream>
#include <limits>
template<class T> static T rts(const T& v, unsigned char tail=0x2a) { std::stringstream s; serialise(v,s); s.put((char)tail); T r=Deserialiser<T>::deserialise(s); CHECK((unsigned char)s.get()==tail,"deserialiser consumed the wrong number of bytes"); return r; }
HARNESS(h_ser_u64) { uint64_t v=sx_u64("v"); CHECK(rts<uint64_t>(v)==v,"uint64 round trip"); int64_t w=(int64_t)v; CHECK(rts<int64_t>(w)==w,"int64 round trip"); sx_reach(0); }
HARNESS(h_ser_u32) { uint32_t v=sx_u32("v"); CHECK(rts<uint32_t>(v)==v,"uint32 round trip"); int32_t w=(int32_t)v; CHECK(rts<int32_t>(w)==w,"int32 round trip"); sx_reach(0); }
HARNESS(h_ser_small) { char c=(char)sx_u8("c"); CHECK(rts<char>(c)==c,"char round trip"); UChar u=(UChar)sx_u16("u"); CHECK(rts<UChar>(u)==u,"UChar round trip"); sx_reach(0); }
HARNESS(h_ser_double) { uint64_t b=sx_u64("bits"); double d; memcpy(&d,&b,8); double r=rts<double>(d); uint64_t c; memcpy(&c,&r,8); CHECK(c==b,"double round trip"); sx_reach(0); }
HARNESS(h_ser_containers) {
  UString s; unsigned n=hx_pick("n",Q(3,4)); for (unsigned i=0;i<n;i++) s+=(UChar)sx_u16("u"); CHECK(rts<UString>(s)==s,"string round trip");
  std::string t; for (unsigned i=0;i<n;i++) t+=(char)sx_u8("c"); CHECK(rts<std::string>(t)==t,"byte string round trip");
  std::vector<std::pair<int32_t,int32_t>> v; for (unsigned i=0;i<n;i++) v.push_back({(int32_t)sx_u32("a"),(int32_t)sx_u32("b")}); CHECK((rts<std::vector<std::pair<int32_t,int32_t>>>(v)==v),"vector of pairs round trip");
  std::vector<UString> w; w.push_back(s); w.push_back(UString()); CHECK(rts<std::vector<UString>>(w)==w,"vector of strings round trip"); sx_reach(0);
}
HARNESS(h_ser_map) {
  std::map<int32_t,double> m; std::set<int32_t> st; std::multimap<int32_t,std::pair<int32_t,double>> mm;
  for (int i=0;i<Q(2,3);i++) { int32_t k=(int32_t)sx_u32("k"); m[k]=i+0.5; st.insert(k); mm.insert({k,{i,1.5*i}}); }
  CHECK((rts<std::map<int32_t,double>>(m)==m),"map round trip"); CHECK((rts<std::set<int32_t>>(st)==st),"set round trip"); CHECK((rts<std::multimap<int32_t,std::pair<int32_t,double>>>(mm)==mm),"multimap round trip"); sx_reach(0);
}
HARNESS(h_deser_truncated) { // truncated input is reported, never accepted
  uint64_t v=sx_u64("v"); std::stringstream s; serialise(v,s); std::string a=s.str(); unsigned cut=hx_pick("cut",9); sx_assume(cut<a.size()); std::stringstream t(a.substr(0,cut));
  bool ok=hx_try([&]{ Deserialiser<uint64_t>::deserialise(t); }); CHECK(!ok,"a truncated value was accepted"); sx_reach(0);
}
// ---- alphabet
static UString tagOf(unsigned maxn) { UString t; t+=u'<'; unsigned n=1+hx_pick("taglen",maxn); for (unsigned i=0;i<n;i++) { UChar c=(UChar)sx_u16("tagch"); sx_assume(c!=0 && !(c>=0xD800&&c<0xE000) && c!='<' && c!='>' && c!='\\'); t+=c; } t+=u'>'; return t; }
static UString symstr(const Alphabet& a, int32_t s) { UString r; a.getSymbol(r,s); return r; }
// interning: equal strings get one code, different strings different codes, codes are negative and map back
HARNESS(h_alpha_symbols) {
  Alphabet a; std::vector<UString> t; std::vector<int32_t> c; int n=Q(3,4);
  for (int i=0;i<n;i++) { t.push_back(tagOf(i?1:2)); a.includeSymbol(t[i]); c.push_back(a(t[i])); CHECK(c[i]<0,"a tag code is not negative"); CHECK(a.isTag(c[i]),"isTag"); }
  int distinct=0;
  for (int i=0;i<n;i++) { bool first=true; for (int j=0;j<n;j++) { CHECK((c[i]==c[j])==(t[i]==t[j]),"symbol codes are not a bijection with the symbol strings"); if (j<i && t[i]==t[j]) first=false; } distinct+=first;
    CHECK(a(t[i])==c[i],"a symbol's code changed after later insertions"); CHECK(symstr(a,c[i])==t[i],"a code does not map back to its string"); CHECK(a.isSymbolDefined(t[i]),"isSymbolDefined"); const Alphabet& ca=a; CHECK(ca(t[i])==c[i],"const lookup differs"); }
  CHECK(a.size()==distinct,"alphabet size differs from the number of distinct symbols");
  UString u=tagOf(1); bool in=false; for (auto& x : t) in|=x==u; CHECK(a.isSymbolDefined(u)==in,"isSymbolDefined on an arbitrary symbol"); sx_reach(0);
}
// pairs: equal pairs share a code, different pairs differ, decode inverts, (0,0) is code 0
HARNESS(h_alpha_pairs) {
  Alphabet a; int n=Q(3,4); std::vector<std::pair<int32_t,int32_t>> p; std::vector<int32_t> c; CHECK(a(0,0)==0,"the empty pair is not code 0");
  for (int i=0;i<n;i++) { p.push_back({(int32_t)sx_u32("l"),(int32_t)sx_u32("r")}); c.push_back(a(p[i].first,p[i].second)); CHECK(c[i]>=0,"negative pair code"); }
  for (int i=0;i<n;i++) { CHECK(a.decode(c[i])==p[i],"decode(code(l,r)) != (l,r)"); CHECK(a(p[i].first,p[i].second)==c[i],"pair code not stable"); for (int j=0;j<n;j++) CHECK((c[i]==c[j])==(p[i]==p[j]),"pair codes are not a bijection"); }
  CHECK(a.decode(0)==(std::pair<int32_t,int32_t>(0,0)),"decode(0)"); sx_reach(0);
  int32_t l=(int32_t)sx_u32("probe"); auto w=a.symbolsWhereLeftIs(l); for (int i=0;i<n;i++) CHECK((w.count(c[i])>0)==(p[i].first==l),"symbolsWhereLeftIs"); CHECK((w.count(0)>0)==(l==0),"symbolsWhereLeftIs epsilon");
}
// saved and reloaded (binary file or stream): same symbols, same codes, same pairs; and it stays usable for growth
static void same(Alphabet& a, Alphabet& b, std::vector<UString>& t, std::vector<std::pair<int32_t,int32_t>>& p) {
  CHECK(a.size()==b.size(),"number of symbols changed"); for (auto& x : t) { CHECK(a(x)==b(x),"a symbol's code changed"); CHECK(symstr(b,b(x))==x,"a symbol's string changed"); }
  for (auto& q : p) CHECK(b(q.first,q.second)==a(q.first,q.second),"a pair's code changed");
  for (auto& q : p) CHECK(b.decode(a(q.first,q.second))==q,"a pair code decodes differently");
}
static void fileRt(bool stream) {
  Alphabet a; std::vector<UString> t; std::vector<std::pair<int32_t,int32_t>> p; unsigned nt=hx_pick("ntags",3), np=hx_pick("npairs",3); if (!TIER) sx_assume(nt+np<=3);
  for (unsigned i=0;i<nt;i++) { t.push_back(tagOf(1)); a.includeSymbol(t.back()); }
  for (unsigned i=0;i<np;i++) { static const uint32_t RT[]={0,0x10ffff,'a',0xffffffffu}; int32_t l=(int32_t)sx_u32("l"), r=(int32_t)RT[hx_pick("r",nt?4:3)]; sx_assume(l>=-a.size() && l<0x110000); p.push_back({l,r}); a(l,r); }
  Alphabet b; UString junk=hx_u("<junk>"); b.includeSymbol(junk); b(7,7);
  if (stream) { std::stringstream s; a.serialise(s); s.put('z'); b.deserialise(s); CHECK(s.get()=='z',"alphabet deserialiser consumed the wrong number of bytes"); }
  else { HxOut o; a.write(o.f); std::string d=o.done()+"z"; FILE* f=hx_reader(d); b.read(f); CHECK(fgetc(f)=='z',"alphabet reader consumed the wrong number of bytes"); fclose(f); }
  same(a,b,t,p); UString extra=hx_u("<new>"); bool had=a.isSymbolDefined(extra); a.includeSymbol(extra); b.includeSymbol(extra); CHECK(a(extra)==b(extra),"growth after reload diverges"); CHECK(a(0x10ffff,'q')==b(0x10ffff,'q'),"pair growth after reload diverges");
  Alphabet c2(b), d2; d2=b; same(a,c2,t,p); same(a,d2,t,p); sx_reach(0); if (np>nt) sx_reach(1); (void)had;
}
HARNESS(h_alpha_file) { fileRt(false); }
HARNESS(h_alpha_stream) { fileRt(true); }
// copying a symbol from one alphabet into another keeps its meaning; sameSymbol is string identity
HARNESS(h_alpha_same) {
  Alphabet a,b; UString t[2], u[2]; for (int i=0;i<2;i++) { t[i]=tagOf(1); a.includeSymbol(t[i]); } for (int i=0;i<2;i++) { u[i]=tagOf(1); b.includeSymbol(u[i]); }
  for (int i=0;i<2;i++) for (int j=0;j<2;j++) CHECK(a.sameSymbol(a(t[i]),b,b(u[j]),false)==(t[i]==u[j]),"sameSymbol on tags is not string identity");
  int32_t x=(int32_t)(sx_u32("x")&0x1fffff), y=(int32_t)(sx_u32("y")&0x1fffff); CHECK(a.sameSymbol(x,b,y,false)==(x==y),"sameSymbol on letters"); CHECK(!a.sameSymbol(x,b,b(u[0]),false) && !a.sameSymbol(a(t[0]),b,y,false),"a letter equals a tag");
  std::set<int32_t> loop; b(b(u[0]),'k'); Alphabet c; c.createLoopbackSymbols(loop,b,Alphabet::left,true); CHECK(c.isSymbolDefined(u[0]),"createLoopbackSymbols lost a tag"); CHECK(loop.count(c(c(u[0]),c(u[0])))==1,"loopback pair missing"); CHECK((u[0]==u[1])||!c.isSymbolDefined(u[1]),"createLoopbackSymbols invented a tag that is not used on that side"); sx_reach(0);
}
// ---- wildcards stand for every tag or every character of the other alphabet, whichever side they are on, and only when asked for; loops for the tags of the right side
HARNESS(h_alpha_any) { Alphabet a,b; bool first=hx_pick("first",2); UString t=tagOf(1), u=tagOf(1); if (first) { a.includeSymbol(u"<ANY_TAG>"); a.includeSymbol(u"<ANY_CHAR>"); } a.includeSymbol(t); if (!first) { a.includeSymbol(u"<ANY_CHAR>"); a.includeSymbol(u"<ANY_TAG>"); } b.includeSymbol(u); int32_t x=1+(int32_t)(sx_u32("x")%0x10ffff);
  int32_t at=a(u"<ANY_TAG>"), ac=a(u"<ANY_CHAR>"), bu=b(u); for (int on=0;on<2;on++) { CHECK(a.sameSymbol(at,b,bu,on)==(bool)on && b.sameSymbol(bu,a,at,on)==(bool)on,"the wildcard for tags does not stand for exactly the tags"); CHECK(a.sameSymbol(ac,b,x,on)==(bool)on && b.sameSymbol(x,a,ac,on)==(bool)on,"the wildcard for characters does not stand for exactly the characters"); CHECK(!a.sameSymbol(at,b,x,on) && !b.sameSymbol(x,a,at,on) && !a.sameSymbol(ac,b,bu,on) && !b.sameSymbol(bu,a,ac,on),"a wildcard stands for more than it names"); CHECK(a.sameSymbol(a(t),b,bu,on)==(t==u),"two tags"); }
  Alphabet d; d.includeSymbol(t); d.includeSymbol(u); d(d(t),d(u)); if (hx_pick("more",2)) d('k',d(t)); std::set<int32_t> loop; Alphabet c; c.createLoopbackSymbols(loop,d,Alphabet::right); CHECK(c.isSymbolDefined(u) && loop.count(c(c(u),c(u)))==1,"a tag of the right side is missing among the loops"); sx_reach(0); }
// writing a symbol prints its UTF-8 form; upper-casing only affects letters
HARNESS(h_alpha_write) {
  Alphabet a; UString t=tagOf(Q(1,2)); a.includeSymbol(t); int32_t c=(int32_t)sx_u32("c"); sx_assume(c>0 && c<0x110000 && !(c>=0xD800&&c<0xE000));
  HxUOut o; a.writeSymbol(a(t),o.u); a.writeSymbol(c,o.u); std::string s=o.done(); UString r; a.getSymbol(r,a(t)); a.getSymbol(r,c); UString back=to_ustring(s.c_str()); CHECK(back==r,"writeSymbol and getSymbol disagree"); sx_reach(0); if (c>0xffff) sx_reach(1);
}
HARNESS(h_alpha_tokenize) { // every symbol of a string is tokenised to its own code
  Alphabet a; UString t=hx_u("<n>"), t2=hx_u("<sg>"); a.includeSymbol(t2); a.includeSymbol(t); UString s; std::vector<int32_t> want; int n=Q(2,3);
  for (int i=0;i<n;i++) { switch (hx_pick("kind",3)) { case 0: s+=t; want.push_back(a(t)); break; case 1: s+=t2; want.push_back(a(t2)); break; default: { int32_t c=(int32_t)sx_u32("c"); sx_assume(c>0 && c<0x110000 && !(c>=0xD800&&c<0xE000) && c!='<' && c!='\\'); s+=(UChar32)c; want.push_back(c); if (c>0xffff) sx_reach(1); } } }
  CHECK(a.tokenize(s)==want,"tokenize changes a symbol"); sx_reach(0);
}
static const unsigned BIG[]={63,64,127,128,129,255,256,257,300};
HARNESS(h_ser_sizes) { unsigned n=BIG[hx_pick("n",9)]; UChar c=(UChar)sx_u16("c"); UString s(n,u'x'); s[n-1]=c; CHECK(rts<UString>(s)==s,"long string round trip"); std::string t(n,'y'); t[0]=(char)c; CHECK(rts<std::string>(t)==t,"long byte string round trip"); std::vector<int32_t> v(n,7); v[n/2]=(int32_t)sx_u32("v"); CHECK(rts<std::vector<int32_t>>(v)==v,"long vector round trip"); std::map<int32_t,int32_t> m; for (unsigned i=0;i<n;i++) m[(int)i-100]=(int)i; m[5]=(int32_t)c; CHECK((rts<std::map<int32_t,int32_t>>(m)==m),"large map round trip"); sx_reach(0); }
// alphabets with many symbols and pairs
HARNESS(h_alpha_big) { unsigned n=BIG[hx_pick("n",Q(8,9))]; bool st=hx_pick("stream",2); Alphabet a,b; std::vector<UString> t; std::vector<int32_t> pr; for (unsigned i=0;i<n;i++) { UString x=u"<t"; x+=to_ustring(std::to_string(i).c_str()); x+=u'>'; t.push_back(x); a.includeSymbol(x); } int32_t c=(int32_t)(sx_u32("c")&0xfffff); sx_assume(c>=0x400 && c<0x10000); for (unsigned i=0;i<n;i++) pr.push_back(a((int32_t)('a'+i),i%3?a(t[i]):0)); int32_t pc=a(c,a(t[n-1]));
  if (st) { std::stringstream s; a.serialise(s); b.deserialise(s); } else { HxOut o; a.write(o.f); FILE* f=hx_reader(o.done()); b.read(f); fclose(f); }
  bool ok=b.size()==a.size(); for (unsigned i=0;i<n;i++) { ok=ok && b.isSymbolDefined(t[i]) && b(t[i])==a(t[i]) && symstr(b,a(t[i]))==t[i]; auto d=b.decode(pr[i]); ok=ok && d.first==(int32_t)('a'+i) && d.second==(i%3?a(t[i]):0); } CHECK(ok,"a large alphabet changes when it is saved and loaded"); auto d=b.decode(pc); CHECK(d.first==c && d.second==a(t[n-1]),"a pair of a large alphabet changes"); CHECK(b(c,a(t[n-1]))==pc,"a pair of a large alphabet is not found"); sx_reach(0); }
