// Binary number and string codecs (compression.cc, serialiser.h, deserialiser.h)
#include "hx.h"
#include <lttoolbox/compression.h>
#include <lttoolbox/serialiser.h>
#include <lttoolbox/deserialiser.h>
#include <sstream>
#include <cmath>

static std::string enc(unsigned v) { HxOut o; Compression::multibyte_write(v,o.f); return o.done(); }
static std::string encs(unsigned v) { std::ostringstream o; Compression::multibyte_write(v,o); return o.str(); }
// every value below 2^30: FILE and stream encoders agree, decode returns it and consumes exactly its bytes
HARNESS(h_varint_roundtrip) {
  unsigned v=sx_u32("v"), w=sx_u32("w"); sx_assume(v<0x40000000u); sx_assume(w<0x40u);
  std::string a=enc(v), b=encs(v);
  CHECK(a==b,"the FILE and stream encoders write different bytes");
  CHECK(a.size()>=1 && a.size()<=4,"encoding is longer than four bytes");
  CHECK(((unsigned char)a[0]>>6)==a.size()-1,"length tag does not announce the number of bytes");
  a+=enc(w);
  FILE* f=hx_reader(a); CHECK(Compression::multibyte_read(f)==v,"FILE decode(encode(v)) != v"); CHECK(Compression::multibyte_read(f)==w,"FILE decoder consumed the wrong number of bytes"); fclose(f);
  std::istringstream s(a); CHECK(Compression::multibyte_read(s)==v,"stream decode(encode(v)) != v"); CHECK(Compression::multibyte_read(s)==w,"stream decoder consumed the wrong number of bytes");
  sx_reach(0); if (v>=0x400000) sx_reach(1); if (v<64) sx_reach(2);
}
// injective and prefix-free: different values have different encodings, none a prefix of the other
HARNESS(h_varint_prefix_free) {
  unsigned v=sx_u32("v"), w=sx_u32("w"); sx_assume(v<0x40000000u && w<0x40000000u && v!=w);
  std::string a=enc(v), b=enc(w); size_t n=a.size()<b.size()?a.size():b.size();
  CHECK(a.compare(0,n,b,0,n)!=0,"two values share an encoding prefix"); sx_reach(0);
}
// a value that does not fit is refused, never written truncated
HARNESS(h_varint_range) {
  unsigned v=sx_u32("v"); sx_assume(v>=0x40000000u); bool st=sx_below("stream",2);
  HxOut o; std::ostringstream s; sx_exit_policy(1); sx_reach(0);
  if (st) Compression::multibyte_write(v,s); else Compression::multibyte_write(v,o.f);
  CHECK(false,"a value of 2^30 or more was written instead of being refused");
}
// any byte sequence decodes to some value that re-encodes to at most as many bytes (canonical form is the shortest)
HARNESS(h_varint_decode_total) {
  std::string a; for (int i=0;i<4;i++) a+=(char)sx_u8("byte");
  FILE* f=hx_reader(a); unsigned v=Compression::multibyte_read(f); long used=ftell(f); fclose(f);
  CHECK(v<0x40000000u,"decoder produced a value of 2^30 or more");
  CHECK(used==((unsigned char)a[0]>>6)+1,"decoder consumed a number of bytes different from the length tag");
  std::istringstream s(a); CHECK(Compression::multibyte_read(s)==v,"FILE and stream decoders disagree");
  CHECK((long)enc(v).size()<=used,"re-encoding is longer than the input"); sx_reach(0);
}
static double rt(double d) { HxOut o; Compression::long_multibyte_write(d,o.f); std::string a=o.done(); std::ostringstream os; Compression::long_multibyte_write(d,os); CHECK(a==os.str(),"weight FILE and stream encoders differ");
  a+='\x07'; FILE* f=hx_reader(a); double r=Compression::long_multibyte_read(f); CHECK(Compression::multibyte_read(f)==7,"weight decoder consumed the wrong number of bytes"); fclose(f);
  std::istringstream is(a); double r2=Compression::long_multibyte_read(is); uint64_t x,y; memcpy(&x,&r,8); memcpy(&y,&r2,8); CHECK(x==y,"weight FILE and stream decoders differ"); return r; }
static double mk(uint64_t b) { double d; memcpy(&d,&b,8); return d; } static uint64_t bits(double d) { uint64_t b; memcpy(&b,&d,8); return b; }
// every weight with at most 29 fractional mantissa bits is preserved exactly, at every normal exponent
HARNESS(h_weight_exact) {
  uint64_t m=sx_u32("mantissa"), e=sx_u16("exponent"), s=sx_below("sign",2); sx_assume(m<(1u<<29)); sx_assume(e>=1 && e<=2046);
  uint64_t b=(s<<63)|(e<<52)|(m<<23); CHECK(bits(rt(mk(b)))==b,"a 30-bit weight did not survive the round trip"); sx_reach(0);
}
// every other finite normal weight keeps sign and exponent and loses only the bits below the 30 kept (truncation toward zero)
HARNESS(h_weight_truncates) {
  uint64_t m=sx_u64("mantissa"), e=sx_u16("exponent"), s=sx_below("sign",2); sx_assume(m<(1ull<<52)); sx_assume(e>=1 && e<=2046);
  uint64_t b=(s<<63)|(e<<52)|m; CHECK(bits(rt(mk(b)))==(b&~((1ull<<23)-1)),"a weight changed by more than the dropped low bits"); sx_reach(0);
}
HARNESS(h_weight_special) {
  CHECK(rt(0.0)==0.0,"zero weight changed"); double i=INFINITY; CHECK(rt(i)==i,"+inf weight changed"); CHECK(rt(-i)==-i,"-inf weight changed"); CHECK(rt(1.0)==1.0 && rt(-2.5)==-2.5 && rt(4.567895)!=0,"weight changed"); sx_reach(0);
}
// strings: every sequence of UTF-16 text (any code points, surrogate pairs included) survives
static UString symText(const char* nm, unsigned maxn) { unsigned n=hx_pick("len",maxn+1); UString u; for (unsigned i=0;i<n;i++) { uint32_t c=sx_u32(nm); sx_assume(c<0x110000 && !(c>=0xD800&&c<0xE000)); if (c<0x10000) u+=(UChar)c; else { u+=(UChar)(0xD7C0+(c>>10)); u+=(UChar)(0xDC00+(c&0x3ff)); sx_reach(1); } } return u; }
HARNESS(h_string_roundtrip) {
  UString u=symText("cp",Q(2,3)); HxOut o; Compression::string_write(u,o.f); std::string a=o.done()+"\x05"; FILE* f=hx_reader(a);
  UString r=Compression::string_read(f); CHECK(r==u,"a string changed in a write/read round trip"); CHECK(Compression::multibyte_read(f)==5,"string reader consumed the wrong number of bytes"); fclose(f); sx_reach(0);
}
// long strings: the length itself takes one, two or more bytes
HARNESS(h_string_long) {
  static const unsigned N[]={62,63,64,65,127,128,255,256,300,1000}; unsigned n=N[hx_pick("n",10)], p=hx_pick("pos",2)?n-1:0; UString u; for (unsigned i=0;i<n;i++) u+=(UChar)('a'+i%26); UChar c=(UChar)sx_u16("c"); sx_assume(!(c>=0xD800&&c<0xE000)); u[p]=c;
  HxOut o; Compression::string_write(u,o.f); std::string a=o.done()+"\x05"; FILE* f=hx_reader(a); UString r=Compression::string_read(f); CHECK(r==u,"a long string changed in a write/read round trip"); CHECK(Compression::multibyte_read(f)==5,"string reader consumed the wrong number of bytes"); fclose(f); sx_reach(0);
}
