// Environment model of the C++ stream library (memory-backed, C locale).
#pragma once
#include <stdlib.h>
#include <iosfwd>
#include <string>
#include <string_view>
#include <bits/stl_iterator_base_types.h>
#include <cstdint>
#include <cstddef>
extern "C" int sx_fmt_double(char* buf, int conv, int prec, double d);
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static constexpr fmtflags dec=1, hex=2, oct=4, basefield=7, left=8, right=16, internal=32, adjustfield=56, fixed=64, scientific=128, floatfield=192, boolalpha=256, showbase=512, showpoint=1024, showpos=2048, skipws=4096, unitbuf=8192, uppercase=16384;
  static constexpr iostate goodbit=0, badbit=1, eofbit=2, failbit=4;
  static constexpr openmode in=1, out=2, binary=4, app=8, ate=16, trunc=32;
  static constexpr seekdir beg=0, cur=1, end=2;
  fmtflags fl_=dec|skipws; int prec_=6; int wid_=0;
  struct failure : std::exception {};
  struct Init { Init(){} };
  fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { auto o=fl_; fl_=f; return o; }
  fmtflags setf(fmtflags f) { auto o=fl_; fl_|=f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o=fl_; fl_=(fl_&~m)|(f&m); return o; } void unsetf(fmtflags f) { fl_&=~f; }
  streamsize precision() const { return prec_; } streamsize precision(streamsize p) { auto o=prec_; prec_=p; return o; }
  streamsize width() const { return wid_; } streamsize width(streamsize p) { auto o=wid_; wid_=p; return o; }
  static bool sync_with_stdio(bool=true) { return true; }
};
template<class C, class T> class basic_streambuf {
public:
  std::basic_string<C> b_; size_t r_=0; bool discard_=false;
};
template<class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_streambuf<C,T>* sb_=nullptr; iostate st_=0; C fill_=C(' ');
  basic_streambuf<C,T>* rdbuf() const { return sb_; }
  iostate rdstate() const { return st_; } bool good() const { return st_==0; } bool eof() const { return st_&eofbit; } bool fail() const { return st_&(failbit|badbit); } bool bad() const { return st_&badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  void clear(iostate s=goodbit) { st_=s; } void setstate(iostate s) { st_|=s; }
  C fill() const { return fill_; } C fill(C c) { C o=fill_; fill_=c; return o; }
  void* tie(void*) { return nullptr; }
};
template<class C, class T> class basic_ostream : virtual public basic_ios<C,T> {
public:
  typedef basic_ostream Me;
  explicit basic_ostream(basic_streambuf<C,T>* s) { this->sb_=s; }
  basic_ostream() {}
  virtual ~basic_ostream() {}
  Me& put(C c) { if (this->sb_ && !this->sb_->discard_) this->sb_->b_.push_back(c); return *this; }
  Me& write(const C* p, streamsize n) { if (this->sb_ && !this->sb_->discard_) this->sb_->b_.append(p,n); return *this; }
  Me& flush() { return *this; }
  streampos tellp() { return this->sb_->b_.size(); }
  Me& pad_(const C* p, streamsize n) { int w=this->wid_; this->wid_=0; bool l=(this->fl_&ios_base::left); if (!l) for (;w>n;w--) put(this->fill_); write(p,n); if (l) for (;w>n;w--) put(this->fill_); return *this; }
  Me& unum_(unsigned long long v, bool neg) { C t[70]; int i=70; unsigned base=(this->fl_&ios_base::hex)?16:(this->fl_&ios_base::oct)?8:10; do { unsigned d=v%base; t[--i]=C(d<10?'0'+d:((this->fl_&ios_base::uppercase)?'A':'a')+d-10); v/=base; } while (v); if (neg) t[--i]=C('-'); return pad_(t+i,70-i); }
  Me& num_(long long v) { return v<0 ? unum_(0ull-(unsigned long long)v,true) : unum_(v,false); }
  Me& operator<<(short v) { return num_(v); } Me& operator<<(unsigned short v) { return unum_(v,false); }
  Me& operator<<(int v) { return num_(v); } Me& operator<<(unsigned v) { return unum_(v,false); }
  Me& operator<<(long v) { return num_(v); } Me& operator<<(unsigned long v) { return unum_(v,false); }
  Me& operator<<(long long v) { return num_(v); } Me& operator<<(unsigned long long v) { return unum_(v,false); }
  Me& operator<<(bool v) { if (this->fl_&ios_base::boolalpha) { const C t[]={'t','r','u','e'}, f[]={'f','a','l','s','e'}; return v?pad_(t,4):pad_(f,5); } return num_(v); }
  Me& operator<<(double v) { char b[64]; int n=sx_fmt_double(b,(this->fl_&ios_base::fixed)?'f':'g',this->prec_,v); C t[64]; for (int i=0;i<n;i++) t[i]=b[i]; return pad_(t,n); }
  Me& operator<<(float v) { return *this<<(double)v; }
  Me& operator<<(const void* p) { return unum_((unsigned long long)p,false); }
  Me& operator<<(nullptr_t) { return unum_(0,false); }
  Me& operator<<(basic_streambuf<C,T>* s) { return write(s->b_.data()+s->r_, s->b_.size()-s->r_); }
  Me& operator<<(Me& (*f)(Me&)) { return f(*this); }
  Me& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
};
template<class C, class T> inline basic_ostream<C,T>& __ostream_insert(basic_ostream<C,T>& o, const C* s, streamsize n) { return o.pad_(s,n); }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, char c) { return o.pad_(&c,1); }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, signed char c) { return o<<(char)c; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, unsigned char c) { return o<<(char)c; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, const char* s) { return o.pad_(s,__builtin_strlen(s)); }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, const unsigned char* s) { return o<<(const char*)s; }
template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&, char16_t) = delete;
template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&, char32_t) = delete;
template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&, wchar_t) = delete;
template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&, const char16_t*) = delete;
template<class C, class T> basic_ostream<C,T>& endl(basic_ostream<C,T>& o) { return o.put(C('\n')); }
template<class C, class T> basic_ostream<C,T>& ends(basic_ostream<C,T>& o) { return o.put(C(0)); }
template<class C, class T> basic_ostream<C,T>& flush(basic_ostream<C,T>& o) { return o; }
inline ios_base& dec(ios_base& s) { s.setf(ios_base::dec,ios_base::basefield); return s; }
inline ios_base& hex(ios_base& s) { s.setf(ios_base::hex,ios_base::basefield); return s; }
inline ios_base& oct(ios_base& s) { s.setf(ios_base::oct,ios_base::basefield); return s; }
inline ios_base& fixed(ios_base& s) { s.setf(ios_base::fixed,ios_base::floatfield); return s; }
inline ios_base& scientific(ios_base& s) { s.setf(ios_base::scientific,ios_base::floatfield); return s; }
inline ios_base& left(ios_base& s) { s.setf(ios_base::left,ios_base::adjustfield); return s; }
inline ios_base& right(ios_base& s) { s.setf(ios_base::right,ios_base::adjustfield); return s; }
inline ios_base& boolalpha(ios_base& s) { s.setf(ios_base::boolalpha); return s; }
inline ios_base& noboolalpha(ios_base& s) { s.unsetf(ios_base::boolalpha); return s; }
inline ios_base& skipws(ios_base& s) { s.setf(ios_base::skipws); return s; }
inline ios_base& noskipws(ios_base& s) { s.unsetf(ios_base::skipws); return s; }
inline ios_base& uppercase(ios_base& s) { s.setf(ios_base::uppercase); return s; }
struct sx_setw { int n; }; struct sx_setp { int n; }; struct sx_fill { char c; };
inline sx_setw setw(int n) { return {n}; } inline sx_setp setprecision(int n) { return {n}; } template<class C> inline sx_fill setfill(C c) { return {(char)c}; }
template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o, sx_setw w) { o.wid_=w.n; return o; }
template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o, sx_setp w) { o.prec_=w.n; return o; }
template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o, sx_fill w) { o.fill_=w.c; return o; }
template<class C, class T> class basic_istream : virtual public basic_ios<C,T> {
public:
  typedef basic_istream Me; typedef typename T::int_type int_type; streamsize gc_=0;
  explicit basic_istream(basic_streambuf<C,T>* s) { this->sb_=s; }
  basic_istream() {}
  virtual ~basic_istream() {}
  size_t avail_() const { return this->sb_ ? this->sb_->b_.size()-this->sb_->r_ : 0; }
  streamsize gcount() const { return gc_; }
  int_type peek() { gc_=0; if (!this->good()) return T::eof(); if (!avail_()) { this->st_|=ios_base::eofbit; return T::eof(); } return T::to_int_type(this->sb_->b_[this->sb_->r_]); }
  int_type get() { gc_=0; if (!this->good()) { this->st_|=ios_base::failbit; return T::eof(); } if (!avail_()) { this->st_|=ios_base::eofbit|ios_base::failbit; return T::eof(); } gc_=1; return T::to_int_type(this->sb_->b_[this->sb_->r_++]); }
  Me& get(C& c) { int_type i=get(); if (gc_) c=T::to_char_type(i); return *this; }
  Me& read(C* p, streamsize n) { gc_=0; if (!this->good()) { this->st_|=ios_base::failbit; return *this; } size_t k=avail_(); if ((size_t)n<k) k=n; for (size_t i=0;i<k;i++) p[i]=this->sb_->b_[this->sb_->r_+i]; this->sb_->r_+=k; gc_=k; if ((streamsize)k<n) this->st_|=ios_base::eofbit|ios_base::failbit; return *this; }
  Me& ignore(streamsize n=1, int_type d=T::eof()) { gc_=0; while (n-->0) { if (!avail_()) { this->st_|=ios_base::eofbit; break; } gc_++; if (T::to_int_type(this->sb_->b_[this->sb_->r_++])==d) break; } return *this; }
  Me& unget() { this->st_&=~ios_base::eofbit; if (this->sb_->r_) this->sb_->r_--; else this->st_|=ios_base::badbit; return *this; }
  Me& putback(C) { return unget(); }
  streampos tellg() { return this->fail()? streampos(-1) : streampos(this->sb_->r_); }
  Me& seekg(streampos p) { this->st_&=~ios_base::eofbit; this->sb_->r_=(size_t)(streamoff)p; return *this; }
  void ws_() { while (avail_()) { C c=this->sb_->b_[this->sb_->r_]; if (c==' '||(c>=9&&c<=13)) this->sb_->r_++; else break; } if (!avail_()) this->st_|=ios_base::eofbit; }
  template<class N> Me& rd_(N& v) { if (!this->good()) { this->st_|=ios_base::failbit; return *this; } ws_(); bool neg=false; bool any=false; unsigned long long x=0; size_t& r=this->sb_->r_; auto& b=this->sb_->b_; if (r<b.size()&&(b[r]=='-'||b[r]=='+')) { neg=b[r]=='-'; r++; } while (r<b.size()&&b[r]>='0'&&b[r]<='9') { x=x*10+(b[r]-'0'); r++; any=true; } if (r>=b.size()) this->st_|=ios_base::eofbit; if (!any) { v=0; this->st_|=ios_base::failbit; } else v=(N)(neg?0ull-x:x); return *this; }
  Me& operator>>(short& v) { return rd_(v); } Me& operator>>(unsigned short& v) { return rd_(v); } Me& operator>>(int& v) { return rd_(v); } Me& operator>>(unsigned& v) { return rd_(v); } Me& operator>>(long& v) { return rd_(v); } Me& operator>>(unsigned long& v) { return rd_(v); } Me& operator>>(long long& v) { return rd_(v); } Me& operator>>(unsigned long long& v) { return rd_(v); }
  Me& operator>>(double& v) { if (!this->good()) { this->st_|=ios_base::failbit; return *this; } ws_(); size_t& r=this->sb_->r_; auto& b=this->sb_->b_; char t[64]; int n=0; while (r<b.size()&&n<63) { C c=b[r]; if (!((c>='0'&&c<='9')||((c=='-'||c=='+')&&(n==0||t[n-1]=='e'||t[n-1]=='E'))||c=='.'||((c=='e'||c=='E')&&n>0))) break; t[n++]=(char)c; r++; } t[n]=0; if (r>=b.size()) this->st_|=ios_base::eofbit; char* e; double x=::strtod(t,&e); if (!n||*e) { v=0; this->st_|=ios_base::failbit; } else v=x; return *this; }
  Me& operator>>(float& v) { double d=0; *this>>d; v=(float)d; return *this; }
  Me& operator>>(bool& v) { int d=0; *this>>d; v=d; if (d!=0&&d!=1) { v=true; this->st_|=ios_base::failbit; } return *this; }
  Me& operator>>(Me& (*f)(Me&)) { return f(*this); }
  Me& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
};
template<class C,class T> basic_istream<C,T>& operator>>(basic_istream<C,T>& s, C& c) { if (!s.good()) { s.setstate(ios_base::failbit); return s; } if (s.flags()&ios_base::skipws) s.ws_(); if (!s.avail_()) { s.setstate(ios_base::eofbit|ios_base::failbit); return s; } c=s.sb_->b_[s.sb_->r_++]; return s; }
template<class T,class A> basic_istream<char,T>& operator>>(basic_istream<char,T>& s, basic_string<char,T,A>& o) { typedef char C; o.clear(); if (!s.good()) { s.setstate(ios_base::failbit); return s; } s.ws_(); while (s.avail_()) { C c=s.sb_->b_[s.sb_->r_]; if (c==' '||(c>=9&&c<=13)) break; o.push_back(c); s.sb_->r_++; } if (!s.avail_()) s.setstate(ios_base::eofbit); if (o.empty()) s.setstate(ios_base::failbit); return s; }
template<class T,class A> basic_istream<char,T>& getline(basic_istream<char,T>& s, basic_string<char,T,A>& o, char d) { typedef char C; o.clear(); if (!s.good()) { s.setstate(ios_base::failbit); return s; } bool any=false; for (;;) { if (!s.avail_()) { s.setstate(ios_base::eofbit); break; } any=true; C c=s.sb_->b_[s.sb_->r_++]; if (c==d) return s; o.push_back(c); } if (!any) s.setstate(ios_base::failbit); return s; }
template<class T,class A> basic_istream<char,T>& getline(basic_istream<char,T>& s, basic_string<char,T,A>& o) { return getline(s,o,'\n'); }
template<class C,class T> basic_istream<C,T>& ws(basic_istream<C,T>& s) { s.ws_(); return s; }
template<class C,class T> class basic_iostream : public basic_istream<C,T>, public basic_ostream<C,T> { public: basic_iostream() {} explicit basic_iostream(basic_streambuf<C,T>* s) { this->sb_=s; } };
inline namespace __cxx11 {
template<class C,class T,class A> class basic_stringbuf : public basic_streambuf<C,T> { public: basic_string<C,T,A> str() const { return this->b_; } void str(const basic_string<C,T,A>& s) { this->b_=s; this->r_=0; } };
#define SX_SS(NAME,BASE) template<class C,class T,class A> class NAME : public BASE<C,T> { public: basic_stringbuf<C,T,A> buf_; \
  NAME() { this->sb_=&buf_; } explicit NAME(ios_base::openmode) { this->sb_=&buf_; } explicit NAME(const basic_string<C,T,A>& s, ios_base::openmode=3) { this->sb_=&buf_; buf_.str(s); } NAME(const NAME&)=delete; \
  basic_string<C,T,A> str() const { return buf_.b_; } void str(const basic_string<C,T,A>& s) { buf_.str(s); } basic_string_view<C,T> view() const { return buf_.b_; } basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&buf_); } };
SX_SS(basic_stringstream,basic_iostream) SX_SS(basic_ostringstream,basic_ostream) SX_SS(basic_istringstream,basic_istream)
}
// files: backed by the in-memory file system of the runtime model
bool sx_file_load(const char* name, std::string& out);
void sx_file_save(const char* name, const std::string& data);
#define SX_FS(NAME,BASE,MODE) template<class C,class T> class NAME : public BASE<C,T> { public: basic_streambuf<C,T> buf_; std::string nm_; bool open_=false, wr_=false; \
  NAME() { this->sb_=&buf_; } explicit NAME(const char* n, ios_base::openmode m=MODE) { this->sb_=&buf_; open(n,m); } explicit NAME(const std::string& n, ios_base::openmode m=MODE) { this->sb_=&buf_; open(n.c_str(),m); } \
  void open(const std::string& n, ios_base::openmode m=MODE) { open(n.c_str(),m); } \
  void open(const char* n, ios_base::openmode m=MODE) { if ((MODE)!=(ios_base::in|ios_base::out)) m|=(MODE); nm_=n; wr_=m&ios_base::out; buf_.r_=0; if ((m&ios_base::in)||(m&ios_base::app)) { open_=sx_file_load(n,buf_.b_); if (m&ios_base::app) open_=true; } else { buf_.b_.clear(); open_=true; } if (!open_) this->setstate(ios_base::failbit); } \
  bool is_open() const { return open_; } void close() { if (open_&&wr_) sx_file_save(nm_.c_str(),buf_.b_); open_=false; } ~NAME() { close(); } };
SX_FS(basic_ifstream,basic_istream,ios_base::in) SX_FS(basic_ofstream,basic_ostream,ios_base::out) SX_FS(basic_fstream,basic_iostream,(ios_base::in|ios_base::out))
template<class C, class T> class istreambuf_iterator { basic_streambuf<C,T>* s_=nullptr; bool end_() const { return !s_ || s_->r_>=s_->b_.size(); } public: typedef input_iterator_tag iterator_category; typedef C value_type; typedef ptrdiff_t difference_type; typedef const C* pointer; typedef C reference; typedef C char_type; typedef T traits_type;
  istreambuf_iterator() {} istreambuf_iterator(basic_istream<C,T>& i) : s_(i.basic_ios<C,T>::rdbuf()) {} istreambuf_iterator(basic_streambuf<C,T>* s) : s_(s) {} C operator*() const { return s_->b_[s_->r_]; } istreambuf_iterator& operator++() { s_->r_++; return *this; } istreambuf_iterator operator++(int) { istreambuf_iterator t=*this; s_->r_++; return t; } bool equal(const istreambuf_iterator& o) const { return end_()==o.end_(); } friend bool operator==(const istreambuf_iterator& a, const istreambuf_iterator& b) { return a.equal(b); } friend bool operator!=(const istreambuf_iterator& a, const istreambuf_iterator& b) { return !a.equal(b); } };
template<class C, class T> class ostreambuf_iterator { basic_streambuf<C,T>* s_; public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference; ostreambuf_iterator(basic_ostream<C,T>& o) : s_(o.basic_ios<C,T>::rdbuf()) {} ostreambuf_iterator& operator=(C c) { s_->b_.push_back(c); return *this; } ostreambuf_iterator& operator*() { return *this; } ostreambuf_iterator& operator++() { return *this; } ostreambuf_iterator& operator++(int) { return *this; } };
extern ostream cout, cerr, clog; extern istream cin;
}
