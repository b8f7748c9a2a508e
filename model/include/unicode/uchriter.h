// model of icu::UCharCharacterIterator (forward iteration subset)
#pragma once
#include <unicode/utypes.h>
#include <unicode/utf16.h>
#include <string_view>
class UCharCharacterIterator { const char16_t* t_; int32_t n_, p_=0; public:
  enum EOrigin { kStart, kCurrent, kEnd }; enum { DONE=0xffff };
  UCharCharacterIterator(const char16_t* t, int32_t n) : t_(t), n_(n) {}
  UCharCharacterIterator(const char16_t* t, int32_t n, int32_t p) : t_(t), n_(n), p_(p) {}
  bool hasNext() { return p_<n_; } bool hasPrevious() { return p_>0; } int32_t getIndex() const { return p_; } int32_t getLength() const { return n_; } int32_t startIndex() const { return 0; } int32_t endIndex() const { return n_; }
  UChar32 next32PostInc() { if (p_>=n_) return DONE; UChar32 c=(uint16_t)t_[p_++]; if ((c&0xfffffc00)==0xd800 && p_<n_ && (t_[p_]&0xfc00)==0xdc00) { c=(c<<10)+(uint16_t)t_[p_++]-((0xd800<<10)+0xdc00-0x10000); } return c; }
  char16_t nextPostInc() { if (p_>=n_) return DONE; return t_[p_++]; }
  char16_t current() const { return p_<n_?t_[p_]:(char16_t)DONE; } char16_t first() { p_=0; return current(); } char16_t setIndex(int32_t p) { p_=p<0?0:p>n_?n_:p; return current(); }
  UChar32 current32() const { UCharCharacterIterator x=*this; return x.next32PostInc(); } UChar32 first32() { p_=0; return current32(); } char16_t next() { if (p_<n_) p_++; return current(); } };
