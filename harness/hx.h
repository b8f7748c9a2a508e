// Common helpers of the harnesses.  The same harness runs under the symbolic engine (guest) and natively (replay).
#pragma once
#include "../model/include/sx_rt.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cstdio>
#include <cstring>
#include <unicode/ustdio.h>
#include <lttoolbox/ustring.h>
#ifndef TIER
#define TIER 0
#endif
#define Q(q,t) (TIER ? (t) : (q))       // bound in the quick / thorough tier
#define CHECK(c,msg) sx_assert_((bool)(c), msg)
#define HARNESS(name) extern "C" void name()
// character drawn from a fixed table (one solver variable, no path split)
static inline uint32_t hx_char(const char* nm, const uint32_t* tab, unsigned n) { return sx_table(sx_below(nm,n),tab,n); }
// number 0..n-1, split into paths
static inline unsigned hx_pick(const char* nm, unsigned n) { return (unsigned)sx_concretize(sx_below(nm,n)); }
// reading: FILE over a byte string
static inline FILE* hx_reader(const std::string& s) {
  FILE* f; if (s.empty()) f=tmpfile(); else { char* p=(char*)malloc(s.size()); memcpy(p,s.data(),s.size()); f=fmemopen(p,s.size(),"rb"); } return f; }
// writing: FILE into a byte string
struct HxOut { FILE* f; char* p=nullptr; size_t n=0; HxOut() { f=open_memstream(&p,&n); }
  std::string done() { fclose(f); std::string r(p,n); return r; } };
struct HxUOut { HxOut o; UFILE* u; HxUOut() { u=u_finit(o.f,"C","UTF-8"); } std::string done() { u_fclose(u); return o.done(); } };
static inline UString hx_u(const char* s) { UString r; for (;*s;s++) r+=(UChar)(unsigned char)*s; return r; }
// files in a scratch directory natively, in the in-memory file system under the engine
extern "C++" { void hx_file_put(const char* name, const std::string& d); bool hx_file_get(const char* name, std::string& d); const char* hx_path(const char* name); }
// call fn in a way that reports whether it finished normally (false: it threw)
template<class F> static bool hx_try(F f) { try { f(); return true; } catch (...) { return false; } }
