// Native replay runtime: variables take the values of the counterexample.
#include "hx.h"
#include <cstdlib>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <exception>
static std::vector<std::pair<std::string,uint64_t>> vals; static size_t vi=0; static int policy=0; static bool ended=false; static std::string scratch;
static uint64_t next(const char* n) { if (vi<vals.size()) { return vals[vi++].second; } vi++; return 0; }
static void fin(int c) { ended=true; fflush(stdout); if (!scratch.empty()) { std::string cmd="rm -rf -- '"+scratch+"'"; if (scratch.rfind("/tmp/sxreplay.",0)==0) { int r=system(cmd.c_str()); (void)r; } } _exit(c); }
extern "C" {
uint8_t sx_u8(const char* n) { return next(n); } uint16_t sx_u16(const char* n) { return next(n); } uint32_t sx_u32(const char* n) { return next(n); } uint64_t sx_u64(const char* n) { return next(n); }
uint32_t sx_below(const char* n, uint32_t k) { return next(n); }
uint32_t sx_table(uint32_t i, const uint32_t* t, uint32_t n) { return t[i]; }
void sx_assume(bool b) { if (!b) { fprintf(stderr,"REPLAY: assumption not satisfied\n"); fin(0); } }
void sx_assert_(bool b, const char* m) { if (!b) { fprintf(stderr,"REPLAY-FAILED: %s\n",m); fin(77); } }
void sx_reach(int) {} uint64_t sx_concretize(uint64_t v) { return v; } bool sx_is_symbolic(uint64_t) { return false; }
void sx_end() { fin(0); } void sx_exit_policy(int p) { policy=p; }
void sx_debug(const char* n, uint64_t v) { fprintf(stderr,"%s=%llu\n",n,(unsigned long long)v); } void sx_print(const char* n, const void* p, size_t k) { fprintf(stderr,"%s \"%.*s\"\n",n,(int)k,(const char*)p); }
int sx_native() { return 1; }
#define X(e) void e();
ENTRY_LIST
#undef X
}
const char* hx_path(const char* n) { if (scratch.empty()) { char t[]="/tmp/sxreplay.XXXXXX"; scratch=mkdtemp(t); } static std::string r[16]; static int k=0; std::string& s=r[k++%16]; s=scratch+"/"+n; return s.c_str(); }
void hx_file_put(const char* n, const std::string& d) { std::ofstream o(hx_path(n),std::ios::binary); o.write(d.data(),d.size()); }
bool hx_file_get(const char* n, std::string& d) { fflush(nullptr); std::ifstream i(hx_path(n),std::ios::binary); if (!i) return false; std::stringstream s; s<<i.rdbuf(); d=s.str(); return true; }
static void atex(int c, void*) { if (!ended) { if (!(policy==1 || (policy==2 && c) || (policy==3 && !c))) { fprintf(stderr,"REPLAY-FAILED: exit() called\n"); fin(77); } fin(0); } }
// the list of long options has to end with an empty one: look at each of them where it can be noticed
#include <getopt.h>
#include <dlfcn.h>
extern "C" int getopt_long(int n, char* const* v, const char* s, const struct option* lo, int* idx) noexcept { typedef int (*F)(int,char* const*,const char*,const struct option*,int*); static F f=(F)dlsym(RTLD_NEXT,"getopt_long"); const char* volatile x=nullptr; for (auto o=lo; o && (x=o->name); o++); return f(n,v,s,lo,idx); }
int main(int argc, char** argv) {
  std::ifstream f(argv[1]); std::string line; while (std::getline(f,line)) if (line.rfind("VAR ",0)==0) { size_t k=line.rfind(' '); vals.push_back({line.substr(4,k-4),strtoull(line.c_str()+k+1,0,10)}); }
  on_exit(atex,nullptr); alarm(60);
  #define X(e) if (!strcmp(argv[2],#e)) fn=e;
  void (*fn)()=nullptr; ENTRY_LIST
#undef X
  if (!fn) { fprintf(stderr,"no such entry\n"); return 3; }
  try { fn(); } catch (std::exception& e) { fprintf(stderr,"REPLAY-FAILED: uncaught exception %s\n",e.what()); fin(77); } catch (...) { fprintf(stderr,"REPLAY-FAILED: uncaught exception\n"); fin(77); }
  fin(0);
}
