// Shared between irdump (LLVM -> flat program) and sx (symbolic interpreter).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <cstdio>
#include <cstring>
#include <cstdlib>

static const uint64_t ARENA_BASE = 0x100000000000ull;
static const uint64_t ARENA_SIZE = 0x60000000ull;        // 1.5 GB of guest addresses
static const uint64_t SHADOW_BASE = 0x200000000000ull;
static const uint64_t FN_BASE = 0x300000000000ull;

enum Op : uint16_t {
  O_NOP, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_AND, O_OR, O_XOR, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG,
  O_ICMP, O_FCMP, O_TRUNC, O_ZEXT, O_SEXT, O_FPTRUNC, O_FPEXT, O_FPTOUI, O_FPTOSI,
  O_UITOFP, O_SITOFP, O_COPY, O_SELECT, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
  O_BR, O_CONDBR, O_SWITCH, O_RET, O_UNREACHABLE, O_RESUME, O_CALL, O_INVOKE,
  O_LANDINGPAD, O_ATOMICRMW, O_CMPXCHG,
  O_UMIN, O_UMAX, O_SMIN, O_SMAX, O_ABS, O_CTLZ, O_CTTZ, O_CTPOP, O_BSWAP, O_FSHL, O_FSHR,
  O_UADDO, O_USUBO, O_UMULO, O_SADDO, O_SSUBO, O_SMULO, O_USUBSAT, O_UADDSAT,
  O_FABS, O_ISCONST, O_VASTART, O_UNSUPPORTED
};

enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Opnd { int32_t reg; int32_t pad; uint64_t imm; };

struct Inst {
  uint16_t op; uint8_t w; uint8_t w2;
  int32_t dst;
  uint32_t x;      // aux index
  uint32_t line;
  Opnd a, b, c;
};

struct EdgeCopy { int32_t dst; int32_t pad; Opnd src; };
struct Edge { uint32_t target; std::vector<EdgeCopy> copies; };

struct Fn {
  std::string name;
  uint32_t nregs = 0, nparamslots = 0;
  uint8_t varargs = 0, defined = 0;
  uint16_t retslots = 0;
  std::vector<Inst> code;
  std::vector<Edge> edges;
  std::vector<uint64_t> aux;
};

struct GVar { std::string name; uint64_t addr, size; uint8_t ro, def; };

struct Program {
  std::vector<Fn> fns;
  std::vector<GVar> globals;
  std::vector<uint8_t> image;    // initial contents starting at ARENA_BASE
  std::vector<uint32_t> ctors;   // function indices
  uint64_t globals_end = 0;
  std::string files;             // source files, one per line; Inst.line is number<<16 | line
};

struct Wr { FILE* f;
  void raw(const void* p, size_t n) { if (n && fwrite(p, 1, n, f) != n) { perror("write"); exit(3);} }
  template<class T> void pod(const T& t) { raw(&t, sizeof t); }
  void str(const std::string& s) { uint32_t n = s.size(); pod(n); raw(s.data(), n); }
  template<class T> void vec(const std::vector<T>& v) { uint64_t n = v.size(); pod(n); raw(v.data(), n*sizeof(T)); }
};
struct Rd { FILE* f;
  void raw(void* p, size_t n) { if (n && fread(p, 1, n, f) != n) { fprintf(stderr, "short program file\n"); exit(3);} }
  template<class T> void pod(T& t) { raw(&t, sizeof t); }
  void str(std::string& s) { uint32_t n; pod(n); s.resize(n); raw(&s[0], n); }
  template<class T> void vec(std::vector<T>& v) { uint64_t n; pod(n); v.resize(n); raw(v.data(), n*sizeof(T)); }
};

template<class S, class P> static void walk(S& s, P& p);
static inline void save(Program& p, FILE* f) {
  Wr w{f};
  uint64_t n = p.fns.size(); w.pod(n);
  for (auto& fn : p.fns) {
    w.str(fn.name); w.pod(fn.nregs); w.pod(fn.nparamslots); w.pod(fn.varargs); w.pod(fn.defined); w.pod(fn.retslots);
    w.vec(fn.code); w.vec(fn.aux);
    uint64_t m = fn.edges.size(); w.pod(m);
    for (auto& e : fn.edges) { w.pod(e.target); w.vec(e.copies); }
  }
  n = p.globals.size(); w.pod(n);
  for (auto& g : p.globals) { w.str(g.name); w.pod(g.addr); w.pod(g.size); w.pod(g.ro); w.pod(g.def); }
  w.vec(p.image); w.vec(p.ctors); w.pod(p.globals_end); w.str(p.files);
}
static inline void load(Program& p, FILE* f) {
  Rd w{f};
  uint64_t n; w.pod(n); p.fns.resize(n);
  for (auto& fn : p.fns) {
    w.str(fn.name); w.pod(fn.nregs); w.pod(fn.nparamslots); w.pod(fn.varargs); w.pod(fn.defined); w.pod(fn.retslots);
    w.vec(fn.code); w.vec(fn.aux);
    uint64_t m; w.pod(m); fn.edges.resize(m);
    for (auto& e : fn.edges) { w.pod(e.target); w.vec(e.copies); }
  }
  w.pod(n); p.globals.resize(n);
  for (auto& g : p.globals) { w.str(g.name); w.pod(g.addr); w.pod(g.size); w.pod(g.ro); w.pod(g.def); }
  w.vec(p.image); w.vec(p.ctors); w.pod(p.globals_end); w.str(p.files);
}
