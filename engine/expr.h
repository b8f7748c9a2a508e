// Hash-consed bit-vector expressions with constant folding, model evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <cmath>
#include <cstring>
#include <unordered_map>
#include <z3.h>

enum EK : uint8_t { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_SHL, K_LSHR, K_ASHR,
  K_AND, K_OR, K_XOR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FLT, K_FLE, K_FEQ, K_FISNAN, K_FPTOSI, K_FPTOUI, K_SITOFP, K_UITOFP, K_FPEXT, K_FPTRUNC };

struct Expr {
  uint8_t k, w, aux; uint8_t hasfp; uint8_t aux2=0;
  int32_t sv;          // single support variable, -1 none, -2 several
  uint32_t id;
  uint32_t gen;
  Expr *a, *b, *c;
  uint64_t val;        // const value / var index
  uint64_t ev;
  Z3_ast z;
};
typedef Expr* E;

struct VarInfo { std::string name; uint8_t w; uint64_t dom; /*0 = full range; else value in [0,dom)*/ Z3_ast z; };

static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull<<w)-1); }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64-w))) >> (64-w); }

struct Exprs {
  std::vector<E> table; size_t count = 0;
  char* pool = nullptr; size_t left = 0;
  std::vector<VarInfo> vars;
  std::vector<E> varE;
  std::vector<uint64_t> model; uint32_t gen = 1;
  Z3_context z = nullptr;
  uint32_t nextId = 1;
  Exprs() { table.assign(1<<14, nullptr); }
  static uint64_t h(uint8_t k, uint8_t w, uint8_t aux, E a, E b, E c, uint64_t v) {
    uint64_t x = k*0x9E3779B97F4A7C15ull ^ (uint64_t)w<<40 ^ (uint64_t)aux<<48;
    auto mix = [&](uint64_t y) { x ^= y; x *= 0xff51afd7ed558ccdull; x ^= x>>32; };
    mix(a?a->id:0); mix(b?b->id+7:0); mix(c?c->id+13:0); mix(v); return x;
  }
  E raw(uint8_t k, uint8_t w, uint8_t aux, E a, E b, E c, uint64_t v) {
    uint64_t hh = h(k,w,aux,a,b,c,v); size_t m = table.size()-1; size_t i = hh & m;
    while (E e = table[i]) {
      if (e->k==k && e->w==w && e->aux==aux && e->a==a && e->b==b && e->c==c && e->val==v) return e;
      i = (i+1)&m;
    }
    if (left < sizeof(Expr)) { pool = (char*)malloc(1<<16); left = 1<<16; }
    E e = (E)pool; pool += sizeof(Expr); left -= sizeof(Expr);
    e->k=k; e->w=w; e->aux=aux; e->a=a; e->b=b; e->c=c; e->val=v; e->id=nextId++; e->gen=0; e->z=nullptr; e->ev=0; e->aux2=0;
    e->hasfp = (k>=K_FADD) || (a&&a->hasfp) || (b&&b->hasfp) || (c&&c->hasfp);
    int sv = k==K_VAR ? (int)v : -1;
    auto join = [&](E x) { if (!x) return; if (x->sv==-1) return; if (sv==-1) sv = x->sv; else if (sv != x->sv) sv = -2; };
    join(a); join(b); join(c); e->sv = sv;
    table[i] = e; if (++count*2 > table.size()) grow();
    return e;
  }
  void grow() {
    std::vector<E> o; o.swap(table); table.assign(o.size()*2, nullptr); size_t m = table.size()-1;
    for (E e : o) if (e) { size_t i = h(e->k,e->w,e->aux,e->a,e->b,e->c,e->val)&m; while (table[i]) i=(i+1)&m; table[i]=e; }
  }
  E C(uint64_t v, unsigned w) { return raw(K_CONST,w,0,nullptr,nullptr,nullptr,v&msk(w)); }
  static bool isC(E e) { return e->k==K_CONST; }
  static bool isC(E e, uint64_t v) { return e->k==K_CONST && e->val==v; }
  E Not(E a) { return Xor1(a); }
  E Xor1(E a) { // boolean negation (width 1)
    if (isC(a)) return C(!a->val,1);
    if (a->k==K_XOR && isC(a->b,1)) return a->a;
    if (a->k==K_ULT) return raw(K_ULE,1,0,a->b,a->a,nullptr,0);
    if (a->k==K_ULE) return raw(K_ULT,1,0,a->b,a->a,nullptr,0);
    if (a->k==K_SLT) return raw(K_SLE,1,0,a->b,a->a,nullptr,0);
    if (a->k==K_SLE) return raw(K_SLT,1,0,a->b,a->a,nullptr,0);
    return raw(K_XOR,1,0,a,C(1,1),nullptr,0);
  }
  static uint64_t fold(uint8_t k, uint8_t w, uint64_t a, uint64_t b) {
    uint64_t m = msk(w);
    switch (k) {
    case K_ADD: return (a+b)&m; case K_SUB: return (a-b)&m; case K_MUL: return (a*b)&m;
    case K_UDIV: return b? a/b : m; case K_UREM: return b? a%b : a;
    case K_SDIV: { int64_t x=sx64(a,w), y=sx64(b,w); if (!y) return x<0?1:m; if (y==-1) return (0-a)&m; return (uint64_t)(x/y)&m; }
    case K_SREM: { int64_t x=sx64(a,w), y=sx64(b,w); if (!y) return a; if (y==-1) return 0; return (uint64_t)(x%y)&m; }
    case K_SHL: return b>=w?0:(a<<b)&m; case K_LSHR: return b>=w?0:a>>b; case K_ASHR: { int64_t x=sx64(a,w); return (uint64_t)(b>=w?(x<0?-1:0):x>>b)&m; }
    case K_AND: return a&b; case K_OR: return a|b; case K_XOR: return a^b;
    } return 0;
  }
  E bin(uint8_t k, E a, E b) {
    unsigned w = a->w;
    if (isC(a)&&isC(b)) return C(fold(k,w,a->val,b->val),w);
    bool comm = k==K_ADD||k==K_MUL||k==K_AND||k==K_OR||k==K_XOR;
    if (comm && isC(a)) std::swap(a,b);
    else if (comm && !isC(b) && a->id > b->id) std::swap(a,b);
    if (isC(b)) {
      uint64_t v = b->val;
      switch (k) {
      case K_ADD: if (!v) return a; if (a->k==K_ADD && isC(a->b)) return bin(K_ADD,a->a,C(a->b->val+v,w)); break;
      case K_SUB: return bin(K_ADD,a,C(0-v,w));
      case K_MUL: if (!v) return C(0,w); if (v==1) return a; if ((v&(v-1))==0) return bin(K_SHL,a,C(__builtin_ctzll(v),w)); break;
      case K_UDIV: if (v==1) return a; if (v && (v&(v-1))==0) return bin(K_LSHR,a,C(__builtin_ctzll(v),w)); break;
      case K_UREM: if (v && (v&(v-1))==0) return bin(K_AND,a,C(v-1,w)); break;
      case K_AND: if (!v) return C(0,w); if (v==msk(w)) return a;
        if (a->k==K_AND && isC(a->b)) return bin(K_AND,a->a,C(a->b->val&v,w));
        if (a->k==K_ZEXT && (v & msk(a->a->w))==msk(a->a->w)) return a;
        if (a->k==K_ZEXT) return zext(bin(K_AND,a->a,C(v,a->a->w)),w);
        if (v == 0xff && w > 8) return zext(extract(a,0,8),w);
        break;
      case K_OR: if (!v) return a; if (v==msk(w)) return b; break;
      case K_XOR: if (!v) return a; if (w==1) return Xor1(a); if (a->k==K_XOR && isC(a->b)) return bin(K_XOR,a->a,C(a->b->val^v,w)); break;
      case K_SHL: if (!v) return a; if (v>=w) return C(0,w); break;
      case K_LSHR: if (!v) return a; if (v>=w) return C(0,w); if (a->k==K_ZEXT && v>=a->a->w) return C(0,w); break;
      case K_ASHR: if (!v) return a; if (a->k==K_ZEXT && a->a->w < w) return bin(K_LSHR,a,b); break;
      }
      if (a->k==K_ITE && isC(a->b) && isC(a->c)) return ite(a->a, C(fold(k,w,a->b->val,v),w), C(fold(k,w,a->c->val,v),w));
    } else if (isC(a)) {
      if (b->k==K_ITE && isC(b->b) && isC(b->c)) return ite(b->a, C(fold(k,w,a->val,b->b->val),w), C(fold(k,w,a->val,b->c->val),w));
    }
    if (a==b) { if (k==K_SUB||k==K_XOR) return C(0,w); if (k==K_AND||k==K_OR) return a; }
    if (w==1 && (k==K_AND||k==K_OR)) { if (Not(a)==b) return C(k==K_OR,1); }
    return raw(k,w,0,a,b,nullptr,0);
  }
  E eq(E a, E b) {
    if (isC(a)) std::swap(a,b);
    if (a==b) return C(1,1);
    if (isC(a)&&isC(b)) return C(a->val==b->val,1);
    if (isC(b)) {
      uint64_t v = b->val;
      if (a->w==1) return v? a : Not(a);
      switch (a->k) {
      case K_ZEXT: if (v > msk(a->a->w)) return C(0,1); return eq(a->a,C(v,a->a->w));
      case K_SEXT: { uint64_t t = v & msk(a->a->w); if (((uint64_t)sx64(t,a->a->w) & msk(a->w)) != v) return C(0,1); return eq(a->a,C(t,a->a->w)); }
      case K_ADD: if (isC(a->b)) return eq(a->a, C(v-a->b->val,a->w)); break;
      case K_XOR: if (isC(a->b)) return eq(a->a, C(v^a->b->val,a->w)); break;
      case K_ITE:
        if (isC(a->b)) { E r = eq(a->c,b); return a->b->val==v ? bin(K_OR,a->a,r) : bin(K_AND,Not(a->a),r); }
        if (isC(a->c)) { E r = eq(a->b,b); return a->c->val==v ? bin(K_OR,Not(a->a),r) : bin(K_AND,a->a,r); }
        break;
      case K_CONCAT: { unsigned lw = a->b->w; E hi = eq(a->a, C(v>>lw, a->a->w)); if (isC(hi,0)) return hi; return bin(K_AND, hi, eq(a->b, C(v&msk(lw), lw))); }
      }
    } else {
      if (a->k==K_ZEXT && b->k==K_ZEXT && a->a->w==b->a->w) return eq(a->a,b->a);
      if (a->k==K_SEXT && b->k==K_SEXT && a->a->w==b->a->w) return eq(a->a,b->a);
      if (a->id > b->id) std::swap(a,b);
    }
    if (a->w==1) return Not(bin(K_XOR,a,b));
    return raw(K_EQ,1,0,a,b,nullptr,0);
  }
  E cmp(uint8_t k, E a, E b) { // ULT ULE SLT SLE
    if (a==b) return C(k==K_ULE||k==K_SLE,1);
    unsigned w = a->w;
    if (isC(a)&&isC(b)) {
      bool r = k==K_ULT? a->val<b->val : k==K_ULE? a->val<=b->val : k==K_SLT? sx64(a->val,w)<sx64(b->val,w) : sx64(a->val,w)<=sx64(b->val,w);
      return C(r,1);
    }
    if (k==K_ULT && isC(b,0)) return C(0,1);
    if (k==K_ULT && isC(b,1)) return eq(a,C(0,w));
    if (k==K_ULE && isC(a,0)) return C(1,1);
    if (k==K_ULE && isC(b) && b->val==msk(w)) return C(1,1);
    // zero-extended operands: signed == unsigned
    auto nn = [&](E x) { return (x->k==K_ZEXT && x->a->w < w) || (isC(x) && !(x->val>>(w-1))); };
    if ((k==K_SLT||k==K_SLE) && nn(a) && nn(b)) return cmp(k==K_SLT?K_ULT:K_ULE,a,b);
    if (k==K_SLT && isC(b,0) && nn(a)) return C(0,1);
    if ((k==K_ULT||k==K_ULE)) {
      if (a->k==K_ZEXT && b->k==K_ZEXT && a->a->w==b->a->w) return cmp(k,a->a,b->a);
      if (a->k==K_ZEXT && isC(b)) { unsigned n=a->a->w; if (b->val > msk(n)) return C(1,1); return cmp(k,a->a,C(b->val,n)); }
      if (b->k==K_ZEXT && isC(a)) { unsigned n=b->a->w; if (a->val > msk(n)) return C(0,1); return cmp(k,C(a->val,n),b->a); }
    }
    if (isC(b) && a->k==K_ITE && isC(a->b) && isC(a->c)) return ite(a->a, cmp(k,a->b,b), cmp(k,a->c,b));
    if (isC(a) && b->k==K_ITE && isC(b->b) && isC(b->c)) return ite(b->a, cmp(k,a,b->b), cmp(k,a,b->c));
    return raw(k,1,0,a,b,nullptr,0);
  }
  E ite(E c, E a, E b) {
    if (isC(c)) return c->val? a : b;
    if (a==b) return a;
    if (a->w==1) {
      if (isC(a)) return a->val ? bin(K_OR,c,b) : bin(K_AND,Not(c),b);
      if (isC(b)) return b->val ? bin(K_OR,Not(c),a) : bin(K_AND,c,a);
    }
    if (c->k==K_XOR && isC(c->b,1)) return ite(c->a,b,a);
    if (b->k==K_ITE && b->a==c) b = b->c;
    if (a->k==K_ITE && a->a==c) a = a->b;
    if (a==b) return a;
    return raw(K_ITE,a->w,0,c,a,b,0);
  }
  E extract(E a, unsigned lo, unsigned n) {
    if (lo==0 && n==a->w) return a;
    if (isC(a)) return C(a->val>>lo,n);
    switch (a->k) {
    case K_EXTRACT: return extract(a->a, lo+a->aux, n);
    case K_ZEXT: case K_SEXT:
      if (lo+n <= a->a->w) return extract(a->a,lo,n);
      if (a->k==K_ZEXT && lo >= a->a->w) return C(0,n);
      if (a->k==K_ZEXT) return zext(extract(a->a,lo,a->a->w-lo),n);
      if (a->k==K_SEXT && lo==0) return sext(a->a,n);
      break;
    case K_CONCAT: { unsigned lw=a->b->w; if (lo+n<=lw) return extract(a->b,lo,n); if (lo>=lw) return extract(a->a,lo-lw,n); break; }
    case K_ITE: if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b,lo,n), extract(a->c,lo,n)); break;
    case K_AND: case K_OR: case K_XOR: return bin(a->k, extract(a->a,lo,n), extract(a->b,lo,n));
    case K_ADD: case K_MUL: case K_SUB: if (lo==0) return bin(a->k, extract(a->a,0,n), extract(a->b,0,n)); break;
    case K_SHL: if (isC(a->b)) { unsigned s=a->b->val; if (lo>=s) return extract(a->a,lo-s,n); if (lo+n<=s) return C(0,n); } break;
    case K_LSHR: if (isC(a->b)) { unsigned s=a->b->val; if (lo+s+n<=a->w) return extract(a->a,lo+s,n); if (lo+s>=a->w) return C(0,n); return zext(extract(a->a,lo+s,a->w-lo-s),n); } break;
    case K_ASHR: if (isC(a->b)) { unsigned s=a->b->val; if (lo+s+n<=a->w) return extract(a->a,lo+s,n); } break;
    }
    return raw(K_EXTRACT,n,lo,a,nullptr,nullptr,0);
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w+lo->w;
    if (isC(hi)&&isC(lo)) return C(hi->val<<lo->w | lo->val, w);
    if (isC(hi,0)) return zext(lo,w);
    if (hi->k==K_EXTRACT && lo->k==K_EXTRACT && hi->a==lo->a && hi->aux==lo->aux+lo->w) return extract(hi->a,lo->aux,w);
    if (hi->k==K_EXTRACT && hi->a==lo && hi->aux==lo->w) return extract(lo,0,w);
    if (lo->k==K_CONCAT && hi->k==K_EXTRACT && lo->a->k==K_EXTRACT && hi->a==lo->a->a && hi->aux==lo->a->aux+lo->a->w) return concat(extract(hi->a,lo->a->aux,hi->w+lo->a->w),lo->b);
    return raw(K_CONCAT,w,0,hi,lo,nullptr,0);
  }
  E zext(E a, unsigned w) {
    if (w==a->w) return a; if (isC(a)) return C(a->val,w);
    if (a->k==K_ZEXT) return zext(a->a,w);
    if (a->k==K_ITE && isC(a->b) && isC(a->c)) return ite(a->a,C(a->b->val,w),C(a->c->val,w));
    if (a->k==K_ITE && isC(a->b)) return ite(a->a,C(a->b->val,w),zext(a->c,w));
    return raw(K_ZEXT,w,0,a,nullptr,nullptr,0);
  }
  E sext(E a, unsigned w) {
    if (w==a->w) return a; if (isC(a)) return C((uint64_t)sx64(a->val,a->w),w);
    if (a->k==K_ZEXT) return zext(a->a,w);
    if (a->k==K_SEXT) return sext(a->a,w);
    if (a->k==K_ITE && isC(a->b)) return ite(a->a,C((uint64_t)sx64(a->b->val,a->w),w),sext(a->c,w));
    return raw(K_SEXT,w,0,a,nullptr,nullptr,0);
  }
  static double D(uint64_t v) { double d; memcpy(&d,&v,8); return d; }
  static float F(uint64_t v) { uint32_t x=v; float d; memcpy(&d,&x,4); return d; }
  static uint64_t B(double d) { uint64_t v; memcpy(&v,&d,8); return v; }
  static uint64_t B(float d) { uint32_t v; memcpy(&v,&d,4); return v; }
  static uint64_t ffold(uint8_t k, unsigned w, unsigned sw, uint64_t a, uint64_t b) {
    auto f2 = [&](auto x, auto y) -> uint64_t {
      switch (k) { case K_FADD: return B(x+y); case K_FSUB: return B(x-y); case K_FMUL: return B(x*y); case K_FDIV: return B(x/y);
       case K_FLT: return x<y; case K_FLE: return x<=y; case K_FEQ: return x==y; case K_FISNAN: return x!=x; } return 0; };
    if (k<=K_FISNAN) return sw==64 ? f2(D(a),D(b)) : f2(F(a),F(b));
    switch (k) {
    case K_FPTOSI: { double x = sw==64?D(a):(double)F(a); if (!(x > -9.3e18 && x < 9.3e18)) return msk(w)&(1ull<<(w-1)); return (uint64_t)(int64_t)x & msk(w); }
    case K_FPTOUI: { double x = sw==64?D(a):(double)F(a); if (!(x > -1 && x < 1.9e19)) return 0; return (uint64_t)x & msk(w); }
    case K_SITOFP: { int64_t x = sx64(a,sw); return w==64?B((double)x):B((float)x); }
    case K_UITOFP: return w==64?B((double)a):B((float)a);
    case K_FPEXT: return B((double)F(a)); case K_FPTRUNC: return B((float)D(a));
    } return 0;
  }
  // constant value of bits [lo,lo+n) of e, if syntactically evident
  bool cbits(E e, unsigned lo, unsigned n, uint64_t& o) {
    if (isC(e)) { o=(e->val>>lo)&msk(n); return true; }
    uint64_t x,y; bool bx,by;
    switch (e->k) {
    case K_AND: bx=cbits(e->a,lo,n,x); by=cbits(e->b,lo,n,y); if (bx&&by) { o=x&y; return true; } if ((bx&&!x)||(by&&!y)) { o=0; return true; } return false;
    case K_OR: bx=cbits(e->a,lo,n,x); by=cbits(e->b,lo,n,y); if (bx&&by) { o=x|y; return true; } if ((bx&&x==msk(n))||(by&&y==msk(n))) { o=msk(n); return true; } return false;
    case K_XOR: if (cbits(e->a,lo,n,x)&&cbits(e->b,lo,n,y)) { o=x^y; return true; } return false;
    case K_ITE: if (cbits(e->b,lo,n,x)&&cbits(e->c,lo,n,y)&&x==y) { o=x; return true; } return false;
    case K_ZEXT: if (lo>=e->a->w) { o=0; return true; } if (lo+n<=e->a->w) return cbits(e->a,lo,n,o); return false;
    case K_CONCAT: { unsigned bw=e->b->w; if (lo+n<=bw) return cbits(e->b,lo,n,o); if (lo>=bw) return cbits(e->a,lo-bw,n,o); return false; }
    case K_SHL: if (isC(e->b) && e->b->val<e->w) { unsigned s=e->b->val; if (lo+n<=s) { o=0; return true; } if (lo>=s) return cbits(e->a,lo-s,n,o); } return false;
    case K_EXTRACT: return cbits(e->a,lo+e->aux,n,o);
    }
    return false;
  }
  // floating-point operations that have an exact and small bit-vector form (IEEE double)
  E fbv(uint8_t k, unsigned w, E a, E b) {
    if (a->w==64 || (k==K_SITOFP||k==K_UITOFP)) {} else return nullptr;
    uint64_t INF=0x7ff0000000000000ull, AB=0x7fffffffffffffffull;
    auto nan=[&](E x) { return cmp(K_ULT,C(INF,64),bin(K_AND,x,C(AB,64))); };
    auto Or=[&](E x, E y) { return bin(K_OR,x,y); }; auto And=[&](E x, E y) { return bin(K_AND,x,y); };
    switch (k) {
    case K_FISNAN: return nan(a);
    case K_FEQ: case K_FLT: case K_FLE: {
      E ok=And(Not(nan(a)),Not(nan(b))); E z=eq(bin(K_AND,Or(a,b),C(AB,64)),C(0,64)); E eqv=Or(eq(a,b),z);
      if (k==K_FEQ) return And(ok,eqv);
      E sa=extract(a,63,1), sb=extract(b,63,1); E lt=Or(And(sa,Not(sb)),Or(And(And(Not(sa),Not(sb)),cmp(K_ULT,a,b)),And(And(sa,sb),cmp(K_ULT,b,a))));
      lt=And(lt,Not(z)); return And(ok, k==K_FLT? lt : Or(lt,eqv)); }
    case K_FMUL: case K_FDIV: {
      E x=a, c=b; if (k==K_FMUL && isC(a)) { x=b; c=a; } if (!isC(c)) return nullptr;
      uint64_t v=c->val; if (v>>63 || (v&0xfffffffffffffull)) return nullptr; int ce=(int)(v>>52); if (ce==0||ce==0x7ff) return nullptr; int d=ce-1023; if (k==K_FDIV) d=-d;
      uint64_t e; if (cbits(x,52,11,e) && e>0 && e<2047 && (int)e+d>0 && (int)e+d<2047) return bin(K_OR,bin(K_AND,x,C(0x800fffffffffffffull,64)),C((uint64_t)(e+d)<<52,64));
      if (x->aux2 && d>-900 && d<900) return ite(eq(bin(K_AND,x,C(AB,64)),C(0,64)),x,bin(K_ADD,x,C((uint64_t)(int64_t)d<<52,64)));   // x is an integer value or zero
      return nullptr; }
    case K_FPTOSI: { uint64_t e; if (!cbits(a,52,11,e) || e<1023 || e>1023+31 || w>32) return nullptr;
      E m=extract(bin(K_LSHR,bin(K_OR,bin(K_AND,a,C(0xfffffffffffffull,64)),C(1ull<<52,64)),C(52-(e-1023),64)),0,w); return ite(extract(a,63,1),bin(K_SUB,C(0,w),m),m); }
    case K_SITOFP: case K_UITOFP: {
      if (w!=64 || a->w>32) return nullptr;
      E x = k==K_SITOFP ? sext(a,64) : zext(a,64); E s = k==K_SITOFP ? extract(x,63,1) : C(0,1); E m=ite(s,bin(K_SUB,C(0,64),x),x);
      // m <= 2^32: find the leading one
      E r=C(0,64); for (int i=0;i<=32;i++) { E bitsv=bin(K_OR,C((uint64_t)(1023+i)<<52,64),bin(K_AND,bin(K_SHL,m,C(52-i,64)),C(0xfffffffffffffull,64))); r=ite(extract(m,i,1),bitsv,r); }
      E res=bin(K_OR,r,bin(K_SHL,zext(s,64),C(63,64))); res=ite(eq(m,C(0,64)),C(0,64),res); if (!isC(res)) res->aux2=1; return res; }
    }
    return nullptr;
  }
  // e as a tree of choices between constants (null if it is not one, or too large); n counts the leaves
  E choices(E e, unsigned& n, unsigned max) {
    if (isC(e)) { n++; return n>max?nullptr:e; }
    if (e->k==K_ITE) { E x=choices(e->b,n,max); if (!x) return nullptr; E y=choices(e->c,n,max); return y?raw_ite(e->a,x,y):nullptr; }
    if (e->k==K_SHL && isC(e->b)) { E x=choices(e->a,n,max); return x?mapc(x,[&](uint64_t v){ return C(v<<e->b->val,e->w); }):nullptr; }
    if (e->k==K_ZEXT) { E x=choices(e->a,n,max); return x?mapc(x,[&](uint64_t v){ return C(v,e->w); }):nullptr; }
    if (e->k==K_CONCAT && isC(e->b)) { E x=choices(e->a,n,max); return x?mapc(x,[&](uint64_t v){ return C(v<<e->b->w|e->b->val,e->w); }):nullptr; }
    return nullptr; }
  E raw_ite(E c, E x, E y) { return ite(c,x,y); }
  template<class F> E mapc(E e, F f) { return isC(e)?f(e->val):ite(e->a,mapc(e->b,f),mapc(e->c,f)); }
  E fop(uint8_t k, unsigned w, E a, E b) {
    if (!isC(a) || (b && !isC(b))) { unsigned na=0, nb=0; E x=choices(a,na,200), y=x&&b?choices(b,nb,200):nullptr; if (x && (!b || (y && na*nb<=2000))) {
      unsigned sw=a->w; if (!b) return mapc(x,[&](uint64_t v){ return C(ffold(k,w,sw,v,0),w); }); return mapc(x,[&](uint64_t v){ return mapc(y,[&](uint64_t u){ return C(ffold(k,w,sw,v,u),w); }); }); } }
    if (isC(a) && (!b || isC(b))) return C(ffold(k,w,a->w,a->val,b?b->val:0),w);
    if (E r = fbv(k,w,a,b)) return r;
    return raw(k,w,0,a,b,nullptr,0);
  }
  E var(const std::string& name, unsigned w, uint64_t dom) {
    unsigned i = vars.size();
    vars.push_back({name,(uint8_t)w,dom,nullptr});
    Z3_sort s = Z3_mk_bv_sort(z,w);
    std::string nm = "v"+std::to_string(i);
    Z3_ast c = Z3_mk_const(z,Z3_mk_string_symbol(z,nm.c_str()),s); Z3_inc_ref(z,c);
    vars.back().z = c;
    model.push_back(0);
    E e = raw(K_VAR,w,0,nullptr,nullptr,nullptr,i); varE.push_back(e);
    return e;
  }
  uint64_t eval(E e) {
    if (e->k==K_CONST) return e->val;
    if (e->k==K_VAR) return model[e->val];
    if (e->gen==gen) return e->ev;
    uint64_t r=0;
    switch (e->k) {
    case K_ITE: r = eval(e->a)? eval(e->b) : eval(e->c); break;
    case K_EQ: r = eval(e->a)==eval(e->b); break;
    case K_ULT: r = eval(e->a)<eval(e->b); break;
    case K_ULE: r = eval(e->a)<=eval(e->b); break;
    case K_SLT: r = sx64(eval(e->a),e->a->w)<sx64(eval(e->b),e->b->w); break;
    case K_SLE: r = sx64(eval(e->a),e->a->w)<=sx64(eval(e->b),e->b->w); break;
    case K_CONCAT: r = eval(e->a)<<e->b->w | eval(e->b); break;
    case K_EXTRACT: r = (eval(e->a)>>e->aux)&msk(e->w); break;
    case K_ZEXT: r = eval(e->a); break;
    case K_SEXT: r = (uint64_t)sx64(eval(e->a),e->a->w)&msk(e->w); break;
    default:
      if (e->k>=K_FADD) r = ffold(e->k,e->w,e->a->w,eval(e->a),e->b?eval(e->b):0);
      else r = fold(e->k,e->w,eval(e->a),eval(e->b));
    }
    e->gen=gen; e->ev=r; return r;
  }
  // ---- Z3 ----
  Z3_ast bv1(Z3_ast b) { return Z3_mk_ite(z,b,Z3_mk_unsigned_int64(z,1,Z3_mk_bv_sort(z,1)),Z3_mk_unsigned_int64(z,0,Z3_mk_bv_sort(z,1))); }
  Z3_ast bvOf(E e) { return e->w==1 ? bv1(tr(e)) : tr(e); }
  Z3_sort fps(unsigned w) { return w==64? Z3_mk_fpa_sort_double(z) : Z3_mk_fpa_sort_single(z); }
  Z3_ast fp(E e) { return Z3_mk_fpa_to_fp_bv(z,tr(e),fps(e->w)); }
  Z3_ast tr(E e) {
    if (e->z) return e->z;
    Z3_ast r=nullptr;
    unsigned w=e->w;
    switch (e->k) {
    case K_CONST: r = w==1 ? (e->val?Z3_mk_true(z):Z3_mk_false(z)) : Z3_mk_unsigned_int64(z,e->val,Z3_mk_bv_sort(z,w)); break;
    case K_VAR: r = w==1 ? Z3_mk_eq(z,vars[e->val].z,Z3_mk_unsigned_int64(z,1,Z3_mk_bv_sort(z,1))) : vars[e->val].z; break;
    case K_EQ: r = Z3_mk_eq(z,tr(e->a),tr(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(z,bvOf(e->a),bvOf(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(z,bvOf(e->a),bvOf(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(z,bvOf(e->a),bvOf(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(z,bvOf(e->a),bvOf(e->b)); break;
    case K_ITE: r = Z3_mk_ite(z,tr(e->a),tr(e->b),tr(e->c)); break;
    case K_CONCAT: r = Z3_mk_concat(z,bvOf(e->a),bvOf(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(z,e->aux+w-1,e->aux,bvOf(e->a)); if (w==1) r = Z3_mk_eq(z,r,Z3_mk_unsigned_int64(z,1,Z3_mk_bv_sort(z,1))); break;
    case K_ZEXT: if (e->a->w==1) r = Z3_mk_ite(z,tr(e->a),Z3_mk_unsigned_int64(z,1,Z3_mk_bv_sort(z,w)),Z3_mk_unsigned_int64(z,0,Z3_mk_bv_sort(z,w))); else r = Z3_mk_zero_ext(z,w-e->a->w,tr(e->a)); break;
    case K_SEXT: if (e->a->w==1) r = Z3_mk_ite(z,tr(e->a),Z3_mk_unsigned_int64(z,msk(w),Z3_mk_bv_sort(z,w)),Z3_mk_unsigned_int64(z,0,Z3_mk_bv_sort(z,w))); else r = Z3_mk_sign_ext(z,w-e->a->w,tr(e->a)); break;
    case K_FADD: r = Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_add(z,Z3_mk_fpa_rne(z),fp(e->a),fp(e->b))); break;
    case K_FSUB: r = Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_sub(z,Z3_mk_fpa_rne(z),fp(e->a),fp(e->b))); break;
    case K_FMUL: r = Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_mul(z,Z3_mk_fpa_rne(z),fp(e->a),fp(e->b))); break;
    case K_FDIV: r = Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_div(z,Z3_mk_fpa_rne(z),fp(e->a),fp(e->b))); break;
    case K_FLT: r = Z3_mk_fpa_lt(z,fp(e->a),fp(e->b)); break;
    case K_FLE: r = Z3_mk_fpa_leq(z,fp(e->a),fp(e->b)); break;
    case K_FEQ: r = Z3_mk_fpa_eq(z,fp(e->a),fp(e->b)); break;
    case K_FISNAN: r = Z3_mk_fpa_is_nan(z,fp(e->a)); break;
    case K_FPTOSI: r = Z3_mk_fpa_to_sbv(z,Z3_mk_fpa_rtz(z),fp(e->a),w); break;
    case K_FPTOUI: r = Z3_mk_fpa_to_ubv(z,Z3_mk_fpa_rtz(z),fp(e->a),w); break;
    case K_SITOFP: r = Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_to_fp_signed(z,Z3_mk_fpa_rne(z),tr(e->a),fps(w))); break;
    case K_UITOFP: r = Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_to_fp_unsigned(z,Z3_mk_fpa_rne(z),bvOf(e->a),fps(w))); break;
    case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_to_fp_float(z,Z3_mk_fpa_rne(z),fp(e->a),fps(w))); break;
    default:
      if (w==1) {
        Z3_ast p[2]={tr(e->a),tr(e->b)};
        switch (e->k) { case K_AND: case K_MUL: r=Z3_mk_and(z,2,p); break; case K_OR: r=Z3_mk_or(z,2,p); break; default: r=Z3_mk_xor(z,p[0],p[1]); }
        break;
      }
      Z3_ast x=tr(e->a), y=tr(e->b);
      switch (e->k) {
      case K_ADD: r=Z3_mk_bvadd(z,x,y); break; case K_SUB: r=Z3_mk_bvsub(z,x,y); break; case K_MUL: r=Z3_mk_bvmul(z,x,y); break;
      case K_UDIV: r=Z3_mk_bvudiv(z,x,y); break; case K_SDIV: r=Z3_mk_bvsdiv(z,x,y); break; case K_UREM: r=Z3_mk_bvurem(z,x,y); break; case K_SREM: r=Z3_mk_bvsrem(z,x,y); break;
      case K_SHL: r=Z3_mk_bvshl(z,x,y); break; case K_LSHR: r=Z3_mk_bvlshr(z,x,y); break; case K_ASHR: r=Z3_mk_bvashr(z,x,y); break;
      case K_AND: r=Z3_mk_bvand(z,x,y); break; case K_OR: r=Z3_mk_bvor(z,x,y); break; case K_XOR: r=Z3_mk_bvxor(z,x,y); break;
      }
    }
    Z3_inc_ref(z,r); e->z=r; return r;
  }
};
