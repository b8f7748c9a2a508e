// sx: symbolic executor for the flat programs produced by irdump.
// Every symbolic branch is decided by Z3; both-feasible branches fork() the process, so that each
// process explores one path; PC and model are kept per process.
#include "prog.h"
#include "expr.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <atomic>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <unicode/uchar.h>
#include <unicode/ustring.h>
#include <unicode/ustdio.h>

static Program P;
static Exprs X;
struct Reg { uint64_t v; E e; };

enum { SH_ADDR=1, SH_SYM=2, SH_RO=4 };

struct Shared {
  std::atomic<int> active, stop, viol, incomplete, internal;
  std::atomic<uint64_t> started, finished, queries, sat, unsat, unknown, solver_us, insts, forks, asserts_triv, asserts_solver, assumes, maxdepth, maxq_us, model_hits, domdec, soft;
  std::atomic<uint64_t> reach[64];
  std::atomic<uint64_t> paths_done, paths_exit, paths_assume;
  std::atomic<uint32_t> slow;
  char violtext[1<<16];
  char inttext[4096];
  char sample[8][4096];   // variable values of some completed paths
  // per function: executed flag, fork count follow
};
static Shared* S;
static std::atomic<uint8_t>* fnHit; static std::atomic<uint32_t>* fnForks; static uint8_t* covHit; static std::vector<size_t> covBase;
static int maxWorkers = 8; static double deadline = 0; static uint64_t maxInst = 400000000ull; static unsigned rlimit = 0;
static unsigned qtimeout=30000;
static bool verbose = false, nofork = false;
static double now() { timeval t; gettimeofday(&t,0); return t.tv_sec + t.tv_usec*1e-6; }

struct Frame { const Fn* fn; uint32_t fi; uint32_t pc; uint32_t rb; uint64_t stackMark; uint64_t va; };
static std::vector<Frame> fr;
static Reg* regs; static uint32_t rtop = 0; static const uint32_t REGS = 1<<22;
static uint64_t heapTop, stackTop, stackBase, heapEnd;
static uint64_t instCount = 0, depthCount = 0;
static bool syncChild = false, isRoot = true;
static int exitPolicy = 0;      // 0: exit() is a violation, 1: exit() ends the path quietly
static std::unordered_map<E,bool> known;
static std::unordered_map<std::string,E> fncache;
static std::string curNote;

[[noreturn]] static void finish(std::atomic<uint64_t>* ctr);
[[noreturn]] static void internalErr(const std::string& m);
[[noreturn]] static void softErr(const std::string& m);
[[noreturn]] static void violation(const std::string& kind, const std::string& msg);

// ---------------- solver ----------------
static Z3_context Z; static Z3_solver SV; static bool svIsFp=false;
static std::vector<E> pc; static size_t asserted=0;   // path condition; constraints reach the solver when it is next asked
static void zerr(Z3_context c, Z3_error_code e) { internalErr(std::string("z3: ")+Z3_get_error_msg(c,e)); }
static void newSolver(bool fp) {
  if (fp) SV = Z3_mk_solver(Z);
  else SV = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z,"QF_BV"));
  Z3_solver_inc_ref(Z,SV); svIsFp = fp;
  { Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),qtimeout); Z3_solver_set_params(Z,SV,p); }
  if (rlimit) { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),rlimit); Z3_solver_set_params(Z,SV,p); }
  asserted=0;
}
static void syncSolver() { for (;asserted<pc.size();asserted++) Z3_solver_assert(Z,SV,X.tr(pc[asserted])); }
static void domNarrow(E c); static void entangle(E c);
static void addPC(E c) {
  if (Exprs::isC(c)) { if (!c->val) internalErr("asserting false"); return; }
  pc.push_back(c); known[c]=true; known[X.Not(c)]=false; domNarrow(c); entangle(c);
  if (c->hasfp && !svIsFp) newSolver(true);
}
static void getModel(std::vector<uint64_t>& m) {
  Z3_model mo = Z3_solver_get_model(Z,SV); Z3_model_inc_ref(Z,mo);
  m.assign(X.vars.size(),0);
  for (size_t i=0;i<X.vars.size();i++) {
    Z3_ast r; if (!Z3_model_eval(Z,mo,X.vars[i].z,true,&r)) internalErr("model eval");
    uint64_t v=0; if (!Z3_get_numeral_uint64(Z,r,(uint64_t*)&v)) internalErr("numeral");
    m[i]=v;
  }
  Z3_model_dec_ref(Z,mo);
}
// 1 sat (model in m), 0 unsat, -1 unknown
static int check(E extra, std::vector<uint64_t>& m) {
  if (extra->hasfp && !svIsFp) newSolver(true);
  double t0 = now(); syncSolver();
  Z3_solver_push(Z,SV); Z3_solver_assert(Z,SV,X.tr(extra));
  Z3_lbool r = Z3_solver_check(Z,SV);
  if (r==Z3_L_TRUE) getModel(m);
  Z3_solver_pop(Z,SV,1);
  uint64_t us = (now()-t0)*1e6; S->solver_us += us; S->queries++;
  uint64_t mq = S->maxq_us; while (us>mq && !S->maxq_us.compare_exchange_weak(mq,us));
  if (r==Z3_L_TRUE) { S->sat++; return 1; } if (r==Z3_L_FALSE) { S->unsat++; return 0; }
  S->unknown++; return -1;
}
static void setModel(std::vector<uint64_t>& m) { X.model = m; X.gen++; }

static void checkStop() {
  if (S->stop) finish(nullptr);
  if (deadline && now()>deadline) { S->incomplete=1; S->stop=1; finish(nullptr); }
}
// returns true in the child
static bool forkPath() {
  checkStop();
  if (nofork) return false;
  S->forks++; fnForks[fr.back().fi]++;
  S->started++;
  uint64_t d = ++depthCount, md = S->maxdepth; while (d>md && !S->maxdepth.compare_exchange_weak(md,d));
  bool par = false;
  int a = S->active; while (a < maxWorkers) if (S->active.compare_exchange_weak(a,a+1)) { par=true; break; }
  S->insts += instCount; instCount = 0;   // flush
  fflush(stdout); fflush(stderr);
  pid_t p; int tries=0;
  while ((p = fork()) < 0) { if (++tries>200) internalErr("fork failed"); usleep(10000); }
  if (p==0) { isRoot=false; syncChild = !par; return true; }
  if (!par) { int st; while (waitpid(p,&st,0)<0 && errno==EINTR); 
    if (!(WIFEXITED(st) && WEXITSTATUS(st)==0)) { if (!S->stop) { S->internal=1; snprintf(S->inttext,sizeof S->inttext,"path process ended with status %d",st); S->stop=1; } }
    checkStop(); }
  return false;
}
// finite-domain simplification: values of a declared small-domain variable still allowed by the
// single-variable constraints on the path (sound over-approximation of the feasible set)
struct Feas { uint64_t b[4]; };
static std::unordered_map<int,Feas> feas;
static Feas& feasOf(int sv) { auto it=feas.find(sv); if (it!=feas.end()) return it->second; Feas f; memset(&f,0,sizeof f); for (uint64_t i=0;i<X.vars[sv].dom;i++) f.b[i>>6]|=1ull<<(i&63); return feas[sv]=f; }
static bool smallDom(E e) { return e->sv>=0 && X.vars[e->sv].dom && X.vars[e->sv].dom<=256; }
static int domTruth(E c) { // 1 always, 0 never, -1 depends
  Feas& f=feasOf(c->sv); uint64_t old=X.model[c->sv]; int r=-2;
  for (uint64_t i=0;i<X.vars[c->sv].dom && r!=-1;i++) if (f.b[i>>6]>>(i&63)&1) { X.model[c->sv]=i; X.gen++; int t=X.eval(c)&1; if (r==-2) r=t; else if (r!=t) r=-1; }
  X.model[c->sv]=old; X.gen++; return r;
}
static void domNarrow(E c) { if (!smallDom(c)) return; Feas& f=feasOf(c->sv); uint64_t old=X.model[c->sv];
  for (uint64_t i=0;i<X.vars[c->sv].dom;i++) if (f.b[i>>6]>>(i&63)&1) { X.model[c->sv]=i; X.gen++; if (!(X.eval(c)&1)) f.b[i>>6]&=~(1ull<<(i&63)); }
  X.model[c->sv]=old; X.gen++; }
// variables that share a constraint with another variable on this path
static std::vector<char> tangled;
static void markVars(E e, std::unordered_map<E,char>& seen) { if (!e || e->sv==-1 || seen[e]++) return; if (e->k==K_VAR) { if (tangled.size()<=e->val) tangled.resize(e->val+1); tangled[e->val]=1; return; } markVars(e->a,seen); markVars(e->b,seen); markVars(e->c,seen); }
static void entangle(E c) { if (c->sv!=-2) return; std::unordered_map<E,char> seen; markVars(c,seen); }
static bool decide(E c) {
  if (Exprs::isC(c)) return c->val;
  auto it = known.find(c); if (it!=known.end()) return it->second;
  if (smallDom(c)) { int t=domTruth(c); if (t==0||t==1) { S->domdec++; known[c]=t; known[X.Not(c)]=!t; return t; } }
  bool v = X.eval(c);
  E other = v ? X.Not(c) : c;
  std::vector<uint64_t> m; int r;
  if (smallDom(c) && !((size_t)c->sv<tangled.size() && tangled[c->sv])) {
    // a variable constrained only by itself: the model stays valid with any other allowed value of it
    S->domdec++; m=X.model; Feas& f=feasOf(c->sv); uint64_t old=X.model[c->sv]; r=-1;
    for (uint64_t i=0;i<X.vars[c->sv].dom;i++) if (f.b[i>>6]>>(i&63)&1) { X.model[c->sv]=i; X.gen++; if (X.eval(other)&1) { m[c->sv]=i; r=1; break; } }
    X.model[c->sv]=old; X.gen++; if (r<0) r=check(other,m);
  } else r = check(other,m);
  if (r==0) { known[c]=v; known[X.Not(c)]=!v; return v; }
  if (r<0) { S->incomplete=1; addPC(v?c:X.Not(c)); return v; }
  if (forkPath()) { addPC(other); setModel(m); return !v; }
  addPC(v?c:X.Not(c));
  return v;
}
static uint64_t concretize(E e) {
  if (Exprs::isC(e)) return e->val;
  for (;;) {
    uint64_t v = X.eval(e);
    if (decide(X.eq(e,X.C(v,e->w)))) return v;
  }
}
static uint64_t conc(Reg r) { return r.e ? concretize(r.e) : r.v; }
static E ex(Reg r, unsigned w) { return r.e ? r.e : X.C(r.v,w); }
static Reg mk(E e) { if (Exprs::isC(e)) return {e->val,nullptr}; return {0,e}; }

// ---------------- reporting ----------------
static std::string where() {
  std::string s; int n=0;
  for (int i=(int)fr.size()-1;i>=0 && n<14;i--,n++) { auto& f=fr[i]; uint32_t l = f.pc && f.pc-1<f.fn->code.size()? f.fn->code[f.pc-1].line&0xffff : 0; s += "    at "+f.fn->name+":"+std::to_string(l)+"\n"; }
  return s;
}
static void internalErr(const std::string& m) {
  if (!S->internal.exchange(1)) { snprintf(S->inttext,sizeof S->inttext,"%s\n%s",m.c_str(),where().c_str()); }
  S->stop=1; S->insts += instCount; S->finished++; if (isRoot) throw 1;
  if (!syncChild) S->active--;
  _exit(0);
}
// this path cannot be encoded: it is reported and left out, the others go on
static void softErr(const std::string& m) {
  S->incomplete=1; if (S->soft++==0) snprintf(S->inttext,sizeof S->inttext,"%s\n%s",m.c_str(),where().c_str());
  finish(nullptr);
}
static void violation(const std::string& kind, const std::string& msg) {
  if (!S->viol.exchange(1)) {
    std::string t = "KIND "+kind+"\nMSG "+msg+"\n";
    for (size_t i=0;i<X.vars.size();i++) t += "VAR "+X.vars[i].name+" "+std::to_string(X.model[i])+"\n";
    t += "TRACE\n"+where();
    snprintf(S->violtext,sizeof S->violtext,"%s",t.c_str());
    S->stop=1;
  }
  finish(nullptr);
}
static void finish(std::atomic<uint64_t>* ctr) {
  if (ctr) { uint64_t n=++(*ctr); if (ctr==&S->paths_done) { static const uint64_t at[8]={1,4,16,64,256,1024,4096,16384}; for (int k=0;k<8;k++) if (at[k]==n) {
    std::string t; for (size_t i=0;i<X.vars.size();i++) t += "VAR "+X.vars[i].name+" "+std::to_string(X.model[i])+"\n"; if (t.size()<sizeof S->sample[k]) { t+="."; snprintf(S->sample[k],sizeof S->sample[k],"%s",t.c_str()); } } } }
  S->insts += instCount; S->finished++;
  if (isRoot) { // root process still has to collect everything
    throw 1;
  }
  if (!syncChild) S->active--;
  _exit(0);
}

// ---------------- memory ----------------
// Tasks that may run at the same time: each is executed to its end when it is started, and what it reads and writes outside its own memory is kept
// until it is joined. Two tasks (or a task and its creator) that touch the same byte, one of them writing, without holding the same lock: a race.
// Where there is none, the order of the tasks makes no difference, so that the one order executed stands for all of them.
struct Acc { uint64_t rd=0, wr=0, rdl=0, wrl=0, lock=0; };
static std::unordered_map<uint64_t,Acc> accs; static uint64_t liveTasks=0, taskStack=0, taskHeap=0; static int curTask=-1, nTasks=0, untracked=0; static std::vector<uint64_t> locks; struct Quiet { Quiet() { untracked++; } ~Quiet() { untracked--; } };
static void trackAccess(uint64_t a, uint64_t n, bool w);
static inline void track(uint64_t a, uint64_t n, bool w) { if ((liveTasks || curTask>=0) && !untracked) trackAccess(a,n,w); }
static inline uint8_t* sh(uint64_t a) { return (uint8_t*)(SHADOW_BASE + (a-ARENA_BASE)); }
static const uint64_t SYM_BASE = 0x210000000000ull;
static inline uint64_t* symAt(uint64_t a) { return (uint64_t*)(SYM_BASE + 8*(a-ARENA_BASE)); }
static bool inArena(uint64_t a, uint64_t n) { return a>=ARENA_BASE && a+n<=ARENA_BASE+ARENA_SIZE && a+n>=a; }
static bool addressable(uint64_t a, uint64_t n, bool write=false) {
  if (!inArena(a,n)) return false;
  uint8_t* s = sh(a); for (uint64_t i=0;i<n;i++) { if (!(s[i]&SH_ADDR)) return false; if (write && (s[i]&SH_RO)) return false; }
  return true;
}
static void badAccess(const char* what, uint64_t a, uint64_t n) {
  char b[200]; snprintf(b,sizeof b,"invalid %s of %lu bytes at %#lx%s",what,(unsigned long)n,(unsigned long)a, a<4096?" (null pointer)":"");
  violation("memory",b);
}
static uint64_t galloc(uint64_t n) {
  uint64_t a = (heapTop + 16 + 15) & ~15ull;
  if (n > 0x8000000 || a+n+16 > heapEnd) internalErr("guest heap exhausted (alloc "+std::to_string(n)+")");
  *(uint64_t*)(a-8) = n; *(uint32_t*)(a-16)=0xA110C;
  memset((void*)a,0xBE,n); memset(sh(a),SH_ADDR,n);
  heapTop = a+n; return a;
}
static void gfree(uint64_t a) {
  if (!a) return;
  if (a<ARENA_BASE+16 || !inArena(a,0) || *(uint32_t*)(a-16)!=0xA110C || a>heapTop) { violation("memory", "invalid or double free"); }
  uint64_t n = *(uint64_t*)(a-8); track(a,n,true); *(uint32_t*)(a-16)=0xF4EED; memset(sh(a),0,n);
}
static inline Reg loadMem(uint64_t a, unsigned nb) {
  // a concrete
  if (!inArena(a,nb)) badAccess("read",a,nb);
  track(a,nb,false);
  uint8_t* s = sh(a); uint8_t all=0xff, any=0; for (unsigned i=0;i<nb;i++) { all&=s[i]; any|=s[i]; }
  if (!(all&SH_ADDR)) badAccess("read",a,nb);
  if (!(any&SH_SYM)) { uint64_t v=0; memcpy(&v,(void*)a,nb); return {v,nullptr}; }
  // assemble
  E r=nullptr; 
  uint64_t f = *symAt(a);
  if ((s[0]&SH_SYM) && (f&7)==0) { E e=(E)(f&~7ull); if (e->w==nb*8 || (e->w<8&&nb==1)) { bool ok=true; for (unsigned i=1;i<nb&&ok;i++) ok = (s[i]&SH_SYM) && *symAt(a+i)==((uint64_t)e|i); if (ok) return mk(e->w==nb*8? e : X.zext(e,nb*8)); } }
  for (unsigned i=0;i<nb;i++) {
    E b;
    if (s[i]&SH_SYM) { uint64_t g=*symAt(a+i); E e=(E)(g&~7ull); unsigned lo=(g&7)*8; b = lo+8<=e->w ? X.extract(e,lo,8) : X.zext(X.extract(e,lo,e->w-lo),8); }
    else b = X.C(*(uint8_t*)(a+i),8);
    r = r ? X.concat(b,r) : b;
  }
  return mk(r);
}
static inline void storeMem(uint64_t a, Reg v, unsigned nb) {
  if (!inArena(a,nb)) badAccess("write",a,nb);
  track(a,nb,true);
  uint8_t* s = sh(a);
  for (unsigned i=0;i<nb;i++) if ((s[i]&(SH_ADDR|SH_RO))!=SH_ADDR) badAccess("write",a,nb);
  if (!v.e) { memcpy((void*)a,&v.v,nb); for (unsigned i=0;i<nb;i++) s[i]=SH_ADDR; return; }
  for (unsigned i=0;i<nb;i++) { *symAt(a+i) = (uint64_t)v.e | i; s[i]=SH_ADDR|SH_SYM; }
}
static uint64_t domOf(E e) { if (e->sv>=0 && X.vars[e->sv].dom && X.vars[e->sv].dom<=256) return X.vars[e->sv].dom; return 0; }
// all values of e over its (small) single support variable
static void domValues(E e, std::vector<uint64_t>& out) {
  uint64_t n = domOf(e), sv = e->sv, old = X.model[sv];
  for (uint64_t i=0;i<n;i++) { X.model[sv]=i; X.gen++; out.push_back(X.eval(e)); }
  X.model[sv]=old; X.gen++;
}
template<class Fc> static E mapDomain(E e, unsigned w, Fc f) {
  std::vector<uint64_t> vs; domValues(e,vs);
  E var = X.varE[e->sv]; std::vector<uint64_t> rs; for (auto v : vs) rs.push_back(f(v)&msk(w));
  std::map<uint64_t,std::vector<uint64_t>> g; for (size_t i=0;i<rs.size();i++) g[rs[i]].push_back(i);
  // most frequent value is the default
  uint64_t def=0; size_t best=0; for (auto& kv : g) if (kv.second.size()>best) { best=kv.second.size(); def=kv.first; }
  E r = X.C(def,w);
  for (auto& kv : g) if (kv.first!=def) { E c = X.C(0,1); for (auto i : kv.second) c = X.bin(K_OR,c,X.eq(var,X.C(i,var->w))); r = X.ite(c,X.C(kv.first,w),r); }
  return r;
}
static bool enumerate(E e, std::vector<uint64_t>& vals, size_t maxn) {
  if (smallDom(e)) { Feas& f=feasOf(e->sv); uint64_t old=X.model[e->sv]; std::set<uint64_t> st;
    for (uint64_t i=0;i<X.vars[e->sv].dom;i++) if (f.b[i>>6]>>(i&63)&1) { X.model[e->sv]=i; X.gen++; st.insert(X.eval(e)); }
    X.model[e->sv]=old; X.gen++; if (st.size()<=maxn) { for (auto v : st) vals.push_back(v); return true; } return false; }
  E excl = X.C(1,1); 
  { uint64_t v = X.eval(e); vals.push_back(v); excl = X.bin(K_AND,excl,X.Not(X.eq(e,X.C(v,e->w)))); }
  while (vals.size()<=maxn) {
    if (Exprs::isC(excl)) return true;
    std::vector<uint64_t> m; int r = check(excl,m);
    if (r==0) return true; if (r<0) { S->incomplete=1; return true; }
    std::vector<uint64_t> sv = X.model; setModel(m); uint64_t v = X.eval(e); setModel(sv);
    vals.push_back(v); excl = X.bin(K_AND,excl,X.Not(X.eq(e,X.C(v,e->w))));
  }
  return false;
}
static Reg loadSym(Reg p, unsigned nb) {
  if (!p.e) return loadMem(p.v,nb);
  std::vector<uint64_t> vals;
  if (!enumerate(p.e,vals,48)) return loadMem(concretize(p.e),nb);
  for (auto v : vals) if (!addressable(v,nb)) { if (decide(X.eq(p.e,X.C(v,64)))) badAccess("read",v,nb); }
  E r=nullptr;
  for (auto v : vals) if (addressable(v,nb)) { E x = ex(loadMem(v,nb),nb*8); r = r ? X.ite(X.eq(p.e,X.C(v,64)),x,r) : x; }
  return mk(r);
}
static void gmemcpy(uint64_t d, uint64_t s, uint64_t n) {
  if (n) { track(s,n,false); track(d,n,true); }
  if (!n) return;
  if (!addressable(s,n)) badAccess("memcpy read",s,n);
  if (!addressable(d,n,true)) badAccess("memcpy write",d,n);
  memmove((void*)d,(void*)s,n);
  uint8_t *sd=sh(d), *ss=sh(s);
  bool any=false; for (uint64_t i=0;i<n;i++) if (ss[i]&SH_SYM) { any=true; break; }
  if (any) { std::vector<uint64_t> t(n); for (uint64_t i=0;i<n;i++) t[i] = (ss[i]&SH_SYM) ? *symAt(s+i) : 0;
    for (uint64_t i=0;i<n;i++) { if (t[i]) { *symAt(d+i)=t[i]; sd[i]=SH_ADDR|SH_SYM; } else sd[i]=SH_ADDR; } }
  else memset(sd,SH_ADDR,n);
}
static std::string gstr(uint64_t a) { std::string s; while (addressable(a,1) && *(char*)a && s.size()<4000) s += *(char*)a++; return s; }

// ---------------- exceptions ----------------
struct Exc { uint64_t obj, type; };
static std::vector<Exc> caught; static std::unordered_map<uint64_t,uint64_t> excType;
static uint64_t siVt=0, clsVt=0;
static bool typeMatch(uint64_t thrown, uint64_t want) {
  if (!want) return true;
  for (int i=0;i<20;i++) {
    if (thrown==want) return true;
    uint64_t vt = *(uint64_t*)thrown;
    if (vt==siVt+16) thrown = *(uint64_t*)(thrown+16); else return false;
  }
  return false;
}
static void popFrame() {
  Frame& f = fr.back();
  if (stackTop!=f.stackMark) { if (!accs.empty() && curTask<0) for (uint64_t i=f.stackMark;i<stackTop;i++) accs.erase(i); memset(sh(f.stackMark),0,stackTop-f.stackMark); stackTop=f.stackMark; }
  rtop = f.rb; fr.pop_back();
}
static void takeEdge(uint32_t e);
static void throwExc(uint64_t obj, uint64_t type) {
  excType[obj]=type;
  // search phase
  int h=-1; uint32_t sel=0; bool any=false;
  for (int i=(int)fr.size()-1;i>=0;i--) {
    const Inst& I = fr[i].fn->code[fr[i].pc-1];
    if (I.op!=O_INVOKE) continue;
    uint32_t ue = fr[i].fn->aux[I.x+5]; const Inst& L = fr[i].fn->code[fr[i].fn->edges[ue].target];
    if (L.op!=O_LANDINGPAD) internalErr("no landingpad");
    const uint64_t* ax = &fr[i].fn->aux[L.x];
    for (unsigned k=0;k<ax[1];k++) if (ax[2+2*k]==0 && typeMatch(type,ax[3+2*k])) { any=true; break; }
    if (any) break;
  }
  if (!any) { std::string tn; uint64_t nm=*(uint64_t*)(type+8); tn=gstr(nm); violation("exception","uncaught exception of type "+tn); }
  // unwind to the first cleanup/handler
  for (;;) {
    Frame& f = fr.back(); const Inst& I = f.fn->code[f.pc-1];
    if (I.op==O_INVOKE) {
      uint32_t ue = f.fn->aux[I.x+5]; const Inst& L = f.fn->code[f.fn->edges[ue].target];
      const uint64_t* ax = &f.fn->aux[L.x]; bool m=false;
      for (unsigned k=0;k<ax[1];k++) if (ax[2+2*k]==0 && typeMatch(type,ax[3+2*k])) { m=true; sel = ax[3+2*k] ? ((ax[3+2*k]-ARENA_BASE)&0x7fffffff) : 1; break; }
      if (m || ax[0]) {
        takeEdge(ue); Frame& g = fr.back(); // pc at landingpad
        const Inst& LP = g.fn->code[g.pc]; regs[g.rb+LP.dst]={obj,nullptr}; regs[g.rb+LP.dst+1]={m?sel:0,nullptr}; g.pc++;
        return;
      }
    }
    popFrame(); (void)h;
    if (fr.empty()) internalErr("unwound everything");
  }
}

// ---------------- builtins ----------------
typedef std::vector<Reg> Args;
typedef void (*BF)(Args&, Reg*);   // ret may be null
static std::vector<BF> bfOf;
static bool threw=false;

static E strEqExpr(uint64_t, uint64_t, uint64_t);
static void b_memcpy(Args& a, Reg* r) { uint64_t n=conc(a[2]); gmemcpy(conc(a[0]),conc(a[1]),n); if (r) *r=a[0]; }
static void b_memset(Args& a, Reg* r) { uint64_t d=conc(a[0]), n=conc(a[2]); if (r) *r={d,nullptr}; if (!n) return; if (!addressable(d,n,true)) badAccess("memset",d,n);
  if (a[1].e) { E b = X.extract(a[1].e,0,8); for (uint64_t i=0;i<n;i++) storeMem(d+i,mk(b),1); return; }
  track(d,n,true); memset((void*)d,a[1].v,n); memset(sh(d),SH_ADDR,n); }
static void b_memcmp(Args& a, Reg* r) {
  uint64_t p=conc(a[0]), q=conc(a[1]), n=conc(a[2]);
  if (n && !addressable(p,n)) badAccess("memcmp read",p,n); if (n && !addressable(q,n)) badAccess("memcmp read",q,n);
  // from last to first build ITE
  E res=X.C(0,32);
  for (uint64_t i=n;i-->0;) { E x=ex(loadMem(p+i,1),8), y=ex(loadMem(q+i,1),8);
    res = X.ite(X.eq(x,y),res,X.ite(X.cmp(K_ULT,x,y),X.C((uint64_t)-1,32),X.C(1,32))); }
  *r=mk(res);
}
static void b_strlen(Args& a, Reg* r) { uint64_t p=conc(a[0]), n=0; for (;;n++) { Reg c=loadMem(p+n,1); if (c.e) { if (decide(X.eq(c.e,X.C(0,8)))) break; } else if (!c.v) break; } *r={n,nullptr}; }
static void cmpStr(Args& a, Reg* r, uint64_t n) {
  uint64_t p=conc(a[0]), q=conc(a[1]);
  for (uint64_t i=0;i<n;i++) { E x=ex(loadMem(p+i,1),8), y=ex(loadMem(q+i,1),8);
    if (!decide(X.eq(x,y))) { *r = decide(X.cmp(K_ULT,x,y)) ? Reg{0xffffffffull,nullptr} : Reg{1,nullptr}; return; }
    if (decide(X.eq(x,X.C(0,8)))) break; }
  *r={0,nullptr};
}
static void b_strcmp(Args& a, Reg* r) { cmpStr(a,r,~0ull); }
static void b_strncmp(Args& a, Reg* r) { cmpStr(a,r,conc(a[2])); }
static void b_memchr(Args& a, Reg* r) { uint64_t p=conc(a[0]), n=conc(a[2]); E c=X.extract(ex(a[1],32),0,8);
  for (uint64_t i=0;i<n;i++) if (decide(X.eq(ex(loadMem(p+i,1),8),c))) { *r={p+i,nullptr}; return; } *r={0,nullptr}; }
static void b_malloc(Args& a, Reg* r) { *r={galloc(conc(a[0])),nullptr}; }
static void b_calloc(Args& a, Reg* r) { uint64_t n=conc(a[0])*conc(a[1]); uint64_t p=galloc(n); memset((void*)p,0,n); *r={p,nullptr}; }
static void b_realloc(Args& a, Reg* r) { uint64_t p=conc(a[0]), n=conc(a[1]); uint64_t q=galloc(n); if (p) { uint64_t o=*(uint64_t*)(p-8); gmemcpy(q,p,std::min(o,n)); gfree(p); } *r={q,nullptr}; }
static void b_free(Args& a, Reg*) { gfree(conc(a[0])); }
static void b_nop(Args& a, Reg* r) { if (r) *r={0,nullptr}; }
static void b_ret1(Args& a, Reg* r) { if (r) *r={1,nullptr}; }
// 1: may exit, 2: may exit as a failure, 3: may exit as a success
static void b_exit(Args& a, Reg*) { int c=(int)conc(a[0]); if (exitPolicy==1 || (exitPolicy==2 && c) || (exitPolicy==3 && !c)) finish(&S->paths_exit); violation("exit","exit("+std::to_string(c)+") called"); }
static void b_abort(Args& a, Reg*) { violation("abort","abort/terminate called"); }
static void b_trap(Args& a, Reg*) { violation("trap","trap reached"); }
static void b_assertfail(Args& a, Reg*) { violation("assert","__assert_fail: "+gstr(a[0].v)); }
// sx API
static uint64_t newVar(const std::string& n, unsigned w, uint64_t dom, Reg* r) {
  E e=X.var(n,w,dom); if (dom && dom<=msk(w)) addPC(X.cmp(K_ULT,e,X.C(dom,w))); *r=mk(e); return 0; }
static void b_sxu8(Args& a, Reg* r) { newVar(gstr(a[0].v),8,0,r); }
static void b_sxu16(Args& a, Reg* r) { newVar(gstr(a[0].v),16,0,r); }
static void b_sxu32(Args& a, Reg* r) { newVar(gstr(a[0].v),32,0,r); }
static void b_sxu64(Args& a, Reg* r) { newVar(gstr(a[0].v),64,0,r); }
static void b_sxbelow(Args& a, Reg* r) { // value in [0,n)
  uint64_t n=conc(a[1]); std::string nm=gstr(a[0].v); if (n<=1) { X.var(nm,8,1); addPC(X.eq(X.varE.back(),X.C(0,8))); *r={0,nullptr}; return; }
  unsigned w = n<=256?8:n<=65536?16:32; E e=X.var(nm,w,n); if (n<=msk(w)) addPC(X.cmp(K_ULT,e,X.C(n,w))); *r=mk(X.zext(e,32)); }
static void b_fma(Args& a, Reg* r) { *r=mk(X.fop(K_FADD,64,X.fop(K_FMUL,64,ex(a[0],64),ex(a[1],64)),ex(a[2],64))); }
static void b_sxtable(Args& a, Reg* r) { // sx_table(idx, const u32* tab, n): non-forking lookup
  uint64_t t=conc(a[1]), n=conc(a[2]);
  if (!a[0].e) { if (a[0].v>=n) violation("harness","table index"); *r=loadMem(t+4*a[0].v,4); return; }
  E i=a[0].e; E res=ex(loadMem(t+4*(n-1),4),32); for (uint64_t k=n-1;k-->0;) res=X.ite(X.eq(i,X.C(k,i->w)),ex(loadMem(t+4*k,4),32),res); *r=mk(res); }
static void b_sxassume(Args& a, Reg*) {
  S->assumes++; E c = a[0].e; if (!c) { if (!(a[0].v&1)) finish(&S->paths_assume); return; }
  c = c->w==1? c : X.Not(X.eq(c,X.C(0,c->w)));
  if (Exprs::isC(c)) { if (!c->val) finish(&S->paths_assume); return; }
  if (X.eval(c)) { addPC(c); return; }
  std::vector<uint64_t> m; int r=check(c,m); if (r<0) S->incomplete=1; if (r<=0) finish(&S->paths_assume);
  addPC(c); setModel(m);
}
static void b_sxassert(Args& a, Reg*) {
  E c=a[0].e; std::string msg;
  if (!c) { if (!(a[0].v&0xff)) { violation("assert",gstr(conc(a[1]))); } S->asserts_triv++; return; }
  c = c->w==1? c : X.Not(X.eq(c,X.C(0,c->w)));
  if (Exprs::isC(c)) { if (!c->val) violation("assert",gstr(conc(a[1]))); S->asserts_triv++; return; }
  S->asserts_solver++;
  E n=X.Not(c);
  if (X.eval(n)) violation("assert",gstr(conc(a[1])));
  auto it=known.find(c); if (it!=known.end() && it->second) return;
  if (smallDom(c) && domTruth(c)==1) { S->domdec++; return; }
  std::vector<uint64_t> m; int r=check(n,m);
  if (r==1) { setModel(m); violation("assert",gstr(conc(a[1]))); }
  if (r<0) S->incomplete=1;
  known[c]=true; known[n]=false;
}
static void b_sxreach(Args& a, Reg*) { uint64_t i=conc(a[0]); if (i<64) S->reach[i]++; }
static void b_sxconc(Args& a, Reg* r) { *r={conc(a[0]),nullptr}; }
static void b_sxissym(Args& a, Reg* r) { *r={a[0].e?1ull:0ull,nullptr}; }
static void b_sxend(Args& a, Reg*) { finish(&S->paths_done); }
static void b_sxexitpol(Args& a, Reg*) { exitPolicy=conc(a[0]); }
static void b_sxdebug(Args& a, Reg*) { fprintf(stderr,"[%d] %s %s=%ld\n",getpid(),gstr(a[0].v).c_str(),a[1].e?"sym":"",(long)(a[1].e?X.eval(a[1].e):a[1].v)); }
static void b_sxprint(Args& a, Reg*) { uint64_t p=conc(a[1]), n=conc(a[2]); std::string s; for (uint64_t i=0;i<n;i++) { Reg c=loadMem(p+i,1); s+=(char)(c.e?X.eval(c.e):c.v); } fprintf(stderr,"[%d] %s \"%s\"\n",getpid(),gstr(a[0].v).c_str(),s.c_str()); }
static void b_isnative(Args& a, Reg* r) { *r={0,nullptr}; }
// exceptions
static void b_allocexc(Args& a, Reg* r) { *r={galloc(conc(a[0])+32),nullptr}; }
static void b_throw(Args& a, Reg*) { threw=true; throwExc(conc(a[0]),conc(a[1])); }
static void b_begincatch(Args& a, Reg* r) { uint64_t o=conc(a[0]); caught.push_back({o,excType[o]}); if (r) *r={o,nullptr}; }
static void b_endcatch(Args& a, Reg*) { if (!caught.empty()) caught.pop_back(); }
static void b_rethrow(Args& a, Reg*) { if (caught.empty()) violation("exception","rethrow without exception"); Exc e=caught.back(); threw=true; throwExc(e.obj,e.type); }
// math
template<double (*F)(double)> static void b_m1(Args& a, Reg* r) { double d=Exprs::D(conc(a[0])); *r={Exprs::B(F(d)),nullptr}; }
// ICU character properties: concrete -> real ICU; symbolic -> ITE over the value set of its support
template<class Fc> static void icuFn(const char* nm, Args& a, Reg* r, Fc f) {
  if (!a[0].e) { *r={(uint64_t)(uint32_t)f((UChar32)(int32_t)a[0].v),nullptr}; return; }
  E e=a[0].e; std::string key=std::string(nm)+std::to_string(e->id);
  auto it=fncache.find(key); if (it!=fncache.end()) { *r=mk(it->second); return; }
  E res;
  if (domOf(e)) res=mapDomain(e,32,[&](uint64_t v){ return (uint64_t)(uint32_t)f((UChar32)(int32_t)v); });
  else {
    std::vector<uint64_t> vals;
    if (enumerate(e,vals,40)) { res=nullptr; for (auto v : vals) { E x=X.C((uint32_t)f((UChar32)v),32); res = res ? X.ite(X.eq(e,X.C(v,e->w)),x,res) : x; } }
    else { // piecewise over the whole code space: runs of constant (f(c)-c) or constant f
      uint64_t hi = e->w<32 ? msk(e->w) : 0x10ffff; if (e->k==K_ZEXT) hi = std::min<uint64_t>(hi,msk(e->a->w));
      struct Run { uint64_t lo,hi; int64_t v; bool off; };
      bool off = strncmp(nm,"u_to",4)==0; std::vector<Run> runs;
      for (uint64_t c=0;c<=std::min<uint64_t>(hi,0x10ffff);c++) { int64_t v=(int64_t)f((UChar32)c) - (off?(int64_t)c:0); if (!runs.empty() && runs.back().v==v) runs.back().hi=c; else runs.push_back({c,c,v,off}); }
      E e32=X.zext(e,32); if (e->w>32) e32=X.extract(e,0,32);
      int64_t def = off?0:(int64_t)f(-1); res = off ? e32 : X.C((uint32_t)def,32);
      for (auto& q : runs) if (q.v!=def) { E c = q.lo==q.hi ? X.eq(e32,X.C(q.lo,32)) : X.bin(K_AND,X.cmp(K_ULE,X.C(q.lo,32),e32),X.cmp(K_ULE,e32,X.C(q.hi,32)));
        res=X.ite(c, off?X.bin(K_ADD,e32,X.C((uint64_t)q.v,32)):X.C((uint64_t)q.v,32), res); }
    }
  }
  fncache[key]=res; *r=mk(res);
}
#define ICUF(n) static void b_##n(Args& a, Reg* r) { icuFn(#n,a,r,[](UChar32 c){ return n(c); }); }
ICUF(u_tolower) ICUF(u_toupper) ICUF(u_totitle) ICUF(u_isupper) ICUF(u_islower) ICUF(u_istitle) ICUF(u_isspace) ICUF(u_isalpha) ICUF(u_isalnum) ICUF(u_isdigit) ICUF(u_ispunct) ICUF(u_iscntrl) ICUF(u_isgraph) ICUF(u_isblank) ICUF(u_isprint) ICUF(u_isWhitespace) ICUF(u_isUWhiteSpace) ICUF(u_isUUppercase) ICUF(u_isULowercase) ICUF(u_charType) ICUF(u_isxdigit) ICUF(u_isbase) ICUF(u_isdefined) ICUF(u_isUAlphabetic) ICUF(u_charDirection) ICUF(u_isMirrored) ICUF(u_isIDStart) ICUF(u_isIDPart) ICUF(u_charDigitValue) ICUF(u_getCombiningClass)

static void b_u_foldCase(Args& a, Reg* r) { uint32_t o=(uint32_t)conc(a[1]); icuFn(o?"u_toFold1":"u_toFold0",a,r,[o](UChar32 c){ return u_foldCase(c,o); }); }
static void b_u_hasBinaryProperty(Args& a, Reg* r) { int o=(int)conc(a[1]); icuFn(("u_hasBP"+std::to_string(o)+"_").c_str(),a,r,[o](UChar32 c){ return u_hasBinaryProperty(c,(UProperty)o); }); }
static void b_strtod(Args& a, Reg* r) { uint64_t p=conc(a[0]), o=conc(a[1]); std::string s; for (int i=0;;i++) { Reg c=loadMem(p+i,1); uint64_t v=c.e?concretize(c.e):c.v; if (!v) break; s.push_back((char)v); } char* e; errno=0; double d=strtod(s.c_str(),&e); int er=errno; if (o) storeMem(o,{p+(uint64_t)(e-s.c_str()),nullptr},8); if (a.size()>2) { uint64_t q=conc(a[2]); if (er) storeMem(q,{(uint64_t)er,nullptr},4); } *r={Exprs::B(d),nullptr}; }

// ICU string case mapping: symbolic characters are mapped one by one when every value of their domain
// maps to exactly one unit independently of context; otherwise they are enumerated (path split).
static bool simpleCase(int kind, uint64_t v) {
  if (v==0x3a3||v==0x3c3||v==0x3c2||(v>=0xd800&&v<0xe000)) return false;
  UChar in[2]={(UChar)v,0}, out[8]; UErrorCode e=U_ZERO_ERROR; int n = kind==0? u_strToLower(out,8,in,1,0,&e) : kind==1? u_strToUpper(out,8,in,1,0,&e) : u_strFoldCase(out,8,in,1,0,&e);
  UChar32 w = kind==0?u_tolower(v):kind==1?u_toupper(v):u_foldCase(v,0); return n==1 && out[0]==w && !(v>=0x300&&v<0x370);
}
static bool gatherU(uint64_t p, int n, int kind, std::vector<Reg>& cs) { // true if anything is still symbolic
  bool sym=false; for (int i=0;i<n;i++) { Reg c=loadMem(p+2*i,2); if (c.e) { bool ok=false; std::vector<uint64_t> vs; if (kind>=0 && enumerate(c.e,vs,256)) { ok=true; for (auto v : vs) if (!simpleCase(kind,v)) ok=false; } if (!ok) c={concretize(c.e),nullptr}; else sym=true; } cs.push_back(c); }
  return sym; }
static E mapCase(int kind, E e) { if (e->k==K_CONST) {} std::vector<uint64_t> vs; enumerate(e,vs,256); E r=e; for (auto v : vs) { uint64_t w = kind==0?u_tolower(v):kind==1?u_toupper(v):u_foldCase(v,0); if (w!=v) r=X.ite(X.eq(e,X.C(v,16)),X.C(w,16),r); } return r; }
static int ulen(uint64_t p, int n) { if (n>=0) return n; n=0; for (;;n++) { Reg c=loadMem(p+2*n,2); if (c.e? decide(X.eq(c.e,X.C(0,16))) : c.v==0) return n; } }
template<int KIND> static void b_strcase(Args& a, Reg* r) { // dest,cap,src,len,(iter,)locale,err
  uint64_t d=conc(a[0]); int cap=(int)conc(a[1]); uint64_t s=conc(a[2]); int n=ulen(s,(int)conc(a[3])); uint64_t err=conc(a[KIND==2?6:5]);
  std::vector<Reg> cs; bool sym=gatherU(s,n,KIND==2?-1:KIND,cs); std::vector<Reg> out;
  if (sym) { bool ctx=false; for (auto& c : cs) ctx|=!c.e && !simpleCase(KIND,c.v); if (ctx) { for (auto& c : cs) if (c.e) c={concretize(c.e),nullptr}; sym=false; } }
  if (sym) for (auto& c : cs) out.push_back(mk(mapCase(KIND,ex(c,16))));
  else { std::vector<UChar> in, o(n*4+16); for (auto& c : cs) in.push_back(c.v); in.push_back(0); UErrorCode e=U_ZERO_ERROR;
    int k = KIND==0?u_strToLower(o.data(),o.size(),in.data(),n,nullptr,&e):KIND==1?u_strToUpper(o.data(),o.size(),in.data(),n,nullptr,&e):u_strToTitle(o.data(),o.size(),in.data(),n,nullptr,nullptr,&e);
    for (int i=0;i<k;i++) out.push_back({o[i],nullptr}); }
  for (int i=0;i<(int)out.size()&&i<cap;i++) storeMem(d+2*i,out[i],2);
  if ((int)out.size()<cap) storeMem(d+2*out.size(),{0,nullptr},2);
  if ((int)out.size()==cap) storeMem(err,{(uint64_t)(uint32_t)U_STRING_NOT_TERMINATED_WARNING,nullptr},4); else if ((int)out.size()>cap) storeMem(err,{U_BUFFER_OVERFLOW_ERROR,nullptr},4);
  *r={out.size(),nullptr};
}
static void b_casecmp(Args& a, Reg* r) {
  uint64_t p=conc(a[0]), q=conc(a[2]); int n=ulen(p,(int)conc(a[1])), m=ulen(q,(int)conc(a[3]));
  std::vector<Reg> x,y; bool sx=gatherU(p,n,3,x), sy=gatherU(q,m,3,y);
  if (sx || sy) { bool ctx=false; for (auto* z : {&x,&y}) for (auto& c : *z) ctx|=!c.e && !simpleCase(3,c.v); if (ctx) { for (auto* z : {&x,&y}) for (auto& c : *z) if (c.e) c={concretize(c.e),nullptr}; sx=sy=false; } }
  if (!sx && !sy) { std::vector<UChar> u,v; for (auto& c : x) u.push_back(c.v); for (auto& c : y) v.push_back(c.v); u.push_back(0); v.push_back(0); UErrorCode e=U_ZERO_ERROR; int k=u_strCaseCompare(u.data(),n,v.data(),m,0,&e); *r={(uint64_t)(uint32_t)k,nullptr}; return; }
  for (auto* z : {&x,&y}) for (auto& c : *z) if (!c.e && !simpleCase(3,c.v)) internalErr("mixed case folding of context-dependent character");
  E res = n==m?X.C(0,32):n<m?X.C(0xffffffffull,32):X.C(1,32);
  for (int i=std::min(n,m);i-->0;) { E u=mapCase(3,ex(x[i],16)), v=mapCase(3,ex(y[i],16)); res=X.ite(X.eq(u,v),res,X.ite(X.cmp(K_ULT,u,v),X.C(0xffffffffull,32),X.C(1,32))); }
  *r=mk(res);
}
static void b_strcasecmp(Args& a, Reg* r) { Args b={a[0],{(uint64_t)(uint32_t)-1,nullptr},a[1],{(uint64_t)(uint32_t)-1,nullptr}}; b_casecmp(b,r); }
static void b_memcasecmp(Args& a, Reg* r) { Args b={a[0],a[2],a[1],a[2]}; b_casecmp(b,r); }
static void b_vacopy(Args& a, Reg*) { uint64_t d=conc(a[0]), s=conc(a[1]); for (int i=0;i<24;i+=8) storeMem(d+i,loadMem(s+i,8),8); }
static void b_fmtdouble(Args& a, Reg* r) { uint64_t b=conc(a[0]); int cv=(int)conc(a[1]), pr=(int)conc(a[2]); double d=Exprs::D(conc(a[3])); char f[8]="%.*f"; f[3]=cv; char buf[512]; int n=snprintf(buf,sizeof buf,f,pr,d); if (!addressable(b,n+1,true)) badAccess("write",b,n+1); for (int i=0;i<=n;i++) storeMem(b+i,{(uint64_t)(unsigned char)buf[i],nullptr},1); *r={(uint64_t)n,nullptr}; }
static void b_scan(Args& a, Reg* r) { uint64_t s=conc(a[0]); int k=(int)conc(a[1]); uint64_t o=conc(a[2]); std::vector<UChar> u; for (int i=0;;i++) { Reg c=loadMem(s+2*i,2); uint64_t v=conc(c); u.push_back(v); if (!v) break; }
  if (k=='d') { int32_t v=0; int n=u_sscanf(u.data(),"%d",&v); if (n>0) storeMem(o,{(uint64_t)(uint32_t)v,nullptr},4); *r={(uint64_t)(uint32_t)n,nullptr}; }
  else { double v=0; int n=u_sscanf(u.data(),"%lf",&v); if (n>0) storeMem(o,{Exprs::B(v),nullptr},8); *r={(uint64_t)(uint32_t)n,nullptr}; } }
static void b_guardend(Args&, Reg*) { untracked--; }
static void b_taskbegin(Args&, Reg*); static void b_taskend(Args&, Reg*); static void b_taskjoin(Args&, Reg*); static void b_lock(Args&, Reg*); static void b_unlock(Args&, Reg*); static void b_quiet(Args&, Reg*);
static std::map<std::string,BF> builtinTable() {
  std::map<std::string,BF> t;
  for (const char* n : {"memcpy","memmove","llvm.memcpy.p0.p0.i64","llvm.memmove.p0.p0.i64","llvm.memcpy.inline.p0.p0.i64","llvm.memcpy.p0.p0.i32"}) t[n]=b_memcpy;
  for (const char* n : {"memset","llvm.memset.p0.i64","llvm.memset.inline.p0.i64"}) t[n]=b_memset;
  t["memcmp"]=b_memcmp; t["bcmp"]=b_memcmp; t["strlen"]=b_strlen; t["strcmp"]=b_strcmp; t["strncmp"]=b_strncmp; t["memchr"]=b_memchr;
  t["malloc"]=b_malloc; t["calloc"]=b_calloc; t["realloc"]=b_realloc; t["free"]=b_free;
  t["_Znwm"]=b_malloc; t["_Znam"]=b_malloc; t["_ZnwmRKSt9nothrow_t"]=b_malloc; t["_ZnamRKSt9nothrow_t"]=b_malloc; t["_ZnwmSt11align_val_t"]=b_malloc;
  for (const char* n : {"_ZdlPv","_ZdlPvm","_ZdaPv","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdlPvRKSt9nothrow_t"}) t[n]=b_free;
  t["exit"]=b_exit; t["_exit"]=b_exit; t["_Exit"]=b_exit; t["quick_exit"]=b_exit; t["abort"]=b_abort; t["_ZSt9terminatev"]=b_abort; t["__clang_call_terminate"]=b_abort; t["llvm.trap"]=b_trap; t["__assert_fail"]=b_assertfail; t["__cxa_pure_virtual"]=b_abort;
  t["__cxa_atexit"]=b_nop; t["__cxa_thread_atexit"]=b_nop; t["atexit"]=b_nop; t["__cxa_guard_release"]=b_guardend; t["__cxa_free_exception"]=b_nop; t["__cxa_guard_abort"]=b_guardend;
  t["__cxa_allocate_exception"]=b_allocexc; t["__cxa_throw"]=b_throw; t["__cxa_begin_catch"]=b_begincatch; t["__cxa_end_catch"]=b_endcatch; t["__cxa_rethrow"]=b_rethrow;
  t["sx_u8"]=b_sxu8; t["sx_u16"]=b_sxu16; t["sx_u32"]=b_sxu32; t["sx_u64"]=b_sxu64; t["sx_below"]=b_sxbelow; t["sx_table"]=b_sxtable; t["sx_assume"]=b_sxassume; t["sx_assert_"]=b_sxassert; t["sx_reach"]=b_sxreach; t["sx_concretize"]=b_sxconc; t["sx_is_symbolic"]=b_sxissym; t["sx_task_begin"]=b_taskbegin; t["sx_task_end"]=b_taskend; t["sx_task_join"]=b_taskjoin; t["sx_lock"]=b_lock; t["sx_unlock"]=b_unlock; t["sx_quiet"]=b_quiet; t["sx_end"]=b_sxend; t["sx_exit_policy"]=b_sxexitpol; t["sx_debug"]=b_sxdebug; t["sx_print"]=b_sxprint; t["sx_native"]=b_isnative;
  t["llvm.fmuladd.f64"]=b_fma; t["floor"]=b_m1<floor>; t["ceil"]=b_m1<ceil>; t["sqrt"]=b_m1<sqrt>; t["log"]=b_m1<log>; t["exp"]=b_m1<exp>; t["llvm.floor.f64"]=b_m1<floor>; t["llvm.ceil.f64"]=b_m1<ceil>; t["round"]=b_m1<round>;
#define REG(n) t[std::string(#n)+ICUSUF]=b_##n;
  static const char* ICUSUF="_74"; // replaced below by the version this was built against
  std::string suf = std::string("_")+std::to_string(U_ICU_VERSION_MAJOR_NUM); ICUSUF=suf.c_str();
  t["sx_fmt_double"]=b_fmtdouble; t["sx_scan"]=b_scan; t["sx_strtod"]=b_strtod; t["u_strToLower"+suf]=b_strcase<0>; t["u_strToUpper"+suf]=b_strcase<1>; t["u_strToTitle"+suf]=b_strcase<2>; t["u_strCaseCompare"+suf]=b_casecmp; t["u_strcasecmp"+suf]=b_strcasecmp; t["u_memcasecmp"+suf]=b_memcasecmp; t["llvm.va_copy"]=b_vacopy; t["llvm.va_copy.p0"]=b_vacopy;
  REG(u_tolower) REG(u_toupper) REG(u_totitle) REG(u_isupper) REG(u_islower) REG(u_istitle) REG(u_isspace) REG(u_isalpha) REG(u_isalnum) REG(u_isdigit) REG(u_ispunct) REG(u_iscntrl) REG(u_isgraph) REG(u_isblank) REG(u_isprint) REG(u_isWhitespace) REG(u_isUWhiteSpace) REG(u_isUUppercase) REG(u_isULowercase) REG(u_charType) REG(u_isxdigit) REG(u_isbase) REG(u_isdefined) REG(u_foldCase) REG(u_hasBinaryProperty) REG(u_isUAlphabetic) REG(u_charDirection) REG(u_isMirrored) REG(u_isIDStart) REG(u_isIDPart) REG(u_charDigitValue) REG(u_getCombiningClass)
  return t;
}

// ---------------- interpreter ----------------
static std::vector<Reg> tmpCopies;
static void takeEdge(uint32_t e) {
  Frame& f=fr.back(); const Edge& ed=f.fn->edges[e];
  size_t n=ed.copies.size();
  if (n) {
    Reg* R=regs+f.rb;
    if (n==1) { auto& c=ed.copies[0]; R[c.dst] = c.src.reg>=0 ? R[c.src.reg] : Reg{c.src.imm,nullptr}; }
    else {
      if (tmpCopies.size()<n) tmpCopies.resize(n*2);
      for (size_t i=0;i<n;i++) { auto& c=ed.copies[i]; tmpCopies[i] = c.src.reg>=0 ? R[c.src.reg] : Reg{c.src.imm,nullptr}; }
      for (size_t i=0;i<n;i++) R[ed.copies[i].dst]=tmpCopies[i];
    }
  }
  f.pc=ed.target;
}
static std::vector<std::pair<uint64_t,uint64_t>> stdStreams;
static void trackAccess(uint64_t a, uint64_t n, bool w) {
  if (curTask>=0 && ((a>=taskStack && a<stackBase+0x4000000 && a>=stackBase) || (a>=taskHeap && a<heapEnd && a>=taskHeap))) return;   // its own stack and what it allocated
  for (auto& r : stdStreams) if (a>=r.first && a<r.second) return;   // the library allows several threads to use them
  uint64_t me = curTask>=0 ? 1ull<<curTask : 0, oth = liveTasks&~me;
  for (uint64_t i=0;i<n;i++) { auto it=accs.find(a+i); if (it==accs.end()) { if (curTask<0) continue; it=accs.emplace(a+i,Acc()).first; } Acc& x=it->second;
    bool same=!locks.empty() && x.lock==locks[0];
    uint64_t bad = w ? (x.rd|x.wr) : x.wr; if (!same) bad |= w ? (x.rdl|x.wrl) : x.wrl;
    if (bad&oth) { char b[160]; snprintf(b,sizeof b,"two tasks use the same data at the same time: %s of %lu bytes at %#lx",w?"write":"read",(unsigned long)n,(unsigned long)a); violation("race",b); }
    if (curTask<0) continue;
    if (locks.empty() || (x.lock && x.lock!=locks[0])) (w?x.wr:x.rd)|=me; else { x.lock=locks[0]; (w?x.wrl:x.rdl)|=me; } }
}
// each task has its own thread-local variables
static std::vector<std::vector<uint64_t>> tlsSave; static std::vector<uint8_t> tlsInit;
static void tlsSwitch(bool in) { size_t k=0, q=0; for (auto& g : P.globals) if (g.def&2) { if (in) { std::vector<uint64_t> s; for (uint64_t i=0;i<g.size;i++) { uint8_t* h=sh(g.addr+i); s.push_back(*(uint8_t*)(g.addr+i)|(uint64_t)*h<<8); s.push_back((*h&SH_SYM)?*symAt(g.addr+i):0); *h&=~SH_SYM; *(uint8_t*)(g.addr+i)=tlsInit[q++]; } tlsSave.push_back(s); }
    else { auto& s=tlsSave[k++]; for (uint64_t i=0;i<g.size;i++) { *(uint8_t*)(g.addr+i)=(uint8_t)s[2*i]; *sh(g.addr+i)=(uint8_t)(s[2*i]>>8); if (s[2*i+1]) *symAt(g.addr+i)=s[2*i+1]; } } }
  if (!in) tlsSave.clear(); }
static void b_taskbegin(Args& a, Reg* r) { tlsSwitch(true); if (curTask>=0 || nTasks>=63) softErr("too many tasks or tasks within tasks"); curTask=nTasks++; liveTasks|=1ull<<curTask; taskStack=stackTop+1; taskHeap=heapTop+1; r->v=curTask; r->e=nullptr; }
static void b_taskend(Args& a, Reg*) { tlsSwitch(false); curTask=-1; for (auto& g : P.globals) if (g.def&2) for (uint64_t i=0;i<g.size;i++) accs.erase(g.addr+i); }
static void b_taskjoin(Args& a, Reg*) { liveTasks&=~(1ull<<conc(a[0])); if (!liveTasks) accs.clear(); }
static void b_lock(Args& a, Reg*) { locks.push_back(conc(a[0])); }
static void b_unlock(Args& a, Reg*) { uint64_t l=conc(a[0]); for (size_t i=locks.size();i-->0;) if (locks[i]==l) { locks.erase(locks.begin()+i); return; } }
static void b_quiet(Args& a, Reg*) { untracked+=(int)conc(a[0]); }
static uint64_t salloc(uint64_t n, uint64_t al) {
  if (al<16) al=16;
  uint64_t a=(stackTop+16+al-1)/al*al; if (a+n+16>stackBase+0x4000000) violation("stack","guest stack overflow");
  memset((void*)a,0xBE,n); memset(sh(a),SH_ADDR,n); stackTop=a+n; return a;
}
static void enter(uint32_t fi, const Reg* args, unsigned nargs, unsigned nfixed) {
  const Fn& fn=P.fns[fi];
  if (fr.size()>20000) violation("stack","call depth exceeded");
  fnHit[fi]=1;
  Frame f; f.fn=&fn; f.fi=fi; f.pc=0; f.rb=rtop; f.stackMark=stackTop; f.va=0;
  rtop+=fn.nregs; if (rtop>REGS) violation("stack","register stack overflow");
  for (unsigned i=0;i<fn.nparamslots && i<nargs;i++) regs[f.rb+i]=args[i];
  if (fn.varargs && nargs>nfixed) {
    uint64_t a=salloc((nargs-nfixed)*8,16); for (unsigned i=nfixed;i<nargs;i++) storeMem(a+8*(i-nfixed), args[i].e?mk(X.zext(args[i].e,64)):args[i],8);
    f.va=a;
  }
  fr.push_back(f);
}
static E fcmpE(unsigned pred, E a, E b) {
  // LLVM FCmpInst predicates
  E un = X.bin(K_OR, X.fop(K_FISNAN,1,a,a), X.fop(K_FISNAN,1,b,b));
  E o = X.Not(un);
  switch (pred) {
  case 0: return X.C(0,1); case 1: return X.fop(K_FEQ,1,a,b); case 2: return X.fop(K_FLT,1,b,a); case 3: return X.fop(K_FLE,1,b,a);
  case 4: return X.fop(K_FLT,1,a,b); case 5: return X.fop(K_FLE,1,a,b); case 6: return X.bin(K_AND,o,X.Not(X.fop(K_FEQ,1,a,b))); case 7: return o;
  case 8: return un; case 9: return X.bin(K_OR,un,X.fop(K_FEQ,1,a,b)); case 10: return X.bin(K_OR,un,X.fop(K_FLT,1,b,a)); case 11: return X.bin(K_OR,un,X.fop(K_FLE,1,b,a));
  case 12: return X.bin(K_OR,un,X.fop(K_FLT,1,a,b)); case 13: return X.bin(K_OR,un,X.fop(K_FLE,1,a,b)); case 14: return X.Not(X.fop(K_FEQ,1,a,b)); default: return X.C(1,1);
  }
}
static bool fcmpC(unsigned p, double a, double b) {
  bool un = a!=a || b!=b;
  switch (p) { case 0: return false; case 1: return a==b; case 2: return a>b; case 3: return a>=b; case 4: return a<b; case 5: return a<=b; case 6: return !un && a!=b; case 7: return !un;
   case 8: return un; case 9: return un||a==b; case 10: return un||a>b; case 11: return un||a>=b; case 12: return un||a<b; case 13: return un||a<=b; case 14: return un||a!=b; default: return true; }
}
static E icmpE(unsigned p, E a, E b) {
  switch (p) { case P_EQ: return X.eq(a,b); case P_NE: return X.Not(X.eq(a,b)); case P_UGT: return X.cmp(K_ULT,b,a); case P_UGE: return X.cmp(K_ULE,b,a);
   case P_ULT: return X.cmp(K_ULT,a,b); case P_ULE: return X.cmp(K_ULE,a,b); case P_SGT: return X.cmp(K_SLT,b,a); case P_SGE: return X.cmp(K_SLE,b,a); case P_SLT: return X.cmp(K_SLT,a,b); default: return X.cmp(K_SLE,a,b); }
}
static inline bool icmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
  switch (p) { case P_EQ: return a==b; case P_NE: return a!=b; case P_UGT: return a>b; case P_UGE: return a>=b; case P_ULT: return a<b; case P_ULE: return a<=b;
   case P_SGT: return sx64(a,w)>sx64(b,w); case P_SGE: return sx64(a,w)>=sx64(b,w); case P_SLT: return sx64(a,w)<sx64(b,w); default: return sx64(a,w)<=sx64(b,w); }
}
static Args callArgs;
static uint32_t fnAt(uint64_t a) { if (a<FN_BASE || (a-FN_BASE)%16 || (a-FN_BASE)/16>=P.fns.size()) { char b[80]; snprintf(b,sizeof b,"call through invalid function pointer %#lx",(unsigned long)a); violation("memory",b); } return (a-FN_BASE)/16; }

static void run(size_t base) { // run until frame depth drops to base
  while (fr.size()>base) {
    Frame& f=fr.back(); if (covHit) covHit[covBase[f.fn-P.fns.data()]+f.pc]=1;
    const Inst& I=f.fn->code[f.pc++]; Reg* R=regs+f.rb;
    if (++instCount > maxInst) violation("hang","instruction limit exceeded on one path (possible non-termination)");
    if ((instCount&0xfffff)==0) checkStop();
#define A (I.a.reg>=0?R[I.a.reg]:Reg{I.a.imm,nullptr})
#define Bo (I.b.reg>=0?R[I.b.reg]:Reg{I.b.imm,nullptr})
#define Co (I.c.reg>=0?R[I.c.reg]:Reg{I.c.imm,nullptr})
    switch (I.op) {
#define BIN(O,K,EXP) case O: { Reg a=A,b=Bo; if (!a.e&&!b.e) { R[I.dst]={(uint64_t)(EXP)&msk(I.w),nullptr}; } else R[I.dst]=mk(X.bin(K,ex(a,I.w),ex(b,I.w))); break; }
    BIN(O_ADD,K_ADD,a.v+b.v) BIN(O_SUB,K_SUB,a.v-b.v) BIN(O_MUL,K_MUL,a.v*b.v)
    BIN(O_AND,K_AND,a.v&b.v) BIN(O_OR,K_OR,a.v|b.v) BIN(O_XOR,K_XOR,a.v^b.v)
    BIN(O_SHL,K_SHL,Exprs::fold(K_SHL,I.w,a.v,b.v)) BIN(O_LSHR,K_LSHR,Exprs::fold(K_LSHR,I.w,a.v,b.v)) BIN(O_ASHR,K_ASHR,Exprs::fold(K_ASHR,I.w,a.v,b.v))
    case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
      Reg a=A,b=Bo; uint8_t k = I.op==O_UDIV?K_UDIV:I.op==O_SDIV?K_SDIV:I.op==O_UREM?K_UREM:K_SREM;
      if (b.e ? decide(X.eq(b.e,X.C(0,I.w))) : b.v==0) violation("div","division by zero");
      if (!a.e&&!b.e) R[I.dst]={Exprs::fold(k,I.w,a.v,b.v),nullptr}; else R[I.dst]=mk(X.bin(k,ex(a,I.w),ex(b,I.w))); break; }
#define FB(O,K) case O: { Reg a=A,b=Bo; if (!a.e&&!b.e) R[I.dst]={Exprs::ffold(K,I.w,I.w,a.v,b.v),nullptr}; else R[I.dst]=mk(X.fop(K,I.w,ex(a,I.w),ex(b,I.w))); break; }
    FB(O_FADD,K_FADD) FB(O_FSUB,K_FSUB) FB(O_FMUL,K_FMUL) FB(O_FDIV,K_FDIV)
    case O_FREM: { uint64_t x=conc(A), y=conc(Bo); R[I.dst]={I.w==64?Exprs::B(fmod(Exprs::D(x),Exprs::D(y))):Exprs::B(fmodf(Exprs::F(x),Exprs::F(y))),nullptr}; break; }
    case O_FNEG: { Reg a=A; if (!a.e) R[I.dst]={a.v^(1ull<<(I.w-1)),nullptr}; else R[I.dst]=mk(X.bin(K_XOR,a.e,X.C(1ull<<(I.w-1),I.w))); break; }
    case O_FABS: { Reg a=A; if (!a.e) R[I.dst]={a.v&(msk(I.w)>>1),nullptr}; else R[I.dst]=mk(X.bin(K_AND,a.e,X.C(msk(I.w)>>1,I.w))); break; }
    case O_ICMP: { Reg a=A,b=Bo; if (!a.e&&!b.e) R[I.dst]={icmpC(I.w2,a.v,b.v,I.w),nullptr}; else R[I.dst]=mk(icmpE(I.w2,ex(a,I.w),ex(b,I.w))); break; }
    case O_FCMP: { Reg a=A,b=Bo; if (!a.e&&!b.e) { double x=I.w==64?Exprs::D(a.v):Exprs::F(a.v), y=I.w==64?Exprs::D(b.v):Exprs::F(b.v); R[I.dst]={fcmpC(I.w2,x,y),nullptr}; } else R[I.dst]=mk(fcmpE(I.w2,ex(a,I.w),ex(b,I.w))); break; }
    case O_TRUNC: { Reg a=A; if (!a.e) R[I.dst]={a.v&msk(I.w),nullptr}; else R[I.dst]=mk(X.extract(a.e,0,I.w)); break; }
    case O_ZEXT: { Reg a=A; if (!a.e) R[I.dst]=a; else R[I.dst]=mk(X.zext(a.e,I.w)); break; }
    case O_SEXT: { Reg a=A; if (!a.e) R[I.dst]={(uint64_t)sx64(a.v,I.w2)&msk(I.w),nullptr}; else R[I.dst]=mk(X.sext(a.e,I.w)); break; }
#define FC(O,K) case O: { Reg a=A; if (!a.e) R[I.dst]={Exprs::ffold(K,I.w,I.w2,a.v,0),nullptr}; else R[I.dst]=mk(X.fop(K,I.w,a.e,nullptr)); break; }
    FC(O_FPTRUNC,K_FPTRUNC) FC(O_FPEXT,K_FPEXT) FC(O_FPTOUI,K_FPTOUI) FC(O_FPTOSI,K_FPTOSI) FC(O_UITOFP,K_UITOFP) FC(O_SITOFP,K_SITOFP)
    case O_COPY: R[I.dst]=A; break;
    case O_SELECT: { Reg c=A; if (!c.e) R[I.dst]= (c.v&1)?Bo:Co; else { Reg b=Bo, d=Co;
        if (I.w2) { bool t=decide(c.e); Reg* R2=regs+fr.back().rb; R2[I.dst]=t?b:d; } else R[I.dst]=mk(X.ite(c.e,ex(b,I.w),ex(d,I.w))); } break; }
    case O_LOAD: { Reg p=A; unsigned nb=(I.w+7)/8; if (!p.e) p.v+=I.b.imm; else if (I.b.imm) p=mk(X.bin(K_ADD,p.e,X.C(I.b.imm,64)));
        Reg v; if (I.w2) { Quiet q_; v=p.e?loadSym(p,nb):loadMem(p.v,nb); } else v=p.e?loadSym(p,nb):loadMem(p.v,nb); if (I.w!=nb*8) { if (v.e) v=mk(X.extract(v.e,0,I.w)); else v.v&=msk(I.w); } R[I.dst]=v; break; }
    case O_STORE: { Reg v=A,p=Bo; unsigned nb=(I.w+7)/8; uint64_t a=conc(p)+I.c.imm; if (v.e && I.w!=nb*8) v=mk(X.zext(v.e,nb*8)); if (I.w2) { Quiet q_; storeMem(a,v,nb); } else storeMem(a,v,nb); break; }
    case O_GEP: {
        Reg a=A; E s=a.e; uint64_t v=a.v+I.b.imm; if (s&&I.b.imm) { s=X.bin(K_ADD,s,X.C(I.b.imm,64)); }
        if (I.w2) { const uint64_t* ax=&f.fn->aux[I.x]+1;
          for (unsigned i=0;i<I.w2;i++,ax+=4) { int rg=(int)(int64_t)ax[0]; Reg x=rg>=0?R[rg]:Reg{ax[1],nullptr}; 
            if (!x.e && !s) v+=(uint64_t)sx64(x.v,ax[2])*ax[3];
            else { if (!s) s=X.C(v,64); E xe = X.bin(K_MUL,X.sext(ex(x,ax[2]),64),X.C(ax[3],64)); s=X.bin(K_ADD,s,xe); } } }
        R[I.dst]= s?mk(s):Reg{v,nullptr}; break; }
    case O_ALLOCA: { uint64_t n=conc(A)*I.b.imm; R[I.dst]={salloc(n,I.c.imm),nullptr}; break; }
    case O_BR: takeEdge(I.x); break;
    case O_CONDBR: { Reg c=A; bool t = c.e?decide(c.e):(c.v&1); takeEdge(t?I.x:I.x+1); break; }
    case O_SWITCH: { Reg c=A; const uint64_t* ax=&f.fn->aux[I.x]; unsigned n=ax[1]; uint32_t e=ax[0];
        if (!c.e) { for (unsigned i=0;i<n;i++) if (ax[2+2*i]==c.v) { e=ax[3+2*i]; break; } }
        else { // group cases by target
          std::vector<std::pair<uint32_t,E>> g; for (unsigned i=0;i<n;i++) { uint32_t t=ax[3+2*i]; E q=X.eq(c.e,X.C(ax[2+2*i],I.w)); bool found=false; for (auto& p : g) if (p.first==t) { p.second=X.bin(K_OR,p.second,q); found=true; } if (!found) g.push_back({t,q}); }
          for (auto& p : g) if (p.first!=e && decide(p.second)) { e=p.first; break; } }
        takeEdge(e); break; }
    case O_RET: { const uint64_t* ax=&f.fn->aux[I.x]; unsigned n=ax[0]; Reg rv[16]; Reg* rp=rv; std::vector<Reg> big; if (n>16) { big.resize(n); rp=big.data(); }
        for (unsigned i=0;i<n;i++) { int rg=(int)(int64_t)ax[1+2*i]; rp[i]= rg>=0?R[rg]:Reg{ax[2+2*i],nullptr}; }
        popFrame(); if (fr.size()<=base) return;
        Frame& g=fr.back(); const Inst& CI=g.fn->code[g.pc-1]; 
        for (unsigned i=0;i<n && CI.dst>=0;i++) regs[g.rb+CI.dst+i]=rp[i];
        if (CI.op==O_INVOKE) takeEdge(g.fn->aux[CI.x+4]);
        break; }
    case O_UNREACHABLE: violation("unreachable","unreachable code reached (undefined behaviour)");
    case O_RESUME: { uint64_t o=conc(A); 
        // continue unwinding above this frame
        uint64_t ty=excType[o]; popFrame(); if (fr.size()<=base) internalErr("resume past base"); throwExc(o,ty); break; }
    case O_CALL: case O_INVOKE: {
        const uint64_t* ax=&f.fn->aux[I.x]; uint32_t fi;
        if (ax[0]) fi=ax[1]; else { int rg=(int)(int64_t)ax[1]; Reg t=rg>=0?R[rg]:Reg{ax[2],nullptr}; fi=fnAt(conc(t)); R=regs+fr.back().rb; }
        unsigned n=ax[6], nfixed=ax[7]; const uint64_t* ap=ax+8; unsigned nbv=ap[2*n]; 
        BF bf=bfOf[fi];
        Reg loc[24]; Reg* av=loc; std::vector<Reg> big; if (n>24) { big.resize(n); av=big.data(); }
        for (unsigned i=0;i<n;i++) { int rg=(int)(int64_t)ap[2*i]; av[i]= rg>=0?R[rg]:Reg{ap[2*i+1],nullptr}; }
        if (bf) {
          fnHit[fi]=1;
          callArgs.assign(av,av+n); Reg rr{0,nullptr}; threw=false; bool hasRet=ax[3]>0; Args args=callArgs;
          bf(args, &rr);
          if (threw) { threw=false; break; }
          Frame& g=fr.back(); if (hasRet && I.dst>=0) regs[g.rb+I.dst]=rr;
          if (I.op==O_INVOKE) takeEdge(ax[4]);
          break;
        }
        const Fn& cf=P.fns[fi];
        if (!cf.defined) { softErr("call to unmodelled external function "+cf.name); }
        enter(fi,av,n,nfixed);
        for (unsigned i=0;i<nbv;i++) { uint64_t slot=ap[2*n+1+2*i], sz=ap[2*n+2+2*i]; uint64_t c=salloc(sz,16); gmemcpy(c,conc(av[slot]),sz); regs[fr.back().rb+slot]={c,nullptr}; }
        break; }
    case O_LANDINGPAD: internalErr("landingpad fallthrough");
    case O_ATOMICRMW: { uint64_t p=conc(A); Quiet q_; Reg v=Bo; unsigned nb=(I.w+7)/8; Reg o=loadMem(p,nb); E oe=ex(o,I.w), ve=ex(v,I.w); E n=nullptr;
        switch (I.w2) { case 0: n=ve; break; case 1: n=X.bin(K_ADD,oe,ve); break; case 2: n=X.bin(K_SUB,oe,ve); break; case 3: n=X.bin(K_AND,oe,ve); break; case 5: n=X.bin(K_OR,oe,ve); break; case 6: n=X.bin(K_XOR,oe,ve); break; default: internalErr("atomicrmw"); }
        storeMem(p,mk(n),nb); R[I.dst]=o; break; }
    case O_CMPXCHG: { uint64_t p=conc(A); Quiet q_; Reg c=Bo,n=Co; unsigned nb=(I.w+7)/8; Reg o=loadMem(p,nb); bool eq=decide(X.eq(ex(o,I.w),ex(c,I.w))); if (eq) storeMem(p,n,nb); R=regs+fr.back().rb; R[I.dst]=o; R[I.dst+1]={eq,nullptr}; break; }
#define MM(O,K,SW,CE) case O: { Reg a=A,b=Bo; if (!a.e&&!b.e) { R[I.dst]= (CE)?a:b; } else { E x=ex(a,I.w),y=ex(b,I.w); R[I.dst]=mk(X.ite(SW?X.cmp(K,y,x):X.cmp(K,x,y),x,y)); } break; }
    MM(O_UMIN,K_ULT,0,a.v<b.v) MM(O_UMAX,K_ULT,1,a.v>b.v) MM(O_SMIN,K_SLT,0,sx64(a.v,I.w)<sx64(b.v,I.w)) MM(O_SMAX,K_SLT,1,sx64(a.v,I.w)>sx64(b.v,I.w))
    case O_ABS: { E a=ex(A,I.w); R[I.dst]=mk(X.ite(X.cmp(K_SLT,a,X.C(0,I.w)),X.bin(K_SUB,X.C(0,I.w),a),a)); break; }
    case O_CTLZ: { E a=ex(A,I.w); E r=X.C(I.w,I.w); for (unsigned i=0;i<I.w;i++) r=X.ite(X.extract(a,i,1),X.C(I.w-1-i,I.w),r); R[I.dst]=mk(r); break; }
    case O_CTTZ: { E a=ex(A,I.w); E r=X.C(I.w,I.w); for (unsigned i=I.w;i-->0;) r=X.ite(X.extract(a,i,1),X.C(i,I.w),r); R[I.dst]=mk(r); break; }
    case O_CTPOP: { E a=ex(A,I.w); E r=X.C(0,I.w); for (unsigned i=0;i<I.w;i++) r=X.bin(K_ADD,r,X.zext(X.extract(a,i,1),I.w)); R[I.dst]=mk(r); break; }
    case O_BSWAP: { Reg a=A; if (!a.e) { uint64_t v=__builtin_bswap64(a.v)>>(64-I.w); R[I.dst]={v,nullptr}; break; } E r=nullptr; for (unsigned i=0;i<I.w;i+=8) { E b=X.extract(a.e,i,8); r = r?X.concat(r,b):b; } R[I.dst]=mk(r); break; }
    case O_FSHL: case O_FSHR: { uint64_t s=conc(Co)%I.w; E a=ex(A,I.w), b=ex(Bo,I.w); E r; if (I.op==O_FSHL) r = s? X.bin(K_OR,X.bin(K_SHL,a,X.C(s,I.w)),X.bin(K_LSHR,b,X.C(I.w-s,I.w))):a; else r = s? X.bin(K_OR,X.bin(K_SHL,a,X.C(I.w-s,I.w)),X.bin(K_LSHR,b,X.C(s,I.w))):b; regs[fr.back().rb+I.dst]=mk(r); break; }
    case O_UADDO: { E a=ex(A,I.w),b=ex(Bo,I.w); E s=X.bin(K_ADD,a,b); R[I.dst]=mk(s); R[I.dst+1]=mk(X.cmp(K_ULT,s,a)); break; }
    case O_USUBO: { E a=ex(A,I.w),b=ex(Bo,I.w); R[I.dst]=mk(X.bin(K_SUB,a,b)); R[I.dst+1]=mk(X.cmp(K_ULT,a,b)); break; }
    case O_UMULO: { E a=ex(A,I.w),b=ex(Bo,I.w); E p=X.bin(K_MUL,a,b); R[I.dst]=mk(p); 
        if (Exprs::isC(b)&&b->val) R[I.dst+1]=mk(X.cmp(K_ULT,X.C(msk(I.w)/b->val,I.w),a)); else if (Exprs::isC(a)&&a->val) R[I.dst+1]=mk(X.cmp(K_ULT,X.C(msk(I.w)/a->val,I.w),b));
        else R[I.dst+1]=mk(X.ite(X.eq(b,X.C(0,I.w)),X.C(0,1),X.Not(X.eq(X.bin(K_UDIV,p,b),a)))); break; }
    case O_SADDO: { E a=ex(A,I.w),b=ex(Bo,I.w); E s=X.bin(K_ADD,a,b); E z=X.C(0,I.w); R[I.dst]=mk(s); R[I.dst+1]=mk(X.cmp(K_SLT,X.bin(K_AND,X.bin(K_XOR,s,a),X.bin(K_XOR,s,b)),z)); break; }
    case O_SSUBO: { E a=ex(A,I.w),b=ex(Bo,I.w); E s=X.bin(K_SUB,a,b); E z=X.C(0,I.w); R[I.dst]=mk(s); R[I.dst+1]=mk(X.cmp(K_SLT,X.bin(K_AND,X.bin(K_XOR,a,b),X.bin(K_XOR,s,a)),z)); break; }
    case O_SMULO: { if (I.w>32) internalErr("smulo64"); E a=X.sext(ex(A,I.w),64),b=X.sext(ex(Bo,I.w),64); E p=X.bin(K_MUL,a,b); E t=X.extract(p,0,I.w); R[I.dst]=mk(t); R[I.dst+1]=mk(X.Not(X.eq(X.sext(t,64),p))); break; }
    case O_USUBSAT: { E a=ex(A,I.w),b=ex(Bo,I.w); R[I.dst]=mk(X.ite(X.cmp(K_ULT,a,b),X.C(0,I.w),X.bin(K_SUB,a,b))); break; }
    case O_UADDSAT: { E a=ex(A,I.w),b=ex(Bo,I.w); E s=X.bin(K_ADD,a,b); R[I.dst]=mk(X.ite(X.cmp(K_ULT,s,a),X.C(msk(I.w),I.w),s)); break; }
    case O_VASTART: { uint64_t p=conc(A); storeMem(p,{48,nullptr},4); storeMem(p+4,{304,nullptr},4); storeMem(p+8,{f.va,nullptr},8); storeMem(p+16,{0,nullptr},8); break; }
    case O_NOP: break;
    default: internalErr("unsupported instruction in "+f.fn->name+" line "+std::to_string(I.line&0xffff));
    }
  }
}

static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }

int main(int argc, char** argv) {
  std::string prog, entry="sx_main", out; double tlimit=0;
  for (int i=1;i<argc;i++) { std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if (a=="--entry") entry=nx(); else if (a=="--out") out=nx(); else if (a=="--workers") maxWorkers=atoi(nx().c_str()); else if (a=="--time") tlimit=atof(nx().c_str());
    else if (a=="--maxinst") maxInst=strtoull(nx().c_str(),0,10); else if (a=="--rlimit") rlimit=atoi(nx().c_str()); else if (a=="--qtimeout") qtimeout=atoi(nx().c_str()); else if (a=="-v") verbose=true; else prog=a; }
  FILE* f=fopen(prog.c_str(),"rb"); if (!f) { perror(prog.c_str()); return 3; } load(P,f); fclose(f);
  double t0=now(); if (tlimit) deadline=t0+tlimit;
  auto map=[&](uint64_t base, uint64_t sz) { void* p=mmap((void*)base,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if (p!=(void*)base) { perror("mmap"); exit(3); } };
  map(ARENA_BASE,ARENA_SIZE); map(SHADOW_BASE,ARENA_SIZE); map(SYM_BASE,ARENA_SIZE*8);
  madvise((void*)ARENA_BASE,ARENA_SIZE,MADV_NOHUGEPAGE); madvise((void*)SHADOW_BASE,ARENA_SIZE,MADV_NOHUGEPAGE);
  memcpy((void*)ARENA_BASE,P.image.data(),P.image.size()); std::vector<uint8_t>().swap(P.image);
  for (auto& g : P.globals) if (g.name=="_ZSt4cerr" || g.name=="_ZSt4cout" || g.name=="_ZSt4clog" || g.name=="_ZSt3cin" || g.name.find("3bo_")!=std::string::npos || g.name.find("3be_")!=std::string::npos || g.name.find("3bl_")!=std::string::npos || g.name.find("3bi_")!=std::string::npos) stdStreams.push_back({g.addr,g.addr+g.size});
  for (auto& g : P.globals) if (g.def&2) for (uint64_t i=0;i<g.size;i++) tlsInit.push_back(*(uint8_t*)(g.addr+i));
  for (auto& g : P.globals) { memset(sh(g.addr),SH_ADDR|(g.ro?SH_RO:0),g.size); if (g.name=="_ZTVN10__cxxabiv120__si_class_type_infoE") siVt=g.addr; }
  stackBase=stackTop=P.globals_end; heapTop=stackBase+0x4000000; heapEnd=ARENA_BASE+ARENA_SIZE;
  regs=(Reg*)mmap(0,REGS*sizeof(Reg),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  size_t nf=P.fns.size();
  S=(Shared*)mmap(0,sizeof(Shared)+nf*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  fnForks=(std::atomic<uint32_t>*)((char*)S+sizeof(Shared)); fnHit=(std::atomic<uint8_t>*)((char*)fnForks+4*nf);
  if (getenv("SX_COV")) { size_t n=0; for (auto& f : P.fns) { covBase.push_back(n); n+=f.code.size(); } covHit=(uint8_t*)mmap(0,n+1,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
  bfOf.assign(nf,nullptr); auto bt=builtinTable();
  int ei=-1; for (size_t i=0;i<nf;i++) { auto it=bt.find(P.fns[i].name); if (it!=bt.end()) bfOf[i]=it->second; else if (P.fns[i].name.rfind("llvm.memcpy",0)==0||P.fns[i].name.rfind("llvm.memmove",0)==0) bfOf[i]=b_memcpy; else if (P.fns[i].name.rfind("llvm.memset",0)==0) bfOf[i]=b_memset; if (P.fns[i].name==entry) ei=i; }
  if (ei<0) { fprintf(stderr,"entry %s not found\n",entry.c_str()); return 3; }
  Z3_config cfg=Z3_mk_config(); Z=Z3_mk_context(cfg); Z3_set_error_handler(Z,zerr); X.z=Z; newSolver(false);
  prctl(PR_SET_CHILD_SUBREAPER,1);
  S->active=1; S->started=1; known.reserve(1024);
  try {
    for (auto c : P.ctors) { enter(c,nullptr,0,0); run(0); }
    enter(ei,nullptr,0,0); run(0);
    finish(&S->paths_done);
  } catch (int) {}
  if (!isRoot) { if (!syncChild) S->active--; _exit(0); }
  S->active--;
  for (;;) { int st; pid_t p=waitpid(-1,&st,0); if (p<0) { if (errno==EINTR) continue; break; }
    if (WIFSIGNALED(st) && !S->stop) { S->internal=1; snprintf(S->inttext,sizeof S->inttext,"path process killed by signal %d",WTERMSIG(st)); S->stop=1; } }
  if (S->started!=S->finished && !S->stop) { S->internal=1; snprintf(S->inttext,sizeof S->inttext,"lost paths: %lu of %lu finished",(unsigned long)S->finished,(unsigned long)S->started); }
  if (covHit) { FILE* c=fopen((std::string(getenv("SX_COV"))+"/"+entry+".cov").c_str(),"w"); std::vector<std::string> fs; { std::string t; for (char ch : P.files) if (ch=='\n') { fs.push_back(t); t.clear(); } else t+=ch; } std::map<uint32_t,bool> m; for (size_t i=0;i<nf;i++) for (size_t k=0;k<P.fns[i].code.size();k++) { bool& h=m[P.fns[i].code[k].line]; h=h||covHit[covBase[i]+k]; } for (auto& x : m) if (x.first>>16<fs.size() && fs[x.first>>16].find("lttoolbox/")!=std::string::npos) fprintf(c,"%s %u %d\n",fs[x.first>>16].c_str(),x.first&0xffff,(int)x.second); fclose(c); }
  FILE* o=out.empty()?stdout:fopen(out.c_str(),"w");
  const char* verdict = S->viol?"violation":S->internal?"internal":S->incomplete?"incomplete":"holds";
  fprintf(o,"{\"entry\":\"%s\",\"verdict\":\"%s\",\"wall_s\":%.2f,\"paths\":%lu,\"paths_done\":%lu,\"paths_exit\":%lu,\"paths_pruned\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.2f,\"max_query_s\":%.3f,\"instructions\":%lu,\"forks\":%lu,\"max_fork_depth\":%lu,\"asserts_by_solver\":%lu,\"asserts_folded\":%lu,",
    entry.c_str(),verdict,now()-t0,(unsigned long)S->finished,(unsigned long)S->paths_done,(unsigned long)S->paths_exit,(unsigned long)S->paths_assume,(unsigned long)S->queries,(unsigned long)S->sat,(unsigned long)S->unsat,(unsigned long)S->unknown,S->solver_us*1e-6,S->maxq_us*1e-6,(unsigned long)S->insts,(unsigned long)S->forks,(unsigned long)S->maxdepth,(unsigned long)S->asserts_solver,(unsigned long)S->asserts_triv);
  fprintf(o,"\"reach\":["); for (int i=0;i<64;i++) fprintf(o,"%s%lu",i?",":"",(unsigned long)S->reach[i]); fprintf(o,"],");
  fprintf(o,"\"functions\":["); bool first=true; for (size_t i=0;i<nf;i++) if (fnHit[i] && P.fns[i].defined) { fprintf(o,"%s\"%s\"",first?"":",",P.fns[i].name.c_str()); first=false; } fprintf(o,"],");
  fprintf(o,"\"forks_by_function\":{"); { std::vector<std::pair<uint32_t,size_t>> v; for (size_t i=0;i<nf;i++) if (fnForks[i]) v.push_back({fnForks[i],i}); std::sort(v.rbegin(),v.rend()); for (size_t i=0;i<v.size()&&i<12;i++) fprintf(o,"%s\"%s\":%u",i?",":"",P.fns[v[i].second].name.c_str(),v[i].first); } fprintf(o,"}");
  if (S->viol) fprintf(o,",\"violation\":\"%s\"",jesc(S->violtext).c_str());
  fprintf(o,",\"samples\":["); { bool f1=true; for (int k=0;k<8;k++) if (S->sample[k][0]) { fprintf(o,"%s\"%s\"",f1?"":",",jesc(S->sample[k]).c_str()); f1=false; } } fprintf(o,"]");
  fprintf(o,",\"paths_not_encodable\":%lu,\"domain_decided\":%lu",(unsigned long)S->soft,(unsigned long)S->domdec);
  if (S->internal||S->soft) fprintf(o,",\"internal\":\"%s\"",jesc(S->inttext).c_str());
  fprintf(o,"}\n"); if (o!=stdout) fclose(o);
  return S->viol?1:S->internal?3:0;
}
