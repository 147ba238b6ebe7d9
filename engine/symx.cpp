// symx: symbolic executor for LLVM 18 bitcode (KLEE-class), solver: z3 (bit-vectors).
// Every branch whose condition depends on symbolic input is decided by the solver; both feasible
// sides are explored. Harness assertions and memory-safety conditions are solver queries.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <bitset>
#include <cmath>
#include <unistd.h>
#include <sys/resource.h>
extern "C" u64 symx_native_xxh3(const void *p, size_t n);

using namespace llvm;
typedef uint16_t u16;
static Ctx *C;
static const DataLayout *DL;
typedef std::chrono::steady_clock Clock;
static Clock::time_point T0;
static double now() { return std::chrono::duration<double>(Clock::now() - T0).count(); }

// ------------------------------------------------------------ values
struct Val { const Expr *e; u64 c; };
static inline Val CV(u64 c) { return Val{nullptr, c}; }
static inline Val EV(const Expr *e) { if (e->op == E_CONST) return Val{nullptr, e->c}; return Val{e, 0}; }
static inline const Expr *X(const Val &v, unsigned w) { return v.e ? v.e : C->cst(v.c, w); }

// ------------------------------------------------------------ memory
template <class T> struct RP { T *p; RP(T *q = 0) : p(q) { if (p) p->rc++; } RP(const RP &o) : p(o.p) { if (p) p->rc++; } RP(RP &&o) : p(o.p) { o.p = 0; }
  ~RP() { if (p && --p->rc == 0) delete p; } RP &operator=(const RP &o) { if (o.p) o.p->rc++; if (p && --p->rc == 0) delete p; p = o.p; return *this; }
  T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p; } T *get() const { return p; } };

enum { OK_HEAP, OK_STACK, OK_GLOBAL };
struct Obj {
  int rc = 0; u64 base = 0; u64 size = 0; u8 kind = 0; bool freed = false, ro = false; u32 nsym = 0;
  u8 *d = nullptr; const Expr **s = nullptr; // s[i] symbolic byte; s[i]==UNINIT marks uninitialised
  const char *name = "";
  Obj() {}
  Obj(const Obj &o) : base(o.base), size(o.size), kind(o.kind), freed(o.freed), ro(o.ro), nsym(o.nsym), name(o.name) {
    if (o.d) { d = (u8 *)malloc(size ? size : 1); memcpy(d, o.d, size); }
    if (o.s) { s = (const Expr **)malloc((size ? size : 1) * sizeof(*s)); memcpy(s, o.s, size * sizeof(*s)); } }
  ~Obj() { free(d); free(s); }
  void mksyms() { if (!s) { s = (const Expr **)calloc(size ? size : 1, sizeof(*s)); } }
};
static const Expr *UNINIT = (const Expr *)1;
static const int CH = 256; static const int OBJ_SHIFT = 24;
struct Chunk { int rc = 0; RP<Obj> o[CH]; Chunk() {} Chunk(const Chunk &c) { for (int i = 0; i < CH; i++) o[i] = c.o[i]; } };
struct ObjTab {
  std::vector<RP<Chunk>> ch; u64 n = 1; // id 0 = null page
  Obj *get(u64 id) { if (id >= n) return 0; auto &c = ch[id / CH]; return c ? c->o[id % CH].get() : 0; }
  Chunk *wch(u64 id) { while (ch.size() <= id / CH) ch.push_back(RP<Chunk>(new Chunk)); auto &c = ch[id / CH]; if (!c) c = RP<Chunk>(new Chunk); if (c->rc > 1) c = RP<Chunk>(new Chunk(*c)); return c.get(); }
  Obj *w(u64 id) { Chunk *c = wch(id); RP<Obj> &o = c->o[id % CH]; if (o->rc > 1) o = RP<Obj>(new Obj(*o)); return o.get(); }
  Obj *alloc(u64 size, u8 kind, const char *name) { u64 id = n++; Chunk *c = wch(id); Obj *o = new Obj; o->base = id << OBJ_SHIFT; o->size = size; o->kind = kind; o->name = name; o->d = (u8 *)calloc(size ? size : 1, 1); c->o[id % CH] = RP<Obj>(o); return o; }
};

// ------------------------------------------------------------ decoded code
struct Opnd { int reg; Val v; };  // reg<0 => constant v
struct Edge { int target; std::vector<std::pair<int, Opnd>> copies; std::vector<std::pair<int, Opnd>> *cp() { return &copies; } };
enum IOp : u8 { I_BIN, I_ICMP, I_FCMP, I_CAST, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_IBR, I_RET, I_CALL, I_SELECT, I_EXTRACTV, I_INSERTV, I_UNREACH, I_FBIN, I_FNEG, I_FREEZE, I_VAARG, I_UNSUP };
struct DFunc;
struct Inst {
  IOp op; u8 sub = 0; u16 w = 0, w2 = 0; int dst = -1; std::vector<Opnd> a; std::vector<u64> k; std::vector<Edge> edges;
  const Instruction *src = nullptr; Function *callee = nullptr; DFunc *dcallee = nullptr; int builtin = -1; int line = 0;
  std::vector<std::pair<u16, u16>> parts; // aggregate parts: (byte offset, width)
};
struct DFunc { Function *f; std::vector<Inst> code; std::map<const BasicBlock *, int> bbpc; int nregs = 0; std::vector<std::vector<std::pair<u16,u16>>> argparts; std::vector<u64> byval; std::string name; int nargs = 0; bool lib = false; u64 calls = 0; std::vector<bool> cov; std::vector<int> argreg; const char *cname = ""; };

static Module *M;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u64, Function *> funcAt;
static std::unordered_map<u64, std::pair<Function *, const BasicBlock *>> bbAt;
static std::unordered_map<const BlockAddress *, u64> baAddr;
static std::unordered_map<Function *, DFunc *> dfuncs;
static u64 nextBA;

// ------------------------------------------------------------ state
struct Frame { DFunc *f; int pc; std::vector<Val> r; std::vector<u64> allocas; std::vector<Val> varargs; int dst; u64 uid; u64 vaobj = 0; };
struct HashCall { std::vector<Val> bytes; Val res; };
struct Input { std::string name; std::vector<const Expr *> bytes; };
struct Observation { std::string name; std::vector<Val> bytes; };
struct State {
  std::vector<Frame> st; ObjTab mem; std::vector<const Expr *> pc; std::vector<u64> model;
  std::unordered_set<const Expr *> known; std::unordered_map<const Expr *, u64> conc;
  std::vector<Input> inputs; std::vector<Observation> obs; std::map<std::string, int> symcount; std::vector<HashCall> hashes;
  std::map<u64, std::pair<u64, int>> jmp; // jmpbuf id -> (frame uid, pc)
  std::vector<std::pair<u64,int>> jmpdst;
  u64 nextuid = 1, steps = 0; u32 depth = 0; u32 uninitc = 0; int retries = 0; bool preempted=false;
};

struct Stats { u64 inst = 0, qbyte = 0, queries = 0, qsat = 0, qunsat = 0, qunk = 0, cachehit = 0, paths = 0, infeasible = 0, forks = 0, assumed = 0, asserts = 0, assertq = 0; double solver = 0; u64 maxdepth = 0, memchecks = 0; } S;
struct ErrRec { std::string kind, msg, func, loc; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> stack; std::vector<std::pair<std::string,u64>> hash; u64 count = 1; };
static std::map<std::string, std::vector<ErrRec>> errors; static std::map<std::string, u64> errcount;
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, std::string>> obs; std::vector<std::pair<std::string,u64>> hash; };
static std::vector<Sample> samples;
static std::map<std::string, u64> reached;
static std::map<std::string, u64> incomplete;
static std::vector<State *> work;
static double maxTime = 600; static u64 maxErr = 3; static u64 maxSamples = 40; static unsigned solverTimeout = 20000; static u64 maxSteps = 50000000; static u64 maxForkVals = 600;
static bool optUninit = true, optIdealHash = false, optRealHash = false; static u64 rngState = 0; static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; } static u64 memLimitMB = 6000; static std::map<std::string,std::string> params; static bool allErrs=false;

struct PathEnd {}; // thrown to end a path

// ------------------------------------------------------------ solver
static Z3_solver zs; static std::unordered_map<const Expr *, Z3_ast> lits; static u64 litcount = 0;
struct CacheEnt { int r; std::vector<std::pair<u32, u64>> m; };
struct VH { size_t operator()(const std::vector<u32> &v) const { size_t h = v.size(); for (u32 x : v) h = h * 1000003 ^ x; return h; } };
static std::unordered_map<std::vector<u32>, CacheEnt, VH> qcache;

static void newSolver() {
  if (zs) Z3_solver_dec_ref(C->z3, zs);
  zs = Z3_mk_solver_for_logic(C->z3, Z3_mk_string_symbol(C->z3, "QF_BV")); Z3_solver_inc_ref(C->z3, zs);
  Z3_params p = Z3_mk_params(C->z3); Z3_params_inc_ref(C->z3, p); Z3_params_set_uint(C->z3, p, Z3_mk_string_symbol(C->z3, "timeout"), solverTimeout);
  Z3_solver_set_params(C->z3, zs, p); Z3_params_dec_ref(C->z3, p); lits.clear(); litcount = 0;
}
static Z3_ast litFor(const Expr *e) {
  auto it = lits.find(e); if (it != lits.end()) return it->second;
  char n[32]; snprintf(n, sizeof n, "p%u", e->id);
  Z3_ast p = Z3_mk_const(C->z3, Z3_mk_string_symbol(C->z3, n), Z3_mk_bool_sort(C->z3)); Z3_inc_ref(C->z3, p);
  Z3_ast ze = C->toZ3(e); Z3_ast body = Z3_mk_eq(C->z3, ze, C->one);
  Z3_solver_assert(C->z3, zs, Z3_mk_implies(C->z3, p, body)); litcount++;
  return lits[e] = p;
}
// returns 1 sat, 0 unsat, -1 unknown; on sat, *out = model covering slice syms merged over base
static bool hasF(const Expr*e,std::unordered_set<const Expr*>&seen){ if(!seen.insert(e).second) return false; if(e->op==E_FCMP) return true; for(int i=0;i<3;i++) if(e->k[i]&&hasF(e->k[i],seen)) return true; return false; }
static std::unordered_map<const Expr *, std::bitset<256>> bsets;
static const std::bitset<256> &byteSet(const Expr *e, u32 x) {
  auto it = bsets.find(e); if (it != bsets.end()) return it->second; static std::vector<u64> mm; if (mm.size() <= x) mm.resize(x + 1);
  std::bitset<256> b; for (unsigned v = 0; v < 256; v++) { mm[x] = v; C->newEpoch(); if (C->eval(e, mm)) b.set(v); } return bsets[e] = b; }
static int query(const std::vector<const Expr *> &pc, const Expr *cond, const std::vector<u64> &base, std::vector<u64> *out) {
  if (cond->op == E_CONST) { if (cond->c) { if (out) *out = base; return 1; } return 0; }
  // slice
  std::vector<const Expr *> sl{cond}; std::unordered_set<u32> syms(cond->syms->v.begin(), cond->syms->v.end());
  std::vector<const Expr *> rest(pc.begin(), pc.end()); bool ch = true;
  while (ch) { ch = false; size_t j = 0; for (size_t i = 0; i < rest.size(); i++) { bool hit = false; for (u32 x : rest[i]->syms->v) if (syms.count(x)) { hit = true; break; }
      if (hit) { sl.push_back(rest[i]); for (u32 x : rest[i]->syms->v) if (syms.insert(x).second) ch = true; } else rest[j++] = rest[i]; } rest.resize(j); }
  std::vector<u32> key; for (auto *e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  // single symbolic byte: the exact solution set over its 256 values decides the query
  if (syms.size() == 1 && C->symExprs[*syms.begin()]->w == 8) { u32 x = *syms.begin(); std::bitset<256> b; b.set(); for (auto *e : sl) { b &= byteSet(e, x); if (b.none()) { S.qbyte++; return 0; } }
    S.qbyte++; if (out) { std::vector<u64> m = base; m.resize(std::max(m.size(), C->symExprs.size())); if (!b.test(m[x] & 255)) m[x] = b._Find_first(); *out = std::move(m); } return 1; }
  CacheEnt *ce; auto it = qcache.find(key);
  if (it != qcache.end()) { S.cachehit++; ce = &it->second; }
  else {
    bool f = false; { std::unordered_set<const Expr*> seen; for (auto *e : sl) if (hasF(e,seen)) { f = true; break; } }
    double t = now(); Z3_lbool r; Z3_model mo = 0; Z3_solver fs = 0;
    if (f) { for (auto *e : sl) C->toZ3(e); fs = Z3_mk_solver(C->z3); Z3_solver_inc_ref(C->z3, fs); for (auto *e : sl) Z3_solver_assert(C->z3, fs, Z3_mk_eq(C->z3, C->toZ3(e), C->one)); r = Z3_solver_check(C->z3, fs); if (r == Z3_L_TRUE) mo = Z3_solver_get_model(C->z3, fs); }
    else { if (litcount > 150) newSolver(); std::vector<Z3_ast> as; for (auto *e : sl) as.push_back(litFor(e)); r = Z3_solver_check_assumptions(C->z3, zs, as.size(), as.data()); if (r == Z3_L_TRUE) mo = Z3_solver_get_model(C->z3, zs); }
    S.queries++; CacheEnt c; c.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (mo) { Z3_model_inc_ref(C->z3, mo); for (u32 x : syms) { Z3_ast v = 0; uint64_t val = 0; if (Z3_model_eval(C->z3, mo, C->toZ3(C->symExprs[x]), true, &v)) { Z3_inc_ref(C->z3, v); Z3_get_numeral_uint64(C->z3, v, &val); Z3_dec_ref(C->z3, v); } c.m.push_back({x, val}); } Z3_model_dec_ref(C->z3, mo); }
    if (fs) Z3_solver_dec_ref(C->z3, fs);
    S.solver += now() - t; if (c.r == 1) S.qsat++; else if (c.r == 0) S.qunsat++; else { S.qunk++; incomplete["solver-unknown"]++; }
    ce = &(qcache[key] = c);
  }
  if (ce->r == 1 && out) { std::vector<u64> m = base; m.resize(std::max(m.size(), C->symExprs.size())); for (auto &p : ce->m) m[p.first] = p.second; *out = std::move(m); }
  return ce->r;
}
static u64 ev(State &s, const Expr *e) { C->newEpoch(); return C->eval(e, s.model); }
static void addPC(State &s, const Expr *e) {
  if (e->op == E_CONST) return;
  if (!s.known.insert(e).second) return;
  if (e->op == E_AND && e->w == 1) { addPC(s, e->k[0]); addPC(s, e->k[1]); return; }
  s.pc.push_back(e);
  if (e->op == E_EQ && e->k[1]->op == E_CONST) s.conc[e->k[0]] = e->k[1]->c;
}
static const Expr *simp(State &s, const Expr *e) { // use path knowledge
  if (e->op == E_CONST) return e;
  auto it = s.conc.find(e); if (it != s.conc.end()) return C->cst(it->second, e->w);
  if (e->w == 1) { if (s.known.count(e)) return C->cst(1, 1); if (s.known.count(C->lnot(e))) return C->cst(0, 1); }
  return e;
}

// ------------------------------------------------------------ reporting
static std::string hex(const std::vector<u8> &v) { std::string r; char b[3]; for (u8 x : v) { snprintf(b, 3, "%02x", x); r += b; } return r; }
static std::vector<std::pair<std::string, std::string>> dumpInputs(State &s, const std::vector<u64> &model) {
  std::vector<std::pair<std::string, std::string>> r; C->newEpoch();
  for (auto &in : s.inputs) { std::vector<u8> b; for (auto *e : in.bytes) b.push_back((u8)C->eval(e, model)); r.push_back({in.name, hex(b)}); } return r; }
static std::vector<std::pair<std::string,u64>> dumpHash(State &s, const std::vector<u64> &model) {
  std::vector<std::pair<std::string,u64>> r; C->newEpoch();
  for (auto &h : s.hashes) { if (!h.res.e) continue; std::vector<u8> b; for (auto &v : h.bytes) b.push_back((u8)(v.e ? C->eval(v.e, model) : v.c)); r.push_back({hex(b), C->eval(h.res.e, model)}); } return r; }
static std::string locOf(const Inst &in) { if (in.src && in.src->getDebugLoc()) { auto *d = in.src->getDebugLoc().get(); std::string f = d->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); return f + ":" + std::to_string(d->getLine()); } return "?"; }
static void report(State &s, const std::string &kind, const std::string &msg, const std::vector<u64> &model) {
  ErrRec r; r.kind = kind; r.msg = msg;
  for (auto i = s.st.rbegin(); i != s.st.rend(); ++i) { const Inst &in = i->f->code[i->pc]; r.stack.push_back(i->f->name + "@" + locOf(in)); }
  r.func = s.st.empty() ? "" : s.st.back().f->name; r.loc = s.st.empty() ? "" : locOf(s.st.back().f->code[s.st.back().pc]);
  std::string key = kind + "|" + msg + "|" + r.loc; errcount[key]++;
  auto &v = errors[key]; if (v.size() < maxErr) { r.inputs = dumpInputs(s, model); r.hash = dumpHash(s, model); v.push_back(r); }
}
static void die(State &s, const std::string &kind, const std::string &msg) { report(s, kind, msg, s.model); throw PathEnd(); }
static void unsup(State &s, const std::string &msg) { incomplete["unsupported: " + msg + " in " + (s.st.empty() ? "" : s.st.back().f->name)]++; throw PathEnd(); }

static std::map<std::string, u64> forkProf; static const bool optForkProf = getenv("SYMX_FORKPROF") != nullptr;
static void profFork(State &s) { if (!optForkProf || s.st.empty()) return; std::string k; int n = 0; for (auto i = s.st.rbegin(); i != s.st.rend() && n < 3; ++i, ++n) k += i->f->name + "@" + locOf(i->f->code[i->pc]) + " < "; forkProf[k]++; }
// fork helper: returns new state copy with constraint e & model m, pushed on worklist (re-executes current instruction)
static void forkWith(State &s, const Expr *e, const std::vector<u64> &m) {
  profFork(s);
  State *n = new State(s); addPC(*n, e); n->model = m; n->depth++; n->retries = 0; if (n->depth > S.maxdepth) S.maxdepth = n->depth; work.push_back(n); S.forks++;
}
// decide a branch: returns truth for *this* state; forks the other side if feasible
static bool branch(State &s, const Expr *c) {
  c = simp(s, c); if (c->op == E_CONST) return c->c;
  bool v = ev(s, c); const Expr *nc = C->lnot(c); const Expr *taken = v ? c : nc, *other = v ? nc : c;
  std::vector<u64> m; int r = query(s.pc, other, s.model, &m);
  if (r == 1) forkWith(s, other, m);
  addPC(s, taken); if (r == 1) s.depth++; return v;
}
// must-check: cond must hold; report error if its negation is feasible, continue on cond side
static bool feasible(State &s, const Expr *c, std::vector<u64> *m) {
  c = simp(s, c); if (c->op == E_CONST) { if (c->c) *m = s.model; return c->c; }
  if (ev(s, c)) { *m = s.model; return true; }
  return query(s.pc, c, s.model, m) == 1;
}
// concretise with exhaustive forking over every feasible value
static u64 concretize(State &s, const Val &v, unsigned w, const char *what) {
  if (!v.e) return v.c;
  const Expr *e = simp(s, v.e); if (e->op == E_CONST) return e->c;
  u64 first = ev(s, e); const Expr *ne = C->lnot(C->bin(E_EQ, e, C->cst(first, e->w)));
  std::vector<const Expr *> pc2 = s.pc; std::vector<u64> m = s.model; u64 n = 0; const Expr *cur = ne;
  while (true) {
    std::vector<u64> m2; int r = query(pc2, cur, m, &m2); if (r != 1) break;
    C->newEpoch(); u64 val = C->eval(e, m2); const Expr *eq = C->bin(E_EQ, e, C->cst(val, e->w));
    if (++n > maxForkVals) { incomplete[std::string("too many values for ") + what + " in " + s.st.back().f->name]++; break; }
    forkWith(s, eq, m2); pc2.push_back(cur); cur = C->lnot(eq); m = m2;
  }
  addPC(s, C->bin(E_EQ, e, C->cst(first, e->w))); s.conc[e] = first; if (n) s.depth++; return first;
}

// ------------------------------------------------------------ memory access
static const Expr *freshSym(State &s, const std::string &name, unsigned w) {
  auto it = C->symByName.find(name); u32 idx;
  if (it != C->symByName.end()) idx = it->second; else { idx = C->symExprs.size(); C->symByName[name] = idx; C->symExprs.push_back(C->sym(idx, w, name)); C->symNames.push_back(name); }
  if (s.model.size() <= idx) s.model.resize(idx + 1); return C->symExprs[idx];
}
static Val byteAt(State &s, Obj *o, u64 off) {
  if (o->s && o->s[off]) {
    if (o->s[off] == UNINIT) {
      if (!optUninit) return CV(o->d[off]);
      const Expr *e = freshSym(s, "uninit#" + std::to_string(s.uninitc++), 8); Obj *w = s.mem.w(o->base >> OBJ_SHIFT); w->s[off] = e; return EV(e); }
    const Expr *e = o->s[off]; if (e->op == E_SYM || true) { auto it = s.conc.find(e); if (it != s.conc.end()) return CV(it->second); } return EV(e); }
  return CV(o->d[off]);
}
static Val loadN(State &s, u64 id, u64 off, unsigned bytes) {
  Obj *o = s.mem.get(id);
  if (!o->s) { u64 v = 0; memcpy(&v, o->d + off, bytes); return CV(v); }
  bool any = false; for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { any = true; break; }
  if (!any) { u64 v = 0; memcpy(&v, o->d + off, bytes); return CV(v); }
  const Expr *r = 0; for (unsigned i = 0; i < bytes; i++) { o = s.mem.get(id); Val b = byteAt(s, o, off + i); const Expr *x = X(b, 8); r = r ? C->concat(x, r) : x; }
  auto it = s.conc.find(r); if (it != s.conc.end()) return CV(it->second);
  return EV(r);
}
static void storeN(State &s, u64 id, u64 off, unsigned bytes, const Val &v) {
  Obj *o = s.mem.w(id);
  if (!v.e) { memcpy(o->d + off, &v.c, bytes); if (o->s) memset(o->s + off, 0, bytes * sizeof(*o->s)); return; }
  o->mksyms(); unsigned w = v.e->w; const Expr *e = v.e; if (w < bytes * 8) e = C->zext(e, bytes * 8);
  for (unsigned i = 0; i < bytes; i++) { const Expr *b = C->extract(e, i * 8, 8); if (b->op == E_CONST) { o->d[off + i] = b->c; o->s[off + i] = 0; } else o->s[off + i] = b; }
}
static std::string adesc(State &s, u64 a, u64 n) { u64 id = a >> OBJ_SHIFT; Obj *o = s.mem.get(id); char b[256]; if (a < (1 << OBJ_SHIFT)) snprintf(b, sizeof b, "null"); else if (!o) snprintf(b, sizeof b, "wild"); else snprintf(b, sizeof b, "%s object", o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global"); (void)n; return b; }
// check a concrete access; ends path on error
static u64 chk(State &s, u64 a, u64 n, bool wr) {
  S.memchecks++; u64 id = a >> OBJ_SHIFT; Obj *o = s.mem.get(id); u64 off = a & ((1ULL << OBJ_SHIFT) - 1);
  if (a < (1ULL << OBJ_SHIFT)) die(s, "null-deref", wr ? "write" : "read");
  if (!o) die(s, "wild-pointer", wr ? "write" : "read");
  if (o->freed) die(s, o->kind == OK_STACK ? "use-after-return" : "use-after-free", wr ? "write" : "read");
  if (n > o->size || off > o->size - n) die(s, "out-of-bounds", std::string(wr ? "write " : "read ") + adesc(s, a, n));
  if (wr && o->ro) die(s, "write-to-constant", "write");
  return off;
}
static bool forkTable(Obj *o) { return o->kind == OK_GLOBAL && !strncmp(o->name, "yy", 2); }
// a symbolic address of the form object base + index within a small live object
static bool smallIndexed(State &s, const Expr *a) {
  if (a->op != E_ADD || a->k[1]->op != E_CONST) return false; u64 id = a->k[1]->c >> OBJ_SHIFT; Obj *o = s.mem.get(id); if (!o || o->freed || o->size > 512 || !o->size) return false;
  return (ev(s, a) >> OBJ_SHIFT) == id; }
static void inBounds(State &s, const Expr *a, Obj *o, bool wr) {
  if (wr && o->ro) die(s, "write-to-constant", "write"); S.memchecks++;
  const Expr *inb = C->bin(E_ULT, C->bin(E_SUB, a, C->cst(o->base, 64)), C->cst(o->size, 64)); std::vector<u64> m;
  if (feasible(s, C->lnot(inb), &m)) { report(s, "out-of-bounds", std::string(wr ? "write" : "read") + " symbolic index", m); std::vector<u64> m2; if (query(s.pc, inb, s.model, &m2) != 1) throw PathEnd(); addPC(s, inb); if (!ev(s, inb)) s.model = m2; } }
static Val loadMem(State &s, const Val &addr, unsigned bytes) {
  if (!addr.e) { u64 off = chk(s, addr.c, bytes, false); return loadN(s, addr.c >> OBJ_SHIFT, off, bytes); }
  const Expr *a = simp(s, addr.e); if (a->op == E_CONST) return loadMem(s, CV(a->c), bytes);
  // symbolic address into a constant table -> ITE over loaded values; otherwise fork on the address
  u64 a0 = ev(s, a); Obj *o = s.mem.get(a0 >> OBJ_SHIFT);
  if (o && !o->freed && o->kind == OK_GLOBAL && o->ro && !o->s && (o->size <= 4096 || (forkTable(o) && a->syms->v.size() == 1))) {
    if (a->syms->v.size() == 1 && C->symExprs[a->syms->v[0]]->w == 8) { // one symbolic byte: group its values by what they load
      u32 idx = a->syms->v[0]; const Expr *sb = C->symExprs[idx]; std::vector<u64> mm = s.model; if (mm.size() <= idx) mm.resize(idx + 1); std::vector<const Expr *> own; for (auto *e : s.pc) if (e->syms == a->syms) own.push_back(e);
      std::map<u64, std::vector<u64>> g; std::vector<u64> bad;
      for (u64 v = 0; v < 256; v++) { mm[idx] = v; C->newEpoch(); bool okv = true; for (auto *e : own) if (!C->eval(e, mm)) { okv = false; break; } if (!okv) continue; u64 ad = C->eval(a, mm), off = ad - o->base; const Obj *q = o; if (off > o->size || bytes > o->size - off) { q = (ad >> OBJ_SHIFT) != (o->base >> OBJ_SHIFT) ? s.mem.get(ad >> OBJ_SHIFT) : nullptr; off = q ? ad - q->base : 0; if (!q || q->freed || q->kind != OK_GLOBAL || !q->ro || q->s || off > q->size || bytes > q->size - off) { bad.push_back(v); continue; } } u64 x = 0; memcpy(&x, q->d + off, bytes); g[x].push_back(v); }
      auto rng = [&](std::vector<u64> &vs) { const Expr *c = C->cst(0, 1); size_t i = 0; while (i < vs.size()) { size_t j = i; while (j + 1 < vs.size() && vs[j + 1] == vs[j] + 1) j++; const Expr *r = i == j ? C->bin(E_EQ, sb, C->cst(vs[i], 8)) : C->bin(E_AND, C->bin(E_ULE, C->cst(vs[i], 8), sb), C->bin(E_ULE, sb, C->cst(vs[j], 8))); c = C->bin(E_OR, c, r); i = j + 1; } return c; };
      if (bad.size()) { const Expr *bc = rng(bad); std::vector<u64> m; if (feasible(s, bc, &m)) { bool sameObj = true; mm[idx] = bad[0]; C->newEpoch(); if ((C->eval(a, mm) >> OBJ_SHIFT) != (o->base >> OBJ_SHIFT)) sameObj = false; if (!sameObj) goto general; report(s, "out-of-bounds", "read symbolic index into constant table", m); const Expr *nb = C->lnot(bc); std::vector<u64> m2; if (query(s.pc, nb, s.model, &m2) != 1) throw PathEnd(); addPC(s, nb); if (!ev(s, nb)) s.model = m2; } else addPC(s, C->lnot(bc)); }
      if (g.empty()) throw PathEnd(); if (g.size() == 1) return CV(g.begin()->first);
      if (forkTable(o) && g.size() > 32) { // a check column: split into bytes whose entry is the byte itself and the rest
        std::vector<u64> self, rest; for (auto &x : g) for (u64 y : x.second) (x.first == y ? self : rest).push_back(y);
        std::sort(self.begin(), self.end()); std::sort(rest.begin(), rest.end());
        if (!self.empty()) { C->newEpoch(); mm = s.model; if (mm.size() <= idx) mm.resize(idx + 1); u64 cv = mm[idx] & 255; bool isSelf = std::binary_search(self.begin(), self.end(), cv); const Expr *cs = rng(self), *cr = rest.empty() ? C->cst(0, 1) : rng(rest); std::vector<u64> m;
          if (!rest.empty()) { if (query(s.pc, isSelf ? cr : cs, s.model, &m) == 1) forkWith(s, isSelf ? cr : cs, m); addPC(s, isSelf ? cs : cr); }
          if (isSelf) return EV(C->zext(sb, bytes * 8)); for (auto it = g.begin(); it != g.end();) { auto &vs = it->second; u64 xv = it->first; vs.erase(std::remove(vs.begin(), vs.end(), xv), vs.end()); if (vs.empty()) it = g.erase(it); else ++it; } if (g.size() == 1) return CV(g.begin()->first); } }
      else if (forkTable(o)) { C->newEpoch(); mm = s.model; if (mm.size() <= idx) mm.resize(idx + 1); u64 cv = mm[idx] & 255, v0 = 0; for (auto &x : g) for (u64 y : x.second) if (y == cv) v0 = x.first; for (auto &x : g) { if (x.first == v0) continue; const Expr *c = rng(x.second); std::vector<u64> m; if (query(s.pc, c, s.model, &m) == 1) forkWith(s, c, m); } addPC(s, rng(g[v0])); return CV(v0); }
      u64 big = 0; size_t bs = 0; for (auto &x : g) if (x.second.size() > bs) { bs = x.second.size(); big = x.first; }
      const Expr *r = C->cst(big, bytes * 8); for (auto &x : g) if (x.first != big) r = C->ite(rng(x.second), C->cst(x.first, bytes * 8), r);
      return EV(r);
    }
    general:;
    if (o->size <= 4096)
    { const Expr *inb = C->bin(E_ULE, C->bin(E_SUB, a, C->cst(o->base, 64)), C->cst(o->size - bytes, 64)); std::vector<u64> m;
    if (o->size < bytes || feasible(s, C->lnot(inb), &m)) { C->newEpoch(); u64 ad2 = o->size >= bytes ? C->eval(a, m) : a0; Obj *q = (ad2 >> OBJ_SHIFT) != (o->base >> OBJ_SHIFT) ? s.mem.get(ad2 >> OBJ_SHIFT) : nullptr; if (q && o->size >= bytes) forkWith(s, C->lnot(inb), m); /* another object */ else if (o->size >= bytes) { report(s, "out-of-bounds", "read symbolic index into constant table", m); } addPC(s, inb); if (!ev(s, inb)) { std::vector<u64> m2; if (query(s.pc, inb, s.model, &m2) != 1) throw PathEnd(); s.model = m2; } }
    // group feasible addresses by value
    std::map<u64, std::vector<u64>> groups; std::vector<const Expr *> pc2 = s.pc; u64 cnt = 0; (void)cnt;
    // candidate offsets: all aligned strides; feasibility left to the solver at use, unless leaves known
    std::vector<u64> cand; if (a->cleaf || true) { for (u64 off = 0; off + bytes <= o->size; off += 1) { if (bytes > 1 && (off % bytes)) continue; cand.push_back(off); } }
    std::vector<u64> feas; for (u64 off : cand) { const Expr *eq = C->bin(E_EQ, a, C->cst(o->base + off, 64)); if (eq->op == E_CONST && !eq->c) continue; feas.push_back(off); }
    for (u64 off : feas) { u64 v = 0; memcpy(&v, o->d + off, bytes); groups[v].push_back(off); }
    bool forky = forkTable(o);
    // build condition per group with ranges
    u64 big = 0; size_t bs = 0; for (auto &g : groups) if (g.second.size() > bs) { bs = g.second.size(); big = g.first; }
    auto condOf = [&](std::vector<u64> &offs) { const Expr *c = C->cst(0, 1); size_t i = 0; while (i < offs.size()) { size_t j = i; while (j + 1 < offs.size() && offs[j + 1] == offs[j] + bytes) j++;
        const Expr *r; if (i == j) r = C->bin(E_EQ, a, C->cst(o->base + offs[i], 64)); else r = C->bin(E_ULE, C->bin(E_SUB, a, C->cst(o->base + offs[i], 64)), C->cst(offs[j] - offs[i], 64)); c = C->bin(E_OR, c, r); i = j + 1; } return c; };
    if (forky) { for (auto &g : groups) if (s.known.count(condOf(g.second))) return CV(g.first);
      u64 v0 = 0; memcpy(&v0, o->d + (ev(s, a) - o->base), bytes); for (auto &g : groups) { if (g.first == v0) continue; const Expr *c = condOf(g.second); std::vector<u64> m; if (query(s.pc, c, s.model, &m) == 1) { forkWith(s, c, m); } }
      // after forks, in this state we know group v0; record constraint; in forked states re-execution sees single group feasible by solver
      addPC(s, condOf(groups[v0])); return CV(v0); }
    const Expr *r = C->cst(big, bytes * 8); for (auto &g : groups) if (g.first != big) r = C->ite(condOf(g.second), C->cst(g.first, bytes * 8), r);
    return EV(r); }
  }
  if (bytes == 1 && smallIndexed(s, a)) { // small object, symbolic index -> ITE over its bytes
    Obj *o = s.mem.get(a0 >> OBJ_SHIFT); inBounds(s, a, o, false); u64 id = a0 >> OBJ_SHIFT, base = o->base, size = o->size; const Expr *r = 0;
    for (u64 off = 0; off < size; off++) { const Expr *eq = C->bin(E_EQ, a, C->cst(base + off, 64)); if (eq->op == E_CONST && !eq->c) continue; const Expr *b = X(byteAt(s, s.mem.get(id), off), 8); r = r ? C->ite(eq, b, r) : b; }
    if (r) return EV(r); }
  u64 ca = concretize(s, EV(a), 64, "load address"); return loadMem(s, CV(ca), bytes);
}
static void storeMem(State &s, const Val &addr, unsigned bytes, const Val &v) {
  if (addr.e && bytes == 1) { const Expr *a = simp(s, addr.e); if (a->op != E_CONST && smallIndexed(s, a)) {
    u64 a0 = ev(s, a), id = a0 >> OBJ_SHIFT; inBounds(s, a, s.mem.get(id), true); Obj *o = s.mem.w(id); const Expr *nv = v.e ? (v.e->w < 8 ? C->zext(v.e, 8) : v.e) : C->cst(v.c, 8);
    for (u64 off = 0; off < o->size; off++) { const Expr *eq = C->bin(E_EQ, a, C->cst(o->base + off, 64)); if (eq->op == E_CONST && !eq->c) continue; o = s.mem.w(id); const Expr *old = X(byteAt(s, o, off), 8); o = s.mem.w(id); const Expr *n = C->ite(eq, nv, old); o->mksyms(); if (n->op == E_CONST) { o->d[off] = n->c; o->s[off] = 0; } else o->s[off] = n; }
    return; } }
  u64 a = concretize(s, addr, 64, "store address"); u64 off = chk(s, a, bytes, true); storeN(s, a >> OBJ_SHIFT, off, bytes, v);
}
static Val readByte(State &s, u64 a) { u64 off = chk(s, a, 1, false); return byteAt(s, s.mem.get(a >> OBJ_SHIFT), off); }
static std::string cstr(State &s, u64 a) { std::string r; while (true) { Val b = readByte(s, a++); u64 c = concretize(s, b, 8, "C string"); if (!c) break; r += (char)c; } return r; }
static void copyMem(State &s, u64 d, u64 sr, u64 n, bool mv) {
  if (!n) return; u64 so = chk(s, sr, n, false), dof = chk(s, d, n, true); u64 si = sr >> OBJ_SHIFT, di = d >> OBJ_SHIFT;
  if (!mv && si == di && d != sr && so < dof + n && dof < so + n) die(s, "memcpy-overlap", "overlapping memcpy");
  Obj *D = s.mem.w(di); Obj *B = s.mem.get(si); memmove(D->d + dof, B->d + so, n);
  if (B->s) { D->mksyms(); if (B == s.mem.get(si)) memmove(D->s + dof, B->s + so, n * sizeof(*D->s)); } else if (D->s) memset(D->s + dof, 0, n * sizeof(*D->s));
}
static void setMem(State &s, u64 d, const Val &b, u64 n) {
  if (!n) return; u64 off = chk(s, d, n, true); Obj *o = s.mem.w(d >> OBJ_SHIFT);
  if (!b.e) { memset(o->d + off, (int)b.c, n); if (o->s) memset(o->s + off, 0, n * sizeof(*o->s)); } else { o->mksyms(); const Expr *e = C->extract(b.e, 0, 8); for (u64 i = 0; i < n; i++) o->s[off + i] = e; }
}
static u64 heapAlloc(State &s, u64 n, bool zero, const char *nm) {
  if (n >= (1ULL << OBJ_SHIFT)) return 0; // modelled: huge allocations fail
  Obj *o = s.mem.alloc(n, OK_HEAP, nm); if (!zero && n) { o->mksyms(); for (u64 i = 0; i < n; i++) o->s[i] = UNINIT; } return o->base;
}

// ------------------------------------------------------------ constants & decode
static u64 constAddr(const Constant *c);
static bool constEval(const Constant *c, u64 &out) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return false; out = i->getZExtValue(); return true; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { out = 0; return true; }
  if (auto *f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) return false; out = a.getZExtValue(); return true; }
  if (isa<GlobalValue>(c) || isa<BlockAddress>(c)) { out = constAddr(c); return true; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    u64 a, b;
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(ce); if (!constEval(cast<Constant>(g->getPointerOperand()), a)) return false; APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) return false; out = a + off.getSExtValue(); return true; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (!constEval(ce->getOperand(0), a)) return false; out = a; if (ce->getType()->isIntegerTy()) out &= maskw(ce->getType()->getIntegerBitWidth()); return true;
    case Instruction::Trunc: if (!constEval(ce->getOperand(0), a)) return false; out = a & maskw(ce->getType()->getIntegerBitWidth()); return true;
    case Instruction::Sub: case Instruction::Add: { if (!constEval(ce->getOperand(0), a) || !constEval(ce->getOperand(1), b)) return false; out = (ce->getOpcode() == Instruction::Sub ? a - b : a + b) & maskw(ce->getType()->getIntegerBitWidth()); return true; }
    default: return false; }
  }
  return false;
}
static u64 constAddr(const Constant *c) {
  if (auto *ba = dyn_cast<BlockAddress>(c)) { auto it = baAddr.find(ba); if (it != baAddr.end()) return it->second; u64 a = nextBA; nextBA += 16; baAddr[ba] = a; bbAt[a] = {ba->getFunction(), ba->getBasicBlock()}; return a; }
  const GlobalValue *g = cast<GlobalValue>(c); if (auto *ga = dyn_cast<GlobalAlias>(g)) { u64 o; constEval(ga->getAliasee(), o); return o; }
  auto it = gaddr.find(g); if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); exit(3); } return it->second;
}
static void writeConst(Obj *o, u64 off, const Constant *c) {
  Type *t = c->getType(); u64 v;
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) writeConst(o, off + i * es, cd->getElementAsConstant(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *cv = dyn_cast<ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) writeConst(o, off + i * es, cv->getOperand(i)); return; }
  u64 n = DL->getTypeStoreSize(t);
  if (auto *ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) { APInt a = ci->getValue(); memcpy(o->d + off, a.getRawData(), n); return; }
  if (!constEval(c, v)) { fprintf(stderr, "unsupported global initializer\n"); c->print(errs()); exit(3); }
  memcpy(o->d + off, &v, n);
}
static bool flat(Type *t, u64 base, std::vector<std::pair<u16, u16>> &out) {
  if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) return false; out.push_back({base, t->getIntegerBitWidth()}); return true; }
  if (t->isPointerTy()) { out.push_back({base, 64}); return true; }
  if (t->isDoubleTy()) { out.push_back({base, 64}); return true; } if (t->isFloatTy()) { out.push_back({base, 32}); return true; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!flat(st->getElementType(i), base + sl->getElementOffset(i), out)) return false; return true; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); if (at->getNumElements() > 64) return false; for (unsigned i = 0; i < at->getNumElements(); i++) if (!flat(at->getElementType(), base + i * es, out)) return false; return true; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) if (!flat(vt->getElementType(), base + i * es, out)) return false; return true; }
  return false;
}
static unsigned widthOf(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static int builtinId(const std::string &n);
static int partIndex(Type *t, ArrayRef<unsigned> idx) { int p = 0; Type *cur = t; for (unsigned i : idx) { if (auto *st = dyn_cast<StructType>(cur)) { for (unsigned k = 0; k < i; k++) { std::vector<std::pair<u16, u16>> v; flat(st->getElementType(k), 0, v); p += v.size(); } cur = st->getElementType(i); } else { Type *et = cast<ArrayType>(cur)->getElementType(); std::vector<std::pair<u16, u16>> v; flat(et, 0, v); p += v.size() * i; cur = et; } } return p; }

static DFunc *decode(Function *F) {
  auto it = dfuncs.find(F); if (it != dfuncs.end()) return it->second;
  DFunc *d = new DFunc; d->f = F; d->name = F->getName().str(); d->cname = strdup(d->name.c_str()); dfuncs[F] = d;
  std::unordered_map<const Value *, int> reg; int nr = 0;
  auto allocReg = [&](const Value *v) { std::vector<std::pair<u16, u16>> p; if (!flat(v->getType(), 0, p)) { p.clear(); p.push_back({0, 64}); } int r = nr; nr += p.size() ? p.size() : 1; reg[v] = r; return r; };
  for (auto &a : F->args()) { int r = allocReg(&a); d->argreg.push_back(r); std::vector<std::pair<u16, u16>> p; flat(a.getType(), 0, p); d->argparts.push_back(p); d->byval.push_back(a.hasByValAttr() ? (u64)DL->getTypeAllocSize(a.getParamByValType()) : 0); }
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) allocReg(&I);
  d->nregs = nr;
  auto op = [&](const Value *v) -> Opnd { auto f = reg.find(v); if (f != reg.end()) return Opnd{f->second, CV(0)}; if (auto *c = dyn_cast<Constant>(v)) { u64 o; if (constEval(c, o)) return Opnd{-1, CV(o)}; } return Opnd{-2, CV(0)}; };
  auto ops = [&](const Value *v, std::vector<Opnd> &out) { // flattened operand(s)
    std::vector<std::pair<u16, u16>> p; if (!flat(v->getType(), 0, p)) { out.push_back(Opnd{-2, CV(0)}); return; }
    if (p.size() == 1 && !v->getType()->isAggregateType()) { out.push_back(op(v)); return; }
    auto f = reg.find(v); for (size_t i = 0; i < p.size(); i++) { if (f != reg.end()) out.push_back(Opnd{f->second + (int)i, CV(0)}); else { const Constant *c = cast<Constant>(v); u64 val = 0; if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) val = 0; else { // ConstantStruct of scalars
            const Constant *el = c->getAggregateElement((unsigned)i); if (!el || !constEval(el, val)) { out.push_back(Opnd{-2, CV(0)}); continue; } } out.push_back(Opnd{-1, CV(val)}); } } };
  std::vector<std::pair<int, const BasicBlock *>> fix; int pc = 0;
  for (auto &B : *F) { int np = 0; for (auto &I : B) if (isa<PHINode>(I)) np++; d->bbpc[&B] = pc; pc += (int)B.size() - np; int dbg = 0; for (auto &I : B) if (isa<DbgInfoIntrinsic>(I)) dbg++; pc -= dbg; }
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.target = d->bbpc[to]; for (auto &I : *to) { auto *ph = dyn_cast<PHINode>(&I); if (!ph) break; const Value *v = ph->getIncomingValueForBlock(from); std::vector<Opnd> o; ops(v, o); int r = reg[ph]; for (size_t i = 0; i < o.size(); i++) e.copies.push_back({r + (int)i, o[i]}); } return e; };
  for (auto &B : *F) for (auto &I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    Inst n; n.op = I_UNSUP; n.src = &I; if (reg.count(&I)) n.dst = reg[&I]; n.w = widthOf(I.getType());
    bool vec = I.getType()->isVectorTy(); for (auto &o : I.operands()) if (o->getType()->isVectorTy()) vec = true;
    if (vec && !isa<StoreInst>(I) && !isa<LoadInst>(I) && !isa<CallInst>(I)) { d->code.push_back(n); continue; }
    if (auto *b = dyn_cast<BinaryOperator>(&I)) {
      n.a = {op(b->getOperand(0)), op(b->getOperand(1))};
      if (I.getType()->isFloatingPointTy()) { n.op = I_FBIN; n.sub = b->getOpcode(); }
      else if (n.w && n.w <= 64) { n.op = I_BIN; switch (b->getOpcode()) { case Instruction::Add: n.sub = E_ADD; break; case Instruction::Sub: n.sub = E_SUB; break; case Instruction::Mul: n.sub = E_MUL; break; case Instruction::UDiv: n.sub = E_UDIV; break; case Instruction::SDiv: n.sub = E_SDIV; break; case Instruction::URem: n.sub = E_UREM; break; case Instruction::SRem: n.sub = E_SREM; break; case Instruction::And: n.sub = E_AND; break; case Instruction::Or: n.sub = E_OR; break; case Instruction::Xor: n.sub = E_XOR; break; case Instruction::Shl: n.sub = E_SHL; break; case Instruction::LShr: n.sub = E_LSHR; break; case Instruction::AShr: n.sub = E_ASHR; break; default: n.op = I_UNSUP; } }
    } else if (auto *u = dyn_cast<UnaryOperator>(&I)) { n.op = I_FNEG; n.a = {op(u->getOperand(0))}; }
    else if (auto *ic = dyn_cast<ICmpInst>(&I)) { n.op = I_ICMP; n.w2 = widthOf(ic->getOperand(0)->getType()); n.sub = ic->getPredicate(); n.a = {op(ic->getOperand(0)), op(ic->getOperand(1))}; if (!n.w2 || n.w2 > 64) n.op = I_UNSUP; }
    else if (auto *fc = dyn_cast<FCmpInst>(&I)) { n.op = I_FCMP; n.w2 = widthOf(fc->getOperand(0)->getType()); n.sub = fc->getPredicate(); n.a = {op(fc->getOperand(0)), op(fc->getOperand(1))}; }
    else if (auto *ca = dyn_cast<CastInst>(&I)) { n.op = I_CAST; n.sub = ca->getOpcode(); n.w2 = widthOf(ca->getOperand(0)->getType()); n.a = {op(ca->getOperand(0))}; if (!n.w || !n.w2 || n.w > 64 || n.w2 > 64) n.op = I_UNSUP; }
    else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { n.op = I_GEP; n.a = {op(g->getPointerOperand())}; u64 co = 0; bool okk = true;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value *ix = gi.getOperand(); if (auto *st = gi.getStructTypeOrNull()) co += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) co += ci->getSExtValue() * es; else { n.a.push_back(op(ix)); n.k.push_back(es); n.k.push_back(widthOf(ix->getType())); if (ix->getType()->isVectorTy()) okk = false; } } }
      n.k.push_back(co); if (!okk) n.op = I_UNSUP; }
    else if (auto *l = dyn_cast<LoadInst>(&I)) { n.op = I_LOAD; n.a = {op(l->getPointerOperand())}; if (!flat(l->getType(), 0, n.parts)) n.op = I_UNSUP; }
    else if (auto *st = dyn_cast<StoreInst>(&I)) { n.op = I_STORE; n.a = {op(st->getPointerOperand())}; if (!flat(st->getValueOperand()->getType(), 0, n.parts)) n.op = I_UNSUP; else { auto *v = st->getValueOperand(); if (v->getType()->isVectorTy() && isa<Constant>(v)) { for (size_t i = 0; i < n.parts.size(); i++) { u64 x = 0; auto *el = cast<Constant>(v)->getAggregateElement((unsigned)i); if (!el || !constEval(el, x)) { n.op = I_UNSUP; break; } n.a.push_back(Opnd{-1, CV(x)}); } } else if (v->getType()->isVectorTy()) { for (size_t i = 0; i < n.parts.size(); i++) n.a.push_back(Opnd{reg[v] + (int)i, CV(0)}); } else ops(v, n.a); } }
    else if (auto *al = dyn_cast<AllocaInst>(&I)) { n.op = I_ALLOCA; n.a = {op(al->getArraySize())}; n.k = {(u64)DL->getTypeAllocSize(al->getAllocatedType())}; }
    else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { n.op = I_CBR; n.a = {op(br->getCondition())}; n.edges = {edge(&B, br->getSuccessor(0)), edge(&B, br->getSuccessor(1))}; } else { n.op = I_BR; n.edges = {edge(&B, br->getSuccessor(0))}; } }
    else if (auto *sw = dyn_cast<SwitchInst>(&I)) { n.op = I_SWITCH; n.w2 = widthOf(sw->getCondition()->getType()); n.a = {op(sw->getCondition())}; n.edges.push_back(edge(&B, sw->getDefaultDest())); for (auto &c : sw->cases()) { n.k.push_back(c.getCaseValue()->getZExtValue()); n.edges.push_back(edge(&B, c.getCaseSuccessor())); } }
    else if (auto *ib = dyn_cast<IndirectBrInst>(&I)) { n.op = I_IBR; n.a = {op(ib->getAddress())}; for (unsigned i = 0; i < ib->getNumDestinations(); i++) n.edges.push_back(edge(&B, ib->getDestination(i))); }
    else if (auto *rt = dyn_cast<ReturnInst>(&I)) { n.op = I_RET; if (rt->getReturnValue()) ops(rt->getReturnValue(), n.a); }
    else if (isa<UnreachableInst>(I)) n.op = I_UNREACH;
    else if (auto *se = dyn_cast<SelectInst>(&I)) { n.op = I_SELECT; n.a = {op(se->getCondition())}; ops(se->getTrueValue(), n.a); ops(se->getFalseValue(), n.a); flat(I.getType(), 0, n.parts); }
    else if (auto *ex = dyn_cast<ExtractValueInst>(&I)) { n.op = I_EXTRACTV; std::vector<Opnd> o; ops(ex->getAggregateOperand(), o); int p = partIndex(ex->getAggregateOperand()->getType(), ex->getIndices()); std::vector<std::pair<u16, u16>> ps; flat(I.getType(), 0, ps); for (size_t i = 0; i < ps.size(); i++) n.a.push_back(o[p + i]); }
    else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { n.op = I_INSERTV; ops(iv->getAggregateOperand(), n.a); std::vector<Opnd> o; ops(iv->getInsertedValueOperand(), o); int p = partIndex(iv->getType(), iv->getIndices()); for (size_t i = 0; i < o.size(); i++) n.a[p + i] = o[i]; }
    else if (auto *fr = dyn_cast<FreezeInst>(&I)) { n.op = I_FREEZE; ops(fr->getOperand(0), n.a); }
    else if (auto *cb = dyn_cast<CallInst>(&I)) {
      n.op = I_CALL; n.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
      if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) n.callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
      if (cb->isInlineAsm()) { n.builtin = -2; if (cb->arg_size()) n.a.push_back(op(cb->getArgOperand(0))); }
      else { n.a.push_back(n.callee ? Opnd{-1, CV(0)} : op(cb->getCalledOperand())); for (unsigned i = 0; i < cb->arg_size(); i++) { std::vector<Opnd> o; Value *av = cb->getArgOperand(i); if (av->getType()->isMetadataTy()) { o.push_back(Opnd{-1, CV(0)}); } else ops(av, o); n.k.push_back(o.size()); u64 bv = cb->isByValArgument(i) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0; n.k.push_back(bv); n.parts.push_back({0, (u16)widthOf(av->getType())}); for (auto &x : o) n.a.push_back(x); } if (n.callee) n.builtin = builtinId(n.callee->getName().str()); }
    }
    d->code.push_back(n);
  }
  // sanity: pcs
  { int p = 0; for (auto &B : *F) { if (d->bbpc[&B] != p) { fprintf(stderr, "pc mismatch\n"); exit(3); } for (auto &I : B) if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) p++; } }
  d->cov.assign(d->code.size(), false);
  if (auto *sp = F->getSubprogram()) { std::string fn = sp->getFile() ? (sp->getFile()->getDirectory().str()+"/"+sp->getFile()->getFilename().str()) : ""; d->lib = fn.find("/harness") == std::string::npos && fn.find("/models") == std::string::npos; }
  return d;
}

// ------------------------------------------------------------ builtins
enum { B_NONE = -1, B_IGNORE = 0, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_SETJMP, B_LONGJMP, B_ABORT, B_EXIT,
  B_SYM, B_ASSUME, B_ASSERT, B_CONC, B_REACH, B_OBS, B_FAIL, B_NATIVE, B_XXH3, B_ASSERTFAIL, B_VASTART, B_VACOPY, B_STACKSAVE, B_MSIZE, B_PARAM,
  B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_USUBSAT, B_UADDSAT, B_FSHL, B_FSHR, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_ABS, B_TLS, B_EXPECT, B_LOADREL, B_OBJSIZE, B_UMULO, B_UADDO, B_USUBO, B_SMULO, B_SADDO, B_SSUBO, B_FABS, B_STRTOD, B_FMTD, B_PRINT, B_ISSYM, B_FMODEL, B_VALIDPTR, B_FLOOR, B_TRAP };
static int builtinId(const std::string &n) {
  static std::unordered_map<std::string, int> t = {
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"symx_malloc", B_MALLOC}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"symx_free", B_FREE},
    {"_setjmp", B_SETJMP}, {"setjmp", B_SETJMP}, {"__sigsetjmp", B_SETJMP}, {"longjmp", B_LONGJMP}, {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"symx_sym", B_SYM}, {"symx_assume", B_ASSUME}, {"symx_assert_", B_ASSERT}, {"symx_concretize", B_CONC},
    {"symx_reach", B_REACH}, {"symx_observe", B_OBS}, {"symx_fail", B_FAIL}, {"symx_is_native", B_NATIVE}, {"XXH3_64bits", B_XXH3}, {"__assert_fail", B_ASSERTFAIL}, {"symx_malloc_size", B_MSIZE}, {"symx_param", B_PARAM}, {"symx_strtod", B_STRTOD}, {"symx_fmt_double", B_FMTD}, {"symx_print", B_PRINT}, {"symx_is_symbolic", B_ISSYM}, {"symx_valid", B_VALIDPTR}, {"floor", B_FLOOR}};
  auto it = t.find(n); if (it != t.end()) return it->second;
  auto p = [&](const char *x) { return n.compare(0, strlen(x), x) == 0; };
  if (!p("llvm.")) return B_NONE;
  if (p("llvm.memcpy")) return B_MEMCPY; if (p("llvm.memmove")) return B_MEMMOVE; if (p("llvm.memset")) return B_MEMSET;
  if (p("llvm.va_start")) return B_VASTART; if (p("llvm.va_copy")) return B_VACOPY; if (p("llvm.stacksave")) return B_STACKSAVE;
  if (p("llvm.umax")) return B_UMAX; if (p("llvm.umin")) return B_UMIN; if (p("llvm.smax")) return B_SMAX; if (p("llvm.smin")) return B_SMIN;
  if (p("llvm.usub.sat")) return B_USUBSAT; if (p("llvm.uadd.sat")) return B_UADDSAT; if (p("llvm.fshl")) return B_FSHL; if (p("llvm.fshr")) return B_FSHR; if (p("llvm.bswap")) return B_BSWAP; if (p("llvm.ctpop")) return B_CTPOP; if (p("llvm.ctlz")) return B_CTLZ; if (p("llvm.cttz")) return B_CTTZ; if (p("llvm.abs")) return B_ABS;
  if (p("llvm.threadlocal.address")) return B_TLS; if (p("llvm.expect")) return B_EXPECT; if (p("llvm.load.relative")) return B_LOADREL; if (p("llvm.objectsize")) return B_OBJSIZE; if (p("llvm.umul.with.overflow")) return B_UMULO; if (p("llvm.uadd.with.overflow")) return B_UADDO; if (p("llvm.usub.with.overflow")) return B_USUBO; if (p("llvm.smul.with.overflow")) return B_SMULO; if (p("llvm.sadd.with.overflow")) return B_SADDO; if (p("llvm.ssub.with.overflow")) return B_SSUBO;
  if (p("llvm.fabs")) return B_FABS; if (p("llvm.trap") || p("llvm.ubsantrap")) return B_TRAP; if (p("llvm.floor")) return B_FLOOR;
  return B_IGNORE; // lifetime, prefetch, assume, experimental.noalias, stackrestore, va_end, dbg
}

static void pushFrame(State &s, DFunc *d, const std::vector<std::vector<Val>> &args, const std::vector<u64> &byvals, const std::vector<u16> &aw, int dst) {
  if (s.st.size() > 8000) die(s, "stack-overflow", "recursion deeper than 8000 frames");
  Frame f; f.f = d; f.pc = 0; f.dst = dst; f.uid = s.nextuid++; f.r.assign(d->nregs, CV(0)); d->calls++;
  size_t na = d->argreg.size();
  for (size_t i = 0; i < args.size(); i++) {
    if (i < na) { Val bv; if (byvals[i]) { Obj *o = s.mem.alloc(byvals[i], OK_STACK, "byval"); u64 nb = o->base; f.allocas.push_back(nb >> OBJ_SHIFT); copyMem(s, nb, concretize(s, args[i][0], 64, "byval"), byvals[i], false); bv = CV(nb); f.r[d->argreg[i]] = bv; } else for (size_t j = 0; j < args[i].size(); j++) f.r[d->argreg[i] + j] = args[i][j]; }
    else { if (byvals[i]) { unsup(s, "byval vararg"); } for (auto &v : args[i]) { Val x = v; if (x.e && aw[i] < 64) x = EV(C->zext(x.e, 64)); f.varargs.push_back(x); } }
  }
  s.st.push_back(std::move(f));
}
static void popFrame(State &s) {
  Frame &f = s.st.back(); for (u64 id : f.allocas) { Obj *o = s.mem.get(id); if (o) { Chunk *c = s.mem.wch(id); Obj *t = new Obj; t->base = o->base; t->size = o->size; t->kind = o->kind; t->freed = true; t->name = o->name; c->o[id % CH] = RP<Obj>(t); } }
  s.st.pop_back();
}
static void freeObj(State &s, u64 a) {
  if (!a) return; u64 id = a >> OBJ_SHIFT; Obj *o = s.mem.get(id); if (!o || o->kind != OK_HEAP || o->base != a) die(s, "bad-free", "free of a non-heap or interior pointer"); if (o->freed) die(s, "double-free", "free");
  Chunk *c = s.mem.wch(id); Obj *t = new Obj; t->base = o->base; t->size = o->size; t->kind = o->kind; t->freed = true; t->name = o->name; c->o[id % CH] = RP<Obj>(t);
}
static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 t = v; memcpy(&f, &t, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 t; memcpy(&t, &f, 4); return t; } u64 v; memcpy(&v, &d, 8); return v; }

static void finishPath(State &s) {
  S.paths++;
  if (samples.size() < maxSamples && (S.paths <= maxSamples / 2 || (S.paths % 37) == 0)) { Sample x; x.inputs = dumpInputs(s, s.model); x.hash = dumpHash(s, s.model); C->newEpoch(); for (auto &o : s.obs) { std::vector<u8> b; for (auto &v : o.bytes) b.push_back((u8)(v.e ? C->eval(v.e, s.model) : v.c)); x.obs.push_back({o.name, hex(b)}); } samples.push_back(x); }
}
static void doReturn(State &s, const std::vector<Val> &rv) {
  int dst = s.st.back().dst; popFrame(s); if (s.st.empty()) { finishPath(s); throw PathEnd(); }
  Frame &f = s.st.back(); if (dst >= 0) for (size_t i = 0; i < rv.size(); i++) f.r[dst + i] = rv[i]; f.pc++;
}
static Val hashCall(State &s, u64 p, u64 n) {
  HashCall h; bool sym = false; for (u64 i = 0; i < n; i++) { Val v = readByte(s, p + i); if (v.e) { auto x = simp(s, v.e); if (x->op == E_CONST) v = CV(x->c); else sym = true; } h.bytes.push_back(v); }
  if (!sym) { std::vector<u8> b; for (auto &v : h.bytes) b.push_back(v.c); h.res = CV(symx_native_xxh3(b.data(), b.size()));
    bool anysym = false; for (auto &o : s.hashes) if (o.res.e && o.bytes.size() == n) anysym = true; bool dup = false; for (auto &o : s.hashes) if (!o.res.e && o.bytes.size() == n) { bool eq = true; for (u64 i = 0; i < n; i++) if (o.bytes[i].c != h.bytes[i].c) { eq = false; break; } if (eq) { dup = true; break; } }
    if (dup) return h.res; (void)anysym; }
  else { const Expr *one = nullptr; bool multi = false; if (optRealHash) { for (auto &v : h.bytes) if (v.e) { if (v.e->syms->v.size() != 1 || C->symExprs[v.e->syms->v[0]]->w != 8) multi = true; else { const Expr *sb = C->symExprs[v.e->syms->v[0]]; if (one && one != sb) multi = true; one = sb; } } }
    if (one && !multi) { u32 idx = 0; for (auto &v : h.bytes) if (v.e) idx = v.e->syms->v[0]; std::vector<u64> mm = s.model; if (mm.size() <= idx) mm.resize(idx + 1); const Expr *r = 0; std::map<std::vector<u8>, const Expr *> seen; std::vector<u8> b(n);
      for (u64 x = 0; x < 256; x++) { mm[idx] = x; C->newEpoch(); for (u64 i = 0; i < n; i++) b[i] = (u8)(h.bytes[i].e ? C->eval(h.bytes[i].e, mm) : h.bytes[i].c); const Expr *hv = C->cst(symx_native_xxh3(b.data(), b.size()), 64); r = r ? C->ite(C->bin(E_EQ, one, C->cst(x, 8)), hv, r) : hv; }
      return EV(r); }
    for (auto &o : s.hashes) if (o.bytes.size() == n) { bool same = true; for (u64 i = 0; i < n; i++) if (o.bytes[i].e != h.bytes[i].e || o.bytes[i].c != h.bytes[i].c) { same = false; break; } if (same) return o.res; }
    std::string nm = "hash#" + std::to_string(n); for (auto &v : h.bytes) nm += v.e ? ":e" + std::to_string(v.e->id) : ":c" + std::to_string(v.c); h.res = EV(freshSym(s, nm, 64)); }
  // functional consistency with every earlier call of the same length (uninterpreted hash)
  for (auto &o : s.hashes) if (o.bytes.size() == n && (o.res.e || h.res.e)) { const Expr *eq = C->cst(1, 1); for (u64 i = 0; i < n; i++) eq = C->bin(E_AND, eq, C->bin(E_EQ, X(o.bytes[i], 8), X(h.bytes[i], 8)));
      const Expr *heq = C->bin(E_EQ, X(o.res, 64), X(h.res, 64)); const Expr *imp = optIdealHash ? C->bin(E_EQ, eq, heq) : C->bin(E_OR, C->lnot(eq), heq); if (imp->op == E_CONST) { if (!imp->c) throw PathEnd(); continue; }
      if (!ev(s, imp)) { std::vector<u64> m; int r = query(s.pc, imp, s.model, &m); if (r != 1) throw PathEnd(); s.model = m; } addPC(s, imp); }
  s.hashes.push_back(h); return h.res;
}
static Function *modelFn(const char *n) { Function *f = M->getFunction(n); return f && !f->isDeclaration() ? f : nullptr; }

// returns true if the builtin completed (result in out, pc must advance); false if control was transferred
static bool runBuiltin(State &s, const Inst &in, int b, std::vector<std::vector<Val>> &A, std::vector<Val> &out) {
  auto conc = [&](int i, const char *w) { return concretize(s, A[i][0], in.parts[i].second ? in.parts[i].second : 64, w); };
  unsigned w = in.w;
  switch (b) {
  case B_IGNORE: return true;
  case B_MEMCPY: case B_MEMMOVE: { u64 n = conc(2, "memcpy length"), d = conc(0, "memcpy dst"), sr = conc(1, "memcpy src"); copyMem(s, d, sr, n, b == B_MEMMOVE); out = {CV(d)}; return true; }
  case B_MEMSET: { u64 n = conc(2, "memset length"), d = conc(0, "memset dst"); setMem(s, d, A[1][0], n); out = {CV(d)}; return true; }
  case B_MEMCMP: { u64 n = conc(2, "memcmp length"), p = conc(0, "memcmp ptr"), q = conc(1, "memcmp ptr"); if (n) { chk(s, p, n, false); chk(s, q, n, false); } const Expr *r = C->cst(0, 32);
      std::vector<std::pair<Val, Val>> bs; for (u64 i = 0; i < n; i++) { Val x = readByte(s, p + i), y = readByte(s, q + i); bs.push_back({x, y}); if (!x.e && !y.e && x.c != y.c) break; }
      for (size_t i = bs.size(); i-- > 0;) { const Expr *x = X(bs[i].first, 8), *y = X(bs[i].second, 8); r = C->ite(C->bin(E_EQ, x, y), r, C->ite(C->bin(E_ULT, x, y), C->cst(0xffffffff, 32), C->cst(1, 32))); }
      out = {EV(r)}; return true; }
  case B_STRLEN: { u64 p = conc(0, "strlen ptr"); u64 n = 0; while (true) { Val v = readByte(s, p + n); if (v.e) { const Expr *z = simp(s, C->bin(E_EQ, v.e, C->cst(0, 8))); if (z->op != E_CONST) { if (branch(s, z)) break; n++; continue; } if (z->c) break; n++; continue; } if (!v.c) break; n++; } out = {CV(n)}; return true; }
  case B_MALLOC: { u64 n = conc(0, "malloc size"); out = {CV(heapAlloc(s, n, false, "malloc"))}; return true; }
  case B_CALLOC: { u64 n = conc(0, "calloc"), m = conc(1, "calloc"); out = {CV(heapAlloc(s, n * m, true, "calloc"))}; return true; }
  case B_REALLOC: { u64 p = conc(0, "realloc"), n = conc(1, "realloc size"); u64 q = heapAlloc(s, n, false, "realloc"); if (q && p) { Obj *o = s.mem.get(p >> OBJ_SHIFT); if (!o || o->freed || o->base != p) die(s, "bad-free", "realloc"); u64 m = std::min(o->size, n); copyMem(s, q, p, m, false); freeObj(s, p); } out = {CV(q)}; return true; }
  case B_FREE: freeObj(s, conc(0, "free")); return true;
  case B_MSIZE: { u64 p = conc(0, "msize"); Obj *o = s.mem.get(p >> OBJ_SHIFT); out = {CV(o ? o->size : 0)}; return true; }
  case B_VALIDPTR: { u64 p = conc(0, "valid"), n = conc(1, "valid"); u64 id = p >> OBJ_SHIFT; Obj *o = s.mem.get(id); out = {CV(p >= (1ULL << OBJ_SHIFT) && o && !o->freed && n <= o->size && (p & ((1ULL << OBJ_SHIFT) - 1)) <= o->size - n)}; return true; }
  case B_SETJMP: { u64 p = conc(0, "setjmp"); u64 id = s.jmp.size() + 1; s.jmp[id] = {s.st.back().uid, s.st.back().pc}; chk(s, p, 8, true); storeN(s, p >> OBJ_SHIFT, p & ((1ULL << OBJ_SHIFT) - 1), 8, CV(id)); out = {CV(0)}; return true; }
  case B_LONGJMP: { u64 p = conc(0, "longjmp"); u64 off = chk(s, p, 8, false); Val v = loadN(s, p >> OBJ_SHIFT, off, 8); if (v.e) die(s, "bad-longjmp", "uninitialised jmp_buf"); auto it = s.jmp.find(v.c); if (it == s.jmp.end()) die(s, "bad-longjmp", "invalid jmp_buf"); u64 uid = it->second.first; int pc = it->second.second; bool found = false; for (auto &f : s.st) if (f.uid == uid) found = true; if (!found) die(s, "bad-longjmp", "longjmp to a frame that has returned");
      Val r = A[1][0]; while (s.st.back().uid != uid) popFrame(s); Frame &f = s.st.back(); f.pc = pc; const Inst &ji = f.f->code[pc]; if (ji.dst >= 0) f.r[ji.dst] = (!r.e && r.c == 0) ? CV(1) : r; f.pc++; return false; }
  case B_ABORT: die(s, "abort", "abort() called"); return false;
  case B_ASSERTFAIL: die(s, "abort", "assert() failed: " + cstr(s, conc(0, "assert"))); return false;
  case B_TRAP: die(s, "bounds-trap", "array index outside its declared bounds"); return false;
  case B_EXIT: die(s, "exit", "exit() called"); return false;
  case B_SYM: { u64 p = conc(0, "sym"), n = conc(1, "sym"); std::string nm = cstr(s, conc(2, "sym")); chk(s, p, n, true); int k = s.symcount[nm]++; Input inp; inp.name = nm; Obj *o = s.mem.w(p >> OBJ_SHIFT); o->mksyms(); u64 off = p & ((1ULL << OBJ_SHIFT) - 1); for (u64 i = 0; i < n; i++) { const Expr *e = freshSym(s, nm + "#" + std::to_string(k) + "[" + std::to_string(i) + "]", 8); s.mem.w(p >> OBJ_SHIFT)->s[off + i] = e; inp.bytes.push_back(e); } s.inputs.push_back(inp); return true; }
  case B_ASSUME: { const Expr *c = X(A[0][0], in.parts[0].second); if (c->w > 1) c = C->lnot(C->bin(E_EQ, c, C->cst(0, c->w))); c = simp(s, c); if (c->op == E_CONST) { if (!c->c) { S.assumed++; throw PathEnd(); } return true; } if (!ev(s, c)) { std::vector<u64> m; if (query(s.pc, c, s.model, &m) != 1) { S.assumed++; throw PathEnd(); } s.model = m; } addPC(s, c); return true; }
  case B_ASSERT: { S.asserts++; const Expr *c = X(A[0][0], in.parts[0].second); if (c->w > 1) c = C->lnot(C->bin(E_EQ, c, C->cst(0, c->w))); c = simp(s, c); std::string msg; { std::string m = cstr(s, conc(1, "msg")); msg = m; } reached["assert:" + msg]++; 
      if (c->op == E_CONST) { if (!c->c) die(s, "assert", msg); return true; } S.assertq++; std::vector<u64> m; if (feasible(s, C->lnot(c), &m)) { report(s, "assert", msg, m); if (!ev(s, c)) { std::vector<u64> m2; if (query(s.pc, c, s.model, &m2) != 1) throw PathEnd(); s.model = m2; } } addPC(s, c); return true; }
  case B_CONC: { u64 v = conc(0, "concretize"); out = {CV(v)}; return true; }
  case B_REACH: reached[cstr(s, conc(0, "reach"))]++; return true;
  case B_OBS: { u64 p = conc(1, "obs"), n = conc(2, "obs"); Observation o; o.name = cstr(s, conc(0, "obs")); for (u64 i = 0; i < n; i++) o.bytes.push_back(readByte(s, p + i)); s.obs.push_back(o); return true; }
  case B_FAIL: die(s, "assert", cstr(s, conc(0, "fail"))); return false;
  case B_NATIVE: out = {CV(0)}; return true;
  case B_ISSYM: out = {CV(A[0][0].e ? 1 : 0)}; return true;
  case B_PARAM: { std::string k = cstr(s, conc(0, "param")); auto it = params.find(k); out = {CV(it == params.end() ? A[1][0].c : (u64)atoll(it->second.c_str()))}; return true; }
  case B_XXH3: { u64 p = conc(0, "hash"), n = conc(1, "hash length"); out = {hashCall(s, p, n)}; return true; }
  case B_PRINT: { std::string t = cstr(s, conc(0, "print")); fprintf(stderr, "[symx] %s\n", t.c_str()); return true; }
  case B_STRTOD: { u64 p = conc(0, "strtod"), ep = conc(1, "strtod"); std::string t = cstr(s, p); char *e; double d = strtod(t.c_str(), &e); if (ep) { u64 off = chk(s, ep, 8, true); storeN(s, ep >> OBJ_SHIFT, off, 8, CV(p + (e - t.c_str()))); } out = {CV(fromD(d, 64))}; return true; }
  case B_FMTD: { u64 p = conc(0, "fmtd"), n = conc(1, "fmtd"); std::string f = cstr(s, conc(2, "fmtd")); double d = asD(conc(3, "fmtd double"), 64); char buf[512]; int r = snprintf(buf, sizeof buf, f.c_str(), d); u64 k = std::min<u64>(n, r + 1); for (u64 i = 0; i < k; i++) { u64 off = chk(s, p + i, 1, true); storeN(s, (p + i) >> OBJ_SHIFT, off, 1, CV((u8)buf[i])); } out = {CV((u64)r)}; return true; }
  case B_VASTART: { u64 p = conc(0, "va"); Frame &f = s.st.back(); u64 n = f.varargs.size() * 8; Obj *o = s.mem.alloc(n ? n : 8, OK_STACK, "varargs"); u64 ob = o->base; f.allocas.push_back(ob >> OBJ_SHIFT); for (size_t i = 0; i < f.varargs.size(); i++) storeN(s, ob >> OBJ_SHIFT, i * 8, 8, f.varargs[i]); chk(s, p, 24, true); u64 id = p >> OBJ_SHIFT, off = p & ((1ULL << OBJ_SHIFT) - 1); storeN(s, id, off, 4, CV(48)); storeN(s, id, off + 4, 4, CV(176)); storeN(s, id, off + 8, 8, CV(ob)); storeN(s, id, off + 16, 8, CV(0)); return true; }
  case B_VACOPY: { u64 d = conc(0, "va"), p = conc(1, "va"); copyMem(s, d, p, 24, true); return true; }
  case B_STACKSAVE: out = {CV(0)}; return true;
  case B_UMAX: { const Expr *x = X(A[0][0], w), *y = X(A[1][0], w); out = {EV(C->ite(C->bin(E_ULT, x, y), y, x))}; return true; }
  case B_UMIN: { const Expr *x = X(A[0][0], w), *y = X(A[1][0], w); out = {EV(C->ite(C->bin(E_ULT, x, y), x, y))}; return true; }
  case B_SMAX: { const Expr *x = X(A[0][0], w), *y = X(A[1][0], w); out = {EV(C->ite(C->bin(E_SLT, x, y), y, x))}; return true; }
  case B_SMIN: { const Expr *x = X(A[0][0], w), *y = X(A[1][0], w); out = {EV(C->ite(C->bin(E_SLT, x, y), x, y))}; return true; }
  case B_USUBSAT: { const Expr *x = X(A[0][0], w), *y = X(A[1][0], w); out = {EV(C->ite(C->bin(E_ULT, x, y), C->cst(0, w), C->bin(E_SUB, x, y)))}; return true; }
  case B_UADDSAT: { const Expr *x = X(A[0][0], w), *y = X(A[1][0], w); const Expr *z = C->bin(E_ADD, x, y); out = {EV(C->ite(C->bin(E_ULT, z, x), C->cst(~0ULL, w), z))}; return true; }
  case B_FSHL: case B_FSHR: { u64 k = conc(2, "fsh") % w; const Expr *x = X(A[0][0], w), *y = X(A[1][0], w); if (b == B_FSHR) k = (w - k) % w, (void)0; if (b == B_FSHR && k == 0) { out = {EV(y)}; return true; } if (k == 0) { out = {EV(x)}; return true; } out = {EV(C->bin(E_OR, C->bin(E_SHL, x, C->cst(k, w)), C->bin(E_LSHR, y, C->cst(w - k, w))))}; return true; }
  case B_BSWAP: { const Expr *x = X(A[0][0], w), *r = 0; for (unsigned i = 0; i < w; i += 8) { const Expr *y = C->extract(x, i, 8); r = r ? C->concat(r, y) : y; } out = {EV(r)}; return true; }
  case B_CTPOP: { u64 v = conc(0, "ctpop"); out = {CV(__builtin_popcountll(v))}; return true; }
  case B_CTLZ: { u64 v = conc(0, "ctlz"); out = {CV(v ? __builtin_clzll(v) - (64 - w) : w)}; return true; }
  case B_CTTZ: { u64 v = conc(0, "cttz"); out = {CV(v ? __builtin_ctzll(v) : w)}; return true; }
  case B_ABS: { const Expr *x = X(A[0][0], w); out = {EV(C->ite(C->bin(E_SLT, x, C->cst(0, w)), C->bin(E_SUB, C->cst(0, w), x), x))}; return true; }
  case B_TLS: case B_EXPECT: out = {A[0][0]}; return true;
  case B_LOADREL: { u64 p = conc(0, "lr"), o = conc(1, "lr"); u64 off = chk(s, p + o, 4, false); Val v = loadN(s, (p + o) >> OBJ_SHIFT, off, 4); out = {CV(p + (u64)sx(v.c, 32))}; return true; }
  case B_OBJSIZE: out = {CV(maskw(w))}; return true;
  case B_UMULO: case B_UADDO: case B_USUBO: case B_SMULO: case B_SADDO: case B_SSUBO: {
      unsigned aw = in.parts[0].second; const Expr *x = X(A[0][0], aw), *y = X(A[1][0], aw); const Expr *r, *o;
      if (b == B_UADDO) { r = C->bin(E_ADD, x, y); o = C->bin(E_ULT, r, x); } else if (b == B_USUBO) { r = C->bin(E_SUB, x, y); o = C->bin(E_ULT, x, y); }
      else if (aw <= 32) { Op op = (b == B_UMULO || b == B_SMULO) ? E_MUL : b == B_SADDO ? E_ADD : E_SUB; bool sg = b != B_UMULO; const Expr *xx = sg ? C->sext(x, 64) : C->zext(x, 64), *yy = sg ? C->sext(y, 64) : C->zext(y, 64); const Expr *rr = C->bin(op, xx, yy); r = C->extract(rr, 0, aw); o = C->lnot(C->bin(E_EQ, sg ? C->sext(r, 64) : C->zext(r, 64), rr)); }
      else { u64 cx = conc(0, "mulo"), cy = conc(1, "mulo"); u64 rr = 0; bool ov; if (b == B_UMULO) ov = __builtin_mul_overflow(cx, cy, &rr); else if (b == B_SMULO) { i64 t; ov = __builtin_mul_overflow((i64)cx, (i64)cy, &t); rr = t; } else if (b == B_SADDO) { i64 t; ov = __builtin_add_overflow((i64)cx, (i64)cy, &t); rr = t; } else { i64 t; ov = __builtin_sub_overflow((i64)cx, (i64)cy, &t); rr = t; } r = C->cst(rr, 64); o = C->cst(ov, 1); }
      out = {EV(r), EV(o)}; return true; }
  case B_FABS: { u64 v = conc(0, "fabs"); out = {CV(fromD(fabs(asD(v, w)), w))}; return true; }
  case B_FLOOR: { u64 v = conc(0, "floor"); out = {CV(fromD(floor(asD(v, w)), w))}; return true; }
  }
  unsup(s, "builtin"); return false;
}

static inline Val getv(Frame &f, const Opnd &o) { return o.reg >= 0 ? f.r[o.reg] : o.v; }
static void takeEdge(Frame &f, const Edge &e) {
  if (!e.copies.empty()) { if (e.copies.size() == 1) { f.r[e.copies[0].first] = getv(f, e.copies[0].second); } else { static std::vector<Val> t; t.clear(); for (auto &c : e.copies) t.push_back(getv(f, c.second)); size_t i = 0; for (auto &c : e.copies) f.r[c.first] = t[i++]; } }
  f.pc = e.target;
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
  switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w); case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w); } abort(); }
static const Expr *icmpE(unsigned p, const Expr *a, const Expr *b) {
  switch (p) { case CmpInst::ICMP_EQ: return C->bin(E_EQ, a, b); case CmpInst::ICMP_NE: return C->lnot(C->bin(E_EQ, a, b)); case CmpInst::ICMP_UGT: return C->bin(E_ULT, b, a); case CmpInst::ICMP_UGE: return C->bin(E_ULE, b, a); case CmpInst::ICMP_ULT: return C->bin(E_ULT, a, b); case CmpInst::ICMP_ULE: return C->bin(E_ULE, a, b);
    case CmpInst::ICMP_SGT: return C->bin(E_SLT, b, a); case CmpInst::ICMP_SGE: return C->bin(E_SLE, b, a); case CmpInst::ICMP_SLT: return C->bin(E_SLT, a, b); case CmpInst::ICMP_SLE: return C->bin(E_SLE, a, b); } abort(); }

static void step(State &s) {
  Frame &f = s.st.back(); const Inst &in = f.f->code[f.pc]; S.inst++; s.steps++; f.f->cov[f.pc] = true;
  switch (in.op) {
  case I_BIN: { Val a = getv(f, in.a[0]), b = getv(f, in.a[1]); Op op = (Op)in.sub;
      if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) { std::vector<u64> m; const Expr *z = C->bin(E_EQ, X(b, in.w), C->cst(0, in.w)); if (feasible(s, z, &m)) { report(s, "div-by-zero", "division by zero", m); if (z->op == E_CONST) throw PathEnd(); const Expr *nz = C->lnot(z); if (!ev(s, nz)) { std::vector<u64> m2; if (query(s.pc, nz, s.model, &m2) != 1) throw PathEnd(); s.model = m2; } addPC(s, nz); } }
      if (!a.e && !b.e) f.r[in.dst] = CV(fold(op, in.w, a.c, b.c, 0, in.w)); else f.r[in.dst] = EV(C->bin(op, X(a, in.w), X(b, in.w))); f.pc++; return; }
  case I_ICMP: { Val a = getv(f, in.a[0]), b = getv(f, in.a[1]); if (!a.e && !b.e) f.r[in.dst] = CV(icmpC(in.sub, a.c, b.c, in.w2)); else f.r[in.dst] = EV(icmpE(in.sub, X(a, in.w2), X(b, in.w2))); f.pc++; return; }
  case I_FCMP: { Val a = getv(f, in.a[0]), b = getv(f, in.a[1]); f.r[in.dst] = EV(C->fcmp(in.sub, in.w2, X(a, in.w2), X(b, in.w2))); f.pc++; return; }
  case I_CAST: { Val a = getv(f, in.a[0]); unsigned w = in.w, k = in.w2; Val r = a;
      switch (in.sub) {
      case Instruction::Trunc: r = a.e ? EV(C->extract(a.e, 0, w)) : CV(a.c & maskw(w)); break;
      case Instruction::ZExt: r = a.e ? EV(C->zext(a.e, w)) : a; break;
      case Instruction::SExt: r = a.e ? EV(C->sext(a.e, w)) : CV((u64)sx(a.c, k) & maskw(w)); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.e) r = w < k ? EV(C->extract(a.e, 0, w)) : EV(C->zext(a.e, w)); else r = CV(a.c & maskw(w)); break;
      case Instruction::BitCast: break;
      case Instruction::SIToFP: { u64 c = concretize(s, a, k, "sitofp"); r = CV(fromD((double)sx(c, k), w)); break; }
      case Instruction::UIToFP: { u64 c = concretize(s, a, k, "uitofp"); r = CV(fromD((double)c, w)); break; }
      case Instruction::FPToSI: { u64 c = concretize(s, a, k, "fptosi"); r = CV((u64)(i64)asD(c, k) & maskw(w)); break; }
      case Instruction::FPToUI: { u64 c = concretize(s, a, k, "fptoui"); r = CV((u64)asD(c, k) & maskw(w)); break; }
      case Instruction::FPTrunc: case Instruction::FPExt: { u64 c = concretize(s, a, k, "fpcast"); r = CV(fromD(asD(c, k), w)); break; }
      default: unsup(s, "cast"); }
      f.r[in.dst] = r; f.pc++; return; }
  case I_FBIN: { u64 a = concretize(s, getv(f, in.a[0]), in.w, "fp"), b = concretize(s, getv(f, in.a[1]), in.w, "fp"); double x = asD(a, in.w), y = asD(b, in.w), r; switch (in.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; default: unsup(s, "fbin"); r = 0; } f.r[in.dst] = CV(fromD(r, in.w)); f.pc++; return; }
  case I_FNEG: { u64 a = concretize(s, getv(f, in.a[0]), in.w, "fneg"); f.r[in.dst] = CV(fromD(-asD(a, in.w), in.w)); f.pc++; return; }
  case I_FREEZE: for (size_t i = 0; i < in.a.size(); i++) f.r[in.dst + i] = getv(f, in.a[i]); f.pc++; return;
  case I_GEP: { Val p = getv(f, in.a[0]); size_t n = in.a.size() - 1; u64 co = in.k.back(); bool sym = p.e; u64 acc = p.c + co; for (size_t i = 0; i < n; i++) { Val x = getv(f, in.a[i + 1]); if (x.e) sym = true; else acc += (u64)sx(x.c, in.k[i * 2 + 1]) * in.k[i * 2]; }
      if (!sym) { f.r[in.dst] = CV(acc); } else { const Expr *e = p.e ? C->bin(E_ADD, p.e, C->cst(acc - p.c, 64)) : C->cst(acc, 64); for (size_t i = 0; i < n; i++) { Val x = getv(f, in.a[i + 1]); if (x.e) e = C->bin(E_ADD, C->bin(E_MUL, C->sext(x.e, 64), C->cst(in.k[i * 2], 64)), e); } f.r[in.dst] = EV(e); } f.pc++; return; }
  case I_LOAD: { Val p = getv(f, in.a[0]); if (in.parts.size() == 1) { unsigned w = in.parts[0].second, by = (w + 7) / 8; Val v = loadMem(s, p, by); if (w % 8) v = v.e ? EV(C->extract(v.e, 0, w)) : CV(v.c & maskw(w)); s.st.back().r[in.dst] = v; } else { u64 a = concretize(s, p, 64, "aggregate load"); for (size_t i = 0; i < in.parts.size(); i++) f.r[in.dst + i] = loadMem(s, CV(a + in.parts[i].first), (in.parts[i].second + 7) / 8); } f.pc++; return; }
  case I_STORE: { Val p = getv(f, in.a[0]); if (p.e && in.parts.size() == 1) { storeMem(s, p, (in.parts[0].second + 7) / 8, getv(f, in.a[1])); f.pc++; return; } if (p.e) { u64 a = concretize(s, p, 64, "store address"); p = CV(a); } for (size_t i = 0; i < in.parts.size(); i++) storeMem(s, CV(p.c + in.parts[i].first), (in.parts[i].second + 7) / 8, getv(f, in.a[1 + i])); f.pc++; return; }
  case I_ALLOCA: { u64 n = concretize(s, getv(f, in.a[0]), 64, "alloca size"); u64 sz = n * in.k[0]; if (sz >= (1ULL << OBJ_SHIFT)) die(s, "stack-overflow", "huge alloca"); Obj *o = s.mem.alloc(sz, OK_STACK, f.f->cname); if (sz) { o->mksyms(); for (u64 i = 0; i < sz; i++) o->s[i] = UNINIT; } f.allocas.push_back(o->base >> OBJ_SHIFT); f.r[in.dst] = CV(o->base); f.pc++; return; }
  case I_BR: takeEdge(f, in.edges[0]); return;
  case I_CBR: { Val c = getv(f, in.a[0]); bool t = c.e ? branch(s, c.e) : (c.c & 1); takeEdge(f, in.edges[t ? 0 : 1]); return; }
  case I_SWITCH: { Val v = getv(f, in.a[0]); if (v.e) { const Expr *e = simp(s, v.e); if (e->op == E_CONST) v = CV(e->c); else v = EV(e); }
      if (!v.e) { size_t i = 0; for (; i < in.k.size(); i++) if (in.k[i] == v.c) break; takeEdge(f, in.edges[i < in.k.size() ? i + 1 : 0]); return; }
      // group cases by target+copies identity: by edge target
      std::vector<std::pair<int, const Expr *>> g; const Expr *none = C->cst(1, 1); std::map<int, size_t> byT;
      for (size_t i = 0; i < in.k.size(); i++) { const Expr *eq = C->bin(E_EQ, v.e, C->cst(in.k[i], in.w2)); none = C->bin(E_AND, none, C->lnot(eq)); int t = in.edges[i + 1].target; if (in.edges[i + 1].copies.empty()) { auto it = byT.find(t); if (it != byT.end()) { g[it->second].second = C->bin(E_OR, g[it->second].second, eq); continue; } byT[t] = g.size(); } g.push_back({(int)i + 1, eq}); }
      g.push_back({0, none}); C->newEpoch(); int sel = -1; for (size_t i = 0; i < g.size(); i++) if (C->eval(g[i].second, s.model)) { sel = i; break; } if (sel < 0) { unsup(s, "switch"); }
      bool fk = false; for (size_t i = 0; i < g.size(); i++) if ((int)i != sel) { const Expr *c = g[i].second; if (c->op == E_CONST && !c->c) continue; std::vector<u64> m; if (query(s.pc, c, s.model, &m) == 1) { State *n = new State(s); addPC(*n, c); n->model = m; n->depth++; if (n->depth > S.maxdepth) S.maxdepth = n->depth; profFork(s); takeEdge(n->st.back(), in.edges[g[i].first]); work.push_back(n); S.forks++; fk = true; } }
      addPC(s, g[sel].second); if (fk) s.depth++; takeEdge(f, in.edges[g[sel].first]); return; }
  case I_IBR: { u64 a = concretize(s, getv(f, in.a[0]), 64, "indirectbr"); auto it = bbAt.find(a); if (it == bbAt.end() || it->second.first != f.f->f) { die(s, "wild-jump", "computed goto to an invalid label"); } int t = f.f->bbpc[it->second.second]; for (auto &e : in.edges) if (e.target == t) { takeEdge(f, e); return; } die(s, "wild-jump", "computed goto"); return; }
  case I_RET: { std::vector<Val> rv; for (auto &o : in.a) rv.push_back(getv(f, o)); doReturn(s, rv); return; }
  case I_UNREACH: die(s, "unreachable", "executed an unreachable instruction (undefined behaviour)"); return;
  case I_SELECT: { Val c = getv(f, in.a[0]); size_t n = in.parts.size(); if (c.e) { const Expr *e = simp(s, c.e); if (e->op == E_CONST) c = CV(e->c); else c = EV(e); } if (!c.e) { static std::vector<Val> t; t.clear(); for (size_t i = 0; i < n; i++) t.push_back(getv(f, in.a[1 + (c.c & 1 ? 0 : n) + i])); for (size_t i = 0; i < n; i++) f.r[in.dst + i] = t[i]; }
      else { // pointers: fork; scalars: ite
        bool ptr = in.src->getType()->isPointerTy(); if (ptr || n > 1) { bool t = branch(s, c.e); for (size_t i = 0; i < n; i++) f.r[in.dst + i] = getv(f, in.a[1 + (t ? 0 : n) + i]); } else { unsigned w = in.parts[0].second; f.r[in.dst] = EV(C->ite(c.e, X(getv(f, in.a[1]), w), X(getv(f, in.a[2]), w))); } }
      f.pc++; return; }
  case I_EXTRACTV: case I_INSERTV: { static std::vector<Val> t; t.clear(); for (auto &o : in.a) t.push_back(getv(f, o)); for (size_t i = 0; i < t.size(); i++) f.r[in.dst + i] = t[i]; f.pc++; return; }
  case I_CALL: {
      if (in.builtin == -2) { // inline asm: identity barrier only
        if (in.dst >= 0) { if (in.a.size()) f.r[in.dst] = getv(f, in.a[0]); else unsup(s, "inline asm"); } f.pc++; return; }
      std::vector<std::vector<Val>> A; std::vector<u64> bv; std::vector<u16> aw; size_t p = 1; for (size_t i = 0; i * 2 < in.k.size(); i++) { std::vector<Val> v; for (u64 j = 0; j < in.k[i * 2]; j++) v.push_back(getv(f, in.a[p++])); A.push_back(v); bv.push_back(in.k[i * 2 + 1]); aw.push_back(in.parts[i].second); }
      Function *fn = in.callee; int b = in.builtin;
      if (!fn) { u64 a = concretize(s, getv(f, in.a[0]), 64, "call target"); auto it = funcAt.find(a); if (it == funcAt.end()) { if (a < (1ULL << OBJ_SHIFT)) die(s, "null-deref", "call through a null function pointer"); die(s, "wild-call", "call through an invalid function pointer"); } fn = it->second; b = builtinId(fn->getName().str()); }
      if (b >= 0 && (fn->isDeclaration() || b == B_XXH3)) { std::vector<Val> out; u64 uid = s.st.back().uid; (void)uid; if (runBuiltin(s, in, b, A, out)) { Frame &g = s.st.back(); if (in.dst >= 0) for (size_t i = 0; i < out.size(); i++) g.r[in.dst + i] = out[i]; g.pc++; } return; }
      if (fn->isDeclaration()) { std::string nm = fn->getName().str(); unsup(s, "external function " + nm); }
      DFunc *d = decode(fn); pushFrame(s, d, A, bv, aw, in.dst); return; }
  default: { std::string t; raw_string_ostream os(t); in.src->print(os); unsup(s, "instruction " + t); }
  }
}

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

int main(int argc, char **argv) {
  T0 = Clock::now(); std::string bc, entry = "harness", out;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--max-time") maxTime = atof(nx().c_str()); else if (a == "--max-errors") maxErr = atoi(nx().c_str()); else if (a == "--samples") maxSamples = atoi(nx().c_str()); else if (a == "--solver-timeout") solverTimeout = atoi(nx().c_str()); else if (a == "--max-steps") maxSteps = atoll(nx().c_str()); else if (a == "--mem") memLimitMB = atoll(nx().c_str()); else if (a == "--no-uninit") optUninit = false; else if (a == "--ideal-hash") optIdealHash = true; else if (a == "--real-hash") optRealHash = true; else if (a == "--random") rngState = strtoull(nx().c_str(), 0, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; else if (a == "-P") { std::string p = nx(); auto q = p.find('='); params[p.substr(0, q)] = p.substr(q + 1); } else bc = a; }
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("symx", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout(); C = new Ctx; newSolver();
  State *s0 = new State;
  // layout: functions, then globals
  u64 fid = s0->mem.n; { for (auto &F : *M) { u64 id = s0->mem.n++; s0->mem.wch(id); u64 a = id << OBJ_SHIFT; gaddr[&F] = a; funcAt[a] = &F; } (void)fid; nextBA = (s0->mem.n++) << OBJ_SHIFT; s0->mem.wch(s0->mem.n); }
  std::vector<std::pair<GlobalVariable *, u64>> gs;
  for (auto &G : M->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); if (sz >= (1ULL << OBJ_SHIFT)) { fprintf(stderr, "global too large %s\n", G.getName().str().c_str()); return 3; } Obj *o = s0->mem.alloc(sz, OK_GLOBAL, strdup(G.getName().str().c_str())); gaddr[&G] = o->base; gs.push_back({&G, o->base >> OBJ_SHIFT}); }
  for (auto &g : gs) { Obj *o = s0->mem.w(g.second); if (g.first->hasInitializer()) writeConst(o, 0, g.first->getInitializer()); o->ro = g.first->isConstant(); }
  Function *E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  pushFrame(*s0, decode(E), {}, {}, {}, -1); work.push_back(s0);
  bool timeout = false, mem = false; u64 tick = 0; u64 left = 0;
  while (!work.empty()) {
    if (rngState && work.size() > 1 && (rnd() & 1)) std::swap(work.back(), work[rnd() % work.size()]);
    State *s = work.back(); work.pop_back();
    try { while (true) { step(*s); if ((++tick & 0xfff) == 0) { if (now() > maxTime) { timeout = true; break; } if ((tick & 0xfffff) == 0) { FILE *sf = fopen("/proc/self/statm", "r"); long tot, res = 0; if (sf) { if (fscanf(sf, "%ld %ld", &tot, &res) != 2) res = 0; fclose(sf); } if ((u64)res * 4 / 1024 > memLimitMB) { mem = true; break; } } if (s->steps > maxSteps) { report(*s, "nontermination", "step limit reached", s->model); incomplete["step limit"]++; break; } } } } catch (PathEnd &) {}
    if (timeout || mem) { left = work.size() + 1; break; }
    delete s;
  }
  if (timeout) incomplete["time limit"]++; if (mem) incomplete["memory limit"]++;
  if (optForkProf) for (auto &p : forkProf) fprintf(stderr, "FORK %lu %s\n", p.second, p.first.c_str());
  // output
  FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(fo, "{\"entry\":\"%s\",\"complete\":%s,\"paths\":%lu,\"unexplored\":%lu,\"infeasible_assumed\":%lu,\"forks\":%lu,\"instructions\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"byte_domain\":%lu,\"cache_hits\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"asserts_checked\":%lu,\"assert_queries\":%lu,\"max_depth\":%lu,\"memory_checks\":%lu,\"exprs\":%lu,\n", jesc(entry).c_str(), incomplete.empty() ? "true" : "false", S.paths, left, S.assumed, S.forks, S.inst, S.queries, S.qsat, S.qunsat, S.qunk, S.qbyte, S.cachehit, S.solver, now(), S.asserts, S.assertq, S.maxdepth, S.memchecks, C->nexprs);
  fprintf(fo, "\"incomplete\":{"); bool fi = true; for (auto &p : incomplete) { fprintf(fo, "%s\"%s\":%lu", fi ? "" : ",", jesc(p.first).c_str(), p.second); fi = false; }
  fprintf(fo, "},\n\"reached\":{"); fi = true; for (auto &p : reached) { fprintf(fo, "%s\"%s\":%lu", fi ? "" : ",", jesc(p.first).c_str(), p.second); fi = false; }
  fprintf(fo, "},\n\"functions\":["); fi = true; for (auto &p : dfuncs) if (p.second->lib && p.second->calls) { fprintf(fo, "%s\"%s\"", fi ? "" : ",", p.second->name.c_str()); fi = false; }
  u64 cov = 0, tot = 0; for (auto &p : dfuncs) if (p.second->lib && p.second->calls) { for (bool b : p.second->cov) { tot++; cov += b; } }
  fprintf(fo, "],\n\"ir_instructions_covered\":%lu,\"ir_instructions_in_functions\":%lu,\n\"errors\":[", cov, tot);
  auto kvs = [&](std::vector<std::pair<std::string, std::string>> &v) { fprintf(fo, "["); bool f1 = true; for (auto &p : v) { fprintf(fo, "%s[\"%s\",\"%s\"]", f1 ? "" : ",", jesc(p.first).c_str(), p.second.c_str()); f1 = false; } fprintf(fo, "]"); };
  auto hs = [&](std::vector<std::pair<std::string, u64>> &v) { fprintf(fo, "["); bool f1 = true; for (auto &p : v) { fprintf(fo, "%s[\"%s\",%lu]", f1 ? "" : ",", p.first.c_str(), p.second); f1 = false; } fprintf(fo, "]"); };
  fi = true; for (auto &ke : errors) for (auto &e : ke.second) { fprintf(fo, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"func\":\"%s\",\"loc\":\"%s\",\"count\":%lu,\"stack\":[", fi ? "" : ",\n", e.kind.c_str(), jesc(e.msg).c_str(), e.func.c_str(), jesc(e.loc).c_str(), errcount[ke.first]); fi = false; bool f2 = true; for (auto &t : e.stack) { fprintf(fo, "%s\"%s\"", f2 ? "" : ",", jesc(t).c_str()); f2 = false; } fprintf(fo, "],\"inputs\":"); kvs(e.inputs); fprintf(fo, ",\"hash\":"); hs(e.hash); fprintf(fo, "}"); }
  fprintf(fo, "],\n\"samples\":["); fi = true; for (auto &x : samples) { fprintf(fo, "%s{\"inputs\":", fi ? "" : ",\n"); fi = false; kvs(x.inputs); fprintf(fo, ",\"obs\":"); kvs(x.obs); fprintf(fo, ",\"hash\":"); hs(x.hash); fprintf(fo, "}"); }
  fprintf(fo, "]}\n"); if (fo != stdout) fclose(fo);
  _exit(0);
}
