// Expression DAG (hash-consed bit-vectors up to 64 bits) and its z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <z3.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;

enum Op : u8 { E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_FCMP };

struct SymSet { std::vector<u32> v; };

struct Expr {
  Op op; u8 w; uint16_t aux; u32 id; u64 c;
  const Expr *k[3];
  const SymSet *syms;
  mutable Z3_ast z; mutable Z3_ast lit;
  mutable u32 epoch; mutable u64 ev;
  u64 mx; // upper bound (unsigned)
  bool cleaf; // CONST or ITE tree of CONST leaves
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

u64 fold(Op op, unsigned w, u64 a, u64 b, uint16_t aux, unsigned kw); // binary folding

struct Ctx {
  Z3_context z3; Z3_ast one = 0, zero = 0;
  Ctx();
  const Expr *mk(Op op, unsigned w, uint16_t aux, u64 c, const Expr *a, const Expr *b, const Expr *d);
  const Expr *cst(u64 v, unsigned w) { return mk(E_CONST, w, 0, v & maskw(w), 0, 0, 0); }
  const Expr *sym(u32 idx, unsigned w, const std::string &name);
  // simplifying constructors
  const Expr *bin(Op op, const Expr *a, const Expr *b);
  const Expr *ite(const Expr *c, const Expr *a, const Expr *b);
  const Expr *concat(const Expr *hi, const Expr *lo);
  const Expr *extract(const Expr *a, unsigned off, unsigned w);
  const Expr *zext(const Expr *a, unsigned w);
  const Expr *sext(const Expr *a, unsigned w);
  const Expr *fcmp(unsigned pred, unsigned fw, const Expr *a, const Expr *b);
  const Expr *lnot(const Expr *a) { return bin(E_XOR, a, cst(1, 1)); }
  Z3_ast toZ3(const Expr *e);
  u64 eval(const Expr *e, const std::vector<u64> &model);
  void newEpoch() { epoch++; }
  u32 epoch = 1;
  std::vector<const Expr *> symExprs; std::vector<std::string> symNames;
  std::unordered_map<std::string, u32> symByName;
  u64 nexprs = 0;
private:
  struct KeyHash { size_t operator()(const Expr *e) const {
      size_t h = e->op * 0x9E3779B97F4A7C15ULL; h ^= (size_t)e->w * 1315423911u + e->aux * 2654435761u; h = h * 31 + e->c;
      for (int i = 0; i < 3; i++) h = h * 0x100000001b3ULL + (size_t)(e->k[i] ? e->k[i]->id + 1 : 0); return h ^ (h >> 29); } };
  struct KeyEq { bool operator()(const Expr *a, const Expr *b) const {
      return a->op == b->op && a->w == b->w && a->aux == b->aux && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
  std::unordered_set<Expr *, KeyHash, KeyEq> tab;
  std::map<std::vector<u32>, SymSet *> sets;
  std::map<std::pair<const SymSet*, const SymSet*>, const SymSet*> unions;
  const SymSet *emptySet;
  const SymSet *intern(const std::vector<u32> &v);
  const SymSet *uni(const SymSet *a, const SymSet *b);
  std::vector<Z3_ast> keep;
};
