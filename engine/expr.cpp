#include "expr.h"
#include <cmath>

static bool fcmpEval(unsigned pred, unsigned fw, u64 a, u64 b) {
  double x, y;
  if (fw == 32) { float f; u32 t = (u32)a; memcpy(&f, &t, 4); x = f; t = (u32)b; memcpy(&f, &t, 4); y = f; }
  else { memcpy(&x, &a, 8); memcpy(&y, &b, 8); }
  bool un = std::isnan(x) || std::isnan(y);
  // LLVM predicates: bit0=eq bit1=gt bit2=lt bit3=uno
  if (un) return (pred & 8) != 0;
  if (x == y) return (pred & 1) != 0;
  if (x > y) return (pred & 2) != 0;
  return (pred & 4) != 0;
}

u64 fold(Op op, unsigned w, u64 a, u64 b, uint16_t aux, unsigned kw) {
  u64 m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
  case E_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
  case E_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return (a ^ b) & m;
  case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : (a >> b) & m;
  case E_ASHR: { i64 x = sx(a, w); if (b >= w) b = w - 1; return (u64)(x >> b) & m; }
  case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
  case E_SLT: return sx(a, kw) < sx(b, kw); case E_SLE: return sx(a, kw) <= sx(b, kw);
  case E_FCMP: return fcmpEval(aux & 15, aux >> 4, a, b);
  default: abort();
  }
}

Ctx::Ctx() {
  Z3_config cfg = Z3_mk_config(); z3 = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
  emptySet = intern({});
}
const SymSet *Ctx::intern(const std::vector<u32> &v) { auto &p = sets[v]; if (!p) { p = new SymSet; p->v = v; } return p; }
const SymSet *Ctx::uni(const SymSet *a, const SymSet *b) {
  if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
  if (a > b) std::swap(a, b);
  auto &r = unions[{a, b}]; if (r) return r;
  std::vector<u32> o; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(o));
  return r = intern(o);
}
static unsigned nbits(u64 v) { return v ? 64 - __builtin_clzll(v) : 1; }
static u64 upper(const Expr *e) {
  u64 m = maskw(e->w); const Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
  case E_CONST: return e->c; case E_ZEXT: return a->mx;
  case E_ADD: { u64 r = a->mx + b->mx; return r < a->mx || r > m ? m : r; }
  case E_MUL: { u64 r; return __builtin_mul_overflow(a->mx, b->mx, &r) || r > m ? m : r; }
  case E_AND: return std::min(a->mx, b->mx);
  case E_OR: case E_XOR: return maskw(nbits(a->mx | b->mx)) & m;
  case E_UREM: return b->op == E_CONST && b->c ? std::min(b->c - 1, a->mx) : a->mx;
  case E_UDIV: return b->op == E_CONST && b->c ? a->mx / b->c : m;
  case E_LSHR: return b->op == E_CONST && b->c < 64 ? a->mx >> b->c : a->mx;
  case E_ITE: return std::max(b->mx, e->k[2]->mx);
  case E_CONCAT: return (a->mx << b->w) | maskw(b->w);
  case E_EXTRACT: return e->aux ? std::min(m, a->mx >> e->aux) : std::min(m, a->mx);
  default: return m; }
}
const Expr *Ctx::mk(Op op, unsigned w, uint16_t aux, u64 c, const Expr *a, const Expr *b, const Expr *d) {
  Expr t; memset((void*)&t, 0, sizeof t); t.op = op; t.w = w; t.aux = aux; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
  auto it = tab.find(&t); if (it != tab.end()) return *it;
  Expr *e = new Expr(t); e->id = ++nexprs;
  const SymSet *s = emptySet; for (int i = 0; i < 3; i++) if (e->k[i]) s = uni(s, e->k[i]->syms);
  e->syms = s; e->cleaf = op == E_CONST || (op == E_ITE && b->cleaf && d->cleaf);
  e->mx = upper(e); tab.insert(e); return e;
}
const Expr *Ctx::sym(u32 idx, unsigned w, const std::string &name) {
  Expr *e = const_cast<Expr*>(mk(E_SYM, w, 0, idx, 0, 0, 0)); if (e->syms->v.empty()) e->syms = intern({idx});
  (void)name; return e;
}
const Expr *Ctx::fcmp(unsigned pred, unsigned fw, const Expr *a, const Expr *b) {
  uint16_t aux = pred | (fw << 4);
  if (a->op == E_CONST && b->op == E_CONST) return cst(fold(E_FCMP, 1, a->c, b->c, aux, fw), 1);
  return mk(E_FCMP, 1, aux, 0, a, b, 0);
}
const Expr *Ctx::ite(const Expr *c, const Expr *a, const Expr *b) {
  if (c->op == E_CONST) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1 && a->op == E_CONST && b->op == E_CONST) return a->c ? c : lnot(c);
  if (c->op == E_XOR && c->k[1]->op == E_CONST && c->w == 1) return ite(c->k[0], b, a);
  if (a->w == 1) { // boolean forms
    if (a->op == E_CONST) return a->c ? bin(E_OR, c, b) : bin(E_AND, lnot(c), b);
    if (b->op == E_CONST) return b->c ? bin(E_OR, lnot(c), a) : bin(E_AND, c, a);
  }
  if (b->op == E_ITE && b->k[1] == a) return ite(bin(E_OR, c, b->k[0]), a, b->k[2]);
  return mk(E_ITE, a->w, 0, 0, c, a, b);
}
const Expr *Ctx::concat(const Expr *hi, const Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (hi->op == E_CONST && lo->op == E_CONST) return cst((hi->c << lo->w) | lo->c, w);
  if (hi->op == E_CONST && hi->c == 0) return zext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return extract(hi->k[0], lo->aux, w);
  return mk(E_CONCAT, w, 0, 0, hi, lo, 0);
}
const Expr *Ctx::extract(const Expr *a, unsigned off, unsigned w) {
  if (w == a->w) return a;
  switch (a->op) {
  case E_CONST: return cst(a->c >> off, w);
  case E_EXTRACT: return extract(a->k[0], a->aux + off, w);
  case E_CONCAT: { unsigned lw = a->k[1]->w; if (off + w <= lw) return extract(a->k[1], off, w); if (off >= lw) return extract(a->k[0], off - lw, w);
      return concat(extract(a->k[0], 0, off + w - lw), extract(a->k[1], off, lw - off)); }
  case E_ZEXT: { unsigned kw = a->k[0]->w; if (off >= kw) return cst(0, w); if (off + w <= kw) return extract(a->k[0], off, w); return zext(extract(a->k[0], off, kw - off), w); }
  case E_SEXT: { unsigned kw = a->k[0]->w; if (off + w <= kw) return extract(a->k[0], off, w); if (off == 0) return sext(a->k[0], w); break; }
  case E_ITE: if (a->cleaf || a->k[1]->op == E_CONST || a->k[2]->op == E_CONST) return ite(a->k[0], extract(a->k[1], off, w), extract(a->k[2], off, w)); break;
  case E_AND: case E_OR: case E_XOR: return bin(a->op, extract(a->k[0], off, w), extract(a->k[1], off, w));
  case E_ADD: case E_SUB: case E_MUL: if (off == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w)); break;
  default: break;
  }
  return mk(E_EXTRACT, w, off, 0, a, 0, 0);
}
const Expr *Ctx::zext(const Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->op == E_CONST) return cst(a->c, w);
  if (a->op == E_ZEXT) return zext(a->k[0], w);
  if (a->op == E_ITE && a->cleaf) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
  return mk(E_ZEXT, w, 0, 0, a, 0, 0);
}
const Expr *Ctx::sext(const Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->op == E_CONST) return cst((u64)sx(a->c, a->w), w);
  if (a->op == E_SEXT) return sext(a->k[0], w);
  if (a->op == E_ZEXT) return zext(a->k[0], w);
  if (a->op == E_ITE && a->cleaf) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
  return mk(E_SEXT, w, 0, 0, a, 0, 0);
}
static bool commut(Op o) { return o == E_ADD || o == E_MUL || o == E_AND || o == E_OR || o == E_XOR || o == E_EQ; }
static bool isCmp(Op o) { return o >= E_EQ && o <= E_SLE; }
const Expr *Ctx::bin(Op op, const Expr *a, const Expr *b) {
  unsigned kw = a->w, w = isCmp(op) ? 1 : kw;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  if (a->op == E_CONST && b->op == E_CONST) return cst(fold(op, w, a->c, b->c, 0, kw), w);
  if (commut(op) && (a->op == E_CONST || (b->op != E_CONST && a->id > b->id))) std::swap(a, b);
  u64 m = maskw(kw);
  if (b->op == E_CONST) {
    u64 c = b->c;
    if (a->op == E_ITE && a->cleaf) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
    switch (op) {
    case E_ADD: if (!c) return a; if (a->op == E_ADD && a->k[1]->op == E_CONST) return bin(E_ADD, a->k[0], cst(a->k[1]->c + c, kw)); break;
    case E_SUB: return bin(E_ADD, a, cst(0 - c, kw));
    case E_MUL: if (!c) return b; if (c == 1) return a; break;
    case E_AND: if (!c) return b; if (c == m) return a;
      if (a->op == E_ZEXT) { unsigned zw = a->k[0]->w; if ((c & maskw(zw)) == maskw(zw)) return a; return zext(bin(E_AND, a->k[0], cst(c, zw)), kw); }
      if (a->op == E_AND && a->k[1]->op == E_CONST) return bin(E_AND, a->k[0], cst(a->k[1]->c & c, kw));
      { // low mask -> zext(extract)
        if ((c & (c + 1)) == 0) { unsigned n = __builtin_popcountll(c); if (n < kw && (n == 1 || n == 8 || n == 16 || n == 32)) return zext(extract(a, 0, n), kw); } }
      break;
    case E_OR: if (!c) return a; if (c == m) return b; break;
    case E_XOR: if (!c) return a; if (a->op == E_XOR && a->k[1]->op == E_CONST) return bin(E_XOR, a->k[0], cst(a->k[1]->c ^ c, kw));
      if (kw == 1) { // push negation into comparisons
        if (a->op == E_ULT) return bin(E_ULE, a->k[1], a->k[0]);
        if (a->op == E_ULE) return bin(E_ULT, a->k[1], a->k[0]);
        if (a->op == E_SLT) return bin(E_SLE, a->k[1], a->k[0]);
        if (a->op == E_SLE) return bin(E_SLT, a->k[1], a->k[0]);
      }
      break;
    case E_SHL: if (!c) return a; if (c >= kw) return cst(0, kw); return concat(extract(a, 0, kw - c), cst(0, c));
    case E_LSHR: if (!c) return a; if (c >= kw) return cst(0, kw); return zext(extract(a, c, kw - c), kw);
    case E_ASHR: if (!c) return a; if (a->op == E_ZEXT && a->k[0]->w < kw) return bin(E_LSHR, a, b); if (c < kw) return sext(extract(a, c, kw - c), kw); break;
    case E_UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return bin(E_LSHR, a, cst(__builtin_ctzll(c), kw)); if (c && a->mx < c) return cst(0, kw);
      if (c) { unsigned n = nbits(a->mx | c); if (n < kw) return zext(bin(E_UDIV, extract(a, 0, n), cst(c, n)), kw); } break;
    case E_UREM: if (c == 1) return cst(0, kw); if (c && (c & (c - 1)) == 0) return bin(E_AND, a, cst(c - 1, kw)); if (c && a->mx < c) return a;
      if (c) { unsigned n = nbits(a->mx | c); if (n < kw) return zext(bin(E_UREM, extract(a, 0, n), cst(c, n)), kw); } break;
    case E_EQ:
      if (c > a->mx) return cst(0, 1);
      if (kw == 1) return c ? a : lnot(a);
      if (a->op == E_ZEXT) { unsigned zw = a->k[0]->w; if (c > maskw(zw)) return cst(0, 1); return bin(E_EQ, a->k[0], cst(c, zw)); }
      if (a->op == E_SEXT) { unsigned zw = a->k[0]->w; if ((u64)(sx(c, zw)) != (u64)sx(c, kw)) return cst(0, 1); return bin(E_EQ, a->k[0], cst(c, zw)); }
      if (a->op == E_ADD && a->k[1]->op == E_CONST) return bin(E_EQ, a->k[0], cst(c - a->k[1]->c, kw));
      if (a->op == E_XOR && a->k[1]->op == E_CONST) return bin(E_EQ, a->k[0], cst(c ^ a->k[1]->c, kw));
      if (a->op == E_CONCAT) { unsigned lw = a->k[1]->w; return bin(E_AND, bin(E_EQ, a->k[0], cst(c >> lw, kw - lw)), bin(E_EQ, a->k[1], cst(c, lw))); }
      if (a->op == E_ITE && (a->k[1]->op == E_CONST || a->k[2]->op == E_CONST)) return ite(a->k[0], bin(E_EQ, a->k[1], b), bin(E_EQ, a->k[2], b));
      break;
    case E_ULT: if (!c) return cst(0, 1); if (a->mx < c) return cst(1, 1); if (c == 1) return bin(E_EQ, a, cst(0, kw));
      if (a->op == E_ZEXT) { unsigned zw = a->k[0]->w; if (c > maskw(zw)) return cst(1, 1); return bin(E_ULT, a->k[0], cst(c, zw)); } break;
    case E_ULE: if (a->mx <= c) return cst(1, 1); if (!c) return bin(E_EQ, a, b);
      if (a->op == E_ZEXT) { unsigned zw = a->k[0]->w; if (c >= maskw(zw)) return cst(1, 1); return bin(E_ULE, a->k[0], cst(c, zw)); } break;
    case E_SLT: if (a->op == E_ZEXT && a->k[0]->w < kw) { if (sx(c, kw) <= 0) return cst(0, 1); return bin(E_ULT, a, b); }
      if (a->op == E_SEXT) { unsigned zw = a->k[0]->w; i64 cc = sx(c, kw); if (cc > sx(maskw(zw - 1), zw)) return cst(1, 1); if (cc <= sx(1ULL << (zw - 1), zw)) return cst(0, 1); return bin(E_SLT, a->k[0], cst(c, zw)); } break;
    case E_SLE: if (a->op == E_ZEXT && a->k[0]->w < kw) { if (sx(c, kw) < 0) return cst(0, 1); return bin(E_ULE, a, b); }
      if (a->op == E_SEXT) { unsigned zw = a->k[0]->w; i64 cc = sx(c, kw); if (cc >= sx(maskw(zw - 1), zw)) return cst(1, 1); if (cc < sx(1ULL << (zw - 1), zw)) return cst(0, 1); return bin(E_SLE, a->k[0], cst(c, zw)); } break;
    default: break;
    }
  } else if (a->op == E_CONST) {
    u64 c = a->c;
    if (b->op == E_ITE && b->cleaf) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
    switch (op) {
    case E_ULT: if (c == m) return cst(0, 1); if (b->op == E_ZEXT) { unsigned zw = b->k[0]->w; if (c >= maskw(zw)) return cst(0, 1); return bin(E_ULT, cst(c, zw), b->k[0]); } break;
    case E_ULE: if (!c) return cst(1, 1); if (b->op == E_ZEXT) { unsigned zw = b->k[0]->w; if (c > maskw(zw)) return cst(0, 1); return bin(E_ULE, cst(c, zw), b->k[0]); } break;
    case E_SLT: if (b->op == E_ZEXT && b->k[0]->w < kw) { if (sx(c, kw) < 0) return cst(1, 1); return bin(E_ULT, a, b); }
      if (b->op == E_SEXT) { unsigned zw = b->k[0]->w; i64 cc = sx(c, kw); if (cc >= sx(maskw(zw - 1), zw)) return cst(0, 1); if (cc < sx(1ULL << (zw - 1), zw)) return cst(1, 1); return bin(E_SLT, cst(c, zw), b->k[0]); } break;
    case E_SLE: if (b->op == E_ZEXT && b->k[0]->w < kw) { if (sx(c, kw) <= 0) return cst(1, 1); return bin(E_ULE, a, b); }
      if (b->op == E_SEXT) { unsigned zw = b->k[0]->w; i64 cc = sx(c, kw); if (cc > sx(maskw(zw - 1), zw)) return cst(0, 1); if (cc <= sx(1ULL << (zw - 1), zw)) return cst(1, 1); return bin(E_SLE, cst(c, zw), b->k[0]); } break;
    default: break;
    }
  }
  if (a == b) switch (op) {
    case E_SUB: case E_XOR: return cst(0, kw); case E_AND: case E_OR: return a;
    case E_EQ: case E_ULE: case E_SLE: return cst(1, 1); case E_ULT: case E_SLT: return cst(0, 1); default: break; }
  if (op == E_EQ && a->op == b->op && (a->op == E_ZEXT || a->op == E_SEXT) && a->k[0]->w == b->k[0]->w) return bin(E_EQ, a->k[0], b->k[0]);
  if (op == E_EQ && a->op == E_CONCAT && b->op == E_CONCAT && a->k[0]->w == b->k[0]->w) return bin(E_AND, bin(E_EQ, a->k[0], b->k[0]), bin(E_EQ, a->k[1], b->k[1]));
  if (kw == 1 && (op == E_AND || op == E_OR)) { if (a->op == E_XOR && a->k[0] == b && a->k[1]->op == E_CONST) return cst(op == E_OR, 1); if (b->op == E_XOR && b->k[0] == a && b->k[1]->op == E_CONST) return cst(op == E_OR, 1); }
  // (zext a) op (zext b) narrowings for bitwise
  if ((op == E_AND || op == E_OR || op == E_XOR) && a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return zext(bin(op, a->k[0], b->k[0]), kw);
  if (op == E_OR && kw > 1) { // or of shifted bytes => concat
    // a = concat(x, 0_n), b = zext(y) with width<=n
    const Expr *p = a, *q = b; for (int i = 0; i < 2; i++, std::swap(p, q))
      if (p->op == E_CONCAT && p->k[1]->op == E_CONST && p->k[1]->c == 0 && q->op == E_ZEXT && q->k[0]->w <= p->k[1]->w) return concat(p->k[0], zext(q->k[0], p->k[1]->w));
  }
  return mk(op, w, 0, 0, a, b, 0);
}

Z3_ast Ctx::toZ3(const Expr *e) {
  if (e->z) return e->z;
  Z3_ast r = 0; Z3_ast a = e->k[0] ? toZ3(e->k[0]) : 0, b = e->k[1] ? toZ3(e->k[1]) : 0, d = e->k[2] ? toZ3(e->k[2]) : 0;
  if (!one) { one = Z3_mk_unsigned_int64(z3, 1, Z3_mk_bv_sort(z3, 1)); Z3_inc_ref(z3, one); zero = Z3_mk_unsigned_int64(z3, 0, Z3_mk_bv_sort(z3, 1)); Z3_inc_ref(z3, zero); }
  auto b2v = [&](Z3_ast x) { return Z3_mk_ite(z3, x, one, zero); };
  auto kp = [&](Z3_ast x) { Z3_inc_ref(z3, x); return x; };
  switch (e->op) {
  case E_CONST: r = Z3_mk_unsigned_int64(z3, e->c, Z3_mk_bv_sort(z3, e->w)); break;
  case E_SYM: { char n[32]; snprintf(n, sizeof n, "s%u", (unsigned)e->c); r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, n), Z3_mk_bv_sort(z3, e->w)); break; }
  case E_ADD: r = Z3_mk_bvadd(z3, a, b); break; case E_SUB: r = Z3_mk_bvsub(z3, a, b); break; case E_MUL: r = Z3_mk_bvmul(z3, a, b); break;
  case E_UDIV: r = Z3_mk_bvudiv(z3, a, b); break; case E_SDIV: r = Z3_mk_bvsdiv(z3, a, b); break;
  case E_UREM: r = Z3_mk_bvurem(z3, a, b); break; case E_SREM: r = Z3_mk_bvsrem(z3, a, b); break;
  case E_AND: r = Z3_mk_bvand(z3, a, b); break; case E_OR: r = Z3_mk_bvor(z3, a, b); break; case E_XOR: r = Z3_mk_bvxor(z3, a, b); break;
  case E_SHL: r = Z3_mk_bvshl(z3, a, b); break; case E_LSHR: r = Z3_mk_bvlshr(z3, a, b); break; case E_ASHR: r = Z3_mk_bvashr(z3, a, b); break;
  case E_EQ: r = b2v(Z3_mk_eq(z3, a, b)); break; case E_ULT: r = b2v(Z3_mk_bvult(z3, a, b)); break; case E_ULE: r = b2v(Z3_mk_bvule(z3, a, b)); break;
  case E_SLT: r = b2v(Z3_mk_bvslt(z3, a, b)); break; case E_SLE: r = b2v(Z3_mk_bvsle(z3, a, b)); break;
  case E_ITE: r = Z3_mk_ite(z3, Z3_mk_eq(z3, a, one), b, d); break;
  case E_CONCAT: r = Z3_mk_concat(z3, a, b); break;
  case E_EXTRACT: r = Z3_mk_extract(z3, e->aux + e->w - 1, e->aux, a); break;
  case E_ZEXT: r = Z3_mk_zero_ext(z3, e->w - e->k[0]->w, a); break;
  case E_SEXT: r = Z3_mk_sign_ext(z3, e->w - e->k[0]->w, a); break;
  case E_FCMP: { unsigned fw = e->aux >> 4, p = e->aux & 15; Z3_sort fs = fw == 64 ? Z3_mk_fpa_sort_64(z3) : Z3_mk_fpa_sort_32(z3); Z3_inc_ref(z3, Z3_sort_to_ast(z3, fs));
      Z3_ast x = kp(Z3_mk_fpa_to_fp_bv(z3, a, fs)), y = kp(Z3_mk_fpa_to_fp_bv(z3, b, fs)); Z3_ast parts[4]; int n = 0;
      if (p & 1) parts[n++] = kp(Z3_mk_fpa_eq(z3, x, y)); if (p & 2) parts[n++] = kp(Z3_mk_fpa_gt(z3, x, y)); if (p & 4) parts[n++] = kp(Z3_mk_fpa_lt(z3, x, y));
      if (p & 8) { Z3_ast u[2] = {kp(Z3_mk_fpa_is_nan(z3, x)), kp(Z3_mk_fpa_is_nan(z3, y))}; parts[n++] = kp(Z3_mk_or(z3, 2, u)); }
      r = b2v(n ? Z3_mk_or(z3, n, parts) : Z3_mk_false(z3)); break; }
  }
  Z3_inc_ref(z3, r); return e->z = r;
}
u64 Ctx::eval(const Expr *e, const std::vector<u64> &model) {
  if (e->op == E_CONST) return e->c;
  if (e->op == E_SYM) return e->c < model.size() ? model[e->c] & maskw(e->w) : 0;
  if (e->epoch == epoch) return e->ev;
  u64 r;
  switch (e->op) {
  case E_ITE: r = eval(e->k[0], model) ? eval(e->k[1], model) : eval(e->k[2], model); break;
  case E_CONCAT: r = (eval(e->k[0], model) << e->k[1]->w) | eval(e->k[1], model); break;
  case E_EXTRACT: r = (eval(e->k[0], model) >> e->aux) & maskw(e->w); break;
  case E_ZEXT: r = eval(e->k[0], model); break;
  case E_SEXT: r = (u64)sx(eval(e->k[0], model), e->k[0]->w) & maskw(e->w); break;
  default: r = fold(e->op, e->w, eval(e->k[0], model), eval(e->k[1], model), e->aux, e->k[0]->w);
  }
  e->epoch = epoch; e->ev = r; return r;
}
