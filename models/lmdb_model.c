/* Model of the LMDB calls the cache makes: one store that outlives environments, snapshot transactions, one writer, data
   pointers valid until the transaction ends, and a fault at a chosen call. */
#include <lmdb.h>
#include <stdlib.h>
#include <string.h>
#include "symx.h"
struct rec { char *k, *d; size_t kn, dn; struct rec *next; };
struct MDB_env { int open; };
struct MDB_txn { struct rec *recs; int ro, live; };
struct MDB_cursor { struct MDB_txn *t; struct rec *prev; int started; };
static struct rec *store; int symx_mdb_txns, symx_mdb_writers, symx_mdb_envs, symx_mdb_errors; long symx_mdb_fail = -1, symx_mdb_room = 1000000, symx_mdb_maxkey = 511; int symx_mdb_err = 5;
static int fault(void) { if (symx_mdb_fail < 0) return 0; return symx_mdb_fail-- == 0; }
static void drop(struct rec *r) { while (r) { struct rec *n = r->next; free(r->k); free(r->d); free(r); r = n; } }
static char *cp(const void *p, size_t n) { char *r = malloc(n ? n : 1); memcpy(r, p, n); return r; }
static struct rec *copy(struct rec *r) { struct rec *h = 0, **e = &h; for (; r; r = r->next) { struct rec *c = malloc(sizeof *c); c->k = cp(r->k, r->kn); c->kn = r->kn; c->d = cp(r->d, r->dn); c->dn = r->dn; c->next = 0; *e = c; e = &c->next; } return h; }
int mdb_env_create(MDB_env **e) { *e = 0; if (fault()) return symx_mdb_err; *e = calloc(1, sizeof **e); symx_mdb_envs++; return 0; }
int mdb_env_open(MDB_env *e, const char *path, unsigned f, mdb_mode_t m) { (void)path; (void)f; (void)m; if (fault()) return symx_mdb_err; e->open = 1; return 0; }
void mdb_env_close(MDB_env *e) { if (!e) return; if (symx_mdb_txns) symx_mdb_errors++; symx_mdb_envs--; free(e); }
int mdb_env_get_maxkeysize(MDB_env *e) { (void)e; return (int)symx_mdb_maxkey; }
int mdb_txn_begin(MDB_env *e, MDB_txn *p, unsigned f, MDB_txn **t) { (void)e; (void)p; *t = 0; if (fault()) return symx_mdb_err; int ro = (f & MDB_RDONLY) != 0; if (!ro && symx_mdb_writers) symx_fail("deadlock: a write transaction begins while another is open"); struct MDB_txn *x = calloc(1, sizeof *x); x->ro = ro; x->live = 1; x->recs = copy(store); symx_mdb_txns++; if (!ro) symx_mdb_writers++; *t = x; return 0; }
static void end(MDB_txn *t) { symx_mdb_txns--; if (!t->ro) symx_mdb_writers--; free(t); }
void mdb_txn_abort(MDB_txn *t) { drop(t->recs); end(t); }
int mdb_txn_commit(MDB_txn *t) { if (fault()) { mdb_txn_abort(t); return symx_mdb_err; } if (t->ro) drop(t->recs); else { struct rec *o = store; store = t->recs; drop(o); } end(t); return 0; }
int mdb_dbi_open(MDB_txn *t, const char *n, unsigned f, MDB_dbi *d) { (void)t; (void)n; (void)f; if (fault()) return symx_mdb_err; *d = 1; return 0; }
static int same(const struct rec *r, const MDB_val *k) { if (r->kn != k->mv_size) return 0; unsigned d = 0; for (size_t i = 0; i < r->kn; i++) d |= (unsigned char)(r->k[i] ^ ((char *)k->mv_data)[i]); return d == 0; }
int mdb_get(MDB_txn *t, MDB_dbi d, MDB_val *k, MDB_val *v) { (void)d; if (fault()) return symx_mdb_err; if (k->mv_size == 0 || k->mv_size > (size_t)symx_mdb_maxkey) return MDB_BAD_VALSIZE; for (struct rec *r = t->recs; r; r = r->next) if (same(r, k)) { v->mv_size = r->dn; v->mv_data = r->d; return 0; } return MDB_NOTFOUND; }
int mdb_put(MDB_txn *t, MDB_dbi d, MDB_val *k, MDB_val *v, unsigned f) { (void)d; (void)f; if (fault()) return symx_mdb_err; if (t->ro) return 13; if (k->mv_size == 0 || k->mv_size > (size_t)symx_mdb_maxkey) return MDB_BAD_VALSIZE;
  size_t used = 0; for (struct rec *r = t->recs; r; r = r->next) used += r->dn; if (used + v->mv_size > (size_t)symx_mdb_room) return MDB_MAP_FULL;
  for (struct rec *r = t->recs; r; r = r->next) if (same(r, k)) { free(r->d); r->d = cp(v->mv_data, v->mv_size); r->dn = v->mv_size; return 0; }
  struct rec *c = malloc(sizeof *c); c->k = cp(k->mv_data, k->mv_size); c->kn = k->mv_size; c->d = cp(v->mv_data, v->mv_size); c->dn = v->mv_size; c->next = t->recs; t->recs = c; return 0; }
static int unlink_(MDB_txn *t, struct rec *x) { for (struct rec **e = &t->recs; *e; e = &(*e)->next) if (*e == x) { *e = x->next; free(x->k); free(x->d); free(x); return 0; } return MDB_NOTFOUND; }
int mdb_del(MDB_txn *t, MDB_dbi d, MDB_val *k, MDB_val *v) { (void)d; (void)v; if (fault()) return symx_mdb_err; if (t->ro) return 13; for (struct rec *r = t->recs; r; r = r->next) if (same(r, k)) return unlink_(t, r); return MDB_NOTFOUND; }
int mdb_drop(MDB_txn *t, MDB_dbi d, int del) { (void)d; (void)del; if (fault()) return symx_mdb_err; if (t->ro) return 13; drop(t->recs); t->recs = 0; return 0; }
int mdb_stat(MDB_txn *t, MDB_dbi d, MDB_stat *s) { (void)d; if (fault()) return symx_mdb_err; memset(s, 0, sizeof *s); for (struct rec *r = t->recs; r; r = r->next) s->ms_entries++; return 0; }
int mdb_cursor_open(MDB_txn *t, MDB_dbi d, MDB_cursor **c) { (void)d; if (fault()) return symx_mdb_err; *c = calloc(1, sizeof **c); (*c)->t = t; return 0; }
void mdb_cursor_close(MDB_cursor *c) { free(c); }
static struct rec *cur(MDB_cursor *c) { return c->prev ? c->prev->next : c->t->recs; }   /* prev: the record before the current one */
int mdb_cursor_get(MDB_cursor *c, MDB_val *k, MDB_val *v, MDB_cursor_op op) { if (fault()) return symx_mdb_err; if (op != MDB_NEXT && op != MDB_FIRST) return 22; if (op == MDB_FIRST) { c->prev = 0; c->started = 0; } if (c->started == 1) { struct rec *x = cur(c); if (x) c->prev = x; } c->started = 1; struct rec *r = cur(c); if (!r) { c->started = 2; return MDB_NOTFOUND; } k->mv_size = r->kn; k->mv_data = r->k; v->mv_size = r->dn; v->mv_data = r->d; return 0; }
int mdb_cursor_del(MDB_cursor *c, unsigned f) { (void)f; if (fault()) return symx_mdb_err; if (c->t->ro) return 13; struct rec *r = cur(c); if (!r || c->started != 1) return 22; unlink_(c->t, r); c->started = 3; return 0; }
char *mdb_strerror(int e) { (void)e; return "lmdb error"; }
