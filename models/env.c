/* Environment model shared by the symbolic run and the native replay: clock, shared memory, locks, files. */
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define SYMX_REDIRECT_STDIO_IMPL
#include "redirect.h"
#undef time
#include "env.h"
#include "symx.h"
#include <errno.h>
long symx_now; int symx_lock_depth; int symx_lock_errors; long symx_mmap_live; int symx_fs_opens; char symx_last_open[512];
/* preemption points: clock, sleeping, locking, protecting and every atomic access */
void (*symx_hook)(int); static int in_hook; void symx_yield_(int where) { if (symx_hook && !in_hook) { in_hook = 1; symx_hook(where); in_hook = 0; } }
void symx_yield(void) { symx_yield_(0); }
time_t symx_time(time_t *t) { symx_yield_(1); if (t) *t = symx_now; return symx_now; }
/* memory blocks; what was protected must read the same when the protection is lifted or checked */
static struct { char *p; size_t n; } mm[8]; static struct { char *p, *copy; size_t n; } pr[8]; long symx_mprotect_fail = -1; int symx_prot_errors; size_t symx_mmap_max = 1 << 20;
void *symx_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { (void)a; (void)prot; (void)flags; (void)fd; (void)off; if (n == 0 || n > symx_mmap_max) { errno = 12; return (void *)-1; } n = symx_concretize(n); void *p = calloc(1, n); if (!p) return (void *)-1; for (int i = 0; i < 8; i++) if (!mm[i].p) { mm[i].p = p; mm[i].n = n; break; } symx_mmap_live++; return p; }
void symx_prot_check(void) { for (int i = 0; i < 8; i++) if (pr[i].p && memcmp(pr[i].p, pr[i].copy, pr[i].n) != 0) symx_prot_errors++; }
int symx_munmap(void *a, size_t n) { symx_prot_check(); for (int i = 0; i < 8; i++) { if (pr[i].p) { free(pr[i].copy); pr[i].p = 0; } } for (int i = 0; i < 8; i++) if (mm[i].p == a) { if (mm[i].n != n) symx_prot_errors++; mm[i].p = 0; symx_mmap_live--; free(a); return 0; } symx_prot_errors++; return -1; }
int symx_mprotect(void *a, size_t n, int prot) { symx_yield_(2); if (symx_mprotect_fail >= 0 && symx_mprotect_fail-- == 0) { errno = 12; return -1; }
  int in = 0; for (int i = 0; i < 8; i++) if (mm[i].p && (char *)a >= mm[i].p && (char *)a + n <= mm[i].p + mm[i].n) in = 1; if (!in) symx_prot_errors++;
  int slot = -1; for (int i = 0; i < 8; i++) { if (pr[i].p == a) slot = i; } if (slot < 0) for (int i = 0; i < 8; i++) if (!pr[i].p) { slot = i; break; }
  if (pr[slot].p) { if (memcmp(pr[slot].p, pr[slot].copy, pr[slot].n) != 0) symx_prot_errors++; free(pr[slot].copy); pr[slot].p = 0; }
  if (!(prot & 2)) { pr[slot].p = a; pr[slot].n = n; pr[slot].copy = malloc(n ? n : 1); memcpy(pr[slot].copy, a, n); } return 0; }
long symx_pagesize = 64;
long symx_sysconf(int name) { (void)name; return symx_pagesize; }
static void lk(void) { symx_yield_(3); if (in_hook && symx_lock_depth) symx_assume(0); /* it would wait: another schedule */ if (symx_lock_depth != 0) symx_lock_errors++; symx_lock_depth++; }
static void ul(void) { if (symx_lock_depth != 1) symx_lock_errors++; symx_lock_depth--; symx_yield_(4); }
int symx_spin_init(pthread_spinlock_t *l, int s) { (void)l; (void)s; return 0; }
int symx_spin_lock(pthread_spinlock_t *l) { (void)l; lk(); return 0; }
int symx_spin_unlock(pthread_spinlock_t *l) { (void)l; ul(); return 0; }
int symx_mutex_init(pthread_mutex_t *l, const pthread_mutexattr_t *a) { (void)l; (void)a; return 0; }
int symx_mutex_lock(pthread_mutex_t *l) { (void)l; lk(); return 0; }
int symx_mutex_unlock(pthread_mutex_t *l) { (void)l; ul(); return 0; }
int symx_mutexattr_init(pthread_mutexattr_t *a) { (void)a; return 0; }
int symx_mutexattr_setpshared(pthread_mutexattr_t *a, int v) { (void)a; (void)v; return 0; }
int symx_usleep(unsigned u) { (void)u; symx_yield_(5); return 0; }
/* in-memory file system */
static struct { const char *path, *data; long len; } fs[16]; static int nfs; int symx_open_files;
void symx_fs_add(const char *path, const char *data, long len) { fs[nfs].path = path; fs[nfs].data = data; fs[nfs].len = len; nfs++; }
struct symx_file { int i; long pos; }; long symx_fs_fail; int symx_fs_ops; static int fsf(void) { symx_fs_ops++; return symx_fs_fail > 0 && --symx_fs_fail == 0; }
struct symx_file *symx_fopen(const char *path, const char *mode) { (void)mode; symx_fs_opens++; size_t n = strlen(path); if (n > 511) n = 511; memcpy(symx_last_open, path, n); symx_last_open[n] = 0; if (fsf()) { errno = EMFILE; return 0; }
  for (int i = 0; i < nfs; i++) if (strcmp(fs[i].path, path) == 0) { struct symx_file *f = malloc(sizeof *f); f->i = i; f->pos = 0; symx_open_files++; return f; } return 0; }
int symx_fclose(struct symx_file *f) { symx_open_files--; free(f); return 0; }
size_t symx_fread(void *p, size_t s, size_t n, struct symx_file *f) { size_t k = 0; if (fsf()) n = 0; for (; k < n && f->pos + (long)s <= fs[f->i].len; k++) { if (s) memcpy((char *)p + k * s, fs[f->i].data + f->pos, s); f->pos += s; } if (s == 0) return 0; return k; }
int symx_fseek(struct symx_file *f, long off, int wh) { if (fsf()) { errno = ESPIPE; return -1; } long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : fs[f->i].len; f->pos = b + off; return 0; }
long symx_ftell(struct symx_file *f) { if (fsf()) { errno = ESPIPE; return -1; } return f->pos; }
