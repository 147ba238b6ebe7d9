/* Force-included in every /repo source (bitcode and native replay builds): environment calls become model calls. */
#ifndef SYMX_REDIRECT_H
#define SYMX_REDIRECT_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <pthread.h>
#include <setjmp.h>
#ifndef SYMX_NO_REDIRECT
struct symx_file;
struct symx_file *symx_fopen(const char *path, const char *mode);
int symx_fclose(struct symx_file *);
size_t symx_fread(void *p, size_t s, size_t n, struct symx_file *);
int symx_fseek(struct symx_file *, long off, int wh);
long symx_ftell(struct symx_file *);
time_t symx_time(time_t *t);
void *symx_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off);
int symx_munmap(void *a, size_t n);
int symx_mprotect(void *a, size_t n, int prot);
long symx_sysconf(int name);
int symx_spin_init(pthread_spinlock_t *l, int s);
int symx_spin_lock(pthread_spinlock_t *l);
int symx_spin_unlock(pthread_spinlock_t *l);
int symx_mutex_init(pthread_mutex_t *l, const pthread_mutexattr_t *a);
int symx_mutex_lock(pthread_mutex_t *l);
int symx_mutex_unlock(pthread_mutex_t *l);
int symx_mutexattr_init(pthread_mutexattr_t *a);
int symx_mutexattr_setpshared(pthread_mutexattr_t *a, int v);
int symx_usleep(unsigned);
void symx_yield(void);
#ifdef SYMX_YIELD_ATOMICS
#define __atomic_add_fetch(p, v, o) (symx_yield(), __atomic_add_fetch(p, v, o))
#define __atomic_sub_fetch(p, v, o) (symx_yield(), __atomic_sub_fetch(p, v, o))
#define __atomic_fetch_add(p, v, o) (symx_yield(), __atomic_fetch_add(p, v, o))
#define __atomic_fetch_sub(p, v, o) (symx_yield(), __atomic_fetch_sub(p, v, o))
#define __atomic_load_n(p, o) (symx_yield(), __atomic_load_n(p, o))
#define __atomic_store_n(p, v, o) (symx_yield(), __atomic_store_n(p, v, o))
#define __atomic_exchange_n(p, v, o) (symx_yield(), __atomic_exchange_n(p, v, o))
#endif
#define time(x) symx_time(x)
#define mmap symx_mmap
#define munmap symx_munmap
#define mprotect symx_mprotect
#define sysconf symx_sysconf
#define usleep symx_usleep
#define pthread_spin_init symx_spin_init
#define pthread_spin_lock symx_spin_lock
#define pthread_spin_unlock symx_spin_unlock
#define pthread_mutex_init symx_mutex_init
#define pthread_mutex_lock symx_mutex_lock
#define pthread_mutex_unlock symx_mutex_unlock
#define pthread_mutexattr_init symx_mutexattr_init
#define pthread_mutexattr_setpshared symx_mutexattr_setpshared
#ifdef SYMX_REDIRECT_STDIO
#define FILE struct symx_file
#define fopen symx_fopen
#define fclose symx_fclose
#define fread symx_fread
#define fseek symx_fseek
#define ftell symx_ftell
#endif
#endif
#endif
