#ifndef SYMX_ENV_H
#define SYMX_ENV_H
extern long symx_now; extern int symx_lock_depth, symx_lock_errors, symx_open_files, symx_fs_opens; extern long symx_mmap_live, symx_pagesize; extern char symx_last_open[512];
extern void (*symx_hook)(int); extern long symx_mprotect_fail; extern int symx_prot_errors; extern size_t symx_mmap_max; void symx_prot_check(void);
extern int symx_mdb_txns, symx_mdb_writers, symx_mdb_envs, symx_mdb_errors, symx_mdb_err; extern long symx_mdb_fail, symx_mdb_room, symx_mdb_maxkey;
extern long symx_fs_fail; extern int symx_fs_ops; /* the n-th file operation fails; operations so far */
void symx_fs_add(const char *path, const char *data, long len);
#endif
