/* Harness API: implemented by the symbolic executor, and natively (replay) by native_rt.c */
#ifndef VF_H
#define VF_H
#ifdef __cplusplus
extern "C" {
#endif
void vf_bytes(void *p, long n, const char *name);        /* n arbitrary bytes */
unsigned vf_u32(const char *name);                       /* arbitrary 32-bit value */
int vf_range(const char *name, int lo, int hi);          /* arbitrary value in [lo,hi], stays symbolic */
int vf_conc(int v);                                      /* case split over all feasible values */
void vf_assume(int c);
void vf_assert(int c, const char *msg);
void vf_fail(const char *msg) __attribute__((noreturn));
void vf_reach(const char *label);                        /* vacuity witness */
void vf_observe(const char *name, unsigned long v);      /* compared between engine and native run */
void vf_obs_bytes(const char *name, const void *p, long n);
int vf_param(const char *name, int dflt);                /* bound of this run */
void vf_end(void) __attribute__((noreturn));             /* path ends normally */
void vf_allow_exit(int on);                              /* library may stop the process from here on */
int vf_memeq(const void *a, const void *b, long n);      /* comparison without branching */
long vf_live(void);
void vf_yield(void);
void vf_print(const char *name, unsigned long v);
#define vf_pick(name, lo, hi) vf_conc(vf_range(name, lo, hi))
/* file model */
extern int vfs_reads, vfs_writes;                        /* calls so far */
extern int vfs_fail_read_at, vfs_fail_write_at;          /* -1: never; k: the k-th call (0-based) fails */
extern int vfs_fail_mode;                                /* bit 0: short transfer instead of an error; bit 1: every later transfer fails too */
extern int vfs_freeze_at;                                /* -1: never; k: writes from the k-th on are lost (crash) */
extern int vfs_torn;                                     /* with vfs_freeze_at: this many bytes of that write still reach the file */
extern int vfs_faulted;                                  /* number of injected faults that were hit */
void vfs_reset_faults(void);
unsigned char *vfs_data(const char *name, long *size);   /* current bytes of a file (0 if absent) */
void vfs_set(const char *name, const void *p, long n);   /* create/overwrite a file */
void vfs_gap(const char *name, long at, long len);         /* put a hole of len bytes at offset at of an existing file */
int vfs_open_fds(void);
#ifdef __cplusplus
}
#endif
#endif
