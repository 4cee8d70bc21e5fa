/* Native side of the harness API: inputs come from a replay file. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <pthread.h>
#include "vf.h"
static FILE *rf, *of; static int allow;
static char *pk[256], *pv[256]; static int np;
static void bye(int code) { if (of) fflush(of); fflush(stdout); _Exit(code); }
static void out_of_inputs(const char *n) { printf("VF-REPLAY-MISMATCH at input %s\n", n); bye(70); }
static void rd(char kind, const char *name) { char k; char nm[128]; if (!rf || fscanf(rf, " %c %127s", &k, nm) != 2 || k != kind || strcmp(nm, name)) out_of_inputs(name); }
void vf_bytes(void *p, long n, const char *name) { rd('B', name); long m; char *buf = malloc(2 * n + 8); if (fscanf(rf, "%ld %s", &m, buf) != 2 || m != n) out_of_inputs(name); for (long i = 0; i < n; i++) { unsigned x; sscanf(buf + 2 * i, "%2x", &x); ((unsigned char *)p)[i] = x; } free(buf); }
static unsigned long val(const char *name) { rd('V', name); unsigned long v; if (fscanf(rf, "%lu", &v) != 1) out_of_inputs(name); return v; }
unsigned vf_u32(const char *name) { return val(name); }
int vf_range(const char *name, int lo, int hi) { if (lo > hi) { printf("VF-ASSUME\n"); bye(71); } int v = (int)val(name); if (v < lo || v > hi) { printf("VF-ASSUME\n"); bye(71); } return v; }
int vf_conc(int v) { return v; }
void vf_assume(int c) { if (!c) { printf("VF-ASSUME\n"); bye(71); } }
void vf_fail(const char *m) { printf("VF-VIOLATION %s\n", m); bye(77); __builtin_unreachable(); }
void vf_assert(int c, const char *m) { if (!c) vf_fail(m); }
void vf_reach(const char *l) {}
void vf_observe(const char *n, unsigned long v) { if (of) fprintf(of, "%s %lu\n", n, v); }
void vf_obs_bytes(const char *n, const void *p, long k) { if (of && k == 0) fprintf(of, "%s 238\n", n); else if (of) { fprintf(of, "%s ", n); for (long i = 0; i < k; i++) fprintf(of, "%02x", ((unsigned char *)p)[i]); fprintf(of, "ee\n"); } }
int vf_param(const char *n, int d) { for (int i = 0; i < np; i++) if (!strcmp(pk[i], n)) return atoi(pv[i]); return d; }
void vf_end(void) { printf("VF-OK\n"); bye(0); __builtin_unreachable(); }
void vf_allow_exit(int on) { allow = on; }
int vf_memeq(const void *a, const void *b, long n) { return n == 0 || memcmp(a, b, n) == 0; }
long vf_live(void) { return 0; }
void vf_print(const char *n, unsigned long v) { fprintf(stderr, "[%s] %lu\n", n, v); }
void vfs_exit(int c) { if (allow) { printf("VF-EXIT %d\n", c); bye(0); } printf("VF-VIOLATION the library terminated the process: exit(%d)\n", c); bye(77); }
void vfs_abort(void) { if (allow) { printf("VF-EXIT abort\n"); bye(0); } printf("VF-VIOLATION abort() called\n"); bye(77); }
void vfs___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { if (allow) { printf("VF-EXIT assert\n"); bye(0); } printf("VF-VIOLATION assertion failed: %s\n", e); bye(77); }
/* ---- cooperative threads: same scheduling points as the symbolic executor ---- */
#define NT 8
enum { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
static struct { ucontext_t u; int st; void *on; void *ret; void *(*fn)(void *); void *arg; char *stk; } th[NT]; static int nt = 1, cur, preempt, pbound = 2;
static void sw(int to) { int f = cur; if (to == f) return; cur = to; swapcontext(&th[f].u, &th[to].u); }
static void sched(int blocked) { int run[NT], n = 0; for (int i = 0; i < nt; i++) if (th[i].st == T_RUN) run[n++] = i;
  if (!n) { printf("VF-VIOLATION deadlock: no thread can run\n"); bye(77); }
  if (!blocked && preempt >= pbound) return; if (!blocked) for (int i = 0; i < nt; i++) if (th[i].st == T_COND) run[n++] = i; if (n == 1) { sw(run[0]); return; }
  int c = (int)val("sched"); if (!blocked && c != cur) preempt++; if (th[c].st == T_COND) th[c].st = T_RUN; sw(c); }
static void tmain(int i) { th[i].ret = th[i].fn(th[i].arg); th[i].st = T_DONE; for (int k = 0; k < nt; k++) if (th[k].st == T_JOIN && th[k].on == (void *)(long)i) th[k].st = T_RUN; sched(1); }
int vfs_pthread_create(pthread_t *t, void *a, void *(*fn)(void *), void *arg) { int i = nt++; *t = i + 1; th[i].fn = fn; th[i].arg = arg; th[i].st = T_RUN; th[i].stk = malloc(1 << 20); getcontext(&th[i].u); th[i].u.uc_stack.ss_sp = th[i].stk; th[i].u.uc_stack.ss_size = 1 << 20; th[i].u.uc_link = 0; makecontext(&th[i].u, (void (*)(void))tmain, 1, i); return 0; }
int vfs_pthread_join(pthread_t tt, void **r) { long t = (long)tt - 1; while (th[t].st != T_DONE) { th[cur].st = T_JOIN; th[cur].on = (void *)(long)t; sched(1); } if (r) *r = th[t].ret; return 0; }
unsigned long vfs_pthread_self(void) { return cur + 1; }
static struct { void *m; int owner; } mx[4096]; static int nmx;
static int *mo(void *m) { for (int i = 0; i < nmx; i++) if (mx[i].m == m) return &mx[i].owner; mx[nmx].m = m; mx[nmx].owner = -1; return &mx[nmx++].owner; }
int vfs_pthread_mutex_init(void *m, void *a) { *mo(m) = -1; return 0; }
int vfs_pthread_mutex_destroy(void *m) { *mo(m) = -1; return 0; }
int vfs_pthread_mutex_lock(void *m) { *(volatile char *)m; if (nt > 1) sched(0); while (*mo(m) >= 0) { th[cur].st = T_MUTEX; th[cur].on = m; sched(1); } *mo(m) = cur; return 0; }
int vfs_pthread_mutex_trylock(void *m) { *(volatile char *)m; if (nt > 1) sched(0); if (*mo(m) >= 0) return 16; *mo(m) = cur; return 0; }
static void wk(void *m) { for (int i = 0; i < nt; i++) if (th[i].st == T_MUTEX && th[i].on == m) th[i].st = T_RUN; }
int vfs_pthread_mutex_unlock(void *m) { *(volatile char *)m; if (*mo(m) != cur) vf_fail("unlock of a mutex not held by this thread"); *mo(m) = -1; wk(m); if (nt > 1) sched(0); return 0; }
int vfs_pthread_cond_init(void *c, void *a) { return 0; }
int vfs_pthread_cond_destroy(void *c) { return 0; }
int vfs_pthread_cond_wait(void *c, void *m) { *(volatile char *)c; if (*mo(m) != cur) vf_fail("cond wait without holding the mutex"); *mo(m) = -1; wk(m); th[cur].st = T_COND; th[cur].on = c; sched(1); while (*mo(m) >= 0) { th[cur].st = T_MUTEX; th[cur].on = m; sched(1); } *mo(m) = cur; return 0; }
int vfs_pthread_cond_signal(void *c) { if (nt > 1) sched(0); *(volatile char *)c; for (int i = 0; i < nt; i++) if (th[i].st == T_COND && th[i].on == c) { th[i].st = T_RUN; break; } return 0; }
int vfs_pthread_cond_broadcast(void *c) { if (nt > 1) sched(0); *(volatile char *)c; for (int i = 0; i < nt; i++) if (th[i].st == T_COND && th[i].on == c) th[i].st = T_RUN; return 0; }
void vf_yield(void) { if (nt > 1) sched(0); }
extern void vf_main(void);
int main(int argc, char **argv) {
  setvbuf(stdout, 0, _IOLBF, 0);
  if (argc < 3) { fprintf(stderr, "usage: %s replay.in observations-out [name=value...]\n", argv[0]); return 2; }
  rf = fopen(argv[1], "r"); of = strcmp(argv[2], "-") ? fopen(argv[2], "w") : 0;
  for (int i = 3; i < argc && np < 256; i++) { char *q = strchr(argv[i], '='); if (!q) continue; *q = 0; if (!strcmp(argv[i], "@preempt")) pbound = atoi(q + 1); pk[np] = argv[i]; pv[np++] = q + 1; }
  vf_main(); printf("VF-OK\n"); bye(0); return 0;
}
#define VFM(x) vfs_##x
/* once and read-write locks over the mutexes and condition variables */
int VFM(pthread_mutex_lock)(void *); int VFM(pthread_mutex_unlock)(void *); int VFM(pthread_cond_wait)(void *, void *); int VFM(pthread_cond_broadcast)(void *);
static long rwm_[8], rwc_[8]; 
int vfs_pthread_once(int *o, void (*f)(void)) { if (*o == 0) { *o = 2; f(); } return 0; }
int vfs_pthread_rwlock_init(int *l, void *a) { l[0] = l[1] = 0; return 0; } int vfs_pthread_rwlock_destroy(int *l) { return 0; }
int vfs_pthread_rwlock_rdlock(int *l) { VFM(pthread_mutex_lock)(rwm_); while (l[1]) VFM(pthread_cond_wait)(rwc_, rwm_); l[0]++; VFM(pthread_mutex_unlock)(rwm_); return 0; }
int vfs_pthread_rwlock_wrlock(int *l) { VFM(pthread_mutex_lock)(rwm_); while (l[0] || l[1]) VFM(pthread_cond_wait)(rwc_, rwm_); l[1] = 1; VFM(pthread_mutex_unlock)(rwm_); return 0; }
int vfs_pthread_rwlock_tryrdlock(int *l) { VFM(pthread_mutex_lock)(rwm_); int r = l[1] ? 16 : 0; if (!r) l[0]++; VFM(pthread_mutex_unlock)(rwm_); return r; }
int vfs_pthread_rwlock_trywrlock(int *l) { VFM(pthread_mutex_lock)(rwm_); int r = l[0] || l[1] ? 16 : 0; if (!r) l[1] = 1; VFM(pthread_mutex_unlock)(rwm_); return r; }
int vfs_pthread_rwlock_unlock(int *l) { VFM(pthread_mutex_lock)(rwm_); if (l[1]) l[1] = 0; else l[0]--; VFM(pthread_cond_broadcast)(rwc_); VFM(pthread_mutex_unlock)(rwm_); return 0; }
