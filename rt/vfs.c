/* In-memory file system standing in for the POSIX calls the library makes. Linked into the IR and into the native replay. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include "vf.h"
#define NF 12
#define NFD 24
typedef struct { int used; char name[96]; unsigned char *d; long size, cap; int mode; } ino_t_;
typedef struct { int used, ino, flags; long pos; } fd_t_;
static ino_t_ ino[NF]; static fd_t_ fds[NFD];
int vfs_reads, vfs_writes, vfs_fail_read_at = -1, vfs_fail_write_at = -1, vfs_fail_mode, vfs_freeze_at = -1, vfs_faulted, vfs_torn = -1;
void vfs_reset_faults(void) { vfs_reads = vfs_writes = 0; vfs_fail_read_at = vfs_fail_write_at = vfs_freeze_at = -1; vfs_fail_mode = 0; vfs_faulted = 0; vfs_torn = -1; }
static int seq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static int find(const char *n) { for (int i = 0; i < NF; i++) if (ino[i].used && seq(ino[i].name, n)) return i; return -1; }
static int mk(const char *n) { for (int i = 0; i < NF; i++) if (!ino[i].used) { int k = 0; ino[i].used = 1; while (n[k] && k < 95) { ino[i].name[k] = n[k]; k++; } ino[i].name[k] = 0; ino[i].size = 0; ino[i].cap = 4096; ino[i].d = malloc(4096); ino[i].mode = S_IFREG | 0644; return i; } vf_fail("file model: too many files"); }
long vfs_max = 4l << 20;
static void grow(ino_t_ *f, long n) { if (n > vfs_max) vf_fail("a file is extended far beyond the pages in use"); if (n > f->cap) { long c = f->cap * 2; while (c < n) c *= 2; unsigned char *q = malloc(c); if (f->size) memcpy(q, f->d, f->size); free(f->d); f->d = q; f->cap = c; } }
/* one file may have a hole: logical bytes [gap_at, gap_at + gap_len) read as zeros and are not kept; the bytes after it lie at gap_at in the buffer */
static int gap_ino = -1; static long gap_at, gap_len;
void vfs_gap(const char *n, long at, long len) { gap_ino = find(n); gap_at = at; gap_len = len; }
static long hole(int i) { return i == gap_ino ? gap_len : 0; }
static long phys(int i, long o) { if (i != gap_ino || o < gap_at) return o; if (o >= gap_at + gap_len) return o - gap_len; vf_fail("a part of the file that belongs to no page in use is written"); }
int vfs_open(const char *n, int fl, ...) {
  if (!n || !*n) { errno = ENOENT; return -1; }
  int i = find(n);
  if (i < 0) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } i = mk(n); }
  else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
  if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY) ino[i].size = 0;
  for (int k = 3; k < NFD; k++) if (!fds[k].used) { fds[k].used = 1; fds[k].ino = i; fds[k].flags = fl; fds[k].pos = 0; return k; }
  errno = EMFILE; return -1;
}
static fd_t_ *gf(int fd) { if (fd < 3 || fd >= NFD || !fds[fd].used) { errno = EBADF; return 0; } return &fds[fd]; }
int vfs_close(int fd) { fd_t_ *f = gf(fd); if (!f) return -1; f->used = 0; return 0; }
long vfs_read(int fd, void *p, unsigned long n) {
  fd_t_ *f = gf(fd); if (!f || (f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  int k = vfs_reads++; ino_t_ *x = &ino[f->ino]; long sz = x->size + hole(f->ino); if (f->pos >= sz || n == 0) return 0; if ((long)n > sz - f->pos) n = sz - f->pos;
  if (vfs_fail_read_at >= 0 && (k == vfs_fail_read_at || ((vfs_fail_mode & 2) && k > vfs_fail_read_at))) { vfs_faulted++; if (!(vfs_fail_mode & 1)) { errno = EIO; return -1; } n = n / 2; }
  if (hole(f->ino) && f->pos >= gap_at && f->pos < gap_at + gap_len) memset(p, 0, n); else memcpy(p, x->d + phys(f->ino, f->pos), n); f->pos += n; return n;
}
long vfs_write(int fd, const void *p, unsigned long n) {
  fd_t_ *f = gf(fd); if (!f || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  int k = vfs_writes++; ino_t_ *x = &ino[f->ino];
  if (vfs_fail_write_at >= 0 && (k == vfs_fail_write_at || ((vfs_fail_mode & 2) && k > vfs_fail_write_at))) { vfs_faulted++; if (!(vfs_fail_mode & 1)) { errno = ENOSPC; return -1; } n = n / 2; }
  if (vfs_freeze_at >= 0 && k >= vfs_freeze_at) { if (k == vfs_freeze_at && vfs_torn >= 0) { long t = vfs_torn < (long)n ? vfs_torn : (long)n; grow(x, f->pos + t); if (f->pos > x->size) memset(x->d + x->size, 0, f->pos - x->size); memcpy(x->d + f->pos, p, t); if (f->pos + t > x->size) x->size = f->pos + t; } f->pos += n; return n; }
  if (f->flags & O_APPEND) f->pos = x->size + hole(f->ino);
  long at = phys(f->ino, f->pos); grow(x, at + n); if (at > x->size) memset(x->d + x->size, 0, at - x->size);
  memcpy(x->d + at, p, n); f->pos += n; if (at + (long)n > x->size) x->size = at + n; return n;
}
long vfs_pread(int fd, void *p, unsigned long n, long off) { fd_t_ *f = gf(fd); if (!f) return -1; long o = f->pos; f->pos = off; long r = vfs_read(fd, p, n); f->pos = o; return r; }
long vfs_pwrite(int fd, const void *p, unsigned long n, long off) { fd_t_ *f = gf(fd); if (!f) return -1; long o = f->pos; f->pos = off; long r = vfs_write(fd, p, n); f->pos = o; return r; }
long vfs_lseek(int fd, long o, int wh) { fd_t_ *f = gf(fd); if (!f) return -1; long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : ino[f->ino].size + hole(f->ino); if (b + o < 0) { errno = EINVAL; return -1; } return f->pos = b + o; }
int vfs_ftruncate(int fd, long n) { fd_t_ *f = gf(fd); if (!f || (f->flags & O_ACCMODE) == O_RDONLY || n < 0) { errno = EINVAL; return -1; } ino_t_ *x = &ino[f->ino]; if (vfs_freeze_at >= 0 && vfs_writes >= vfs_freeze_at) return 0; n = phys(f->ino, n); grow(x, n); if (n > x->size) memset(x->d + x->size, 0, n - x->size); x->size = n; return 0; }
static void fill(ino_t_ *x, struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = x->mode; s->st_size = x->size + hole(x - ino); s->st_blksize = 4096; s->st_nlink = 1; s->st_blocks = (s->st_size + 511) / 512; s->st_ino = 1 + (x - ino); s->st_mtime = 1000000; }
int vfs_fstat(int fd, struct stat *s) { fd_t_ *f = gf(fd); if (!f) return -1; fill(&ino[f->ino], s); return 0; }
int vfs_stat(const char *n, struct stat *s) { int i = find(n); if (i < 0) { errno = ENOENT; return -1; } fill(&ino[i], s); return 0; }
int vfs_lstat(const char *n, struct stat *s) { return vfs_stat(n, s); }
int vfs_access(const char *n, int m) { if (find(n) < 0) { errno = ENOENT; return -1; } return 0; }
int vfs_unlink(const char *n) { int i = find(n); if (i < 0) { errno = ENOENT; return -1; } ino[i].used = 0; return 0; }
int vfs_fcntl(int fd, int c, ...) { fd_t_ *f = gf(fd); if (!f) return -1; return c == F_GETFL ? f->flags & (O_ACCMODE | O_APPEND) : 0; }
int vfs_fsync(int fd) { return gf(fd) ? 0 : -1; }
int vfs_fdatasync(int fd) { return gf(fd) ? 0 : -1; }
void vfs_sync(void) {}
int vfs_umask(int m) { return 022; }
int vfs_getpagesize(void) { return 4096; }
int vfs_chmod(const char *n, int m) { return 0; }
int vfs_isatty(int fd) { return 0; }
unsigned char *vfs_data(const char *n, long *sz) { int i = find(n); if (i < 0) { *sz = -1; return 0; } *sz = ino[i].size; return ino[i].d; }
void vfs_set(const char *n, const void *p, long k) { int i = find(n); if (i < 0) i = mk(n); grow(&ino[i], k); if (k) memcpy(ino[i].d, p, k); ino[i].size = k; }
int vfs_open_fds(void) { int c = 0; for (int k = 3; k < NFD; k++) c += fds[k].used; return c; }
long vfs_time(long *t) { if (t) *t = 1000000; return 1000000; }
int vfs_gettimeofday(struct timeval *tv, void *z) { if (tv) { tv->tv_sec = 1000000; tv->tv_usec = 0; } return 0; }
int vfs_getpid(void) { return 4711; }
int vfs_clock_gettime(int c, struct timespec *t) { if (t) { t->tv_sec = 1000000; t->tv_nsec = 0; } return 0; }
int vfs_creat(const char *n, int m) { return vfs_open(n, O_CREAT | O_WRONLY | O_TRUNC, m); }
int vfs_openat(int d, const char *n, int fl, ...) { return vfs_open(n, fl, 0644); }
int vfs_truncate(const char *n, long k) { int fd = vfs_open(n, O_RDWR); if (fd < 0) return -1; int r = vfs_ftruncate(fd, k); vfs_close(fd); return r; }
int vfs_remove(const char *n) { return vfs_unlink(n); }
int vfs_fchmod(int fd, int m) { return gf(fd) ? 0 : -1; }
int vfs_posix_fadvise(int fd, long o, long n, int a) { return 0; }
int vfs_flock(int fd, int op) { return gf(fd) ? 0 : -1; }
struct viov_ { void *p; unsigned long n; };
long vfs_readv(int fd, const struct viov_ *v, int k) { long t = 0; for (int i = 0; i < k; i++) { long r = vfs_read(fd, v[i].p, v[i].n); if (r < 0) return t ? t : -1; t += r; if (r < (long)v[i].n) break; } return t; }
long vfs_writev(int fd, const struct viov_ *v, int k) { long t = 0; for (int i = 0; i < k; i++) { long r = vfs_write(fd, v[i].p, v[i].n); if (r < 0) return t ? t : -1; t += r; if (r < (long)v[i].n) break; } return t; }
int vfs_rename(const char *a, const char *b) { int i = find(a); if (i < 0) { errno = ENOENT; return -1; } int j = find(b); if (j >= 0 && j != i) ino[j].used = 0; int k = 0; while (b[k] && k < 95) { ino[i].name[k] = b[k]; k++; } ino[i].name[k] = 0; return 0; }
int vfs_posix_fallocate(int fd, long o, long n) { struct stat st; if (vfs_fstat(fd, &st) != 0) return EBADF; if (st.st_size < o + n && vfs_ftruncate(fd, o + n) != 0) return EIO; return 0; }
