/* Small libc routines for the symbolic run only (compiled with -fno-builtin; natively the real libc is used). */
#include <stddef.h>
unsigned long vfs_strlen(const char *s) { unsigned long n = 0; while (s[n]) n++; return n; }
int vfs_strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int vfs_strncmp(const char *a, const char *b, unsigned long n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char *vfs_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *vfs_strncpy(char *d, const char *s, unsigned long n) { unsigned long i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *vfs_strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *vfs_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *vfs_strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *vfs_memchr(const void *p, int c, unsigned long n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
extern void *malloc(unsigned long);
char *vfs_strdup(const char *s) { unsigned long n = vfs_strlen(s) + 1; char *r = malloc(n); for (unsigned long i = 0; i < n; i++) r[i] = s[i]; return r; }
char *vfs_strerror(int e) { return "error"; }
long vfs_strtol(const char *s, char **e, int b) { long v = 0; int neg = 0; while (*s == ' ') s++; if (*s == '-') { neg = 1; s++; } while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (e) *e = (char *)s; return neg ? -v : v; }
int vfs_atoi(const char *s) { return (int)vfs_strtol(s, 0, 10); }
int vfs_isprint(int c) { return c >= 32 && c < 127; }
int vfs_rand(void) { return 12345; }
int vfs_backtrace(void **b, int n) { return 0; }
char **vfs_backtrace_symbols(void *const *b, int n) { return malloc(8); }
void vfs_perror(const char *s) {}
unsigned long vfs_strnlen(const char *s, unsigned long m) { unsigned long n = 0; while (n < m && s[n]) n++; return n; }
char *vfs_strncat(char *d, const char *s, unsigned long n) { char *r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char *vfs_stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
char *vfs_strndup(const char *s, unsigned long m) { unsigned long n = vfs_strnlen(s, m); char *r = malloc(n + 1); for (unsigned long i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
char *vfs_strstr(const char *h, const char *n) { unsigned long k = vfs_strlen(n); for (;; h++) { if (!vfs_strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
unsigned long vfs_strspn(const char *s, const char *a) { unsigned long n = 0; while (s[n] && vfs_strchr(a, s[n])) n++; return n; }
unsigned long vfs_strcspn(const char *s, const char *a) { unsigned long n = 0; while (s[n] && !vfs_strchr(a, s[n])) n++; return n; }
void *vfs_memrchr(const void *p, int c, unsigned long n) { const unsigned char *s = p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return 0; }
extern void *memcpy(void *, const void *, unsigned long), *memmove(void *, const void *, unsigned long), *memset(void *, int, unsigned long); extern void free(void *);
void *vfs_mempcpy(void *d, const void *s, unsigned long n) { memcpy(d, s, n); return (char *)d + n; }
void vfs_bzero(void *d, unsigned long n) { memset(d, 0, n); }
void vfs_explicit_bzero(void *d, unsigned long n) { memset(d, 0, n); }
void vfs_bcopy(const void *s, void *d, unsigned long n) { memmove(d, s, n); }
void *vfs_aligned_alloc(unsigned long a, unsigned long n) { return malloc(n); }
int vfs_posix_memalign(void **p, unsigned long a, unsigned long n) { *p = malloc(n); return *p ? 0 : 12; }
void *vfs_memalign(unsigned long a, unsigned long n) { return malloc(n); }
unsigned int vfs_htonl(unsigned int x) { return __builtin_bswap32(x); }
unsigned int vfs_ntohl(unsigned int x) { return __builtin_bswap32(x); }
unsigned short vfs_htons(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
unsigned short vfs_ntohs(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
int vfs_abs(int x) { return x < 0 ? -x : x; }
long vfs_labs(long x) { return x < 0 ? -x : x; }
unsigned long vfs_strtoul(const char *s, char **e, int b) { return (unsigned long)vfs_strtol(s, e, b); }
long vfs_strtoll(const char *s, char **e, int b) { return vfs_strtol(s, e, b); }
unsigned long vfs_strtoull(const char *s, char **e, int b) { return (unsigned long)vfs_strtol(s, e, b); }
long vfs_atol(const char *s) { return vfs_strtol(s, 0, 10); }
int vfs_isdigit(int c) { return c >= '0' && c <= '9'; }
int vfs_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int vfs_isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
int vfs_isalnum(int c) { return vfs_isalpha(c) || vfs_isdigit(c); }
int vfs_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int vfs_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* insertion sort: stable, which qsort need not be; the order of equal elements is unspecified */
void vfs_qsort(void *b, unsigned long n, unsigned long w, int (*cmp)(const void *, const void *)) { char *p = b, *t = malloc(w); for (unsigned long i = 1; i < n; i++) { unsigned long j = i; memcpy(t, p + i * w, w); while (j > 0 && cmp(p + (j - 1) * w, t) > 0) { memcpy(p + j * w, p + (j - 1) * w, w); j--; } memcpy(p + j * w, t, w); } free(t); }
void *vfs_bsearch(const void *k, const void *b, unsigned long n, unsigned long w, int (*cmp)(const void *, const void *)) { unsigned long lo = 0, hi = n; while (lo < hi) { unsigned long m = lo + (hi - lo) / 2; const char *p = (const char *)b + m * w; int c = cmp(k, p); if (c == 0) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return 0; }
int vfs_vprintf(const char *f, void *ap) { return 0; }
int vfs_dprintf(int fd, const char *f, ...) { return 0; }
int vfs_setvbuf(void *f, char *b, int m, unsigned long n) { return 0; }
int vfs_atexit(void (*f)(void)) { return 0; }
char *vfs_getenv(const char *n) { return 0; }
unsigned int vfs_sleep(unsigned int n) { return 0; }
int vfs_usleep(unsigned int n) { return 0; }
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vfs_strcasecmp(const char *a, const char *b) { while (*a && lo(*a) == lo(*b)) a++, b++; return lo((unsigned char)*a) - lo((unsigned char)*b); }
int vfs_strncasecmp(const char *a, const char *b, unsigned long n) { for (; n; n--, a++, b++) { if (lo(*a) != lo(*b)) return lo((unsigned char)*a) - lo((unsigned char)*b); if (!*a) return 0; } return 0; }
void *vfs_memmem(const void *h, unsigned long n, const void *k, unsigned long m) { const char *p = h, *q = k; for (unsigned long i = 0; i + m <= n; i++) { unsigned long j = 0; while (j < m && p[i + j] == q[j]) j++; if (j == m) return (void *)(p + i); } return 0; }
char *vfs_strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; while (*s && vfs_strchr(d, *s)) s++; if (!*s) { *sv = s; return 0; } char *r = s; while (*s && !vfs_strchr(d, *s)) s++; if (*s) *s++ = 0; *sv = s; return r; }
static char *tk_; char *vfs_strtok(char *s, const char *d) { return vfs_strtok_r(s, d, &tk_); }
void *vfs_memccpy(void *d, const void *s, int c, unsigned long n) { char *p = d; const char *q = s; for (; n; n--) if ((*p++ = *q++) == (char)c) return p; return 0; }
char *vfs_strpbrk(const char *s, const char *a) { for (; *s; s++) if (vfs_strchr(a, *s)) return (char *)s; return 0; }
char *vfs_basename(const char *s) { char *r = vfs_strrchr(s, '/'); return r ? r + 1 : (char *)s; }
typedef struct { int quot, rem; } div__; div__ vfs_div(int a, int b) { div__ r = {a / b, a % b}; return r; }
extern void *realloc(void *, unsigned long); void *vfs_reallocarray(void *p, unsigned long a, unsigned long b) { return b && a > ~0ul / b ? 0 : realloc(p, a * b); }
long vfs_sysconf(int n) { return 4096; }
int vfs_pthread_mutexattr_settype(void *a, int t) { return 0; }
int vfs_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
#define VFM(x) x
/* once and read-write locks over the mutexes and condition variables */
int VFM(pthread_mutex_lock)(void *); int VFM(pthread_mutex_unlock)(void *); int VFM(pthread_cond_wait)(void *, void *); int VFM(pthread_cond_broadcast)(void *);
static long rwm_[8], rwc_[8]; 
int vfs_pthread_once(int *o, void (*f)(void)) { if (*o == 0) { *o = 2; f(); } return 0; }
int vfs_pthread_rwlock_init(int *l, void *a) { l[0] = l[1] = 0; return 0; } int vfs_pthread_rwlock_destroy(int *l) { return 0; }
int vfs_pthread_rwlock_rdlock(int *l) { VFM(pthread_mutex_lock)(rwm_); while (l[1]) VFM(pthread_cond_wait)(rwc_, rwm_); l[0]++; VFM(pthread_mutex_unlock)(rwm_); return 0; }
int vfs_pthread_rwlock_wrlock(int *l) { VFM(pthread_mutex_lock)(rwm_); while (l[0] || l[1]) VFM(pthread_cond_wait)(rwc_, rwm_); l[1] = 1; VFM(pthread_mutex_unlock)(rwm_); return 0; }
int vfs_pthread_rwlock_tryrdlock(int *l) { VFM(pthread_mutex_lock)(rwm_); int r = l[1] ? 16 : 0; if (!r) l[0]++; VFM(pthread_mutex_unlock)(rwm_); return r; }
int vfs_pthread_rwlock_trywrlock(int *l) { VFM(pthread_mutex_lock)(rwm_); int r = l[0] || l[1] ? 16 : 0; if (!r) l[1] = 1; VFM(pthread_mutex_unlock)(rwm_); return r; }
int vfs_pthread_rwlock_unlock(int *l) { VFM(pthread_mutex_lock)(rwm_); if (l[1]) l[1] = 0; else l[0]--; VFM(pthread_cond_broadcast)(rwc_); VFM(pthread_mutex_unlock)(rwm_); return 0; }

/* printf into memory: integers (d i u x X o with hh h l ll z j t), c, s, p, %, width, '-', '0', '*', precision for s and integers; no floating point */
#define OUT(c) do { if (k + 1 < n) d[k] = (char)(c); k++; } while (0)
int vfs_vsnprintf(char *d, unsigned long n, const char *f, __builtin_va_list ap) {
  unsigned long k = 0;
  for (; *f; f++) {
    if (*f != '%') { OUT(*f); continue; }
    int left = 0, zero = 0, plus = 0, alt = 0, lng = 0, w = 0, pr = -1; char b[32]; const char *t = b; unsigned long m = 0; char sg = 0;
    for (f++; *f == '-' || *f == '0' || *f == '+' || *f == ' ' || *f == '#'; f++) { if (*f == '-') left = 1; if (*f == '0') zero = 1; if (*f == '+') plus = 1; if (*f == '#') alt = 1; }
    if (*f == '*') { w = __builtin_va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { pr = 0; f++; if (*f == '*') { pr = __builtin_va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + (*f++ - '0'); }
    for (; *f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't'; f++) lng += *f == 'h' ? -1 : 2;
    if (*f == '%') { OUT('%'); continue; }
    if (!*f) break;
    if (*f == 'c') { b[0] = (char)__builtin_va_arg(ap, int); m = 1; zero = 0; }
    else if (*f == 's') { t = __builtin_va_arg(ap, const char *); if (!t) t = "(null)"; while ((pr < 0 || m < (unsigned long)pr) && t[m]) m++; zero = 0; }
    else {
      unsigned long v, base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; const char *dig = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; char r[24]; unsigned long q = 0;
      if (*f == 'p') { v = (unsigned long)__builtin_va_arg(ap, void *); alt = 1; }
      else if (*f == 'd' || *f == 'i') { long x = lng >= 2 ? __builtin_va_arg(ap, long) : __builtin_va_arg(ap, int); if (lng == -1) x = (short)x; if (lng == -2) x = (signed char)x; if (x < 0) { sg = '-'; v = -(unsigned long)x; } else { v = (unsigned long)x; if (plus) sg = '+'; } }
      else { v = lng >= 2 ? __builtin_va_arg(ap, unsigned long) : __builtin_va_arg(ap, unsigned int); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; }
      int hex = alt && base == 16 && v; if (pr >= 0) zero = 0;
      while (v || (!q && pr != 0)) { r[q++] = dig[v % base]; v /= base; }
      if (sg) b[m++] = sg; if (hex) { b[m++] = '0'; b[m++] = *f == 'X' ? 'X' : 'x'; }
      long pad = pr > (long)q ? pr - (long)q : zero && !left && w > (int)(q + m) ? w - (int)(q + m) : 0;
      if (pad + (long)q + (long)m > (long)sizeof b) pad = (long)sizeof b - (long)q - (long)m;
      while (pad-- > 0) b[m++] = '0'; while (q) b[m++] = r[--q];
    }
    for (long i = (long)m; !left && i < w; i++) OUT(' ');
    for (unsigned long i = 0; i < m; i++) OUT(t[i]);
    for (long i = (long)m; left && i < w; i++) OUT(' ');
  }
  if (n) d[k < n ? k : n - 1] = 0;
  return (int)k;
}
int vfs_snprintf(char *d, unsigned long n, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = vfs_vsnprintf(d, n, f, ap); __builtin_va_end(ap); return r; }
int vfs_sprintf(char *d, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = vfs_vsnprintf(d, 0x7fffffff, f, ap); __builtin_va_end(ap); return r; }
int vfs_vsprintf(char *d, const char *f, __builtin_va_list ap) { return vfs_vsnprintf(d, 0x7fffffff, f, ap); }
