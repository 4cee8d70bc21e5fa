/* Shared harness code: a reference map beside the database, driven only through the public API (ffdb_db.h). */
#ifndef CORE_H
#define CORE_H
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <errno.h>
#include "vf.h"
#include "ffdb_db.h"
#define MAXK 120
#define FN "f.db"
typedef struct { int present; long klen, vlen; unsigned char *k, *v; unsigned h; } ent;
static ent E[MAXK]; static int NE;
static FFDB_DB *D;
static struct { int bs, nb, cache, rear, ulen, ncfg, defhash; int (*cmp)(const FFDB_DBT *, const FFDB_DBT *); } G = {512, 2, 0, 0, 100, 1, 0, 0};
/* Keys are numbered: by their first byte (kid=0), or they are alike except for their last byte (1) or their middle byte (2), or each is a prefix of the next (3).
   The hash of key i is an unconstrained 32-bit input. */
static int KID, KBASE;
static int keyid(const unsigned char *k, long n) { if (n < 1) return -1; if (KID == 3) return n - KBASE; return KID == 0 ? k[0] : KID == 1 ? k[n - 1] : k[n / 2]; }
static unsigned vhash(const void *p, unsigned n) { const unsigned char *k = p; if (n == 12 && k[0] == 37 && k[1] == 36) return 0x1234567; int i = keyid(k, n); if (i >= 0 && i < MAXK) return E[i].h; return 0x1234567; }
static int vcmp(const FFDB_DBT *a, const FFDB_DBT *b) { if (a->size != b->size) return a->size < b->size ? -1 : 1; return memcmp(a->data, b->data, a->size); } /* a caller's own comparison */
static void params(void) { G.bs = vf_param("bs", 512); G.nb = vf_param("nb", 2); G.cache = vf_param("cache", 0); G.rear = vf_param("rear", 0); G.ulen = vf_param("ulen", 100); G.ncfg = vf_param("ncfg", 1); G.defhash = vf_param("defhash", 0); KID = vf_param("kid", 0); if (vf_param("cmp", 0)) G.cmp = vcmp; }
static void mkinfo(FFDB_HASHINFO *hi) { memset(hi, 0, sizeof *hi); hi->bsize = G.bs; hi->nbuckets = G.nb; hi->cachesize = (unsigned long)G.cache * G.bs; hi->rearrangepages = G.rear; hi->userinfolen = G.ulen; hi->numconfigs = G.ncfg; hi->hash = G.defhash ? 0 : vhash; hi->cmp = G.cmp; }
static FFDB_DB *dbopen_(int fl) { FFDB_HASHINFO hi; mkinfo(&hi); return ffdb_dbopen(FN, fl, 0644, &hi); }
static void hist_prefix(int base);
static void db_create(void) { D = dbopen_(O_RDWR | O_CREAT); vf_assert(D != 0, "creating a database succeeds"); if (vf_param("hs", 0)) hist_prefix(60); }
static void db_reopen(int fl) { D = dbopen_(fl); vf_assert(D != 0, "reopening a cleanly closed database succeeds"); }
static void db_close(void) { vf_assert(D->close(D) == 0, "close reports success"); D = 0; }
static void db_sync(void) { vf_assert(D->sync(D, 0) == 0, "sync reports success"); }
static unsigned char *dup_(const unsigned char *p, long n) { unsigned char *q = malloc(n); if (n) memcpy(q, p, n); return q; }
/* a buffer of n bytes: symbolic if short, otherwise symbolic at both ends and a fixed non-repeating pattern between */
static int symmax = 48;
static unsigned char *mkbuf(long n, int salt, const char *name) {
  unsigned char *b = malloc(n); int e = 6;
  if (n <= symmax) { if (n) vf_bytes(b, n, name); }
  else { for (long i = 0; i < n; i++) b[i] = (unsigned char)(i * 7 + (i >> 8) * 11 + salt * 29 + 3); if (e > n) e = n; if (e) { vf_bytes(b, e, name); vf_bytes(b + n - e, e, name); } }
  return b;
}
static int vserial;
/* declare key i (length klen >= 1): number, arbitrary remaining content (short keys), arbitrary hash value */
static void mkkey(int i, long klen, int symhash) {
  ent *e = &E[i]; if (KID == 3) { if (!KBASE) KBASE = klen; klen = KBASE + i; } e->klen = klen;
  if (KID == 3) { static unsigned char *m; if (!m) { m = mkbuf(460, 0, "key"); vf_bytes(m, KBASE < 16 ? KBASE : 16, "key"); } e->k = dup_(m, klen); } else e->k = mkbuf(klen, KID ? 0 : i, "key");
  if (KID == 0) e->k[0] = i; else if (KID == 3) ; else if (i != 0 && E[0].k) for (long j = 0; j < klen && j < E[0].klen; j++) e->k[j] = E[0].k[j];
  if (KID == 1) e->k[klen - 1] = i; if (KID == 2) e->k[klen / 2] = i; e->present = 0; e->v = 0; e->vlen = 0; e->h = symhash ? vf_u32("hash") : 0; if (i >= NE) NE = i + 1;
}
static int put_raw(int i, const unsigned char *v, long vlen, unsigned fl) { /* exact-size buffers, gone right after the call */
  unsigned char *kb = dup_(E[i].k, E[i].klen), *vb = dup_(v, vlen); FFDB_DBT k = {kb, E[i].klen}, d = {vb, vlen};
  int r = D->put(D, &k, &d, fl);
  vf_assert(vf_memeq(kb, E[i].k, E[i].klen) && vf_memeq(vb, v, vlen), "a store leaves the caller's buffers unmodified");
  free(kb); free(vb); return r;
}
static void setval(int i, unsigned char *v, long vlen) { free(E[i].v); E[i].v = v; E[i].vlen = vlen; E[i].present = 1; }
static void put_ok(int i, long vlen) { unsigned char *v = mkbuf(vlen, 40 + vserial++, "val"); int r = put_raw(i, v, vlen, 0); vf_assert(r == 0, "store reports success"); setval(i, v, vlen); }
/* look key i up; mode 0: library allocates, 1: exact buffer, 2: larger buffer */
static void get_chk(int i, int mode) {
  ent *e = &E[i]; unsigned char *kb = dup_(e->k, e->klen); FFDB_DBT k = {kb, e->klen}, d = {0, 0}; unsigned char *buf = 0; int r;
  if (mode && e->vlen > 0) { long n = e->vlen + (mode == 2 ? 5 : 0); buf = malloc(n); if (mode == 2) memset(buf + e->vlen, 0x5b, 5); d.data = buf; d.size = n; }
  r = D->get(D, &k, &d, 0);
  if (!e->present) { vf_assert(r == FFDB_NOT_FOUND, "looking up a key that is not stored reports not-found"); }
  else {
    vf_assert(r == 0, "looking up a stored key succeeds");
    vf_assert(d.size == e->vlen, "the value returned has the stored length");
    vf_assert(!buf || d.data == buf, "the value is placed in the caller's buffer");
    vf_assert(vf_memeq(d.data, e->v, e->vlen), "the value returned has the stored bytes");
    if (mode == 2 && buf) { static const unsigned char g[5] = {0x5b, 0x5b, 0x5b, 0x5b, 0x5b}; vf_assert(vf_memeq(buf + e->vlen, g, 5), "nothing is written beyond the value's length"); }
    vf_obs_bytes("v", d.data, e->vlen < 12 ? e->vlen : 12);
  }
  if (!buf) free(d.data); else free(buf);
  free(kb);
}
static void get_all(int mode) { for (int i = 0; i < NE; i++) if (E[i].k) get_chk(i, mode); }
/* a full walk with a cursor: forward or backward, with or without data; checks exactly-once, keys, values and the end */
static void walk(int back, int withdata, int usebuf) {
  ffdb_cursor_t *c = 0; int seen[MAXK] = {0}, n = 0, live = 0; for (int i = 0; i < NE; i++) live += E[i].present;
  vf_assert(D->cursor(D, &c, FFDB_KEY_CURSOR) == 0 && c, "a cursor can be opened");
  for (;;) {
    unsigned fl = back ? (n == 0 ? FFDB_LAST : FFDB_PREV) : (n == 0 ? FFDB_FIRST : FFDB_NEXT);
    FFDB_DBT k = {0, 0}, d = {0, 0}; unsigned char *kb = 0, *db = 0;
    if (usebuf) { long mv = 4096; for (int i = 0; i < NE; i++) if (E[i].vlen + 3 > mv) mv = E[i].vlen + 3; kb = malloc(1024); k.data = kb; k.size = 1024; db = malloc(mv); d.data = db; d.size = mv; }
    int r = c->get(c, &k, withdata ? &d : 0, fl);
    if (r == FFDB_NOT_FOUND) { if (usebuf) { free(kb); free(db); } break; }
    vf_assert(r == 0, "a cursor step succeeds while pairs remain");
    vf_assert(k.size >= 1, "a cursor returns a key"); int id = keyid(k.data, k.size); id = vf_conc(id);
    vf_assert(id >= 0 && id < NE && E[id].present, "a cursor returns only stored keys");
    vf_assert(!seen[id], "a cursor visits each pair once"); seen[id] = 1;
    vf_assert(k.size == E[id].klen && vf_memeq(k.data, E[id].k, E[id].klen), "a cursor returns the stored key bytes");
    if (withdata) { vf_assert(d.size == E[id].vlen, "a cursor returns the stored length"); vf_assert(vf_memeq(d.data, E[id].v, E[id].vlen), "a cursor returns the stored value"); }
    if (usebuf) { free(kb); free(db); } else { free(k.data); free(d.data); }
    vf_observe("walk", id); n++; vf_assert(n <= live, "a walk ends");
  }
  vf_assert(n == live, "a full walk visits every stored pair");
  { FFDB_DBT k = {0, 0}, d = {0, 0}; vf_assert(c->get(c, &k, withdata ? &d : 0, back ? FFDB_PREV : FFDB_NEXT) == FFDB_NOT_FOUND, "a finished walk keeps reporting not-found"); }
  vf_assert(c->close(c) == 0, "a cursor closes");
}
static int nlive(void) { int n = 0; for (int i = 0; i < NE; i++) n += E[i].present; return n; }
/* A fixed history chosen by the parameter hs, over keys numbered from base: stores of new keys, replacements, lookups, walks, syncs, user information,
   session boundaries that may change cache size and rearrangement. It brings the database into a large state before the symbolic part of a harness. */
static unsigned hrs; static unsigned rnd(unsigned n) { hrs = hrs * 1103515245u + 12345u; return n ? (hrs >> 12) % n : 0; }
static void (*hist_closed)(void); static int hist_var, hist_base, hist_id; static unsigned char *hist_u; static unsigned hist_ul;
static unsigned char *cbuf(long n, int salt) { unsigned char *b = malloc(n); for (long i = 0; i < n; i++) b[i] = (unsigned char)(i * 7 + (i >> 8) * 11 + salt * 29 + 3); return b; }
static void cput(int i, long vlen) { unsigned char *v = cbuf(vlen, 40 + vserial++); vf_assert(put_raw(i, v, vlen, 0) == 0, "store reports success"); setval(i, v, vlen); }
static void ckey(int i, long kl, unsigned h) { ent *e = &E[i]; e->klen = kl; e->k = cbuf(kl, i); e->k[0] = i; e->h = h; e->present = 0; e->v = 0; e->vlen = 0; if (i >= NE) NE = i + 1; }
static void hist_uichk(void) { if (!hist_ul) return; unsigned char *b = malloc(100); unsigned n = 100; vf_assert(ffdb_get_user_info(D, b, &n) == 0 && n == hist_ul && vf_memeq(b, hist_u, hist_ul), "user information is returned"); free(b); }
static void hist_session(void) {
  db_close(); if (hist_closed) hist_closed();
  if (hist_var & 1) G.rear = rnd(2); if (hist_var & 2) G.cache = rnd(4);
  if (rnd(3) == 0) { db_reopen(O_RDONLY); get_all(rnd(2)); walk(rnd(2), 1, 0); hist_uichk(); db_close(); }
  db_reopen(O_RDWR); hist_uichk();
}
static unsigned chash(int m) { switch (m) { case 0: return rnd(0x7fffffff) * 3; case 1: return rnd(3) ? 15 + 16 * rnd(8) : rnd(64); case 2: return rnd(4) ? 16 * rnd(8) : rnd(64); case 3: return rnd(2); default: return rnd(4) ? 0x80000000u + rnd(3) * 0x40 : rnd(256); } }
static void hist_prefix(int base) {
  int ops = vf_param("hops", 30), kmin = vf_param("kmin", 20), kmax = vf_param("kmax", 200), vmax = vf_param("vmax", 700), hm = vf_param("hm", 0), pses = vf_param("pses", 12), pupd = vf_param("pupd", 20), plook = vf_param("plook", 10), pwalk = vf_param("pwalk", 5), psync = vf_param("psync", 3), pui = vf_param("pui", base ? 0 : 3);
  int rear = G.rear, cache = G.cache; hist_var = vf_param("var", 0); hrs = (vf_param("hs", 1) + (vf_param("hsn", 0) ? vf_pick("history", 0, vf_param("hsn", 0) - 1) : 0)) * 2654435761u + 99; hist_base = hist_id = base;
  for (int o = 0; o < ops; o++) { int r = rnd(100), id = hist_id, b = hist_base, n = id - b;
    if (n && (r -= pses) < 0) hist_session();
    else if (n && (r -= pupd) < 0) { int i = b + rnd(n); cput(i, rnd(3) ? E[i].vlen : rnd(E[i].vlen + 1)); }
    else if (n && (r -= plook) < 0) get_chk(b + rnd(n), rnd(3));
    else if (n && (r -= pwalk) < 0) walk(rnd(2), 1, 0);
    else if ((r -= psync) < 0) db_sync();
    else if ((r -= pui) < 0) { hist_ul = 1 + rnd(100); free(hist_u); hist_u = cbuf(hist_ul, o); vf_assert(ffdb_set_user_info(D, hist_u, hist_ul) == 0, "user information can be set"); }
    else if (id < MAXK - 8) { ckey(id, kmin + rnd(kmax - kmin + 1), chash(hm)); cput(id, rnd(4) ? rnd(vmax + 1) : rnd(20)); hist_id++; } }
  if (base) { if (hist_var) { G.rear = rear; G.cache = cache; db_close(); db_reopen(O_RDWR); } }
}
#endif
