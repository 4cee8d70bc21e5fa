/* a file written from scratch by the harness according to the documented format (either byte order of pages, version 5 or 6) is opened, read, walked, possibly extended, and read again */
#include "fmt.h"
static unsigned char *fb; static int BS = 512; static fmt_t W;
static unsigned char *pgp(int n) { return fb + n * BS; }
static void w16(unsigned char *p, unsigned v) { p[W.be ? 1 : 0] = v; p[W.be ? 0 : 1] = v >> 8; }
static void b32(unsigned char *p, unsigned v) { for (int i = 0; i < 4; i++) p[i] = v >> (24 - 8 * i); }
static int lowp; static unsigned farp; static unsigned num(int n) { return n < lowp ? n : n + farp; } /* page n is numbered num(n): with far, the file has a hole after the first buckets */
static void page(int n, unsigned type, unsigned off) { unsigned char *p = pgp(n); put32(&W, p, num(n)); put32(&W, p + 4, ~0u); put32(&W, p + 8, ~0u); put32(&W, p + 12, 0xe0f1a2b9u); w16(p + 18, type); put32(&W, p + 24, off); }
static int np, nent[32], top[32], dpg, dpos, dcnt[32];
static int newdata(int prev) { int n = np++; page(n, 0x2001, 32); put32(&W, pgp(n) + 28, 32); if (prev >= 0) { put32(&W, pgp(prev) + 8, num(n)); put32(&W, pgp(n) + 4, num(prev)); } dpg = n; dpos = 32; return n; }
/* C26: the item of key 0 claims more than 4 GiB (symbolic length); it can be refused, skipped and replaced, but never be taken for a short one */
static void huge_refused(int back) {
  int n = vf_pick("buf", 0, 1) ? 1 : 120; unsigned char *b = malloc(n), g[120]; memset(b, 0x5b, n); memset(g, 0x5b, 120); FFDB_DBT k = {E[0].k, E[0].klen}, d = {b, n};
  vf_assert(D->get(D, &k, &d, 0) != 0, "a lookup of an item longer than 4 GiB into a short buffer is refused"); vf_assert(vf_memeq(b, g, n), "a refused lookup leaves the buffer alone");
  vf_assert(put_raw(0, g, n, FFDB_NOOVERWRITE) != 0, "a no-overwrite store under an existing key is refused");
  ffdb_cursor_t *c; vf_assert(D->cursor(D, &c, FFDB_KEY_CURSOR) == 0, "cursor"); int live = nlive();
  for (int q = 0; q < live; q++) { unsigned char kb[460], vb[2000]; FFDB_DBT kk = {kb, 460}, dd = {vb, 2000}; int r = c->get(c, &kk, &dd, back ? q ? FFDB_PREV : FFDB_LAST : q ? FFDB_NEXT : FFDB_FIRST); int id = vf_conc(kb[0]); vf_assert((r == 0) == (id != 0), "a cursor step fails exactly on the item longer than the buffer"); if (id) vf_assert(dd.size == E[id].vlen && vf_memeq(vb, E[id].v, dd.size), "a cursor returns the stored value"); }
  vf_assert(c->close(c) == 0, "a cursor closes"); for (int i = 1; i < NE; i++) if (E[i].k) get_chk(i, 0); free(b);
}
static void huge_main(int n, int more, int vl) {
  db_reopen(O_RDONLY); huge_refused(0); walk(0, 0, 0); walk(1, 0, 0); db_close(); vf_reach("read");
  db_reopen(O_RDWR); for (int i = 0; i < more; i++) put_ok(n + i, vl); huge_refused(1); db_close();
  fmt_t F; memset(&F, 0, sizeof F); fmt_huge = 0; fmt_check(&F); vf_reach("kept");
  static const int rl[] = {0, 1, 119, 430, 480, 1200}; int r = rl[vf_pick("shorter", 0, 5)]; fmt_huge = -1; db_reopen(O_RDWR); put_ok(0, r); get_all(0); walk(0, 1, 0); { unsigned char *v = mkbuf(r + 1, 7, "longer"); vf_assert(put_raw(0, v, r + 1, 0) != 0, "after the replacement a longer value is refused"); } db_close();
  db_reopen(O_RDONLY); get_all(1); db_close(); memset(&F, 0, sizeof F); fmt_check(&F); vf_reach("end");
}
void vf_main(void) {
  params(); int n = vf_param("n", 3), kl = vf_param("kl", 9), vl = vf_param("vl", 7), vstep = vf_param("vstep", 0), hb = vf_param("hb", 1), more = vf_param("more", 0), ver = vf_param("ver", 6), be = vf_param("be", 0), ul = vf_param("ul", 11), symb = vf_param("symbytes", 24), huge = vf_param("huge", 0);
  BS = G.bs; symmax = symb; crc_init(); W.be = be; W.bs = BS; fb = malloc(40 * BS); memset(fb, 0, 40 * BS); np = 5; lowp = 3 + vf_param("nbk", 2); farp = vf_param("far", 0);
  int nb2 = vf_param("nbk", 2); page(1, 0x4001, 0); page(2, 0x5001, 32); for (int b = 0; b < nb2; b++) { page(3 + b, 0x1001, BS - 1); top[3 + b] = BS; } np = 3 + nb2;
  unsigned char *u = mkbuf(ul, 3, "uinfo"); put32(&W, pgp(1) + 28, ul); memcpy(pgp(1) + 32, u, ul); w16(pgp(1) + 16, 1);
  ffdb_config_info_t ci; memset(&ci, 0, sizeof ci); unsigned char cf[20]; vf_bytes(cf, 20, "cfg"); memcpy(pgp(2) + 28, cf, 20); memcpy(pgp(2) + 48, "name", 5); w16(pgp(2) + 16, 1);
  put32(&W, pgp(2) + 28, 7); put32(&W, pgp(2) + 32, 0);
  newdata(-1); int cur[2] = {3, 4};
  for (int i = 0; i < n + more + 1; i++) { mkkey(i, kl, 1); vf_assume(E[i].h < (1u << hb)); }
  for (int i = 0; i < n; i++) {
    int b = vf_conc(E[i].h & (nb2 - 1)); int pg = cur[b]; long l = huge && i == 0 ? 440 + 3 * (BS - 32) : vl + i * vstep; unsigned char *v = mkbuf(l, 60 + i, "val"); setval(i, v, l);
    int dof = (top[pg] - kl - 16) & ~3; if (28 + 12 * (nent[pg] + 1) > dof) { int o = np++; page(o, 0x1001, BS - 1); top[o] = BS; put32(&W, pgp(pg) + 8, num(o)); put32(&W, pgp(o) + 4, num(pg)); cur[b] = pg = o; dof = (top[pg] - kl - 16) & ~3; }
    unsigned char *p = pgp(pg); memcpy(p + top[pg] - kl, E[i].k, kl); put32(&W, p + 28 + 12 * nent[pg], top[pg] - kl); put32(&W, p + 32 + 12 * nent[pg], kl); put32(&W, p + 36 + 12 * nent[pg], dof);
    if (dpos + 20 > BS) newdata(dpg); unsigned hi = 0, lo = l; if (huge && i == 0) { hi = vf_u32("hi"); lo = vf_u32("lo"); vf_assume(hi >= 1 && hi <= 255); E[0].vlen = (long)hi << 32 | lo; }
    put32(&W, p + dof, num(dpg)); put32(&W, p + dof + 4, dpos | hi << 20); put32(&W, p + dof + 8, lo); put32(&W, p + dof + 12, crc_(0, v, l)); top[pg] = dof; put32(&W, p + 24, dof - 1);
    unsigned char *d = pgp(dpg); dcnt[dpg]++; w16(d + 16, dcnt[dpg]); put32(&W, d + dpos, lo); put32(&W, d + dpos + 4, ver == 5 ? 0xffeeffeeu : 0xffee | hi << 20); put32(&W, d + dpos + 12, num(pg)); put32(&W, d + dpos + 16, nent[pg]); nent[pg]++; w16(p + 16, nent[pg]);
    unsigned char *hdr = d + dpos; dpos += 20; long done = 0; while (done < l) { long c = BS - dpos; if (c > l - done) c = l - done; memcpy(pgp(dpg) + dpos, v + done, c); done += c; dpos += c; if (done < l) { put32(&W, pgp(dpg) + 24, 0); newdata(dpg); } }
    if (huge && i == 0) { for (int q = 0; q < 4; q++) put32(&W, pgp(np - 1 - q) + 28, q == 3 ? 32 : 0); put32(&W, pgp(dpg) + 24, 0); newdata(dpg); continue; }
    dpos = (dpos + 3) & ~3; if (dpos + 20 >= BS) { if (pgp(dpg) == d) put32(&W, hdr + 8, 0); else put32(&W, pgp(dpg) + 28, 0); put32(&W, pgp(dpg) + 24, 0); newdata(dpg); } else { if (pgp(dpg) == d) put32(&W, hdr + 8, dpos); else put32(&W, pgp(dpg) + 28, dpos); put32(&W, pgp(dpg) + 24, dpos); }
  }
  for (int i = 1; i < np; i++) { unsigned char *p = pgp(i); put32(&W, p + 20, crc_(crc_(0, p, 20), p + 24, BS - 24)); }
  unsigned char *h = fb; b32(h, 0xcece3434u); b32(h + 4, ver); b32(h + 8, be ? 4321 : 1234); b32(h + 12, BS); b32(h + 16, fmt_log2(BS)); b32(h + 20, nb2 == 2 ? 1 : 0); b32(h + 24, nb2 - 1); b32(h + 28, nb2 - 1); b32(h + 32, nb2 == 2 ? 0 : 0); b32(h + 36, 65536); b32(h + 40, n); b32(h + 44, 3); b32(h + 48, 100); h[53] = 1; h[55] = 1; h[57] = 2; h[59] = 1; b32(h + 60, 1); b32(h + 64, vhash("%$sniglet^&", 12)); b32(h + 72, 3); b32(h + 76, 4); b32(h + 80, num(np)); for (int i = 0; i < 32; i++) b32(h + 200 + 4 * i, ~0u); b32(h + 328, crc_(0, h, 328));
  vfs_set(FN, fb, np * BS); if (farp) { vfs_gap(FN, (long)lowp * BS, (long)farp * BS); fmt_gap = lowp; fmt_gapn = farp; } vf_reach("written");
  if (huge) { huge_main(n, more, vl); return; }
  unsigned char uo[200]; unsigned m; ffdb_config_info_t co;
  for (int s = 0; s < 2; s++) {
    db_reopen(s == 0 ? O_RDONLY : O_RDWR); get_all(s); walk(0, 1, 0); walk(1, 1, 0); m = 200; vf_assert(ffdb_get_user_info(D, uo, &m) == 0 && m == ul && vf_memeq(uo, u, ul), "user information of a conforming file is returned");
    memset(&co, 0, sizeof co); co.index = 0; vf_assert(ffdb_get_config(D, 7, &co) == 0 && co.config == 7 && co.index == 0 && co.inserted == (int)P32(&W, cf + 8) && co.type == (int)P32(&W, cf + 12) && co.mtime == (int)P32(&W, cf + 16), "the configuration record of a conforming file is returned");
    if (s && more) { for (int i = 0; i < more; i++) { put_ok(n + i, vl); get_all(0); } put_ok(0, E[0].vlen); } db_close();
  }
  if (more) { db_reopen(O_RDWR); get_all(0); walk(0, 1, 0); db_close(); if (ver == 6) { fmt_t F; memset(&F, 0, sizeof F); fmt_check(&F); vf_assert(F.be == be, "a file keeps its byte order"); } }
  vf_reach("end");
}
