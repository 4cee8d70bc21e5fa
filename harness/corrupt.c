/* a closed file has up to four adjacent bytes altered by an arbitrary non-zero mask, at any offset of [lo,hi); afterwards everything returned must be what was stored, or an error */
#include "core.h"
static int err;
static void sget(int i, int mode) { ent *e = &E[i]; FFDB_DBT k = {e->k, e->klen}, d = {0, 0}; unsigned char *b = 0; if (mode && e->vlen) { b = malloc(e->vlen); d.data = b; d.size = e->vlen; } int r = D->get(D, &k, &d, 0);
  if (r == 0) { vf_assert(e->present, "no pair appears from nowhere"); vf_assert(d.size == e->vlen && vf_memeq(d.data, e->v, e->vlen), "a lookup in a damaged file that reports success returns the stored value"); free(d.data); }
  else if (r == FFDB_NOT_FOUND) { vf_assert(!e->present, "damage does not turn into a not-found answer"); free(b); } else { err = 1; free(b); } }
static void swalk(int back) { ffdb_cursor_t *c = 0; int r, n = 0, seen[MAXK] = {0}; if (D->cursor(D, &c, FFDB_KEY_CURSOR)) { err = 1; return; }
  for (;;) { FFDB_DBT k = {0, 0}, d = {0, 0}; r = c->get(c, &k, &d, back ? (n ? FFDB_PREV : FFDB_LAST) : (n ? FFDB_NEXT : FFDB_FIRST)); if (r) break;
    vf_assert(k.size >= 1, "a cursor returns a key"); int id = vf_conc(keyid(k.data, k.size)); vf_assert(id < NE && E[id].present && !seen[id] && k.size == E[id].klen && vf_memeq(k.data, E[id].k, E[id].klen), "a walk over a damaged file returns only stored keys, once"); seen[id] = 1;
    vf_assert(d.size == E[id].vlen && vf_memeq(d.data, E[id].v, E[id].vlen), "a walk over a damaged file returns only stored values"); free(k.data); free(d.data); n++; }
  if (r == FFDB_NOT_FOUND) vf_assert(n == nlive(), "a walk over a damaged file does not end early without an error"); else err = 1; c->close(c); }
void vf_main(void) {
  params(); int n = vf_param("n", 3), kl = vf_param("kl", 20), vl = vf_param("vl", 20), vstep = vf_param("vstep", 300), lo = vf_param("lo", 0), hi = vf_param("hi", 512), hb = vf_param("hb", 1), symv = vf_param("sym", 0), wlk = vf_param("walk", 1), st = vf_param("step", 1);
  symmax = symv ? 48 : -1;
  db_create(); for (int i = 0; i < n + 1; i++) { E[i].klen = kl; E[i].k = malloc(kl); for (int j = 0; j < kl; j++) E[i].k[j] = 3 * j + i; E[i].k[0] = i; E[i].h = hb == 0 ? 0 : i % (1 << hb); if (i >= NE) NE = i + 1; }
  for (int i = 0; i < n; i++) { long l = vl + i * vstep; unsigned char *v = malloc(l); for (int j = 0; j < l; j++) v[j] = i * 31 + j * 7; if (symv && i == n - 1 && l) vf_bytes(v, l < 4 ? l : 4, "val"); vf_assert(put_raw(i, v, l, 0) == 0, "store reports success"); setval(i, v, l); }
  unsigned char ui[8] = "abcdefg", uo[200]; vf_assert(ffdb_set_user_info(D, ui, 8) == 0, "user information can be set");
  db_close();
  long sz; unsigned char *f = vfs_data(FN, &sz); if (hi > sz) hi = sz; if (lo >= hi) { vf_reach("end"); vf_end(); }
  int tot = (hi - 1 - lo) / st, o1 = vf_pick("offhi", 0, tot / 32), off = lo + st * (o1 * 32 + vf_pick("off", 0, o1 == tot / 32 ? tot % 32 : 31)); unsigned char m[4]; vf_bytes(m, 4, "mask"); vf_assume((m[0] | m[1] | m[2] | m[3]) != 0);
  for (int j = 0; j < 4 && off + j < sz; j++) f[off + j] ^= m[j]; if (off + 4 > sz) vf_assume(m[0] != 0);
  vf_allow_exit(1); vf_reach("altered");
  D = dbopen_(O_RDONLY); if (!D) { vf_reach("refused"); vf_reach("end"); vf_end(); }
  unsigned ul = 200; int r = ffdb_get_user_info(D, uo, &ul); if (r == 0) vf_assert(ul == 8 && vf_memeq(ui, uo, 8), "user information read from a damaged file is the stored one"); else err = 1;
  for (int i = 0; i < NE; i++) if (E[i].k) sget(i, i & 1); if (wlk) { swalk(0); swalk(1); }
  D->close(D); vf_reach(err ? "reported" : "intact"); vf_reach("end");
}
