/* user information of any content and length up to the configured maximum, with failing requests, stores, syncs and reopens in between */
#include "core.h"
static unsigned char *ui; static int ul, set;
static void ucheck(int mode) {
  unsigned m = ul + (mode ? 0 : 9); unsigned char *o = malloc(m); if (!mode) memset(o, 0x5b, m);
  vf_assert(ffdb_get_user_info(D, o, &m) == 0, "user information can be read"); vf_assert(m == (unsigned)ul, "user information has the length last set"); vf_assert(vf_memeq(o, ui, ul), "user information is returned unchanged");
  if (!mode) { static const unsigned char g[9] = {0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b}; vf_assert(vf_memeq(o + ul, g, 9), "nothing is written beyond the user information"); }
  free(o);
}
static int uset(unsigned char *u, int l) { unsigned char *b = dup_(u, l); int r = ffdb_set_user_info(D, b, l); vf_assert(vf_memeq(b, u, l), "the caller's buffer is unmodified"); free(b); return r; }
void vf_main(void) {
  params(); int ops = vf_param("ops", 2), n = vf_param("n", 2), lo = vf_param("lo", 0), hi = vf_param("hi", 40), small = vf_param("small", 1), ses = vf_param("ses", 1), ro = vf_param("ro", 0); G.ulen = vf_param("ulen", 40); symmax = vf_param("symbytes", 40);
  if (vf_param("late", 0) == 0) db_create(); else { db_create(); db_close(); db_reopen(O_RDWR); }
  for (int i = 0; i < n + 3; i++) { mkkey(i, vf_param("kl", 9), 1); vf_assume(E[i].h < (1u << vf_param("hb", 1))); } int id = 0; for (; id < n; id++) put_ok(id, vf_param("vl", 8) + id * vf_param("vstep", 0));
  vf_assert(ffdb_max_user_info_len(D) == (unsigned)G.ulen, "the maximal length is the one configured"); ui = malloc(1); ul = 0; ucheck(0);
  for (int s = 0; s < ses; s++) {
    for (int o = 0; o < ops; o++) {
      int span = hi - lo + 1, L = lo + (span > 40 ? vf_pick("len-hi", 0, (span - 1) / 32) * 32 + vf_pick("len-lo", 0, 31) : vf_pick("len", 0, span - 1)); if (L > hi) L = hi; unsigned char *u = mkbuf(L, 70 + vserial++, "uinfo"); int r = uset(u, L);
      if (L > G.ulen) { vf_assert(r != 0, "user information that is too long is refused"); free(u); vf_reach("refused"); } else { vf_assert(r == 0, "user information that fits is accepted"); free(ui); ui = u; ul = L; }
      ucheck(o & 1);
      if (small && ul > 0) { int k = ul > 3 ? 3 : 1; for (int q = 0; q < k; q++) { unsigned m = q == 0 ? ul - 1 : q == 1 ? 0 : ul / 2, m0 = m; unsigned char *b = malloc(m); vf_assert(ffdb_get_user_info(D, b, &m) != 0, "a result buffer that is too small is refused"); free(b); (void)m0; } vf_reach("small"); }
      if (o == 0 && n) put_ok(0, E[0].vlen); ucheck(1);
    }
    if (id < n + 3) { put_ok(id, 300); id++; } get_all(0); if (s == 0) db_sync(); ucheck(0); db_close(); db_reopen(ro ? O_RDONLY : O_RDWR); ucheck(0); ucheck(1); get_all(0); if (ro) { db_close(); db_reopen(O_RDWR); }
  }
  walk(0, 1, 0); ucheck(0); db_close(); db_reopen(O_RDONLY); ucheck(1); get_all(1);
  { unsigned char *b = mkbuf(ul, 99, "roinfo"); vf_assert(uset(b, ul) != 0, "a read-only handle refuses to set user information"); db_close(); db_reopen(O_RDONLY); ucheck(0); } /* a read-only handle never changes the file */
  db_close(); vf_reach("end");
}
