/* n keys of length kl with arbitrary hash values stored one after the other; lookups and walks in between and at the end */
#include "core.h"
void vf_main(void) {
  params(); int n = vf_param("n", 4), kl = vf_param("kl", 4), vl = vf_param("vl", 8), ck = vf_param("ck", 1), wk = vf_param("wk", 0), re = vf_param("re", 0), hb = vf_param("hb", 0), ses = vf_param("ses", 0), fix = vf_param("fix", 0), mul = vf_param("mul", 1), vstep = vf_param("vstep", 0);
  symmax = vf_param("symmax", 48);
  db_create();
  for (int i = 0; i < n + 1; i++) { int f = i < fix; if (f) symmax = 0; mkkey(i, kl, !f); symmax = vf_param("symmax", 48); if (f) E[i].h = (unsigned)i * mul; else if (hb) vf_assume(E[i].h < (1u << hb)); }
  for (int i = 0; i < n; i++) {
    put_ok(i, vl + i * vstep);
    if (ck == 2 || (ck == 1 && i == n / 2)) get_all(i & 1);
    if (ses && i + 1 < n && (i + 1) % ses == 0) { db_close(); db_reopen(O_RDWR); }
  }
  for (int u = 0; u < vf_param("upd", 0); u++) { int i = vf_pick("upd", 0, vf_param("updk", n) - 1), w = vf_pick("shorter", 0, 2); put_ok(i, w == 0 ? E[i].vlen : w == 1 ? E[i].vlen / 2 : 0); if (ck == 2) get_all(1); }
  get_all(0); get_chk(0, 2);
  if (wk) { walk(0, 1, 0); walk(1, 1, 0); walk(0, 0, 1); }
  if (re) { db_close(); db_reopen(re == 2 ? O_RDONLY : O_RDWR); get_all(1); if (wk) { walk(0, 1, 1); walk(1, 1, 0); } }
  db_close(); vf_assert(vfs_open_fds() == 0, "close releases the file"); vf_reach("end");
}
