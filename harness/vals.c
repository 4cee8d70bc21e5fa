/* values of every length in [lo,hi] (case split), stored between two neighbours, read back with all three buffer kinds; optional replacement by every shorter length */
#include "core.h"
void vf_main(void) {
  params(); int lo = vf_param("lo", 0), hi = vf_param("hi", 100), pre = vf_param("pre", 8), post = vf_param("post", 8), re = vf_param("re", 1), rep = vf_param("rep", 0), hb = vf_param("hb", 1), wk = vf_param("wk", 1), two = vf_param("two", -1);
  symmax = vf_param("symmax", 24);
  int len = vf_pick("len", lo, hi);
  db_create();
  for (int i = 0; i < 4; i++) { mkkey(i, 5 + i, 1); vf_assume(E[i].h < (1u << hb)); }
  if (pre >= 0) put_ok(0, pre);
  put_ok(1, len); get_chk(1, 1); get_chk(1, 2);
  if (post >= 0) put_ok(2, post);
  get_all(0); get_all(1);
  if (two >= 0) { put_ok(3, two); get_all(0); }
  if (rep) { int l2 = vf_pick("len2", vf_param("rlo", len > rep ? len - rep : 0), vf_param("rhi", len)); put_ok(1, l2); get_all(1); if (rep > 1 && l2 > 3) { put_ok(1, l2 - 3); get_all(0); } }
  if (wk) { walk(0, 1, 1); }
  if (re) { db_close(); db_reopen(re == 2 ? O_RDONLY : O_RDWR); get_all(2); get_all(0); if (wk) walk(1, 1, 1); }
  db_close(); vf_assert(vfs_open_fds() == 0, "close releases the file"); vf_reach("end");
}
