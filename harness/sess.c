/* sessions with any cache size: each opens the file (read-write or read-only), checks everything, stores or replaces some keys, closes */
#include "core.h"
void vf_main(void) {
  params(); int ses = vf_param("ses", 3), per = vf_param("per", 2), kl = vf_param("kl", 200), hb = vf_param("hb", 1), nl = vf_param("nl", 4), wk = vf_param("wk", 1), sy = vf_param("sync", 0), ex = vf_param("exact", 0); static const int L[] = {8, 470, 0, 700, 1100}, Ca[] = {0, 1, 3}; int next = 0;
  for (int s = 0; s <= ses; s++) {
    int ro = s && vf_pick("ro", 0, 1); G.cache = Ca[vf_pick("cache", 0, 2)];
    if (s == 0) db_create(); else db_reopen(ro ? O_RDONLY : O_RDWR);
    if (!ro && s < ses) {
      int m = ex ? per : vf_pick("m", 0, per); for (int i = 0; i < m; i++) { mkkey(next, kl, 1); vf_assume(E[next].h < (1u << hb)); put_ok(next, L[vf_pick("len", 0, nl - 1)]); next++; }
      if (s && next && m) { int u = vf_pick("upd", -1, 0); if (u >= 0) put_ok(u, vf_param("shrink", 0) && vf_pick("shorter", 0, 1) ? E[u].vlen / 2 : E[u].vlen); }
      if (sy) db_sync();
    }
    mkkey(MAXK - 2, 5, 0); NE = next; get_all(s & 1); if (wk) walk(s & 1, 1, 0); db_close(); vf_assert(vfs_open_fds() == 0, "close releases the file");
  }
  vf_reach("end");
}
