/* sessions: each opens (rearranging or not, read-write or read-only), stores some further keys, possibly replaces, checks everything, closes */
#include "core.h"
void vf_main(void) {
  params(); int ses = vf_param("ses", 3), per = vf_param("per", 2), kl = vf_param("kl", 200), vl = vf_param("vl", 20), hb = vf_param("hb", 2), fix = vf_param("fix", -1), bigv = vf_param("bigv", 0), pickn = vf_param("pickn", 0), wk = vf_param("wk", 1), first = vf_param("first", 0), ro = vf_param("ro", 1);
  int next = 0;
  for (int s = 0; s < ses; s++) {
    G.rear = fix >= 0 ? (fix >> s) & 1 : vf_pick("rear", 0, 1);
    if (s == 0) db_create(); else { db_reopen(O_RDWR); get_all(s & 1); }
    int m = s == 0 && first ? first : pickn ? vf_pick("m", 0, per) : per;
    for (int i = 0; i < m; i++) { mkkey(next, kl, 1); vf_assume(E[next].h < (1u << hb)); put_ok(next, bigv && (next % bigv) == 1 ? 700 + next * 30 : vl); next++; }
    if (s && next) put_ok(0, E[0].vlen);
    get_all(1); if (wk) walk(0, 1, 0); db_close();
    if (ro) { db_reopen(O_RDONLY); get_all(0); if (wk) walk(1, 1, 0); db_close(); }
  }
  G.rear = 0; db_reopen(O_RDWR); get_all(0); walk(0, 1, 0); db_close(); db_reopen(O_RDONLY); get_all(1); db_close(); vf_reach("end");
}
