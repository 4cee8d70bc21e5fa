/* a history of stores, replacements (every length class) and no-overwrite stores over few keys */
#include "core.h"
static int lens[] = {0, 1, 9, 30, 470, 700};
void vf_main(void) {
  params(); int nk = vf_param("nk", 3), ops = vf_param("ops", 3), nl = vf_param("nl", 3), hb = vf_param("hb", 1), re = vf_param("re", 1), kl = vf_param("kl", 6), nb_ops = vf_param("kinds", 2), init = vf_param("init", 1), lb = vf_param("lb", 0);
  db_create(); for (int i = 0; i < nk; i++) { mkkey(i, kl + i, 1); vf_assume(E[i].h < (1u << hb)); }
  for (int i = 0; i < nk && init; i++) put_ok(i, lens[lb + (i % nl)]);
  for (int o = 0; o < ops; o++) {
    int i = vf_pick("key", 0, nk - 1), no = vf_pick("noover", 0, nb_ops - 1), l = lens[lb + vf_pick("len", 0, nl - 1)];
    unsigned char *v = mkbuf(l, 70 + o, "val"); int r = put_raw(i, v, l, no ? FFDB_NOOVERWRITE : 0);
    if (E[i].present && no) { vf_assert(r != 0, "a no-overwrite store of an existing key is refused"); free(v); vf_reach("refused"); }
    else if (E[i].present && l > E[i].vlen) { vf_assert(r != 0, "a replacement longer than the stored value is refused"); free(v); vf_reach("longer"); }
    else { vf_assert(r == 0, "store reports success"); setval(i, v, l); vf_reach("stored"); }
    get_all(o & 1);
  }
  walk(0, 1, 0); walk(1, 1, 1);
  if (re) { db_close(); db_reopen(re == 2 ? O_RDONLY : O_RDWR); get_all(1); walk(0, 1, 0); }
  db_close(); vf_reach("end");
}
