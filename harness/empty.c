/* walks over an empty database, and restarting / reversing walks */
#include "core.h"
void vf_main(void) {
  params(); int n = vf_param("n", 2), kl = vf_param("kl", 6); db_create(); walk(0, 1, 0); walk(1, 1, 0); walk(0, 0, 1);
  mkkey(0, kl, 1); get_all(0); db_close(); db_reopen(O_RDWR); walk(0, 1, 0); walk(1, 1, 0); db_close(); db_reopen(O_RDONLY); walk(1, 0, 0); get_all(0); db_close(); db_reopen(O_RDWR);
  for (int i = 1; i < n; i++) mkkey(i, kl, 1);
  for (int i = 0; i < n; i++) put_ok(i, 5);
  ffdb_cursor_t *c; D->cursor(D, &c, FFDB_KEY_CURSOR); int first = -1;
  for (int round = 0; round < 3; round++) { /* restart after r steps: FIRST always yields the same pair */
    FFDB_DBT k = {0, 0}, d = {0, 0}; vf_assert(c->get(c, &k, &d, FFDB_FIRST) == 0, "first pair found"); int id = vf_conc(keyid(k.data, k.size)); free(k.data); free(d.data);
    if (first < 0) first = id; vf_assert(first == id, "restarting a walk begins at the same pair");
    for (int s = 0; s < round; s++) { FFDB_DBT kk = {0, 0}; int r = c->get(c, &kk, 0, FFDB_NEXT); vf_assert(r == (s + 1 < n ? 0 : FFDB_NOT_FOUND), "walk continues"); free(kk.data); }
  }
  c->close(c); walk(0, 1, 0); walk(1, 1, 0); db_close(); vf_reach("end");
}
