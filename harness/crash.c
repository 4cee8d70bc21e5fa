/* stores (possibly with a cursor held open), sync, then the process stops: before anything else, after lookups/walks, or part way through the writes of close; the file left behind is opened again */
#include "core.h"
void vf_main(void) {
  params(); int n = vf_param("n", 3), kl = vf_param("kl", 60), vl = vf_param("vl", 30), vstep = vf_param("vstep", 0), hb = vf_param("hb", 1), old = vf_param("old", 0), again = vf_param("again", 0), c2 = vf_param("cache2", 0), upd = vf_param("upd", 0), curs = vf_param("curs", 0);
  db_create(); for (int i = 0; i < n + 1; i++) { mkkey(i, kl, 1); vf_assume(E[i].h < (1u << hb)); }
  ffdb_cursor_t *cu = 0; FFDB_DBT ck = {0, 0}, cd = {0, 0};
  for (int i = 0; i < n; i++) { if (curs && i == n - 1) { vf_assert(D->cursor(D, &cu, FFDB_KEY_CURSOR) == 0, "a cursor can be opened"); vf_assert(cu->get(cu, &ck, curs == 2 ? 0 : &cd, FFDB_FIRST) == 0, "first pair found"); } put_ok(i, vl + i * vstep); if (old && i == n / 2) { db_close(); db_reopen(O_RDWR); } if (again && i == again) db_sync(); }
  if (upd) { int i = vf_pick("upd", 0, n - 1); put_ok(i, E[i].vlen > 2 ? E[i].vlen - vf_pick("less", 0, 2) : E[i].vlen); }
  unsigned char ui[20], uo[200]; vf_bytes(ui, 20, "uinfo"); vf_assert(ffdb_set_user_info(D, ui, 20) == 0, "user information can be set");
  db_sync();
  if (vf_pick("reads", 0, 1)) { get_all(0); walk(0, 1, 0); }
  if (cu && vf_pick("cclose", 0, 1)) cu->close(cu);
  vfs_reset_faults(); int how = vf_pick("how", 0, 2); FFDB_DB *dead = D;
  if (how) { vfs_freeze_at = vf_pick("stop", 0, 3); if (how == 2) vfs_torn = vf_pick("torn", 0, 2) * 100 + 1; vf_allow_exit(0); dead->close(dead); vf_reach(vfs_writes > vfs_freeze_at ? "in-close" : "after-close"); }
  else vf_reach("before-close");
  vfs_reset_faults(); G.cache = c2 ? c2 : G.cache;
  db_reopen(vf_pick("ro", 0, 1) ? O_RDONLY : O_RDWR); get_all(0); walk(0, 1, 0); walk(1, 1, 0); unsigned m = 200; vf_assert(ffdb_get_user_info(D, uo, &m) == 0 && m == 20 && vf_memeq(ui, uo, 20), "user information set before the sync survives");
  db_close(); vf_reach("end");
}
