/* read-only use (lookups, walks, failing requests, user and configuration information) leaves every byte of the file; opening read-write and closing loses nothing */
#include "fmt.h"
static unsigned char *S; static long SN;
static void snap(void) { free(S); unsigned char *p = vfs_data(FN, &SN); S = dup_(p, SN); }
static void unchanged(void) { long n; unsigned char *p = vfs_data(FN, &n); vf_assert(n == SN, "read-only use leaves the length of the file alone"); vf_assert(vf_memeq(p, S, n), "read-only use leaves the bytes of the file alone"); }
void vf_main(void) {
  params(); int n = vf_param("n", 3), kl = vf_param("kl", 200), vl = vf_param("vl", 30), vstep = vf_param("vstep", 0), hb = vf_param("hb", 2), foreign = vf_param("foreign", 0), nc = vf_param("nc", 0), r2 = vf_param("rear2", -1), steps = vf_param("steps", 3);
  if (nc) G.ncfg = nc; db_create(); for (int i = 0; i < n + 1; i++) { mkkey(i, kl, 1); vf_assume(E[i].h < (1u << hb)); }
  for (int i = 0; i < n; i++) put_ok(i, vl + i * vstep); unsigned char u[5] = {9, 8, 7, 6, 5}; vf_assert(ffdb_set_user_info(D, u, 5) == 0, "user information can be set");
  if (nc) { ffdb_all_config_info_t a; a.numconfigs = nc; a.allconfigs = calloc(nc, sizeof(ffdb_config_info_t)); for (int i = 0; i < nc; i++) { a.allconfigs[i].config = i + 5; a.allconfigs[i].index = i; } vf_assert(ffdb_set_all_configs(D, &a) == 0, "configurations can be set"); free(a.allconfigs); }
  db_close(); if (foreign) fmt_foreign(); snap(); if (r2 >= 0) G.rear = r2;
  static const int acts2[3] = {1, 6, 5};
  for (int rw = 0; rw < 3; rw++) { /* read-only, read-write without storing, read-only again */
    db_reopen(rw == 1 ? O_RDWR : O_RDONLY);
    for (int s = 0; s < steps; s++) {
      int a = rw ? acts2[s] : vf_pick("act", 0, 6);
      if (a == 0) get_all(s & 1); else if (a == 1) walk(s & 1, 1, 0);
      else if (a == 2) { vf_assert(D->sync(D, 0) == 0 || rw != 1, "sync"); }
      else if (a == 3) { ffdb_cursor_t *c; FFDB_DBT k = {0, 0}, d = {0, 0}; vf_assert(D->cursor(D, &c, FFDB_KEY_CURSOR) == 0, "a cursor can be opened"); c->get(c, &k, &d, FFDB_LAST); free(k.data); free(d.data); c->close(c); }
      else if (a == 4) { unsigned char o[10]; unsigned m = 10; vf_assert(ffdb_get_user_info(D, o, &m) == 0 && m == 5 && vf_memeq(o, u, 5), "user information is returned"); m = 2; ffdb_get_user_info(D, o, &m); }
      else if (a == 5 && rw != 1) { unsigned char *v = mkbuf(3, 1, "x"); vf_assert(put_raw(0, v, 3, 0) != 0 && put_raw(n, v, 3, 0) != 0, "a store through a read-only handle is refused"); ffdb_set_user_info(D, v, 3); ffdb_config_info_t ci; memset(&ci, 0, sizeof ci); ci.config = 5; ci.mtime = 3; ffdb_set_config(D, &ci); free(v); vf_reach("refused"); }
      else if (a == 6) { FFDB_DBT k = {E[0].k, E[0].klen}; unsigned char b1; FFDB_DBT d = {&b1, 1}; D->get(D, &k, &d, 0); get_chk(n, 0); }
    }
    db_close(); if (rw != 1) unchanged(); else { fmt_t F; memset(&F, 0, sizeof F); fmt_check(&F); snap(); } if (rw == 0 && vf_param("one", 0)) break;
    steps = 3;
  }
  db_reopen(O_RDWR); get_all(0); walk(0, 1, 0); db_close(); vf_reach("end");
}
