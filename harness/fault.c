/* one write or read of the session fails (error or short transfer) at every possible position; whatever reported success must be true */
#include "core.h"
static int failed;
static int good[MAXK];
static struct { unsigned char *v; long n; } alt[MAXK]; /* what a failed replacement may have left */
static void sput(int i, long vl) { unsigned char *v = mkbuf(vl, 40 + i, "val"); int r = put_raw(i, v, vl, 0); if (r == 0) { setval(i, v, vl); } else { vf_assert(vfs_faulted > 0, "a store fails only if a transfer failed"); failed = 1; alt[i].v = v; alt[i].n = vl; } }
static int isval(int i, FFDB_DBT *d) { ent *e = &E[i]; if (e->present && d->size == e->vlen && vf_memeq(d->data, e->v, e->vlen)) return 1; return alt[i].v && d->size == alt[i].n && vf_memeq(d->data, alt[i].v, alt[i].n); }
/* a lookup under faults: an error is fine, a wrong answer is not */
static void sget(int i) { ent *e = &E[i]; FFDB_DBT k = {e->k, e->klen}, d = {0, 0}; int before = vfs_faulted, r = D->get(D, &k, &d, 0);
  if (r == 0) { vf_assert(e->present || alt[i].v, "no pair appears from nowhere"); vf_assert(isval(i, &d), "a lookup that reports success returns the stored value although a transfer failed"); free(d.data); }
  else if (r == FFDB_NOT_FOUND) { vf_assert(!e->present, "a failed transfer does not turn into a not-found answer"); }
  else { vf_assert(vfs_faulted > 0, "a lookup fails only if a transfer failed"); failed = 1; } }
void vf_main(void) {
  params(); int n = vf_param("n", 3), more = vf_param("more", 2), kl = vf_param("kl", 60), vl = vf_param("vl", 30), vstep = vf_param("vstep", 0), hb = vf_param("hb", 1), wr = vf_param("wr", 1), maxat = vf_param("maxat", 12), gets = vf_param("gets", 1), sy = vf_param("sync", 0), old = vf_param("old", 1), ro = vf_param("ro", 0), back = vf_param("back", 0), upd = vf_param("upd", 0), ui = vf_param("ui", 0);
  unsigned char U[100]; unsigned un = ui;
  vf_allow_exit(1);
  db_create(); for (int i = 0; i < n + more + 1; i++) { mkkey(i, kl, 1); vf_assume(E[i].h < (1u << hb)); }
  for (int i = 0; i < n; i++) put_ok(i, vl + i * vstep);
  int pre = vf_param("pre", 0); if (old) { db_close(); if (!pre) db_reopen(ro ? O_RDONLY : O_RDWR); }
  vfs_reset_faults(); int at = vf_pick("at", 0, maxat); vfs_fail_mode = vf_pick("short", 0, 1); if (vf_param("pers", 0)) vfs_fail_mode |= 2; if (wr) vfs_fail_write_at = at; else vfs_fail_read_at = at;
  if (pre) { D = dbopen_(ro ? O_RDONLY : O_RDWR); if (!D) { vf_assert(vfs_faulted > 0, "opening fails only if a transfer failed"); vf_reach("open-failed"); vfs_reset_faults(); vf_allow_exit(0); db_reopen(O_RDWR); get_all(0); db_close(); return; } }
  for (int i = 0; i < n && gets; i++) sget(i); for (int i = hist_base; i < hist_id; i += 3) sget(i);
  if (!ro) for (int i = n; i < n + more; i++) sput(i, vl + i * vstep);
  if (upd) sput(vf_pick("updk", 0, n - 1), vl);
  if (ui) { for (int i = 0; i < ui; i++) U[i] = i * 3 + 1; if (ffdb_set_user_info(D, U, un) != 0) { failed = 1; un = 0; } }
  if (sy) { if (D->sync(D, 0) != 0) failed = 1; }
  if (gets) for (int i = 0; i < n + more + 1; i++) if (i < n || E[i].present || i == n + more || ro) sget(i); for (int i = hist_base; i < hist_id && gets; i += 2) sget(i);
  if (gets > 1) { ffdb_cursor_t *c; int cnt = 0, r; vf_assert(D->cursor(D, &c, FFDB_KEY_CURSOR) == 0, "cursor"); for (;;) { FFDB_DBT k = {0, 0}, d = {0, 0}; r = c->get(c, &k, &d, back ? (cnt ? FFDB_PREV : FFDB_LAST) : cnt ? FFDB_NEXT : FFDB_FIRST); if (r) break; int id = vf_conc(keyid(k.data, k.size)); vf_assert(id < NE && isval(id, &d), "a cursor step that reports success returns a stored pair"); free(k.data); free(d.data); cnt++; vf_assert(cnt <= NE, "a walk ends"); }
    if (r == FFDB_NOT_FOUND && !failed) vf_assert(cnt == nlive(), "a walk cut short by a failed transfer reports an error"); else if (r != FFDB_NOT_FOUND) failed = 1; c->close(c); }
  if (D->close(D) != 0) failed = 1;
  if (vfs_faulted) vf_reach(failed ? "hit-reported" : "hit-silent"); else vf_reach("nohit");
  vfs_reset_faults(); vf_allow_exit(0);
  if (!failed) { db_reopen(O_RDWR); get_all(0); walk(0, 1, 0); if (ui) { unsigned char B[100]; unsigned m = 100; vf_assert(ffdb_get_user_info(D, B, &m) == 0 && m == un && vf_memeq(B, U, un), "user information that was set is there"); } db_close(); vf_reach("end"); }
}
