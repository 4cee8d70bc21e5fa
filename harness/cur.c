/* cursors interleaved with lookups and stores: nc cursors, each step any of: advance cursor c, look key up, store a further key; then complete walks */
#include "core.h"
typedef struct { ffdb_cursor_t *c; int seen[MAXK], n, ended, back, with; } cu;
static cu Q[3];
static void step(cu *q) {
  FFDB_DBT k = {0, 0}, d = {0, 0}; unsigned fl = q->back ? (q->n ? FFDB_PREV : FFDB_LAST) : (q->n ? FFDB_NEXT : FFDB_FIRST); if (q->n == 0 && vf_param("implicit", 0)) fl = q->back ? FFDB_PREV : FFDB_NEXT;
  int r = q->c->get(q->c, &k, q->with ? &d : 0, fl); if (q->ended) { vf_assert(r == FFDB_NOT_FOUND, "a finished walk keeps reporting not-found"); return; }
  if (r == FFDB_NOT_FOUND) { q->ended = 1; return; }
  vf_assert(r == 0, "a cursor step succeeds while pairs remain"); int id = vf_conc(keyid(k.data, k.size));
  vf_assert(id < NE && E[id].present && k.size == E[id].klen && vf_memeq(k.data, E[id].k, E[id].klen), "a cursor returns stored keys"); 
  if (q->with) vf_assert(d.size == E[id].vlen && vf_memeq(d.data, E[id].v, E[id].vlen), "a cursor returns the stored value");
  vf_assert(!q->seen[id], "a cursor visits each pair once"); q->seen[id] = 1; q->n++; free(k.data); free(d.data);
}
void vf_main(void) {
  params(); int n = vf_param("n", 3), kl = vf_param("kl", 200), vl = vf_param("vl", 8), nc = vf_param("nc", 1), st = vf_param("steps", 2), hb = vf_param("hb", 2), sto = vf_param("store", 0), re = vf_param("re", 0), mixed = vf_param("mixed", 0), vstep = vf_param("vstep", 0), ups = vf_param("ups", 0);
  db_create(); for (int i = 0; i < n + 2; i++) { mkkey(i, kl, 1); vf_assume(E[i].h < (1u << hb)); }
  for (int i = 0; i < n; i++) put_ok(i, vl + i * vstep);
  if (re) { db_close(); db_reopen(re == 2 ? O_RDONLY : O_RDWR); }
  for (int c = 0; c < nc; c++) { Q[c].back = mixed & (c + 1) ? 1 : 0; Q[c].with = !(mixed & 4) || c == 0; vf_assert(D->cursor(D, &Q[c].c, FFDB_KEY_CURSOR) == 0, "a cursor can be opened"); step(&Q[c]); }
  int stored = 0;
  for (int s = 0; s < st; s++) {
    int a = vf_pick("act", 0, nc + 1 + (ups ? 1 : 0));
    if (a < nc) step(&Q[a]);
    else if (a == nc) get_chk(vf_pick("get", 0, n), s & 1);
    else if (a == nc + 2) { int i = vf_pick("upd", 0, n - 1); put_ok(i, E[i].vlen); vf_reach("upd"); }
    else if (sto && stored < 2) { put_ok(n + stored, vl); stored++; vf_reach("store"); }
    else get_all(0);
  }
  if (!stored) { for (int c = 0; c < nc; c++) { for (int g = 0; g < nlive() + 2 && !Q[c].ended; g++) step(&Q[c]); vf_assert(Q[c].ended, "a walk ends"); vf_assert(Q[c].n == nlive(), "a full walk visits every stored pair"); step(&Q[c]); } }
  for (int c = 0; c < nc; c++) vf_assert(Q[c].c->close(Q[c].c) == 0, "a cursor closes");
  walk(0, 1, 0); walk(1, 0, 0); get_all(1);
  if (re != 2) { db_close(); db_reopen(O_RDONLY); get_all(0); walk(0, 1, 0); }
  db_close(); vf_reach("end");
}
