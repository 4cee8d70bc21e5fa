/* threads on one open database: lookups, walks and (w>0) stores; afterwards everything is compared with the reference map */
#include "core.h"
#include <pthread.h>
static int W, nk, per, wk, nt, own, strict; static int done[4];
/* store: thread t owns keys nk+t*per .. ; a lookup of another thread's key may see it or not */
static void tget(int i, int stable) {
  unsigned char *kb = dup_(E[i].k, E[i].klen); FFDB_DBT k = {kb, E[i].klen}, d = {0, 0}; int r = D->get(D, &k, &d, 0);
  if (stable && (strict || !W)) vf_assert(r == 0, "a lookup of a stored key succeeds in every interleaving"); else vf_assert(r == 0 || r == FFDB_NOT_FOUND, "a concurrent lookup finds the key or reports not-found");
  if (r == 0) vf_assert(d.size == E[i].vlen && vf_memeq(d.data, E[i].v, E[i].vlen), "a concurrent lookup returns the value stored under that key"); free(d.data); free(kb);
}
static void *body(void *a) {
  int t = (int)(long)a;
  if (t < W) for (int j = 0; j < per; j++) { int i = nk + t * per + j; int r = put_raw(i, E[i].v, E[i].vlen, 0); vf_assert(r == 0, "a concurrent store succeeds"); tget(i, 1); }
  else if (wk && t == nt - 1) { ffdb_cursor_t *c; int seen[MAXK] = {0}, n = 0; vf_assert(D->cursor(D, &c, FFDB_KEY_CURSOR) == 0, "a cursor can be opened");
    for (;;) { FFDB_DBT k = {0, 0}, d = {0, 0}; int r = c->get(c, &k, wk == 2 ? 0 : &d, n ? FFDB_NEXT : FFDB_FIRST); if (r == FFDB_NOT_FOUND) break; vf_assert(r == 0, "a cursor step succeeds"); int id = vf_conc(keyid(k.data, k.size)); vf_assert(id < NE && E[id].v && k.size == E[id].klen && vf_memeq(k.data, E[id].k, E[id].klen), "a concurrent walk returns stored keys"); vf_assert(!seen[id], "a concurrent walk visits a pair once"); seen[id] = 1; if (wk != 2) vf_assert(d.size == E[id].vlen && vf_memeq(d.data, E[id].v, E[id].vlen), "a concurrent walk returns the stored value"); n++; free(k.data); free(d.data); }
    if (!W) vf_assert(n == nlive(), "a concurrent walk visits every pair"); vf_assert(c->close(c) == 0, "a cursor closes"); }
  else { for (int i = 0; i < nk; i++) tget((i + t) % nk, 1); for (int i = hist_base; i < hist_id; i++) if ((i + t) % 3 == 0) tget(i, 1); if (W) tget(nk, 0); }
  done[t] = 1; return 0;
}
void vf_main(void) {
  params(); strict = vf_param("strict", 0); nt = vf_param("nt", 2); W = vf_param("w", 0); nk = vf_param("n", 2); per = vf_param("per", 1); wk = vf_param("wk", 0); int kl = vf_param("kl", 9), vl = vf_param("vl", 20), hb = vf_param("hb", 1), ro = vf_param("ro", 0), re = vf_param("re", 1), vstep = vf_param("vstep", 0), par = vf_param("main", 0), fh = vf_param("fh", -1); symmax = vf_param("symbytes", 12);
  db_create(); int tot = nk + W * per; for (int i = 0; i < tot; i++) { mkkey(i, kl, fh < 0); if (fh < 0) vf_assume(E[i].h < (1u << hb)); else E[i].h = fh == 0 ? 0 : i % fh; }
  for (int i = 0; i < nk; i++) put_ok(i, vl + i * vstep); for (int i = nk; i < tot; i++) { E[i].vlen = vl + i * vstep; E[i].v = mkbuf(E[i].vlen, 60 + i, "tval"); }
  if (re) { db_close(); db_reopen(ro ? O_RDONLY : O_RDWR); }
  pthread_t p[4]; for (int t = 0; t < nt - par; t++) vf_assert(pthread_create(&p[t], 0, body, (void *)(long)t) == 0, "thread"); if (par) body((void *)(long)(nt - 1));
  for (int t = 0; t < nt - par; t++) pthread_join(p[t], 0); for (int t = 0; t < nt; t++) vf_assert(done[t], "every thread finishes");
  for (int i = nk; i < tot; i++) E[i].present = 1; get_all(0); walk(0, 1, 0); db_close(); db_reopen(O_RDWR); get_all(1); walk(1, 1, 0); db_close(); vf_reach("end");
}
