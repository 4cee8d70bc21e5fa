/* every kind of refused request, in any order, between and after stores: nothing stored changes, in this session and after reopening */
#include "core.h"
static int maxkey(void) { for (int l = G.bs; l > 0; l--) { /* largest key the library accepts, found with a NOOVERWRITE probe is intrusive: computed from the documented limit */ return G.bs - 28 - 12 - 16 - 3; } return 0; }
static void op(int kind, int nk) {
  FFDB_DBT k, d; int r, t = vf_conc(vf_range("tgt", 0, nk - 1)); ent *e = &E[t]; unsigned char *b; ffdb_cursor_t *c = 0;
  switch (kind) {
    case 0: { long n = maxkey() + 1 + vf_pick("over", 0, 3); b = malloc(n); memset(b, 7, n); b[0] = 35; k.data = b; k.size = n; d.data = "xyz"; d.size = 3; r = D->put(D, &k, &d, 0); vf_assert(r != 0, "a key that cannot fit a page is refused"); free(b); vf_reach("longkey"); break; }
    case 1: r = put_raw(t, e->v, e->vlen, 1 + vf_pick("flag", 1, 7) * 16); vf_assert(r != 0, "an unsupported store flag is refused"); vf_reach("flag"); break;
    case 2: if (e->vlen < 2) return; { long n = vf_pick("short", 1, 2) == 1 ? 1 : e->vlen - 1; b = malloc(n); memset(b, 0x77, n); k.data = e->k; k.size = e->klen; d.data = b; d.size = n; r = D->get(D, &k, &d, 0); vf_assert(r != 0 && r != FFDB_NOT_FOUND, "a lookup into a buffer that is too small reports an error"); free(b); vf_reach("small"); break; }
    case 3: { unsigned char kk[3] = {33, 1, 2}; E[33].h = vf_u32("hmiss"); vf_assume(E[33].h < 4); k.data = kk; k.size = 3; d.data = 0; d.size = 0; r = D->get(D, &k, &d, 0); vf_assert(r == FFDB_NOT_FOUND && !d.data, "a missing key is reported as not found"); vf_reach("missing"); break; }
    case 4: r = put_raw(t, e->v, e->vlen, FFDB_NOOVERWRITE); vf_assert(r != 0, "a no-overwrite store of an existing key is refused"); vf_reach("noover"); break;
    case 5: { unsigned char *v = mkbuf(e->vlen + 1, 3, "longer"); r = put_raw(t, v, e->vlen + 1, 0); free(v); vf_assert(r != 0, "a replacement longer than the stored value is refused"); vf_reach("longer"); break; }
    case 6: { unsigned char kb[2]; vf_assert(D->cursor(D, &c, FFDB_KEY_CURSOR) == 0, "a cursor can be opened"); k.data = kb; k.size = 2; d.data = 0; d.size = 0; r = c->get(c, &k, &d, FFDB_FIRST); vf_assert(r != 0, "a cursor step into a key buffer that is too small reports an error"); c->close(c); vf_reach("curkey"); break; }
    case 7: { unsigned char kb[300], db[1]; vf_assert(D->cursor(D, &c, FFDB_KEY_CURSOR) == 0, "a cursor can be opened"); k.data = kb; k.size = 300; d.data = db; d.size = 1; int big = 0; for (int i = 0; i < NE; i++) big += E[i].present && E[i].vlen <= 1; r = c->get(c, &k, &d, FFDB_FIRST); if (!big) vf_assert(r != 0, "a cursor step into a data buffer that is too small reports an error"); c->close(c); vf_reach("curdata"); break; }
    case 8: { unsigned n = 0; unsigned char u[200]; n = 2; r = ffdb_get_user_info(D, u, &n); memset(u, 3, 200); vf_assert(ffdb_set_user_info(D, u, G.ulen + 1) != 0 || G.ulen + 1 <= (int)ffdb_max_user_info_len(D), "user information longer than the maximum is refused"); vf_reach("uinfo"); break; }
    case 9: { ffdb_config_info_t ci; memset(&ci, 0, sizeof ci); ci.config = 99; ci.index = 5000; r = ffdb_set_config(D, &ci); vf_assert(r != 0, "an unknown configuration is refused"); r = D->cursor(D, &c, 77); vf_assert(r != 0, "an unknown cursor type is refused"); vf_reach("cfg"); break; }
  }
}
void vf_main(void) {
  params(); int nk = vf_param("nk", 3), ops = vf_param("ops", 2), lo = vf_param("k0", 0), hi = vf_param("k1", 9), vl = vf_param("vl", 10), kl = vf_param("kl", 6), ro = vf_param("ro", 0), hb = vf_param("hb", 1), more = vf_param("more", 1), old = vf_param("old", 0);
  db_create(); for (int i = 0; i < nk + more; i++) { mkkey(i, kl, 1); vf_assume(E[i].h < (1u << hb)); }
  for (int i = 0; i < nk; i++) put_ok(i, vl + i * (vl > 200 ? 97 : 1));
  if (old) { db_close(); db_reopen(O_RDWR); }
  for (int o = 0; o < ops; o++) op(vf_pick("kind", lo, hi), nk);
  for (int i = nk; i < nk + more; i++) put_ok(i, vl);
  get_all(0); walk(0, 1, 0); db_close(); db_reopen(ro ? O_RDONLY : O_RDWR); get_all(1); walk(1, 1, 0);
  if (ro) { for (int i = 0; i < nk; i++) { int r = put_raw(i, E[i].v, E[i].vlen, 0); vf_assert(r != 0, "a store through a read-only handle is refused"); } mkkey(nk + more, 4, 1); unsigned char z = 1; vf_assert(put_raw(nk + more, &z, 1, 0) != 0, "a store through a read-only handle is refused");
    op(vf_pick("kindro", 2, 4), nk); get_all(1); db_close(); db_reopen(O_RDWR); get_all(0); vf_reach("ro"); }
  db_close(); vf_reach("end");
}
