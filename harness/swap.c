/* a file written by the library is rewritten as a machine of the other byte order would have written it; it must read identically, also while and after being modified */
#include "fmt.h"
static unsigned char *ui; static int ul;
static void ucheck(void) { if (!ul) return; unsigned char *o = malloc(ul + 4); unsigned m = ul + 4; vf_assert(ffdb_get_user_info(D, o, &m) == 0 && m == ul && vf_memeq(o, ui, ul), "user information is returned unchanged"); free(o); }
static ffdb_config_info_t CF[4]; static int nc;
static void ccheck(void) { if (!nc) return; ffdb_all_config_info_t a; a.numconfigs = nc; a.allconfigs = malloc(nc * sizeof(ffdb_config_info_t)); vf_assert(ffdb_get_all_configs(D, &a) == 0 && a.numconfigs == nc, "all configuration records are returned"); for (int i = 0; i < nc; i++) vf_assert(vf_memeq(&a.allconfigs[i], &CF[i], sizeof CF[i]), "a configuration record is returned unchanged"); free(a.allconfigs); }
void vf_main(void) {
  params(); int n = vf_param("n", 3), more = vf_param("more", 2), kl = vf_param("kl", 9), vl = vf_param("vl", 7), vstep = vf_param("vstep", 0), hb = vf_param("hb", 1), ses = vf_param("ses", 2), sy = vf_param("sync", 0), rl = vf_param("rear2", -1); ul = vf_param("ul", 11); nc = vf_param("nc", 2); symmax = vf_param("symbytes", 24);
  if (G.ulen < ul) G.ulen = ul; G.ncfg = nc; db_create(); int id = 0;
  for (int i = 0; i < n + more * ses + 1; i++) { mkkey(i, kl, 1); vf_assume(E[i].h < (1u << hb)); }
  for (int i = 0; i < n; i++, id++) put_ok(id, vl + id * vstep);
  ui = mkbuf(ul, 91, "uinfo"); if (ul) vf_assert(ffdb_set_user_info(D, ui, ul) == 0, "user information can be set");
  if (nc) { ffdb_all_config_info_t a; for (int i = 0; i < nc; i++) { memset(&CF[i], 0, sizeof CF[i]); CF[i].config = 100 + i; CF[i].index = i; CF[i].inserted = 1; vf_bytes(&CF[i].type, 4, "ctype"); vf_bytes(&CF[i].mtime, 4, "cmtime"); vf_bytes(CF[i].fname, 3, "cname"); } a.numconfigs = nc; a.allconfigs = CF; vf_assert(ffdb_set_all_configs(D, &a) == 0, "configurations can be set"); }
  db_close(); fmt_foreign(); fmt_t F; memset(&F, 0, sizeof F); fmt_check(&F); vf_reach("foreign");
  db_reopen(O_RDONLY); get_all(0); walk(0, 1, 0); walk(1, 1, 0); ucheck(); ccheck(); db_close();
  for (int s = 0; s < ses; s++) {
    if (rl >= 0) G.rear = rl; db_reopen(O_RDWR); get_all(1); ucheck(); ccheck();
    for (int i = 0; i < more; i++, id++) { put_ok(id, vl + id * vstep); if (sy) { db_sync(); get_all(0); } }
    put_ok(s, E[s].vlen); get_all(0); walk(0, 1, 0); if (ul > 1 && s == 0) { ui[0] ^= 1; vf_assert(ffdb_set_user_info(D, ui, ul) == 0, "user information can be set"); }
    if (nc && s == 0) { CF[0].mtime ^= 5; vf_assert(ffdb_set_config(D, &CF[0]) == 0, "a configuration can be set"); }
    ucheck(); ccheck(); db_close(); fmt_check(&F); vf_assert(F.be, "a file keeps its byte order");
  }
  db_reopen(O_RDWR); get_all(0); walk(0, 1, 0); ucheck(); ccheck(); db_close(); vf_reach("end");
}
