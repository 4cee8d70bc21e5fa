/* configuration records: set as a list and one by one, with arbitrary contents, read back singly and as a list */
#include "core.h"
#define MC 32
static ffdb_config_info_t C[MC]; static int nc;
static int same(const ffdb_config_info_t *a, const ffdb_config_info_t *b) { return a->config == b->config && a->index == b->index && a->inserted == b->inserted && a->type == b->type && a->mtime == b->mtime && vf_memeq(a->fname, b->fname, sizeof a->fname); }
static void check(int one) {
  ffdb_all_config_info_t a; memset(&a, 0, sizeof a); vf_assert(ffdb_num_configs(D) == (unsigned)nc, "number of configurations"); vf_assert(ffdb_get_all_configs(D, &a) == 0 && a.numconfigs == nc, "the list of configurations is returned");
  for (int i = 0; i < nc; i++) vf_assert(same(&a.allconfigs[i], &C[i]), "each listed record is the one written");
  free(a.allconfigs);
  if (one) for (int i = 0; i < nc; i++) { ffdb_config_info_t *r = malloc(sizeof *r); vf_bytes(r, 20, "garbage"); vf_assert(ffdb_get_config(D, C[i].config, r) == 0, "a record is found by its number"); vf_assert(same(r, &C[i]), "the record found is the one written"); free(r); }
}
static void fields(ffdb_config_info_t *c) { vf_bytes(&c->inserted, 4, "inserted"); vf_bytes(&c->type, 4, "type"); vf_bytes(&c->mtime, 4, "mtime"); int e = vf_param("fnb", 4); for (int i = 0; i < 128; i++) c->fname[i] = (char)(i * 3 + c->index * 17 + vserial); vserial++; vf_bytes(c->fname, e, "fname"); vf_bytes(c->fname + 128 - e, e, "fname"); }
void vf_main(void) {
  params(); nc = vf_param("nc", 4); int n = vf_param("n", 2), ops = vf_param("ops", 2), symnum = vf_param("symnum", 0), ses = vf_param("ses", 1); G.ncfg = nc; db_create();
  for (int i = 0; i < n + 2; i++) { mkkey(i, vf_param("kl", 9), 1); vf_assume(E[i].h < (1u << vf_param("hb", 1))); } int id = 0; for (; id < n; id++) put_ok(id, 8);
  for (int i = 0; i < nc; i++) { C[i].index = i; C[i].config = 1000 + 10 * i; if (symnum) { vf_bytes(&C[i].config, 4, "number"); for (int j = 0; j < i; j++) vf_assume(C[i].config != C[j].config); } fields(&C[i]); }
  ffdb_all_config_info_t a; a.allconfigs = malloc(nc * sizeof C[0]); memcpy(a.allconfigs, C, nc * sizeof C[0]);
  a.numconfigs = nc - 1; vf_assert(ffdb_set_all_configs(D, &a) != 0, "a list of the wrong length is refused"); a.numconfigs = nc + 1; vf_assert(ffdb_set_all_configs(D, &a) != 0, "a list of the wrong length is refused");
  a.numconfigs = nc; vf_assert(ffdb_set_all_configs(D, &a) == 0, "a full list is accepted"); free(a.allconfigs); check(1);
  for (int s = 0; s < ses; s++) {
    for (int o = 0; o < ops; o++) {
      int w = vf_pick("which", 0, nc - 1), k = vf_pick("kind", 0, 4); ffdb_config_info_t *c = malloc(sizeof *c); *c = C[w]; fields(c);
      if (k == 1) { c->index = nc; } if (k == 2) { c->index = -1; } if (k == 3) { c->index = (w + 1) % nc; } if (k == 4) { c->config = 77; for (int j = 0; j < nc; j++) vf_assume(C[j].config != 77); }
      int r = ffdb_set_config(D, c);
      if (k == 0 || (k == 3 && nc == 1)) { vf_assert(r == 0, "a listed record can be rewritten"); C[w] = *c; } else vf_assert(r != 0, "an index out of range or a number not listed under that index is refused");
      free(c); check(0);
      { ffdb_config_info_t r2; memset(&r2, 0, sizeof r2); if (k == 4) vf_assert(ffdb_get_config(D, 77, &r2) != 0, "an unknown number is refused"); }
    }
    if (id < n + 2) put_ok(id++, 300); get_all(0); if (s == 0) db_sync(); check(1); db_close(); db_reopen(s & 1 ? O_RDONLY : O_RDWR); check(1); get_all(0); if (s & 1) { db_close(); db_reopen(O_RDWR); }
  }
  check(0); walk(0, 1, 0); db_close(); db_reopen(O_RDONLY); check(1); get_all(0);
  { ffdb_config_info_t *c = malloc(sizeof *c); *c = C[0]; fields(c); vf_assert(ffdb_set_config(D, c) != 0, "a read-only handle refuses to set a record"); free(c); db_close(); db_reopen(O_RDONLY); check(0); }
  db_close(); vf_reach("end");
}
