/* stores over one or two sessions; the file left by each is read by an independent reader of the documented format */
#include "fmt.h"
void vf_main(void) {
  params(); int n = vf_param("n", 3), kl = vf_param("kl", 9), vl = vf_param("vl", 7), vstep = vf_param("vstep", 0), hb = vf_param("hb", 1), ses = vf_param("ses", 1), ul = vf_param("ul", 11), cu = vf_param("conc", 0), per = vf_param("per", 1), rl = vf_param("rear2", -1), symb = vf_param("symbytes", 24);
  fmt_t F; memset(&F, 0, sizeof F); symmax = symb; db_create(); int id = 0;
  for (int s = 0; s < ses; s++) {
    if (s) { if (rl >= 0) G.rear = rl; db_reopen(O_RDWR); }
    int m = s ? per : n; for (int i = 0; i < m; i++, id++) { if (G.defhash && cu) { ent *e = &E[id]; e->klen = kl; e->k = malloc(kl); for (int j = 0; j < kl; j++) e->k[j] = id * 5 + j * 3 + s; e->k[0] = id; if (id >= NE) NE = id + 1; } else { mkkey(id, kl, 1); if (!G.defhash) vf_assume(E[id].h < (1u << hb)); } put_ok(id, vl + id * vstep); }
    if (s && vl > 2) put_ok(0, E[0].vlen - 2);
    unsigned char *u = mkbuf(ul, 90 + s, "uinfo"); if (ul) vf_assert(ffdb_set_user_info(D, u, ul) == 0, "user information can be set");
    db_close(); fmt_check(&F); if (ul) fmt_uinfo(&F, u, ul); free(u); vf_observe("pages", F.np); vf_reach("checked");
  }
  db_reopen(O_RDONLY); get_all(0); walk(0, 1, 0); db_close(); vf_reach("end");
}
