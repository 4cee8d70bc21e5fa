/* A long fixed history (chosen by "hs", see hist_prefix) brings the database into a large state; the operations after it are symbolic:
   new keys with arbitrary hash values, replacements, session boundaries; optionally the file is converted to the other byte order in between. */
#include "fmt.h"
static fmt_t F; static int foreign;
static void closed(void) { if (foreign > 0) { foreign--; if (!foreign) fmt_foreign(); } fmt_check(&F); if (hist_ul) fmt_uinfo(&F, hist_u, hist_ul); }
void vf_main(void) {
  params(); int kmin = vf_param("kmin", 20), kmax = vf_param("kmax", 200), vmax = vf_param("vmax", 700), sy = vf_param("sy", 2), hb = vf_param("hb", 3), kinds = vf_param("kinds", 3);
  foreign = vf_param("foreign", 0); if (vf_param("fmt", 0) || foreign) hist_closed = closed; symmax = vf_param("symmax", 24); D = dbopen_(O_RDWR | O_CREAT); vf_assert(D != 0, "creating a database succeeds"); hist_prefix(0); int id = hist_id;
  get_all(0); if (foreign) { foreign = 1; hist_session(); vf_reach("foreign"); get_all(1); walk(0, 1, 0); }
  for (int o = 0; o < sy; o++) { int k = vf_pick("kind", 0, kinds - 1);
    if (k == 0) { mkkey(id, o & 1 ? kmax : (kmin + kmax) / 2, 1); if (hb) vf_assume(E[id].h < (1u << hb)); put_ok(id, o & 1 ? vmax : 9); id++; }
    if (k == 1) { int c = vf_pick("which", 0, 2), i = c == 0 ? 0 : c == 1 ? id - 1 : id / 2; put_ok(i, vf_pick("shorter", 0, 1) ? E[i].vlen / 2 : E[i].vlen); }
    if (k == 2) hist_session(); }
  mkkey(id, kmax, 1); if (hb) vf_assume(E[id].h < (1u << hb)); /* never stored */
  get_all(0); walk(0, 1, 0); walk(1, 1, 1); hist_uichk(); db_close(); if (hist_closed) closed();
  db_reopen(O_RDONLY); get_all(1); walk(1, 1, 0); walk(0, 0, 1); hist_uichk(); db_close(); vf_assert(vfs_open_fds() == 0, "close releases the file"); vf_reach("end");
}
