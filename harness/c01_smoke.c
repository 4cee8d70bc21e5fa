#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include "vf.h"
#include "ffdb_db.h"
static unsigned hv[4];
static unsigned hash(const void *p, unsigned n) { const unsigned char *k = p; if (n >= 1 && k[0] < 4) return hv[k[0]]; return 7; }
void vf_main(void) {
  FFDB_HASHINFO hi; memset(&hi, 0, sizeof hi); hi.bsize = 512; hi.nbuckets = 2; hi.cachesize = 512 * 8; hi.hash = hash; hi.userinfolen = 100; hi.numconfigs = 1;
  for (int i = 0; i < 3; i++) hv[i] = vf_u32("h");
  FFDB_DB *db = ffdb_dbopen("f.db", O_RDWR | O_CREAT, 0644, &hi); vf_assert(db != 0, "open");
  unsigned char k[3][4], d[3][8];
  for (int i = 0; i < 3; i++) { k[i][0] = i; vf_bytes(k[i] + 1, 3, "k"); vf_bytes(d[i], 8, "d");
    FFDB_DBT kk = {k[i], 4}, dd = {d[i], 8}; vf_assert(db->put(db, &kk, &dd, 0) == 0, "put"); }
  for (int i = 0; i < 3; i++) { unsigned char *b = malloc(8); FFDB_DBT kk = {k[i], 4}, dd = {b, 8}; vf_assert(db->get(db, &kk, &dd, 0) == 0, "get"); vf_assert(dd.size == 8 && vf_memeq(b, d[i], 8), "data"); vf_obs_bytes("d", b, 8); }
  vf_assert(db->close(db) == 0, "close");
  vf_reach("end");
}
