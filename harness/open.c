/* opening: files that are not databases, damaged or truncated headers, other hash functions, invalid parameters, and the open flags */
#include "fmt.h"
static unsigned char *S; static long SN;
static void snap(void) { free(S); unsigned char *p = vfs_data(FN, &SN); S = SN > 0 ? dup_(p, SN) : 0; }
static void unchanged(void) { long n; unsigned char *p = vfs_data(FN, &n); vf_assert(n == SN, "a refused open leaves the length of the file alone"); if (n > 0) vf_assert(vf_memeq(p, S, n), "a refused open leaves the bytes of the file alone"); }
static unsigned otherv; static unsigned other(const void *p, unsigned n) { const unsigned char *k = p; if (n == 12 && k[0] == 37 && k[1] == 36) return otherv; return vhash(p, n); }
static FFDB_DB *op_(const char *f, int fl, FFDB_HASHINFO *hi) { return ffdb_dbopen(f, fl, 0644, hi); }
static void refused(FFDB_DB *d, const char *m) { vf_assert(d == 0, m); unchanged(); vf_reach("refused"); }
void vf_main(void) {
  params(); int mode = vf_param("mode", 0), n = vf_param("n", 2), kl = vf_param("kl", 9), vl = vf_param("vl", 30), lo = vf_param("lo", 0), hi = vf_param("hi", 600); FFDB_HASHINFO inf; mkinfo(&inf); int fl = vf_pick("rdwr", 0, 1) ? O_RDWR : O_RDONLY; if (vf_param("creat", 0)) fl |= O_CREAT;
  for (int i = 0; i < n; i++) { mkkey(i, kl, 1); vf_assume(E[i].h < 2); }
  if (mode == 0) { /* not a database: any length, any first bytes */
    long sz = lo + vf_pick("szh", 0, (hi - lo) / 32) * 32 + vf_pick("szl", 0, 31); if (sz > hi) sz = hi; unsigned char *b = malloc(sz + 1); for (long i = 0; i < sz; i++) b[i] = i * 5; int e = sz < 332 ? sz : 332; if (e) vf_bytes(b, e, "file"); vfs_set(FN, b, sz); snap();
    if (sz >= 332) { vf_assume(be32(b) != 0xcece3434u); if (vf_param("goodcrc", 0)) { crc_init(); unsigned c = crc_(0, b, 328); for (int i = 0; i < 4; i++) b[328 + i] = c >> (24 - 8 * i); vfs_set(FN, b, sz); snap(); } }
    vf_allow_exit(1); refused(op_(FN, fl, &inf), "a file that is not a database is refused"); vf_reach("end"); return;
  }
  db_create(); for (int i = 0; i < n; i++) put_ok(i, vl); unsigned char u[4] = {1, 2, 3, 4}; ffdb_set_user_info(D, u, 4); db_close(); snap(); long full = SN; unsigned char *sv = dup_(S, SN); crc_init();
  if (mode == 1) { /* truncated inside the header pages */
    long cut = lo + vf_pick("cuth", 0, (hi - lo) / 32) * 32 + vf_pick("cutl", 0, 31); if (cut > hi) cut = hi; fmt_t F; memset(&F, 0, sizeof F); fmt_header(&F); if (cut >= (long)F.hdrpages * F.bs) cut = (long)F.hdrpages * F.bs - 1; vfs_set(FN, sv, cut); snap();
    vf_allow_exit(1); FFDB_DB *d = op_(FN, fl, &inf); refused(d, "a file truncated in its header pages is refused"); 
  } else if (mode == 2) { /* one header field altered, checksum recomputed */
    static const int off[] = {0, 4, 64}; int w = vf_pick("field", 0, 2); unsigned char *h = vfs_data(FN, &SN), x[4]; vf_bytes(x, 4, "field"); if (w == 0) vf_assume(be32(x) != 0xcece3434u); if (w == 1) vf_assume(be32(x) != 6 && be32(x) != 5); if (w == 2) vf_assume(be32(x) != be32(h + 64)); memcpy(h + off[w], x, 4); unsigned c = crc_(0, h, 328); for (int i = 0; i < 4; i++) h[328 + i] = c >> (24 - 8 * i); snap();
    refused(op_(FN, fl, &inf), "a file with a wrong magic number, version or hash function is refused"); 
  } else if (mode == 3) { /* another hash function */
    otherv = vf_u32("other"); vf_assume(otherv != 0x1234567); inf.hash = other; refused(op_(FN, fl, &inf), "another hash function is refused"); inf.hash = 0; refused(op_(FN, fl, &inf), "the default hash function is refused for a file made with another");
  } else if (mode == 4) { /* flags */
    int k = vf_pick("flag", 0, 9);
    if (k == 0) refused(op_(FN, O_RDWR | O_CREAT | O_EXCL, &inf), "exclusive creation of an existing file is refused");
    else if (k == 1) refused(op_(FN, O_WRONLY, &inf), "write-only is refused");
    else if (k == 2) refused(op_(FN, O_RDWR | O_APPEND, &inf), "an unknown flag is refused");
    else if (k == 3) { refused(op_("absent.db", fl & O_ACCMODE, &inf), "an absent file is not opened without create"); long z; vfs_data("absent.db", &z); vf_assert(z == -1, "an absent file is not created without the create flag"); }
    else if (k == 4) refused(op_(0, fl, &inf), "no file name is refused");
    else if (k == 5) { FFDB_HASHINFO b = inf; b.bsize = 16 << vf_pick("small", 0, 3); refused(op_("new.db", O_RDWR | O_CREAT, &b), "a page too small for the header is refused"); }
    else if (k == 6) { FFDB_HASHINFO b = inf; b.bsize = (0x100000 << vf_pick("big", 0, 6)) + 1; vf_allow_exit(1); FFDB_DB *d = op_("new.db", O_RDWR | O_CREAT, &b); refused(d, "a page size beyond the maximum is refused"); }
    else if (k == 7) { D = op_(FN, O_RDWR | O_TRUNC, &inf); vf_assert(D != 0, "truncating open succeeds"); for (int i = 0; i < n; i++) E[i].present = 0; get_all(0); walk(0, 1, 0); put_ok(0, 5); db_close(); db_reopen(O_RDONLY); get_all(0); walk(0, 1, 0); db_close(); vf_reach("trunc"); vf_reach("end"); return; }
    else if (k == 8) { D = op_(FN, O_RDWR | O_CREAT, &inf); vf_assert(D != 0, "an existing file is opened with the create flag"); get_all(0); db_close(); vf_reach("keep"); }
    else { FFDB_HASHINFO b = inf; b.bsize = 1024; b.nbuckets = 16; b.userinfolen = 7; b.numconfigs = 9; D = op_(FN, O_RDWR, &b); vf_assert(D != 0, "an existing file is opened with its own parameters"); get_all(0); vf_assert(ffdb_num_configs(D) == (unsigned)G.ncfg && ffdb_max_user_info_len(D) == (unsigned)G.ulen, "an existing file keeps its own parameters"); db_close(); vf_reach("own"); }
  }
  /* the intact file still serves everything */
  if (mode == 1 || mode == 2) vfs_set(FN, sv, full); db_reopen(O_RDWR); get_all(0); walk(0, 1, 0); db_close(); vf_reach("end");
}
