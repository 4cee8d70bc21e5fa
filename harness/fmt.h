/* An independent reader of the on-disk format, written from the layout comments of ffdb_page.h/ffdb_hash.h; works on the raw bytes of the file. */
#ifndef FMT_H
#define FMT_H
#include "core.h"
typedef struct { int bs, be; unsigned maxb, high, low, nkeys, hdrpages, uinfolen, uipage, uinp, cfpage, cfnp, ncfg, charkey, ver; unsigned spares[32]; unsigned char *f; long sz, np; } fmt_t;
static unsigned fmt_gap, fmt_gapn; /* pages [gap, gap + gapn) are a hole in the file */
static unsigned crct_[256];
static void crc_init(void) { for (unsigned i = 0; i < 256; i++) { unsigned c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; crct_[i] = c; } }
static unsigned crc_(unsigned crc, const unsigned char *p, long n) { crc = ~crc; for (long i = 0; i < n; i++) crc = crct_[(crc ^ p[i]) & 255] ^ (crc >> 8); return ~crc; }
static unsigned be32(const unsigned char *p) { return ((unsigned)p[0] << 24) | (p[1] << 16) | (p[2] << 8) | p[3]; }
static unsigned le32(const unsigned char *p) { return ((unsigned)p[3] << 24) | (p[2] << 16) | (p[1] << 8) | p[0]; }
static unsigned be16(const unsigned char *p) { return (p[0] << 8) | p[1]; }
static unsigned le16(const unsigned char *p) { return (p[1] << 8) | p[0]; }
#define P32(F, p) ((F)->be ? be32(p) : le32(p))
#define P16(F, p) ((F)->be ? be16(p) : le16(p))
static unsigned fnv_(const unsigned char *k, long n) { unsigned h = 0; for (long i = 0; i < n; i++) { h *= 16777619u; h ^= k[i]; } return h; }
static unsigned fmt_hash(const unsigned char *k, long n) { return G.defhash ? fnv_(k, n) : vhash(k, n); }
static void fmt_header(fmt_t *F) {
  crc_init(); F->f = vfs_data(FN, &F->sz); vf_assert(F->f && F->sz >= 512, "the file holds at least a header page"); unsigned char *h = F->f;
  vf_assert(be32(h) == 0xcece3434u, "header magic number (big-endian)"); F->ver = be32(h + 4); vf_assert(F->ver == 6, "format version 6"); unsigned lo = be32(h + 8); vf_assert(lo == 1234 || lo == 4321, "byte order mark"); F->be = lo == 4321;
  F->bs = be32(h + 12); vf_assert(F->bs == G.bs, "page size in the header"); vf_assert((1 << be32(h + 16)) == F->bs, "page shift in the header");
  F->maxb = be32(h + 24); F->high = be32(h + 28); F->low = be32(h + 32); F->nkeys = be32(h + 40); F->hdrpages = be32(h + 44); F->uinfolen = be32(h + 48); F->uipage = be16(h + 52); F->uinp = be16(h + 54); F->cfpage = be16(h + 56); F->cfnp = be16(h + 58); F->ncfg = be32(h + 60); F->charkey = be32(h + 64);
  for (int i = 0; i < 32; i++) F->spares[i] = be32(h + 72 + 4 * i);
  vf_assert(be32(h + 328) == crc_(0, h, 328), "header checksum"); vf_assert(F->charkey == fmt_hash((const unsigned char *)"%$sniglet^&", 12), "hash check value in the header");
  vf_assert(F->sz % F->bs == 0, "the file is a whole number of pages"); F->np = F->sz / F->bs + fmt_gapn;
  vf_assert(F->low <= F->high && F->maxb <= F->high && F->maxb >= F->low, "masks and bucket count agree");
}
static unsigned fmt_bucket(fmt_t *F, unsigned h) { unsigned b = h & F->high; if (b > F->maxb) b = h & F->low; return b; }
static unsigned fmt_log2(unsigned n) { unsigned i = 0; while ((1u << i) < n) i++; return i; }
static unsigned fmt_bpage(fmt_t *F, unsigned b) { unsigned l = fmt_log2(b + 1); return b ? b - (1u << (l - 1)) + F->spares[l] : F->spares[0]; }
/* a page by number: checks signature, number and checksum; null if it was never written */
static unsigned char *fmt_page(fmt_t *F, unsigned n) {
  if (n >= (unsigned)F->np) return 0; if (fmt_gapn && n >= fmt_gap) { vf_assert(n - fmt_gap >= fmt_gapn, "page numbers are those of pages in use"); } unsigned char *p = F->f + (long)(fmt_gapn && n >= fmt_gap ? n - fmt_gapn : n) * F->bs; unsigned s = P32(F, p + 12);
  int fresh = 1; for (int i = 0; i < 28 && fresh; i++) if ((i < 20 || i > 23) && p[i]) fresh = 0; if (fresh) return 0;
  vf_assert(s == 0xe0f1a2b9u, "page signature"); vf_assert(P32(F, p) == n, "page number stored in the page");
  vf_assert(P32(F, p + 20) == crc_(crc_(0, p, 20), p + 24, F->bs - 24), "page checksum"); return p;
}
/* value of an item: header at (page,off), n bytes; copied to out */
static void fmt_value(fmt_t *F, unsigned pg, unsigned off, long n, unsigned kpage, unsigned kidx, unsigned char *out) {
  unsigned char *p = fmt_page(F, pg); vf_assert(p != 0 && P16(F, p + 18) == 0x2001, "an item starts on a data page"); vf_assert(off >= 32 && off + 20 <= (unsigned)F->bs && off % 4 == 0, "item position"); vf_assert(P16(F, p + 16) >= 1, "a page that starts an item counts it");
  unsigned char *h = p + off; vf_assert(P32(F, h) == (unsigned)n && (P32(F, h + 4) & 0xfffff) == 0xffee && ((P32(F, h + 4) >> 20) & 255) == 0, "item header: length and state"); vf_assert(P32(F, h + 12) == kpage && P32(F, h + 16) == kidx, "item header: back reference to its key");
  /* the item is on the page's item list */ { unsigned q = P32(F, p + 28), hit = 0; for (unsigned i = 0; i < P16(F, p + 16) && q; i++) { if (q == off) hit = 1; vf_assert(q + 20 <= (unsigned)F->bs, "item list position"); q = P32(F, p + q + 8); } vf_assert(hit, "an item is on its page's item list"); }
  long done = 0; unsigned at = off + 20; while (done < n) { long c = F->bs - at; if (c > n - done) c = n - done; memcpy(out + done, p + at, c); done += c; if (done < n) { p = fmt_page(F, P32(F, p + 8)); vf_assert(p != 0 && P16(F, p + 18) == 0x2001, "an item continues on a data page"); at = 32; } }
}
static int fmt_seen[MAXK], fmt_huge = -1; /* fmt_huge: an item whose length does not fit in 32 bits; only its lengths are looked at */
static void fmt_check(fmt_t *F) {
  fmt_header(F); int n = 0; memset(fmt_seen, 0, sizeof fmt_seen); vf_assert(F->nkeys == (unsigned)nlive(), "key count in the header");
  for (unsigned b = 0; b <= F->maxb; b++) {
    unsigned pg = fmt_bpage(F, b), prev = 0xffffffffu; int len = 0; unsigned char *p;
    while ((p = fmt_page(F, pg))) {
      vf_assert(P16(F, p + 18) == 0x1001 || P16(F, p + 16) == 0, "a bucket chain consists of bucket pages"); if (P16(F, p + 18) != 0x1001) break; vf_assert(P32(F, p + 4) == prev, "back link of a bucket chain"); unsigned ne = P16(F, p + 16), floor_ = 28 + 12 * ne, top = F->bs;
      for (unsigned i = 0; i < ne; i++) {
        unsigned ko = P32(F, p + 28 + 12 * i), kl = P32(F, p + 32 + 12 * i), dof = P32(F, p + 36 + 12 * i);
        vf_assert(ko + kl <= top && dof >= floor_ && dof % 4 == 0 && dof + 16 <= ko, "key and data pointer lie in the page, below the previous pair"); top = dof;
        vf_assert(kl >= 1, "keys are not empty"); int id = vf_conc(p[ko]); vf_assert(id < NE && E[id].present, "a stored key"); vf_assert(!fmt_seen[id], "a key is stored once"); fmt_seen[id] = 1; n++;
        vf_assert(kl == E[id].klen && vf_memeq(p + ko, E[id].k, kl), "key bytes"); vf_assert(fmt_bucket(F, fmt_hash(p + ko, kl)) == b, "a key is in the bucket its hash selects");
        unsigned char *dp = p + dof; unsigned o = P32(F, dp + 4); long dl = P32(F, dp + 8) | ((long)((o >> 20) & 255) << 32); vf_assert(dl == E[id].vlen, "value length"); if (id == fmt_huge) { unsigned char *hp = fmt_page(F, P32(F, dp)); vf_assert(hp != 0, "an item starts on a data page"); hp += o & 0xfffff; vf_assert((P32(F, hp) | (long)((P32(F, hp + 4) >> 20) & 255) << 32) == dl && (P32(F, hp + 4) & 0xfffff) == 0xffee && P32(F, hp + 12) == pg && P32(F, hp + 16) == i, "item header of a huge item: full length, state, back reference"); continue; } unsigned char *v = malloc(dl);
        fmt_value(F, P32(F, dp), o & 0xfffff, dl, pg, i, v); vf_assert(vf_memeq(v, E[id].v, dl), "value bytes"); vf_assert(P32(F, dp + 12) == crc_(0, v, dl), "value checksum"); free(v);
      }
      prev = pg; pg = P32(F, p + 8); if (pg == 0xffffffffu) break; vf_assert(pg < (unsigned)F->np, "links stay in the file"); vf_assert(++len < F->np, "a bucket chain ends");
    }
  }
  vf_assert(n == nlive(), "an independent reader finds every stored pair");
}
static void fmt_uinfo(fmt_t *F, const unsigned char *u, unsigned n) {
  unsigned done = 0; for (unsigned i = 0; i < F->uinp; i++) { unsigned char *p = fmt_page(F, F->uipage + i); vf_assert(p != 0 && P16(F, p + 18) == 0x4001, "user information page"); unsigned at = 28; if (i == 0) { vf_assert(P32(F, p + 28) == n, "user information length"); at = 32; } unsigned c = F->bs - at; if (c > n - done) c = n - done; vf_assert(vf_memeq(p + at, u + done, c), "user information bytes"); done += c; } vf_assert(done == n, "user information is complete");
}
/* ---- rewriting a file as a machine of the other byte order would have written it ---- */
static void sw4(unsigned char *p) { unsigned char t = p[0]; p[0] = p[3]; p[3] = t; t = p[1]; p[1] = p[2]; p[2] = t; }
static void sw2(unsigned char *p) { unsigned char t = p[0]; p[0] = p[1]; p[1] = t; }
static void put32(fmt_t *F, unsigned char *p, unsigned v) { for (int i = 0; i < 4; i++) p[F->be ? 3 - i : i] = v >> (8 * i); }
static void fmt_foreign(void) {
  fmt_t F; memset(&F, 0, sizeof F); fmt_header(&F); unsigned char *h = F.f; fmt_t O = F; O.be = !F.be;
  h[8] = 0; h[9] = 0; h[10] = O.be ? 4321 >> 8 : 1234 >> 8; h[11] = O.be ? 4321 & 255 : 1234 & 255; unsigned c = crc_(0, h, 328); for (int i = 0; i < 4; i++) h[328 + i] = c >> (24 - 8 * i);
  for (long n = 1; n < F.np; n++) {
    unsigned char *p = fmt_page(&F, n); if (!p) continue; unsigned ne = P16(&F, p + 16), ty = P16(&F, p + 18);
    if (ty == 0x1001) for (unsigned i = 0; i < ne; i++) { unsigned d = P32(&F, p + 36 + 12 * i); for (int j = 0; j < 4; j++) sw4(p + d + 4 * j); for (int j = 0; j < 3; j++) sw4(p + 28 + 12 * i + 4 * j); }
    if (ty == 0x2001) { unsigned q = P32(&F, p + 28); sw4(p + 28); for (unsigned i = 0; i < ne; i++) { unsigned nx = P32(&F, p + q + 8); for (int j = 0; j < 5; j++) sw4(p + q + 4 * j); q = nx; } }
    if (ty == 0x4001 && n == F.uipage) sw4(p + 28);
    if (ty == 0x5001) for (unsigned i = 0; i < ne; i++) for (int j = 0; j < 5; j++) sw4(p + 28 + 148 * i + 4 * j);
    if (ty == 0x6001) for (unsigned i = 0; i < ne; i++) sw4(p + 28 + 4 * i);
    sw4(p); sw4(p + 4); sw4(p + 8); sw4(p + 12); sw2(p + 16); sw2(p + 18); sw4(p + 24); put32(&O, p + 20, crc_(crc_(0, p, 20), p + 24, F.bs - 24));
  }
}
#endif
