/* Hundreds of fixed pairs (hash values spread by "mode"), then a few with arbitrary hash values and contents, replacements, sessions; every pair is looked up and walked. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <fcntl.h>
#include "ffdb_db.h"
#include "vf.h"
#define MX 2400
static FFDB_DB *D; static int n, kl, vl, fix; static unsigned H[MX]; static unsigned char *V[MX]; static int VL[MX]; static unsigned char *mark;
static int num(const unsigned char *k, unsigned l) { return l >= 4 && k[0] == 'q' ? k[1] | k[2] << 8 : -1; }
static unsigned hash(const void *p, unsigned l) { int i = num(p, l); return i >= 0 && i < MX ? H[i] : 0x1234567; }
static int klen(int i) { return kl + i % vf_param("kstep", 1); }
static void key(int i, unsigned char *b) { int l = klen(i); for (int j = 0; j < l; j++) b[j] = (unsigned char)(j * 7 + i); b[0] = 'q'; b[1] = i & 255; b[2] = i >> 8; }
static void op(int fl) { FFDB_HASHINFO hi; memset(&hi, 0, sizeof hi); hi.bsize = vf_param("bs", 512); hi.nbuckets = vf_param("nb", 2); hi.cachesize = (unsigned long)vf_param("cache", 0) * hi.bsize; hi.rearrangepages = vf_param("rear", 0); hi.userinfolen = 100; hi.numconfigs = 1; hi.hash = hash; D = ffdb_dbopen("m.db", fl, 0644, &hi); vf_assert(D != 0, "open succeeds"); }
static void put(int i, int l, int sym) { unsigned char kb[600]; key(i, kb); unsigned char *v = malloc(l + 1); for (int j = 0; j < l; j++) v[j] = (unsigned char)(j * 3 + i * 5); if (sym) vf_bytes(v, l < 8 ? l : 8, "val"); FFDB_DBT k = {kb, (unsigned)klen(i)}, d = {v, (unsigned)l}; vf_assert(D->put(D, &k, &d, 0) == 0, "store reports success"); free(V[i]); V[i] = v; VL[i] = l; }
static void all(void) { unsigned char kb[600]; for (int i = 0; i < n; i++) { key(i, kb); FFDB_DBT k = {kb, (unsigned)klen(i)}, d = {0, 0}; vf_assert(D->get(D, &k, &d, 0) == 0 && (int)d.size == VL[i] && vf_memeq(d.data, V[i], VL[i]), "every stored value is returned"); free(d.data); }
  key(n, kb); FFDB_DBT k = {kb, (unsigned)klen(n)}, d = {0, 0}; vf_assert(D->get(D, &k, &d, 0) != 0, "a key never stored is absent"); }
static void walk(int back) { ffdb_cursor_t *c; vf_assert(D->cursor(D, &c, FFDB_KEY_CURSOR) == 0, "cursor"); memset(mark, 0, MX); unsigned char kb[600]; int cnt = 0; FFDB_DBT k = {0, 0}, d = {0, 0}; int r = c->get(c, &k, &d, back ? FFDB_LAST : FFDB_FIRST);
  while (r == 0) { int i = num(k.data, k.size); vf_assert(i >= 0 && i < n && !mark[i] && (int)k.size == klen(i), "a walk yields each stored key once"); mark[i] = 1; key(i, kb); vf_assert(vf_memeq(k.data, kb, k.size) && (int)d.size == VL[i] && vf_memeq(d.data, V[i], VL[i]), "a walk yields the stored pairs"); vf_assert(++cnt <= n, "the walk ends"); free(k.data); free(d.data); k.data = d.data = 0; k.size = d.size = 0; r = c->get(c, &k, &d, back ? FFDB_PREV : FFDB_NEXT); }
  vf_assert(r == FFDB_NOT_FOUND && cnt == n, "a walk yields every stored pair"); vf_assert(c->close(c) == 0, "cursor close"); }
void vf_main(void) {
  fix = vf_param("fix", 300); kl = vf_param("kl", 200); vl = vf_param("vl", 10); mark = malloc(MX); int mode = vf_param("mode", 0), nb = vf_param("nb", 2), per = vf_param("per", 3), ses = vf_param("ses", 0);
  if (mode == 4) for (int i = 0; i < MX; i++) H[i] = i < 2 * nb ? i % nb : i < 3 * nb ? (i + nb - 1) % nb + 2 * nb : nb + (i - 3 * nb) / 3 % nb; /* overflow pages of one level, freed by the splits of the next */
  else for (int i = 0; i < MX; i++) H[i] = mode == 0 ? (unsigned)i * 0x9e3779b1u : mode == 1 ? (unsigned)(i / per) % nb + (unsigned)(i % per) * nb : mode == 2 ? (unsigned)(i % nb) + (unsigned)(i / nb) * nb : (unsigned)(nb - 1 - i % nb) + (unsigned)(i / nb) * nb;
  op(O_RDWR | O_CREAT); for (n = 0; n < fix; ) { int i = n++; put(i, vl + i % 7, 0); if (ses && n % ses == 0) { vf_assert(D->close(D) == 0, "close"); op(O_RDWR); } }
  all(); for (int o = 0; o < vf_param("more", 1); o++) { int i = n; H[i] = vf_u32("hash"); vf_assume(H[i] < (1u << vf_param("hb", 4))); n++; put(i, 20, 1); } H[n] = vf_u32("hash"); vf_assume(H[n] < 2);
  { int w = vf_pick("replace", 0, 3); if (w) put(w == 1 ? 0 : w == 2 ? fix / 2 : fix - 1, vl, 1); } all(); walk(0); walk(1);
  vf_assert(D->close(D) == 0, "close"); op(O_RDONLY); all(); walk(1); vf_assert(D->close(D) == 0, "close"); op(O_RDWR); all(); walk(0); vf_assert(D->close(D) == 0, "close"); vf_reach("end"); vf_end();
}
