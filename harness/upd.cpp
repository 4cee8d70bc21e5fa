// C23: an ensemble store filled configuration by configuration through update (records of fixed size with a default).
#include "cxx.hpp"
#include "AllConfStoreDB.h"
struct FD : public DBData { unsigned v; FD() : v(0x11223344) {} FD(unsigned x) : v(x) {} unsigned short serialID(void) const { return 77; } void writeObject(std::string &o) const { o.assign((const char *)&v, 4); } void readObject(const std::string &i) { if (i.size() != 4) throw SerializeException("FD", "size"); memcpy(&v, i.data(), 4); } };
typedef AllConfStoreDB<HK, FD> DB_;
static int n, nb; static std::string K[8]; static unsigned V[8][8]; static bool in[8];
static void check(DB_ &d) {
  int live = 0; for (int i = 0; i < n; i++) { live += in[i]; std::vector<FD> v; int r = d.get(HK(K[i]), v); vf_assert((r == 0) == in[i] && d.exist(HK(K[i])) == in[i], "a lookup succeeds exactly for stored keys"); if (r) continue; vf_assert((int)v.size() == nb, "one element per configuration"); for (int c = 0; c < nb; c++) { vf_assert(v[c].v == V[i][c], "each configuration's record stays with its configuration"); vf_obs_bytes("v", &v[c].v, 4); } }
  std::vector<HK> ks; std::vector<std::vector<FD>> vs; d.keysAndData(ks, vs); vf_assert((int)ks.size() == live && (int)vs.size() == live, "a listing has one entry per key"); bool seen[8] = {0}; for (size_t q = 0; q < ks.size(); q++) { int id = kid(S(ks[q])); vf_assert(id >= 0 && id < n && in[id] && !seen[id], "each key is listed once"); seen[id] = true; vf_assert((int)vs[q].size() == nb, "elements"); for (int c = 0; c < nb; c++) vf_assert(vs[q][c].v == V[id][c], "the records listed with a key are its own"); }
}
static void setup(DB_ &d) { d.setPageSize(512); d.setNumberBuckets(2); d.setCacheSize(vf_param("cache", 0) * 512); d.setMaxUserInfoLen(10); if (vf_param("rear", 0)) d.enablePageMove(); }
extern "C" void vf_main(void) {
  n = vf_param("n", 2); nb = vf_param("nb", 3); int ops = vf_param("ops", 3), kl = vf_param("kl", 5), hb = vf_param("hb", 1), ses = vf_param("ses", 1);
  for (int i = 0; i < n; i++) { K[i] = mkk(i, kl + i); HV[i] = vf_u32("hash"); vf_assume(HV[i] < (1u << hb)); }
  std::vector<int> cf; for (int c = 0; c < nb; c++) cf.push_back(100 + 7 * c); int total = 0;
  for (int s = 0; s < ses; s++) { bool emp = !total; DB_ d(cf); setup(d); vf_assert(d.open("e.db", O_RDWR | O_CREAT, 0644) == 0, "open"); if (s) check(d);
    for (int o = 0; o < ops; o++) { int what = vf_pick("what", 0, vf_param("whats", 3) - 1), i = vf_pick("k", 0, n - 1);
      if (what == 0) { int x = vf_pick("at", 0, nb - 1); FD v(vf_u32("el")); int r = d.update(HK(K[i]), v, cf[x], x); if (in[i]) { vf_assert(r == 0, "an update of a stored key is accepted"); V[i][x] = v.v; vf_reach("update"); } else if (emp) { vf_assert(r == 0, "the first update of a key of a new ensemble is accepted"); in[i] = true; total++; for (int c = 0; c < nb; c++) V[i][c] = FD().v; V[i][x] = v.v; vf_reach("first"); } else { vf_assert(r != 0, "an update of a missing key of an existing ensemble is refused"); vf_reach("refused"); } }
      else if (what == 1) { emp = false; d.updateDone(); }
      else { std::vector<FD> v; for (int c = 0; c < nb; c++) { unsigned x = vf_u32("el"); V[i][c] = x; v.push_back(FD(x)); } vf_assert(d.insert(HK(K[i]), v) == 0, "insert"); in[i] = true; total++; } }
    check(d); vf_assert(d.close() == 0, "close"); if (!total) vf_end(); }
  { DB_ d; setup(d); vf_assert(d.open("e.db", O_RDONLY, 0) == 0, "reopen"); check(d); }
  vf_reach("end"); vf_end();
}
