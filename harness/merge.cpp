// C24: merging single-configuration files into an ensemble store.
#include "cxx.hpp"
#include "ConfDataDBMerger.h"
typedef ConfDataStoreDB<HK, UserData> SDB; typedef AllConfStoreDB<HK, UserData> ADB;
static int n, nb, ne; static std::string K[40], V[40][8], nm[8]; static bool na[8];
template <typename T> static void setup(T &d) { d.setPageSize(512); d.setNumberBuckets(vf_param("nbk", 2)); d.setCacheSize(0); d.setMaxUserInfoLen(10); }
static void check(ADB &d) {
  vf_assert(d.size() == nb, "number of configurations"); bool anyna = false; for (int c = 0; c < nb; c++) anyna |= na[c];
  for (int i = 0; i < n; i++) { HK k(K[i]); std::vector<std::string> b; vf_assert(d.exist(k) && d.getBinaryData(enc(k), b) == 0 && (int)b.size() == nb, "every key of the files is in the ensemble");
    for (int c = 0; c < nb; c++) if (!na[c]) { vf_assert(same(b[c], enc(UserData(V[i][c]))), "each configuration's record is in its slot under its key"); vf_obs_bytes("v", V[i][c].data(), 4); }
    if (!anyna) { std::vector<UserData> v; vf_assert(d.get(k, v) == 0 && (int)v.size() == nb, "typed access"); for (int c = 0; c < nb; c++) vf_assert(same(S(v[c]), V[i][c]), "typed access returns each configuration's record"); } }
  std::vector<std::string> bk, bv; d.binaryKeysAndData(bk, bv); vf_assert((int)bk.size() == n, "the ensemble holds no further keys");
  std::vector<ConfigInfo> ci; vf_assert(d.getAllConfigInfo(ci) == 0 && (int)ci.size() == nb, "the configuration list"); for (int c = 0; c < nb; c++) { vf_assert(ci[c].configNumber() == 50 + 3 * c && ci[c].index() == c, "configuration numbers and positions"); vf_assert(!!ci[c].inserted() == !na[c], "exactly the merged configurations are marked inserted"); if (!na[c]) vf_assert(ci[c].urlname() == nm[c], "the file of a merged configuration is recorded"); }
}
extern "C" void vf_main(void) {
  n = vf_param("n", 3); nb = vf_param("nb", 3); int es = vf_param("es", 5), kl = vf_param("kl", 5), hb = vf_param("hb", 1); ne = vf_param("ne", 0);
  for (int i = 0; i < n; i++) { if (vf_param("conc", 0)) { K[i] = std::string(kl, 'c'); K[i][0] = (char)('A' + i); HV[i] = i * 0x9e3779b1u; continue; } K[i] = mkk(i, kl); HV[i] = vf_u32("hash"); vf_assume(HV[i] < (1u << hb)); }
  std::vector<int> cf; std::vector<std::string> names; int some = 0; for (int c = 0; c < nb; c++) { na[c] = vf_param("na", 1) && vf_pick("na", 0, 1); some += !na[c]; nm[c] = std::string(1, 'a' + c) + ".db"; cf.push_back(50 + 3 * c); names.push_back(na[c] ? "N/A" : nm[c]); }
  vf_assume(some > 0);
  for (int c = 0; c < nb; c++) if (!na[c]) { SDB s; setup(s); s.setMaxNumberConfigs(1); vf_assert(s.open(nm[c], O_RDWR | O_CREAT, 0644) == 0, "open"); int rev = vf_param("perm", 1) && vf_pick("rev", 0, 1); for (int q = 0; q < n; q++) { int i = rev ? n - 1 - q : q; V[i][c] = sym(es, "el", c * 10 + i); vf_assert(s.insert(HK(K[i]), UserData(V[i][c])) == 0, "insert"); } vf_assert(s.close() == 0, "close"); }
  unsigned one = (4 + kl + 4 + es + 8) * nb; unsigned mem = vf_param("mem", -1); if (vf_param("mem", -1) == -1) { mem = vf_u32("memlimit"); if (vf_param("lim", 0)) vf_assume(mem < one * vf_param("lim", 0)); }
  int ctor = vf_pick("constructor", 0, vf_param("ctors", 2) - 1); std::vector<ConfigInfo> infos; for (int c = 0; c < nb; c++) { ConfigInfo x; x.configNumber(cf[c]); x.index(c); if (!na[c]) x.urlname(nm[c]); infos.push_back(x); }
  { ADB d = vf_param("dn", 0) ? ADB(cf, names) : ADB(cf); setup(d); vf_assert(d.open("all.db", O_RDWR | O_CREAT, 0644) == 0, "open"); if (ctor) { ConfDataDBMerger<HK, UserData> m(infos, mem); m.setDatabaseHandle(&d); m.merge(); } else { ConfDataDBMerger<HK, UserData> m(cf, names, mem); m.setDatabaseHandle(&d); m.merge(); } check(d); vf_assert(d.close() == 0, "close"); }
  { ADB d; setup(d); vf_assert(d.open("all.db", O_RDONLY, 0) == 0, "reopen"); check(d); }
  vf_reach("end"); vf_end();
}
