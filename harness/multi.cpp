// C25: stores spread over several files.
#include "cxx.hpp"
#include "ConfDataStoreMultipleDB.h"
#include "AllConfStoreMultipleDB.h"
static int n, nf, nb; static std::string K[40], V[6][40][4]; static bool in[6][40];
template <typename T> static void setup(T &d) { d.setPageSize(512); d.setNumberBuckets(2); d.setCacheSize(vf_param("cache", 0) * 512); d.setMaxUserInfoLen(20); }
extern "C" void vf_main(void) {
  n = vf_param("n", 2); nf = vf_param("nf", 2); nb = 2; int es = vf_param("es", 5), kl = vf_param("kl", 5), hb = vf_param("hb", 1), ens = vf_param("ens", 0);
  for (int i = 0; i < n; i++) { if (vf_param("conc", 0)) { K[i] = std::string(kl, 'c'); K[i][0] = (char)('A' + i); HV[i] = i * 0x9e3779b1u; continue; } K[i] = mkk(i, kl); HV[i] = vf_u32("hash"); vf_assume(HV[i] < (1u << hb)); }
  std::vector<std::string> f; std::string u[6]; for (int x = 0; x < nf; x++) f.push_back(std::string(1, 'a' + x) + ".db");
  { bool e = ens ? AllConfStoreMultipleDB<HK, UserData>().fileExists(f) : ConfDataStoreMultipleDB<HK, UserData>().fileExists(f); vf_assert(!e, "absent files do not exist"); }
  for (int x = 0; x < nf; x++) { int cnt = 0; for (int i = 0; i < n; i++) cnt += in[x][i] = i < vf_param("conc", 0) ? i % nf == x || i % 5 == 1 : vf_pick("in", 0, 1); if (ens && !cnt) { vf_assume(0); }
    if (ens) { std::vector<int> cf; for (int c = 0; c < nb; c++) cf.push_back(10 + c); AllConfStoreDB<HK, UserData> d(cf); setup(d); vf_assert(d.open(f[x], O_RDWR | O_CREAT, 0644) == 0, "open"); for (int i = 0; i < n; i++) if (in[x][i]) { std::vector<UserData> v; for (int c = 0; c < nb; c++) { V[x][i][c] = sym(es + x, "el", x * 10 + c); v.push_back(UserData(V[x][i][c])); } vf_assert(d.insert(HK(K[i]), v) == 0, "insert"); } u[x] = sym(5, "ui"); vf_assert(d.insertUserdata(u[x]) == 0, "user data"); vf_assert(d.close() == 0, "close"); }
    else { ConfDataStoreDB<HK, UserData> d; setup(d); d.setMaxNumberConfigs(1); vf_assert(d.open(f[x], O_RDWR | O_CREAT, 0644) == 0, "open"); for (int i = 0; i < n; i++) if (in[x][i]) { V[x][i][0] = sym(es + x, "el", x * 10); vf_assert(d.insert(HK(K[i]), UserData(V[x][i][0])) == 0, "insert"); } u[x] = sym(5, "ui"); vf_assert(d.insertUserdata(u[x]) == 0, "user data"); vf_assert(d.close() == 0, "close"); } }
  { bool e = ens ? AllConfStoreMultipleDB<HK, UserData>().fileExists(f) : ConfDataStoreMultipleDB<HK, UserData>().fileExists(f); vf_assert(e, "existing files exist"); std::vector<std::string> g(f); g[vf_pick("absent", 0, nf - 1)] = "no.db"; e = ens ? AllConfStoreMultipleDB<HK, UserData>().fileExists(g) : ConfDataStoreMultipleDB<HK, UserData>().fileExists(g); vf_assert(!e, "a set of files with an absent one does not exist");
    int r = ens ? AllConfStoreMultipleDB<HK, UserData>().open(g) : ConfDataStoreMultipleDB<HK, UserData>().open(g); vf_assert(r != 0, "an absent file cannot be opened"); }
  if (ens) { AllConfStoreMultipleDB<HK, UserData> m; vf_assert(m.open(f) == 0, "open all"); vf_assert(m.size() == nb, "number of configurations");
    for (int rep = 0; rep < 2; rep++) for (int i = 0; i < n; i++) { HK k(K[i]); int w = -1; for (int x = nf - 1; x >= 0; x--) if (in[x][i]) w = x; std::vector<UserData> v; int r = m.get(k, v); vf_assert(m.exist(k) == (w >= 0), "a key exists exactly when some file holds it"); vf_assert((r == 0) == (w >= 0), "a lookup fails only if no file holds the key"); if (r) { vf_reach("missing"); vf_assert(v.empty(), "a failed lookup returns nothing"); continue; } vf_assert((int)v.size() == nb, "one element per configuration"); for (int c = 0; c < nb; c++) { vf_assert(same(S(v[c]), V[w][i][c]), "the first file that holds the key answers"); vf_obs_bytes("v", V[w][i][c].data(), 4); } }
    std::string s; vf_assert(m.getUserdata(s) == 0 && same(s, u[0]), "user data of the first file"); vf_assert(m.close() == 0, "close all"); }
  else { ConfDataStoreMultipleDB<HK, UserData> m; vf_assert(m.open(f) == 0, "open all"); int tot = 0; for (int x = 0; x < nf; x++) for (int i = 0; i < n; i++) tot += in[x][i];
    for (int i = 0; i < n; i++) { HK k(K[i]); int w = -1; for (int x = nf - 1; x >= 0; x--) if (in[x][i]) w = x; UserData v("zz"); std::string b("zz"); int r = m.get(k, v), rb = m.getBinary(enc(k), b); vf_assert(m.exist(k) == (w >= 0), "a key exists exactly when some file holds it"); vf_assert((r == 0) == (w >= 0) && (rb == 0) == (w >= 0), "a lookup fails only if no file holds the key"); if (r) { vf_reach("missing"); continue; } vf_assert(same(S(v), V[w][i][0]) && same(b, enc(UserData(V[w][i][0]))), "the first file that holds the key answers"); vf_obs_bytes("v", V[w][i][0].data(), 4); }
    std::vector<HK> ks; m.keys(ks); vf_assert((int)ks.size() == tot, "the listing holds every file's keys"); int c[40] = {0}; for (size_t q = 0; q < ks.size(); q++) { int id = kid(S(ks[q])); vf_assert(id >= 0 && id < n && same(S(ks[q]), K[id]), "a listed key is a stored one"); c[id]++; } for (int i = 0; i < n; i++) { int h = 0; for (int x = 0; x < nf; x++) h += in[x][i]; vf_assert(c[i] == h, "each file's keys are listed"); }
    std::string s; vf_assert(m.getUserdata(s) == 0 && same(s, u[0]), "user data of the first file"); vf_assert(m.close() == 0, "close all"); }
  { ConfDataStoreMultipleDB<HK, UserData> e; HK k(K[0]); UserData v; std::string s; vf_assert(e.get(k, v) != 0 && e.getBinary("a", s) != 0 && !e.exist(k) && e.getUserdata(s) != 0, "a store without files holds nothing"); }
  vf_reach("end"); vf_end();
}
