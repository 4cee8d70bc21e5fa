// C22: the store without a key type of its own (and the library's hash functions) against a reference map.
#include "cxx.hpp"
#include "ConfDataStoreDBSimple.h"
typedef ConfDataStoreDBSimple DB_;
static int n; static std::string K[8], V[8]; static bool in[8]; static std::string ui; static bool uset;
static void check(DB_ &d) {
  int live = 0; for (int i = 0; i < n; i++) { live += in[i]; StringKey k(K[i]); UserData v("junk"); int r = d.get<StringKey, UserData>(k, v);
    vf_assert(d.exist<StringKey>(k) == in[i], "a key exists exactly when a record was inserted under it"); vf_assert((r == 0) == in[i], "a lookup succeeds exactly for inserted keys");
    if (in[i]) { vf_assert(same(S(v), V[i]), "the record last inserted is returned"); vf_obs_bytes("v", V[i].data(), V[i].size() < 8 ? V[i].size() : 8); } }
  for (int m = 0; m < 2; m++) { std::vector<StringKey> ks; std::vector<UserData> vs; if (m) d.keysAndData<StringKey, UserData>(ks, vs); else d.keys<StringKey, UserData>(ks); vf_assert((int)ks.size() == live && (!m || (int)vs.size() == live), "a listing has one entry per inserted key"); bool seen[8] = {0};
    for (size_t i = 0; i < ks.size(); i++) { int id = kid(S(ks[i])); vf_assert(id >= 0 && id < n && in[id] && !seen[id], "a listing holds each inserted key once"); seen[id] = true; vf_assert(same(S(ks[i]), K[id]), "a listed key is the inserted one"); if (m) vf_assert(same(S(vs[i]), V[id]), "the record listed with a key is its own"); } }
  if (uset) { std::string u("zz"); vf_assert(d.getUserdata(u) == 0 && same(u, ui), "user data is returned unchanged"); }
}
static void setup(DB_ &d) { d.setPageSize(512); d.setNumberBuckets(vf_param("nb", 2)); d.setCacheSize(vf_param("cache", 0) * 512); d.setMaxUserInfoLen(30); d.setMaxNumberConfigs(1); if (vf_param("rear", 0)) d.enablePageMove(); }
extern "C" void vf_main(void) {
  n = vf_param("n", 2); int ops = vf_param("ops", 2), kl = vf_param("kl", 3), ses = vf_param("ses", 1); static const int L[] = {0, 7, 200, 600};
  for (int i = 0; i < n; i++) { if (i < vf_param("symk", 1)) K[i] = mkk(i, kl); else { K[i] = std::string(kl + i * 40, 'q'); K[i][0] = (char)('A' + i); } }
  vf_assert(!DB_::fileExists("s.db"), "no file yet");
  for (int s = 0; s < ses; s++) { DB_ d; setup(d); vf_assert(d.open("s.db", O_RDWR | O_CREAT, 0644) == 0, "open"); vf_assert(d.storageName() == "s.db" && DB_::fileExists("s.db"), "name"); if (s) check(d);
    for (int o = 0; o < ops; o++) { int i = vf_pick("k", 0, n - 1), li = vf_pick("len", 0, vf_param("nl", 3) - 1); std::string v = sym(L[li], "val", s * 8 + o); int r = d.insert<StringKey, UserData>(StringKey(K[i]), UserData(v)); bool ok = !in[i] || v.size() <= V[i].size(); vf_assert((r == 0) == ok, "an insertion succeeds unless the key holds a shorter record"); if (ok) { in[i] = true; V[i] = v; } }
    if (vf_param("ui", 1)) { ui = sym(12, "ui"); vf_assert(d.insertUserdata(ui) == 0, "user data is accepted"); uset = true; }
    check(d); if (vf_param("flush", 0)) d.flush(); if (vf_param("noclose", 0) == 0) vf_assert(d.close() == 0, "close"); }
  { DB_ d; setup(d); vf_assert(d.open("s.db", O_RDONLY, 0) == 0, "reopen"); check(d); vf_assert((d.insert<StringKey, UserData>(StringKey(K[0]), UserData(""))) != 0, "a read-only store refuses insertions"); check(d); vf_assert(d.close() == 0, "close"); }
  vf_reach("end"); vf_end();
}
