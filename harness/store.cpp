// C22: the typed single-configuration store against a reference map.
#include "cxx.hpp"
#include "ConfDataStoreDB.h"
typedef ConfDataStoreDB<HK, UserData> DB_;
static int n; static std::string K[16], V[16]; static bool in[16]; static std::string ui; static bool uset;
static void check(DB_ &d) {
  int live = 0; for (int i = 0; i < n; i++) { live += in[i]; HK k(K[i]); UserData v("junk"); int r = d.get(k, v); std::string b("junk"); int rb = d.getBinary(enc(k), b);
    vf_assert(d.exist(k) == in[i], "a key exists exactly when a record was inserted under it"); vf_assert((r == 0) == in[i] && (rb == 0) == in[i], "a lookup succeeds exactly for inserted keys");
    if (in[i]) { vf_assert(same(S(v), V[i]), "the record last inserted is returned"); vf_assert(same(b, enc(UserData(V[i]))), "binary access returns the encoded record"); vf_obs_bytes("v", V[i].data(), V[i].size() < 8 ? V[i].size() : 8); } }
  for (int m = 0; m < 5; m++) { std::vector<HK> ks; std::vector<UserData> vs; std::vector<std::string> bk, bv; size_t c, cv;
    if (m == 0) { d.keys(ks); c = cv = ks.size(); } else if (m == 1) { d.keysAndData(ks, vs); c = ks.size(); cv = vs.size(); } else if (m == 2) { d.binaryKeys(bk); c = cv = bk.size(); } else if (m == 3) { d.binaryKeysAndData(bk, bv); c = bk.size(); cv = bv.size(); } else { d.stringKeysAndData(bk, vs); c = bk.size(); cv = vs.size(); }
    vf_assert((int)c == live && cv == c, "a listing has one entry per inserted key"); bool seen[16] = {0};
    for (size_t i = 0; i < c; i++) { HK k; if (m < 2) k = ks[i]; else k.readObject(bk[i]); int id = kid(S(k)); vf_assert(id >= 0 && id < n && in[id] && !seen[id], "a listing holds each inserted key once"); seen[id] = true; vf_assert(same(S(k), K[id]), "a listed key is the inserted one"); if (m >= 2) vf_assert(same(bk[i], enc(HK(K[id]))), "a listed binary key is the encoded key");
      if (m == 1 || m == 4) vf_assert(same(S(vs[i]), V[id]), "the record listed with a key is its own"); if (m == 3) vf_assert(same(bv[i], enc(UserData(V[id]))), "the binary record listed with a key is its own"); } }
  { std::vector<HK> ks; std::vector<UserData> vs; d.someKeyAndData(ks, vs); vf_assert(ks.size() == vs.size() && (int)ks.size() == (live ? 1 : 0), "some pair: at most one"); if (live) { int id = kid(S(ks[0])); vf_assert(id >= 0 && id < n && in[id] && same(S(vs[0]), V[id]), "some pair is a stored one"); } }
  if (uset) { std::string u("zz"); vf_assert(d.getUserdata(u) == 0 && same(u, ui), "user data is returned unchanged"); }
}
static void setup(DB_ &d) { d.setPageSize(512); d.setNumberBuckets(vf_param("nb", 2)); d.setCacheSize(vf_param("cache", 0) * 512); d.setMaxUserInfoLen(30); d.setMaxNumberConfigs(1); if (vf_param("rear", 0)) d.enablePageMove(); }
extern "C" void vf_main(void) {
  n = vf_param("n", 3); int ops = vf_param("ops", 3), kl = vf_param("kl", 5), hb = vf_param("hb", 1), nk = vf_param("nk", n), ses = vf_param("ses", 1); static const int L[] = {0, 7, 200, 600};
  for (int i = 0; i < n; i++) { K[i] = mkk(i, kl + i); HV[i] = vf_u32("hash"); vf_assume(HV[i] < (1u << hb)); }
  if (vf_param("closed", 0)) { DB_ d; setup(d); HK k(K[0]); UserData v("x"); std::string b; vf_assert(d.insert(k, v) != 0 && d.get(k, v) != 0 && d.getBinary("a", b) != 0 && d.insertBinary("a", "b") != 0 && d.getUserdata(b) != 0 && d.insertUserdata(b) != 0, "a store that is not open refuses requests"); vf_assert(!d.exist(k), "nothing exists in a store that is not open"); std::vector<HK> ks; d.keys(ks); vf_assert(ks.empty(), "no keys"); vf_assert(d.open("absent.db", O_RDONLY, 0644) != 0, "an absent file cannot be opened"); vf_assert(!d.exist(k), "still nothing"); }
  for (int s = 0; s < ses; s++) { DB_ d; setup(d); vf_assert(d.open("s.db", O_RDWR | O_CREAT, 0644) == 0, "open"); vf_assert(d.storageName() == "s.db", "name"); vf_assert(d.fileExists("s.db"), "file exists");
    if (s) check(d);
    for (int o = 0; o < ops; o++) { int i = vf_pick("k", 0, nk - 1), how = vf_pick("how", 0, vf_param("hows", 3) - 1), li = vf_pick("len", 0, vf_param("nl", 3) - 1); HK k(K[i]); std::string v = sym(L[li], "val", s * 8 + o); int r;
      if (how == 0) r = d.insert(k, UserData(v)); else if (how == 1) r = d.insertBinary(enc(k), enc(UserData(v))); else r = d.insertWithStringKey(enc(k), UserData(v));
      bool ok = !in[i] || v.size() <= V[i].size(); vf_assert((r == 0) == ok, "an insertion succeeds unless the key holds a shorter record"); if (ok) { in[i] = true; V[i] = v; } else vf_reach("longer refused"); }
    if (vf_param("ui", 0)) { ui = sym(12, "ui"); vf_assert(d.insertUserdata(ui) == 0, "user data is accepted"); uset = true; }
    check(d); if (vf_param("flush", 0)) d.flush(); if (vf_param("copy", 0)) { DB_ c(d); check(c); } if (vf_param("noclose", 0) == 0) vf_assert(d.close() == 0, "close"); }
  { DB_ d; setup(d); vf_assert(d.open("s.db", O_RDONLY, 0) == 0, "reopen"); check(d); HK k(K[0]); vf_assert(d.insert(k, UserData("")) != 0, "a read-only store refuses insertions"); check(d); }
  { DB_ d; setup(d); vf_assert(d.open("s.db", O_RDWR, 0) == 0, "reopen"); check(d); vf_assert(d.insertBinary(enc(HK(K[0])), "") == 0, "an empty binary record is accepted"); UserData v; vf_assert(d.get(HK(K[0]), v) != 0, "a record of another type is not decoded"); vf_assert(d.exist(HK(K[0])), "a key with an empty record exists"); std::string b("junk"); vf_assert(d.getBinary(enc(HK(K[0])), b) == 0 && b.empty(), "an empty record is returned empty"); std::vector<std::string> bk; d.binaryKeys(bk); int live = !in[0]; for (int i = 0; i < n; i++) live += in[i]; vf_assert((int)bk.size() == live, "a key with an empty record is listed"); }
  vf_reach("end"); vf_end();
}
