// C22, C23: stores with many keys; listings, iterators and lookups see every one of them.
#include "cxx.hpp"
#include "ConfDataStoreDB.h"
#include "AllConfStoreDB.h"
typedef ConfDataStoreDB<StringKey, UserData> DB1; typedef AllConfStoreDB<StringKey, UserData> DBN;
static int n, nb, hot; static std::string hv[8]; static bool seen[512];
static std::string key(int i) { char b[8]; b[0] = 'k'; b[1] = '0' + i / 100; b[2] = '0' + i / 10 % 10; b[3] = '0' + i % 10; b[4] = 0; return std::string(b) + std::string(vf_param("kl", 10) + i % 3, 'x'); }
static int num(const std::string &s) { vf_assert(s.size() > 4 && s[0] == 'k', "a listed key is a stored one"); int i = (s[1] - '0') * 100 + (s[2] - '0') * 10 + s[3] - '0'; vf_assert(i >= 0 && i < n && same(s, key(i)), "a listed key is a stored one"); vf_assert(!seen[i], "a key is listed once"); seen[i] = true; return i; }
static std::string val(int i, int c) { if (i == hot) return hv[c]; std::string v(vf_param("vl", 30), 'a' + i % 26); v[0] = (char)('0' + c); v[1] = (char)(33 + i % 90); return v; }
static void zero() { for (int i = 0; i < 512; i++) seen[i] = false; }
static void check1(DB1 &d) {
  for (int i = 0; i < n; i++) { UserData v; vf_assert(d.exist(StringKey(key(i))) && d.get(StringKey(key(i)), v) == 0 && same(S(v), val(i, 0)), "every record is returned"); }
  { UserData v; vf_assert(!d.exist(StringKey(key(n))) && d.get(StringKey(key(n)), v) != 0, "a key never inserted is absent"); }
  for (int m = 0; m < 5; m++) { zero(); std::vector<StringKey> ks; std::vector<UserData> vs; std::vector<std::string> bk, bv; size_t c, cv;
    if (m == 0) { d.keys(ks); c = cv = ks.size(); } else if (m == 1) { d.keysAndData(ks, vs); c = ks.size(); cv = vs.size(); } else if (m == 2) { d.binaryKeys(bk); c = cv = bk.size(); } else if (m == 3) { d.binaryKeysAndData(bk, bv); c = bk.size(); cv = bv.size(); } else { d.stringKeysAndData(bk, vs); c = bk.size(); cv = vs.size(); }
    vf_assert((int)c == n && cv == c, "a listing has one entry per inserted key");
    for (size_t i = 0; i < c; i++) { StringKey k; if (m < 2) k = ks[i]; else k.readObject(bk[i]); int id = num(S(k)); if (m == 1 || m == 4) vf_assert(same(S(vs[i]), val(id, 0)), "the record listed with a key is its own"); if (m == 3) vf_assert(same(bv[i], enc(UserData(val(id, 0)))), "the binary record listed with a key is its own"); } }
}
static void checkN(DBN &d) {
  for (int i = 0; i < n; i++) { std::vector<UserData> v; vf_assert(d.exist(StringKey(key(i))) && d.get(StringKey(key(i)), v) == 0 && (int)v.size() == nb, "every vector is returned"); for (int c = 0; c < nb; c++) vf_assert(same(S(v[c]), val(i, c)), "each configuration's record stays with its configuration"); }
  for (int m = 0; m < 2; m++) { zero(); std::vector<StringKey> ks; std::vector<std::string> bk; std::vector<std::vector<UserData>> vs; if (m) d.keysAndData(ks, vs); else d.stringKeysAndData(bk, vs); size_t c = m ? ks.size() : bk.size(); vf_assert((int)c == n && vs.size() == c, "a listing has one entry per key");
    for (size_t i = 0; i < c; i++) { StringKey k; if (m) k = ks[i]; else k.readObject(bk[i]); int id = num(S(k)); vf_assert((int)vs[i].size() == nb, "elements"); for (int q = 0; q < nb; q++) vf_assert(same(S(vs[i][q]), val(id, q)), "the records listed with a key are its own"); } }
  { zero(); int c = 0; for (DBN::key_iterator it = d.begin(); it != d.end(); it++) { StringKey k = *it; num(S(k)); vf_assert(++c <= n, "the iterator ends"); } vf_assert(c == n, "the iterator visits every key"); }
}
template <class D> static void setup(D &d) { d.setPageSize(vf_param("bs", 512)); d.setNumberBuckets(vf_param("nbk", 2)); d.setCacheSize(vf_param("cache", 0) * 512); d.setMaxUserInfoLen(30); if (vf_param("rear", 0)) d.enablePageMove(); }
extern "C" void vf_main(void) {
  n = vf_param("n", 100); nb = vf_param("nb", 0); hot = -1; int vl = vf_param("vl", 30); int at = vf_pick("hot", 0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  std::vector<int> cf; std::vector<std::string> nm; for (int c = 0; c < nb; c++) { cf.push_back(100 + c); nm.push_back("f"); }
  for (int s = 0; s < 2; s++) {
    if (!nb) { DB1 d; setup(d); d.setMaxNumberConfigs(1); vf_assert(d.open("b.db", O_RDWR | O_CREAT, 0644) == 0, "open"); if (!s) for (int i = 0; i < n; i++) vf_assert(d.insert(StringKey(key(i)), UserData(val(i, 0))) == 0, "insert"); else { check1(d); hv[0] = sym(vl, "new"); hot = at; vf_assert(d.insert(StringKey(key(at)), UserData(hv[0])) == 0, "replace"); } check1(d); vf_assert(d.close() == 0, "close"); }
    else { DBN d = s ? DBN() : DBN(cf, nm); setup(d); vf_assert(d.open("b.db", s ? O_RDWR : O_RDWR | O_CREAT, 0644) == 0, "open"); if (!s) for (int i = 0; i < n; i++) { std::vector<UserData> v; for (int c = 0; c < nb; c++) v.push_back(UserData(val(i, c))); vf_assert(d.insert(StringKey(key(i)), v) == 0, "insert"); } else { checkN(d); int x = vf_pick("cfg", 0, nb - 1); for (int c = 0; c < nb; c++) hv[c] = val(at, c); hv[x] = sym(vl, "new"); vf_assert(d.update(StringKey(key(at)), UserData(hv[x]), cf[x], x) == 0, "update"); hot = at; } checkN(d); vf_assert(d.close() == 0, "close"); } }
  vf_reach("end"); vf_end();
}
