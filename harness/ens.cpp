// C23: an ensemble store keeps each configuration's record with its configuration.
#include "cxx.hpp"
#include "AllConfStoreDB.h"
typedef AllConfStoreDB<HK, UserData> DB_;
static int n, nb, cn[8], es; static std::string K[8], V[8][8], F[8]; static bool in[8]; static int ins[8], ty[8], mt[8];
static void check(DB_ &d) {
  int live = 0; vf_assert(d.size() == nb, "number of configurations");
  for (int i = 0; i < n; i++) { live += in[i]; HK k(K[i]); 
    for (int m = 0; m < 3; m++) { std::vector<UserData> v; std::vector<std::string> b; int r = m == 0 ? d.get(k, v) : m == 1 ? d.getFromStringKey(enc(k), v) : d.getBinaryData(enc(k), b);
      vf_assert((r == 0) == in[i], "a lookup succeeds exactly for inserted keys"); if (r) continue; vf_assert((int)(m < 2 ? v.size() : b.size()) == nb, "one element per configuration is returned");
      for (int c = 0; c < nb; c++) { vf_assert(m < 2 ? same(S(v[c]), V[i][c]) : same(b[c], enc(UserData(V[i][c]))), "each configuration's record stays with its configuration"); if (m == 0) vf_obs_bytes("v", V[i][c].data(), V[i][c].size() < 4 ? V[i][c].size() : 4); } }
    vf_assert(d.exist(k) == in[i], "exist"); }
  for (int m = 0; m < 2; m++) { std::vector<HK> ks; std::vector<std::string> bk; std::vector<std::vector<UserData>> vs; if (m) d.keysAndData(ks, vs); else d.stringKeysAndData(bk, vs); size_t c = m ? ks.size() : bk.size(); vf_assert((int)c == live && vs.size() == c, "a listing has one entry per key"); bool seen[8] = {0};
    for (size_t i = 0; i < c; i++) { HK k; if (m) k = ks[i]; else k.readObject(bk[i]); int id = kid(S(k)); vf_assert(id >= 0 && id < n && in[id] && !seen[id], "each key is listed once"); seen[id] = true; vf_assert((int)vs[i].size() == nb, "elements"); for (int q = 0; q < nb; q++) vf_assert(same(S(vs[i][q]), V[id][q]), "the records listed with a key are its own"); } }
  { int c = 0; bool seen[8] = {0}; for (DB_::key_iterator it = d.begin(); it != d.end(); it++) { HK k = *it; int id = kid(S(k)); vf_assert(id >= 0 && id < n && in[id] && !seen[id], "the iterator visits each key once"); seen[id] = true; vf_assert(++c <= live, "the iterator ends"); } vf_assert(c == live, "the iterator visits every key"); }
  { std::vector<ConfigInfo> ci; vf_assert(d.getAllConfigInfo(ci) == 0 && (int)ci.size() == nb, "the configuration list"); for (int c = 0; c < nb; c++) for (int m = 0; m < 2; m++) { ConfigInfo x; if (m) { vf_assert(d.getConfigInfo(cn[c], x) == 0, "a configuration's information"); } else x = ci[c]; vf_assert(x.configNumber() == cn[c] && x.index() == c && x.inserted() == ins[c] && x.type() == ty[c] && x.modifiedTime() == mt[c] && same(x.urlname(), F[c]), "configuration information is returned unchanged"); } }
}
static void setup(DB_ &d) { d.setPageSize(vf_param("bs", 512)); d.setNumberBuckets(vf_param("nbk", 2)); d.setCacheSize(vf_param("cache", 0) * 512); d.setMaxUserInfoLen(10); if (vf_param("rear", 0)) d.enablePageMove(); }
static std::vector<UserData> vec(std::string *o, int cnt, int len, int salt) { std::vector<UserData> v; for (int c = 0; c < cnt; c++) { o[c] = sym(len, "el", salt + c); v.push_back(UserData(o[c])); } return v; }
static void op(DB_ &d, int s, int o) {
  int what = vf_pick("what", vf_param("w0", 0), vf_param("w1", 8)), i = vf_pick("k", 0, vf_param("nk", n) - 1); HK k(K[i]); std::string t[10];
  if (what <= 1) { std::vector<UserData> v = vec(t, nb, es, s * 40 + o * 10); int r = what == 0 ? d.insert(k, v) : d.insertWithStringKey(enc(k), v); vf_assert(r == 0, "a vector of the right shape is accepted"); in[i] = true; for (int c = 0; c < nb; c++) V[i][c] = t[c]; }
  else if (what == 2) { std::vector<std::string> b; for (int c = 0; c < nb; c++) { t[c] = sym(es, "el", c); b.push_back(enc(UserData(t[c]))); } vf_assert(d.insertBinaryData(enc(k), b) == 0, "binary insertion"); in[i] = true; for (int c = 0; c < nb; c++) V[i][c] = t[c]; }
  else if (what == 3 && in[i]) { int x = vf_pick("at", 0, nb - 1); std::string v = sym(es, "upd"); vf_assert(d.update(k, UserData(v), cn[x], x) == 0, "an update of a stored key is accepted"); V[i][x] = v; vf_reach("update"); }
  else if (what == 4) { int x = vf_pick("bad", 0, 3); x = x == 0 ? -1 : x == 1 ? nb : x == 2 ? nb + 7 : -100; vf_allow_exit(1); int r = d.update(k, UserData(sym(es, "upd")), 1, x); vf_allow_exit(0); vf_assert(r != 0, "an index out of range is refused"); vf_reach("bad index"); }
  else if (what == 5) { int x = vf_pick("at", 0, nb - 1), l = vf_pick("dl", 0, 2); vf_allow_exit(1); int r = d.update(k, UserData(sym(l == 0 ? es + 1 : l == 1 ? es - 1 : es + nb, "upd")), cn[x], x); vf_allow_exit(0); if (in[i]) { vf_assert(r != 0, "an element of another size is refused"); vf_reach("bad size"); } else vf_assert(r != 0 , "an update of a missing key with an element of another size is refused"); }
  else if (what == 6) { int x = vf_pick("cnt", 0, 1); std::vector<UserData> v = vec(t, x ? nb + 1 : nb - 1, es, 3); vf_allow_exit(1); int r = d.insert(k, v); vf_allow_exit(0); vf_assert(r != 0, "a vector of the wrong length is refused"); vf_reach("bad count"); }
  else if (what == 7) { int any = 0; for (int q = 0; q < n; q++) any |= in[q]; int x = vf_pick("at", 0, any ? nb : nb - 1), l = vf_pick("dl", 0, 1), h = vf_pick("how", 0, 2); if (nb > 1) { std::vector<UserData> v = vec(t, nb, es, 5); std::string w = sym(l ? es - 1 : es + nb, "el"); if (x < nb) v[x] = UserData(w); else for (int c = 0; c < nb; c++) v[c] = UserData(w); vf_allow_exit(1); int r; if (h == 0) r = d.insert(k, v); else if (h == 1) r = d.insertWithStringKey(enc(k), v); else { std::vector<std::string> b; for (int c = 0; c < nb; c++) b.push_back(enc(v[c])); r = d.insertBinaryData(enc(k), b); } vf_allow_exit(0); vf_assert(r != 0, "a vector with an element of another size is refused"); vf_reach("uneven"); } }
  else if (what == 8) { int x = vf_pick("at", 0, nb - 1); ConfigInfo c; c.configNumber(cn[x]); c.index(x); ins[x] = vf_u32("ins"); ty[x] = vf_u32("ty"); mt[x] = vf_u32("mt"); F[x] = vf_pick("nm", 0, 1) ? "run.db" : ""; c.insert(ins[x]); c.type(ty[x]); c.modifiedTime(mt[x]); c.urlname(F[x]); vf_assert(d.setConfigInfo(c) == 0, "configuration information is accepted"); vf_reach("config"); }
}
extern "C" void vf_main(void) {
  n = vf_param("n", 2); nb = vf_param("nb", 3); es = vf_param("es", 6); int ops = vf_param("ops", 2), kl = vf_param("kl", 5), hb = vf_param("hb", 1), ses = vf_param("ses", 1), pre = vf_param("pre", 1);
  for (int i = 0; i < n; i++) { K[i] = mkk(i, kl + i); HV[i] = vf_u32("hash"); vf_assume(HV[i] < (1u << hb)); }
  std::vector<int> cf; std::vector<std::string> nm; for (int c = 0; c < nb; c++) { cn[c] = 100 + 7 * c; cf.push_back(cn[c]); nm.push_back(c == 1 ? "N/A" : c == 2 ? std::string(vf_param("fn", 127), 'p') : "d" + std::string(1, 'a' + c)); F[c] = c == 1 ? "" : nm[c]; }
  if (!vf_param("names", 1)) for (int c = 0; c < nb; c++) F[c] = "";
  for (int s = 0; s < ses; s++) { DB_ d = s ? DB_() : vf_param("names", 1) ? DB_(cf, nm) : DB_(cf); setup(d); vf_assert(d.open("e.db", s ? O_RDWR : O_RDWR | O_CREAT, 0644) == 0, "open");
    if (!s) for (int i = 0; i < pre; i++) { std::vector<UserData> v = vec(V[i], nb, es, i * 10); vf_assert(d.insert(HK(K[i]), v) == 0, "insert"); in[i] = true; }
    if (s && vf_param("ck", 1)) check(d);
    for (int o = 0; o < ops; o++) op(d, s, o); if (vf_param("mid", 0)) d.updateDone(); check(d); vf_assert(d.close() == 0, "close"); if (!pre && !in[0] && !in[1]) { vf_end(); } }
  { DB_ d; setup(d); vf_assert(d.open("e.db", O_RDONLY, 0) == 0, "reopen"); check(d); }
  vf_reach("end"); vf_end();
}
