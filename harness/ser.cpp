// C21: serialisation round trip and refusal of bad input.
#include "DBString.h"
#include "VFloatData.h"
#include "vf.h"
using namespace FILEDB;
template <class T> static int rd(T &t, const std::string &s) { try { t.readObject(s); } catch (SerializeException &e) { vf_assert(e.what() != 0, "what"); return -1; } return 0; }
template <class T> static void text(int len, int hdr) {
  std::string s(len, 'x'); if (len <= 60) { char b[64]; vf_bytes(b, len, "text"); s.assign(b, len); } else { char b[8]; vf_bytes(b, 8, "text"); for (int i = 0; i < len; i++) s[i] = (char)(i * 7 + (i >> 8) * 5); for (int i = 0; i < 4; i++) { s[i] = b[i]; s[len - 4 + i] = b[4 + i]; } } T a(s); std::string o; a.writeObject(o);
  vf_assert((int)o.size() == len + 4, "encoded length"); T c("other"); vf_assert(rd(c, o) == 0, "decoding accepts what was encoded");
  std::string r = c; vf_assert((int)r.size() == len && vf_memeq(r.data(), s.data(), len), "decoded text equals the original"); vf_assert((c == a) && !(c != a), "equal");
  std::string o2; c.writeObject(o2); vf_assert(o2.size() == o.size() && vf_memeq(o2.data(), o.data(), o.size()), "encoding again gives the same bytes");
}
extern "C" void vf_main(void) {
  int mode = vf_param("mode", 0), hi = vf_param("hi", 20);
  if (mode == 0) text<StringKey>(vf_pick("len", 0, hi), 0);
  if (mode == 1) text<UserData>(vf_pick("len", 0, hi), 0);
  static const int LL[] = {61, 127, 128, 255, 256, 257, 511, 512, 1000, 4095, 65531, 65535, 65536, 70000};
  if (mode == 6) text<StringKey>(LL[vf_pick("len", 0, hi)], 0);
  if (mode == 7) text<UserData>(LL[vf_pick("len", 0, hi)], 0);
  if (mode == 2 || mode == 3) { // any buffer: accepted only with the right header, then everything after it is the text
    int n = vf_pick("n", 0, hi); char *b = (char *)malloc(n ? n : 1); vf_bytes(b, n, "buf"); std::string s(b, n); std::string r; int ok; unsigned id = mode == 2 ? 102 : 0x1144; 
    if (mode == 2) { StringKey k("zz"); ok = rd(k, s); r = (std::string)k; } else { UserData k("zz"); ok = rd(k, s); r = (std::string)k; }
    int good = n >= 4 && (unsigned char)b[0] == 0x11 && (unsigned char)b[1] == 0xff && (((unsigned char)b[2] << 8) | (unsigned char)b[3]) == id;
    vf_assert((ok == 0) == good, "accepted exactly when magic number and type are right");
    if (ok == 0) { vf_assert((int)r.size() == n - 4 && vf_memeq(r.data(), b + 4, n - 4), "everything after the header"); vf_reach("accepted"); } else vf_reach("refused");
  }
  if (mode == 4) { // float vectors
    int n = vf_pick("n", vf_param("lo", 0), hi); VFloatData v(n, 0); static union { float f; unsigned u; } x[300];
    for (int i = 0; i < n; i++) { x[i].u = vf_u32("f"); vf_assume((x[i].u & 0x7f800000) != 0x7f800000); }
    const std::vector<float> &w = v; for (int i = 0; i < n; i++) const_cast<std::vector<float> &>(w)[i] = x[i].f;
    std::string o; v.writeObject(o); VFloatData c(3, 1.5f); vf_assert(rd(c, o) == 0, "decoding accepts what was encoded"); vf_assert(c.numberOfElements() == n, "same number of elements");
    const std::vector<float> &y = c; for (int i = 0; i < n; i++) { union { float f; unsigned u; } z; z.f = y[i]; vf_assert(z.u == x[i].u, "same element"); }
  }
  if (mode == 5) { int n = vf_pick("n", 0, hi); char *b = (char *)malloc(n ? n : 1); vf_bytes(b, n, "buf"); std::string s(b, n); VFloatData v; int ok = rd(v, s);
    unsigned id = n >= 2 ? ((unsigned char)b[0] << 8) | (unsigned char)b[1] : 0; unsigned num = 0; if (n >= 8) for (int i = 4; i < 8; i++) num = num << 8 | (unsigned char)b[i];
    int good = n >= 8 && id == v.serialID() && (unsigned long)num * 4 == (unsigned long)n - 8; vf_assert((ok == 0) == good, "accepted exactly when type and size are right"); if (ok == 0) { vf_assert(v.numberOfElements() == (n - 8) / 4, "count"); vf_reach("accepted"); } else vf_reach("refused"); }
  vf_reach("end"); vf_end();
}
