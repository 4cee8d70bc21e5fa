// Shared by the C++ harnesses: a string key with a harness-supplied (arbitrary) hash, records as byte strings.
#pragma once
#include <fcntl.h>
#include <stdexcept>
#include "DBString.h"
#include "vf.h"
using namespace FILEDB;
static unsigned HV[64];
struct HK : public StringKey { // the first character is 'A' + number of the key
  HK() {} HK(const std::string &s) : StringKey(s) {} HK(const HK &o) : StringKey(o) {} HK &operator=(const HK &o) { StringKey::operator=(o); return *this; }
  int hasHashFunc(void) const { return 1; }
  static unsigned hash(const void *p, unsigned n) { const unsigned char *k = (const unsigned char *)p; if (n >= 5 && k[0] == 0x11 && k[1] == 0xff && k[4] >= 'A' && k[4] < 'A' + 64) return HV[k[4] - 'A']; return 0x1234567; }
};
static std::string sym(int n, const char *name, int salt = 0) { // n characters: arbitrary if few, else arbitrary at both ends
  std::string s; if (n <= 24) { char b[24]; vf_bytes(b, n, name); s.assign(b, n); return s; }
  for (int i = 0; i < n; i++) s.push_back((char)(i * 7 + (i >> 8) * 11 + salt * 29 + 3)); char b[8]; vf_bytes(b, 8, name); for (int i = 0; i < 4; i++) { s[i] = b[i]; s[n - 4 + i] = b[4 + i]; } return s; }
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && vf_memeq(a.data(), b.data(), a.size()); }
static std::string S(const StringKey &k) { StringKey c(k); return (std::string)c; }
static std::string S(const UserData &k) { UserData c(k); return (std::string)c; }
static std::string enc(const Serializable &k) { std::string o; k.writeObject(o); return o; }
static std::string mkk(int i, int len) { std::string s = sym(len, "key", i); s[0] = (char)('A' + i); return s; }
static int kid(const std::string &s) { vf_assert(s.size() > 0, "a key is returned"); return vf_conc((unsigned char)s[0]) - 'A'; }
