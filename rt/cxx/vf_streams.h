// Stand-in for the iostream family, IR build only: string streams keep their text, standard streams discard it.
// The native replay is built with the real libstdc++ streams.
#pragma once
#include <string>
#include <exception>
#include <stdexcept>
#include <iosfwd>
namespace std {
typedef long streamsize;
class ios_base { public: class failure : public exception { public: const char *what() const noexcept { return "ios failure"; } };
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; enum seekdir { beg, cur, end }; static const fmtflags dec = 0, hex = 1, oct = 2, basefield = 3, boolalpha = 4, left = 8, showbase = 16, fixed = 32, uppercase = 64, right = 128, internal = 256, scientific = 512; static const iostate goodbit = 0, eofbit = 1, failbit = 2, badbit = 4; static const openmode in = 1, out = 2, binary = 4, ate = 8, app = 16, trunc = 32;
  unsigned fl_ = 0; long w_ = 0; char fc_ = ' '; fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; } fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; } streamsize width() const { return w_; } streamsize width(streamsize n) { streamsize o = w_; w_ = n; return o; } streamsize precision() const { return 6; } streamsize precision(streamsize) { return 6; } char fill() const { return fc_; } char fill(char c) { char o = fc_; fc_ = c; return o; } static bool sync_with_stdio(bool = true) { return true; } };
template <class C, class T> class basic_ios : public ios_base {};
inline ios_base &hex(ios_base &b) { b.fl_ = (b.fl_ & ~3u) | 1; return b; } inline ios_base &dec(ios_base &b) { b.fl_ &= ~3u; return b; } inline ios_base &oct(ios_base &b) { b.fl_ = (b.fl_ & ~3u) | 2; return b; } inline ios_base &boolalpha(ios_base &b) { b.fl_ |= 4; return b; } inline ios_base &noboolalpha(ios_base &b) { b.fl_ &= ~4u; return b; } inline ios_base &left(ios_base &b) { b.fl_ |= 8; return b; } inline ios_base &right(ios_base &b) { b.fl_ &= ~8u; return b; } inline ios_base &fixed(ios_base &b) { return b; } inline ios_base &scientific(ios_base &b) { return b; } inline ios_base &showbase(ios_base &b) { return b; } inline ios_base &uppercase(ios_base &b) { return b; }
struct vf_setw { long n; }; struct vf_setfill { char c; }; struct vf_nop {}; inline vf_setw setw(int n) { return {n}; } inline vf_setfill setfill(char c) { return {c}; } inline vf_nop setprecision(int) { return {}; } inline vf_nop setbase(int) { return {}; }
template <class C, class T> class basic_ostream : public ios_base {
protected: string *s_;
  void pad(const C *p, size_t n) { if (!s_) return; size_t k = w_ > (long)n ? w_ - n : 0; w_ = 0; if (k && !(fl_ & 8)) s_->append(k, fc_); s_->append(p, n); if (k && (fl_ & 8)) s_->append(k, fc_); }
public:
  explicit basic_ostream(string *s = nullptr) : s_(s) {}
  basic_ostream &write(const C *p, streamsize n) { if (s_ && n > 0) s_->append(p, n); return *this; }
  basic_ostream &put(C c) { if (s_) s_->push_back(c); return *this; }
  basic_ostream &flush() { return *this; }
  bool bad() const { return false; } bool fail() const { return false; } bool good() const { return true; } bool operator!() const { return false; } explicit operator bool() const { return true; }
  basic_ostream &operator<<(const C *p) { if (s_) pad(p, __builtin_strlen(p)); return *this; }
  basic_ostream &operator<<(C *p) { return *this << (const C *)p; }
  basic_ostream &operator<<(C c) { pad(&c, 1); return *this; } basic_ostream &operator<<(signed char c) { return *this << (C)c; } basic_ostream &operator<<(unsigned char c) { return *this << (C)c; }
  basic_ostream &operator<<(const string &p) { if (s_) pad(p.data(), p.size()); return *this; }
  basic_ostream &operator<<(vf_setw w) { w_ = w.n; return *this; } basic_ostream &operator<<(vf_setfill f) { fc_ = f.c; return *this; } basic_ostream &operator<<(vf_nop) { return *this; } basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; } basic_ostream &operator<<(decltype(nullptr)) { return *this; }
  long tellp() { return s_ ? (long)s_->size() : -1; } void clear(unsigned = 0) {} void setstate(unsigned) {} unsigned rdstate() const { return 0; }
  basic_ostream &u(unsigned long v, bool neg = false) { if (s_) { C b[72]; int k = 72; unsigned q = fl_ & 3, base = q == 1 ? 16 : q == 2 ? 8 : 10; do b[--k] = "0123456789abcdef"[v % base]; while (v /= base); if (neg) b[--k] = '-'; pad(b + k, 72 - k); } return *this; }
  template <class I> basic_ostream &i(I v) { if ((fl_ & 3) == 0 && v < 0) return u(-(unsigned long)v, true); return u(fl_ & 3 ? sizeof(I) == 2 ? (unsigned short)v : sizeof(I) == 4 ? (unsigned)v : (unsigned long)v : (unsigned long)v); }
  basic_ostream &operator<<(bool v) { if (fl_ & 4) return *this << (v ? "true" : "false"); return u(v); }
  basic_ostream &operator<<(int v) { return i(v); } basic_ostream &operator<<(long v) { return i(v); } basic_ostream &operator<<(short v) { return i(v); } basic_ostream &operator<<(long long v) { return i(v); }
  basic_ostream &operator<<(unsigned v) { return u(v); } basic_ostream &operator<<(unsigned long v) { return u(v); } basic_ostream &operator<<(unsigned short v) { return u(v); } basic_ostream &operator<<(unsigned long long v) { return u(v); }
  basic_ostream &operator<<(double) { return *this; } basic_ostream &operator<<(float) { return *this; } basic_ostream &operator<<(const void *) { return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
};
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(0); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class C, class T> class basic_istream : public ios_base {
protected: string b_; size_t p_; size_t g_; int st_; // st_: 1 eof, 2 fail
public:
  explicit basic_istream(const string &s = string()) : b_(s), p_(0), g_(0), st_(0) {}
  basic_istream &read(C *d, streamsize n) { g_ = 0; if (st_) { st_ |= 2; return *this; } size_t a = b_.size() - p_, k = (size_t)n < a ? n : a; if (k) b_.copy(d, k, p_); p_ += k; g_ = k; if (k < (size_t)n) st_ |= 3; return *this; }
  int get() { C c; read(&c, 1); return g_ ? (unsigned char)c : -1; }
  int peek() { if (st_) return -1; if (p_ >= b_.size()) { st_ |= 1; return -1; } return (unsigned char)b_[p_]; }
  streamsize gcount() const { return g_; }
  bool good() const { return !st_; } bool bad() const { return false; } bool fail() const { return st_ & 2; } bool eof() const { return st_ & 1; } bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
  long tellg() { return fail() ? -1 : (long)p_; }
  basic_istream &seekg(long o) { st_ &= ~1; if (fail()) return *this; if (o < 0 || (size_t)o > b_.size()) st_ |= 2; else p_ = o; return *this; }
  basic_istream &ignore(streamsize n = 1) { for (; n > 0 && !st_; n--) get(); return *this; }
  void clear(unsigned s = 0) { st_ = s; } void setstate(unsigned s) { st_ |= s; } unsigned rdstate() const { return st_; }
  basic_istream &seekg(long o, ios_base::seekdir d) { return seekg(o + (d == ios_base::beg ? 0 : d == ios_base::cur ? (long)p_ : (long)b_.size())); }
  basic_istream &get(C &c) { int r = get(); if (r >= 0) c = r; return *this; } basic_istream &unget() { st_ &= ~1; if (p_) p_--; return *this; } basic_istream &ignore(streamsize n, int delim) { for (; n > 0 && !st_; n--) if (get() == delim) break; return *this; }
  static bool sp(C c) { return c == ' ' || (c >= 9 && c <= 13); }
  basic_istream &skip() { while (p_ < b_.size() && sp(b_[p_])) p_++; return *this; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); } basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_istream &operator>>(string &o) { if (st_) { st_ |= 2; return *this; } skip(); o.clear(); while (p_ < b_.size() && !sp(b_[p_])) o.push_back(b_[p_++]); if (o.empty()) st_ |= 2; if (p_ >= b_.size()) st_ |= 1; return *this; }
  basic_istream &operator>>(C &c) { if (st_) { st_ |= 2; return *this; } skip(); if (p_ < b_.size()) c = b_[p_++]; else st_ |= 3; return *this; }
  template <class I> basic_istream &num(I &v) { if (st_) { st_ |= 2; return *this; } skip(); bool neg = false; if (p_ < b_.size() && (b_[p_] == '-' || b_[p_] == '+')) neg = b_[p_++] == '-'; unsigned long x = 0; bool any = false; unsigned base = (fl_ & 3) == 1 ? 16 : (fl_ & 3) == 2 ? 8 : 10; for (; p_ < b_.size(); p_++) { C c = b_[p_]; unsigned d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d >= base) break; x = x * base + d; any = true; } if (p_ >= b_.size()) st_ |= 1; if (!any) { v = 0; st_ |= 2; } else v = (I)(neg ? -x : x); return *this; }
  basic_istream &operator>>(int &v) { return num(v); } basic_istream &operator>>(unsigned &v) { return num(v); } basic_istream &operator>>(long &v) { return num(v); } basic_istream &operator>>(unsigned long &v) { return num(v); } basic_istream &operator>>(short &v) { return num(v); } basic_istream &operator>>(unsigned short &v) { return num(v); } basic_istream &operator>>(long long &v) { return num(v); } basic_istream &operator>>(unsigned long long &v) { return num(v); }
  basic_istream &line(string &o, C d) { o.clear(); if (st_) { st_ |= 2; return *this; } if (p_ >= b_.size()) { st_ |= 3; return *this; } while (p_ < b_.size()) { C c = b_[p_++]; if (c == d) return *this; o.push_back(c); } st_ |= 1; return *this; }
};
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { return i.skip(); }
namespace vf { template <class C, class T> basic_istream<C, T> &getline(basic_istream<C, T> &i, string &o, C d) { return i.line(o, d); } }
inline basic_istream<char, char_traits<char>> &getline(basic_istream<char, char_traits<char>> &i, string &o) { return i.line(o, '\n'); } inline basic_istream<char, char_traits<char>> &getline(basic_istream<char, char_traits<char>> &i, string &o, char d) { return i.line(o, d); }
inline namespace __cxx11 {
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { string t_; public: basic_ostringstream() { this->s_ = &t_; } explicit basic_ostringstream(unsigned) { this->s_ = &t_; } explicit basic_ostringstream(const string &s, unsigned = 0) : t_(s) { this->s_ = &t_; } basic_ostringstream(const basic_ostringstream &) = delete; string str() const { return t_; } void str(const string &s) { t_ = s; } };
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { public: basic_istringstream() {} explicit basic_istringstream(unsigned) {} explicit basic_istringstream(const string &s, unsigned = 0) : basic_istream<C, T>(s) {} string str() const { return this->b_; } void str(const string &s) { this->b_ = s; this->p_ = 0; } };
template <class C, class T, class A> class basic_stringstream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_stringstream() { this->s_ = &this->b_; } explicit basic_stringstream(unsigned) { this->s_ = &this->b_; } explicit basic_stringstream(const string &s, unsigned = 0) : basic_istream<C, T>(s) { this->s_ = &this->b_; } basic_stringstream(const basic_stringstream &) = delete; string str() const { return this->b_; } void str(const string &s) { this->b_ = s; this->p_ = 0; } bool good() const { return basic_istream<C, T>::good(); } bool fail() const { return basic_istream<C, T>::fail(); } bool bad() const { return false; } bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); } void clear(unsigned st = 0) { basic_istream<C, T>::clear(st); } unsigned rdstate() const { return basic_istream<C, T>::rdstate(); } using basic_istream<C, T>::operator>>; using basic_ostream<C, T>::operator<<; };
}
extern ostream cout, cerr, clog; extern istream cin;
}
