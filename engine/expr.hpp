// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <algorithm>
#include <unordered_map>
#include <map>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum EOp : u8 { E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_SLT, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE, E_NOT, E_SELECT, E_FP };
enum FOp { F_ADD, F_SUB, F_MUL, F_DIV, F_CMP, F_TOSI, F_TOUI, F_FROMSI, F_FROMUI, F_EXT, F_TRUNC };

struct Supp { std::vector<u32> v; };
struct Expr {
  u8 op, w; u8 nk; u8 aux;
  u32 id; u64 c;
  const Expr *k[3];
  mutable u32 ep; mutable u64 ev;
  mutable const Supp *supp; mutable void *z3;
  u8 hs; // a linear table lookup is reachable through GF(2)-affine operations only
  u64 hash;
};
typedef const Expr *X;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
static inline bool pow2(u64 v) { return v && !(v & (v - 1)); }

struct Table { unsigned ew; std::vector<u64> v; bool linear; unsigned iw; };  // element width, padded to 2^iw entries
struct SymInfo { std::string name; unsigned w; };

struct ExprPool {
  std::vector<Expr *> chunks; size_t used = 1 << 16; u32 nextId = 1;
  std::vector<Expr *> tab; size_t cnt = 0;
  std::vector<Table> tables; std::map<std::pair<unsigned, std::vector<u64>>, u32> tabIdx;
  std::vector<SymInfo> syms;
  u32 epoch = 1;
  ExprPool() { tab.assign(1 << 16, nullptr); }
  Expr *alloc() { if (used == (1 << 16)) { chunks.push_back((Expr *)malloc(sizeof(Expr) << 16)); used = 0; } return &chunks.back()[used++]; }
  static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
  void grow() {
    std::vector<Expr *> n(tab.size() * 2, nullptr); size_t m = n.size() - 1;
    for (auto e : tab) if (e) { size_t i = e->hash & m; while (n[i]) i = (i + 1) & m; n[i] = e; }
    tab.swap(n);
  }
  X mk(u8 op, u8 w, u64 c, X a = nullptr, X b = nullptr, X d = nullptr, u8 aux = 0) {
    u64 h = mix(mix(op * 131 + w * 7 + aux * 1031, c), a ? a->id : 0); h = mix(mix(h, b ? b->id : 0), d ? d->id : 0);
    size_t m = tab.size() - 1, i = h & m;
    while (Expr *e = tab[i]) {
      if (e->hash == h && e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d && e->aux == aux) return e;
      i = (i + 1) & m;
    }
    Expr *e = alloc(); e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->nk = d ? 3 : b ? 2 : a ? 1 : 0; e->aux = aux;
    e->id = nextId++; e->ep = 0; e->ev = 0; e->supp = nullptr; e->z3 = nullptr; e->hash = h;
    e->hs = (op == E_SELECT && tables[c].linear) || ((op == E_XOR || op == E_CONCAT) && (a->hs || b->hs)) || ((op == E_EXTRACT || op == E_ZEXT || (op == E_NOT && w == 1)) && a->hs) || (op == E_AND && a->op == E_CONST && b->hs);
    tab[i] = e; if (++cnt * 2 > tab.size()) grow();
    return e;
  }
};
extern ExprPool EP;

// GF(2)-affine form: value = c ^ XOR over (leaf bit set) of column
struct Aff { u64 c; std::vector<std::pair<u64, u64>> col; }; // key = leaf id * 64 + bit, sorted
extern std::unordered_map<u32, Aff> affMemo; extern std::unordered_map<u32, X> leafOf;
static inline bool isC(X e) { return e->op == E_CONST; }
static inline X C(u64 v, unsigned w) { return EP.mk(E_CONST, w, v & maskw(w)); }
X xExtract(X a, unsigned off, unsigned w);
X xConcat(X hi, X lo);
X xZext(X a, unsigned w);
X xSext(X a, unsigned w);
X xEq(X a, X b);
X xNot(X a);
X xAnd(X a, X b);
X xOr(X a, X b);
X xXor(X a, X b);
X xIte(X c, X a, X b);

static u64 fpBin(unsigned f, unsigned w, u64 a, u64 b) {
  if (w == 32) { float x, y, r = 0; u32 aa = a, bb = b; memcpy(&x, &aa, 4); memcpy(&y, &bb, 4);
    switch (f) { case F_ADD: r = x + y; break; case F_SUB: r = x - y; break; case F_MUL: r = x * y; break; case F_DIV: r = x / y; break; }
    u32 o; memcpy(&o, &r, 4); return o; }
  double x, y, r = 0; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
  switch (f) { case F_ADD: r = x + y; break; case F_SUB: r = x - y; break; case F_MUL: r = x * y; break; case F_DIV: r = x / y; break; }
  u64 o; memcpy(&o, &r, 8); return o;
}
static double fpGet(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fpPut(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }
// predicate encoding = llvm FCmpInst::Predicate (bits: uno=8, lt=4, gt=2, eq=1)
static u64 fpCmp(unsigned pred, unsigned w, u64 a, u64 b) {
  double x = fpGet(a, w), y = fpGet(b, w);
  unsigned r = (x != x || y != y) ? 8 : x < y ? 4 : x > y ? 2 : 1;
  return (pred & r) ? 1 : 0;
}
// FP conversions: f, source width ws, dest width wd
static u64 fpConv(unsigned f, unsigned ws, unsigned wd, u64 a) {
  switch (f) {
    case F_TOSI: { double d = fpGet(a, ws); if (!(d > -9.3e18 && d < 9.3e18)) return (1ULL << (wd - 1)); i64 v = (i64)d; if (wd < 64 && v != sextw(v, wd)) return 1ULL << (wd - 1); return v & maskw(wd); }
    case F_TOUI: { double d = fpGet(a, ws); if (!(d > -1.0 && d < 1.85e19)) return maskw(wd); return (u64)d & maskw(wd); }
    case F_FROMSI: { i64 v = sextw(a, ws); if (wd == 32) { float g = (float)v; u32 x; memcpy(&x, &g, 4); return x; } return fpPut((double)v, 64); }
    case F_FROMUI: { u64 v = a; if (wd == 32) { float g = (float)v; u32 x; memcpy(&x, &g, 4); return x; } return fpPut((double)v, 64); }
    case F_EXT: return fpPut(fpGet(a, ws), wd);
    case F_TRUNC: return fpPut(fpGet(a, ws), wd);
  }
  return 0;
}

static u64 foldBin(u8 op, unsigned w, u64 a, u64 b) {
  u64 m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
    case E_SDIV: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case E_SREM: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: return (u64)(sextw(a, w) >> (b >= w ? w - 1 : b)) & m;
    case E_EQ: return a == b; case E_ULT: return a < b; case E_SLT: return sextw(a, w) < sextw(b, w);
  }
  abort();
}

inline X xExtract(X a, unsigned off, unsigned w) {
  assert(off + w <= a->w);
  if (w == a->w) return a;
  switch (a->op) {
    case E_CONST: return C(a->c >> off, w);
    case E_EXTRACT: return xExtract(a->k[0], off + a->c, w);
    case E_CONCAT: { unsigned lw = a->k[1]->w;
      if (off >= lw) return xExtract(a->k[0], off - lw, w);
      if (off + w <= lw) return xExtract(a->k[1], off, w);
      return xConcat(xExtract(a->k[0], 0, off + w - lw), xExtract(a->k[1], off, lw - off)); }
    case E_ZEXT: { unsigned sw = a->k[0]->w;
      if (off >= sw) return C(0, w);
      if (off + w <= sw) return xExtract(a->k[0], off, w);
      return xZext(xExtract(a->k[0], off, sw - off), w); }
    case E_SEXT: { unsigned sw = a->k[0]->w; if (off + w <= sw) return xExtract(a->k[0], off, w);
      if (off == 0) return xSext(a->k[0], w); break; }
    case E_ITE: if (isC(a->k[1]) || isC(a->k[2])) return xIte(a->k[0], xExtract(a->k[1], off, w), xExtract(a->k[2], off, w)); break;
    case E_AND: if (isC(a->k[0])) return xAnd(xExtract(a->k[0], off, w), xExtract(a->k[1], off, w)); break;
    case E_OR: if (isC(a->k[0]) || a->k[0]->op == E_CONCAT || a->k[0]->op == E_ZEXT || a->k[1]->op == E_CONCAT || a->k[1]->op == E_ZEXT) return xOr(xExtract(a->k[0], off, w), xExtract(a->k[1], off, w)); break;
    case E_XOR: if (isC(a->k[0])) return xXor(xExtract(a->k[0], off, w), xExtract(a->k[1], off, w)); break;
    case E_ADD: if (off == 0 && isC(a->k[0])) { extern X xAdd(X, X); return xAdd(C(a->k[0]->c, w), xExtract(a->k[1], 0, w)); } break;
    default: break;
  }
  return EP.mk(E_EXTRACT, w, off, a);
}
inline X xConcat(X hi, X lo) {
  unsigned w = hi->w + lo->w; assert(w <= 64);
  if (isC(hi)) { if (isC(lo)) return C((hi->c << lo->w) | lo->c, w); if (hi->c == 0) return xZext(lo, w); }
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return xExtract(hi->k[0], lo->c, w);
  { bool xh = hi->op == E_XOR && isC(hi->k[0]), xl = lo->op == E_XOR && isC(lo->k[0]); // the bytes of (c ^ x) reassemble
    if (xh || xl) { X bh = xh ? hi->k[1] : hi, bl = xl ? lo->k[1] : lo;
      if (bh->op == E_EXTRACT && bl->op == E_EXTRACT && bh->k[0] == bl->k[0] && bh->c == bl->c + bl->w) return xXor(C(((xh ? hi->k[0]->c : 0) << lo->w) | (xl ? lo->k[0]->c : 0), w), xExtract(bh->k[0], bl->c, w)); } }
  if (hi->op == E_CONCAT) { X m = hi->k[1]; // (x . m) . lo : try to merge m and lo
    if ((isC(m) && isC(lo)) || (m->op == E_EXTRACT && lo->op == E_EXTRACT && m->k[0] == lo->k[0] && m->c == lo->c + lo->w)) return xConcat(hi->k[0], xConcat(m, lo)); }
  if (hi->op == E_ZEXT) { // (0 . x) . lo -> 0 . (x . lo)
    return xZext(xConcat(hi->k[0], lo), w); }
  if (lo->op == E_CONCAT) { X m = lo->k[0];
    if ((isC(m) && isC(hi)) || (m->op == E_EXTRACT && hi->op == E_EXTRACT && m->k[0] == hi->k[0] && hi->c == m->c + m->w)) return xConcat(xConcat(hi, m), lo->k[1]);
    // canonical: left-nested
    return xConcat(xConcat(hi, m), lo->k[1]); }
  return EP.mk(E_CONCAT, w, 0, hi, lo);
}
inline X xZext(X a, unsigned w) {
  if (a->w == w) return a; assert(a->w < w);
  if (isC(a)) return C(a->c, w);
  if (a->op == E_ZEXT) return xZext(a->k[0], w);
  return EP.mk(E_ZEXT, w, 0, a);
}
inline X xSext(X a, unsigned w) {
  if (a->w == w) return a; assert(a->w < w);
  if (isC(a)) return C(sextw(a->c, a->w), w);
  if (a->op == E_ZEXT) return xZext(a->k[0], w);
  if (a->op == E_SEXT) return xSext(a->k[0], w);
  return EP.mk(E_SEXT, w, 0, a);
}
inline X xNot(X a) { if (isC(a)) return C(!a->c, 1); if (a->op == E_NOT) return a->k[0]; return EP.mk(E_NOT, 1, 0, a); }
inline X xAdd(X a, X b) {
  if (isC(b)) std::swap(a, b);
  if (isC(a)) { if (isC(b)) return C(a->c + b->c, a->w); if (!a->c) return b;
    if (b->op == E_ADD && isC(b->k[0])) return xAdd(C(a->c + b->k[0]->c, a->w), b->k[1]); }
  else { if (a->op == E_ADD && isC(a->k[0])) return xAdd(a->k[0], xAdd(a->k[1], b)); if (b->op == E_ADD && isC(b->k[0])) return xAdd(b->k[0], xAdd(a, b->k[1]));
    if (a->op == E_SUB && a->k[1] == b) return a->k[0]; if (b->op == E_SUB && b->k[1] == a) return b->k[0];
    if (a->id > b->id) std::swap(a, b); }
  return EP.mk(E_ADD, a->w, 0, a, b);
}
inline X xSub(X a, X b) {
  if (a == b) return C(0, a->w);
  if (isC(b)) return xAdd(C(0 - b->c, a->w), a);
  if (a->op == E_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; if (isC(a->k[0])) return xAdd(a->k[0], xSub(a->k[1], b)); }
  if (b->op == E_ADD && isC(b->k[0])) return xAdd(C(0 - b->k[0]->c, a->w), xSub(a, b->k[1]));
  return EP.mk(E_SUB, a->w, 0, a, b);
}
inline X xShlC(X a, unsigned k) { unsigned w = a->w; if (k >= w) return C(0, w); if (!k) return a; return xConcat(xExtract(a, 0, w - k), C(0, k)); }
inline X xLshrC(X a, unsigned k) { unsigned w = a->w; if (k >= w) return C(0, w); if (!k) return a; return xZext(xExtract(a, k, w - k), w); }
inline X xAshrC(X a, unsigned k) { unsigned w = a->w; if (k >= w) k = w - 1; if (!k) return a; return xSext(xExtract(a, k, w - k), w); }
inline X xAnd(X a, X b) {
  if (a == b) return a;
  if (isC(b)) std::swap(a, b);
  unsigned w = a->w;
  if (isC(a)) {
    if (isC(b)) return C(a->c & b->c, w);
    if (!a->c) return a; if (a->c == maskw(w)) return b;
    u64 m = a->c; unsigned lo = __builtin_ctzll(m); u64 t = m >> lo;
    if ((t & (t + 1)) == 0) { unsigned n = __builtin_popcountll(t); X e = xExtract(b, lo, n); if (lo) e = xConcat(e, C(0, lo)); return xZext(e, w); }
    if (b->op == E_AND && isC(b->k[0])) return xAnd(C(m & b->k[0]->c, w), b->k[1]);
    if (b->op == E_ZEXT && (m & maskw(b->k[0]->w)) != m) return xAnd(C(m & maskw(b->k[0]->w), w), b);
    if (b->op == E_ZEXT) return xZext(xAnd(C(m, b->k[0]->w), b->k[0]), w);
    if (b->op == E_CONCAT) return xConcat(xAnd(C(m >> b->k[1]->w, b->k[0]->w), b->k[0]), xAnd(C(m, b->k[1]->w), b->k[1]));
    if (b->op == E_OR) return xOr(xAnd(a, b->k[0]), xAnd(a, b->k[1]));
  } else {
    if (w == 1) { if (a->op == E_NOT && a->k[0] == b) return C(0, 1); if (b->op == E_NOT && b->k[0] == a) return C(0, 1); }
    if (a->id > b->id) std::swap(a, b);
  }
  return EP.mk(E_AND, w, 0, a, b);
}
static inline unsigned trailZ(X a) { if (a->op == E_CONCAT && isC(a->k[1]) && a->k[1]->c == 0) return a->k[1]->w; if (a->op == E_CONCAT) { return 0; } if (a->op == E_ZEXT) return trailZ(a->k[0]); return 0; }
static inline unsigned active(X a) { if (a->op == E_ZEXT) return a->k[0]->w; if (isC(a)) return a->c ? 64 - __builtin_clzll(a->c) : 0; return a->w; }
inline X xOr(X a, X b) {
  if (a == b) return a;
  if (isC(b)) std::swap(a, b);
  unsigned w = a->w;
  if (isC(a)) { if (isC(b)) return C(a->c | b->c, w); if (!a->c) return b; if (a->c == maskw(w)) return a; }
  if (w == 1) { if (a->op == E_NOT && a->k[0] == b) return C(1, 1); if (b->op == E_NOT && b->k[0] == a) return C(1, 1); }
  for (int i = 0; i < 2; i++, std::swap(a, b)) {
    unsigned tz = trailZ(a), ac = active(b);
    if (tz && ac && ac <= tz && tz < w) { // disjoint
      X hi = xExtract(a, ac, w - ac), lo = xExtract(b, 0, ac); return xConcat(hi, lo); }
  }
  // piecewise over concat boundaries
  for (int i = 0; i < 2; i++, std::swap(a, b))
    if (a->op == E_CONCAT && (b->op == E_CONCAT || b->op == E_ZEXT || isC(b))) { unsigned lw = a->k[1]->w;
      return xConcat(xOr(a->k[0], xExtract(b, lw, w - lw)), xOr(a->k[1], xExtract(b, 0, lw))); }
  for (int i = 0; i < 2; i++, std::swap(a, b))
    if (a->op == E_ZEXT && (b->op == E_ZEXT || isC(b))) { unsigned n = std::max(active(a), active(b)); if (n < w) return xZext(xOr(xExtract(a, 0, n), xExtract(b, 0, n)), w);
      unsigned lw = a->k[0]->w; return xConcat(xExtract(b, lw, w - lw), xOr(a->k[0], xExtract(b, 0, lw))); }
  if (isC(b)) std::swap(a, b);
  if (isC(a) && b->op == E_OR && isC(b->k[0])) return xOr(C(a->c | b->k[0]->c, w), b->k[1]);
  if (!isC(a) && a->id > b->id) std::swap(a, b);
  return EP.mk(E_OR, w, 0, a, b);
}
inline X xXor(X a, X b) {
  if (a == b) return C(0, a->w);
  if (isC(b)) std::swap(a, b);
  unsigned w = a->w;
  if (isC(a)) { if (isC(b)) return C(a->c ^ b->c, w); if (!a->c) return b; if (w == 1) return xNot(b);
    if (b->op == E_XOR && isC(b->k[0])) return xXor(C(a->c ^ b->k[0]->c, w), b->k[1]);
    if (b->op == E_CONCAT) return xConcat(xXor(C(a->c >> b->k[1]->w, b->k[0]->w), b->k[0]), xXor(C(a->c, b->k[1]->w), b->k[1]));
    if (b->op == E_ZEXT) { unsigned lw = b->k[0]->w; return xConcat(C(a->c >> lw, w - lw), xXor(C(a->c, lw), b->k[0])); }
  } else {
    if (a->op == E_XOR && (a->k[0] == b || a->k[1] == b)) return a->k[0] == b ? a->k[1] : a->k[0];
    if (b->op == E_XOR && (b->k[0] == a || b->k[1] == a)) return b->k[0] == a ? b->k[1] : b->k[0];
    if (a->op == E_XOR && isC(a->k[0])) return xXor(a->k[0], xXor(a->k[1], b));
    if (b->op == E_XOR && isC(b->k[0])) return xXor(b->k[0], xXor(a, b->k[1]));
    if (a->id > b->id) std::swap(a, b);
  }
  return EP.mk(E_XOR, w, 0, a, b);
}
inline X xMul(X a, X b) {
  if (isC(b)) std::swap(a, b);
  if (isC(a)) { if (isC(b)) return C(a->c * b->c, a->w); if (!a->c) return a; if (a->c == 1) return b; if (pow2(a->c)) return xShlC(b, __builtin_ctzll(a->c)); }
  else if (a->id > b->id) std::swap(a, b);
  return EP.mk(E_MUL, a->w, 0, a, b);
}
X affEq(X a, X b);
inline X xEq(X a, X b) {
  if (a == b) return C(1, 1);
  if (a->hs || b->hs) if (X r = affEq(a, b)) return r;
  if (isC(b)) std::swap(a, b);
  if (isC(a)) {
    if (isC(b)) return C(a->c == b->c, 1);
    if (a->w == 1) return a->c ? b : xNot(b);
    switch (b->op) {
      case E_ZEXT: if (a->c > maskw(b->k[0]->w)) return C(0, 1); return xEq(C(a->c, b->k[0]->w), b->k[0]);
      case E_SEXT: { u64 lowv = a->c & maskw(b->k[0]->w); if (((u64)sextw(lowv, b->k[0]->w) & maskw(b->w)) != a->c) return C(0, 1); return xEq(C(lowv, b->k[0]->w), b->k[0]); }
      case E_ADD: if (isC(b->k[0])) return xEq(C(a->c - b->k[0]->c, a->w), b->k[1]); break;
      case E_XOR: if (isC(b->k[0])) return xEq(C(a->c ^ b->k[0]->c, a->w), b->k[1]); if (a->c == 0) return xEq(b->k[0], b->k[1]); break;
      case E_SUB: if (a->c == 0) return xEq(b->k[0], b->k[1]); break;
      case E_CONCAT: return xAnd(xEq(C(a->c >> b->k[1]->w, b->k[0]->w), b->k[0]), xEq(C(a->c, b->k[1]->w), b->k[1]));
      case E_ITE: if (isC(b->k[1]) && isC(b->k[2])) { bool t = b->k[1]->c == a->c, f = b->k[2]->c == a->c; if (t && f) return C(1, 1); if (t) return b->k[0]; if (f) return xNot(b->k[0]); return C(0, 1); }
        if (isC(b->k[1])) { if (b->k[1]->c == a->c) return xOr(b->k[0], xEq(a, b->k[2])); return xAnd(xNot(b->k[0]), xEq(a, b->k[2])); }
        if (isC(b->k[2])) { if (b->k[2]->c == a->c) return xOr(xNot(b->k[0]), xEq(a, b->k[1])); return xAnd(b->k[0], xEq(a, b->k[1])); }
        break;
      default: break;
    }
  } else {
    if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return xEq(xZext(a->k[0], n), xZext(b->k[0], n)); }
    if (a->op == E_ADD && b->op == E_ADD && isC(a->k[0]) && isC(b->k[0]) && a->k[1] == b->k[1]) return C(a->k[0]->c == b->k[0]->c, 1);
    if (b->op == E_ADD && isC(b->k[0]) && b->k[1] == a) return C(0, 1);
    if (a->op == E_ADD && isC(a->k[0]) && a->k[1] == b) return C(0, 1);
    if (a->id > b->id) std::swap(a, b);
  }
  return EP.mk(E_EQ, 1, 0, a, b);
}
inline X xUlt(X a, X b) {
  if (a == b) return C(0, 1);
  if (isC(a) && isC(b)) return C(a->c < b->c, 1);
  unsigned w = a->w;
  if (isC(b)) { if (!b->c) return C(0, 1); if (b->c == 1) return xEq(C(0, w), a);
    if (a->op == E_ZEXT) { unsigned n = a->k[0]->w; if (b->c > maskw(n)) return C(1, 1); return xUlt(a->k[0], C(b->c, n)); } }
  if (isC(a)) { if (a->c == maskw(w)) return C(0, 1); if (!a->c) return xNot(xEq(a, b));
    if (b->op == E_ZEXT) { unsigned n = b->k[0]->w; if (a->c >= maskw(n)) return C(0, 1); return xUlt(C(a->c, n), b->k[0]); } }
  if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return xUlt(xZext(a->k[0], n), xZext(b->k[0], n)); }
  return EP.mk(E_ULT, 1, 0, a, b);
}
inline X xSlt(X a, X b) {
  if (a == b) return C(0, 1);
  if (isC(a) && isC(b)) return C(sextw(a->c, a->w) < sextw(b->c, b->w), 1);
  bool az = a->op == E_ZEXT || (isC(a) && !(a->c >> (a->w - 1))), bz = b->op == E_ZEXT || (isC(b) && !(b->c >> (b->w - 1)));
  if (az && bz) return xUlt(a, b);
  if (isC(b) && a->op == E_SEXT) { unsigned n = a->k[0]->w; i64 v = sextw(b->c, b->w); if (v == sextw(v, n)) return xSlt(a->k[0], C(v, n)); return C(v > 0, 1); }
  if (isC(a) && b->op == E_SEXT) { unsigned n = b->k[0]->w; i64 v = sextw(a->c, a->w); if (v == sextw(v, n)) return xSlt(C(v, n), b->k[0]); return C(v < 0, 1); }
  return EP.mk(E_SLT, 1, 0, a, b);
}
inline X xIte(X c, X a, X b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == E_NOT) return xIte(c->k[0], b, a);
  if (a->w == 1) { if (isC(a) && isC(b)) return a->c ? c : xNot(c); if (isC(a)) return a->c ? xOr(c, b) : xAnd(xNot(c), b); if (isC(b)) return b->c ? xOr(xNot(c), a) : xAnd(c, a); }
  if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return xZext(xIte(c, a->k[0], b->k[0]), a->w);
  return EP.mk(E_ITE, a->w, 0, c, a, b);
}
inline X xBin(u8 op, X a, X b) {
  switch (op) {
    case E_ADD: return xAdd(a, b); case E_SUB: return xSub(a, b); case E_MUL: return xMul(a, b);
    case E_AND: return xAnd(a, b); case E_OR: return xOr(a, b); case E_XOR: return xXor(a, b);
    case E_EQ: return xEq(a, b); case E_ULT: return xUlt(a, b); case E_SLT: return xSlt(a, b);
  }
  if (isC(a) && isC(b)) return C(foldBin(op, a->w, a->c, b->c), a->w);
  if (isC(b)) {
    if (op == E_SHL) return xShlC(a, b->c > 64 ? 64 : b->c); if (op == E_LSHR) return xLshrC(a, b->c > 64 ? 64 : b->c); if (op == E_ASHR) return xAshrC(a, b->c > 64 ? 64 : b->c);
    if (op == E_UDIV && pow2(b->c)) return xLshrC(a, __builtin_ctzll(b->c));
    if (op == E_UREM && pow2(b->c)) return xAnd(C(b->c - 1, a->w), a);
  }
  return EP.mk(op, a->w, 0, a, b);
}
inline X xFp(unsigned f, unsigned w, unsigned pred, X a, X b = nullptr) {
  if (isC(a) && (!b || isC(b))) {
    if (f <= F_DIV) return C(fpBin(f, w, a->c, b->c), w);
    if (f == F_CMP) return C(fpCmp(pred, a->w, a->c, b->c), 1);
    return C(fpConv(f, a->w, w, a->c), w);
  }
  return EP.mk(E_FP, w, pred, a, b, nullptr, f);
}
// Table lookup; idx counts elements
inline u32 internTable(unsigned ew, std::vector<u64> v) {
  unsigned iw = 0; while ((1u << iw) < v.size()) iw++;
  v.resize(1u << iw, 0);
  auto key = std::make_pair(ew, v); auto it = EP.tabIdx.find(key); if (it != EP.tabIdx.end()) return it->second;
  Table t; t.ew = ew; t.iw = iw; t.linear = v[0] == 0;
  for (size_t i = 1; i < v.size() && t.linear; i++) { size_t low = i & -i; if (i != low && v[i] != (v[i ^ low] ^ v[low])) t.linear = false; }
  t.v = v; u32 id = EP.tables.size(); EP.tables.push_back(t); EP.tabIdx[key] = id; return id;
}
inline X xSelect(u32 t, X idx) {
  Table &T = EP.tables[t]; if (isC(idx)) return C(idx->c < T.v.size() ? T.v[idx->c] : 0, T.ew);
  return EP.mk(E_SELECT, T.ew, t, idx);
}

inline const Aff &affine(X e) {
  auto it = affMemo.find(e->id); if (it != affMemo.end()) return it->second;
  Aff r; r.c = 0;
  auto mapc = [&](const Aff &a, auto f) { r.c = f(a.c); u64 z = f(0); for (auto &p : a.col) { u64 v = f(p.second) ^ z; if (v) r.col.push_back({p.first, v}); } };
  auto add = [&](const Aff &a, unsigned sh) { r.c ^= a.c << sh; std::vector<std::pair<u64, u64>> n; size_t i = 0, j = 0;
    while (i < r.col.size() || j < a.col.size()) {
      if (j == a.col.size() || (i < r.col.size() && r.col[i].first < a.col[j].first)) n.push_back(r.col[i++]);
      else if (i == r.col.size() || a.col[j].first < r.col[i].first) { n.push_back({a.col[j].first, a.col[j].second << sh}); j++; }
      else { u64 v = r.col[i].second ^ (a.col[j].second << sh); if (v) n.push_back({r.col[i].first, v}); i++; j++; } }
    r.col.swap(n); };
  u64 m = maskw(e->w);
  switch (e->op) {
    case E_CONST: r.c = e->c; break;
    case E_XOR: { Aff a = affine(e->k[0]); r = a; Aff b = affine(e->k[1]); add(b, 0); break; }
    case E_CONCAT: { Aff b = affine(e->k[1]); r = b; Aff a = affine(e->k[0]); add(a, e->k[1]->w); break; }
    case E_ZEXT: r = affine(e->k[0]); break;
    case E_NOT: r = affine(e->k[0]); r.c ^= 1; break;
    case E_EXTRACT: { Aff a = affine(e->k[0]); unsigned o = e->c; mapc(a, [&](u64 v) { return (v >> o) & m; }); break; }
    case E_AND: if (isC(e->k[0])) { Aff a = affine(e->k[1]); u64 k = e->k[0]->c; mapc(a, [&](u64 v) { return v & k; }); break; } goto leaf;
    case E_SELECT: if (EP.tables[e->c].linear) { Aff a = affine(e->k[0]); Table &T = EP.tables[e->c]; size_t n = T.v.size(); mapc(a, [&](u64 v) { return T.v[v & (n - 1)]; }); break; } goto leaf;
    default: leaf: leafOf[e->id] = e; for (unsigned i = 0; i < e->w; i++) r.col.push_back({(u64)e->id * 64 + i, 1ULL << i});
  }
  return affMemo[e->id] = std::move(r);
}
inline X leafBit(u64 key) { return xExtract(leafOf[key / 64], key % 64, 1); }
// a == b as a reduced system of GF(2) equations; null if that would not be simpler
inline X affEq(X a, X b) {
  Aff r = affine(a); { const Aff &q = affine(b); Aff t; t.c = r.c ^ q.c; size_t i = 0, j = 0;
    while (i < r.col.size() || j < q.col.size()) {
      if (j == q.col.size() || (i < r.col.size() && r.col[i].first < q.col[j].first)) t.col.push_back(r.col[i++]);
      else if (i == r.col.size() || q.col[j].first < r.col[i].first) t.col.push_back(q.col[j++]);
      else { u64 v = r.col[i].second ^ q.col[j].second; if (v) t.col.push_back({r.col[i].first, v}); i++; j++; } }
    r = t; }
  size_t n = r.col.size(); if (n > 64) return nullptr;
  unsigned w = a->w; std::vector<std::pair<u64, int>> row; // bits over columns, constant
  for (unsigned i = 0; i < w; i++) { u64 v = 0; for (size_t j = 0; j < n; j++) if ((r.col[j].second >> i) & 1) v |= 1ULL << j; row.push_back({v, (int)((r.c >> i) & 1)}); }
  std::vector<int> piv; size_t rk = 0;
  for (size_t j = 0; j < n && rk < row.size(); j++) { size_t k = rk; while (k < row.size() && !((row[k].first >> j) & 1)) k++; if (k == row.size()) continue;
    std::swap(row[k], row[rk]); for (size_t t = 0; t < row.size(); t++) if (t != rk && ((row[t].first >> j) & 1)) { row[t].first ^= row[rk].first; row[t].second ^= row[rk].second; }
    piv.push_back(j); rk++; }
  for (size_t t = rk; t < row.size(); t++) if (row[t].second) return C(0, 1);
  X res = C(1, 1);
  // leaves all of whose bits are fixed become one equality
  std::map<u64, std::pair<u64, u64>> fixed; // leaf -> mask, value
  for (size_t t = 0; t < rk; t++) if ((row[t].first & (row[t].first - 1)) == 0) { u64 k = r.col[piv[t]].first; fixed[k / 64].first |= 1ULL << (k % 64); if (row[t].second) fixed[k / 64].second |= 1ULL << (k % 64); }
  for (auto &f : fixed) { X l = leafOf[f.first]; u64 mk = f.second.first; unsigned lo = __builtin_ctzll(mk), hi = 63 - __builtin_clzll(mk);
    if (mk == (maskw(hi - lo + 1) << lo)) res = xAnd(res, xEq(C(f.second.second >> lo, hi - lo + 1), xExtract(l, lo, hi - lo + 1)));
    else for (unsigned i = lo; i <= hi; i++) if ((mk >> i) & 1) res = xAnd(res, xEq(C((f.second.second >> i) & 1, 1), xExtract(l, i, 1))); }
  for (size_t t = 0; t < rk; t++) if (row[t].first & (row[t].first - 1)) { X v = C(row[t].second, 1); for (size_t j = 0; j < n; j++) if ((row[t].first >> j) & 1) v = xXor(v, leafBit(r.col[j].first)); res = xAnd(res, xNot(v)); }
  return res;
}

typedef std::vector<u64> Model;
inline u64 evalX(X e, const Model &m) {
  if (e->op == E_CONST) return e->c;
  if (e->ep == EP.epoch) return e->ev;
  u64 r = 0; unsigned w = e->w;
  switch (e->op) {
    case E_SYM: r = e->c < m.size() ? m[e->c] : 0; break;
    case E_ZEXT: r = evalX(e->k[0], m); break;
    case E_SEXT: r = sextw(evalX(e->k[0], m), e->k[0]->w) & maskw(w); break;
    case E_EXTRACT: r = (evalX(e->k[0], m) >> e->c) & maskw(w); break;
    case E_CONCAT: r = (evalX(e->k[0], m) << e->k[1]->w) | evalX(e->k[1], m); break;
    case E_ITE: r = evalX(e->k[0], m) ? evalX(e->k[1], m) : evalX(e->k[2], m); break;
    case E_NOT: r = !evalX(e->k[0], m); break;
    case E_SELECT: { Table &T = EP.tables[e->c]; u64 i = evalX(e->k[0], m); r = i < T.v.size() ? T.v[i] : 0; break; }
    case E_FP: { u64 a = evalX(e->k[0], m);
      if (e->aux <= F_DIV) r = fpBin(e->aux, w, a, evalX(e->k[1], m)); else if (e->aux == F_CMP) r = fpCmp(e->c, e->k[0]->w, a, evalX(e->k[1], m)); else r = fpConv(e->aux, e->k[0]->w, w, a); break; }
    case E_EQ: case E_ULT: case E_SLT: r = foldBin(e->op, e->k[0]->w, evalX(e->k[0], m), evalX(e->k[1], m)); break;
    default: r = foldBin(e->op, w, evalX(e->k[0], m), evalX(e->k[1], m));
  }
  e->ep = EP.epoch; e->ev = r; return r;
}
inline u64 evalTop(X e, const Model &m) { EP.epoch++; return evalX(e, m); }
