// Z3 back end: constraint slicing, query cache, models.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>
#include <set>
#include <unordered_set>

static inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  Z3_context cx = nullptr; Z3_solver sv = nullptr;
  u64 nq = 0, ncache = 0, nsat = 0, nunsat = 0, nunk = 0, nfast = 0; double tsolve = 0, tmax = 0; unsigned timeoutMs = 60000;
  std::unordered_map<u64, std::pair<int, std::vector<std::pair<u32, u64>>>> cache;
  std::unordered_map<std::string, const Supp *> suppTab; const Supp *emptySupp = new Supp();
  std::vector<Z3_ast> symAst; double slow = 0; void (*slowCb)(double, int, size_t, X) = nullptr;

  static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
  void init() {
    Z3_config cfg = Z3_mk_config(); cx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(cx, onErr);
    sv = Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, "QF_BV")); Z3_solver_inc_ref(cx, sv);
    Z3_params p = Z3_mk_params(cx); Z3_params_inc_ref(cx, p);
    Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, "timeout"), timeoutMs); Z3_solver_set_params(cx, sv, p); Z3_params_dec_ref(cx, p);
  }
  void setTimeout(unsigned ms) { if (ms >= timeoutMs) return; timeoutMs = ms; Z3_params p = Z3_mk_params(cx); Z3_params_inc_ref(cx, p); Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, "timeout"), ms); Z3_solver_set_params(cx, sv, p); Z3_params_dec_ref(cx, p); }
  const Supp *intern(std::vector<u32> &v) {
    std::string k((char *)v.data(), v.size() * 4); auto it = suppTab.find(k); if (it != suppTab.end()) return it->second;
    Supp *s = new Supp(); s->v = v; suppTab[k] = s; return s;
  }
  const Supp *supp(X e) {
    if (e->supp) return e->supp;
    const Supp *r = emptySupp;
    if (e->op == E_SYM) { std::vector<u32> v{(u32)e->c}; r = intern(v); }
    else for (int i = 0; i < e->nk; i++) { const Supp *s = supp(e->k[i]); if (s == r || s->v.empty()) continue; if (r->v.empty()) { r = s; continue; }
      std::vector<u32> v; std::set_union(r->v.begin(), r->v.end(), s->v.begin(), s->v.end(), std::back_inserter(v)); r = intern(v); }
    return e->supp = r;
  }
  Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(cx, v, Z3_mk_bv_sort(cx, w)); }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(cx, b, num(1, 1), num(0, 1)); }
  Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(cx) : Z3_mk_fpa_sort_64(cx); }
  Z3_ast tf(X e) { return Z3_mk_fpa_to_fp_bv(cx, tr(e), fsort(e->w)); }
  Z3_ast rtree(Table &T, Z3_ast idx, unsigned iw, unsigned lo, unsigned bit) { // ite tree on index bits, msb first
    if (bit == 0) return num(T.v[lo], T.ew);
    Z3_ast b = Z3_mk_eq(cx, Z3_mk_extract(cx, bit - 1, bit - 1, idx), num(1, 1));
    return Z3_mk_ite(cx, b, rtree(T, idx, iw, lo + (1u << (bit - 1)), bit - 1), rtree(T, idx, iw, lo, bit - 1));
  }
  Z3_ast tr(X e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr; Z3_ast a = nullptr, b = nullptr;
    if (e->op == E_SELECT && e->hs) { const Aff f = affine(e); if (f.col.size() <= 64) { // flattened chain of linear lookups
      r = num(f.c, e->w); for (auto &p : f.col) { Z3_ast bit = tr(leafBit(p.first)); r = Z3_mk_bvxor(cx, r, Z3_mk_ite(cx, Z3_mk_eq(cx, bit, num(1, 1)), num(p.second, e->w), num(0, e->w))); }
      Z3_inc_ref(cx, r); e->z3 = r; return r; } }
    if (e->op != E_FP) { if (e->nk > 0) a = tr(e->k[0]); if (e->nk > 1) b = tr(e->k[1]); }
    switch (e->op) {
      case E_CONST: r = num(e->c, e->w); break;
      case E_SYM: { char nm[32]; snprintf(nm, sizeof nm, "s%u", (u32)e->c); r = Z3_mk_const(cx, Z3_mk_string_symbol(cx, nm), Z3_mk_bv_sort(cx, e->w)); if (symAst.size() <= e->c) symAst.resize(e->c + 1, nullptr); symAst[e->c] = r; break; }
      case E_ADD: r = Z3_mk_bvadd(cx, a, b); break; case E_SUB: r = Z3_mk_bvsub(cx, a, b); break; case E_MUL: r = Z3_mk_bvmul(cx, a, b); break;
      case E_UDIV: r = Z3_mk_bvudiv(cx, a, b); break; case E_SDIV: r = Z3_mk_bvsdiv(cx, a, b); break; case E_UREM: r = Z3_mk_bvurem(cx, a, b); break; case E_SREM: r = Z3_mk_bvsrem(cx, a, b); break;
      case E_AND: r = Z3_mk_bvand(cx, a, b); break; case E_OR: r = Z3_mk_bvor(cx, a, b); break; case E_XOR: r = Z3_mk_bvxor(cx, a, b); break;
      case E_SHL: r = Z3_mk_bvshl(cx, a, b); break; case E_LSHR: r = Z3_mk_bvlshr(cx, a, b); break; case E_ASHR: r = Z3_mk_bvashr(cx, a, b); break;
      case E_EQ: r = b2v(Z3_mk_eq(cx, a, b)); break; case E_ULT: r = b2v(Z3_mk_bvult(cx, a, b)); break; case E_SLT: r = b2v(Z3_mk_bvslt(cx, a, b)); break;
      case E_ZEXT: r = Z3_mk_zero_ext(cx, e->w - e->k[0]->w, a); break; case E_SEXT: r = Z3_mk_sign_ext(cx, e->w - e->k[0]->w, a); break;
      case E_EXTRACT: r = Z3_mk_extract(cx, e->c + e->w - 1, e->c, a); break; case E_CONCAT: r = Z3_mk_concat(cx, a, b); break;
      case E_ITE: r = Z3_mk_ite(cx, Z3_mk_eq(cx, a, num(1, 1)), b, tr(e->k[2])); break;
      case E_NOT: r = Z3_mk_bvnot(cx, a); break;
      case E_SELECT: { Table &T = EP.tables[e->c]; unsigned iw = T.iw; X i0 = e->k[0]; X ix = i0->w >= iw ? xExtract(i0, 0, iw) : xZext(i0, iw); Z3_ast idx = tr(ix);
        if (T.linear) { for (unsigned j = 0; j < iw; j++) { Z3_ast bj = Z3_mk_eq(cx, Z3_mk_extract(cx, j, j, idx), num(1, 1)); Z3_ast t = Z3_mk_ite(cx, bj, num(T.v[1u << j], T.ew), num(0, T.ew)); r = r ? Z3_mk_bvxor(cx, r, t) : t; } }
        else r = rtree(T, idx, iw, 0, iw);
        break; }
      case E_FP: { Z3_ast rne = Z3_mk_fpa_rne(cx), rtz = Z3_mk_fpa_rtz(cx);
        switch (e->aux) {
          case F_ADD: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_add(cx, rne, tf(e->k[0]), tf(e->k[1]))); break;
          case F_SUB: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_sub(cx, rne, tf(e->k[0]), tf(e->k[1]))); break;
          case F_MUL: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_mul(cx, rne, tf(e->k[0]), tf(e->k[1]))); break;
          case F_DIV: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_div(cx, rne, tf(e->k[0]), tf(e->k[1]))); break;
          case F_CMP: { Z3_ast x = tf(e->k[0]), y = tf(e->k[1]); Z3_ast uno[2] = {Z3_mk_fpa_is_nan(cx, x), Z3_mk_fpa_is_nan(cx, y)}; std::vector<Z3_ast> o; o.push_back(Z3_mk_false(cx));
            if (e->c & 8) o.push_back(Z3_mk_or(cx, 2, uno)); if (e->c & 4) o.push_back(Z3_mk_fpa_lt(cx, x, y)); if (e->c & 2) o.push_back(Z3_mk_fpa_gt(cx, x, y)); if (e->c & 1) o.push_back(Z3_mk_fpa_eq(cx, x, y));
            r = b2v(Z3_mk_or(cx, o.size(), o.data())); break; }
          case F_TOSI: case F_TOUI: { // out of range -> x86 "indefinite"
            Z3_ast x = tf(e->k[0]); Z3_ast v = e->aux == F_TOSI ? Z3_mk_fpa_to_sbv(cx, rtz, x, e->w) : Z3_mk_fpa_to_ubv(cx, rtz, x, e->w);
            double lo = e->aux == F_TOSI ? -std::ldexp(1.0, e->w - 1) : 0, hi = std::ldexp(1.0, e->aux == F_TOSI ? e->w - 1 : e->w);
            Z3_ast inr[2] = {Z3_mk_fpa_geq(cx, x, Z3_mk_fpa_numeral_double(cx, lo, fsort(e->k[0]->w))), Z3_mk_fpa_lt(cx, x, Z3_mk_fpa_numeral_double(cx, hi, fsort(e->k[0]->w)))};
            r = Z3_mk_ite(cx, Z3_mk_and(cx, 2, inr), v, num(e->aux == F_TOSI ? 1ULL << (e->w - 1) : maskw(e->w), e->w)); break; }
          case F_FROMSI: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_to_fp_signed(cx, rne, tr(e->k[0]), fsort(e->w))); break;
          case F_FROMUI: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_to_fp_unsigned(cx, rne, tr(e->k[0]), fsort(e->w))); break;
          case F_EXT: case F_TRUNC: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_to_fp_float(cx, rne, tf(e->k[0]), fsort(e->w))); break;
        }
        break; }
    }
    Z3_inc_ref(cx, r); e->z3 = r; return r;
  }
  bool hasFp = false;
  // Is path /\ cond satisfiable? 1 sat (model of the slice applied onto m), 0 unsat, -1 unknown
  int check(const std::vector<X> &path, X cond, Model &m) {
    if (isC(cond)) { if (!cond->c) return 0; cond = nullptr; }
    std::vector<X> sl; 
    if (cond) {
      std::unordered_set<u32> vars; for (u32 v : supp(cond)->v) vars.insert(v);
      std::vector<char> in(path.size(), 0); bool ch = true;
      while (ch) { ch = false; for (size_t i = 0; i < path.size(); i++) if (!in[i]) { const Supp *s = supp(path[i]); bool hit = false; for (u32 v : s->v) if (vars.count(v)) { hit = true; break; }
          if (hit) { in[i] = 1; ch = true; for (u32 v : s->v) vars.insert(v); } } }
      for (size_t i = 0; i < path.size(); i++) if (in[i]) sl.push_back(path[i]);
      sl.push_back(cond);
    } else sl = path;
    std::sort(sl.begin(), sl.end(), [](X a, X b) { return a->id < b->id; }); sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
    u64 key = 88172645463325252ULL; for (X x : sl) key = ExprPool::mix(key, x->id * 0x9e3779b97f4a7c15ULL);
    auto it = cache.find(key);
    if (it != cache.end()) { ncache++; if (it->second.first == 1) for (auto &p : it->second.second) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; } return it->second.first; }
    double t0 = nowS(); nq++;
    Z3_solver_reset(cx, sv);
    for (X x : sl) Z3_solver_assert(cx, sv, Z3_mk_eq(cx, tr(x), num(1, 1)));
    Z3_lbool r = Z3_solver_check(cx, sv);
    std::vector<std::pair<u32, u64>> vals;
    if (r == Z3_L_TRUE) {
      Z3_model md = Z3_solver_get_model(cx, sv); Z3_model_inc_ref(cx, md);
      std::set<u32> vs; for (X x : sl) for (u32 v : supp(x)->v) vs.insert(v);
      for (u32 v : vs) { Z3_ast o; u64 val = 0; if (Z3_model_eval(cx, md, symAst[v], true, &o)) { Z3_inc_ref(cx, o); if (!Z3_get_numeral_uint64(cx, o, &val)) val = 0; Z3_dec_ref(cx, o); } vals.push_back({v, val}); }
      Z3_model_dec_ref(cx, md);
    }
    double dt = nowS() - t0; tsolve += dt; if (dt > tmax) tmax = dt; if (slow > 0 && dt > slow && slowCb) slowCb(dt, (int)r, sl.size(), cond);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) { nsat++; Model t = m; for (auto &p : vals) { if (t.size() <= p.first) t.resize(p.first + 1, 0); t[p.first] = p.second; }
      EP.epoch++; for (X x : sl) if (!evalX(x, t)) { fprintf(stderr, "ENGINE-ERROR: solver model does not satisfy constraint (evaluator/translation mismatch)\n"); abort(); }
      m = t; }
    else if (res == 0) nunsat++; else nunk++;
    if (res >= 0) cache[key] = {res, vals};
    return res;
  }
};
extern Solver SV;
