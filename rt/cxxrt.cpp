// The few out-of-line pieces of libstdc++ that its headers leave to the shared library (IR build only).
#include <iostream>
#include <unordered_map>
#include <new>
#include <stdexcept>
#include <list>
#include <map>
#include <functional>
template class std::basic_string<char>;
namespace std {
ostream cout, cerr, clog; istream cin;
namespace __detail {
  size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const unsigned p[] = {1, 2, 3, 5, 7, 11, 13, 17, 29, 37, 53, 97, 193, 389}; for (unsigned x : p) if (x >= n) { _M_next_resize = (size_t)(x * (double)_M_max_load_factor); return x; } _M_next_resize = n; return n; }
  pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > _M_next_resize) { size_t w = e + i + 1; if (w > b) return {true, _M_next_bkt(w > 2 * b ? w : 2 * b)}; } return {false, 0}; }
}
size_t _Hash_bytes(const void *, size_t n, size_t) { return 1; } // every key in one chain
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "exception"; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const string &m) { char *p = (char *)__builtin_malloc(m.size() + 1); m.copy(p, m.size()); p[m.size()] = 0; _M_p = p; }
__cow_string::__cow_string(const char *m, size_t n) { char *p = (char *)__builtin_malloc(n + 1); __builtin_memcpy(p, m, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
logic_error::~logic_error() noexcept {}
runtime_error::~runtime_error() noexcept {}
logic_error::logic_error(const string &m) : _M_msg(m) {} logic_error::logic_error(const char *m) : _M_msg(string(m)) {} logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {} const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &m) : _M_msg(m) {} runtime_error::runtime_error(const char *m) : _M_msg(string(m)) {} runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {} const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define VF_EXC(c, b) c::c(const string &m) : b(m) {} c::c(const char *m) : b(m) {} c::~c() noexcept {}
VF_EXC(invalid_argument, logic_error) VF_EXC(out_of_range, logic_error) VF_EXC(length_error, logic_error) VF_EXC(domain_error, logic_error) VF_EXC(range_error, runtime_error) VF_EXC(overflow_error, runtime_error) VF_EXC(underflow_error, runtime_error)
// red-black trees without the rebalancing: an ordered binary tree has the same observable behaviour
static _Rb_tree_node_base *tmin(_Rb_tree_node_base *x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base *tmax(_Rb_tree_node_base *x) { while (x->_M_right) x = x->_M_right; return x; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { if (x->_M_right) return tmin(x->_M_right); _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x && x->_M_parent->_M_color != _S_red) return x->_M_right; if (x->_M_left) return tmax(x->_M_left); _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() { x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black; if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *r = 0; auto put = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) { r = z->_M_right; put(z, r); } else if (!z->_M_right) { r = z->_M_left; put(z, r); }
  else { _Rb_tree_node_base *y = tmin(z->_M_right); if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (h._M_parent) { h._M_left = tmin(h._M_parent); h._M_right = tmax(h._M_parent); } else { h._M_left = h._M_right = &h; } return z; }
namespace __detail {
  void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
  void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
  void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
  void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
  void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
}
#include <new>
#include <chrono>
#include <cstdlib>
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return ::operator new(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return ::operator new[](n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { ::operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { ::operator delete[](p); }
namespace std { const nothrow_t nothrow{}; namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(1000000000000000000L)); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000L)); } } } }
namespace std { void __throw_length_error(const char *m) { throw length_error(m); } void __throw_out_of_range(const char *m) { throw out_of_range(m); } void __throw_out_of_range_fmt(const char *m, ...) { throw out_of_range(m); } void __throw_logic_error(const char *m) { throw logic_error(m); } void __throw_invalid_argument(const char *m) { throw invalid_argument(m); } void __throw_runtime_error(const char *m) { throw runtime_error(m); } void __throw_domain_error(const char *m) { throw domain_error(m); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_alloc(); } }
