// Library pieces that the engine executes symbolically (the native replay
// build uses the real libc / libstdc++ instead).
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstdarg>
#include <string>
#include <map>
#include <stdexcept>
#include <new>
#include <cerrno>
#include <functional>
#include <unordered_map>
#include <system_error>
#include <typeinfo>
#include <chrono>
#include <cstring>
#include "osym.h"
namespace std {
// red-black tree support
static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root = header._M_parent; _Rb_tree_node_base*& leftmost = header._M_left; _Rb_tree_node_base*& rightmost = header._M_right;
  _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_left) q = q->_M_left; leftmost = q; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_right) q = q->_M_right; rightmost = q; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
        }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t k = 7; while (k < n) k = 2 * k + 1; _M_next_resize = k; return k; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
  if (elt + ins > _M_next_resize) { std::size_t k = _M_next_bkt(std::max(elt + ins + 1, bkt * 2)); return {true, k}; }
  return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { unsigned char const* a = (unsigned char const*)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ a[i]) * 1099511628211UL; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
template class basic_string<char>;
const nothrow_t nothrow{};
// exceptions thrown by the library
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string& x) { char* p = (char*)malloc(x.size() + 1); for (size_t i = 0; i <= x.size(); ++i) p[i] = x.c_str()[i]; _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
#define EXC(T, B) T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error) EXC(domain_error, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(char const* s) { throw logic_error(s); }
void __throw_length_error(char const* s) { throw length_error(s); }
void __throw_invalid_argument(char const* s) { throw invalid_argument(s); }
void __throw_out_of_range(char const* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(char const* s, ...) { throw out_of_range(s); }
void __throw_domain_error(char const* s) { throw domain_error(s); }
void __throw_runtime_error(char const* s) { throw runtime_error(s); }
}

namespace std { namespace chrono { inline namespace _V2 {
static long osym_now = 0;
steady_clock::time_point steady_clock::now() noexcept { osym_now += 1000; return time_point(duration(osym_now)); }
system_clock::time_point system_clock::now() noexcept { osym_now += 1000; return time_point(duration(osym_now)); }
} } }
