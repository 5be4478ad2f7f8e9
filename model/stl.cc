// The parts of libstdc++ and libc that live in shared libraries, for the symbolic engine only.
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <list>
#include <map>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <unordered_map>
#include <vector>
#include "vf.h"

template class std::basic_string<char>;
template std::string std::operator+(const char*, const std::string&);
template std::string std::operator+(std::string&&, const char*);

// ---- red-black tree interface: a plain binary search tree has the same observable order
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // header: rightmost
  if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;  // only the header stays red
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = nullptr;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    if (h._M_parent == z) h._M_parent = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
  } else {
    if (x) x->_M_parent = z->_M_parent;
    if (h._M_parent == z) h._M_parent = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (h._M_left == z) {
      if (!z->_M_right) h._M_left = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; }
    }
    if (h._M_right == z) {
      if (!z->_M_left) h._M_right = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; }
    }
  }
  return z;
}

// ---- lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  this->_M_prev->_M_next = this->_M_next;
  this->_M_next->_M_prev = this->_M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next);
      std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next;
      y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next;
    x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}

// ---- hash tables
static const unsigned long kPrimes[] = {1, 2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  for (unsigned long p : kPrimes)
    if (p >= n && p > 1) { _M_next_resize = (std::size_t)p; return p; }
  vf_fail("model: hash table too large");
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
  if (ne + ni > _M_next_resize) {
    std::size_t mb = ne + ni;
    if (_M_next_resize == 0 && mb < 11) mb = 11;
    if (mb > nb) {
      std::size_t want = mb + 1 > nb * 2 ? mb + 1 : nb * 2;
      return {true, _M_next_bkt(want)};
    }
    _M_next_resize = nb;
  }
  return {false, 0};
}
}  // namespace __detail

// MurmurHash as in libstdc++.
static inline size_t vf_load_bytes(const char* p, int n) {
  size_t r = 0;
  for (--n; n >= 0; --n) r = (r << 8) + (unsigned char)p[n];
  return r;
}
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const char* const buf = static_cast<const char*>(ptr);
  const size_t aligned = len & ~(size_t)0x7;
  const char* const end = buf + aligned;
  size_t hash = seed ^ (len * mul);
  for (const char* p = buf; p != end; p += 8) {
    size_t d = 0;
    __builtin_memcpy(&d, p, 8);
    d *= mul;
    d ^= d >> 47;
    d *= mul;
    hash ^= d;
    hash *= mul;
  }
  if ((len & 0x7) != 0) {
    const size_t data = vf_load_bytes(end, len & 0x7);
    hash ^= data;
    hash *= mul;
  }
  hash ^= hash >> 47;
  hash *= mul;
  hash ^= hash >> 47;
  return hash;
}

// ---- threads
thread::_State::~_State() = default;

// ---- filesystem paths: only the text matters
namespace filesystem {
inline namespace __cxx11 {
path::_List::_List() {}
path::_List::_List(const _List& o) { memcpy((void*)this, &o, sizeof *this); }
path::_List& path::_List::operator=(const _List& o) { memcpy((void*)this, &o, sizeof *this); return *this; }
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
// a path without a directory is its own file name; the parts of others are not modelled
void path::_M_split_cmpts() {
  const uintptr_t kind = !_M_pathname.empty() && _M_pathname.find('/') == string_type::npos ? (uintptr_t)_Type::_Filename : 0;
  memcpy((void*)&_M_cmpts, &kind, sizeof kind);
}
path& path::operator+=(const path& p) { _M_pathname += p._M_pathname; _M_split_cmpts(); return *this; }
void path::_M_concat(basic_string_view<value_type> s) { _M_pathname.append(s.data(), s.size()); _M_split_cmpts(); }
void path::_M_append(basic_string_view<value_type> s) {
  if (!s.empty() && s[0] == '/') _M_pathname.clear();
  else if (!_M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/';
  _M_pathname.append(s.data(), s.size());
  _M_split_cmpts();
}
path& path::operator/=(const path& p) { string_type copy = p._M_pathname; _M_append(copy); return *this; }
pair<const path::string_type*, size_t> path::_M_find_extension() const noexcept {
  const size_t slash = _M_pathname.rfind('/'), dot = _M_pathname.rfind('.');
  const size_t base = slash == string_type::npos ? 0 : slash + 1;
  if (_M_pathname.size() == base || dot == string_type::npos || dot <= base) return {&_M_pathname, string_type::npos};
  return {&_M_pathname, dot};
}
path& path::replace_extension(const path& p) {
  const auto e = _M_find_extension();
  if (e.second != string_type::npos) _M_pathname.erase(e.second);
  if (!p._M_pathname.empty() && p._M_pathname[0] != '.') _M_pathname += '.';
  _M_pathname += p._M_pathname;
  _M_split_cmpts();
  return *this;
}
path path::parent_path() const {
  const size_t slash = _M_pathname.rfind('/');
  if (slash == string_type::npos) return path();
  size_t n = slash;
  while (n && _M_pathname[n - 1] == '/') n--;
  return path(_M_pathname.substr(0, n ? n : 1));
}
}  // namespace __cxx11
}  // namespace filesystem
}  // namespace std

extern "C" void vf_thread_main(std::thread::_State* s) {
  s->_M_run();
  delete s;
}

static thread_local int g_errno;
extern "C" int* vm___errno_location() { return &g_errno; }

// error categories: only their identity matters
namespace std {
alignas(8) static char g_generic[8], g_system[8];
inline namespace _V2 {
const error_category& generic_category() noexcept { return *reinterpret_cast<error_category*>(g_generic); }
const error_category& system_category() noexcept { return *reinterpret_cast<error_category*>(g_system); }
}
}
