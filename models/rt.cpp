// Bodies for the parts of libstdc++/libc that live in shared libraries, for the symbolic run only.
#include <new>
#include <exception>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <system_error>
#include <functional>
#include <map>
#include <list>
#include <optional>
#include <variant>
#include <unordered_map>
#include <cstring>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <thread>
#include <memory>
#include <ios>
#include <cwchar>
#include <cerrno>
#include "sym.h"

extern "C" char __libc_single_threaded;
char __libc_single_threaded = 1;

void *operator new(size_t n) { void *p = __sym_new(n, 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __sym_new(n, 2); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __sym_new(n, 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __sym_new(n, 2); }
void *operator new(size_t n, std::align_val_t) { void *p = __sym_new(n, 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { __sym_delete(p, 1, ~(size_t)0); }
void operator delete[](void *p) noexcept { __sym_delete(p, 2, ~(size_t)0); }
void operator delete(void *p, size_t n) noexcept { __sym_delete(p, 1, n); }
void operator delete[](void *p, size_t) noexcept { __sym_delete(p, 2, ~(size_t)0); }
void operator delete(void *p, std::align_val_t) noexcept { __sym_delete(p, 1, ~(size_t)0); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { __sym_delete(p, 1, n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { __sym_delete(p, 1, ~(size_t)0); }

extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
// "C" locale restricted to ASCII: anything else is an encoding error
size_t mbsrtowcs(wchar_t *d, const char **src, size_t n, mbstate_t *) { size_t i = 0; const char *s = *src; for (; !d || i < n; ++i) { unsigned char c = s[i]; if (c >= 128) { if (d) *src = s + i; return (size_t)-1; } if (d) d[i] = c; if (!c) { if (d) *src = nullptr; return i; } } *src = s + i; return i; }
size_t wcsrtombs(char *d, const wchar_t **src, size_t n, mbstate_t *) { size_t i = 0; const wchar_t *s = *src; for (; !d || i < n; ++i) { unsigned c = s[i]; if (c >= 128) { if (d) *src = s + i; return (size_t)-1; } if (d) d[i] = (char)c; if (!c) { if (d) *src = nullptr; return i; } } *src = s + i; return i; }
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
void *rt_memchr(const void *p, int c, size_t n) asm("memchr");
void *rt_memchr(const void *p, int c, size_t n) { auto *q = (unsigned char *)p; for (size_t i = 0; i < n; ++i) if (q[i] == (unsigned char)c) return q + i; return nullptr; }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) { if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else for (size_t i = n; i-- > 0;) d[i] = s[i]; return d; }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t *rt_wmemchr(const wchar_t *s, wchar_t c, size_t n) asm("wmemchr");
wchar_t *rt_wmemchr(const wchar_t *s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar_t *)s + i; return nullptr; }
void *calloc(size_t a, size_t b) { void *p = __sym_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : (c >= -128 && c < -1) ? c + 256 : c; } // glibc, "C" locale
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
wint_t towlower(wint_t c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int iswspace(wint_t c) { return c == ' ' || (c >= 9 && c <= 13); }
int *__errno_location() { static int e; return &e; }
// numbers in the "C" locale
static uint64_t __sym_strto(const char *s, char **end, int base, uint64_t max, uint64_t min, bool uns) {
  const char *p = s; while (*p == ' ' || (*p >= '\t' && *p <= '\r')) ++p;
  bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
  if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && ((p[2] >= '0' && p[2] <= '9') || ((p[2] | 32) >= 'a' && (p[2] | 32) <= 'f'))) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned __int128 v = 0; const char *q = p; bool over = false;
  for (;; ++q) {
    unsigned c = (unsigned char)*q, d; if (c - '0' <= 9u) d = c - '0'; else if ((c | 32) - 'a' <= 25u) d = (c | 32) - 'a' + 10; else break;
    if (d >= (unsigned)base) break;
    if (q - p > 24 && v >> 64) over = true; else v = v * (unsigned)base + d;
  }
  if (end) *end = (char *)(q == p ? s : q); if (q == p) return 0;
  if (over || v > (neg && !uns ? min : max)) { errno = ERANGE; return neg && !uns ? 0 - min : max; }
  return neg ? 0 - (uint64_t)v : (uint64_t)v;
}
long strtol(const char *s, char **e, int b) { return (long)__sym_strto(s, e, b, INT64_MAX, (uint64_t)1 << 63, false); }
long long strtoll(const char *s, char **e, int b) { return (long long)__sym_strto(s, e, b, INT64_MAX, (uint64_t)1 << 63, false); }
unsigned long strtoul(const char *s, char **e, int b) { return __sym_strto(s, e, b, UINT64_MAX, 0, true); }
unsigned long long strtoull(const char *s, char **e, int b) { return __sym_strto(s, e, b, UINT64_MAX, 0, true); }
}

// ---- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static const char *dupstr(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__sym_malloc(n); memcpy(p, s, n); return p; }
__cow_string::__cow_string() : _M_p(dupstr("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupstr(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t n) { char *p = (char *)__sym_malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { __sym_free((void *)_M_p); _M_p = dupstr(o._M_p); } return *this; }
__cow_string::~__cow_string() { __sym_free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }

#define EXC1(T, B) \
  T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} \
  T::~T() noexcept {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC1(domain_error, logic_error)
EXC1(invalid_argument, logic_error)
EXC1(length_error, logic_error)
EXC1(out_of_range, logic_error)
EXC1(range_error, runtime_error)
EXC1(overflow_error, runtime_error)
EXC1(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
}

// ---- strings
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;

// ---- trees (the published algorithms of tree.cc)
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left != 0) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotl(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left != 0) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right != 0) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
  _Rb_tree_node_base *&root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base *const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
    } else {
      _Rb_tree_node_base *const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
  _Rb_tree_node_base *&root = header._M_parent; _Rb_tree_node_base *&leftmost = header._M_left; _Rb_tree_node_base *&rightmost = header._M_right;
  _Rb_tree_node_base *y = z; _Rb_tree_node_base *x = 0; _Rb_tree_node_base *xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
        }
      } else {
        _Rb_tree_node_base *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---- std::list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto *const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
// ---- hash tables
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 53, 67, 97, 131, 193, 257, 389, 521, 769, 1031, 2053, 4099};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : primes) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; } _M_next_resize = ~(size_t)0; return 4099; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) {
    size_t need = elt + ins; if (_M_next_resize == 0 && need < 11) need = 11;
    if (need >= bkt) return {true, _M_next_bkt(std::max(need + 1, bkt * 2))};
    _M_next_resize = bkt;
  }
  return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; auto *c = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; return h; }

// ---- synchronisation
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
}
extern "C" {
// Time passes only when a timed wait ends: the clock then shows at least its deadline.
int __sym_cond_timedwait(pthread_cond_t *, pthread_mutex_t *);
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { uint64_t d = (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; if (d - __sym_kv_get("clock") > 100000000000000000ull) return pthread_cond_wait(c, m); /* years: never */ int r = __sym_cond_timedwait(c, m); if (r) { if (d > __sym_kv_get("clock")) __sym_kv_set("clock", d); } return r; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *t) { return pthread_cond_timedwait(c, m, t); }
static void __sym_thread_entry(void *p) { std::thread::_State *st = static_cast<std::thread::_State *>(p); st->_M_run(); delete st; }
}
namespace std {
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)__sym_kv_get("clock"))); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)__sym_kv_get("clock"))); }
} }
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)()) { if (__libc_single_threaded) __libc_single_threaded = 0; int k = __sym_thread_create(__sym_thread_entry, st.release()); _M_id = id((pthread_t)(k + 1)); }
void thread::join() { if (_M_id == id()) throw system_error(make_error_code(errc::invalid_argument)); __sym_thread_join((int)_M_id._M_thread - 1); _M_id = id(); }
void thread::detach() { if (_M_id == id()) throw system_error(make_error_code(errc::invalid_argument)); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
}
