//! entry ring_ops shards=4 time=200 reach=full_back,full_front,grow,shrink,moved,copied,thrown
//! entry ring_steps shards=2 time=200 reach=end
//! entry ring_iter time=100 reach=end
//! entry ring_default time=60 reach=end
//! entry ring_throw time=60 reach=boom,end
//! entry ring_alias time=60 reach=end
//! bound ring_ops: capacity 1..3 (thorough 5), every fill level, every rotation of the buffer, element values arbitrary 32-bit; two arbitrary public operations from each such state
//! bound ring_steps: capacity 1..3, histories of 4 (thorough 6) arbitrary operations from an empty ring
//! assume pops, front, back and operator[] are called within their preconditions (non-empty, index < size)
#include "sym.h"
#include "elem.h"
#include "Awl/Ring.h"
#include <vector>
#include <stdexcept>
#include <iterator>

namespace {
const int MAXN = 32;
template <class T> struct Pair {
  awl::ring<T> r;
  int v[MAXN]; size_t n = 0, cap = 0;   // reference model
  explicit Pair(size_t c) : r(c), cap(c) {}
  void m_back(int x) { if (n == cap) { for (size_t i = 1; i < n; ++i) v[i - 1] = v[i]; v[n - 1] = x; } else v[n++] = x; }
  void m_front(int x) { size_t k = n == cap ? n - 1 : n; for (size_t i = k; i > 0; --i) v[i] = v[i - 1]; v[0] = x; n = k + 1; }
  void m_pop_front() { for (size_t i = 1; i < n; ++i) v[i - 1] = v[i]; --n; }
};

template <class T> void same(const awl::ring<T> &c, const int *v, size_t n, size_t cap) {
  sym::check(c.size() == n, "size");
  sym::check(c.capacity() == cap, "capacity");
  sym::check(c.empty() == (n == 0), "empty");
  sym::check(c.full() == (n == cap), "full");
  size_t i = 0;
  for (auto &e : c) { sym::check(i < n && val(e) == v[i], "iteration yields the elements oldest first"); ++i; }
  sym::check(i == n, "iteration visits size() elements");
  for (i = 0; i < n; ++i) { sym::check(val(c[i]) == v[i], "operator[]"); sym::check(val(c.at(i)) == v[i], "at"); }
  i = n;
  for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; sym::check(val(*it) == v[i], "reverse iteration"); }
  sym::check(i == 0, "reverse iteration visits size() elements");
  if (n) { sym::check(val(c.front()) == v[0], "front"); sym::check(val(c.back()) == v[n - 1], "back"); }
  for (size_t bad : {n, cap + 1}) {
    bool thrown = false;
    if (bad >= n) { try { (void)c.at(bad); } catch (const std::out_of_range &) { thrown = true; } sym::check(thrown, "at() beyond the size throws out_of_range"); }
  }
}
// at() and operator[] for an arbitrary index
template <class T> void probe(awl::ring<T> &r, const int *v, size_t n) {
  size_t q = sym::any<size_t>("q");
  try { int x = val(static_cast<const awl::ring<T> &>(r).at(q)); sym::check(q < n && x == v[q], "at(q) yields element q for q < size()"); sym::check(val(r[q]) == v[q] && val(r.at(q)) == v[q], "operator[](q)"); }
  catch (const std::out_of_range &) { sym::check(q >= n, "at(q) throws only for q >= size()"); sym::reach("thrown"); }
}
template <class T> void same(Pair<T> &p) {
  same<T>(p.r, p.v, p.n, p.cap);
  if (p.n) { sym::check(val(p.r.front()) == p.v[0], "front"); sym::check(val(p.r.back()) == p.v[p.n - 1], "back"); }
  size_t i = 0; for (T &e : p.r) { sym::check(val(e) == p.v[i], "mutable iteration"); ++i; }
}

template <class T> void op(Pair<T> &p, int k, const char *nm) {
  switch (k) {
  case 0: { int x = sym::any<int>(nm); if (p.n == p.cap) sym::reach("full_back"); const T e(x); p.r.push_back(e); p.m_back(x); break; }
  case 1: { int x = sym::any<int>(nm); p.r.push_back(T(x)); p.m_back(x); break; }
  case 2: { int x = sym::any<int>(nm); if (p.n == p.cap) sym::reach("full_front"); const T e(x); p.r.push_front(e); p.m_front(x); break; }
  case 3: { int x = sym::any<int>(nm); p.r.push_front(T(x)); p.m_front(x); break; }
  case 4: if (p.n) { p.r.pop_front(); p.m_pop_front(); } break;
  case 5: if (p.n) { p.r.pop_back(); --p.n; } break;
  case 6: { size_t c = 1 + sym::choice(p.cap + 2, "newcap"); p.r.reserve(c); if (c > p.cap) sym::reach("grow");
      if (c < p.n) { sym::reach("shrink"); size_t d = p.n - c; for (size_t i = 0; i < c; ++i) p.v[i] = p.v[i + d]; p.n = c; } p.cap = c; break; }
  case 7: p.r.clear(); p.n = 0; break;
  case 8: { awl::ring<T> c(p.r); same<T>(c, p.v, p.n, p.cap); sym::check(c == p.r, "a copy equals the original");
      c.push_back(T(1)); c.push_front(T(2)); c.pop_back(); same<T>(p.r, p.v, p.n, p.cap); sym::reach("copied"); break; }
  case 9: { awl::ring<T> c(std::move(p.r)); same<T>(c, p.v, p.n, p.cap); p.r = std::move(c); sym::reach("moved"); break; }
  case 10: { awl::ring<T> c(2); c.push_back(T(7)); c.push_back(T(8)); c.push_back(T(9)); c = p.r; same<T>(c, p.v, p.n, p.cap); c.push_back(T(1)); break; }
  case 11: { awl::ring<T> c(2); c.push_back(T(7)); c = std::move(p.r); same<T>(c, p.v, p.n, p.cap); p.r = c; break; }
  case 12: { auto &q = p.r; p.r = q; p.r = std::move(q); break; }
  }
}
const int NOPS = 13;
// Any (capacity, offset, fill) state a history can produce.
template <class T> void prestate(Pair<T> &p, size_t off, size_t fill) {
  for (size_t i = 0; i < off; ++i) { p.r.push_back(T(0)); p.r.pop_front(); }
  for (size_t i = 0; i < fill; ++i) { int x = sym::any<int>("e"); p.r.push_back(T(x)); p.v[p.n++] = x; }
}
}

HARNESS(ring_ops) {
  sym_leak_scope L;
  {
    size_t cap = 1 + sym::choice(THOROUGH ? 5 : 3, "cap");
    size_t off = sym::choice(cap, "offset"), fill = sym::choice(cap + 1, "fill");
    Pair<Elem> p(cap);
    prestate(p, off, fill);
    op(p, sym::choice(NOPS, "op"), "x");
    same(p);
    op(p, sym::choice(NOPS, "op"), "x");
    same(p);
    probe(p.r, p.v, p.n);
    sym::observe("n", p.n);
    for (size_t i = 0; i < p.n; ++i) sym::observe("v", (unsigned)val(p.r[i]));
  }
  L.done();
}
HARNESS(ring_steps) {
  sym_leak_scope L;
  {
    Pair<int> p(1 + sym::choice(3, "cap"));
    const int map[] = {0, 2, 4, 5, 6};
    for (int i = 0; i < (THOROUGH ? 6 : 4); ++i) { op(p, map[sym::choice(5, "op")], "x"); }
    same(p);
    probe(p.r, p.v, p.n);
    sym::observe("n", p.n);
    sym::reach("end");
  }
  L.done();
}
HARNESS(ring_iter) {
  size_t cap = 1 + sym::choice(THOROUGH ? 5 : 3, "cap"), off = sym::choice(cap, "offset"), fill = sym::choice(cap + 1, "fill");
  Pair<int> p(cap);
  prestate(p, off, fill);
  size_t i = sym::range(0, fill, "i"), j = sym::range(0, fill, "j");
  auto b = p.r.begin(); auto a = b + (ptrdiff_t)i, c = b + (ptrdiff_t)j;
  sym::check(c - a == (ptrdiff_t)j - (ptrdiff_t)i, "iterator difference");
  sym::check((a == c) == (i == j) && (a != c) == (i != j) && (a < c) == (i < j), "iterator comparison");
  sym::check((a == p.r.end()) == (i == fill) && p.r.end() - b == (ptrdiff_t)fill, "end()");
  auto d = a; d += (ptrdiff_t)j - (ptrdiff_t)i; sym::check(d == c, "+="); d -= (ptrdiff_t)j - (ptrdiff_t)i; sym::check(d == a, "-=");
  sym::check(c - (ptrdiff_t)j == b, "iterator - n");
  if (i < fill) {
    sym::check(*a == p.v[i], "*it"); auto e = a; sym::check(*e++ == p.v[i] && e - a == 1, "it++"); sym::check(*--e == p.v[i], "--it"); e = a; ++e; e--; sym::check(e == a, "it--");
    int x = sym::any<int>("x"); *a = x; p.v[i] = x; sym::check(p.r[i] == x, "write through iterator");
    awl::ring<int>::const_iterator ca = a; sym::check(*ca == x, "const_iterator conversion");
  }
  awl::ring<int> q(cap); for (size_t k = 0; k < fill; ++k) q.push_back(p.v[k]);
  sym::check(q == p.r, "rings with equal contents are equal whatever the buffer layout");
  if (fill) { q.back() = q.back() + 1; sym::check(!(q == p.r), "rings with different contents differ"); awl::ring<int> z(p.r); z.pop_back(); sym::check(!(z == p.r), "prefix differs"); }
  same(p);
  sym::reach("end");
}
HARNESS(ring_default) {
  sym_leak_scope L;
  {
    awl::ring<Elem> r;
    sym::check(r.size() == 0 && r.empty() && r.capacity() == 0 && r.begin() == r.end(), "a default-constructed ring is empty");
    awl::ring<Elem> c(r); sym::check(c.empty() && c == r, "copy of an empty ring");
    awl::ring<Elem> s(2); s.push_back(Elem(1)); s = r; sym::check(s.empty() && s.size() == 0, "assignment from an empty ring");
    awl::ring<Elem> m(2); m.push_back(Elem(1)); awl::ring<Elem> m2(std::move(m));
    sym::check(m.empty() && m.size() == 0 && m2.size() == 1, "a moved-from ring is empty");
    m.reserve(3); int x = sym::any<int>("x"); m.push_back(Elem(x)); sym::check(m.size() == 1 && m.front().val() == x, "a moved-from ring can be reused");
    r.reserve(1); r.push_front(Elem(x)); r.push_front(Elem(5)); sym::check(r.size() == 1 && r.back().val() == 5, "reserve makes a default-constructed ring usable");
    sym::observe("x", (unsigned)m.front().val());
  }
  L.done();
  sym::reach("end");
}
HARNESS(ring_throw) {
  sym_leak_scope L;
  {
    size_t cap = 1 + sym::choice(3, "cap"), off = sym::choice(cap, "offset"), fill = sym::choice(cap + 1, "fill");
    Pair<Elem> p(cap); prestate(p, off, fill);
    Elem e(sym::any<int>("x")); bool boom = false;
    Elem::throw_in = 1;
    try { if (sym::choice(2, "front")) p.r.push_front(e); else p.r.push_back(e); } catch (Elem::Boom) { boom = true; }
    Elem::throw_in = 0;
    sym::check(boom, "the exception propagates");
    if (boom) sym::reach("boom");
    same(p); // a failed push changes nothing
  }
  L.done();
  sym::reach("end");
}
HARNESS(ring_alias) {
  sym_leak_scope L;
  {
    size_t cap = 1 + sym::choice(3, "cap"), off = sym::choice(cap, "offset"), fill = 1 + sym::choice(cap, "fill");
    Pair<Elem> p(cap); prestate(p, off, fill);
    size_t i = sym::choice(fill, "i"); int x = p.v[i];
    if (sym::choice(2, "front")) { p.r.push_front(p.r[i]); p.m_front(x); } else { p.r.push_back(p.r[i]); p.m_back(x); }
    same(p);
    sym::observe("n", p.n);
  }
  L.done();
  sym::reach("end");
}
