//! entry vs_query time=200 reach=dup,fresh,found,absent,thrown
//! entry vs_struct shards=4 time=200 reach=erased,all_erased
//! entry vs_balance shards=2 time=200 reach=end
//! entry vs_balance2 shards=2 time=200 reach=end
//! entry vs_balance_erased
//! entry vs_erase_it time=150 reach=end
//! entry vs_copy time=100 reach=end
//! entry vs_hetero time=100 reach=end
//! entry vs_throw time=100 reach=boom,end
//! entry vs_at time=60 reach=thrown,ok
//! bound vs_query: every relative order (with ties) of 5 (thorough 6) inserted 32-bit keys and one arbitrary probe key or index
//! bound vs_struct: 8 (thorough 9) elements with arbitrary increasing 32-bit keys inserted in one of 4 orders, then 3 (thorough 5) erased in every order, then one more inserted
//! bound vs_balance: 11, 15, 19 (thorough 20 to 39) elements inserted in 3 base orders permuted by every arithmetic progression; the depth seen through comparator calls is at most 2*log2(n+1)
//! bound vs_balance2: 19 and 23 (thorough 31 and 37) elements, erased along every arithmetic progression, checked at 14, 10 and 6 remaining against the depth allowed for the largest size
//! assume comparators are strict weak orders and do not throw
#include "sym.h"
#include "elem.h"
#include "Awl/VectorSet.h"
#include "Awl/KeyCompare.h"
#include <stdexcept>
#include <vector>

namespace {
template <class S> void same(S &s, const int *v, size_t n) {
  const S &c = s;
  sym::check(c.size() == n, "size"); sym::check(c.empty() == (n == 0), "empty");
  size_t i = 0;
  for (auto &e : c) { sym::check(i < n && val(e) == v[i], "iteration is in increasing order"); ++i; }
  sym::check(i == n, "iteration visits every element once");
  for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; sym::check(val(*it) == v[i], "reverse iteration"); }
  sym::check(i == 0, "reverse iteration visits every element once");
  for (auto it = s.begin(); it != s.end(); ++it, ++i) { sym::check(s.index_of(it) == i, "index_of(iterator)"); sym::check(val(c[i]) == v[i] && val(s.at(i)) == v[i] && s.find_by_index(i) == it, "access by index"); }
  auto it = s.end(); while (i) { --it; --i; sym::check(val(*it) == v[i], "backward iteration from end()"); }
  sym::check(it == s.begin(), "backward iteration reaches begin()");
  if (n) { sym::check(val(c.front()) == v[0] && val(c.back()) == v[n - 1], "front/back"); }
  sym::check(s.find_by_index(n) == s.end() && c.find_by_index(n + 1) == c.end(), "find_by_index beyond the size");
}
size_t ins(int *v, size_t n, int x) { size_t i = 0; while (i < n && v[i] < x) ++i; if (i < n && v[i] == x) return n; for (size_t j = n; j > i; --j) v[j] = v[j - 1]; v[i] = x; return n + 1; }
}

HARNESS(vs_query) {
  sym_leak_scope L;
  {
    awl::vector_set<int> s; int v[8]; size_t n = 0;
    for (int i = 0; i < (THOROUGH ? 6 : 5); ++i) {
      int k = sym::any<int>("k"); size_t m = ins(v, n, k);
      auto r = (i % 3 == 0) ? s.insert(k) : (i % 3 == 1) ? s.insert(std::move(k)) : s.emplace(k);
      sym::check(r.second == (m != n), "insert reports whether the key is new"); sym::check(*r.first == k, "insert returns the element");
      sym::reach(m == n ? "dup" : "fresh");
      n = m;
    }
    int q = sym::any<int>("q");
    size_t lo = 0; while (lo < n && v[lo] < q) ++lo;
    bool has = lo < n && v[lo] == q; size_t hi = lo + has;
    const auto &c = s;
    switch (sym::choice(4, "kind")) {
    case 0:
      sym::check(s.contains(q) == has && (s.find(q) != s.end()) == has && (c.find(q) != c.end()) == has, "contains/find");
      if (has) { sym::check(*s.find(q) == q && *c.find(q) == q, "find yields the key"); sym::reach("found"); } else sym::reach("absent");
      break;
    case 1: {
      auto l = s.lower_bound(q); auto u = s.upper_bound(q); auto cl = c.lower_bound(q); auto cu = c.upper_bound(q);
      sym::check(l == s.find_by_index(lo) && cl == c.find_by_index(lo), "lower_bound"); sym::check(u == s.find_by_index(hi) && cu == c.find_by_index(hi), "upper_bound");
      sym::check((l == s.end()) == (lo == n) && (u == s.end()) == (hi == n), "bounds at the end"); break; }
    case 2: {
      auto [it, ix] = s.find2(q); auto [cit, cix] = c.find2(q);
      sym::check((it != s.end()) == has && (cit != c.end()) == has, "find2 position"); if (has) sym::check(ix == lo && cix == lo && *it == q, "find2 index");
      bool thrown = false; try { sym::check(s.index_of(q) == lo, "index_of(key)"); } catch (const std::out_of_range &) { thrown = true; sym::reach("thrown"); } sym::check(thrown == !has, "index_of throws for an absent key"); break; }
    case 3:
      sym::check(s.erase(q) == (size_t)has, "erase(key) count");
      if (has) { for (size_t j = lo + 1; j < n; ++j) v[j - 1] = v[j]; --n; }
      break;
    }
    same(s, v, n);
    sym::observe("n", n); for (size_t i = 0; i < n; ++i) sym::observe("v", (unsigned)v[i]);
  }
  L.done();
}

// Elements with arbitrary increasing keys: the container sees nothing but their order.
static void keys(int *k, size_t n) { for (size_t i = 0; i < n; ++i) { k[i] = sym::any<int>("key"); if (i) sym::assume(k[i - 1] < k[i]); } }
static void order(int *o, size_t n, unsigned kind) {
  for (size_t i = 0; i < n; ++i) o[i] = kind == 0 ? i : kind == 1 ? n - 1 - i : kind == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (i * 5 + 3) % n;
}
HARNESS(vs_struct) {
  sym_leak_scope L;
  {
    const size_t N = THOROUGH ? 9 : 8; const int E = THOROUGH ? 5 : 3;
    int k[N], o[N]; keys(k, N);
    bool in[N]; awl::vector_set<Elem> s;
    order(o, N, sym::choice(4, "order"));
    for (size_t i = 0; i < N; ++i) { s.emplace(k[o[i]]); in[i] = true; }
    for (int e = 0; e < E; ++e) {
      size_t d = sym::choice(N, "victim");
      sym::check(s.erase(k[d]) == (size_t)in[d], "erase(key) count"); in[d] = false; sym::reach("erased");
    }
    size_t d = sym::choice(N, "again"); auto r = s.insert(Elem(k[d])); sym::check(r.second == !in[d], "reinsertion"); in[d] = true;
    int v[N]; size_t n = 0; for (size_t i = 0; i < N; ++i) if (in[i]) v[n++] = k[i];
    same(s, v, n);
    for (size_t i = 0; i < N; ++i) sym::check(s.contains(k[i]) == in[i], "lookup after erase");
    if (d == 0) { while (!s.empty()) s.erase(s.begin()); same(s, v, 0); sym::reach("all_erased"); }
    sym::observe("n", n);
  }
  L.done();
}
namespace { struct Cnt { static inline unsigned n; bool operator()(int a, int b) const { ++n; return a < b; } }; }
// height of a red-black tree with n nodes: h <= 2*log2(n+1), i.e. 2^h <= (n+1)^2; every level costs at most two comparisons
static unsigned levels(size_t n) { unsigned h = 0; while ((1ull << (h + 1)) <= (uint64_t)(n + 1) * (n + 1)) ++h; return h; }
template <class S> static void depth(S &s, const int *k, const bool *in, size_t N, size_t peak, const char *msg) {
  unsigned hmax = levels(peak);
  for (size_t i = 0; i < N; ++i) { Cnt::n = 0; bool f = s.contains(k[i]); sym::check(f == in[i], "lookup"); sym::check(Cnt::n <= 2 * hmax, msg); }
}
HARNESS(vs_balance) {
  const size_t N = THOROUGH ? 20 + sym::choice(20, "size") : 11 + 4 * sym::choice(3, "size");
  int k[40], o[40]; keys(k, N);
  awl::vector_set<int, Cnt> s; bool in[40] = {};
  size_t st = 1 + sym::choice(N - 1, "stride"), p = sym::choice(N, "start"), kind = sym::choice(3, "order");
  order(o, N, kind);
  for (size_t i = 0; i < N; ++i) {
    size_t d = o[p]; p = (p + st) % N;
    sym::check(s.insert(k[d]).second == !in[d], "insertion"); in[d] = true;
    if (i % 4 == 2 || i + 1 == N) depth(s, k, in, N, s.size(), "after insertions a lookup visits at most 2*log2(n+1) levels");
  }
  sym::reach("end");
}
HARNESS(vs_balance2) {
  // every arithmetic-progression erase order: the tree never becomes deeper than a balanced tree of its largest size
  const size_t N = THOROUGH ? (sym::choice(2, "size") ? 37 : 31) : sym::choice(2, "size") ? 23 : 19;
  int k[40], o[40]; keys(k, N);
  awl::vector_set<int, Cnt> s; bool in[40];
  order(o, N, THOROUGH ? sym::choice(3, "order") : 0);
  size_t st = 1 + sym::choice(N - 1, "stride"), p = sym::choice(N, "start");
  for (size_t i = 0; i < N; ++i) { s.insert(k[o[i]]); in[i] = true; }
  for (size_t n = N; n > 5;) {
    n -= s.erase(k[p]); in[p] = false; p = (p + st) % N;
    if (in[p] == false) p = (p + 1) % N;
    if (n != 14 && n != 10 && n != 6) continue;
    sym::check(s.size() == n, "size");
    depth(s, k, in, N, N, "after erasures a lookup visits at most 2*log2(N+1) levels, N the largest size so far");
  }
  sym::reach("end");
}
// Known finding: erasing a black leaf (its child is null) skips the rebalancing, so the tree degenerates towards a list.
HARNESS(vs_balance_erased) {
  const size_t N = 31; int k[N]; keys(k, N);
  awl::vector_set<int, Cnt> s; bool in[N];
  for (size_t i = 0; i < N; ++i) { s.insert(k[i]); in[i] = true; }
  for (size_t n = N, p = 7; n > 14; --n) { while (!in[p]) p = (p + 1) % N; s.erase(k[p]); in[p] = false; p = (p + 3) % N; }
  depth(s, k, in, N, s.size(), "31 ascending insertions, then every third element erased from the eighth on until 14 remain: deeper than 2*log2(n+1)");
}
HARNESS(vs_erase_it) {
  sym_leak_scope L;
  {
    const size_t N = 6; int k[N], o[N]; keys(k, N); awl::vector_set<Elem> s; order(o, N, sym::choice(4, "order"));
    for (size_t i = 0; i < N; ++i) s.emplace(k[o[i]]);
    size_t d = sym::choice(N, "d"); auto keep = s.find_by_index((d + 1) % N); const Elem *addr = &*keep; auto it = s.find_by_index(d);
    s.erase(it);
    sym::check(&*keep == addr && keep->val() == k[(d + 1) % N], "iterators and references to other elements stay valid");
    int v[N]; size_t n = 0; for (size_t i = 0; i < N; ++i) if (i != d) v[n++] = k[i];
    same(s, v, n);
    s.insert(Elem(k[d])); same(s, k, N);
    sym::check(&*keep == addr, "insertion keeps references valid");
    s.clear(); same(s, k, 0); s.insert(Elem(k[0])); same(s, k, 1);
  }
  L.done(); sym::reach("end");
}
HARNESS(vs_copy) {
  sym_leak_scope L;
  {
    const size_t N = 5; int k[N], o[N]; keys(k, N); order(o, N, sym::choice(4, "order"));
    size_t n = sym::choice(N + 1, "n"); awl::vector_set<Elem> s; int v[N + 1]; size_t m = 0;
    for (size_t i = 0; i < n; ++i) { s.emplace(k[o[i]]); m = ins(v, m, k[o[i]]); }
    switch (sym::choice(8, "op")) {
    case 0: { awl::vector_set<Elem> c(s); same(c, v, m); sym::check(c == s && !(c != s), "copy equals"); if (m) { c.erase(c.begin()); sym::check(c != s, "a modified copy differs"); } same(s, v, m); break; }
    case 1: { awl::vector_set<Elem> c(std::move(s)); same(c, v, m); same(s, v, 0); s.emplace(3); int w[1] = {3}; same(s, w, 1); c.clear(); break; }
    case 2: { awl::vector_set<Elem> c; c.emplace(7); c = s; same(c, v, m); same(s, v, m); break; }
    case 3: { awl::vector_set<Elem> c; c.emplace(7); c.emplace(8); c = std::move(s); same(c, v, m); same(s, v, 0); break; }
    case 4: { auto &r = s; s = r; same(s, v, m); break; }
    case 5: { std::vector<Elem> t; for (size_t i = 0; i < n; ++i) t.emplace_back(k[o[i]]); awl::vector_set<Elem> c(t.begin(), t.end(), std::less<>()); same(c, v, m); sym::check(c == s, "insertion order does not matter for equality"); break; }
    case 6: { awl::vector_set<Elem> c{Elem(k[2]), Elem(k[0]), Elem(k[2]), Elem(k[1])}; same(c, k, 3); break; }
    case 7: { awl::vector_set<Elem> c; for (size_t i = 0; i < n; ++i) c.emplace(k[o[n - 1 - i]]); sym::check(c == s, "equal sets built in different orders"); if (m) { int last = v[m - 1]; c.erase(last); int x = sym::any<int>("x"); bool dup = c.contains(x); c.emplace(x); sym::check((c == s) == (!dup && x == last), "equality compares every element"); } break; }
    }
    sym::observe("m", m);
  }
  L.done(); sym::reach("end");
}
namespace { struct Rec { int id; int data; int get() const { return id; } }; }
HARNESS(vs_hetero) {
  using C = awl::member_compare<&Rec::id>;
  awl::vector_set<Rec, C> s; int k[3]; keys(k, 3);
  s.insert(Rec{k[1], 10}); s.insert(Rec{k[0], 20}); s.insert(Rec{k[2], 30});
  sym::check(!s.insert(Rec{k[0], 40}).second && s.find(k[0])->data == 20, "an existing element is not replaced");
  int q = sym::any<int>("q"); auto it = s.find(q);
  sym::check((it != s.end()) == (q == k[0] || q == k[1] || q == k[2]), "heterogeneous find");
  if (it != s.end()) { it->data = 5; sym::check(s.find(q)->data == 5, "elements are mutable through iterators"); sym::check(s.index_of(q) == s.index_of(it), "index_of key and iterator agree"); }
  sym::check(s.erase(q) == (size_t)(q == k[0] || q == k[1] || q == k[2]), "heterogeneous erase");
  sym::reach("end");
}
HARNESS(vs_throw) {
  sym_leak_scope L;
  {
    int k[4]; keys(k, 4); awl::vector_set<Elem> s; size_t n = sym::choice(4, "n"); for (size_t i = 0; i < n; ++i) s.emplace(k[i]);
    Elem e(k[3]); bool boom = false;
    unsigned w = sym::choice(3, "w");
    Elem::throw_in = w == 0 ? 1 : 1 + (int)sym::choice(3, "nth");
    try { if (w == 0) s.insert(e); else if (w == 1) { awl::vector_set<Elem> c(s); } else { awl::vector_set<Elem> c(s.begin(), s.end(), std::less<>()); } } catch (Elem::Boom) { boom = true; }
    Elem::throw_in = 0;
    if (boom) sym::reach("boom"); if (w == 0) sym::check(boom, "the exception propagates");
    same(s, k, n);
  }
  L.done(); sym::reach("end");
}
HARNESS(vs_at) {
  awl::vector_set<int> s; size_t n = sym::choice(4, "n"); for (size_t i = 0; i < n; ++i) s.insert((int)i * 2);
  size_t q = sym::range(0, 40, "q"); bool thrown = false;
  try { sym::check(s.at(q) == (int)q * 2, "at"); sym::reach("ok"); } catch (const std::out_of_range &) { thrown = true; sym::reach("thrown"); }
  sym::check(thrown == (q >= n), "at() throws exactly for indices beyond the size");
}
