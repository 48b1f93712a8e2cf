//! entry os_ops shards=8 time=200 reach=added,dup,removed,cleared,end
//! entry os_emplace time=60 reach=end
//! entry os_move shards=4 time=100 reach=end
//! entry ms_reflect shards=8 time=200 reach=end
//! entry fs_ops shards=8 time=200 reach=end
//! entry fs_life time=60 reach=end
//! bound os_ops: keys arbitrary 32-bit values, 4 (thorough 5) arbitrary operations, two observers
//! bound ms_reflect: a source set, a mirror with another order and a mirror of the mirror; 3 elements before and 3 (thorough 4) arbitrary operations after the subscription
//! bound fs_ops: 5 (thorough 6) elements with distinct primary keys in every distribution over 3 foreign keys, then 2 (thorough 3) arbitrary operations
//! assume elements have distinct keys in every mirror (a duplicate is documented to throw)
#include "sym.h"
#include "elem.h"
#include "Awl/ForeignSet.h"
#include "Awl/MirrorSet.h"
#include "Awl/KeyCompare.h"
#include "Awl/Tuplizable.h"
#include <vector>
#include <stdexcept>
namespace {
struct Ev { char kind; int v; }; 
template <class T> struct Rec : awl::Observer<awl::INotifySetChanged<T>> {
  Ev ev[24]; int n = 0; const void *src = nullptr; size_t (*size)(const void *) = nullptr; size_t seen[24];
  void put(char k, int v) { ev[n] = {k, v}; seen[n] = size ? size(src) : 0; ++n; }
  void OnAdded(const T &v) override { put('+', val(v)); } void OnRemoving(const T &v) override { put('-', val(v)); } void OnClearing() override { put('0', 0); }
};
using OS = awl::observable_set<Elem>;
size_t os_size(const void *p) { return static_cast<const OS *>(p)->size(); }
}
HARNESS(os_ops) {
  sym_leak_scope L;
  {
    OS s; Rec<Elem> r, r2; r.src = r2.src = &s; r.size = r2.size = os_size; s.Subscribe(&r); bool second = sym::any<bool>("second"); if (second) s.Subscribe(&r2);
    int m[8]; int n = 0; 
    for (int t = 0; t < (THOROUGH ? 5 : 4); ++t) {
      int x = sym::any<int>("key"); int lo = 0; bool has = false; for (int i = 0; i < n; ++i) { if (m[i] < x) ++lo; if (m[i] == x) has = true; }
      int before = r.n; unsigned op = sym::choice(6, "op"); char want = 0; int wv = x; size_t seen = 0;
      switch (op) {
      case 0: case 1: case 2: {
        std::pair<OS::iterator, bool> p = [&] { if (op == 0) { const Elem e(x); return s.insert(e); } if (op == 1) return s.insert(Elem(x)); return s.emplace(x); }();
        sym::check(p.second == !has && val(*p.first) == x, "insertion result"); if (!has) { for (int i = n++; i > lo; --i) m[i] = m[i - 1]; m[lo] = x; want = '+'; seen = n; sym::reach("added"); } else sym::reach("dup"); break; }
      case 3: { sym::check(s.erase(x) == (size_t)has, "erase count"); if (has) { want = '-'; seen = n; for (int i = lo; i + 1 < n; ++i) m[i] = m[i + 1]; --n; sym::reach("removed"); } break; }
      case 4: if (n) { unsigned k = sym::choice(n, "pos"); wv = m[k]; s.erase(s.find(wv)); want = '-'; seen = n; for (int i = k; i + 1 < n; ++i) m[i] = m[i + 1]; --n; } break;
      case 5: if (n) { want = '0'; wv = 0; seen = n; sym::reach("cleared"); } s.clear(); n = 0; break;
      }
      sym::check(r.n == before + (want ? 1 : 0), "exactly one notification per change, none without a change");
      if (want) sym::check(r.ev[before].kind == want && r.ev[before].v == wv, "the notification names the change and the element"), sym::check(r.seen[before] == seen, "additions are notified after, removals and clearing before the change");
      const OS &c = s; sym::check(c.size() == (size_t)n && c.empty() == (n == 0), "size"); int i = 0; for (auto &e : c) { sym::check(val(e) == m[i] && val(c[i]) == m[i] && val(s.at(i)) == m[i], "contents"); ++i; } sym::check(i == n, "contents");
      for (auto it = c.rbegin(); it != c.rend(); ++it) sym::check(val(*it) == m[--i], "reverse iteration");
      if (n) sym::check(val(s.front()) == m[0] && val(s.back()) == m[n - 1] && c.contains(m[0]) && c.index_of(m[n - 1]) == (size_t)n - 1, "queries");
    }
    sym::check(r2.n == (second ? r.n : 0), "all observers get the same notifications"); for (int i = 0; i < r2.n; ++i) sym::check(r.ev[i].kind == r2.ev[i].kind && r.ev[i].v == r2.ev[i].v, "all observers get the same notifications");
    sym::observe("n", n); sym::observe("ev", r.n);
  }
  L.done(); sym::reach("end");
}
HARNESS(os_move) {
  sym_leak_scope L;
  {
    Rec<int> r, q; int k[3]; for (int i = 0; i < 3; ++i) { k[i] = sym::any<int>("k"); if (i) sym::assume(k[i - 1] < k[i]); }
    {
      using S = awl::observable_set<int>; S a, b; a.Subscribe(&r); b.Subscribe(&q); unsigned na = sym::choice(3, "na"), nb = sym::choice(3, "nb");
      for (unsigned i = 0; i < na; ++i) a.insert(k[i]); for (unsigned i = 0; i < nb; ++i) b.insert(k[2 - i]); r.n = q.n = 0;
      switch (sym::choice(3, "op")) {
      case 0: { S c(std::move(a)); sym::check(r.n == 0 && c.size() == na, "a moved set keeps content and observers without notification"); c.insert(k[2]); sym::check(r.n == 1 && r.ev[0].kind == '+', "observers follow the moved set"); sym::check(a.empty() && r.IsSubscribed(), "moved from"); r.n = 0; break; }
      case 1: a = std::move(b); sym::check(r.n == (na ? 1 : 0) && (!na || r.ev[0].kind == '0') && !r.IsSubscribed(), "the replaced content is notified as cleared, its observers are dropped"); sym::check(q.n == 0 && q.IsSubscribed() && a.size() == nb && b.empty(), "content and observers move together"); { int before = q.n; bool nw = a.insert(k[0]).second; sym::check(q.n == before + (nw ? 1 : 0), "observers follow"); } q.n = r.n = 0; break;
      case 2: a.migrate(std::move(b));
        sym::check(q.n == (nb ? 1 : 0) && (!nb || q.ev[0].kind == '0'), "the source is notified as cleared"); sym::check(r.n == (na ? 1 : 0) + (int)nb && (!na || r.ev[0].kind == '0'), "the target is notified of its clearing and of every new element");
        for (unsigned i = 0; i < nb; ++i) sym::check(r.ev[(na ? 1 : 0) + i].kind == '+' && r.ev[(na ? 1 : 0) + i].v == k[3 - nb + i], "of every new element"); sym::check(a.size() == nb && b.empty() && r.IsSubscribed() && q.IsSubscribed(), "observers stay"); r.n = q.n = 0; break;
      }
      r.n = q.n = 0; unsigned ea = !a.empty() && r.IsSubscribed(); sym::observe("na", a.size()); sym::observe("sub", ea);
    }
    sym::check(!r.IsSubscribed() && !q.IsSubscribed(), "destroyed sets drop their observers"); sym::check(r.n <= 1 && q.n <= 1, "destruction is notified at most once");
  }
  L.done(); sym::reach("end");
}
namespace { struct Two { int a, b; Two(int x, int y) : a(x), b(y) {} bool operator<(const Two &o) const { return a < o.a || (a == o.a && b < o.b); } }; int val(const Two &t) { return t.a ^ t.b; } }
HARNESS(os_emplace) {
  awl::observable_set<Two> s; Rec<Two> r; s.Subscribe(&r); int a = sym::any<int>("a"), b = sym::any<int>("b"), c = sym::any<int>("c"), d = sym::any<int>("d");
  auto p = s.emplace(a, b); auto q = s.emplace(c, d); bool same = a == c && b == d;
  sym::check(p.second && q.second == !same && (*q.first).a == c && (*q.first).b == d && s.size() == (same ? 1u : 2u), "emplace constructs the element from the arguments"); sym::check(r.n == (same ? 1 : 2) && r.ev[0].kind == '+' && r.ev[0].v == (a ^ b), "and notifies once per element"); sym::reach("end"); sym::observe("n", r.n);
}
namespace { struct A { int k1, k2; int v; AWL_TUPLIZABLE(k1, k2, v) }; AWL_MEMBERWISE_EQUATABLE(A)
using C1 = awl::member_compare<&A::k1>; using C2 = awl::member_compare<&A::k2>; using Src = awl::observable_set<A, C1>; using Mir = awl::mirror_set<A, C2>;
template <class S1, class S2> void mirrored(const S1 &s, const S2 &m) {
  sym::check(m.size() == s.size() && m.empty() == s.empty(), "a mirror has the size of its source"); const int *prev = nullptr;
  for (const A &a : m) { auto i = s.find(a.k1); sym::check(i != s.end() && (*i).k2 == a.k2 && (*i).v == a.v, "a mirror holds the elements of its source"); if (prev) sym::check(*prev < a.k2, "in its own order"); prev = &a.k2; }
}
}
HARNESS(ms_reflect) {
  sym_leak_scope L;
  {
    const int N = 5; A e[N]; for (int i = 0; i < N; ++i) { e[i] = {i * 2, 0, sym::any<int>("v")}; }
    // second keys: an arbitrary order of the elements
    for (int i = 0; i < N; ++i) { e[i].k2 = sym::any<int>("k2"); for (int j = 0; j < i; ++j) sym::assume(e[i].k2 != e[j].k2); }
    Src s; Mir *m = new Mir, m2; unsigned n0 = sym::choice(4, "n0"); for (unsigned i = 0; i < n0; ++i) s.insert(e[(i * 2 + 1) % N]);
    m->reflect(s); m2.reflect(*m); mirrored(s, *m); mirrored(s, m2);
    for (int t = 0; t < (THOROUGH ? 3 : 2); ++t) {
      unsigned x = sym::choice(N, "x");
      switch (sym::choice(4, "op")) { case 0: s.insert(e[x]); break; case 1: s.erase(e[x].k1); break; case 2: s.clear(); break; case 3: { Mir *n = new Mir(std::move(*m)); delete m; m = n; break; } }
      mirrored(s, *m); mirrored(s, m2);
    }
    if (sym::choice(2, "migrate")) { Src o; o.insert(e[0]); o.insert(e[3]); s.migrate(std::move(o)); mirrored(s, *m); mirrored(s, m2); sym::check(s.size() == 2, "migrated"); }
    sym::observe("size", s.size()); delete m; s.insert(A{100, 100, 1});
  }
  L.done(); sym::reach("end");
}
namespace { struct F { int pk, fk; int payload; AWL_TUPLIZABLE(pk, fk, payload) };
using G = awl::field_getter<F, int>; using PS = awl::observable_set<F, awl::KeyCompare<F, G>>; using FS = awl::foreign_set<F, G, G>;
void consistent(const PS &ps, const FS &fs) {
  size_t total = 0; const FS::value_type *prev = nullptr;
  for (auto &g : fs) { sym::check(!g.empty(), "no group is empty"); int fk = g.front()->fk; if (prev) sym::check(prev->front()->fk < fk, "groups are ordered by foreign key"); prev = &g; int last = -1; for (const F *p : g) { sym::check(p->fk == fk && last < p->pk, "a group holds the elements of its key in primary order"); last = p->pk; auto i = ps.find(p->pk); sym::check(i != ps.end() && &*i == p, "groups point to the elements of the source"); ++total; } }
  sym::check(total == ps.size() && fs.empty() == ps.empty(), "every element of the source is in a group");
  for (auto &e : ps) { auto i = fs.find(e.fk); sym::check(i != fs.end() && (*i).contains(e.pk), "an element is found by its keys"); }
} }
HARNESS(fs_ops) {
  sym_leak_scope L;
  {
    const int N = THOROUGH ? 6 : 5; F e[6]; for (int i = 0; i < N; ++i) e[i] = {i, 0, sym::any<int>("p")}; for (int i = 0; i < N; ++i) e[i].fk = sym::any<int>("fk");
    PS ps{G{&F::pk}}; bool late = sym::choice(2, "late"); unsigned n0 = 2 + sym::choice(N - 2, "n0"); if (late) for (unsigned i = 0; i < n0; ++i) ps.insert(e[(i * 2) % N]);
    FS fs(ps, G{&F::pk}, G{&F::fk}); if (!late) for (unsigned i = 0; i < n0; ++i) ps.insert(e[(i * 2) % N]);
    consistent(ps, fs);
    for (int t = 0; t < (THOROUGH ? 3 : 2); ++t) { unsigned x = sym::choice(N, "x"); switch (sym::choice(3, "op")) { case 0: ps.insert(e[x]); break; case 1: ps.erase(e[x].pk); break; case 2: ps.clear(); break; } consistent(ps, fs); }
    sym::observe("n", ps.size()); sym::observe("g", fs.size());
  }
  L.done(); sym::reach("end");
}
HARNESS(fs_life) {
  sym_leak_scope L;
  { FS fs{G{&F::pk}, G{&F::fk}}; { PS ps{G{&F::pk}}; ps.Subscribe(&fs); ps.insert(F{1, sym::any<int>("a"), 0}); ps.insert(F{2, sym::any<int>("b"), 0}); consistent(ps, fs); } sym::check(fs.empty(), "a foreign set is empty after its source was destroyed"); { PS ps{G{&F::pk}}; ps.Subscribe(&fs); ps.insert(F{1, 5, 0}); consistent(ps, fs); auto *d = new FS(ps, G{&F::pk}, G{&F::fk}); delete d; ps.insert(F{3, 5, 0}); consistent(ps, fs); } }
  L.done(); sym::reach("end");
}
