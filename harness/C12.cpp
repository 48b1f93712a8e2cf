//! entry ql_ops shards=4 time=200 reach=spliced,moved,inserted,removed,excluded
//! entry ql_two time=100 reach=end
//! entry ql_movable time=100 reach=end,relinked
//! entry ql_dtor time=60 reach=end
//! entry sl_ops time=100 reach=end
//! bound ql_ops: two lists over 4 nodes in every distribution and two orders, then 2 (thorough 3) arbitrary operations on them; payloads are arbitrary 32-bit values
//! bound ql_two: a node type in two lists at once, 3 nodes, 3 operations
//! bound sl_ops: single_list, 5 operations over 4 nodes
//! assume a node is inserted only while it is in no list of the same link type, removed only while it is in one, and outlives its list unless it excludes itself
#include "sym.h"
#include "Awl/QuickList.h"
#include "Awl/SingleList.h"
#include <utility>

namespace {
struct Node : public awl::quick_link { int v; };
using QL = awl::quick_list<Node>;
const int N = 4;
struct Model { int a[N]; int n = 0; void back(int x) { a[n++] = x; } void front(int x) { for (int i = n++; i > 0; --i) a[i] = a[i - 1]; a[0] = x; } int at(int x) const { for (int i = 0; i < n; ++i) if (a[i] == x) return i; return -1; }
  void del(int i) { for (; i + 1 < n; ++i) a[i] = a[i + 1]; --n; } void ins(int pos, int x) { for (int i = n++; i > pos; --i) a[i] = a[i - 1]; a[pos] = x; } };
void same(QL &l, const Model &m, Node *nd, const int *v) {
  const QL &c = l;
  sym::check(c.size() == (size_t)m.n, "size"); sym::check(c.empty() == (m.n == 0), "empty"); sym::check(c.contains_one() == (m.n == 1), "contains_one"); sym::check(c.empty_or_contains_one() == (m.n <= 1), "empty_or_contains_one");
  int i = 0;
  for (const Node *p : c) { sym::check(i < m.n && p == &nd[m.a[i]] && p->v == v[m.a[i]], "forward order"); ++i; }
  sym::check(i == m.n, "forward length");
  for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; sym::check(i >= 0 && *it == &nd[m.a[i]], "backward order"); }
  sym::check(i == 0, "backward length");
  auto it = l.end(); for (i = m.n; i > 0;) { --it; --i; sym::check(*it == &nd[m.a[i]], "iterator --"); } sym::check(it == l.begin(), "-- reaches begin");
  auto rt = l.rend(); for (i = 0; i < m.n; ++i) { --rt; sym::check(*rt == &nd[m.a[i]], "reverse iterator --"); }
  if (m.n) { sym::check(c.front() == &nd[m.a[0]] && l.back() == &nd[m.a[m.n - 1]] && l.front() == c.front() && c.back() == l.back(), "front/back"); }
}
}

HARNESS(ql_ops) {
  Node nd[N]; int v[N]; Model A, B; QL la, lb;
  for (int i = 0; i < N; ++i) { v[i] = sym::any<int>("v"); nd[i].v = v[i]; }
  for (int i = 0; i < N; ++i) switch (sym::choice(3, "where")) { case 0: break; case 1: la.push_back(&nd[i]); A.back(i); break; case 2: lb.push_front(&nd[i]); B.front(i); break; }
  for (int s = 0; s < (THOROUGH ? 3 : 2); ++s) {
    int x = sym::choice(N, "x"); bool in = A.at(x) >= 0 || B.at(x) >= 0;
    switch (sym::range(0, 12, "op")) {
    case 0: if (!in) { la.push_back(&nd[x]); A.back(x); } break;
    case 1: if (!in) { la.push_front(&nd[x]); A.front(x); } break;
    case 2: if (!in && A.n) { int y = sym::choice(A.n, "pos"); auto it = la.begin(); for (int k = 0; k < y; ++k) ++it; la.insert(it, &nd[x]); A.ins(y + 1, x); sym::reach("inserted"); } break;
    case 3: if (!in && A.n) { int y = sym::choice(A.n, "pos"); auto it = la.rbegin(); for (int k = 0; k < y; ++k) it++; la.insert(it, &nd[x]); A.ins(A.n - 1 - y, x); } break;
    case 4: if (A.n) { Node *p = la.pop_front(); sym::check(p == &nd[A.a[0]] && !p->included(), "pop_front"); A.del(0); } break;
    case 5: if (A.n) { Node *p = la.pop_back(); sym::check(p == &nd[A.a[A.n - 1]] && !p->included(), "pop_back"); A.del(A.n - 1); } break;
    case 6: if (A.at(x) >= 0) { auto it = la.begin(); while (*it != &nd[x]) ++it; la.erase(it); A.del(A.at(x)); sym::reach("removed"); } break;
    case 7: if (B.at(x) >= 0) { QL::erase(&nd[x]); B.del(B.at(x)); } break;
    case 8: nd[x].safe_exclude(); if (A.at(x) >= 0) A.del(A.at(x)); else if (B.at(x) >= 0) B.del(B.at(x)); sym::reach("excluded"); break;
    case 9: la.push_back(lb); for (int k = 0; k < B.n; ++k) A.back(B.a[k]); B.n = 0; sym::reach("spliced"); break;
    case 10: la.push_front(lb); for (int k = B.n; k-- > 0;) A.front(B.a[k]); B.n = 0; break;
    case 11: { QL t(std::move(la)); same(t, A, nd, v); sym::check(la.empty() && la.size() == 0, "a moved-from list is empty"); la = std::move(t); sym::check(t.empty(), "a moved-from list is empty"); sym::reach("moved"); break; }
    case 12: if (A.n) { auto it = la.rbegin(); int k = A.n - 1; while (k > 0 && (x & 1)) { ++it; --k; x = 1; } la.erase(it); A.del(k); } break;
    }
    same(la, A, nd, v); same(lb, B, nd, v);
  }
  for (int i = 0; i < N; ++i) sym::check(nd[i].included() == (A.at(i) >= 0 || B.at(i) >= 0), "included() tells whether the node is in a list");
  sym::observe("a", A.n); sym::observe("b", B.n); for (Node *p : la) sym::observe("v", (unsigned)p->v);
}
namespace { AWL_DECLARE_QUICK_LINK(l1) AWL_DECLARE_QUICK_LINK(l2) struct Two : l1, l2 { int v; }; }
HARNESS(ql_two) {
  Two nd[3]; awl::quick_list<Two, l1> a; awl::quick_list<Two, l2> b; bool ia[3] = {}, ib[3] = {};
  for (int i = 0; i < 3; ++i) { nd[i].v = sym::any<int>("v"); if (sym::choice(2, "ina")) { a.push_back(&nd[i]); ia[i] = true; } if (sym::choice(2, "inb")) { b.push_front(&nd[i]); ib[i] = true; } }
  int x = sym::choice(3, "x");
  switch (sym::choice(3, "op")) { case 0: static_cast<l1 &>(nd[x]).safe_exclude(); ia[x] = false; break; case 1: static_cast<l2 &>(nd[x]).safe_exclude(); ib[x] = false; break; case 2: if (!b.empty()) { Two *p = b.pop_back(); ib[p - nd] = false; } break; }
  int k = 0; for (Two *p : a) { while (k < 3 && !ia[k]) ++k; sym::check(k < 3 && p == &nd[k] && p->v == nd[k].v, "first list"); ++k; } while (k < 3) sym::check(!ia[k++], "first list complete");
  k = 2; for (Two *p : b) { while (k >= 0 && !ib[k]) --k; sym::check(k >= 0 && p == &nd[k], "second list"); --k; } while (k >= 0) sym::check(!ib[k--], "second list complete");
  for (int i = 0; i < 3; ++i) sym::check(static_cast<l1 &>(nd[i]).included() == ia[i] && static_cast<l2 &>(nd[i]).included() == ib[i], "membership in the lists is independent");
  sym::reach("end");
}
namespace { AWL_DECLARE_MOVABLE_LINK(ml) struct Mov : ml { int v; Mov(int x) : v(x) {} Mov(Mov &&) = default; Mov &operator=(Mov &&) = default; ~Mov() { ml::safe_exclude(); } }; }
HARNESS(ql_movable) {
  // a moved node takes the place of the source in the list
  awl::quick_list<Mov, ml> l, l2; Mov a(sym::any<int>("a")), b(sym::any<int>("b")), c(sym::any<int>("c"));
  unsigned in = sym::choice(2, "in");
  if (in) { l.push_back(&a); l.push_back(&b); l.push_back(&c); }
  if (sym::choice(2, "assign")) {
    Mov d(0); if (sym::choice(2, "target_in")) l2.push_back(&d);
    d = std::move(b);
    sym::check(l2.empty() && d.v == b.v, "the assigned node leaves its old list");
    sym::check(d.included() == (bool)in && !b.included(), "the link moves with the node");
    if (in) { auto i = l.begin(); sym::check(*i == &a, "a"); ++i; sym::check(*i == &d, "the new node is in place of the old one"); ++i; sym::check(*i == &c, "c"); ++i; sym::check(i == l.end(), "end"); sym::reach("relinked"); }
  } else {
    Mov d(std::move(b));
    sym::check(d.v == b.v && d.included() == (bool)in && !b.included(), "the link moves with the node");
    if (in) { auto i = l.rbegin(); sym::check(*i == &c, "c"); ++i; sym::check(*i == &d, "d"); ++i; sym::check(*i == &a, "a"); }
  }
  sym::check(l.size() == (in ? 2u : 0u), "a destroyed node leaves the list");
  sym::reach("end");
}
namespace { struct Auto : awl::quick_link { ~Auto() { safe_exclude(); } }; }
HARNESS(ql_dtor) {
  awl::quick_list<Auto> l; Auto a, c; { Auto b; unsigned pos = sym::choice(4, "pos"); if (pos == 0) l.push_back(&b); l.push_back(&a); if (pos == 1) l.push_back(&b); l.push_back(&c); if (pos == 2) l.push_back(&b); sym::check(l.size() == (pos < 3 ? 3u : 2u), "size"); }
  sym::check(l.size() == 2 && l.front() == &a && l.back() == &c, "a destroyed element is no longer in the list");
  Auto *f = l.pop_front(); sym::check(f == &a && l.size() == 1, "pop_front");
  sym::reach("end");
}
namespace { struct SN : awl::single_link { int v; }; }
HARNESS(sl_ops) {
  SN nd[4]; int v[4]; Model M; awl::single_list<SN> l;
  for (int i = 0; i < 4; ++i) nd[i].v = v[i] = sym::any<int>("v");
  for (int s = 0; s < (THOROUGH ? 6 : 4); ++s) {
    int x = sym::choice(4, "x");
    switch (sym::choice(3, "op")) {
    case 0: if (M.at(x) < 0) { l.push_front(&nd[x]); M.front(x); } break;
    case 1: if (M.n) { SN *p = l.pop_front(); sym::check(p == &nd[M.a[0]], "pop_front"); M.del(0); } break;
    case 2: if (M.n == 3) { l.clear(); M.n = 0; } break;
    }
  }
  const auto &c = l; sym::check(c.size() == (size_t)M.n && c.empty() == (M.n == 0) && c.contains_one() == (M.n == 1) && c.empty_or_contains_one() == (M.n < 2), "size");
  int i = 0; for (const SN *p : c) { sym::check(p == &nd[M.a[i]] && p->v == v[M.a[i]], "order"); ++i; } sym::check(i == M.n, "length");
  if (M.n) sym::check(c.front() == &nd[M.a[0]], "front");
  sym::reach("end");
}
