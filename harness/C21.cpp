//! entry cmp_key time=60 reach=end
//! entry cmp_ptr time=60 reach=end
//! entry cmp_composite time=60 reach=end
//! entry cmp_transparent time=60 reach=end
//! entry cmp_reverse time=60 reach=end
//! entry cmp_members time=60 reach=end
//! entry cmp_string time=100 reach=end
//! entry cmp_lookup time=60 reach=found,absent
//! bound all: every triple of elements with two 32-bit, one 16-bit and one 8-bit key fields, every key; cmp_string: strings of up to 3 arbitrary characters
#include "sym.h"
#include "Awl/KeyCompare.h"
#include "Awl/CompositeCompare.h"
#include "Awl/TransparentCompositeCompare.h"
#include "Awl/ReverseCompare.h"
#include "Awl/VectorSet.h"
#include <memory>
#include <set>
#include <string>
namespace {
struct A { int a; unsigned b; short c; signed char d; int getA() const { return a; } unsigned getB() const { return b; } AWL_TUPLIZABLE(a, b, c) };
AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(A)
A make(const char *n) { A x; x.a = sym::any<int>(n); x.b = sym::any<unsigned>(n); x.c = sym::any<short>(n); x.d = sym::any<signed char>(n); return x; }
// laws of a strict weak order, over three arbitrary elements
template <class C, class T> void laws(const C &lt, const T &x, const T &y, const T &z) {
  bool xx = lt(x, x), xy = lt(x, y), yx = lt(y, x), yz = lt(y, z), zy = lt(z, y), xz = lt(x, z), zx = lt(z, x);
  sym::check(!xx, "irreflexive"); sym::check(!(xy & yx), "asymmetric"); sym::check(!(xy & yz & !xz), "transitive"); sym::check(!((!xy) & (!yx) & (!yz) & (!zy) & (xz | zx)), "incomparability is transitive");
}
template <class C, class R> void byref(const C &lt, const R &ref, const A &x, const A &y) { sym::check(lt(x, y) == ref(x, y) && lt(y, x) == ref(y, x), "the order is that of the keys"); }
template <class C, class K> void key(const C &lt, const A &x, const A &y, const K &k) { sym::check(lt(x, k) == lt(x, y) && lt(k, x) == lt(y, x), "an element compares with a key as with an element that has the key"); }
}
HARNESS(cmp_key) {
  A x = make("x"), y = make("y"), z = make("z");
  { awl::member_compare<&A::a> c; laws(c, x, y, z); byref(c, [](const A &l, const A &r) { return l.a < r.a; }, x, y); key(c, x, y, y.a); }
  { auto c = awl::make_compare(&A::getB); laws(c, x, y, z); byref(c, [](const A &l, const A &r) { return l.b < r.b; }, x, y); key(c, x, y, y.b); }
  { auto c = awl::make_compare(&A::c, std::greater<>()); laws(c, x, y, z); byref(c, [](const A &l, const A &r) { return l.c > r.c; }, x, y); key(c, x, y, y.c); }
  { awl::tuplizable_compare<A, 1> c; laws(c, x, y, z); byref(c, [](const A &l, const A &r) { return l.b < r.b; }, x, y); key(c, x, y, y.b); }
  { awl::member_compare<&A::d, std::greater<>> c; laws(c, x, y, z); byref(c, [](const A &l, const A &r) { return l.d > r.d; }, x, y); key(c, x, y, y.d); }
  sym::observe("r", awl::member_compare<&A::a>()(x, y)); sym::reach("end");
}
HARNESS(cmp_ptr) {
  A x = make("x"), y = make("y"), z = make("z");
  { awl::pointer_compare<&A::b> c; const A *p = &x, *q = &y, *r = &z; laws(c, p, q, r); sym::check(c(p, q) == (x.b < y.b) && c(p, y.b) == (x.b < y.b) && c(y.b, p) == (y.b < x.b), "pointers compare by the key of the object"); }
  { awl::shared_compare<&A::a> c; auto p = std::make_shared<A>(x), q = std::make_shared<A>(y), r = std::make_shared<A>(z); laws(c, p, q, r); sym::check(c(p, q) == (x.a < y.a) && c(p, y.a) == (x.a < y.a) && c(y.a, p) == (y.a < x.a), "shared pointers compare by the key of the object"); }
  { awl::unique_compare<&A::c> c; auto p = std::make_unique<A>(x), q = std::make_unique<A>(y), r = std::make_unique<A>(z); laws(c, p, q, r); sym::check(c(p, q) == (x.c < y.c) && c(p, y.c) == (x.c < y.c) && c(y.c, p) == (y.c < x.c), "unique pointers compare by the key of the object"); }
  { auto c = awl::make_shared_compare(&A::getA, std::greater<>()); auto p = std::make_shared<A>(x), q = std::make_shared<A>(y); sym::check(c(p, q) == (x.a > y.a) && c(p, y.a) == (x.a > y.a) && c(y.a, p) == (y.a > x.a), "make_shared_compare"); }
  { awl::smart_compare<std::shared_ptr<A>, &A::b, std::greater<>> c; auto p = std::make_shared<A>(x), q = std::make_shared<A>(y); sym::check(c(p, q) == (x.b > y.b), "smart_compare"); }
  sym::reach("end");
}
HARNESS(cmp_composite) {
  A x = make("x"), y = make("y"), z = make("z");
  auto c = awl::compose_comparers<A>(awl::make_compare(&A::a), awl::make_compare(&A::getB, std::greater<>()), awl::make_compare(&A::c));
  laws(c, x, y, z); byref(c, [](const A &l, const A &r) { return l.a != r.a ? l.a < r.a : l.b != r.b ? l.b > r.b : l.c < r.c; }, x, y);
  awl::CompositeCompare<A, awl::member_compare<&A::d>, awl::member_compare<&A::a>> d; laws(d, x, y, z); byref(d, [](const A &l, const A &r) { return l.d != r.d ? l.d < r.d : l.a < r.a; }, x, y);
  sym::observe("r", c(x, y)); sym::reach("end");
}
HARNESS(cmp_transparent) {
  A x = make("x"), y = make("y"), z = make("z");
  auto c = awl::compose_transparent_comparers<A>(awl::make_compare(&A::a), awl::make_compare(&A::b, std::greater<>()), awl::make_compare(&A::c)); using C = decltype(c);
  laws(c, x, y, z); byref(c, [](const A &l, const A &r) { return l.a != r.a ? l.a < r.a : l.b != r.b ? l.b > r.b : l.c < r.c; }, x, y);
  key(c, x, y, C::make_key(y.a, y.b, y.c)); int k = y.a; key(c, x, y, C::key_type(k, y.b, y.c));
  awl::TransparentCompositeCompare<A, awl::member_compare<&A::d>, awl::member_compare<&A::a>> d; laws(d, x, y, z);
  sym::observe("r", c(x, y)); sym::reach("end");
}
HARNESS(cmp_reverse) {
  A x = make("x"), y = make("y"), z = make("z"); auto base = awl::compose_comparers<A>(awl::make_compare(&A::a), awl::make_compare(&A::c));
  auto r = awl::reverse_comparer<A>(base); laws(r, x, y, z); byref(r, [&](const A &l, const A &q) { return base(q, l); }, x, y);
  auto t = awl::reverse_transparent_comparer<A>(awl::make_compare(&A::b)); laws(t, x, y, z); byref(t, [](const A &l, const A &q) { return l.b > q.b; }, x, y); key(t, x, y, y.b);
  auto rr = awl::reverse_comparer<A>(r); sym::check(rr(x, y) == base(x, y), "reversing twice restores the order"); sym::observe("r", r(x, y)); sym::reach("end");
}
HARNESS(cmp_members) {
  A x = make("x"), y = make("y"), z = make("z"); bool eq = x.a == y.a && x.b == y.b && x.c == y.c, ls = x.a != y.a ? x.a < y.a : x.b != y.b ? x.b < y.b : x.c < y.c;
  laws([](const A &l, const A &r) { return l < r; }, x, y, z);
  sym::check((x == y) == eq && (x != y) == !eq && (x < y) == ls && (x > y) == (!eq && !ls) && (x <= y) == (eq || ls) && (x >= y) == !ls, "member-wise comparison is lexicographical");
  sym::check(awl::objects_equal(x, y) == eq && awl::objects_less(x, y) == ls && awl::objects_greater(x, y) == (!eq && !ls), "objects_equal/less/greater"); sym::reach("end");
}
namespace { struct S { std::string s; int n; const std::string &get() const { return s; } }; std::string str(const char *n) { std::string r; unsigned k = sym::choice(THOROUGH ? 4 : 3, "len"); for (unsigned i = 0; i < k; ++i) r.push_back(sym::any<char>(n)); return r; } }
HARNESS(cmp_string) {
  S x{str("x"), sym::any<int>("nx")}, y{str("y"), sym::any<int>("ny")};
  auto c = awl::compose_transparent_comparers<S>(awl::make_compare(&S::s), awl::make_compare(&S::n)); int r = x.s.compare(y.s); bool ls = r != 0 ? r < 0 : x.n < y.n;
  sym::check(c(x, y) == ls && !(c(x, y) && c(y, x)) && !c(x, x), "strings and numbers"); using C = decltype(c); sym::check(c(x, C::make_key(y.s, y.n)) == ls, "key"); auto k = C::make_key(std::string(y.s), y.n); sym::check(c(k, x) == c(y, x), "a key made of temporaries");
  sym::observe("r", ls); sym::reach("end");
}
HARNESS(cmp_lookup) {
  // lookup by key in a container finds exactly the elements with the key
  A v[3]; for (auto &e : v) e = make("e"); using C = awl::TransparentCompositeCompare<A, awl::member_compare<&A::a>, awl::member_compare<&A::c>>;
  std::set<A, C> s; awl::vector_set<A, C> w; for (auto &e : v) { s.insert(e); w.insert(e); }
  int a = sym::any<int>("a"); short c = sym::any<short>("c"); auto k = C::make_key(a, c); bool has = false; for (auto &e : v) has |= e.a == a && e.c == c;
  auto i = s.find(k); auto j = w.find(k); sym::check((i != s.end()) == has && (j != w.end()) == has, "lookup by key"); if (has) sym::check(i->a == a && i->c == c && (*j).a == a && (*j).c == c, "the found element has the key"); sym::reach(has ? "found" : "absent"); sym::observe("has", has);
}
