//! entry ag_order time=60 reach=called,cancelled,missing
//! entry ag_throwing time=60 reach=end
//! entry ag_shared time=60 reach=end
//! entry sg_shared time=60 reach=gone,alive
//! entry sg_ondemand time=60 reach=recreated,reused
//! entry sep_text time=60 reach=end
//! entry sep_reuse time=60 reach=end
//! entry ml_names time=90 reach=empty,many
//! entry ml_lookup time=60 reach=found,absent
//! entry ml_reflect time=60 reach=end
//! entry sc_find time=60 reach=found,absent
//! entry sc_factory time=60 reach=found,absent
//! entry pos_changed time=60 reach=changed,same
//! bound aggregator: 3 arguments (integer, string, integer), up to 5 set/cancel operations (thorough 7) in every order, arbitrary values
//! bound singletons: 5 acquire/copy/drop operations (thorough 7); separators: every text up to 3 characters, 4 uses
//! bound name lists: every text of up to 9 characters (thorough 12) over letters, comma and space that is a list as AWL_REFLECT produces it; lookups of every name up to 3 characters
//! bound static chain: every name up to 3 characters; position check: every content of 4 elements, every position
//! assume the element just set is the last missing one or there are missing ones: setting an argument again after the call is not specified and not exercised
#include "sym.h"
#include "elem.h"
#include "Awl/Aggregator.h"
#include "Awl/SharedSingleton.h"
#include "Awl/Separator.h"
#include "Awl/Reflection.h"
#include "Awl/RangeUtil.h"
#include "Awl/StaticFactory.h"
#include <functional>
#include <list>
#include <sstream>
#include <vector>
namespace {
std::string small(const char *n, unsigned max) { std::string s; unsigned k = sym::choice(max + 1, "len"); for (unsigned i = 0; i < k; ++i) s += (char)sym::range(1, 127, n); return s; }
}
HARNESS(ag_order) {
  const unsigned N = THOROUGH ? 7 : 5;
  unsigned calls = 0; int ga = 0; long gc = 0; std::string gb; bool have[3] = {}; bool cancelled = false, done = false; int va = 0; long vc = 0; char vb = 0; unsigned want = 0;
  gb.reserve(64); sym_leak_scope L;
  {
    awl::aggregator<int, std::string, long> a([&](int x, std::string s, long z) { ++calls; ga = x; gb.assign(s); gc = z; });
    for (unsigned i = 0; i < N && !done; ++i) {
      switch (sym::choice(5, "op")) {
      case 0: va = sym::any<int>("a"); a.set<0>(va); have[0] = true; break;
      case 1: vb = (char)sym::range(1, 127, "b"); a.set<1>(std::string(1, vb) + "a long string that is not stored inline"); have[1] = true; break;
      case 2: vc = sym::any<long>("c"); a.set<2>(vc); have[2] = true; break;
      case 3: a.cancel(); cancelled = true; break;
      default: i = N; break;
      }
      bool all = have[0] && have[1] && have[2];
      sym::check(a.all() == all, "all() tells whether every argument has been set");
      if (all && !cancelled) want = 1;
      sym::check(calls == want, "the function is called exactly when the last missing argument is set, and not after cancel");
      if (all) done = true;
    }
    if (want) { sym::check(ga == va && gc == vc, "called with the values set last"); sym::check(gb.size() == 40 && gb[0] == vb && gb.substr(1) == "a long string that is not stored inline", "called with the string set last"); }
  }
  sym::check(calls == want, "destruction does not call"); sym::observe("calls", calls); sym::observe("a", (unsigned)ga);
  sym::reach(want ? "called" : cancelled ? "cancelled" : "missing"); L.done();
}
HARNESS(ag_throwing) {
  // the function throws: the exception reaches the one who set the last argument; nothing is leaked
  sym_leak_scope L; unsigned calls = 0, caught = 0; int v = sym::any<int>("v"), lim = sym::any<int>("lim");
  { awl::aggregator<int, Elem> a([&](int x, Elem e) { ++calls; if (x < lim) throw Elem::Boom(); sym::check(e.val() == (x ^ 5), "value"); });
    a.set<1>(Elem(v ^ 5)); try { a.set<0>(v); } catch (const Elem::Boom &) { ++caught; } }
  sym::check(calls == 1 && caught == (v < lim ? 1u : 0u), "called once, exception propagated"); sym::reach("end"); sym::observe("caught", caught); L.done();
}
HARNESS(ag_shared) {
  unsigned calls = 0; int s = 0; int x = sym::any<int>("x"), y = sym::any<int>("y"); bool c = sym::any<bool>("cancel");
  auto a = awl::make_shared_aggregator(std::function<void(int, int)>([&](int p, int q) { ++calls; s = (int)((unsigned)p * 3u + (unsigned)q); }));
  auto b = a; auto f = [b](int v) { b->set<1>(v); }; b->set<0>(x); if (c) a->cancel(); b.reset(); sym::check(calls == 0, "not called with a missing argument"); f(y);
  sym::check(calls == (c ? 0u : 1u) && (c || s == (int)((unsigned)x * 3u + (unsigned)y)), "shared aggregator calls once with both values"); sym::reach("end"); sym::observe("s", (unsigned)s);
}
namespace {
unsigned made[3], died[3];
struct S0 { int v = 7; S0() { ++made[0]; } ~S0() { ++died[0]; } };
struct S1 { int v = 9; S1() { ++made[1]; } ~S1() { ++died[1]; } };
}
HARNESS(sg_shared) {
  const unsigned N = THOROUGH ? 7 : 5; made[0] = died[0] = 0; std::shared_ptr<S0> h[2]; bool ever = false;
  for (unsigned i = 0; i < N; ++i) {
    unsigned op = sym::choice(5, "op"), k = op & 1;
    if (op < 2) {
      bool alive = made[0] > died[0]; auto p = awl::shared_singleton<S0>();
      if (!ever || alive) { sym::check(p != nullptr && p->v == 7, "the singleton exists"); ever = true; sym::check(!h[0] || h[0] == p, "same instance"); sym::check(!h[1] || h[1] == p, "same instance"); h[k] = p; sym::reach("alive"); }
      else { sym::check(p == nullptr, "a destroyed shared singleton is not created again"); sym::reach("gone"); }
    } else if (op < 4) h[k].reset(); else h[0] = h[1];
    sym::check(made[0] == (ever ? 1u : 0u), "created at most once, on first use"); sym::check(died[0] == (ever && !h[0] && !h[1] ? 1u : 0u), "destroyed when the last owner lets go");
  }
  sym::observe("made", made[0]);
}
HARNESS(sg_ondemand) {
  const unsigned N = THOROUGH ? 7 : 5; made[1] = died[1] = 0; std::shared_ptr<S1> h[2]; unsigned want = 0;
  for (unsigned i = 0; i < N; ++i) {
    unsigned op = sym::choice(5, "op"), k = op & 1;
    if (op < 2) {
      bool alive = h[0] || h[1]; if (!alive) ++want; auto p = awl::ondemand_singleton<S1>();
      sym::check(p != nullptr && p->v == 9, "the singleton exists"); sym::check(!h[0] || h[0] == p, "same instance"); sym::check(!h[1] || h[1] == p, "same instance"); h[k] = p; sym::reach(alive ? "reused" : "recreated");
    } else if (op < 4) h[k].reset(); else h[0] = h[1];
    sym::check(made[1] == want, "created again exactly when none is alive"); sym::check(died[1] == want - (h[0] || h[1] ? 1u : 0u), "destroyed when the last owner lets go");
  }
  sym::observe("made", made[1]);
}
HARNESS(sep_text) {
  std::string t; bool ch = sym::any<bool>("char"); char c = (char)sym::range(1, 127, "c");
  if (ch) t = std::string(1, c) + " "; else t = small("t", 3);
  awl::aseparator s = ch ? awl::aseparator(c) : awl::aseparator(t);
  std::ostringstream o; std::string want; unsigned n = sym::choice(5, "n");
  sym::check(s.content() == t, "content");
  for (unsigned i = 0; i < n; ++i) { sym::check(s.first() == (i == 0), "first"); o << s << (char)('0' + i); if (i) want += t; want += (char)('0' + i); }
  sym::check(o.str() == want, "nothing the first time, the text every other time"); sym::reach("end"); sym::observe("len", o.str().size());
}
HARNESS(sep_reuse) {
  awl::aseparator a(','), b(std::string(";")); std::ostringstream o, q; std::string want; bool fa = true, fb = true;
  for (unsigned i = 0; i < 4; ++i) switch (sym::range(0, 4, "op")) {
    case 0: o << a; if (!fa) want += ", "; fa = false; break;
    case 1: o << b; if (!fb) want += ";"; fb = false; break;
    case 2: a.hlop(); fa = false; break;
    case 3: q << b; fb = false; break;
    default: o << 'x'; want += 'x'; break;
  }
  sym::check(a.first() == fa && b.first() == fb, "first"); sym::check(o.str() == want, "independent separators"); sym::reach("end"); sym::observe("len", want.size());
}
HARNESS(ml_names) {
  // every text that is a comma separated list of non-empty names, a comma being followed by at most one space
  const unsigned MAX = THOROUGH ? 12 : 9; unsigned n = sym::choice(MAX + 1, "len"); char t[13]; std::vector<std::string> want; std::string cur; bool after = false;
  for (unsigned i = 0; i < n; ++i) {
    t[i] = (char)sym::any<unsigned char>("c"); sym::assume(t[i] == ',' || t[i] == ' ' || (t[i] >= 'a' && t[i] <= 'z'));
    if (t[i] == ',') { sym::assume(!cur.empty()); want.push_back(cur); cur.clear(); after = true; }
    else if (t[i] == ' ') { sym::assume(after); after = false; }
    else { cur += t[i]; after = false; }
  }
  t[n] = 0; sym::assume(n == 0 || !cur.empty()); if (n) want.push_back(cur);
  awl::helpers::MemberList m(t);
  sym::check(m.size() == want.size(), "number of names"); unsigned k = 0;
  for (const std::string &s : m) { sym::check(k < want.size() && s == want[k], "the names in order"); sym::check(m[k] == s, "index"); ++k; }
  sym::check(k == want.size(), "iteration ends"); sym::reach(n == 0 ? "empty" : want.size() > 1 ? "many" : "one"); sym::observe("n", k);
}
HARNESS(ml_lookup) {
  awl::helpers::MemberList m("a, bc, b, abc,d"); static const char *nm[] = {"a", "bc", "b", "abc", "d"}; char q[4]; unsigned n = sym::choice(4, "len");
  for (unsigned i = 0; i < n; ++i) { q[i] = (char)sym::any<unsigned char>("q"); sym::assume(q[i] != 0); } q[n] = 0;
  std::size_t want = awl::helpers::MemberList::NotAnIndex; for (std::size_t i = 0; i < 5; ++i) if (!std::strcmp(nm[i], q)) want = i;
  std::string s(q); sym::check(m.find_index(s) == want, "find_index");
  auto a = m.find(s), b = m.find_cstr(q); sym::check(a == b, "find and find_cstr agree"); sym::check(want == awl::helpers::MemberList::NotAnIndex ? a == m.end() : (a != m.end() && a - m.begin() == (long)want && *a == s), "find");
  sym::reach(a == m.end() ? "absent" : "found"); sym::observe("i", want);
}
namespace {
struct R { int one; std::string two; char three_3; AWL_REFLECT(one, two, three_3) };
struct Q { int z; AWL_REFLECT(z) };
}
HARNESS(ml_reflect) {
  R r{sym::any<int>("x"), "t", 'c'}; static const char *nm[] = {"one", "two", "three_3"};
  sym::check(R::get_member_names().size() == 3 && Q::get_member_names().size() == 1 && Q::get_member_names()[0] == "z" && awl::EmptyStringizable::get_member_names().size() == 0, "sizes");
  for (unsigned i = 0; i < 3; ++i) sym::check(R::get_member_names()[i] == nm[i], "names");
  sym::check(&std::get<0>(r.as_tuple()) == &r.one && &std::get<1>(r.as_tuple()) == &r.two && &std::get<2>(r.as_const_tuple()) == &r.three_3, "the tuple refers to the members in order");
  std::get<0>(r.as_tuple()) ^= 1; sym::check(std::tuple_size_v<decltype(r.as_tuple())> == R::get_member_names().size(), "as many names as members"); sym::reach("end"); sym::observe("x", (unsigned)r.one);
}
namespace {
int f_one() { return 1; } int f_two() { return 2; } int f_three() { return 3; }
awl::StaticLink<awl::FactoryFuncPtr<int>> l1("one", &f_one), l2("o", &f_two), l3("thr", &f_three);
awl::StaticLink<int> i1("x", 5), i2("yy", 6), i3("xyz", 7);
}
HARNESS(sc_find) {
  char q[4]; unsigned n = sym::choice(4, "len"); for (unsigned i = 0; i < n; ++i) { q[i] = (char)sym::any<unsigned char>("q"); sym::assume(q[i] != 0); } q[n] = 0;
  int want = !std::strcmp(q, "x") ? 5 : !std::strcmp(q, "yy") ? 6 : !std::strcmp(q, "xyz") ? 7 : 0;
  auto &c = awl::static_chain<int>(); auto i = c.find(q), j = c.find(std::string(q)); unsigned cnt = 0; for (auto *l : c) { ++cnt; sym::check(l->value() >= 5 && l->value() <= 7, "links"); } sym::check(cnt == 3, "every link is in the chain once");
  sym::check(i == j, "both lookups agree"); sym::check(want ? (i != c.end() && i->value() == want && !std::strcmp(i->name(), q)) : i == c.end(), "lookup by name"); sym::reach(want ? "found" : "absent"); sym::observe("v", (unsigned)want);
}
HARNESS(sc_factory) {
  char q[4]; unsigned n = sym::choice(4, "len"); for (unsigned i = 0; i < n; ++i) { q[i] = (char)sym::any<unsigned char>("q"); sym::assume(q[i] != 0); } q[n] = 0;
  int want = !std::strcmp(q, "one") ? 1 : !std::strcmp(q, "o") ? 2 : !std::strcmp(q, "thr") ? 3 : 0, got = 0;
  try { got = awl::create<int>(q); } catch (const awl::FactoryException &) { got = 0; }
  sym::check(got == want, "the factory of that name is called, or FactoryException thrown"); sym::reach(want ? "found" : "absent"); sym::observe("v", (unsigned)got);
}
HARNESS(pos_changed) {
  unsigned n = 1 + sym::choice(4, "n"), k = sym::choice(n, "pos"); std::vector<int> v; std::list<int> l; for (unsigned i = 0; i < n; ++i) { v.push_back(sym::any<signed char>("v")); l.push_back(v.back()); }
  bool desc = sym::any<bool>("desc"), got; auto it = std::next(l.begin(), k);
  auto cmp = [desc](int a, int b) { return desc ? b < a : a < b; };
  got = awl::position_changed(v, cmp, v.begin() + k); sym::check(got == awl::position_changed(l, cmp, it), "any range");
  bool want = false; if (k > 0 && !cmp(v[k - 1], v[k])) want = true; if (k + 1 < n && !cmp(v[k], v[k + 1])) want = true;
  sym::check(got == want, "a moved element is reported exactly when it is out of order with its neighbours"); sym::reach(want ? "changed" : "same"); sym::observe("got", got);
}
