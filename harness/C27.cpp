//! entry sg_life time=60 reach=ran,skipped
//! entry sg_init time=60 reach=ran,skipped
//! entry sg_move time=60 reach=ran,skipped
//! entry sg_assign time=60 reach=ran,skipped
//! entry sg_default time=60 reach=end
//! entry sg_throw time=60 reach=end
//! bound all: every combination of engaged flag, release points (before/after a move) and exit path; callback state is an arbitrary 32-bit value
//! assume the callback does not throw
#include "sym.h"
#include "Awl/ScopeGuard.h"
#include <optional>
#include <utility>
namespace {
unsigned ran; unsigned seen;
}
HARNESS(sg_life) {
  unsigned v = sym::any<unsigned>("v"); bool eng = sym::any<bool>("engaged"), rel = sym::any<bool>("release"); ran = 0; seen = 0;
  {
    auto g = awl::make_scope_guard([v] { ++ran; seen = v; }, eng);
    sym::check(ran == 0, "the callback does not run before the end of the scope");
    if (rel) g.release();
    if (rel && sym::any<bool>("again")) g.release();
    sym::check(ran == 0, "release does not run the callback");
  }
  bool want = eng && !rel;
  sym::check(ran == (want ? 1u : 0u), "the callback runs exactly once, and only if engaged and not released"); sym::check(!want || seen == v, "captured state");
  sym::reach(want ? "ran" : "skipped"); sym::observe("ran", ran); sym::observe("seen", seen);
}
HARNESS(sg_init) {
  unsigned v = sym::any<unsigned>("v"), w = v; bool eng = sym::any<bool>("engaged"), rel = sym::any<bool>("release"); ran = 0; unsigned inits = 0;
  { auto g = awl::make_scope_guard([&] { ++inits; w ^= 0x55u; }, [&] { ++ran; w += 3; }, eng);
    sym::check(inits == (eng ? 1u : 0u) && ran == 0, "the initializer runs at once, only if engaged"); sym::check(w == (eng ? v ^ 0x55u : v), "initializer effect");
    if (rel) g.release(); }
  bool want = eng && !rel;
  sym::check(ran == (want ? 1u : 0u) && inits == (eng ? 1u : 0u), "the callback runs exactly once"); sym::check(w == (eng ? (v ^ 0x55u) : v) + (want ? 3 : 0), "effects");
  sym::reach(want ? "ran" : "skipped"); sym::observe("w", w);
}
template <class G> static void moved(G &&g0, bool eng, bool r0, bool r1, unsigned depth) {
  bool want;
  {
    auto g(std::move(g0));
    if (r0) g.release();
    { auto h(std::move(g)); sym::check(ran == 0, "moving does not run the callback"); if (r1) h.release();
      if (depth) { std::optional<std::decay_t<decltype(h)>> k; k.emplace(std::move(h)); k.reset(); want = eng && !r0 && !r1; sym::check(ran == (want ? 1u : 0u), "the last owner runs the callback"); } }
    want = eng && !r0 && !r1;
    sym::check(ran == (want ? 1u : 0u), "the moved-to guard runs the callback exactly once");
  }
  sym::check(ran == (want ? 1u : 0u), "a moved-from guard does not run the callback");
  sym::reach(want ? "ran" : "skipped"); sym::observe("ran", ran);
}
HARNESS(sg_move) {
  bool eng = sym::any<bool>("engaged"), r0 = sym::any<bool>("r0"), r1 = sym::any<bool>("r1"), d = sym::any<bool>("deep"); ran = 0;
  unsigned v = sym::any<unsigned>("v"), w = v;
  switch (sym::choice(3, "kind")) {
  case 0: moved(awl::make_scope_guard([&] { ++ran; w = v + 1; }, eng), eng, r0, r1, d); break;
  case 1: moved(awl::make_scope_guard(std::function<void()>([&] { ++ran; w = v + 1; }), eng), eng, r0, r1, d); break;
  case 2: eng = true; moved(awl::make_virtual_guard([&] { ++ran; w = v + 1; }), eng, r0, r1, d); break;
  }
  sym::check(w == (eng && !r0 && !r1 ? v + 1 : v), "effect");
}
HARNESS(sg_assign) {
  // assignment takes over the callback together with its state
  unsigned a = 0, b = 0; bool ra = sym::any<bool>("ra"), rb = sym::any<bool>("rb"), rc = sym::any<bool>("rc"); bool want;
  {
    awl::virtual_guard g = sym::any<bool>("fake") ? awl::make_fake_guard() : awl::make_virtual_guard([&] { ++a; });
    if (ra) g.release();
    {
      awl::virtual_guard h = awl::make_virtual_guard([&] { ++b; });
      if (rb) h.release();
      g = std::move(h);
      sym::check(b == 0, "assignment does not run the new callback");
    }
    sym::check(b == 0, "the moved-from guard does not run the callback");
    if (rc) g.release();
    want = !rb && !rc;
  }
  sym::check(b == (want ? 1u : 0u), "the target runs the assigned callback iff the source was engaged");
  sym::reach(want ? "ran" : "skipped"); sym::observe("b", b);
}
HARNESS(sg_throw) {
  unsigned n = 0, order = 0; bool t = sym::any<bool>("throw"), r = sym::any<bool>("release");
  try { auto g = awl::make_scope_guard([&] { ++n; order = order * 10 + 1; }); auto h = awl::make_scope_guard([&] { ++n; order = order * 10 + 2; }); if (r) g.release(); if (t) throw 5; } catch (int) { sym::check(t, "exception"); order = order * 10 + 3; }
  sym::check(n == (r ? 1u : 2u), "guards run during unwinding as well"); sym::check(order == (r ? 2u : 21u) * (t ? 10 : 1) + (t ? 3 : 0), "guards run in reverse order before the handler");
  sym::reach("end"); sym::observe("order", order);
}
// without an explicit flag a guard is engaged; the callback is moved, not copied
namespace { struct Once { int *p; explicit Once(int *x) : p(x) {} Once(Once &&o) : p(o.p) { o.p = nullptr; } Once &operator=(Once &&o) { p = o.p; o.p = nullptr; return *this; } void operator()() { sym::check(p, "the callback that runs is the one that was given"); ++*p; } }; }
HARNESS(sg_default) {
  int n = 0, inits = 0; bool rel = sym::any<bool>("release"); { awl::scope_guard<Once> g(Once{&n}); if (rel) g.release(); } sym::check(n == !rel, "a guard");
  n = 0; { auto g = awl::make_scope_guard(Once{&n}); if (rel) g.release(); } sym::check(n == !rel, "a guard made from a callback");
  n = 0; { auto g = awl::make_scope_guard([&] { sym::check(n == 0, "first"); ++inits; }, Once{&n}); sym::check(inits == 1, "the initializer runs"); if (rel) g.release(); } sym::check(n == !rel && inits == 1, "a guard with an initializer");
  n = 0; { auto g = awl::make_scope_guard(Once{&n}), h = awl::make_scope_guard(Once{&inits}); h.release(); h = std::move(g); sym::check(n == 0, "assignment runs nothing"); if (rel) h.release(); } sym::check(n == !rel && inits == 1, "an assigned guard"); sym::reach("end");
}
