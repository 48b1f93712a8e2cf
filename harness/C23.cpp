//! entry values time=100 reach=finished,abandoned,threw
//! entry references time=60 reach=end
//! entry ownership time=100 reach=end
//! entry nested time=100 reach=finished,abandoned,threw
//! entry mapped time=100 reach=finished,abandoned,threw
//! entry ranges time=60 reach=end
//! entry async_values time=150 reach=finished,abandoned,threw
//! entry async_suspend time=150 reach=finished,abandoned,threw
//! entry async_two time=100 reach=end
//! flags -std=gnu++20
//! bound bodies that yield 0..5 arbitrary values (thorough 0..8; nested 0..2, mapped 0..3, suspending 0..4) and then end or throw, consumers that stop after any number of values, never start, or move the generator at any point; generators of values, references and constant references; nested and mapped generators; asynchronous generators whose body suspends before or after any value and is resumed or abandoned
//! assume one thread; a generator is not advanced after its end
#include "sym.h"
#include "Awl/Coro/Generator.h"
#include "Awl/Coro/AsyncGenerator.h"
#include "Awl/Coro/ProcessTask.h"
#include <memory>
#include <vector>
namespace {
int alive, steps; struct Guard { int *p; Guard() : p(new int(1)) { ++alive; } Guard(const Guard &o) : p(new int(*o.p)) { ++alive; } ~Guard() { sym::check(*p == 1, "a local variable is destroyed once"); delete p; --alive; } };
struct Failure { int code; };
struct Plan { unsigned n; bool fail; int v[8]; };
Plan plan(unsigned max) { Plan p; p.n = sym::range(0, max, "n"); p.fail = sym::any<bool>("fail"); for (unsigned i = 0; i < p.n; ++i) p.v[i] = sym::any<int>("v"); return p; }
awl::generator<int> produce(Plan p, Guard) { Guard g; for (unsigned i = 0; i < p.n; ++i) { ++steps; co_yield p.v[i]; } ++steps; if (p.fail) throw Failure{(int)p.n}; }
awl::generator<int &> refs(std::vector<int> &v) { for (int &x : v) co_yield x; }
awl::generator<const std::unique_ptr<int> &> owners(Plan p) { for (unsigned i = 0; i < p.n; ++i) co_yield std::make_unique<int>(p.v[i]); }
awl::generator<int> outer(Plan p, Guard g) { ++steps; for (int &x : produce(p, g)) co_yield x; for (int x : produce(p, g)) co_yield x; }
struct Result { unsigned n = 0; int v[16]; bool failed = false; int code = -1; bool done = false; };
template <class G> Result consume(G &g, unsigned limit) { Result r; try { auto i = g.begin(); while (i != g.end() && r.n < limit) { r.v[r.n++] = *i; if (r.n < limit) ++i; } r.done = i == g.end(); } catch (const Failure &f) { r.failed = true; r.code = f.code; } return r; }
}
HARNESS(values) {
  const unsigned N = THOROUGH ? 8 : 5; Plan p = plan(N); unsigned limit = sym::range(0, N + 1, "limit"); sym_leak_scope L; { Guard arg; steps = 0; auto g = produce(p, arg); sym::check(steps == 0, "nothing runs before the first value is requested");
    if (sym::choice(2, "move")) { awl::generator<int> h(std::move(g)); g = std::move(h); } if (limit) { Result r = consume(g, limit); unsigned want = std::min(limit, p.n); sym::check(r.n == want, "number of values"); bool ok = true; for (unsigned i = 0; i < want; ++i) ok = ok && r.v[i] == p.v[i]; sym::check(ok, "the values in order");
      bool end = limit > p.n; sym::check(r.failed == (end && p.fail) && (!r.failed || r.code == (int)p.n), "the exception of the body arrives after its last value"); sym::check(r.done == (end && !p.fail), "the end"); sym::check(steps == (int)(end ? p.n + 1 : limit), "the body runs no further than requested"); sym::reach(r.failed ? "threw" : end ? "finished" : "abandoned"); } }
  sym::check(alive == 0, "everything in the frame is destroyed"); L.done(); sym::observe("steps", steps);
}
HARNESS(references) {
  unsigned n = sym::choice(4, "n"); std::vector<int> v, w; for (unsigned i = 0; i < n; ++i) { v.push_back(sym::any<int>("v")); w.push_back(v[i] ^ 1); } { auto g = refs(v); for (int &x : g) x ^= 1; } sym::check(v == w, "references to the original elements"); Plan p = plan(3); sym_leak_scope L; { unsigned i = 0; for (auto &x : owners(p)) { sym::check(*x == p.v[i], "temporaries live until the next value"); ++i; if (p.fail && i == 1) break; } sym::check(i == (p.fail ? std::min(p.n, 1u) : p.n), "number of values"); } L.done(); sym::reach("end");
}
HARNESS(ownership) {
  Plan p[2] = {plan(2), plan(1)}; sym_leak_scope L; { Guard arg; awl::generator<int> g[2], e; unsigned at[2] = {}; int src[2] = {-1, -1}; sym::check(e.begin() == e.end(), "a default constructed generator is empty");
    std::vector<awl::generator<int>::iterator> it(2); sym::check(it[0] == g[0].end(), "a default constructed iterator is at the end"); for (unsigned k = 0; k < 4; ++k) { unsigned i = sym::choice(2, "i"); switch (sym::choice(3, "op")) {
      case 0: { Plan q = p[i]; q.fail = false; g[i] = produce(q, arg); src[i] = i; at[i] = 0; break; }
      case 1: g[i].swap(g[1 - i]); std::swap(at[0], at[1]); std::swap(src[0], src[1]); std::swap(it[0], it[1]); break;
      default: if (src[i] < 0 || at[i] > p[src[i]].n) break; if (at[i] == 0) it[i] = g[i].begin(); else ++it[i]; if (at[i] < p[src[i]].n) sym::check(it[i] != g[i].end() && *it[i] == p[src[i]].v[at[i]], "every generator goes on where it was"); else sym::check(it[i] == g[i].end(), "the end"); ++at[i]; } sym::check(alive == 1 + 2 * 0 + [&] { int a = 0; for (unsigned j = 0; j < 2; ++j) if (src[j] >= 0) a += 1 + (at[j] >= 1 && at[j] <= p[src[j]].n); return a; }(), "an abandoned generator destroys its frame at once"); } }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done(); sym::reach("end");
}
HARNESS(nested) {
  Plan p = plan(2); unsigned limit = 1 + sym::range(0, 4, "limit"); sym_leak_scope L; { Guard arg; steps = 0; auto g = outer(p, arg); Result r = consume(g, limit); unsigned total = p.fail ? p.n : 2 * p.n, want = std::min(limit, total); sym::check(r.n == want, "number of values"); bool ok = true; for (unsigned i = 0; i < want; ++i) ok = ok && r.v[i] == p.v[i % p.n]; sym::check(ok, "the values in order"); bool end = limit > total; sym::check(r.failed == (end && p.fail) && r.done == (end && !p.fail), "the exception of the inner body"); sym::reach(r.failed ? "threw" : end ? "finished" : "abandoned"); }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done();
}
HARNESS(mapped) {
  Plan p = plan(3); unsigned limit = 1 + sym::range(0, 3, "limit"), bad = sym::range(0, 4, "bad"); sym_leak_scope L; { Guard arg; unsigned calls = 0; auto g = awl::fmap([&, keep = Guard()](int x) { if (calls++ == bad) throw Failure{77}; return (unsigned)x + 1u; }, produce(p, arg)); Result r = consume(g, limit); unsigned total = std::min(p.n, bad), want = std::min(limit, total); sym::check(r.n == want, "number of values"); bool ok = true; for (unsigned i = 0; i < want; ++i) ok = ok && (unsigned)r.v[i] == (unsigned)p.v[i] + 1u; sym::check(ok, "mapped values in order");
    bool end = limit > total, threw = end && (bad < p.n || p.fail); sym::check(r.failed == threw && (!threw || r.code == (bad < p.n ? 77 : (int)p.n)), "the exception of the function or of the source"); sym::check(r.done == (end && !threw), "the end"); sym::reach(threw ? "threw" : end ? "finished" : "abandoned"); }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done();
}
HARNESS(ranges) {
  Plan p = plan(3); p.fail = false; Guard arg; auto g = produce(p, arg); int n = 0; auto i = g.begin(), e = i; for (; !(g.end() == i); i++) { sym::check(i.operator->() == &*i && *i.operator->() == p.v[n], "arrow and star"); ++n; } sym::check(n == (int)p.n && i == g.end() && g.end() == i && !(i != g.end()) && !(g.end() != i), "the end"); awl::generator<int> a = produce(p, arg), b; swap(a, b); n = 0; for (int x : b) { sym::check(x == p.v[n], "swapped"); ++n; } sym::check(n == (int)p.n && a.begin() == a.end(), "swapped"); sym::reach("end");
}
namespace {
// something the body can wait for; the harness resumes whoever waits
struct Event { std::coroutine_handle<> h; bool await_ready() const { return false; } void await_suspend(std::coroutine_handle<> x) { sym::check(!h, "one waiter"); h = x; } void await_resume() { h = nullptr; } void fire() { auto x = h; h = nullptr; if (x) x.resume(); } };
awl::async_generator<int> aproduce(Plan p, Guard, Event &e, unsigned pause) { Guard g; for (unsigned i = 0; i < p.n; ++i) { ++steps; if (pause == i) { co_await e; } co_yield p.v[i]; } ++steps; if (pause == p.n) { co_await e; } if (p.fail) throw Failure{(int)p.n}; }
awl::async_generator<int> crefs(std::vector<int> &v) { for (int &x : v) co_yield x; }
awl::ProcessTask<int> aconsume(awl::async_generator<int> g, unsigned limit, Result &r) {
  Guard local; try { auto i = co_await g.begin(); while (i != g.end() && r.n < limit) { r.v[r.n++] = *i; if (r.n < limit) co_await ++i; } r.done = i == g.end(); } catch (const Failure &f) { r.failed = true; r.code = f.code; } co_return (int)r.n;
}
void acheck(const Plan &p, const Result &r, unsigned limit) { unsigned want = std::min(limit, p.n); bool end = limit > p.n; sym::check(r.n == want, "number of values"); bool ok = true; for (unsigned i = 0; i < want; ++i) ok = ok && r.v[i] == p.v[i]; sym::check(ok, "the values in order"); sym::check(r.failed == (end && p.fail) && (!r.failed || r.code == (int)p.n), "the exception of the body arrives after its last value"); sym::check(r.done == (end && !p.fail), "the end"); sym::check(steps == (int)(end ? p.n + 1 : limit), "the body runs no further than requested"); sym::reach(r.failed ? "threw" : end ? "finished" : "abandoned"); }
}
HARNESS(async_values) {
  const unsigned N = THOROUGH ? 8 : 5; Plan p = plan(N); unsigned limit = sym::range(0, N + 1, "limit"); sym_leak_scope L; { Guard arg; Event e; steps = 0; auto g = aproduce(p, arg, e, 99); sym::check(steps == 0, "nothing runs before the first value is requested"); if (sym::choice(2, "move")) { awl::async_generator<int> h(std::move(g)); g = std::move(h); } if (limit) { Result r; auto t = aconsume(std::move(g), limit, r); sym::check(t.is_ready() && t.get() == (int)r.n, "the consumer has finished"); acheck(p, r, limit); } }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done(); sym::observe("steps", steps);
}
HARNESS(async_suspend) {
  const unsigned N = THOROUGH ? 6 : 4; Plan p = plan(N); unsigned limit = 1 + sym::range(0, N, "limit"), pause = sym::range(0, N, "pause"); bool resume = sym::any<bool>("resume"); sym_leak_scope L; { Guard arg; Event e; steps = 0; Result r; auto t = aconsume(aproduce(p, arg, e, pause), limit, r); bool waits = pause <= p.n && pause < limit; sym::check(t.is_ready() == !waits, "waits exactly if the body does"); if (waits) { sym::check(r.n == pause && !r.failed && !r.done, "the values before the wait"); if (resume) { e.fire(); sym::check(t.is_ready(), "goes on after the wait"); } } if (!waits || resume) { acheck(p, r, limit); sym::check(t.get() == (int)r.n, "result"); } }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done(); sym::observe("steps", steps);
}
namespace { awl::ProcessTask<int> zip(awl::async_generator<int> a, awl::async_generator<int> b, std::vector<int> &out) { auto i = co_await a.begin(); auto j = co_await b.begin(); int n = 0; while (i != a.end() || j != b.end()) { if (i != a.end()) { out.push_back(*i); co_await ++i; ++n; } if (j != b.end()) { out.push_back(*j); co_await ++j; ++n; } } co_return n; }
awl::ProcessTask<int> sum(std::vector<int> &v, bool &same) { auto g = crefs(v); unsigned k = 0; for (auto i = co_await g.begin(); i != g.end(); co_await ++i) { same = same && &*i == &v[k]; ++k; } awl::async_generator<int> none; same = same && (co_await none.begin()) == none.end(); co_return (int)k; } }
HARNESS(async_two) {
  Plan p = plan(2), q = plan(2); p.fail = q.fail = false; std::vector<int> out, want; for (unsigned i = 0; i < 2; ++i) { if (i < p.n) want.push_back(p.v[i]); if (i < q.n) want.push_back(q.v[i]); } out.reserve(8); sym_leak_scope L; { Guard arg; Event e; unsigned pause = sym::range(0, 2, "pause"); auto t = zip(aproduce(p, arg, e, pause), aproduce(q, arg, e, 99), out); e.fire(); sym::check(t.is_ready() && t.get() == (int)(p.n + q.n), "both are consumed"); sym::check(out == want, "the values of both in turn"); bool same = true; auto s = sum(want, same); sym::check(s.get() == (int)want.size() && same, "references to the original elements"); }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done(); sym::reach("end");
}
