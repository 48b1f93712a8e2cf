//! entry value time=100 reach=ready,waits,threw,dropped
//! entry chain time=150 reach=finished,threw,dropped
//! entry void_chain time=150 reach=finished,threw,dropped
//! entry parallel shards=4 time=150 reach=finished,threw,dropped
//! entry moves shards=4 time=100 reach=end
//! entry updates time=150 reach=finished,dropped,released
//! entry update_moves shards=4 time=100 reach=end
//! entry update_order shards=4 time=150 reach=end
//! flags -std=gnu++20
//! bound tasks with an arbitrary int result, an exception before, between or after up to two suspensions; chains of three awaiting tasks, one task that awaits three others which end in any order; tasks are dropped, moved, overwritten or released after any number of the events that resume them
//! assume one thread; a task is awaited by at most one coroutine, which is not destroyed while a task that it awaits goes on living elsewhere
#include "sym.h"
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Coro/UpdateTask.h"
#include <memory>
#include <vector>
namespace {
int alive; struct Guard { int *p; Guard() : p(new int(1)) { ++alive; } Guard(const Guard &o) : p(new int(*o.p)) { ++alive; } ~Guard() { sym::check(*p == 1, "a local variable is destroyed once"); delete p; --alive; } };
struct Failure { int code; };
struct Event { std::coroutine_handle<> h; int resumed = 0; bool fire() { auto x = h; h = nullptr; if (x) x.resume(); return (bool)x; } };
struct Wait { Event &e; bool armed = false; bool await_ready() const { return false; } void await_suspend(std::coroutine_handle<> x) { sym::check(!e.h, "one waiter"); e.h = x; armed = true; } void await_resume() { armed = false; ++e.resumed; } ~Wait() { if (armed) e.h = nullptr; } }; // a destroyed coroutine waits no more
Wait operator co_await(Event &e) { return {e}; }
struct Plan { unsigned waits, fail; int v; }; // suspends `waits` times, throws after `fail` suspensions
Plan plan(unsigned max) { Plan p; p.waits = sym::range(0, max, "waits"); p.fail = sym::range(0, max + 1, "fail"); p.v = sym::any<int>("v"); return p; }
bool fails(const Plan &p) { return p.fail <= p.waits; }
int starts, ends;
awl::ProcessTask<int> leaf(Plan p, Event &e, Guard) { Guard g; ++starts; for (unsigned i = 0;; ++i) { if (i == p.fail) throw Failure{p.v}; if (i == p.waits) break; co_await e; } ++ends; co_return p.v; }
awl::ProcessTask<unsigned> twice(Plan p, Event &e, Guard a) { Guard g; auto t = leaf(p, e, a); int r = co_await t; co_return (unsigned)r * 2u; }
awl::ProcessTask<unsigned> plus(Plan p, Event &e, Guard a, bool again) { Guard g; unsigned x = 0; try { x = co_await twice(p, e, a); } catch (const Failure &f) { if (again) throw; co_return (unsigned)f.code ^ 5u; } co_return x + 1u; }
}
HARNESS(value) {
  Plan p = plan(2); unsigned fired = sym::range(0, 2, "fired"); sym_leak_scope L; { Guard arg; Event e; starts = ends = 0; auto t = leaf(p, e, arg); sym::check(starts == 1, "the body starts at once"); unsigned stop = std::min(p.waits, p.fail);
    for (unsigned k = 0;; ++k) { bool over = k >= stop; if (over && fails(p)) { bool a = false, b = false; try { (void)t.is_ready(); } catch (const Failure &f) { a = f.code == p.v; } try { t.get(); } catch (const Failure &f) { b = f.code == p.v; } sym::check(a && b, "the exception of the body"); sym::reach("threw"); break; }
      sym::check(t.is_ready() == over, "ready exactly when the body has ended"); if (over) { sym::check(t.get() == p.v && ends == 1, "the value of the body"); sym::reach("ready"); break; } sym::reach("waits"); if (k == fired) { sym::reach("dropped"); break; } sym::check(e.fire(), "the body waits"); } sym::check(starts == 1, "the body runs once"); }
  sym::check(alive == 0, "everything in the frame is destroyed"); L.done(); sym::observe("ends", ends);
}
HARNESS(chain) {
  Plan p = plan(2); bool again = sym::any<bool>("again"); unsigned fired = sym::range(0, 3, "fired"); sym_leak_scope L; { Guard arg; Event e; starts = ends = 0; auto t = plus(p, e, arg, again); unsigned stop = std::min(p.waits, p.fail), k = 0; for (; k < fired && e.fire(); ++k) {} sym::check(k == std::min(stop, fired), "every event resumes the waiting coroutine once"); bool over = k >= stop;
    if (!over) { sym::check(!t.is_ready() && ends == 0, "waits for the inner task"); sym::reach("dropped"); } else if (fails(p) && again) { bool c = false; try { t.get(); } catch (const Failure &f) { c = f.code == p.v; } sym::check(c, "the exception travels through the chain"); sym::reach("threw"); } else { sym::check(t.is_ready() && t.get() == (fails(p) ? (unsigned)p.v ^ 5u : (unsigned)p.v * 2u + 1u), "the value travels through the chain"); sym::reach("finished"); } sym::check(starts == 1 && ends == (over && !fails(p)), "every body runs once"); }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done(); sym::observe("ends", ends);
}
namespace {
awl::ProcessTask<void> vleaf(Plan p, Event &e, Guard, int &out) { Guard g; for (unsigned i = 0;; ++i) { if (i == p.fail) throw Failure{p.v}; if (i == p.waits) break; co_await e; } out = p.v; }
awl::ProcessTask<void> vmid(Plan p, Event &e, Guard a, int &out) { Guard g; co_await vleaf(p, e, a, out); out ^= 3; }
awl::ProcessTask<std::unique_ptr<int>> vtop(Plan p, Event &e, Guard a) { Guard g; int out = 0; co_await vmid(p, e, a, out); co_return std::make_unique<int>(out); }
}
HARNESS(void_chain) {
  Plan p = plan(2); unsigned fired = sym::range(0, 3, "fired"); sym_leak_scope L; { Guard arg; Event e; auto t = vtop(p, e, arg); unsigned stop = std::min(p.waits, p.fail), k = 0; for (; k < fired && e.fire(); ++k) {} sym::check(k == std::min(stop, fired), "every event resumes the waiting coroutine once");
    if (k < stop) { sym::check(!t.is_ready(), "waits"); sym::reach("dropped"); } else if (fails(p)) { bool c = false; try { t.get(); } catch (const Failure &f) { c = f.code == p.v; } sym::check(c, "the exception travels through tasks without a value"); sym::reach("threw"); } else { auto r = t.get(); sym::check(r && *r == (p.v ^ 3), "a movable value"); sym::reach("finished"); } }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done();
}
namespace { awl::ProcessTask<unsigned> all(const Plan *p, Event *e, Guard a, unsigned first) { Guard g; awl::ProcessTask<int> t[3] = {leaf(p[0], e[0], a), leaf(p[1], e[1], a), leaf(p[2], e[2], a)}; unsigned r = 0; for (unsigned k = 0; k < 3; ++k) { unsigned i = (first + k) % 3; r = r * 3u + (unsigned)co_await t[i]; } co_return r; } }
HARNESS(parallel) {
  Plan p[3]; for (auto &x : p) { x = plan(1); sym::assume(x.fail == 0 || x.fail >= 1); } unsigned first = sym::choice(3, "first"), n = sym::choice(4, "n"), order[3]; for (unsigned k = 0; k < n; ++k) order[k] = sym::choice(3, "order"); sym_leak_scope L; { Guard arg; Event e[3]; starts = ends = 0; auto t = all(p, e, arg, first); sym::check(starts == 3, "all bodies start at once"); bool fired[3] = {}; for (unsigned k = 0; k < n; ++k) { e[order[k]].fire(); fired[order[k]] = true; }
    unsigned r = 0; int state = 1; int code = 0; for (unsigned k = 0; k < 3 && state == 1; ++k) { unsigned i = (first + k) % 3; bool over = std::min(p[i].waits, p[i].fail) == 0 || fired[i]; if (!over) state = 0; else if (fails(p[i])) { state = 2; code = p[i].v; } else r = r * 3u + (unsigned)p[i].v; }
    if (state == 0) { sym::check(!t.is_ready(), "waits for the first task that has not ended"); sym::reach("dropped"); } else if (state == 2) { bool c = false; try { t.get(); } catch (const Failure &f) { c = f.code == code; } sym::check(c, "the exception of the first failing task"); sym::reach("threw"); } else { sym::check(t.is_ready() && t.get() == r, "all values, whatever order the tasks ended in"); sym::reach("finished"); } }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done();
}
HARNESS(moves) {
  Plan p = plan(2); sym_leak_scope L; { Guard arg; Event e[2]; awl::ProcessTask<int> t[2]; int src[2] = {-1, -1}; unsigned fired[2] = {}, used = 0; for (unsigned k = 0; k < 4; ++k) { unsigned i = sym::choice(2, "i"); switch (sym::choice(4, "op")) {
      case 0: if (used == 2) break; t[i] = leaf(p, e[used], arg); src[i] = used++; break;
      case 1: t[i] = std::move(t[1 - i]); src[i] = src[1 - i]; src[1 - i] = -1; break;
      case 2: { awl::ProcessTask<int> u(std::move(t[i])); t[1 - i] = std::move(u); src[1 - i] = src[i]; src[i] = -1; break; }
      default: if (src[i] >= 0 && e[src[i]].h) { e[src[i]].fire(); ++fired[src[i]]; } }
      int want = 1; for (unsigned j = 0; j < 2; ++j) if (src[j] >= 0) want += 1 + (fired[src[j]] < std::min(p.waits, p.fail)); sym::check(alive == want, "an overwritten task destroys its frame at once, a moved one keeps it");
      for (unsigned j = 0; j < 2; ++j) if (src[j] >= 0 && !fails(p)) sym::check(t[j].is_ready() == (fired[src[j]] >= p.waits), "ready when the body has ended"); } }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done(); sym::reach("end");
}
namespace {
awl::UpdateTask uleaf(unsigned waits, Event &e, Guard, int &done) { Guard g; for (unsigned i = 0; i < waits; ++i) co_await e; ++done; }
awl::UpdateTask umid(unsigned waits, Event &e, Guard a, int &done) { Guard g; { auto t = uleaf(waits, e, a, done); co_await t; sym::check(t.done(), "awaited to the end"); } done += 10; }
awl::UpdateTask utop(unsigned waits, Event &e, Guard a, int &done, bool early) { Guard g; if (early) co_await e; co_await umid(waits, e, a, done); done += 100; }
}
HARNESS(updates) {
  unsigned waits = sym::range(0, 2, "waits"), fired = sym::range(0, 4, "fired"); bool early = sym::any<bool>("early"); unsigned when = sym::range(0, 4, "when"); bool release = sym::any<bool>("release"); sym_leak_scope L; { Guard arg; Event e; int done = 0; unsigned total = waits + early, k = 0; bool released = false; { auto t = utop(waits, e, arg, done, early); sym::check((bool)t, "a task"); for (;; ++k) { if (release && k == when) { t.release(); released = true; sym::check(!t, "released"); } if (!released) sym::check(t.done() == (k >= total), "done when the body has ended"); sym::check(done == (k >= total ? 111 : 0), "every body runs once, to its end, before its awaiter goes on"); if (k == fired || !e.fire()) break; } sym::check(k == std::min(total, fired), "every event resumes the waiting coroutine once"); }
    if (released) { while (e.fire()) ++k; sym::check(k == total && done == 111, "a released task goes on without its owner"); } sym::check(alive == 1, "a finished or dropped task has destroyed its frame"); sym::reach(released ? "released" : k < total ? "dropped" : "finished"); }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done();
}
namespace { awl::UpdateTask join(Event *e, Guard a, int &done, unsigned n, std::vector<awl::UpdateTask> &v) { Guard g; for (unsigned i = 0; i < n; ++i) { co_await v[i]; ++done; } } }
HARNESS(update_order) {
  unsigned n = 3, order[4]; for (auto &o : order) o = sym::choice(3, "order"); sym_leak_scope L; { Guard arg; Event e[3]; int leafs = 0, done = 0; { std::vector<awl::UpdateTask> v; v.reserve(3); for (unsigned i = 0; i < n; ++i) v.push_back(uleaf(1, e[i], arg, leafs)); auto t = join(e, arg, done, n, v); bool f[3] = {}; for (unsigned o : order) { e[o].fire(); f[o] = true; int prefix = 0; while (prefix < 3 && f[prefix]) ++prefix; sym::check(done == prefix && leafs == f[0] + f[1] + f[2], "goes on exactly when the awaited task has ended"); } sym::check(t.done() == (done == 3), "done when all have ended"); } }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done(); sym::reach("end");
}
HARNESS(update_moves) { // update tasks that are moved, overwritten, freed and released
  sym_leak_scope L; { Guard arg; Event e[2]; int done[2] = {}; awl::UpdateTask t[2]; int src[2] = {-1, -1}; bool live[2] = {}, fired[2] = {}; unsigned used = 0; auto drop = [&](unsigned i) { if (src[i] >= 0 && !fired[src[i]]) live[src[i]] = false; src[i] = -1; };
    for (unsigned k = 0; k < (THOROUGH ? 5 : 4); ++k) { unsigned i = sym::choice(2, "i"); switch (sym::choice(5, "op")) {
      case 0: if (used == 2) break; drop(i); t[i] = uleaf(1, e[used], arg, done[used]); live[used] = true; src[i] = used++; break;
      case 1: drop(1 - i); t[1 - i] = std::move(t[i]); src[1 - i] = src[i]; src[i] = -1; break;
      case 2: t[i].free(); drop(i); break;
      case 3: t[i].release(); src[i] = -1; break;
      default: if (i < used) { bool had = live[i] && !fired[i]; sym::check(e[i].fire() == had, "a task that was dropped waits no more, any other does"); if (had) fired[i] = true; } }
      for (unsigned j = 0; j < 2; ++j) { sym::check((bool)t[j] == (src[j] >= 0), "the handle follows the moves"); if (src[j] >= 0) sym::check(t[j].done() == fired[src[j]], "the task is the one that was moved here"); sym::check((done[j] != 0) == fired[j], "a body ends when its event has come"); } }
    for (unsigned j = 0; j < 2; ++j) { drop(j); t[j].free(); } for (unsigned j = 0; j < used; ++j) sym::check(e[j].fire() == (live[j] && !fired[j]), "only released tasks go on");
    sym::check(alive == 1, "every frame is destroyed once"); }
  sym::check(alive == 0, "everything in the frames is destroyed"); L.done(); sym::reach("end");
}
