//! entry history shards=4 time=150 reach=requested,late,self,other,end
//! entry request_register threads time=100 reach=early,late
//! entry request_destroy threads time=150 reach=ran,never
//! entry requesters threads time=100 reach=end
//! entry last_reference threads time=100 reach=end
//! entry registrations threads time=100 reach=end
//! entry inside threads time=150 reach=end
//! entry thread threads time=100 reach=stopped,ended
//! entry thread_moves threads time=100 reach=end
//! entry wait_stop threads time=100 reach=true,false
//! entry wait_notify threads time=100 reach=end
//! entry wait_time threads time=150 reach=true,false
//! flags -std=gnu++17 -I$REPO/Extras/JThread
//! bound history: two registrations, then 3 (thorough 4) arbitrary operations on two sources, two tokens and three callbacks, which may destroy themselves or another callback, register another one or request a stop again; threads: two or three threads, at most 3 (thorough 4) pre-emptions
//! assume sequentially consistent values of atomics (the happens-before order follows the memory orders that the code asks for, so a missing one is a data race); a callback does not destroy the stop source that runs it
#include "sym.h"
#include <immintrin.h>
#define _mm_pause() __sym_spin()
#include <memory>
#include <optional>
#include <functional>
#include "JThreadExtras/stop_token.hpp"
#include "JThreadExtras/jthread.hpp"
#include "JThreadExtras/condition_variable_any2.hpp"
namespace {
using F = std::function<void()>; using CB = std::stop_callback<F>;
}
HARNESS(history) {
  sym_leak_scope L; int calls = 0; {
    std::stop_source src[2] = {std::stop_source(), std::stop_source()}; std::stop_token tok[2] = {src[0].get_token(), src[1].get_token()}; int sg[2] = {0, 1}, tg[2] = {0, 1}; int groups = 2, sources[10] = {1, 1}; bool stopped[10] = {};
    std::optional<CB> cb[3]; int cg[3] = {-1, -1, -1}, runs[3] = {}, want[3] = {}; int act[3] = {};
    auto drop = [&](unsigned i) { if (cb[i]) { cb[i].reset(); cg[i] = -1; } };
    std::function<void(unsigned, int, unsigned)> reg = [&](unsigned i, int g, unsigned mode) { drop(i); runs[i] = want[i] = 0; cg[i] = g; act[i] = mode; std::stop_token t = g == tg[0] ? tok[0] : tok[1]; bool st = stopped[g]; if (st) { want[i] = 1; sym::reach("late"); } bool in = st;
      F f = [&, i, g, in] { ++runs[i]; ++calls; switch (act[i]) { case 0: break; case 1: for (int j = 0; j < 2; ++j) if (sg[j] == g) sym::check(!src[j].request_stop(), "a second request fails"); break; case 2: if (in) break; sym::reach("self"); { auto &n = cg[i]; want[i] = 1; n = -1; cb[i].reset(); } break; case 3: { unsigned o = (i + 1) % 3; if (cg[o] >= 0) { sym::reach("other"); if (runs[o] == 0) want[o] = 0; drop(o); } break; } } };
      if (mode & 1) cb[i].emplace(std::move(t), std::move(f)); else cb[i].emplace(t, std::move(f)); };
    for (int k = 0; k < (THOROUGH ? 6 : 5); ++k) {
      unsigned op = k < 2 ? 0 : (unsigned)sym::range(0, 6, "op"), i = k < 2 || op == 1 ? 0 : sym::choice(2, "i");
      switch (op) {
      case 0: reg(k % 3, tg[i], sym::choice(4, "mode")); break;
      case 1: drop(sym::choice(3, "c")); break;
      case 2: { int g = sg[i]; bool had[3], first = !stopped[g]; int before[3]; for (int c = 0; c < 3; ++c) { had[c] = cg[c] == g; before[c] = runs[c]; } stopped[g] = true; sym::check(src[i].request_stop() == first, "a stop request succeeds exactly once"); sym::reach("requested");
        for (int c = 0; c < 3; ++c) if (had[c] && cg[c] == g) sym::check(runs[c] == 1, "every registered callback runs exactly once"); else sym::check(runs[c] <= before[c] + 1, "at most once"); break; }
      case 3: tok[i] = src[sym::choice(2, "s")].get_token(); tg[i] = tok[i] == src[0].get_token() ? sg[0] : sg[1]; break;
      case 4: --sources[sg[i]]; src[i] = src[1 - i]; sg[i] = sg[1 - i]; ++sources[sg[i]]; break;
      case 5: --sources[sg[i]]; src[i] = std::stop_source(); sg[i] = groups++; ++sources[sg[i]]; break;
      case 6: { std::stop_token t(tok[1 - i]); std::stop_token u(std::move(t)); tok[i] = u; tg[i] = tg[1 - i]; sym::check(t == std::stop_token() && !t.stop_possible(), "a moved token has no state"); break; }
      }
      for (int j = 0; j < 2; ++j) { sym::check(src[j].stop_requested() == stopped[sg[j]] && tok[j].stop_requested() == stopped[tg[j]], "a stop is seen by every source and token of its state"); sym::check(tok[j].stop_possible() == (stopped[tg[j]] || sources[tg[j]] > 0), "a stop is possible while a source is left or it was requested"); sym::check((tok[j] == src[0].get_token()) == (tg[j] == sg[0]), "equality means the same state"); }
      for (int c = 0; c < 3; ++c) if (cg[c] >= 0) sym::check(runs[c] == (stopped[cg[c]] ? 1 : 0), "a callback runs exactly when the stop is requested");
    }
    for (auto &c : cb) c.reset(); sym::observe("calls", calls);
  }
  L.done(); sym::reach("end");
}
namespace { const unsigned P = THOROUGH ? 4 : 3; }
HARNESS(request_register) { // a callback is registered while another thread requests the stop
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source s; int data = 0, runs = 0; int v = sym::any<int>("v"); bool inline_ = false, done = false;
    std::thread t([&] { data = v; sym::check(s.request_stop(), "the only request succeeds"); });
    { auto me = std::this_thread::get_id(); CB cb(s.get_token(), [&] { sym::check(data == v, "what happened before the request is visible"); ++runs; inline_ = std::this_thread::get_id() == me; }); done = true; if (s.stop_requested()) sym::check(data == v, "visible"); t.join(); sym::check(runs == 1, "a registered callback runs exactly once"); sym::reach(inline_ ? "late" : "early"); } sym::check(runs == 1 && s.stop_requested(), "once"); }
  L.done();
}
HARNESS(request_destroy) { // callbacks are destroyed and others registered while the stop is requested
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source s; int in[3] = {}, out[3] = {}; auto make = [&](int i) { return [&in, &out, i] { ++in[i]; __sym_yield(); ++out[i]; }; }; bool more = sym::any<bool>("more");
    auto *a = new CB(s.get_token(), make(0)); auto *b = new CB(s.get_token(), make(1)); if (sym::any<bool>("swap")) std::swap(a, b);
    std::thread t([&] { s.request_stop(); });
    delete a; int ia = in[0] + in[1]; (void)ia; std::optional<CB> c; if (more) c.emplace(s.get_token(), make(2));
    t.join(); sym::check(in[0] == out[0] && in[1] == out[1] && in[0] <= 1 && in[1] <= 1, "no callback runs after its destructor has returned"); sym::check(in[0] + in[1] >= 1, "the other callback runs"); if (more) sym::check(in[2] == 1, "the new callback runs once"); sym::reach(in[0] + in[1] == 2 ? "ran" : "never"); delete b; sym::check(in[0] <= 1 && in[1] <= 1, "once"); }
  L.done();
}
HARNESS(requesters) {
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source s; int runs = 0, won[2] = {}; bool seen = false; CB cb(s.get_token(), [&] { ++runs; });
    std::thread a([&, s]() mutable { won[0] = s.request_stop(); sym::check(s.stop_requested(), "seen after the request"); }), b([&, s]() mutable { won[1] = s.request_stop(); sym::check(s.stop_requested(), "seen after the request"); }); bool e = s.get_token().stop_requested(); a.join(); b.join(); seen = s.get_token().stop_requested(); sym::check(won[0] + won[1] == 1, "a stop request succeeds for exactly one requester"); sym::check(runs == 1 && seen, "the callback runs once"); (void)e; }
  L.done(); sym::reach("end");
}
HARNESS(last_reference) { // the last references go away in two threads
  sym_leak_scope L; { __sym_preempt_max(P + 1); auto s = std::make_unique<std::stop_source>(); auto t = std::make_unique<std::stop_token>(s->get_token()); bool cb = sym::any<bool>("cb"), req = sym::any<bool>("req"), copy = sym::any<bool>("copy"); int runs = 0;
    std::thread a([&] { if (copy) { std::stop_token u(*t); std::stop_token w; w = u; t.reset(); if (w.stop_requested()) sym::check(req, "a stop was requested"); } else if (cb) { auto c = std::make_unique<CB>(std::move(*t), [&] { ++runs; }); t.reset(); c.reset(); } else t.reset(); });
    if (req) s->request_stop(); s.reset(); a.join(); sym::check(runs <= 1 && (req || runs == 0), "at most once"); }
  L.done(); sym::reach("end");
}
HARNESS(registrations) { // two threads register and destroy callbacks of the same state
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source s; int runs[2] = {}; std::optional<CB> cb[2]; bool keep[2] = {sym::any<bool>("keep"), sym::any<bool>("keep")}; auto body = [&](int i) { return [&, i] { cb[i].emplace(s.get_token(), [&runs, i] { ++runs[i]; }); if (!keep[i]) cb[i].reset(); }; };
    std::thread a(body(0)), b(body(1)); a.join(); b.join(); s.request_stop(); for (int i = 0; i < 2; ++i) sym::check(runs[i] == keep[i], "the registered callbacks run"); }
  L.done(); sym::reach("end");
}
HARNESS(inside) { // callbacks that destroy themselves or each other while another thread destroys one
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source s; std::unique_ptr<CB> a, b, c; int runs[3] = {}; bool self = sym::any<bool>("self"); c = std::make_unique<CB>(s.get_token(), [&] { ++runs[2]; }); a = std::make_unique<CB>(s.get_token(), [&] { ++runs[0]; if (self) a.reset(); else b.reset(); }); b = std::make_unique<CB>(s.get_token(), [&] { ++runs[1]; if (!self) a.reset(); else b.reset(); });
    std::thread t([&] { s.request_stop(); }); c.reset(); int r = runs[2]; t.join(); sym::check(runs[2] == r && r <= 1, "never after its destructor returned"); if (self) sym::check(runs[0] == 1 && runs[1] == 1, "callbacks may destroy themselves"); else sym::check(runs[0] + runs[1] == 1, "a callback that another callback has destroyed does not run"); }
  L.done(); sym::reach("end");
}
HARNESS(thread) {
  sym_leak_scope L; { __sym_preempt_max(P); int v = sym::any<int>("v"), got = 0; bool stop = sym::any<bool>("stop"), quick = sym::any<bool>("quick"), seen = false, ended = false; {
      std::jthread t([&](std::stop_token k, int x) { got = x; if (!quick) while (!k.stop_requested()) __sym_spin(); else seen = false; if (k.stop_requested()) seen = true; ended = true; }, v); sym::check(t.joinable(), "joinable"); if (stop) { sym::check(t.request_stop(), "request"); t.join(); sym::check(!t.joinable() && ended, "joined"); } }
    sym::check(ended && got == v, "the destructor waits for the thread"); sym::check(quick || seen, "the destructor requests the stop first"); sym::reach(seen ? "stopped" : "ended"); }
  L.done();
}
HARNESS(thread_moves) {
  sym_leak_scope L; { __sym_preempt_max(2); int ends[2] = {}; unsigned how = sym::range(0, 2, "how"); { std::jthread a([&](std::stop_token k) { while (!k.stop_requested()) __sym_spin(); ++ends[0]; }); auto tok = a.get_stop_token(); if (how == 0) { a = std::jthread([&](std::stop_token k) { while (!k.stop_requested()) __sym_spin(); ++ends[1]; }); sym::check(ends[0] == 1 && !a.get_stop_token().stop_requested() && tok.stop_requested(), "an assignment stops and joins the old thread"); } else if (how == 1) { std::jthread b(std::move(a)); sym::check(!a.joinable() && b.joinable() && ends[0] == 0, "moved"); b.request_stop(); b.join(); sym::check(ends[0] == 1, "moved with its stop state"); a = std::jthread([&] { ++ends[1]; }); } else { std::jthread b; b.swap(a); sym::check(!a.joinable(), "swapped"); a = std::jthread([&] { ++ends[1]; }); sym::check(!tok.stop_requested(), "swapped with its stop state"); } }
    sym::check(ends[0] == 1 && ends[1] == 1, "every thread is stopped and joined"); }
  L.done(); sym::reach("end");
}
HARNESS(wait_stop) { // a waiting thread, a thread that requests the stop, a thread that makes the condition true
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source s; std::mutex m; std::condition_variable_any2 cv; bool ready = false, set = sym::any<bool>("set"); std::thread w([&] { s.request_stop(); }); std::optional<std::thread> n; if (set) n.emplace([&] { { std::lock_guard<std::mutex> g(m); ready = true; } cv.notify_one(); });
    { std::unique_lock<std::mutex> l(m); bool r = cv.wait(l, s.get_token(), [&] { return ready; }); sym::check(l.owns_lock() && (!r || ready), "returns true only when the condition holds"); sym::check(r || s.stop_requested(), "returns false only after a stop"); sym::reach(r ? "true" : "false"); } w.join(); if (n) n->join(); }
  L.done();
}
HARNESS(wait_notify) {
  sym_leak_scope L; { __sym_preempt_max(P); std::mutex m; std::condition_variable_any2 cv; int ready = 0; bool all = sym::any<bool>("all"), token = sym::any<bool>("token"); std::stop_source s; std::thread n([&] { { std::lock_guard<std::mutex> g(m); ready = 2; } if (all) cv.notify_all(); else { cv.notify_one(); cv.notify_one(); } }), w([&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return ready > 0; }); --ready; });
    { std::unique_lock<std::mutex> l(m); if (token) sym::check(cv.wait(l, s.get_token(), [&] { return ready > 0; }), "woken"); else cv.wait(l, [&] { return ready > 0; }); --ready; } n.join(); w.join(); sym::check(ready == 0, "no wake-up is lost"); }
  L.done(); sym::reach("end");
}
HARNESS(wait_time) {
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source s; std::mutex m; std::condition_variable_any2 cv; bool ready = false; unsigned kind = sym::range(0, 2, "kind"); bool far = sym::any<bool>("far"); sym::assume(!far || kind < 2); std::thread w([&] { if (kind == 0) s.request_stop(); else if (kind == 1) { { std::lock_guard<std::mutex> g(m); ready = true; } cv.notify_one(); } });
    { std::unique_lock<std::mutex> l(m); auto t0 = std::chrono::steady_clock::now(); bool r = cv.wait_for(l, s.get_token(), far ? std::chrono::milliseconds(200000000000) : std::chrono::milliseconds(50), [&] { return ready; }); auto t1 = std::chrono::steady_clock::now(); sym::check(l.owns_lock() && r == ready, "returns whether the condition holds"); if (!r) sym::check(s.stop_requested() || t1 - t0 >= std::chrono::milliseconds(50), "returns early only on a stop"); sym::reach(r ? "true" : "false"); } w.join(); }
  L.done();
}
