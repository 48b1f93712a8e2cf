//! entry sleep_stop threads time=100 reach=stopped
//! entry sleep_before time=30 reach=end
//! entry sleep_time threads time=100 reach=stopped,elapsed
//! entry sleep_none threads time=30 reach=end
//! entry sleep_two threads time=100 reach=end
//! entry dog threads time=150 reach=fired,destroyed
//! entry dog_cancel threads time=150 reach=fired,cancelled
//! entry dog_cancelled threads time=60 reach=end
//! flags -std=gnu++20
//! bound one or two sleeping threads and one that requests the stop at any moment, a watchdog with its thread, a destroying and a cancelling thread; at most 2 to 4 (thorough 3 to 5) pre-emptions; a deadline passes at any moment at or after it
//! assume the clock moves when a timed wait ends; the stop tokens are those of the standard library (their code is executed)
#include "sym.h"
#include "Awl/Sleep.h"
#include "Awl/WatchDog.h"
#include <optional>
#include <memory>
namespace {
const unsigned P = THOROUGH ? 4 : 3; using ms = std::chrono::milliseconds; const ms ever(200000000000); // years: the time never passes
auto now() { return std::chrono::steady_clock::now(); }
}
HARNESS(sleep_stop) { // the time never passes, so only the stop request can end the sleep
  sym_leak_scope L; { __sym_preempt_max(P + 1); std::stop_source s; int data = 0, v = sym::any<int>("v"); std::thread t([&] { data = v; s.request_stop(); }); awl::sleep_for(ever, s.get_token()); sym::check(s.stop_requested() && data == v, "the sleep ends on a stop request"); sym::reach("stopped"); t.join(); } L.done();
}
HARNESS(sleep_before) {
  sym_leak_scope L; { std::stop_source s; s.request_stop(); auto t = now(); awl::sleep_for(sym::any<bool>("far") ? ever : ms(5), s.get_token()); sym::check(__sym_native() || now() == t, "a stop that was requested before ends the sleep at once"); } L.done(); sym::reach("end");
}
HARNESS(sleep_time) {
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source s; bool stop = sym::any<bool>("stop"), micro = sym::any<bool>("micro"); auto d = micro ? std::chrono::microseconds(7) : std::chrono::microseconds(ms(50)); std::thread t([&] { if (stop) s.request_stop(); }); auto t0 = now(); awl::sleep_for(d, s.get_token()); bool early = now() - t0 < d; sym::check(!early || s.stop_requested(), "returns early only on a stop request"); sym::check(!early || stop, "no stop was requested"); sym::reach(early ? "stopped" : "elapsed"); t.join(); } L.done();
}
HARNESS(sleep_none) {
  sym_leak_scope L; { std::stop_token none; auto t0 = now(); awl::sleep_for(ms(3), none); sym::check(now() - t0 >= ms(3), "a token without a state does not end the sleep"); std::optional<std::stop_source> s(std::in_place); auto tok = s->get_token(); s.reset(); t0 = now(); awl::sleep_for(std::chrono::seconds(1), tok); sym::check(now() - t0 >= ms(1000), "a token without sources does not end the sleep"); } L.done(); sym::reach("end");
}
HARNESS(sleep_two) {
  sym_leak_scope L; { __sym_preempt_max(P - 1); std::stop_source s; int ended = 0; std::thread t([&] { awl::sleep_for(ever, s.get_token()); ended = 1; }), r([&] { s.request_stop(); }); awl::sleep_for(ever, s.get_token()); sym::check(s.stop_requested(), "stopped"); t.join(); r.join(); sym::check(ended == 1, "a stop request ends all sleeps"); } L.done(); sym::reach("end");
}
HARNESS(dog) { // a watchdog that is destroyed before or after its time
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source out; int fired = 0; bool far = sym::any<bool>("far"), wait = sym::any<bool>("wait"), log = sym::any<bool>("log"); sym::assume(!far || !wait); auto t0 = now(); std::stop_token tok; bool over = false, late = false; {
      int extra = 5; awl::watch_dog d(out.get_token(), far ? ever : ms(20), [&fired, &over, &late, &extra, t0] { ++fired; if (over) late = true; sym::check(extra == 5 && now() - t0 >= ms(20), "the action runs only when the time has passed"); }); tok = d.get_token(); (void)log; if (wait) { while (!tok.stop_requested()) __sym_spin(); sym::check(fired == 1, "the action runs before the stop"); } }
    over = true; sym::check(tok.stop_requested(), "the watchdog has stopped its token"); sym::check(fired <= 1 && (!far || !fired) && (!wait || fired), "the action runs once, when the time has passed"); int f = fired; __sym_yield(); sym::check(fired == f && !late, "the action never runs after the watchdog is destroyed"); sym::reach(fired ? "fired" : "destroyed"); }
  L.done();
}
HARNESS(dog_cancel) { // another thread cancels through the token that the watchdog was given
  sym_leak_scope L; { __sym_preempt_max(P - 1); std::stop_source out; int fired = 0; bool far = sym::any<bool>("far"), seen = false; std::stop_token tok; std::thread c([&] { out.request_stop(); }); {
      awl::watch_dog d(out.get_token(), far ? ever : ms(20), [&] { ++fired; }); tok = d.get_token(); while (!tok.stop_requested()) __sym_spin(); seen = out.stop_requested(); }
    c.join(); sym::check(seen || fired == 1, "stopped by the cancellation or after the time"); sym::check(fired <= 1 && (!far || !fired), "once"); sym::reach(fired ? "fired" : "cancelled"); }
  L.done();
}
HARNESS(dog_cancelled) {
  sym_leak_scope L; { __sym_preempt_max(P); std::stop_source out; out.request_stop(); int fired = 0; { awl::watch_dog d(out.get_token(), ever, [&] { ++fired; }); sym::check(d.get_token().stop_requested(), "cancelled from the beginning"); } sym::check(!fired, "no action"); }
  L.done(); sym::reach("end");
}
