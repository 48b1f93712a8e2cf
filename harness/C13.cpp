//! entry ob_history shards=8 time=200 reach=notified,moved,died,src_died
//! entry ob_self shards=4 time=100 reach=unsub,destroyed,thrown,end
//! entry ob_while time=60 reach=stopped,all
//! entry ob_while_self shards=4 time=100 reach=unsub,destroyed,end
//! entry ob_order time=60 reach=end
//! entry ob_args time=60 reach=end
//! bound ob_history: 2 observables, 3 observers in 3 (thorough 5) initial distributions, 3 (thorough 4) arbitrary operations (subscribe, unsubscribe, move or destroy an observer, move-construct, move-assign or destroy an observable), a notification after each, arguments arbitrary 32-bit values
//! bound ob_self: 4 observers, each of which ignores, unsubscribes itself, destroys itself, or throws during the notification, in every combination; ob_while_self: 3 observers likewise, with arbitrary answers
//! assume an observer is subscribed only while it is not subscribed; during a notification an observer unsubscribes or destroys only itself
#include "sym.h"
#include "Awl/Observable.h"
#include <memory>
#include <utility>
namespace {
struct I { virtual void on(int a, const int &b) = 0; virtual bool ask(int a) = 0; virtual void none() = 0; };
struct Log { int id; int a; int b; };
Log logv[32]; int nlog; struct Boom {};
struct Obs : awl::Observer<I> {
  int id = -1; unsigned act = 0; bool answer = true; Obs **slot = nullptr;
  Obs(int i) : id(i) {}
  Obs(Obs &&) = default; Obs &operator=(Obs &&) = default;
  void on(int a, const int &b) override { logv[nlog++] = {id, a, b}; if (act == 1) UnsubscribeSelf(); else if (act == 2) { *slot = nullptr; delete this; } else if (act == 3) throw Boom{}; }
  bool ask(int a) override { logv[nlog++] = {id, a, 0}; bool r = answer; if (act == 1) UnsubscribeSelf(); else if (act == 2) { *slot = nullptr; delete this; } else if (act == 3) throw Boom{}; return r; }
  void none() override { logv[nlog++] = {id, 0, 0}; }
};
struct Src : awl::Observable<I> { void fire(int a, int b) { Notify(&I::on, a, b); } bool ask(int a) { return NotifyWhileTrue(&I::ask, a); } void none() { Notify(&I::none); } };
struct M { int v[4]; int n = 0; void add(int x) { v[n++] = x; } int at(int x) { for (int i = 0; i < n; ++i) if (v[i] == x) return i; return -1; } void del(int x) { int i = at(x); if (i < 0) return; for (; i + 1 < n; ++i) v[i] = v[i + 1]; --n; } };
void fire(Src *s, M &m) {
  int a = sym::any<int>("a"), b = sym::any<int>("b"); nlog = 0; s->fire(a, b);
  sym::check(nlog == m.n, "every subscribed observer is notified once, nobody else"); sym::check(s->size() == (size_t)m.n && s->empty() == (m.n == 0), "size");
  for (int i = 0; i < m.n; ++i) sym::check(logv[i].id == m.v[i] && logv[i].a == a && logv[i].b == b, "in subscription order, with the arguments");
}
}
HARNESS(ob_history) {
  sym_leak_scope L;
  {
    const int N = 3; Src *s[2] = {new Src, new Src}; M m[2]; Obs *o[N];
    unsigned pat = sym::choice(THOROUGH ? 5 : 3, "where");
    for (int i = 0; i < N; ++i) { o[i] = new Obs(i); unsigned w = "000001010102022"[pat * 3 + i] - '0'; if (w < 2) { s[w]->Subscribe(o[i]); m[w].add(i); } }
    for (int t = 0; t < (THOROUGH ? 4 : 3); ++t) {
      unsigned x = sym::choice(N, "x"), w = sym::choice(2, "w"); int in = m[0].at(x) >= 0 ? 0 : m[1].at(x) >= 0 ? 1 : -1;
      switch (sym::range(0, 7, "op")) {
      case 0: if (o[x] && in < 0 && s[w]) { s[w]->Subscribe(o[x]); m[w].add(x); } break;
      case 1: if (o[x] && in >= 0) { if (w) s[in]->Unsubscribe(o[x]); else o[x]->UnsubscribeSelf(); m[in].del(x); } break;
      case 2: if (o[x]) { o[x]->UnsubscribeSafe(); if (in >= 0) m[in].del(x); } break;
      case 3: if (o[x]) { Obs *n = new Obs(std::move(*o[x])); sym::check(!o[x]->IsSubscribed() && n->IsSubscribed() == (in >= 0), "a moved observer takes over the subscription"); delete o[x]; o[x] = n; sym::reach("moved"); } break;
      case 4: if (o[x]) { delete o[x]; o[x] = nullptr; if (in >= 0) m[in].del(x); sym::reach("died"); } break;
      case 5: if (s[w]) { Src *n = new Src(std::move(*s[w])); sym::check(s[w]->empty(), "a moved-from observable has no observers"); delete s[w]; s[w] = n; } break;
      case 6: if (s[w] && s[1 - w]) { *s[w] = std::move(*s[1 - w]); m[w] = m[1 - w]; m[1 - w] = M(); } break;
      case 7: if (s[w]) { delete s[w]; s[w] = nullptr; m[w] = M(); sym::reach("src_died"); } break;
      }
      for (int k = 0; k < 2; ++k) if (s[k]) fire(s[k], m[k]);
      for (int k = 0; k < N; ++k) if (o[k]) sym::check(o[k]->IsSubscribed() == (m[0].at(k) >= 0 || m[1].at(k) >= 0), "IsSubscribed");
      sym::reach("notified");
    }
    sym::observe("n0", m[0].n); sym::observe("n1", m[1].n);
    if (nlog & 1) { for (auto *p : s) delete p; for (auto *p : o) delete p; } else { for (auto *p : o) delete p; for (auto *p : s) { if (p) sym::check(p->empty(), "destroyed observers are gone"); delete p; } }
  }
  L.done();
}
HARNESS(ob_self) {
  sym_leak_scope L;
  {
    const int N = 4; Src s; Obs *o[N]; unsigned act[N]; M m; int want = 0; bool thrown = false;
    for (int i = 0; i < N; ++i) { o[i] = new Obs(i); o[i]->slot = &o[i]; s.Subscribe(o[i]); o[i]->act = act[i] = sym::range(0, 3, "act"); }
    int a = sym::any<int>("a"), b = sym::any<int>("b"); nlog = 0;
    try { s.fire(a, b); } catch (const Boom &) { thrown = true; }
    bool stop = false;
    for (int i = 0; i < N; ++i) { if (!stop) { ++want; if (act[i] == 0) m.add(i); else if (act[i] == 3) { m.add(i); stop = true; sym::reach("thrown"); } else sym::reach(act[i] == 1 ? "unsub" : "destroyed"); } else m.add(i); }
    sym::check(thrown == stop, "the exception of an observer is propagated"); sym::check(nlog == want, "every observer up to the exception is notified once");
    for (int i = 0; i < nlog; ++i) sym::check(logv[i].id == i && logv[i].a == a && logv[i].b == b, "order and arguments");
    for (int i = 0; i < N; ++i) if (o[i]) o[i]->act = 0;
    fire(&s, m);
    for (auto *p : o) delete p;
    sym::check(s.empty(), "empty at the end"); sym::observe("n", m.n);
  }
  L.done(); sym::reach("end");
}
HARNESS(ob_while) {
  Src s; Obs o[4] = {0, 1, 2, 3}; bool ans[4]; for (int i = 0; i < 4; ++i) { o[i].answer = ans[i] = sym::any<bool>("ans"); s.Subscribe(&o[i]); }
  int a = sym::any<int>("a"); nlog = 0; bool r = s.ask(a); int want = 0; bool all = true; for (int i = 0; i < 4 && all; ++i) { ++want; all = ans[i]; }
  sym::check(r == all && nlog == want, "notification stops at the first observer that returns false"); for (int i = 0; i < nlog; ++i) sym::check(logv[i].id == i && logv[i].a == a, "order and arguments"); sym::reach(all ? "all" : "stopped");
  nlog = 0; s.none(); sym::check(nlog == 4, "all are still subscribed"); sym::observe("want", want);
}
HARNESS(ob_while_self) {
  sym_leak_scope L;
  {
    const int N = 3; Src s; Obs *o[N]; unsigned act[N]; bool ans[N]; M m; int want = 0; bool thrown = false, stop = false, boom = false, all = true;
    for (int i = 0; i < N; ++i) { o[i] = new Obs(i); o[i]->slot = &o[i]; s.Subscribe(o[i]); o[i]->act = act[i] = sym::range(0, 3, "act"); o[i]->answer = ans[i] = sym::any<bool>("ans"); }
    int a = sym::any<int>("a"); nlog = 0; bool r = false;
    try { r = s.ask(a); } catch (const Boom &) { thrown = true; }
    for (int i = 0; i < N; ++i) { if (!stop) { ++want; if (act[i] == 0) m.add(i); else if (act[i] == 3) { m.add(i); stop = boom = true; } else sym::reach(act[i] == 1 ? "unsub" : "destroyed"); if (!boom && !ans[i]) { stop = true; all = false; } } else m.add(i); }
    sym::check(thrown == boom, "the exception of an observer is propagated"); sym::check(nlog == want, "every observer up to the first that stops is notified once"); if (!boom) sym::check(r == all, "the result tells whether all observers agreed");
    for (int i = 0; i < nlog; ++i) sym::check(logv[i].id == i && logv[i].a == a, "order and arguments");
    for (int i = 0; i < N; ++i) if (o[i]) o[i]->act = 0;
    fire(&s, m);
    for (auto *p : o) delete p;
    sym::check(s.empty(), "empty at the end"); sym::observe("n", m.n);
  }
  L.done(); sym::reach("end");
}
HARNESS(ob_order) {
  // resubscription moves an observer to the end; move assignment of observers replaces the target's subscription
  Src s, t; Obs a(0), b(1), c(2), d(3); s.Subscribe(&a); s.Subscribe(&b); s.Subscribe(&c); t.Subscribe(&d); M m; M mt;
  unsigned x = sym::choice(4, "k");
  switch (x) {
  case 0: s.Unsubscribe(&a); s.Subscribe(&a); m.add(1); m.add(2); m.add(0); mt.add(3); break;
  case 1: d = std::move(b); d.id = 9; m.add(0); m.add(9); m.add(2); break;
  case 2: b = std::move(d); m.add(0); m.add(2); mt.add(3); break;
  case 3: { Obs e(7); d = std::move(e); m.add(0); m.add(1); m.add(2); break; }
  }
  fire(&s, m); fire(&t, mt); sym::reach("end"); sym::observe("n", m.n);
}
namespace { struct J { virtual void big(const Log &l, Log &r) = 0; }; struct JO : awl::Observer<J> { Log seen; const Log *addr = nullptr; void big(const Log &l, Log &r) override { seen = l; addr = &l; ++r.id; } }; struct JS : awl::Observable<J> { template <class... A> void go(const A &...a) { Notify(&J::big, a...); } }; }
HARNESS(ob_args) {
  Src s; Obs a(0), b(1); s.Subscribe(&a); s.Subscribe(&b); short x = sym::any<short>("x"); char y = sym::any<char>("y"); nlog = 0; s.fire(x, y);
  sym::check(nlog == 2 && logv[0].a == x && logv[0].b == y && logv[1].a == x && logv[1].b == y, "arguments are converted to the parameter types"); sym::reach("end"); sym::observe("a", (unsigned)logv[1].a);
}
