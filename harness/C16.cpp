//! entry uq_hist shards=4 time=100 reach=applied,thrown,nested,cleared,end
//! entry uq_threads threads time=200 reach=both,split
//! entry uq_threads3 threads time=200 reach=end
//! entry uq_nested_threads threads time=100 reach=end
//! bound uq_hist: 5 (thorough 7) arbitrary operations (push, push of an update that pushes another, push of one that throws, apply, clear), arguments arbitrary 32-bit values
//! bound uq_threads: one producer with 3 updates, one applying thread with 3 rounds, at most 5 (thorough 6) pre-emptions; uq_threads3: two producers with 2 updates each, at most 4 (thorough 5) pre-emptions
//! assume ApplyUpdates is called by one thread and not from within an update
#include "sym.h"
#include "Awl/UpdateQueue.h"
namespace { struct Boom {}; using Q = awl::UpdateQueue<int &, int>; 
struct Tok { static inline int live = 0; int v; Tok(int x) : v(x) { ++live; } Tok(const Tok &o) : v(o.v) { ++live; } ~Tok() { --live; v = -1; } }; }
HARNESS(uq_hist) {
  sym_leak_scope L; Tok::live = 0;
  {
    Q q; int pend[16]; int kind[16]; int n = 0; int id = 0; int got[32], ng = 0; int seenarg[32]; int *acc = nullptr;
    for (int t = 0; t < (THOROUGH ? 7 : 5); ++t) {
      switch (sym::range(0, 4, "op")) {
      case 0: { int v = sym::any<int>("v"); q.Push([v, tok = Tok(v), &got, &ng, &seenarg, &acc](int &a, int b) { sym::check(&a == acc && tok.v == v, "closure and arguments are intact"); got[ng] = v; seenarg[ng++] = b; a += 1; }); pend[n] = v; kind[n++] = 0; break; }
      case 1: { int v = sym::any<int>("v"); q.Push([v, &q, &got, &ng, &seenarg](int &, int b) { got[ng] = v; seenarg[ng++] = b; q.Push([v, &got, &ng, &seenarg](int &, int c) { got[ng] = v + 1; seenarg[ng++] = c; }); }); pend[n] = v; kind[n++] = 1; break; }
      case 2: { int v = sym::any<int>("v"); q.Push([v, tok = Tok(v), &got, &ng, &seenarg](int &, int b) { got[ng] = v; seenarg[ng++] = b; throw Boom{}; }); pend[n] = v; kind[n++] = 2; break; }
      case 3: {
        int a = 0, b = sym::any<int>("b"); acc = &a; ng = 0; bool thrown = false; try { q.ApplyUpdates(a, b); } catch (const Boom &) { thrown = true; sym::reach("thrown"); }
        int exp[16], ne = 0, nn = 0, next[16]; bool stop = false; int adds = 0;
        for (int i = 0; i < n && !stop; ++i) { exp[ne++] = pend[i]; if (kind[i] == 0) ++adds; if (kind[i] == 1) next[nn++] = pend[i] + 1; if (kind[i] == 2) stop = true; }
        sym::check(thrown == stop, "an exception of an update is propagated"); sym::check(ng == ne && a == (adds), "every queued update is applied exactly once");
        for (int i = 0; i < ne; ++i) sym::check(got[i] == exp[i] && seenarg[i] == b, "in the order of queueing, with the arguments of the application");
        sym::check(Tok::live == 0, "applied updates are released");
        for (int i = 0; i < nn; ++i) { pend[i] = next[i]; kind[i] = 3; } n = nn; if (nn) sym::reach("nested"); if (ne) sym::reach("applied"); break; }
      case 4: q.ClearPending(); if (n) sym::reach("cleared"); n = 0; ng = 0; { int a = 0; acc = &a; q.ApplyUpdates(a, 1); sym::check(ng == 0 && a == 0, "cleared updates are not applied"); } break;
      }
    }
    sym::observe("pending", n);
  }
  sym::check(Tok::live == 0, "pending updates are destroyed with the queue"); L.done(); sym::reach("end");
}
namespace {
struct Rig { Q q; int got[8]; int n = 0; int applier; int v[2][4]; };
Rig *R;
template <int W, int K> void producer(void *) { for (int i = 0; i < K; ++i) { int v = R->v[W][i]; R->q.Push([v, i](int &a, int b) { sym::check(__sym_thread_self() == R->applier, "updates are applied by the applying thread"); sym::check(&a == &R->n && b == 7, "arguments"); sym::check(R->v[W][i] == v, "closure"); R->got[R->n++] = W * 10 + i; }); } }
void verify(int k0, int k1) { int n0 = 0, n1 = 0; for (int i = 0; i < R->n; ++i) if (R->got[i] < 10) sym::check(R->got[i] == n0++, "updates of a thread are applied in its order, once"); else sym::check(R->got[i] == 10 + n1++, "updates of a thread are applied in its order, once"); sym::check(n0 == k0 && n1 == k1, "no update is lost"); }
}
HARNESS(uq_threads) {
  __sym_preempt_max(THOROUGH ? 6 : 5); Rig r; R = &r; r.applier = __sym_thread_self(); for (auto &w : r.v) for (int &x : w) x = sym::any<int>("v");
  int t = __sym_thread_create(producer<0, 3>, nullptr);
  int first = 0; for (int i = 0; i < 2; ++i) { r.q.ApplyUpdates(r.n, 7); if (!i) first = r.n; }
  __sym_thread_join(t); r.q.ApplyUpdates(r.n, 7); verify(3, 0); sym::reach(first == 0 || first == 3 ? "both" : "split");
  int before = r.n; r.q.ApplyUpdates(r.n, 7); sym::check(r.n == before, "nothing is applied twice");
}
HARNESS(uq_threads3) {
  __sym_preempt_max(THOROUGH ? 5 : 4); Rig r; R = &r; r.applier = __sym_thread_self(); for (auto &w : r.v) for (int &x : w) x = sym::any<int>("v");
  int a = __sym_thread_create(producer<0, 2>, nullptr), b = __sym_thread_create(producer<1, 2>, nullptr);
  r.q.ApplyUpdates(r.n, 7); __sym_thread_join(a); __sym_thread_join(b); r.q.ApplyUpdates(r.n, 7); verify(2, 2); sym::reach("end");
}
HARNESS(uq_nested_threads) {
  // clearing and queueing from within an update while another thread queues
  __sym_preempt_max(THOROUGH ? 5 : 4); Rig r; R = &r; r.applier = __sym_thread_self(); for (auto &w : r.v) for (int &x : w) x = sym::any<int>("v");
  bool ran = false; r.q.Push([&](int &, int) { r.q.Push([&](int &, int) { ran = true; }); });
  int a = __sym_thread_create(producer<0, 2>, nullptr); r.q.ApplyUpdates(r.n, 7); sym::check(!ran, "an update queued by an update is not applied in the same round"); __sym_thread_join(a); r.q.ApplyUpdates(r.n, 7); verify(2, 0); sym::check(ran, "an update queued by an update is applied in the next round"); sym::reach("end");
}
