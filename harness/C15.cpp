//! entry op_ops shards=8 time=100 reach=reused,end
//! entry op_nomem time=60 reach=failed,end
//! entry op_single time=60 reach=end
//! entry op_shared time=60 reach=end
//! bound op_ops: a pool, 3 shared pointers, 4 (thorough 6) arbitrary operations (make, add, copy, drop, clear, finalizer using the pool); op_nomem: every failing allocation of making or adding an object, with and without a free object
//! assume all shared pointers are released before the pool is destroyed (documented precondition, asserted by the pool); single thread
#include "sym.h"
#include "Awl/ObjectPool.h"
#include <memory>
namespace {
int made, died, finals; bool lenient; // a failed allocation gives the object back before it was ever handed out
struct Obj : awl::pooled_object { int v = 0; int id; bool live = false; Obj() : id(made++) {} ~Obj() override { ++died; } void Finalize() override { ++finals; sym::check(live || lenient, "finalized once per use"); live = false; } };
struct EObj : awl::pooled_object, std::enable_shared_from_this<EObj> { int v = 0; EObj() { ++made; } ~EObj() { ++died; } };
}
HARNESS(op_ops) {
  sym_leak_scope L; made = died = finals = 0;
  {
    awl::object_pool<Obj> pool; std::shared_ptr<Obj> s[3]; int val[3] = {};
    int created = 0, out = 0, freed = 0, nfree = 0, deleted = 0; // model
    auto drop = [&](int i) { if (s[i] && s[i].use_count() == 1) { --out; ++nfree; ++freed; } s[i].reset(); };
    auto take = [&](int i) { Obj *o = s[i].get(); sym::check(!o->live, "make never returns an object that is in use"); o->live = true; for (int k = 0; k < 3; ++k) if (k != i) sym::check(s[k].get() != o, "objects in use are distinct"); o->v = val[i] = sym::any<int>("v"); ++out; };
    for (int t = 0; t < (THOROUGH ? 6 : 4); ++t) {
      unsigned i = sym::choice(3, "i");
      switch (sym::range(0, 4, "op")) {
      case 0: { drop(i); bool re = nfree > 0; s[i] = pool.make(); if (re) { --nfree; sym::reach("reused"); } else ++created; sym::check(made == created, "a free object is reused instead of creating one"); take(i); break; }
      case 1: { drop(i); Obj *o = new Obj; ++created; s[i] = pool.add(o); sym::check(s[i].get() == o, "add"); take(i); break; }
      case 2: { unsigned j = (i + 1) % 3; drop(i); s[i] = s[j]; val[i] = val[j]; break; }
      case 3: drop(i); break;
      case 4: pool.clear(); deleted += nfree; nfree = 0; break;
      }
      sym::check(finals == freed, "an object is finalized exactly once when its last reference goes away"); sym::check(died == deleted, "only clear deletes, and only free objects"); sym::check(made == created, "creation");
      for (int k = 0; k < 3; ++k) if (s[k]) sym::check(s[k]->v == val[k] && s[k]->live, "objects in use keep their state");
    }
    for (int k = 0; k < 3; ++k) drop(k);
    sym::check(finals == freed && out == 0, "all finalized");
  }
  sym::check(died == made, "the pool destroys every object once"); L.done(); sym::observe("made", made); sym::reach("end");
}
HARNESS(op_nomem) {
  sym_leak_scope L; made = died = finals = 0; lenient = true;
  {
    awl::object_pool<Obj> pool; std::shared_ptr<Obj> keep, s; unsigned freed = sym::choice(3, "free"); bool add = sym::choice(2, "add");
    { std::shared_ptr<Obj> t[2]; for (unsigned i = 0; i < freed; ++i) { t[i] = pool.make(); t[i]->live = true; } } keep = pool.make(); keep->live = true; finals = 0; bool failed = false; Obj *o = nullptr;
    if (add) { o = new Obj; o->live = true; } unsigned k = sym::choice(4, "k"); int before = made;
    __sym_kv_set("alloc_fail_in", k);
    try { s = add ? pool.add(o) : pool.make(); } catch (const std::bad_alloc &) { failed = true; }
    __sym_kv_set("alloc_fail_in", 0);
    if (failed) sym::reach("failed"); else { s->live = true; sym::check(s != keep, "not the object in use"); }
    sym::check(keep->live && keep.use_count() == 1 && died == 0, "objects in use are not affected");
    std::shared_ptr<Obj> u = pool.make(), v = pool.make(); u->live = v->live = true; sym::check(u != v && u != keep && v != keep && u != s && v != s, "objects in use are distinct afterwards"); sym::observe("failed", failed); (void)before;
  }
  sym::check(died == made, "the pool destroys every object once"); L.done(); sym::reach("end");
}
HARNESS(op_single) {
  sym_leak_scope L; made = died = finals = 0;
  { auto a = awl::make_pooled<Obj>(); a->live = true; Obj *p = a.get(); a.reset(); sym::check(died == 0 && finals == 1, "kept"); auto b = awl::make_pooled<Obj>(); b->live = true; sym::check(b.get() == p, "reused"); unsigned k = sym::choice(2, "second"); std::shared_ptr<Obj> c; if (k) { c = awl::make_pooled<Obj>(); c->live = true; } sym::check(made == 1 + (int)k, "created"); awl::clear_pool<Obj>(); sym::check(died == 0, "objects in use survive clear"); }
  awl::clear_pool<Obj>(); sym::check(died == made, "clear"); L.done(); sym::reach("end");
}
HARNESS(op_shared) {
  sym_leak_scope L; made = died = 0;
  { awl::object_pool<EObj> pool; std::weak_ptr<EObj> w; int v = sym::any<int>("v");
    { auto a = pool.make(); a->v = v; auto b = a->shared_from_this(); sym::check(a == b && b.use_count() == 2, "shared_from_this"); w = a; }
    sym::check(w.expired() && died == 0, "weak pointers expire though the object is kept");
    { auto a = pool.make(); sym::check(made == 1 && a->v == v, "same object"); auto b = a->shared_from_this(); sym::check(b == a && w.expired(), "shared_from_this after reuse"); } }
  sym::check(died == 1, "destroyed"); L.done(); sym::reach("end");
}
