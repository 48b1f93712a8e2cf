//! entry up_ops shards=4 time=100 reach=end
//! entry up_self time=60 reach=end
//! entry up_make time=60 reach=end
//! bound up_ops: 3 pointers over heap objects with arbitrary 32-bit values, 3 (thorough 5) arbitrary operations
#include "sym.h"
#include "Awl/UniquePtr.h"
#include <utility>
namespace {
unsigned char dead[16]; int made;
struct Obj { int id; int v; int w = 7; Obj(int x) : id(made++), v(x) {} Obj(int x, int y) : id(made++), v(x), w(y) {} Obj(const Obj &) = delete; ~Obj() { ++dead[id]; } };
using P = awl::unique_ptr<Obj>;
}
HARNESS(up_ops) {
  sym_leak_scope L; made = 0; for (auto &d : dead) d = 0;
  int val[16]; Obj *addr[16]; int raw[16], nraw = 0;
  {
    P p[3]; int m[3] = {-1, -1, -1};
    auto fresh = [&] { int x = sym::any<int>("v"); val[made] = x; Obj *o = new Obj(x); addr[o->id] = o; return o; };
    for (int s = 0; s < (THOROUGH ? 5 : 3); ++s) {
      unsigned i = sym::choice(3, "i");
      switch (sym::range(0, 7, "op")) {
      case 0: { Obj *o = fresh(); p[i].reset(o); m[i] = o->id; break; }
      case 1: p[i].reset(nullptr); m[i] = -1; break;
      case 2: { Obj *o = p[i].release(); sym::check(o == (m[i] < 0 ? nullptr : addr[m[i]]), "release returns the owned pointer"); if (o) raw[nraw++] = m[i]; m[i] = -1; break; }
      case 3: { unsigned j = (i + 1) % 3; p[i] = std::move(p[j]); m[i] = m[j]; m[j] = -1; break; }
      case 4: { P q(std::move(p[i])); sym::check(q.get() == (m[i] < 0 ? nullptr : addr[m[i]]) && !p[i], "move constructor"); m[i] = -1; break; }
      case 5: p[i] = P(fresh()); m[i] = made - 1; break;
      case 6: { P q; q = std::move(p[i]); p[i] = std::move(q); break; }
      case 7: { unsigned j = (i + 1) % 3; std::swap(p[i], p[j]); std::swap(m[i], m[j]); break; }
      }
      for (int k = 0; k < 3; ++k) {
        sym::check((bool)p[k] == (m[k] >= 0), "bool"); sym::check(p[k].get() == (m[k] < 0 ? nullptr : addr[m[k]]), "get");
        if (m[k] >= 0) sym::check(p[k]->v == val[m[k]] && &*p[k] == addr[m[k]] && (*p[k]).w == 7, "pointee");
        for (int j = 0; j < 3; ++j) sym::check((p[k] == p[j]) == (p[k].get() == p[j].get()) && (p[k] != p[j]) == (p[k].get() != p[j].get()) && (p[k] == p[j].get()) == (k == j || (m[k] < 0 && m[j] < 0)) && (p[k] != p[j].get()) == !(p[k] == p[j].get()), "comparison");
      }
      for (int d = 0; d < made; ++d) { bool own = false; for (int k = 0; k < 3; ++k) own |= m[k] == d; for (int k = 0; k < nraw; ++k) own |= raw[k] == d; sym::check(dead[d] == (own ? 0 : 1), "an object is destroyed exactly once, when its owner gives it up"); }
    }
  }
  for (int k = 0; k < nraw; ++k) { sym::check(dead[raw[k]] == 0 && addr[raw[k]]->v == val[raw[k]], "a released object stays alive"); delete addr[raw[k]]; }
  for (int d = 0; d < made; ++d) sym::check(dead[d] == 1, "every object is destroyed exactly once");
  L.done(); sym::observe("made", made); sym::reach("end");
}
HARNESS(up_self) {
  sym_leak_scope L; made = 0; for (auto &d : dead) d = 0;
  { int x = sym::any<int>("v"); P p(new Obj(x)); P &q = p; if (sym::choice(2, "empty")) { p.reset(nullptr); p = std::move(q); sym::check(!p && dead[0] == 1, "self move of an empty pointer"); } else { Obj *o = p.get(); p = std::move(q); sym::check(p.get() == o && dead[0] == 0 && p->v == x, "self move keeps the object"); } }
  sym::check(dead[0] == 1, "destroyed once"); L.done(); sym::reach("end");
}
HARNESS(up_make) {
  sym_leak_scope L; made = 0; for (auto &d : dead) d = 0;
  { int x = sym::any<int>("x"), y = sym::any<int>("y"); auto p = awl::make_unique<Obj>(x, y); sym::check(p->v == x && p->w == y && made == 1, "make_unique forwards its arguments"); sym::check(p == p.get() && !(p != p.get()) && p != nullptr, "compare with a raw pointer"); sym::observe("v", (unsigned)p->v); }
  sym::check(dead[0] == 1, "destroyed once"); L.done(); sym::reach("end");
}
