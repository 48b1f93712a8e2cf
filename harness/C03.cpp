//! entry flat shards=4 time=90 reach=end
//! entry perms shards=2 time=90 reach=end
//! entry nested shards=8 time=120 reach=end
//! entry collections shards=4 time=120 reach=end
//! entry variants shards=2 time=90 reach=end
//! entry same shards=2 time=90 reach=end
//! entry sequence shards=2 time=90 reach=end
//! entry renamed time=60 reach=end
//! entry mismatch time=60 reach=end
//! entry skip_structs shards=4 time=120 reach=end
//! entry skip_sets shards=4 time=90 reach=end
//! entry skip_packed time=60 reach=end
//! entry skip_packed_two time=60 reach=end
//! entry skip_enum time=60 reach=end
//! entry skip_ints time=60 reach=end
//! entry type_names time=60 reach=end
//! entry added_all time=60 reach=end
//! entry wide shards=2 time=90 reach=end
//! entry empty time=60 reach=end
//! entry holder time=90 reach=end
//! entry copyv time=60 reach=end
//! flags -std=gnu++20
//! bound every value of every field (strings and collections of up to 2 elements, thorough 3); schema pairs: added, removed, reordered and renamed fields of flat, nested, optional, variant, pointer, vector, set, deque and map fields, in both directions
//! assume every type of a removed field is one of the reader's declared types, as the library demands; removed fields whose type has the same name as another type of the reader (e.g. vectors of different structures) are covered by skip_structs and skip_ints; vector<bool> against vector<uint8_t> (one type name, two formats) only with one element; fields that a vector element already present in the destination keeps are not specified, so destination vectors of structures start empty
#include "rw.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/IoException.h"
using namespace rw; using namespace awl::io; namespace mp = awl::mp;
namespace {
namespace o { // old
struct A { int a = -1; bool b; std::string c; double d; AWL_REFLECT(a, b, c, d) };
struct P { u8 p; short q = 5; int r; AWL_REFLECT(p, q, r) };
struct C { int x; P p; A a; std::optional<P> o; AWL_REFLECT(x, p, a, o) };
struct K { std::vector<P> v; u64 n; std::map<u8, P> m; std::deque<short> d; AWL_REFLECT(v, n, m, d) };
struct W { std::variant<u8, P> w; std::unique_ptr<P> u; std::array<P, 2> z; short s; AWL_REFLECT(w, u, z, s) };
}
namespace n { // new
struct A { bool b; double d; int e = 5; std::string f = "xyz"; std::string c; AWL_REFLECT(b, d, e, f, c) };
struct P { int r; u64 extra = 77; u8 p; AWL_REFLECT(r, extra, p) };
struct C { A a; std::vector<int> z{1, 2}; std::optional<P> o; P p; AWL_REFLECT(a, z, o, p) };
struct K { std::deque<short> d; std::map<u8, P> m; std::string t = "t"; std::vector<P> v; AWL_REFLECT(d, m, t, v) };
struct W { std::array<P, 2> z; std::variant<u8, P> w; std::unique_ptr<P> u; AWL_REFLECT(z, w, u) };
}
void conv(const o::A &s, n::A &d) { d.b = s.b; d.d = s.d; d.c = s.c; }
void conv(const n::A &s, o::A &d) { d.b = s.b; d.d = s.d; d.c = s.c; }
void conv(const o::P &s, n::P &d) { d.p = s.p; d.r = s.r; }
void conv(const n::P &s, o::P &d) { d.p = s.p; d.r = s.r; }
template <class S, class D> D fresh(const S &s) { D d{}; conv(s, d); return d; }
void conv(const o::C &s, n::C &d) { conv(s.a, d.a); conv(s.p, d.p); d.o.reset(); if (s.o) d.o = fresh<o::P, n::P>(*s.o); }
void conv(const n::C &s, o::C &d) { conv(s.a, d.a); conv(s.p, d.p); d.o.reset(); if (s.o) d.o = fresh<n::P, o::P>(*s.o); }
template <class K1, class K2, class P1, class P2> void convk(const K1 &s, K2 &d) { d.d = s.d; d.v.clear(); for (auto &x : s.v) d.v.push_back(fresh<P1, P2>(x)); d.m.clear(); for (auto &x : s.m) d.m.emplace(x.first, fresh<P1, P2>(x.second)); }
void conv(const o::K &s, n::K &d) { convk<o::K, n::K, o::P, n::P>(s, d); }
void conv(const n::K &s, o::K &d) { convk<n::K, o::K, n::P, o::P>(s, d); }
template <class W1, class W2, class P1, class P2> void convw(const W1 &s, W2 &d) { for (int i = 0; i < 2; ++i) conv(s.z[i], d.z[i]); if (auto *p = std::get_if<P1>(&s.w)) d.w = fresh<P1, P2>(*p); else d.w = std::get<u8>(s.w); d.u.reset(); if (s.u) d.u = std::make_unique<P2>(fresh<P1, P2>(*s.u)); }
void conv(const o::W &s, n::W &d) { convw<o::W, n::W, o::P, n::P>(s, d); }
void conv(const n::W &s, o::W &d) { convw<n::W, o::W, n::P, o::P>(s, d); }
void conv(const o::P &s, o::P &d) { d = s; } void conv(const o::C &s, o::C &d) { d = s; } void conv(const o::K &s, o::K &d) { d = s; } void conv(const n::A &s, n::A &d) { d = s; }
template <class T> T copy(const T &t) { return t; }
o::W copy(const o::W &t) { return {t.w, t.u ? std::make_unique<o::P>(*t.u) : nullptr, t.z, t.s}; }
n::W copy(const n::W &t) { return {t.z, t.w, t.u ? std::make_unique<n::P>(*t.u) : nullptr}; }
template <class T> void warm() { T::get_member_names(); }
void warm_all() { warm<o::A>(); warm<o::P>(); warm<o::C>(); warm<o::K>(); warm<o::W>(); warm<n::A>(); warm<n::P>(); warm<n::C>(); warm<n::K>(); warm<n::W>(); if (lim != 1) lim = THOROUGH ? 3 : 2; }
// S is written, D is read; Extra: types of removed fields
template <class S, class D, class... Extra> void migrate(bool two = false) {
  warm_all(); sym_leak_scope L;
  {
    using VS = mp::variant_from_struct<S>; using VD = mp::variant_from_structs<D, Extra...>;
    S s{}; gen(s); D d{}; gen(d); if constexpr (requires { d.v.clear(); }) d.v.clear(); D e = copy(d); conv(s, e); Bytes raw; VectorOutputStream out(raw); Writer<VS> w; w.WriteNewPrototypes(out); std::size_t head = raw.size(); w.WriteV(out, s); std::size_t one = raw.size() - head; if (two) { w.WriteV(out, s); sym::check(raw.size() == head + 2 * one, "the same value again"); } raw.push_back(0xa5);
    MeasureStream m; WriteV(m, s); sym::check(m.GetLength() == head + one, "measured size");
    VectorInputStream in(raw); Reader<VD> r; r.ReadOldPrototypes(in); r.ReadV(in, d); sym::check(eq(d, e), "fields with the same name and type are mapped, the others keep their values");
    if (two) { D f{}; D g = copy(f); conv(s, g); r.ReadV(in, f); sym::check(eq(f, g), "the second value is read likewise"); }
    u8 b = 0; sym::check(in.Read(&b, 1) == 1 && b == 0xa5 && in.End(), "the stream is left exactly behind the structure"); sym::observe("size", raw.size());
  }
  L.done(); sym::reach("end");
}
struct Q1 { u8 p; short q; int r; AWL_REFLECT(p, q, r) }; struct Q2 { int r; u8 p; short q; AWL_REFLECT(r, p, q) }; struct Q3 { short q; AWL_REFLECT(q) }; struct Q4 { u64 t = 9; short q; bool e = true; u8 p; AWL_REFLECT(t, q, e, p) };
#define CONV(S, D, body) void conv(const S &s, D &d) { body }
CONV(Q1, Q2, d.r = s.r; d.p = s.p; d.q = s.q;) CONV(Q2, Q1, d.r = s.r; d.p = s.p; d.q = s.q;) CONV(Q1, Q3, d.q = s.q;) CONV(Q3, Q1, d.q = s.q;) CONV(Q2, Q4, d.q = s.q; d.p = s.p;) CONV(Q4, Q2, d.q = s.q; d.p = s.p;) CONV(Q3, Q4, d.q = s.q;) CONV(Q4, Q3, d.q = s.q;)
struct Q5 { u8 p; short q; int r; short added = -3; AWL_REFLECT(p, q, r, added) }; CONV(Q1, Q5, d.p = s.p; d.q = s.q; d.r = s.r;) CONV(Q5, Q1, d.p = s.p; d.q = s.q; d.r = s.r;)
struct R1 { short a; int before; short z; AWL_REFLECT(a, before, z) }; struct R2 { int after; short z; AWL_REFLECT(after, z) };
CONV(R1, R2, d.after = s.before; d.z = s.z;)
struct M1 { short a; int b; AWL_REFLECT(a, b) }; struct M2 { short a; u64 b; AWL_REFLECT(a, b) }; struct M3 { short a; Q3 b; AWL_REFLECT(a, b) }; struct M4 { std::string a; int b; AWL_REFLECT(a, b) };
// removed collections of structures
struct L1 { std::vector<Q3> gone; std::vector<o::P> stay; Q3 lost; std::optional<Q3> maybe; int k; AWL_REFLECT(gone, stay, lost, maybe, k) };
struct L2 { std::vector<o::P> stay; int k; AWL_REFLECT(stay, k) };
CONV(L1, L2, d.stay = s.stay; d.k = s.k;)
struct Vb { std::vector<bool> gone; int k; AWL_REFLECT(gone, k) }; struct Vu { std::vector<u8> w{1}; int k; AWL_REFLECT(w, k) }; CONV(Vb, Vu, d.k = s.k;) CONV(Vu, Vb, d.k = s.k;)
struct En { Fruit f = Fruit(1); int k; AWL_REFLECT(f, k) };
struct Sq { std::set<Q3> gone; int k; AWL_REFLECT(gone, k) }; bool operator<(const Q3 &a, const Q3 &b) { return a.q < b.q; } CONV(Sq, L2, d.k = s.k;) CONV(L1, Sq, d.k = s.k; d.gone.clear(); for (auto &x : s.gone) d.gone.insert(x);)
struct I1 { u8 gone; int k; AWL_REFLECT(gone, k) }; struct I2 { bool first = true; int k; AWL_REFLECT(first, k) };
CONV(I1, I2, d.k = s.k;) CONV(I1, En, d.k = s.k;)
struct T1 { std::string s; int i; AWL_REFLECT(s, i) };
struct E1 { short a; AWL_REFLECT(a) }; struct E2 { int b; AWL_REFLECT(b) }; CONV(E1, E2, ) CONV(E2, E1, )
struct Z1 { AWL_REFLECT() }; struct Z2 { short q = 7; AWL_REFLECT(q) }; CONV(Z1, Z2, )
struct Z3 { AWL_REFLECT() }; struct Y1 { int x; Z1 z; std::vector<Z3> v; int y; AWL_REFLECT(x, z, v, y) }; struct Y2 { int x; Z2 z; std::vector<Z2> v; int y; AWL_REFLECT(x, z, v, y) };
CONV(Y1, Y2, d.x = s.x; d.y = s.y; d.v = std::vector<Z2>(s.v.size());)
struct G1 { u8 a; short b; int c; u64 d; bool e; std::string f; u8 g; short h; Q3 i; int j; u64 k; u8 l; AWL_REFLECT(a, b, c, d, e, f, g, h, i, j, k, l) };
struct G2 { u8 l; int c; short h; u8 a; short x1 = 1; u64 x2 = 2; int x3 = 3; u64 d; u8 x4 = 4; u8 x5 = 5; int j; AWL_REFLECT(l, c, h, a, x1, x2, x3, d, x4, x5, j) };
CONV(G1, G2, d.l = s.l; d.c = s.c; d.h = s.h; d.a = s.a; d.d = s.d; d.j = s.j;) CONV(G2, G1, d.l = s.l; d.c = s.c; d.h = s.h; d.a = s.a; d.d = s.d; d.j = s.j;)
template <class S, class D> bool rejected() { warm<S>(); warm<D>(); warm_all(); S s{}; gen(s); D d{}; Bytes raw; VectorOutputStream out(raw); WriteV(out, s); VectorInputStream in(raw); try { Reader<mp::variant_from_structs<D, short, int, u64, std::string>> r; r.ReadOldPrototypes(in); r.ReadV(in, d); } catch (const IoException &) { return true; } return false; }
}
namespace awl::io { template <> class FieldMap<R2> { public: static std::string_view GetNewName(std::string_view n) { return n == "before" ? "after" : n; } }; }
HARNESS(flat) { if (sym::choice(2, "dir")) migrate<o::A, n::A>(); else migrate<n::A, o::A>(); }
HARNESS(perms) { warm<Q1>(); warm<Q2>(); warm<Q3>(); warm<Q4>(); warm<Q5>(); switch (sym::choice(10, "pair")) { case 0: migrate<Q1, Q2>(); break; case 1: migrate<Q2, Q1>(); break; case 2: migrate<Q1, Q3, u8, int>(); break; case 3: migrate<Q3, Q1>(); break; case 4: migrate<Q2, Q4, int>(true); break; case 5: migrate<Q4, Q2, u64>(true); break; case 6: migrate<Q3, Q4>(); break; case 7: migrate<Q1, Q5>(true); break; case 8: migrate<Q5, Q1>(true); break; default: migrate<Q4, Q3, u64, u8>(true); } }
HARNESS(nested) { if (sym::choice(2, "dir")) migrate<o::C, n::C, short>(); else migrate<n::C, o::C, u64, std::vector<int>>(); }
HARNESS(collections) { if (sym::choice(2, "dir")) migrate<o::K, n::K, short>(); else migrate<n::K, o::K, std::string>(); }
HARNESS(variants) { if (sym::choice(2, "dir")) migrate<o::W, n::W, short>(); else migrate<n::W, o::W, u64>(); }
HARNESS(same) { switch (sym::choice(3, "type")) { case 0: migrate<o::P, o::P>(true); break; case 1: migrate<o::K, o::K>(); break; default: migrate<n::A, n::A>(true); } }
HARNESS(sequence) { if (sym::choice(2, "dir")) migrate<o::P, n::P, short>(true); else migrate<n::P, o::P, u64>(true); }
HARNESS(renamed) { warm<R1>(); warm<R2>(); migrate<R1, R2>(true); }
HARNESS(mismatch) { switch (sym::choice(5, "pair")) { case 0: sym::check(rejected<M1, M2>(), "a field that changed its type is not read"); break; case 1: sym::check(rejected<M1, M3>(), "a field that became a structure is not read"); break; case 2: sym::check(rejected<M3, M1>(), "a structure that became a scalar is not read"); break; case 3: sym::check(rejected<M1, M4>(), "number to string"); break; default: sym::check(rejected<M4, M1>(), "string to number"); } sym::reach("end"); }
HARNESS(skip_sets) { warm<L1>(); warm<L2>(); warm<Q3>(); warm<Sq>(); if (sym::choice(2, "dir")) migrate<Sq, L2, std::set<Q3>>(); else migrate<L1, Sq, std::vector<o::P>, std::optional<Q3>, short, u8>(); }
HARNESS(skip_packed_two) { warm<Vb>(); warm<Vu>(); Vb s{{true, false}, sym::any<int>("k")}; Bytes raw; VectorOutputStream out(raw); WriteV(out, s); VectorInputStream in(raw); Vu d; bool ok = false; try { Reader<mp::variant_from_structs<Vu>> r; r.ReadOldPrototypes(in); r.ReadV(in, d); ok = d.k == s.k && in.End(); } catch (const IoException &) {} sym::check(ok, "a removed vector<bool> of two elements is skipped by a reader that knows vector<uint8_t>"); sym::reach("end"); }
HARNESS(skip_packed) { lim = 1; warm<Vb>();  warm<Vu>(); if (sym::choice(2, "dir")) migrate<Vb, Vu, std::vector<bool>>(); else migrate<Vu, Vb, std::vector<u8>>(); }
HARNESS(skip_enum) { warm<I1>(); warm<En>(); migrate<I1, En, u8>(); }
HARNESS(skip_structs) { warm<L1>(); warm<L2>(); warm<Q3>(); migrate<L1, L2, std::vector<Q3>, std::optional<Q3>, short>(true); }
HARNESS(skip_ints) { warm<I1>(); warm<I2>(); migrate<I1, I2, u8>(true); }
HARNESS(type_names) { warm<T1>(); sym_leak_scope L; { lim = 2; T1 a{}, b{}; gen(a); using V = mp::variant_from_struct<T1>; Bytes raw; VectorOutputStream out(raw); Writer<V> w; w.WriteNewPrototypes(out); w.WriteV(out, a); const std::string from = "sequence<int8_t>"; bool found = false; for (std::size_t i = 0; i + from.size() <= raw.size(); ++i) if (std::equal(from.begin(), from.end(), raw.begin() + i)) { raw[i] = 'S'; found = true; break; }
    sym::check(found, "the type name is in the stream"); { VectorInputStream in(raw); Reader<V> r; bool thrown = false; try { r.ReadOldPrototypes(in); } catch (const TypeMismatchException &) { thrown = true; } sym::check(thrown, "an unknown type is reported"); }
    VectorInputStream in(raw); Reader<V> r; r.ReadOldPrototypes(in, {{"Sequence<int8_t>", from}}); r.ReadV(in, b); sym::check(eq(a, b) && in.End(), "a type that changed its name is read with the type map"); } L.done(); sym::reach("end"); }
HARNESS(added_all) { warm<E1>(); warm<E2>(); if (sym::choice(2, "dir")) migrate<E1, E2, short>(true); else migrate<E2, E1, int>(true); }
HARNESS(wide) { lim = 1; warm<G1>(); warm<G2>(); warm<Q3>(); if (sym::choice(2, "dir")) migrate<G1, G2, std::string, bool>(true); else migrate<G2, G1>(true); }
HARNESS(empty) { warm<Z1>(); warm<Z2>(); warm<Z3>(); warm<Y1>(); warm<Y2>(); migrate<Y1, Y2>(true); }
HARNESS(holder) { warm_all(); sym_leak_scope L; { o::A s{}; gen(s); n::A d{}; gen(d); n::A e{}; conv(s, e); Bytes raw; VectorOutputStream out(raw); VersionTolerantSerializable<o::A>(s).Write(out); VectorInputStream in(raw); VersionTolerantSerializable<n::A>(d).Read(in); sym::check(eq(d, e) && in.End(), "the holder maps the fields and gives the added ones their default values"); } L.done(); sym::reach("end"); }
HARNESS(copyv) { warm_all(); sym_leak_scope L; { n::A s{}; gen(s); o::A d{}; gen(d); o::A e = d; conv(s, e); CopyV(s, d); sym::check(eq(d, e), "CopyV maps the fields"); } L.done(); sym::reach("end"); }
