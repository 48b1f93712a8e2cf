// Symbolic values of every serializable type, equality, and round-trip drivers. Shared by the serialization harnesses.
#pragma once
#include "sym.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/BitMap.h"
#include "Awl/EnumTraits.h"
#include "Awl/Decimal.h"
#include <array>
#include <atomic>
#include <chrono>
#include <cstring>
#include <string>
namespace rw { AWL_SEQUENTIAL_ENUM(Fruit, Apple, Pear, Plum) }
AWL_ENUM_TRAITS(rw, Fruit)
namespace rw {
using u8 = std::uint8_t; using u64 = std::uint64_t; using Bytes = std::vector<u8>;
enum Color : u8 { Red, Green, Blue }; enum class Raw : short { A = -5, B = 300 };
inline unsigned lim = 2;   // size bound of collections
template <class T> concept arith = std::is_arithmetic_v<T>;
template <arith T> void gen(T &v) { if constexpr (std::is_same_v<T, bool>) v = sym::any<bool>("b"); else if constexpr (std::is_same_v<T, float>) { unsigned x = sym::any<unsigned>("f"); std::memcpy(&v, &x, 4); } else if constexpr (std::is_same_v<T, double>) { u64 x = sym::any<u64>("d"); std::memcpy(&v, &x, 8); } else v = sym::any<T>("v"); }
template <arith T> bool eq(const T &a, const T &b) { if constexpr (std::is_floating_point_v<T>) return !std::memcmp(&a, &b, sizeof(T)); else return a == b; }
inline unsigned size() { return (unsigned)sym::choice(lim + 1, "size"); }
template <class T> void gen(std::vector<T> &); template <class K, class T, class... A> void gen(std::map<K, T, A...> &); template <class K, class T, class... A> bool eq(const std::map<K, T, A...> &, const std::map<K, T, A...> &); template <class T> void gen(std::optional<T> &); template <class T, std::size_t N> void gen(std::array<T, N> &); template <class C> void gen(std::basic_string<C> &); template <class... Ts> void gen(std::variant<Ts...> &); template <class T> void gen(std::deque<T> &);
template <class T> bool eq(const std::vector<T> &, const std::vector<T> &); template <class T> bool eq(const std::optional<T> &, const std::optional<T> &); template <class T, std::size_t N> bool eq(const std::array<T, N> &, const std::array<T, N> &); template <class C> bool eq(const std::basic_string<C> &, const std::basic_string<C> &); template <class... Ts> bool eq(const std::variant<Ts...> &, const std::variant<Ts...> &); template <class T> bool eq(const std::deque<T> &, const std::deque<T> &);
template <class C> void gen(std::basic_string<C> &v) { unsigned n = size(); v.clear(); for (unsigned i = 0; i < n; ++i) { C c; gen(c); v.push_back(c); } }
template <class C> bool eq(const std::basic_string<C> &a, const std::basic_string<C> &b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r && a.c_str()[a.size()] == 0; }
inline void gen(Color &v) { v = (Color)sym::range(0, 2, "color"); } inline bool eq(Color a, Color b) { return a == b; }
inline void gen(Fruit &v) { v = (Fruit)sym::range(0, 2, "fruit"); } inline bool eq(Fruit a, Fruit b) { return a == b; }
inline void gen(Raw &v) { v = (Raw)sym::any<short>("raw"); } inline bool eq(Raw a, Raw b) { return a == b; }
template <class T> concept tuplizable = awl::is_tuplizable_v<T>;
template <tuplizable T> void gen(T &v); template <tuplizable T> bool eq(const T &a, const T &b);
template <class S> bool eqseq(const S &a, const S &b) { if (a.size() != b.size()) return false; bool r = true; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) r &= eq(*i, *j); return r; }
template <class T> void gen(std::vector<T> &v) { unsigned n = size(); v.clear(); for (unsigned i = 0; i < n; ++i) { T x; gen(x); v.push_back(x); } }
template <class T> bool eq(const std::vector<T> &a, const std::vector<T> &b) { return eqseq(a, b); }
inline bool eq(const std::vector<bool> &a, const std::vector<bool> &b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
template <class T> void gen(std::deque<T> &v) { unsigned n = size(); v.clear(); for (unsigned i = 0; i < n; ++i) { T x; gen(x); v.push_back(x); } }
template <class T> bool eq(const std::deque<T> &a, const std::deque<T> &b) { return eqseq(a, b); }
template <class T, std::size_t N> void gen(std::array<T, N> &v) { for (auto &x : v) gen(x); }
template <class T, std::size_t N> bool eq(const std::array<T, N> &a, const std::array<T, N> &b) { bool r = true; for (std::size_t i = 0; i < N; ++i) r &= eq(a[i], b[i]); return r; }
template <std::size_t N> void gen(std::bitset<N> &v) { for (std::size_t i = 0; i < N; ++i) v[i] = sym::any<bool>("bit"); } template <std::size_t N> bool eq(const std::bitset<N> &a, const std::bitset<N> &b) { return a == b; }
template <class T> void gen(std::optional<T> &v) { if (sym::choice(2, "has")) { T x; gen(x); v = x; } else v.reset(); }
template <class T> bool eq(const std::optional<T> &a, const std::optional<T> &b) { return a.has_value() == b.has_value() && (!a || eq(*a, *b)); }
template <class T> void gen(std::shared_ptr<T> &v) { if (sym::choice(2, "has")) { v = std::make_shared<T>(); gen(*v); } else v.reset(); } template <class T> bool eq(const std::shared_ptr<T> &a, const std::shared_ptr<T> &b) { return !a == !b && (!a || (eq(*a, *b))); }
template <class T> void gen(std::unique_ptr<T> &v) { if (sym::choice(2, "has")) { v = std::make_unique<T>(); gen(*v); } else v.reset(); } template <class T> bool eq(const std::unique_ptr<T> &a, const std::unique_ptr<T> &b) { return !a == !b && (!a || (a != b && eq(*a, *b))); }
template <class... Ts> void gen(std::variant<Ts...> &v) { unsigned k = sym::choice(sizeof...(Ts), "alt"), i = 0; auto one = [&](auto *p) { if (i++ == k) { std::remove_pointer_t<decltype(p)> x; gen(x); v = x; } }; (one((Ts *)nullptr), ...); }
template <class... Ts> bool eq(const std::variant<Ts...> &a, const std::variant<Ts...> &b) { if (a.index() != b.index()) return false; bool r = false; std::visit([&](const auto &x) { if (auto *y = std::get_if<std::decay_t<decltype(x)>>(&b)) r = eq(x, *y); }, a); return r; }
template <class T> void gen(std::atomic<T> &v) { T x; gen(x); v = x; } template <class T> bool eq(const std::atomic<T> &a, const std::atomic<T> &b) { return eq(a.load(), b.load()); }
template <class C, class D> void gen(std::chrono::time_point<C, D> &v) { v = std::chrono::time_point<C, D>(D((typename D::rep)sym::any<long>("t"))); } template <class C, class D> bool eq(const std::chrono::time_point<C, D> &a, const std::chrono::time_point<C, D> &b) { return a == b; }
template <class S> void genset(S &v) { unsigned n = size(); v.clear(); for (unsigned i = 0; i < n; ++i) { typename S::value_type x; gen(x); v.insert(x); } }
template <class T, class... A> void gen(std::set<T, A...> &v) { genset(v); } template <class T, class... A> bool eq(const std::set<T, A...> &a, const std::set<T, A...> &b) { return eqseq(a, b); }
template <class T, class... A> void gen(awl::vector_set<T, A...> &v) { genset(v); } template <class T, class... A> bool eq(const awl::vector_set<T, A...> &a, const awl::vector_set<T, A...> &b) { return eqseq(a, b); }
template <class T, class... A> void gen(awl::observable_set<T, A...> &v) { genset(v); } template <class T, class... A> bool eq(const awl::observable_set<T, A...> &a, const awl::observable_set<T, A...> &b) { return eqseq(a, b); }
template <class T, class... A> void gen(std::unordered_set<T, A...> &v) { genset(v); } template <class T, class... A> bool eq(const std::unordered_set<T, A...> &a, const std::unordered_set<T, A...> &b) { if (a.size() != b.size()) return false; for (auto &x : a) if (!b.count(x)) return false; return true; }
template <class S> void genmap(S &v) { unsigned n = size(); v.clear(); for (unsigned i = 0; i < n; ++i) { typename S::key_type k; typename S::mapped_type x; gen(k); gen(x); v.insert({k, x}); } }
template <class K, class T, class... A> void gen(std::map<K, T, A...> &v) { genmap(v); } template <class K, class T, class... A> bool eq(const std::map<K, T, A...> &a, const std::map<K, T, A...> &b) { if (a.size() != b.size()) return false; bool r = true; auto j = b.begin(); for (auto &p : a) { r &= eq(p.first, j->first) && eq(p.second, j->second); ++j; } return r; }
template <class K, class T, class... A> void gen(std::unordered_map<K, T, A...> &v) { genmap(v); } template <class K, class T, class... A> bool eq(const std::unordered_map<K, T, A...> &a, const std::unordered_map<K, T, A...> &b) { if (a.size() != b.size()) return false; for (auto &p : a) { auto i = b.find(p.first); if (i == b.end() || !eq(p.second, i->second)) return false; } return true; }
template <class T, class... A> void gen(awl::ring<T, A...> &v) { v = awl::ring<T, A...>(4); unsigned n = size(); for (unsigned i = 0; i < n; ++i) { T x; gen(x); v.push_back(x); } } template <class T, class... A> bool eq(const awl::ring<T, A...> &a, const awl::ring<T, A...> &b) { return eqseq(a, b); }
template <class E, auto N> void gen(awl::bitmap<E, N> &v) { v = {}; for (unsigned i = 0; i < v.size(); ++i) v[(E)i] = sym::any<bool>("flag"); } template <class E, auto N> bool eq(const awl::bitmap<E, N> &a, const awl::bitmap<E, N> &b) { return a == b; }
template <class U, u8 N, template <class, u8> class D> void gen(awl::decimal<U, N, D> &v) { U x; gen(x); v = awl::decimal<U, N, D>::from_bits(x); } template <class U, u8 N, template <class, u8> class D> bool eq(const awl::decimal<U, N, D> &a, const awl::decimal<U, N, D> &b) { return a.to_bits() == b.to_bits(); }
template <tuplizable T> void gen(T &v) { awl::for_each(awl::object_as_tuple(v), [](auto &f) { gen(f); }); }
namespace impl { template <class A, class B, std::size_t... I> bool all(const A &a, const B &b, std::index_sequence<I...>) { return (true & ... & eq(std::get<I>(a), std::get<I>(b))); } }
template <tuplizable T> bool eq(const T &a, const T &b) { auto x = awl::object_as_tuple(a); auto y = awl::object_as_tuple(b); return impl::all(x, y, std::make_index_sequence<std::tuple_size_v<decltype(x)>>()); }
struct Inner { int a; std::string s; AWL_REFLECT(a, s) };
struct Outer { Inner in; std::optional<short> o; bool b; std::vector<Inner> v; AWL_REFLECT(in, o, b, v) };
struct Plain { u8 x; std::array<char, 2> y; AWL_TUPLIZABLE(x, y) };
template <class T> std::size_t measure(const T &v) { awl::io::MeasureStream m; awl::io::Write(m, v); return m.GetLength(); }
// two values one after another, read back into two destinations that hold something else
template <class T> void roundtrip(unsigned l) {
  lim = l; sym_leak_scope L;
  {
    T a, b, c, d; gen(a); gen(b); gen(c); Bytes out; awl::io::VectorOutputStream o(out); awl::io::Write(o, a); std::size_t n = out.size(); sym::check(measure(a) == n, "a measuring stream reports the number of bytes"); awl::io::Write(o, b); sym::check(measure(b) == out.size() - n, "a measuring stream reports the number of bytes");
    if constexpr (requires { d.capacity(); d.push_front(*d.begin()); }) gen(d);
    awl::io::VectorInputStream i(out); awl::io::Read(i, c); sym::check(eq(a, c), "read back equal, whatever the destination held"); sym::check(measure(c) == n, "written again with the same length");
    { Bytes rest(out.begin() + n, out.end()); awl::io::VectorInputStream k(rest); awl::io::Read(k, d); sym::check(k.End() && eq(b, d), "the second value begins behind the first one"); }
    awl::io::Read(i, c); sym::check(eq(b, c) && i.End(), "values are read back in order and exactly their bytes are consumed"); sym::check(eq(b, d), "reading does not disturb other values"); sym::observe("n", n);
  }
  L.done(); sym::reach("end");
}
}
