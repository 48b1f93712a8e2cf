//! entry any_scalar time=60 reach=value,thrown
//! entry any_enum time=60 reach=value,thrown
//! entry any_string shards=2 time=90 reach=value,thrown
//! entry any_bytes shards=2 time=90 reach=value,thrown
//! entry any_vector shards=2 time=120 reach=value,thrown
//! entry any_bits time=60 reach=value,thrown
//! entry any_array time=60 reach=value,thrown
//! entry any_optional time=60 reach=value,thrown
//! entry any_variant time=90 reach=value,thrown
//! entry any_deque time=90 reach=value,thrown
//! entry any_set shards=2 time=120 reach=value,thrown
//! entry any_map shards=2 time=120 reach=value,thrown
//! entry any_struct shards=2 time=120 reach=value,thrown
//! entry any_other time=60 reach=value,thrown
//! entry limit_string time=60 reach=value,thrown
//! entry cut_scalar time=60 reach=end
//! entry cut_string time=60 reach=end
//! entry cut_vector time=90 reach=end
//! entry cut_set time=90 reach=end
//! entry cut_variant time=60 reach=end
//! entry cut_struct shards=2 time=120 reach=end
//! entry cut_bits time=60 reach=end
//! bound any_*: every byte string of every length up to one element (scalars, variants, structures) or up to 2 elements (collections, strings up to 4) beyond the fixed part, length fields take all 2^64 values; cut_*: every value with collections of up to 2 elements and every truncation point
//! bound memory: while reading, a single allocation of more than 40 bytes (80 for nodes with strings, 600 for node based containers) fails with bad_alloc; a declared length of more than that is never satisfied by the short streams
//! assume elements of unordered containers are below 256 (the hash table model); little-endian platform with 8-byte sizes
#include "rw.h"
using namespace rw;
namespace {
struct Basket { Fruit f; std::optional<Fruit> o; bool b; AWL_REFLECT(f, o, b) };
template <class T> void fresh(T &) {}
template <class T> void fresh(awl::ring<T> &r) { r = awl::ring<T>(4); }
// values that have representations outside the type
inline bool valid(const bool &b) { return *(const u8 *)&b <= 1; }
inline bool valid(const Fruit &f) { return (u8)f <= 2; }
template <class T> bool valid(const T &) { return true; }
inline bool valid(const Basket &b) { return valid(b.f) && valid(b.b) && (!b.o || valid(*b.o)); }
inline bool valid(const Outer &o) { return valid(o.b); }
template <class T> bool valid(const std::optional<T> &o) { return valid(*(const u8 *)&o) && (!o || valid(*o)); }
template <std::size_t N> bool valid(const std::array<bool, N> &a) { bool r = true; for (auto &b : a) r = r && valid(b); return r; }
template <class... Ts> bool valid(const std::variant<Ts...> &v) { return v.index() < sizeof...(Ts); }
// an arbitrary byte string of arbitrary length up to n is read
template <class T> void any(unsigned n, unsigned from = 0, u64 cap = 40) {
  sym_leak_scope L;
  {
    unsigned len = from + (unsigned)sym::choice(n - from + 1, "len"); Bytes in; for (unsigned i = 0; i < len; ++i) in.push_back(sym::any<u8>("byte"));
    T v{}; fresh(v); bool ok = false; awl::io::VectorInputStream s(in);
    __sym_alloc_cap(cap); try { awl::io::Read(s, v); ok = true; } catch (const std::exception &) {} __sym_alloc_cap(~(u64)0);
    sym::check(valid(v), "the destination holds a value of its type, whether reading succeeded or not");
    if (ok) {
      // the value that was read is a proper one: it can be written and read again
      Bytes out; awl::io::VectorOutputStream o(out); awl::io::Write(o, v); sym::check(out.size() <= len, "no more than the given bytes are needed for the value"); T w{}; fresh(w); awl::io::VectorInputStream t(out); __sym_alloc_cap(cap); awl::io::Read(t, w); __sym_alloc_cap(~(u64)0); sym::check(t.End() && eq(v, w), "the value can be written and read again"); sym::observe("size", out.size()); sym::reach("value");
    } else sym::reach("thrown");
  }
  L.done();
}
// a strict prefix of what was written for an arbitrary value is read
template <class T> void cut(unsigned l) {
  lim = l; sym_leak_scope L;
  {
    T a{}, b{}; fresh(a); fresh(b); gen(a); if (sym::choice(2, "dst")) gen(b); Bytes v; { awl::io::VectorOutputStream o(v); awl::io::Write(o, a); } unsigned k = (unsigned)sym::choice((unsigned)v.size(), "cut"); v.resize(k); bool eof = false, ok = false; awl::io::VectorInputStream s(v);
    try { awl::io::Read(s, b); ok = true; } catch (const awl::io::EndOfFileException &) { eof = true; }
    sym::check(!ok && eof, "a strict prefix is rejected with an end-of-file exception"); sym::check(valid(b), "the destination holds a value of its type"); sym::observe("k", k);
  }
  L.done(); sym::reach("end");
}
}
HARNESS(any_scalar) { switch (sym::choice(5, "type")) { case 0: any<bool>(2); break; case 1: any<u8>(2); break; case 2: any<int>(5); break; case 3: any<u64>(9); break; default: any<double>(9); } }
HARNESS(any_enum) { switch (sym::choice(4, "type")) { case 0: any<Fruit>(2); break; case 1: any<Raw>(3); break; case 2: any<std::optional<Fruit>>(3); break; default: any<Basket>(6); } }
HARNESS(any_string) { if (sym::choice(2, "type")) any<std::string>(12); else any<std::wstring>(17); }
HARNESS(any_bytes) { if (sym::choice(2, "type")) any<std::vector<u8>>(11); else any<std::vector<short>>(13); }
HARNESS(any_vector) { switch (sym::choice(3, "type")) { case 0: any<std::vector<std::string>>(18, 6); break; case 1: any<std::vector<std::optional<u8>>>(13, 6); break; default: any<std::vector<bool>>(9); } }
HARNESS(any_bits) { switch (sym::choice(3, "type")) { case 0: any<std::bitset<9>>(3); break; case 1: any<awl::bitmap<Color, 3>>(2); break; default: any<std::array<bool, 10>>(3); } }
HARNESS(any_array) { switch (sym::choice(2, "type")) { case 0: any<std::array<std::string, 2>>(18, 6); break; default: any<std::array<Plain, 2>>(7); } }
HARNESS(any_optional) { switch (sym::choice(4, "type")) { case 0: any<std::optional<int>>(6); break; case 1: any<std::unique_ptr<short>>(4); break; case 2: any<std::shared_ptr<std::string>>(11); break; default: any<std::optional<std::vector<u8>>>(11); } }
HARNESS(any_variant) { if (sym::choice(2, "type")) any<std::variant<u8, std::string, bool>>(18); else any<std::vector<std::variant<bool, u8>>>(18, 7); }
HARNESS(any_deque) { if (sym::choice(2, "type")) any<std::deque<short>>(13, 0, 600); else any<awl::ring<u8>>(14, 0, 600); }
HARNESS(any_set) { switch (sym::choice(3, "type")) { case 0: any<std::set<u8>>(11, 0, 600); break; case 1: any<awl::vector_set<u8>>(11, 0, 600); break; default: any<awl::observable_set<short>>(12, 0, 600); } }
HARNESS(any_map) { switch (sym::choice(3, "type")) { case 0: any<std::map<u8, u8>>(13, 0, 600); break; case 1: any<std::map<u8, std::string>>(18, 0, 80); break; default: any<std::unordered_map<u8, u8>>(12, 0, 600); } }
HARNESS(any_struct) { switch (sym::choice(3, "type")) { case 0: any<Inner>(14); break; case 1: any<Plain>(4); break; default: any<Outer>(THOROUGH ? 36 : 24, 10); } }
HARNESS(any_other) { switch (sym::choice(3, "type")) { case 0: any<awl::decimal<u64, 4>>(9); break; case 1: any<std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>>(9); break; default: any<std::atomic<bool>>(2); } }
// a context that limits the length of strings
HARNESS(limit_string) {
  sym_leak_scope L; __sym_alloc_cap(300);
  {
    unsigned len = sym::choice(14, "len"); Bytes in; for (unsigned i = 0; i < len; ++i) in.push_back(sym::any<u8>("byte")); unsigned max = sym::choice(5, "max"); awl::io::VectorInputStream s(in); awl::io::LimitedContext ctx(max); bool ok = false; std::string v = "old";
    try { awl::io::Read(s, v, ctx); ok = true; } catch (const awl::io::IoException &) {} 
    if (ok) { sym::check(v.size() <= max && v.size() + 8 <= len, "a string within the limit"); sym::reach("value"); } else sym::reach("thrown");
    Bytes out; awl::io::VectorOutputStream o(out); bool wrote = false; try { awl::io::Write(o, v, ctx); wrote = true; } catch (const awl::io::IoException &) {} sym::check(wrote == (v.size() <= max) && (wrote || out.empty()), "a longer string is not written");
  }
  L.done();
}
HARNESS(cut_scalar) { switch (sym::choice(5, "type")) { case 0: cut<bool>(1); break; case 1: cut<Fruit>(1); break; case 2: cut<int>(1); break; case 3: cut<double>(1); break; default: cut<awl::decimal<u64, 4>>(1); } }
HARNESS(cut_string) { switch (sym::choice(3, "type")) { case 0: cut<std::string>(3); break; case 1: cut<std::wstring>(2); break; default: cut<std::array<std::string, 2>>(1); } }
HARNESS(cut_vector) { switch (sym::choice(5, "type")) { case 0: cut<std::vector<u8>>(2); break; case 1: cut<std::vector<int>>(2); break; case 2: cut<std::vector<std::string>>(1); break; case 3: cut<std::deque<short>>(2); break; default: cut<awl::ring<int>>(2); } }
HARNESS(cut_set) { switch (sym::choice(4, "type")) { case 0: cut<std::set<u8>>(2); break; case 1: cut<awl::vector_set<short>>(2); break; case 2: cut<std::map<u8, std::string>>(1); break; default: cut<std::unordered_map<u8, u8>>(1); } }
HARNESS(cut_variant) { switch (sym::choice(3, "type")) { case 0: cut<std::variant<u8, std::string, bool>>(1); break; case 1: cut<std::optional<std::string>>(2); break; default: cut<std::shared_ptr<int>>(1); } }
HARNESS(cut_struct) { switch (sym::choice(4, "type")) { case 0: cut<Inner>(2); break; case 1: cut<Plain>(1); break; case 2: cut<Basket>(2); break; default: cut<Outer>(THOROUGH ? 1 : 0); } }
HARNESS(cut_bits) { switch (sym::choice(3, "type")) { case 0: cut<std::bitset<9>>(1); break; case 1: cut<awl::bitmap<Color, 3>>(1); break; default: cut<std::array<bool, 10>>(1); } }
