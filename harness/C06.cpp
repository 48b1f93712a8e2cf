//! entry crc_byte time=120 qtimeout=60000 reach=end
//! entry crc_bytes time=120 qtimeout=60000 reach=end
//! entry crc_check time=60 reach=end
//! entry crc_split time=120 qtimeout=60000 reach=end
//! entry crc_inject time=120 qtimeout=60000 reach=end
//! entry crc_flip time=120 qtimeout=60000 reach=end
//! entry crc_wide time=120 qtimeout=60000 reach=end
//! entry crc_iter time=60 reach=end
//! entry crc_fixed time=60 reach=end
//! entry int_bytes time=60 reach=end
//! entry int_back time=60 reach=end
//! entry int_order time=60 reach=end
//! bound one step: every 64-bit seed and every byte; whole ranges: every content of up to 3 bytes with an arbitrary seed (thorough 4) and every content of the first and last byte of a 9-byte text
//! bound longer ranges follow by composition (crc_split): hashing a range equals hashing its tail seeded with the hash of its head
//! bound integers: every 8-, 16-, 32- and 64-bit value, signed and unsigned
//! bound alteration: every difference of one byte and every difference of the preceding state (so every change confined to one byte at any position)
#include "sym.h"
#include "Awl/Crypto/Crc64.h"
#include "Awl/Crypto/IntHash.h"
#include "Awl/Crypto/FixedHash.h"
#include "Awl/FixedString.h"
#include "Awl/Int2Array.h"
#include <list>
#include <string>
#include <string_view>
#include <vector>
using namespace awl; using namespace awl::crypto;
namespace {
using u64 = std::uint64_t; using u8 = std::uint8_t;
// the specification: reflected polynomial 0xad93d23594c935a9, no final xor
constexpr u64 reflect(u64 v) { u64 r = 0; for (int i = 0; i < 64; ++i) if (v >> i & 1) r |= u64(1) << (63 - i); return r; }
u64 step(u64 crc, u8 b) { const u64 p = reflect(0xad93d23594c935a9ull); crc ^= b; for (int i = 0; i < 8; ++i) crc = (crc >> 1) ^ (p & (0 - (crc & 1))); return crc; }
u64 be(const HashValue<8> &a) { u64 v = 0; for (unsigned i = 0; i < 8; ++i) v |= (u64)a[i] << (8 * (7 - i)); return v; }
}
HARNESS(crc_byte) { u64 s = sym::any<u64>("seed"); u8 b[1] = {sym::any<u8>("b")}; u64 r = be(Crc64(s)(b, b + 1)); sym::check(r == step(s, b[0]), "one byte matches the bit-by-bit CRC for every state"); sym::check(be(Crc64(s)(b, b)) == s, "nothing hashed, seed unchanged"); sym::reach("end"); sym::observe("r", r); }
HARNESS(crc_bytes) { u64 s = sym::any<u64>("seed"); unsigned n = sym::choice(THOROUGH ? 5 : 4, "n"); u8 b[4]; u64 e = s; for (unsigned i = 0; i < n; ++i) { b[i] = sym::any<u8>("b"); e = step(e, b[i]); }
  sym::check(be(Crc64(s)(b, b + n)) == e, "a range matches the bit-by-bit CRC"); sym::check(Int64Hash(s)(b, b + n) == e, "the integer hash is the same number"); sym::reach("end"); sym::observe("e", e); }
HARNESS(crc_check) { char t[] = "123456789"; sym::check(be(Crc64(0)(t, t + 9)) == 0xe9c6d914c4b8d9caull, "check value"); t[0] = sym::any<char>("a"); t[8] = sym::any<char>("z"); u64 e = 0, d = 127; for (int i = 0; i < 9; ++i) { e = step(e, (u8)t[i]); d = step(d, (u8)t[i]); }
  sym::check(be(Crc64(0)(t, t + 9)) == e, "a text with an arbitrary first and last character"); sym::check(be(Crc64()(t, t + 9)) == d && Int64Hash()(t, t + 9) == e, "documented default seeds"); sym::reach("end"); sym::observe("e", e); }
HARNESS(crc_split) { u64 s = sym::any<u64>("seed"); u8 b[4]; unsigned n = sym::choice(4, "n"), k = sym::choice(n + 1, "k"); for (unsigned i = 0; i < n; ++i) b[i] = sym::any<u8>("b"); Crc64 h(s); u64 whole = be(h(b, b + n)), head = be(h(b, b + k)), tail = be(Crc64(head)(b + k, b + n)); sym::check(whole == tail, "hashing piece by piece gives the same result"); sym::check(be(h(b, b + n)) == whole, "hashing again gives the same result"); sym::reach("end"); sym::observe("w", whole); }
HARNESS(crc_inject) { // a difference in the state survives every further byte
  u64 s = sym::any<u64>("s"), t = sym::any<u64>("t"); u8 b[1] = {sym::any<u8>("b")}; sym::assume(s != t); sym::check(Crc64(s)(b, b + 1) != Crc64(t)(b, b + 1), "different states stay different"); sym::reach("end"); }
HARNESS(crc_flip) { // a difference in one byte changes the state
  u64 s = sym::any<u64>("s"); u8 b[1] = {sym::any<u8>("b")}, c[1] = {sym::any<u8>("c")}; sym::assume(b[0] != c[0]); sym::check(Crc64(s)(b, b + 1) != Crc64(s)(c, c + 1), "any change of one byte changes the hash"); sym::reach("end"); }
template <class T> static void wide() { u64 s = sym::any<u64>("seed"); T v[1] = {sym::any<T>("v")}; u64 e = s; for (unsigned i = sizeof(T); i-- > 0;) e = step(e, (u8)((u64)v[0] >> (8 * i))); sym::check(be(Crc64(s)(v, v + 1)) == e, "a wider integer is hashed as its bytes, most significant first"); sym::reach("end"); sym::observe("e", e); }
HARNESS(crc_wide) { if (sym::choice(2, "type")) wide<std::uint16_t>(); else wide<short>(); }
HARNESS(crc_iter) { char c[3] = {sym::any<char>("c"), sym::any<char>("c"), sym::any<char>("c")}; std::vector<char> v(c, c + 3); std::list<signed char> l(c, c + 3); std::string t(c, 3); Crc64 h; auto r = h(c, c + 3); sym::check(h(v.begin(), v.end()) == r && h(l.begin(), l.end()) == r && h(t.begin(), t.end()) == r, "the kind of iterator does not matter"); sym::reach("end"); sym::observe("r", be(r)); }
HARNESS(crc_fixed) { char c[4] = {sym::any<char>("c"), sym::any<char>("c"), sym::any<char>("c"), 0}; FixedHash<Int64Hash> f; FixedHash<Crc64> g(Crc64(5)); std::string t(c, 3); std::string_view w(t); fixed_string<char, 3> x(c); u64 r = Int64Hash()(c, c + 3); sym::check(f(t) == r && f(w) == r && f(x) == r && f(c) == r && f(t.begin(), t.end()) == r, "strings, views, fixed strings and literals hash alike"); sym::check(be(g(c)) == be(Crc64(5)(c, c + 3)) && g.size() == 8, "seed"); sym::reach("end"); sym::observe("r", r); }
template <class T> static void bytes() { T v = sym::any<T>("v"); auto a = to_array(v); static_assert(a.size() == sizeof(T)); sym::check(from_array<T>(a) == v, "to bytes and back is the identity"); for (unsigned i = 0; i < sizeof(T); ++i) sym::check(a[sizeof(T) - 1 - i] == (u8)((u64)v >> (8 * i)), "most significant byte first"); sym::observe("v", (u64)v); }
HARNESS(int_bytes) { bytes<u8>(); bytes<signed char>(); bytes<std::uint16_t>(); bytes<short>(); bytes<std::uint32_t>(); bytes<int>(); bytes<u64>(); bytes<long>(); sym::reach("end"); }
template <class T> static void back() { std::array<u8, sizeof(T)> a; for (auto &x : a) x = sym::any<u8>("x"); T v = from_array<T>(a); sym::check(to_array(v) == a, "from bytes and back is the identity"); sym::observe("v", (u64)v); }
HARNESS(int_back) { back<u8>(); back<signed char>(); back<std::uint16_t>(); back<short>(); back<std::uint32_t>(); back<int>(); back<u64>(); back<long>(); sym::reach("end"); }
HARNESS(int_order) { u64 a = sym::any<u64>("a"), b = sym::any<u64>("b"); sym::check((to_array(a) < to_array(b)) == (a < b), "byte order preserves the order of unsigned integers"); sym::reach("end"); }
