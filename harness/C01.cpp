//! entry rt_int time=60 reach=end
//! entry rt_float time=60 reach=end
//! entry rt_bool_enum time=60 reach=end
//! entry rt_string time=60 reach=end
//! entry rt_wstring time=60 reach=end
//! entry rt_bytes time=60 reach=end
//! entry rt_vector time=60 reach=end
//! entry rt_vecbool time=90 reach=end
//! entry rt_bits time=60 reach=end
//! entry rt_array time=60 reach=end
//! entry rt_optional time=60 reach=end
//! entry rt_pointer time=60 reach=end
//! entry rt_variant time=60 reach=end
//! entry rt_deque time=60 reach=end
//! entry rt_ring time=60 reach=end
//! entry rt_set time=90 reach=end
//! entry rt_vector_set time=120 reach=end
//! entry rt_map time=90 reach=end
//! entry rt_unordered time=120 reach=end
//! entry rt_struct time=120 reach=end
//! entry rt_decimal time=60 reach=end
//! entry rt_chrono time=60 reach=end
//! entry rt_atomic time=60 reach=end
//! entry rt_nested time=180 reach=end
//! entry rt_tuple time=60 reach=end
//! entry rt_format time=60 reach=end
//! entry rt_holder time=60 reach=end
//! bound every bit pattern of the element types; strings and collections of up to 2 elements (thorough 3; vector<bool> up to 9, thorough 11), for the written values and for what the destination held
//! assume keys of unordered containers are below 256 (the hash table model); little-endian platform with 8-byte sizes, as the wire format is native
#include "rw.h"
using namespace rw;
HARNESS(rt_int) { switch (sym::choice(9, "type")) { case 0: roundtrip<u8>(1); break; case 1: roundtrip<signed char>(1); break; case 2: roundtrip<std::uint16_t>(1); break; case 3: roundtrip<short>(1); break; case 4: roundtrip<unsigned>(1); break; case 5: roundtrip<int>(1); break; case 6: roundtrip<u64>(1); break; case 7: roundtrip<long>(1); break; default: roundtrip<wchar_t>(1); } }
HARNESS(rt_float) { if (sym::choice(2, "type")) roundtrip<double>(1); else roundtrip<float>(1); }
HARNESS(rt_bool_enum) { switch (sym::choice(4, "type")) { case 0: roundtrip<bool>(1); break; case 2: roundtrip<Fruit>(1); break; case 1: roundtrip<Raw>(1); break; default: roundtrip<char>(1); } }
HARNESS(rt_string) { roundtrip<std::string>(THOROUGH ? 4 : 3); }
HARNESS(rt_wstring) { roundtrip<std::wstring>(THOROUGH ? 4 : 3); }
HARNESS(rt_bytes) { switch (sym::choice(3, "type")) { case 0: roundtrip<std::vector<u8>>(3); break; case 1: roundtrip<std::array<u8, 5>>(1); break; default: roundtrip<std::vector<long>>(2); } }
HARNESS(rt_vector) { if (sym::choice(2, "type")) roundtrip<std::vector<std::string>>(THOROUGH ? 2 : 1); else roundtrip<std::vector<std::optional<int>>>(2); }
HARNESS(rt_vecbool) { static const unsigned ns[] = {0, 1, 3, 7, 8, 9, 11}; unsigned n = ns[sym::choice(THOROUGH ? 7 : 6, "n")], m = sym::choice(3, "m") * 5; std::vector<bool> a, b(m, true); for (unsigned i = 0; i < n; ++i) a.push_back(sym::any<bool>("bit")); Bytes v; awl::io::VectorOutputStream o(v); awl::io::Write(o, a); u8 tail = sym::any<u8>("tail"); awl::io::Write(o, tail); awl::io::VectorInputStream i(v); awl::io::Read(i, b); sym::check(eq(a, b), "read back equal, whatever the destination held"); u8 t; awl::io::Read(i, t); sym::check(t == tail && i.End(), "exactly the bytes are consumed"); sym::check(measure(a) + 1 == v.size(), "measured"); sym::reach("end"); sym::observe("n", v.size()); }
HARNESS(rt_bits) { switch (sym::choice(4, "type")) { case 0: roundtrip<std::bitset<9>>(1); break; case 1: roundtrip<awl::bitmap<Color, 3>>(1); break; case 2: roundtrip<std::array<bool, 10>>(1); break; default: roundtrip<std::bitset<8>>(1); } }
HARNESS(rt_array) { switch (sym::choice(3, "type")) { case 0: roundtrip<std::array<int, 3>>(1); break; case 1: roundtrip<std::array<std::string, 2>>(1); break; default: roundtrip<std::array<Plain, 2>>(1); } }
HARNESS(rt_optional) { switch (sym::choice(4, "type")) { case 0: roundtrip<std::optional<int>>(1); break; case 1: roundtrip<std::optional<std::string>>(2); break; case 2: roundtrip<std::optional<std::vector<u8>>>(2); break; default: roundtrip<std::optional<Inner>>(1); } }
HARNESS(rt_pointer) { switch (sym::choice(4, "type")) { case 0: roundtrip<std::shared_ptr<int>>(1); break; case 1: roundtrip<std::unique_ptr<int>>(1); break; case 2: roundtrip<std::shared_ptr<std::string>>(2); break; default: roundtrip<std::unique_ptr<Inner>>(1); } }
HARNESS(rt_variant) { if (sym::choice(2, "type")) roundtrip<std::variant<int, std::string, Inner>>(1); else roundtrip<std::variant<bool, u8, std::vector<u8>, double>>(1); }
HARNESS(rt_deque) { switch (sym::choice(3, "type")) { case 0: roundtrip<std::deque<int>>(2); break; case 1: roundtrip<std::deque<std::string>>(1); break; default: roundtrip<std::deque<std::vector<u8>>>(1); } }
HARNESS(rt_ring) { if (sym::choice(2, "type")) roundtrip<awl::ring<int>>(2); else roundtrip<awl::ring<std::string>>(1); }
HARNESS(rt_set) { if (sym::choice(2, "type")) roundtrip<std::set<int>>(2); else roundtrip<std::set<std::string>>(1); }
HARNESS(rt_vector_set) { if (sym::choice(2, "type")) roundtrip<awl::vector_set<int>>(THOROUGH ? 3 : 2); else roundtrip<awl::observable_set<u8>>(THOROUGH ? 3 : 2); }
HARNESS(rt_map) { if (sym::choice(2, "type")) roundtrip<std::map<int, std::string>>(1); else roundtrip<std::map<u8, short>>(2); }
HARNESS(rt_unordered) { if (sym::choice(2, "type")) roundtrip<std::unordered_set<u8>>(1); else roundtrip<std::unordered_map<u8, int>>(1); }
HARNESS(rt_struct) { switch (sym::choice(3, "type")) { case 0: roundtrip<Inner>(2); break; case 1: roundtrip<Plain>(1); break; default: roundtrip<Outer>(THOROUGH ? 1 : 0); } }
HARNESS(rt_decimal) { roundtrip<awl::decimal<u64, 4>>(1); }
HARNESS(rt_chrono) { using namespace std::chrono; roundtrip<time_point<system_clock, nanoseconds>>(1); }
HARNESS(rt_atomic) { if (sym::choice(2, "type")) roundtrip<std::atomic<int>>(1); else roundtrip<std::atomic<bool>>(1); }
HARNESS(rt_nested) { switch (sym::choice(3, "type")) { case 0: roundtrip<std::vector<std::map<u8, std::string>>>(1); break; case 1: roundtrip<std::map<u8, std::vector<std::optional<u8>>>>(1); break; default: roundtrip<std::optional<std::vector<std::variant<u8, std::string>>>>(1); } }
HARNESS(rt_tuple) { int a = sym::any<int>("a"); unsigned k = sym::choice(3, "n"); std::string s(k, sym::any<char>("c")); bool b = sym::any<bool>("b"); Bytes v; awl::io::VectorOutputStream o(v); awl::io::Write(o, std::tie(a, s, b)); int x = sym::any<int>("x"); std::string t = "old"; bool c = sym::any<bool>("c"); awl::io::VectorInputStream i(v); awl::io::Read(i, std::tie(x, t, c)); sym::check(x == a && t == s && b == c && i.End(), "a tuple of references is read back"); sym::reach("end"); sym::observe("n", v.size()); }
HARNESS(rt_format) { // the documented layout: native integers, 8-byte length prefixes, bits packed from the least significant
  int a = sym::any<int>("a"); unsigned k = sym::choice(3, "n"); std::string s(k, sym::any<char>("c")); std::vector<bool> f; for (int i = 0; i < 9; ++i) f.push_back(sym::any<bool>("f")); Bytes v; awl::io::VectorOutputStream o(v); awl::io::Write(o, a); awl::io::Write(o, s); awl::io::Write(o, f);
  sym::check(v.size() == 4 + 8 + s.size() + 8 + 2, "length"); sym::check(!std::memcmp(v.data(), &a, 4), "native integer"); u64 n; std::memcpy(&n, v.data() + 4, 8); sym::check(n == s.size() && !std::memcmp(v.data() + 12, s.data(), s.size()), "length-prefixed string"); const u8 *p = v.data() + 12 + s.size(); std::memcpy(&n, p, 8); bool ok = n == 9; for (int i = 0; i < 9; ++i) ok = ok && f[i] == ((p[8 + i / 8] >> (i % 8) & 1) != 0); sym::check(ok, "packed bits"); sym::reach("end"); }
HARNESS(rt_holder) { lim = 1; Outer a, b; a.v.clear(); gen(a.in); gen(a.o); gen(a.b); gen(b.in); gen(b.b); b.v.resize(1); gen(b.v[0]); Bytes v; { awl::io::PlainSerializable w(a); awl::io::VectorOutputStream o(v); w.Write(o); } awl::io::PlainSerializable r(b); awl::io::VectorInputStream i(v); r.Read(i); sym::check(eq(a, b) && i.End(), "a holder reads back what a holder wrote"); sym::reach("end"); sym::observe("n", v.size()); }
