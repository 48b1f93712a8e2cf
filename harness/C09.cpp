//! entry accept shards=2 time=120 qtimeout=60000 reach=end
//! entry wrong_version time=120 qtimeout=60000 reach=older,newer
//! entry wrong_format time=120 qtimeout=60000 reach=end
//! entry old_version time=90 qtimeout=60000 reach=end
//! entry alter_header shards=4 time=120 qtimeout=60000 reach=end
//! entry cut_header time=90 qtimeout=60000 reach=end
//! entry name_limit time=60 reach=accepted,refused
//! entry snapshot shards=2 time=120 reach=end
//! flags -std=gnu++20
//! bound format names of up to 2 arbitrary characters, every 64-bit version where it is accepted; versions that differ: every pair below 256 and pairs around powers of 2^32; every value of a structure of a short and a string of up to 1 character; blocks of 16 and 64 bytes
//! bound altered header: every value of every byte of the blocks that contain the header; truncation: every point inside the header
#include "rw.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Crypto/Crc64.h"
using namespace rw; using namespace awl::io;
namespace {
struct Val { short a; std::string s; AWL_REFLECT(a, s) };
using Holder = HeaderedSerializable<Val>;
Bytes store(const Serializable<> &h) { Bytes r; VectorOutputStream o(r); h.Write(o); return r; }
enum Res { ok, ioerror, other };
Res load(Serializable<> &h, const Bytes &raw, bool *end = nullptr) { VectorInputStream i(raw); try { h.Read(i); } catch (const IoError &) { return ioerror; } catch (const IoException &) { return other; } if (end) *end = i.End(); return ok; }
std::string name(const char *n, unsigned max) { unsigned k = sym::choice(max + 1, "len"); std::string s; for (unsigned i = 0; i < k; ++i) s.push_back(sym::any<char>(n)); return s; }
struct Old : Holder { using Holder::Holder; u64 seen = 0; unsigned calls = 0; void ReadOldVersion(std::size_t v) override { seen = v; ++calls; } };
void start() { Val::get_member_names(); Header::get_member_names(); lim = 1; }
Header head(const std::string &f, u64 v) { Header h; h.format = f; h.version = v; return h; }
}
HARNESS(accept) { start(); sym_leak_scope L; { std::string f = name("f", 2); u64 ver = sym::any<u64>("version"); Val a{}, b{}; gen(a); gen(b); unsigned B = sym::choice(2, "block") ? 16 : 64; Holder w(head(f, ver), a, B), r(head(f, ver), b, B); Bytes raw = store(w); bool end = false; sym::check(load(r, raw, &end) == ok, "matching format and version are accepted"); sym::check(eq(a, b) && end, "the written value is read and the stream is consumed"); sym::observe("size", raw.size()); } L.done(); sym::reach("end"); }
HARNESS(wrong_version) { start(); sym_leak_scope L; { Val a{}, b{}; gen(a); gen(b); Val c = b; u64 v, w; switch (sym::choice(3, "range")) { case 0: v = sym::range(0, 255, "v"); w = sym::range(0, 255, "w"); break; case 1: v = sym::choice(3, "v") + 0xffffffffu; w = sym::choice(3, "w"); break; default: v = sym::choice(2, "v"); w = ~(u64)0 - sym::choice(2, "w"); } sym::assume(v != w); Holder x(head("f", v), a, 64), y(head("f", w), b, 64); Bytes raw = store(x); sym::check(load(y, raw) == ioerror, "a different version is rejected"); sym::check(eq(b, c), "the held value is unchanged"); sym::reach(v < w ? "older" : "newer"); } L.done(); }
HARNESS(wrong_format) { start(); sym_leak_scope L; { std::string f = name("f", 2), g = name("g", 2); sym::assume(f != g); u64 v = 3 + sym::choice(2, "v"), w = 3 + sym::choice(2, "w"); Val a{}, b{}; a.a = sym::any<short>("a"); b.a = sym::any<short>("b"); Val c = b; Holder x(head(f, v), a, 64), y(head(g, w), b, 64); Bytes raw = store(x); sym::check(load(y, raw) == ioerror, "a different format is rejected"); sym::check(eq(b, c), "the held value is unchanged"); } L.done(); sym::reach("end"); }
HARNESS(old_version) { start(); sym_leak_scope L; { Val a{}, b{}; gen(a); gen(b); Val c = b; u64 v = sym::any<u64>("v"), w = sym::any<u64>("w"); sym::assume(v <= w); Holder x(head("f", v), a, 64); Old y(head("f", w), b, 64); Bytes raw = store(x); sym::check(load(y, raw) == ok, "an older version can be accepted by the user"); sym::check(y.calls == (v < w) && (v == w || y.seen == v), "the user gets the version that was written"); sym::check(eq(b, v < w ? c : a), "the value is read only if the versions are equal"); } L.done(); sym::reach("end"); }
HARNESS(alter_header) { start(); sym_leak_scope L; { std::string f = "fm"; u64 ver = sym::any<u64>("version"); Val a{}, b{}; a.a = sym::any<short>("a"); b.a = sym::any<short>("b"); Val c = b; const unsigned B = 26; Holder x(head(f, ver), a, B), y(head(f, ver), b, B); Bytes raw = store(x); unsigned i = sym::choice(B, "at"); u8 d = sym::any<u8>("x"); sym::assume(d != 0); raw[i] ^= d; sym::check(load(y, raw) != ok, "an altered header is rejected"); sym::check(eq(b, c), "the held value is unchanged"); } L.done(); sym::reach("end"); }
HARNESS(cut_header) { start(); sym_leak_scope L; { std::string f = name("f", 2); u64 ver = sym::any<u64>("version"); Val a{}, b{}; a.a = sym::any<short>("a"); b.a = sym::any<short>("b"); Val c = b; const unsigned B = sym::choice(2, "block") ? 16 : 32; Holder x(head(f, ver), a, B), y(head(f, ver), b, B); Bytes raw = store(x); raw.resize(sym::choice(40, "cut")); sym::check(load(y, raw) != ok, "a truncated header is rejected"); sym::check(eq(b, c), "the held value is unchanged"); } L.done(); sym::reach("end"); }
HARNESS(name_limit) { start(); sym_leak_scope L; { unsigned n = sym::choice(5, "n"), l = sym::choice(5, "limit"); std::string f; for (unsigned i = 0; i < n; ++i) f.push_back(sym::any<char>("f")); Val a{}, b{}; a.a = sym::any<short>("a"); b.a = 7; Holder x(head(f, 1), a, 64), y(head(f, 1), b, 64, {}, l); Bytes raw = store(x); bool good = load(y, raw) == ok; sym::check(good == (n <= l), "names up to the limit are accepted, longer ones are rejected"); sym::check(b.a == (good ? a.a : 7), "value"); sym::reach(good ? "accepted" : "refused"); } L.done(); }
HARNESS(snapshot) { start(); sym_leak_scope L; { std::string f = name("f", 1); u64 ver = sym::any<u64>("version"); Val a{}, b{}; gen(a); gen(b); Holder x(head(f, ver), a, 64); Bytes raw = store(x); auto s = x.MakeShanshot(); Val keep = a; a.a ^= sym::any<short>("change"); a.s += "later"; Bytes r; { VectorOutputStream o(r); x.WriteSnapshot(o, s); } sym::check(eqseq(r, raw), "a snapshot is written like the value at the time it was made"); Holder y(head(f, ver), b, 64); sym::check(load(y, r) == ok && eq(b, keep), "a written snapshot is read back"); } L.done(); sym::reach("end"); }
