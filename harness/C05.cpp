//! entry split_hash shards=4 time=90 reach=end
//! entry split_buffer shards=2 time=90 reach=end
//! entry split_crc shards=2 time=90 reach=end
//! entry any_stream shards=4 time=120 reach=good,bad
//! entry any_buffer time=60 reach=good
//! entry alter_data shards=2 time=120 qtimeout=60000 reach=end
//! entry alter_hash time=90 qtimeout=60000 reach=end
//! entry cut_crc time=120 qtimeout=60000 reach=end
//! entry holder_trip shards=2 time=90 reach=end
//! entry holder_alter time=120 qtimeout=60000 reach=end
//! entry holder_cut time=120 qtimeout=60000 reach=end
//! entry write_fails time=60 reach=thrown,passed
//! entry after_failure time=90 reach=end
//! bound blocks of 1 to 3 data bytes (with CRC64: 1 to 4), up to 5 data bytes (thorough 7), every content, first and further write and read sizes of 0 to 4
//! bound alteration: every non-zero difference of up to 8 consecutive bytes of the data or of the hash of a block, or of 2 bytes across both, for every content; arbitrary streams: every byte string of up to 7 bytes with a one-byte hash
//! assume the underlying stream returns as many bytes as requested unless it ends (a short read in the middle is not considered)
#include "rw.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Crypto/Crc64.h"
using namespace rw; using namespace awl::io; using awl::crypto::Crc64; using awl::crypto::FakeHash;
namespace {
// a simple one-byte hash that depends on every byte, on the order and on the length
struct Small : awl::crypto::BasicHash<1> { u8 seed = 7; Small() {} Small(u8 s) : seed(s) {} template <class It> value_type operator()(It b, It e) const { u8 h = seed; for (; b != e; ++b) h = (u8)((h ^ (u8)*b) + 29); return {h}; } };
unsigned maxn() { return THOROUGH ? 7 : 5; }
// the specified layout: full blocks and a shorter last one, each followed by its hash
template <class H> Bytes layout(const u8 *d, unsigned n, unsigned B, H h) { Bytes r; const unsigned m = B - (unsigned)H::size(); for (unsigned i = 0; i < n; i += m) { unsigned k = n - i < m ? n - i : m; auto v = h(d + i, d + i + k); r.insert(r.end(), d + i, d + i + k); for (std::size_t j = 0; j < H::size(); ++j) r.push_back(v[j]); } return r; }
template <class H> void split(unsigned B, H h = {}) {
  sym_leak_scope L;
  {
    u8 d[8], buf[8]; unsigned n = sym::choice(maxn() + 1, "n"); for (unsigned i = 0; i < n; ++i) d[i] = sym::any<u8>("d"); Bytes raw; VectorOutputStream vo(raw);
    { HashOutputStream<H> out(vo, B, h); unsigned w = sym::choice(5, "w1"), v = 1 + sym::choice(4, "w2"); for (unsigned i = 0; i < n;) { unsigned k = w < n - i ? w : n - i; out.Write(d + i, k); i += k; w = v; } if (!w) out.Write(d, 0); }
    Bytes e = layout(d, n, B, h); bool same = raw.size() == e.size(); for (std::size_t i = 0; same && i < e.size(); ++i) sym::check(raw[i] == e[i], "the stream consists of blocks followed by their hashes"); sym::check(same, "the size of the stream");
    VectorInputStream vi(raw); HashInputStream<H> in(vi, B, h); unsigned r = sym::choice(5, "r1"), v = 1 + sym::choice(4, "r2"); bool ask = sym::choice(2, "end"); unsigned i = 0;
    for (;;) { if (ask) sym::check(in.End() == (i == n), "End() is true exactly when everything has been read"); unsigned k = n - i < r ? n - i : r; std::size_t c = in.Read(buf, r); sym::check(c == k, "a read returns as many bytes as there are"); for (unsigned j = 0; j < k; ++j) sym::check(buf[j] == d[i + j], "the bytes are those that were written, in order"); i += k; if (k < r) break; r = v; }
    sym::check(in.End() && in.Read(buf, 1) == 0 && vi.End(), "nothing follows"); sym::observe("n", n); sym::observe("raw", raw.size());
  }
  L.done(); sym::reach("end");
}
// arbitrary bytes: the data of all blocks that match their hashes is returned, and the first one that does not is reported
void arbitrary() {
  sym_leak_scope L;
  {
    const unsigned B = 2 + sym::choice(2, "block"); Bytes raw; unsigned n = sym::choice(8, "n"); for (unsigned i = 0; i < n; ++i) raw.push_back(sym::any<u8>("b")); Small h; VectorInputStream vi(raw); HashInputStream<Small> in(vi, B, h);
    Bytes good; bool bad = false; for (unsigned i = 0; i < n && !bad; i += B) { unsigned l = n - i < B ? n - i : B; auto v = h(raw.begin() + i, raw.begin() + i + l - 1); bad = v[0] != raw[i + l - 1]; if (!bad) good.insert(good.end(), raw.begin() + i, raw.begin() + i + l - 1); }
    bool thrown = false; unsigned got = 0, r = 1 + sym::choice(3, "r"); u8 buf[4];
    try { for (;;) { std::size_t c = in.Read(buf, r); sym::check(got + c <= good.size(), "no data of a block that does not match its hash is returned"); for (unsigned j = 0; j < c; ++j) sym::check(buf[j] == good[got + j], "the data of a matching block is returned unchanged"); got += c; if (c < r) break; } } catch (const CorruptionException &) { thrown = true; }
    sym::check(thrown == bad, "an exception is thrown exactly if a block does not match its hash"); sym::check(bad || (got == good.size() && in.End()), "everything is returned otherwise"); sym::reach(bad ? "bad" : "good"); sym::observe("got", got);
  }
  L.done();
}
void plain_bytes() {
  sym_leak_scope L;
  { u8 d[8], buf[8]; Bytes raw; unsigned n = sym::choice(7, "n"); for (unsigned i = 0; i < n; ++i) raw.push_back(d[i] = sym::any<u8>("b")); VectorInputStream vi(raw); BufferedInputStream in(vi, 1 + sym::choice(4, "block")); unsigned r = 1 + sym::choice(4, "r"), i = 0; for (;;) { std::size_t c = in.Read(buf, r), k = n - i < r ? n - i : r; sym::check(c == k, "count"); for (unsigned j = 0; j < k; ++j) sym::check(buf[j] == d[i + j], "a buffered stream delivers the bytes of the underlying stream"); i += k; if (k < r) break; } sym::check(in.End(), "end"); sym::reach("good"); }
  L.done();
}
struct Crc : Crc64 { using Crc64::Crc64; };
// what was written is altered by a non-zero difference inside one block
void alter(unsigned n, unsigned B, unsigned from, unsigned len) {
  const unsigned m = B - 8; u8 d[16], buf[16]; for (unsigned i = 0; i < n; ++i) d[i] = sym::any<u8>("d"); Crc64 h; Bytes raw = layout(d, n, B, h); unsigned blk = from / B; bool diff = false;
  for (unsigned i = 0; i < len; ++i) { u8 x = sym::any<u8>("x"); diff = diff | (x != 0); raw[from + i] ^= x; }
  sym::assume(diff); VectorInputStream vi(raw); HashInputStream<Crc64> in(vi, B, h); unsigned got = 0; bool thrown = false, ask = sym::choice(2, "end");
  try { while (got <= n) { if (ask && in.End()) break; if (!in.Read(buf, 1)) break; sym::check(got < blk * m && buf[0] == d[got], "only the data of the blocks before is returned"); ++got; } } catch (const CorruptionException &) { thrown = true; }
  sym::check(thrown && got == blk * m, "the altered block is reported"); sym::observe("got", got); sym::reach("end");
}
struct Val { short a; std::string s; AWL_REFLECT(a, s) };
using HI = HashInputStream<Crc64>; using HO = HashOutputStream<Crc64>; using Plainer = PlainSerializable<Val, HI, HO>; using Holder = HashingSerializable<>;
Bytes store(Val &v, unsigned B) { Bytes raw; VectorOutputStream o(raw); Plainer p(v); Holder(p, B).Write(o); return raw; }
void genval(Val &v, unsigned l) { lim = l; gen(v); }
bool load(Val &v, const Bytes &raw, unsigned B, bool &end) { VectorInputStream i(raw); Plainer p(v); Holder h(p, B); try { h.Read(i); } catch (const IoException &) { return false; } end = i.End(); return true; }
struct Failing : SequentialOutputStream { unsigned left; Bytes got; Failing(unsigned n) : left(n) {} void Write(const uint8_t *p, std::size_t n) override { if (!left) throw IoError(_T("full")); --left; got.insert(got.end(), p, p + n); } };
}
HARNESS(split_hash) { switch (sym::choice(3, "block")) { case 0: split<Small>(2); break; case 1: split<Small>(3, Small(sym::any<u8>("seed"))); break; default: split<Small>(4); } }
HARNESS(split_buffer) { split<FakeHash>(1 + sym::choice(4, "block")); }
HARNESS(split_crc) { unsigned B = 9 + sym::choice(4, "block"); Crc64 h(sym::any<u64>("seed")); split<Crc64>(B, h); }
HARNESS(any_stream) { arbitrary(); }
HARNESS(any_buffer) { plain_bytes(); }
HARNESS(alter_data) { unsigned m = 1 + sym::choice(3, "m"), n = 1 + sym::choice(4, "n"), B = m + 8; unsigned full = n / m * B, total = full + (n % m ? n % m + 8 : 0); unsigned from = sym::choice(total, "from"); unsigned end = from / B * B + B < total ? from / B * B + B : total; unsigned data = end - 8, len = from < data ? (sym::choice(2, "cross") ? 2 : data - from) : end - from; if (from + len > end) len = end - from; alter(n, B, from, len); }
HARNESS(alter_hash) { alter(2, 12, 2, 8); }
HARNESS(cut_crc) { // the rest of the cut block is either too short, or it is reported unless it is a valid block by itself
  u8 d[4], buf[8]; unsigned n = 1 + sym::choice(4, "n"); for (unsigned i = 0; i < n; ++i) d[i] = sym::any<u8>("d"); Crc64 h; const unsigned B = 10; Bytes raw = layout(d, n, B, h); unsigned k = sym::choice((unsigned)raw.size(), "cut"); raw.resize(k); unsigned whole = k / B * B, rest = k - whole; VectorInputStream vi(raw); HashInputStream<Crc64> in(vi, B, h); bool thrown = false; std::size_t c = 0; try { c = in.Read(buf, 8); } catch (const CorruptionException &) { thrown = true; }
  bool valid = rest == 0; if (rest >= 8) { auto v = h(raw.begin() + whole, raw.end() - 8); valid = true; for (unsigned i = 0; i < 8; ++i) valid = valid & (v[i] == raw[k - 8 + i]); }
  sym::check(thrown == !valid, "a cut block that does not match its hash is reported"); if (!thrown) { sym::check(c == whole / B * 2 + (rest ? rest - 8 : 0) && c < n, "fewer bytes than were written"); for (unsigned i = 0; i < c; ++i) sym::check(buf[i] == d[i], "no altered data"); } sym::observe("c", c); sym::reach("end"); }
HARNESS(holder_trip) { sym_leak_scope L; { Val a{}, b{}; genval(a, 2); genval(b, 1); unsigned B = 9 + sym::choice(THOROUGH ? 16 : 5, "block"); Bytes raw = store(a, B); bool end = false; sym::check(load(b, raw, B, end) && end && eq(a, b), "the value is read back and the stream is consumed"); sym::observe("size", raw.size()); } L.done(); sym::reach("end"); }
HARNESS(holder_alter) { sym_leak_scope L; { Val a{}, b{}; genval(a, 1); genval(b, 1); Val c = b; const unsigned B = 13; Bytes raw = store(a, B); unsigned i = sym::choice((unsigned)raw.size(), "at"); u8 x = sym::any<u8>("x"); sym::assume(x != 0); raw[i] ^= x; bool end; sym::check(!load(b, raw, B, end), "an altered byte is reported"); sym::check(eq(b, c), "the held value is unchanged"); } L.done(); sym::reach("end"); }
HARNESS(holder_cut) { sym_leak_scope L; { Val a{}, b{}; genval(a, 1); genval(b, 1); Val c = b; const unsigned B = 13; Bytes raw = store(a, B); unsigned k = sym::choice((unsigned)raw.size(), "cut"); raw.resize(k); bool end; sym::check(!load(b, raw, B, end), "a truncated stream is reported"); sym::check(eq(b, c), "the held value is unchanged"); } L.done(); sym::reach("end"); }
HARNESS(write_fails) { sym_leak_scope L; { Val a{}; genval(a, 2); Plainer p(a); const unsigned B = 12; Bytes raw = store(a, B); unsigned blocks = (unsigned)((raw.size() + B - 1) / B), k = sym::choice(6, "k"); Failing f(k); bool thrown = false; try { Holder(p, B).Write(f); } catch (const IoException &) { thrown = true; } sym::check(thrown == (k < blocks), "a block that cannot be written is reported"); std::size_t e = k * B < raw.size() ? k * B : raw.size(); sym::check(f.got.size() == e, "size"); for (std::size_t i = 0; i < e; ++i) sym::check(f.got[i] == raw[i], "what was written is the beginning of the stream"); sym::reach(thrown ? "thrown" : "passed"); } L.done(); }
HARNESS(after_failure) { // reading again after a corrupted block was reported returns nothing of that block
  sym_leak_scope L; { Small h; const unsigned B = 3; u8 d[4]; for (auto &x : d) x = sym::any<u8>("d"); Bytes raw = layout(d, 4, B, h); unsigned at = sym::choice(6, "at"); u8 x = sym::any<u8>("x"); raw[at] ^= x; unsigned blk = at / B; VectorInputStream vi(raw); HashInputStream<Small> in(vi, B, h); u8 buf[4] = {}; unsigned r = 1 + sym::choice(4, "r"); bool thrown = false; try { while (in.Read(buf, r) == r); } catch (const CorruptionException &) { thrown = true; } sym::check(thrown == (x != 0), "reported");
    if (thrown) { unsigned c = 0; try { c = (unsigned)in.Read(buf, 4); } catch (const CorruptionException &) {} sym::check(c == 0 || (blk == 0 && c == 2 && buf[0] == d[2] && buf[1] == d[3]), "nothing of the altered block is returned later"); } } L.done(); sym::reach("end"); }
