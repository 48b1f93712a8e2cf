//! entry plain_cut time=60 reach=end
//! entry plain_alter shards=2 time=90 reach=value,thrown
//! entry plain_fault time=90 reach=value,thrown
//! entry plain_alloc time=90 reach=value,thrown
//! entry vts_cut time=90 reach=end
//! entry vts_alter shards=8 time=240 reach=value,thrown
//! entry vts_fault time=90 reach=value,thrown
//! entry vts_alloc time=90 reach=value,thrown
//! entry fixed_cut time=90 reach=end
//! entry fixed_alter shards=8 time=240 reach=value,thrown
//! entry fixed_fault time=90 reach=value,thrown
//! entry hash_cut shards=2 time=90 qtimeout=60000 reach=end
//! entry hash_alter shards=8 time=120 qtimeout=60000 reach=end
//! entry hash_fault shards=2 time=90 qtimeout=60000 reach=value,thrown
//! entry vts_garbage shards=4 time=240 reach=thrown
//! flags -std=gnu++20
//! bound held and stored values: every value of a structure of a short, a string and a vector (of up to 1 element each, thorough 2); failure points: every truncation point, every value of every single altered byte, every call of the underlying stream failing with an input/output exception or with another one, every allocation failing (up to the 60th)
//! bound vts_garbage: every byte string of up to 13 bytes (thorough 18) as a version tolerant stream
//! assume memory: while altered data is read, an allocation of more than 600 bytes fails with bad_alloc
#include "rw.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Crypto/Crc64.h"
#include <stdexcept>
using namespace rw; using namespace awl::io; using awl::crypto::Crc64;
namespace {
struct Val { short a; std::string s; std::vector<u8> v; AWL_REFLECT(a, s, v) };
// not movable: contains an atomic
struct Fixed { std::atomic<int> n{3}; std::string s; std::optional<u8> o; AWL_REFLECT(n, s, o) };
static_assert(!std::is_move_assignable_v<Fixed>);
void copy(Val &d, const Val &s) { d = s; } void copy(Fixed &d, const Fixed &s) { d.n = s.n.load(); d.s = s.s; d.o = s.o; }
template <class T> Bytes write(const Serializable<> &h) { Bytes r; VectorOutputStream o(r); h.Write(o); return r; }
// fails at the k-th call
struct Faulty : SequentialInputStream {
  VectorInputStream in; unsigned left; bool io; Faulty(const Bytes &b, unsigned k, bool i) : in(b), left(k), io(i) {}
  void tick() { if (!left--) { if (io) throw IoError(_T("read")); throw std::runtime_error("other"); } }
  bool End() override { tick(); return in.End(); }
  std::size_t Read(u8 *p, std::size_t n) override { tick(); return in.Read(p, n); }
};
template <class T> struct Plain_ : PlainSerializable<T> { using PlainSerializable<T>::PlainSerializable; };
template <class T> struct Vts_ : VersionTolerantSerializable<T> { using VersionTolerantSerializable<T>::VersionTolerantSerializable; };
template <class T> struct Hash_ : EuphoricallySerializable<T> { Hash_(T &v) : EuphoricallySerializable<T>(v, 64) {} };
enum class How { cut, alter, fault, alloc };
void shape(Val &v) { v.a = sym::any<short>("a"); v.s = std::string(1, sym::any<char>("c")); v.v = {sym::any<u8>("e")}; } void shape(Fixed &v) { v.n = sym::any<int>("n"); v.s = std::string(1, sym::any<char>("c")); v.o = sym::any<u8>("e"); }
template <template <class> class H, class T> void run(How how, bool rejects = false, bool small = false) {
  lim = THOROUGH && how != How::alter ? 2 : 1; T::get_member_names(); sym_leak_scope L;
  {
    T a{}, held{}, before{}; if (small && !THOROUGH) shape(a); else gen(a); if (small) shape(held); else gen(held); copy(before, held); H<T> ha(a), h(held); Bytes raw = write<T>(ha); bool ok = false; Bytes bad = raw;
    switch (how) {
    case How::cut: bad.resize(sym::choice((unsigned)raw.size(), "cut")); break;
    case How::alter: { unsigned i = sym::choice((unsigned)raw.size(), "at"); u8 x = sym::any<u8>("x"); sym::assume(x != 0); bad[i] ^= x; break; }
    default: break;
    }
    if (how == How::fault) { unsigned k = sym::choice(64, "call"); bool io = sym::choice(2, "kind"); Faulty f(raw, k, io); try { h.Read(f); ok = true; } catch (const std::exception &) {} sym::observe("ok", ok); if (ok) sym::check(f.left < 64 && f.in.End(), "nothing failed"); }
    else if (how == How::alloc) { VectorInputStream s(raw); __sym_kv_set("alloc_fail_in", 1 + sym::choice(60, "alloc")); try { h.Read(s); ok = true; } catch (const std::bad_alloc &) {} __sym_kv_set("alloc_fail_in", 0); }
    else { VectorInputStream s(bad); __sym_alloc_cap(600); try { h.Read(s); ok = true; } catch (const std::exception &) {} __sym_alloc_cap(~(u64)0); }
    if (how == How::cut) sym::check(!ok, "a truncated stream is rejected");
    if (how == How::alter && rejects) sym::check(!ok, "an altered stream is rejected");
    if (ok) { if (how != How::alter) sym::check(eq(held, a), "a successful read yields the written value"); sym::reach("value"); }
    else { sym::check(eq(held, before), "a failed read leaves the held value unchanged"); sym::reach("thrown"); }
    VectorInputStream s(raw); h.Read(s); sym::check(eq(held, a) && s.End(), "the holder can be read again"); 
  }
  L.done(); sym::reach("end");
}
}
HARNESS(plain_cut) { run<Plain_, Val>(How::cut); }
HARNESS(plain_alter) { run<Plain_, Val>(How::alter, false, true); }
HARNESS(plain_fault) { run<Plain_, Val>(How::fault); }
HARNESS(plain_alloc) { run<Plain_, Val>(How::alloc, false, true); }
HARNESS(vts_cut) { run<Vts_, Val>(How::cut); }
HARNESS(vts_alter) { run<Vts_, Val>(How::alter, false, true); }
HARNESS(vts_fault) { run<Vts_, Val>(How::fault); }
HARNESS(vts_alloc) { run<Vts_, Val>(How::alloc, false, true); }
HARNESS(fixed_cut) { run<Vts_, Fixed>(How::cut); }
HARNESS(fixed_alter) { run<Vts_, Fixed>(How::alter, false, true); }
HARNESS(fixed_fault) { run<Vts_, Fixed>(How::fault); }
HARNESS(hash_cut) { run<Hash_, Val>(How::cut, false, true); }
HARNESS(hash_alter) { run<Hash_, Val>(How::alter, true, true); }
HARNESS(hash_fault) { run<Hash_, Fixed>(How::fault, false, true); }
HARNESS(vts_garbage) { Fixed::get_member_names(); sym_leak_scope L; { unsigned n = sym::choice(THOROUGH ? 19 : 14, "n"); Bytes b; for (unsigned i = 0; i < n; ++i) b.push_back(sym::any<u8>("b")); Fixed f; f.n = sym::any<int>("n"); Vts_<Fixed> h(f); int was = f.n; bool ok = false; VectorInputStream s(b); __sym_alloc_cap(600); try { h.Read(s); ok = true; } catch (const std::exception &) {} __sym_alloc_cap(~(u64)0); sym::check(!ok, "too short for anything"); sym::check(f.n == was && f.s.empty() && !f.o, "unchanged"); sym::reach("thrown"); } L.done(); }
