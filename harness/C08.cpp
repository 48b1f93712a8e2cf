//! entry save_fails shards=8 time=200 reach=threw,saved
//! entry load_fails shards=4 time=200 reach=threw,loaded,none
//! entry optional shards=8 time=200 reach=failed,saved
//! entry optional_open shards=4 time=200 reach=opened,failed
//! entry atomic_open time=100 reach=opened,failed
//! entry stream_ops shards=8 time=200 reach=end,threw
//! entry stream_short shards=4 time=100 reach=end
//! entry handles time=100 reach=end
//! flags -std=gnu++20
//! bound saves and loads: any one system call fails (a write: with an error or after any shorter count) in a session with 0 or 1 earlier saves, byte vectors of up to 2 arbitrary bytes, one or two hash blocks
//! bound native streams: three (thorough: four) operations out of read, write, seek, move, truncate, flush, length, position, end on a file of 0..3 arbitrary bytes, arguments up to 4, any one call failing; reads with every pattern of short counts over 5 bytes; handles: five operations on three handles
//! stub the POSIX calls (open, close, lseek, fstat, read, write, ftruncate, fsync, access) are harness/fs.h, a file system in memory that fails on request; natively the same
//! assume closing a file does not fail
#include "sym.h"
#include "fs.h"
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/PersistentObject.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/AtomicStorage.cpp"
#include "Awl/Io/OptionalStorage.cpp"
namespace {
struct NullLogger : awl::Logger { int warnings = 0; void log(awl::LogLevel l, awl::LogString) override { if (l == awl::LogLevel::Warning) ++warnings; } };
using HI = awl::io::HashInputStream<awl::crypto::Crc64>; using HO = awl::io::HashOutputStream<awl::crypto::Crc64>; using awl::io::UniqueStream;
using V = std::vector<std::uint8_t>;
struct Box { V v; awl::io::PlainSerializable<V, HI, HO> plain{v}; awl::io::HashingSerializable<> hashed; Box(unsigned block) : hashed(plain, block) {} };
V value(unsigned max, const char *nm) { unsigned n = sym::choice(max + 1, "n"); V v; for (unsigned i = 0; i < n; ++i) v.push_back(sym::any<std::uint8_t>(nm)); return v; }
void fail(unsigned n) { memfs::calls = 0; memfs::failed = false; memfs::fail_at = sym::choice(n, "fail"); memfs::fail_short = sym::choice(2, "short"); }
void heal() { memfs::fail_at = -1; }
unsigned opened() { unsigned n = 0; for (auto &f : memfs::fd) if (f.f) ++n; return n; }
struct Session { NullLogger log; awl::io::AtomicStorage s{log}; Box b; Session(unsigned block) : b(block) { s.Open("m", "b"); } bool load() { return s.Load(b.hashed); } };
}
// a save reports success exactly if every call of the system succeeded, and nothing is lost if it did not
HARNESS(save_fails) {
  unsigned block = sym::choice(2, "block") ? 64 : 16; bool first = sym::choice(2, "first"); V v0, v1 = value(2, "new"); bool threw = false;
  { Session s(block); s.load(); if (!first) { v0 = value(1, "old"); s.b.v = v0; s.s.Save(s.b.hashed); } s.b.v = v1; fail(16); try { s.s.Save(s.b.hashed); } catch (const awl::io::IoException &) { threw = true; }
    sym::check(threw == memfs::failed, "a failing call makes the save fail, and only that does"); heal(); sym::check(s.b.v == v1, "the value in memory is untouched");
    if (!threw) sym::check(s.load() && s.b.v == v1, "the saved value is loaded"); }
  sym::check(opened() == 0, "the files are closed"); memfs::reboot(); Session s(block); bool ok = s.load();
  if (!ok) sym::check(first && threw && s.b.v.empty(), "a complete value is loaded"); else sym::check(s.b.v == v1 || (threw && !first && s.b.v == v0), "the old or the new value is loaded"); sym::reach(threw ? "threw" : "saved"); sym::observe("threw", threw);
}
HARNESS(load_fails) {
  unsigned block = sym::choice(2, "block") ? 64 : 16; bool first = sym::choice(2, "first"); V v0; bool threw = false, ok = false;
  { Session s(block); s.load(); if (!first) { v0 = value(2, "old"); s.b.v = v0; s.s.Save(s.b.hashed); s.b.v = {}; } fail(24); try { ok = s.load(); } catch (const awl::io::IoException &) { threw = true; }
    sym::check(!threw || memfs::failed, "only a failing call makes loading fail"); sym::check(memfs::failed || ok == !first, "loading finds the value"); sym::check((!first && s.b.v == v0) || (!ok && s.b.v.empty()), "the complete value or nothing"); heal(); }
  sym::check(opened() == 0, "the files are closed"); Session s(block); sym::check(s.load() == !first && s.b.v == v0, "the value is still there"); sym::reach(threw ? "threw" : ok ? "loaded" : "none"); sym::observe("ok", ok);
}
HARNESS(optional) {
  NullLogger log; unsigned block = 64; V v0 = value(1, "old"), v1 = value(2, "new"); bool failed; { awl::io::OptionalStorage s(log, "m", "b"); Box b(block); sym::check(s.IsOpened() && !s.Load(b.hashed) && s.IsEmpty(), "a new storage"); b.v = v0; s.Save(b.hashed); sym::check(log.warnings == 1 && !s.IsEmpty(), "saved without a warning");
    b.v = v1; fail(16); int w = log.warnings; s.Save(b.hashed); failed = memfs::failed; heal(); sym::check(log.warnings == w + failed, "a failed save is logged, a successful one is not"); }
  awl::io::OptionalStorage s(log); Box b(block); sym::check(s.Open("m", "b"), "the files exist"); sym::check(s.Load(b.hashed) && (b.v == v1 || (failed && b.v == v0)), "the old or the new value is loaded"); sym::reach(failed ? "failed" : "saved"); sym::observe("failed", failed);
}
// nothing can be opened: the program runs with its default values
HARNESS(optional_open) {
  NullLogger log; unsigned block = 64; V v0 = value(1, "old"), v1 = value(1, "new"); unsigned exists = sym::choice(2, "exists"); if (exists) { Session s(block); s.b.v = v0; s.s.Save(s.b.hashed); }
  { awl::io::OptionalStorage s(log); Box b(block); b.v = v1; memfs::fail_reads = false; fail(3); bool ex = s.Open("m", "b"); bool failed = memfs::failed; heal(); sym::check(s.IsOpened() == !failed, "opened unless the system failed"); sym::check(failed ? !ex : ex == (bool)exists, "whether a file existed");
    bool ok = s.Load(b.hashed); sym::check(ok == (!failed && exists), "a value is loaded if there is one"); sym::check(b.v == (ok ? v0 : v1), "the defaults are kept if nothing is loaded"); b.v = v1; s.Save(b.hashed); s.Close(); sym::check(!s.IsOpened() && opened() == 0, "closed");
    Session t(block); bool has = t.load(); sym::check(has == (!failed || exists), "saved if it was opened"); if (has) sym::check(t.b.v == (failed ? v0 : v1), "saved if it was opened"); sym::reach(failed ? "failed" : "opened"); }
  sym::check(opened() == 0, "the files are closed");
}
HARNESS(atomic_open) {
  NullLogger log; { awl::io::AtomicStorage s(log); unsigned which = sym::choice(4, "exists"); if (which & 1) UniqueStream t(awl::io::CreateUniqueFile("m")); if (which & 2) UniqueStream t(awl::io::CreateUniqueFile("b")); sym::check(!s.IsOpened(), "not opened"); fail(3); bool threw = false, ex = false; try { ex = s.Open("m", "b"); } catch (const awl::io::IoException &) { threw = true; }
    sym::check(threw == memfs::failed && s.IsOpened() == !threw, "opened, or an exception"); heal(); if (threw) sym::check(opened() == 0, "nothing stays open"); else { sym::check(ex == (which != 0), "whether a file existed"); sym::check(s.IsEmpty(), "empty files"); awl::io::AtomicStorage t(std::move(s)); sym::check(t.IsOpened() && !s.IsOpened() && opened() == 2, "moved"); t.Close(); sym::check(!t.IsOpened() && opened() == 0, "closed"); s = std::move(t); }
    bool none = false; try { auto h = awl::io::OpenUniqueFile("x"); } catch (const awl::io::IoException &) { none = true; } sym::check(none, "a file that does not exist cannot be opened for reading"); sym::reach(threw ? "failed" : "opened"); }
  sym::check(opened() == 0, "the files are closed");
}
HARNESS(stream_ops) {
  V m = value(3, "data"); long pos = 0; { UniqueStream s(awl::io::CreateUniqueFile("f")); sym::check(!awl::io::OpenedExisting(), "a new file"); if (!m.empty()) s.Write(m.data(), m.size()); s.Seek(0); fail(6);
    for (unsigned k = 0; k < (THOROUGH ? 4 : 3) && !memfs::failed; ++k) {
      unsigned op = sym::choice(9, "op"), n = op == 2 || op == 3 || op < 2 ? sym::choice(op == 3 ? 3 : op == 2 ? 4 : 3, "n") : 0; bool threw = false; std::uint8_t b[4] = {}; V before = m; long at = pos;
      try {
        switch (op) {
        case 0: { if (pos > (long)m.size()) break; unsigned want = std::min<size_t>(n, m.size() - pos); sym::check(s.Read(b, n) == want, "the number of bytes read"); bool ok = true; for (unsigned i = 0; i < want; ++i) ok = ok && b[i] == m[pos + i]; sym::check(ok, "the bytes read"); pos += want; break; }
        case 1: for (unsigned i = 0; i < n; ++i) b[i] = sym::any<std::uint8_t>("w"); s.Write(b, n); if (n) { if (m.size() < pos + n) m.resize(pos + n); for (unsigned i = 0; i < n; ++i) m[pos + i] = b[i]; pos += n; } break;
        case 2: s.Seek(n); pos = n; break;
        case 3: if (pos + (long)n - 1 < 0) break; s.Move((long)n - 1); pos += (long)n - 1; break;
        case 4: s.Truncate(); m.resize(pos); break;
        case 5: s.Flush(); { auto &f = memfs::node[0]; sym::check(f.np == 0 && f.dur.n == m.size(), "flushed to the disk"); } break;
        case 6: sym::check(s.GetLength() == m.size(), "length"); break;
        case 7: sym::check(s.GetPosition() == (std::size_t)pos, "position"); break;
        default: sym::check(s.End() == (pos == (long)m.size()), "at the end"); break;
        }
      } catch (const awl::io::IoException &) { threw = true; }
      sym::check(threw == memfs::failed, "a failing call is reported"); if (threw) { sym::reach("threw"); m = before; pos = at; if (op == 1) return; }
    } heal(); auto &f = memfs::node[0]; sym::check(f.vis.n == m.size(), "file size"); bool ok = true; for (unsigned i = 0; i < m.size(); ++i) ok = ok && f.vis.d[i] == m[i]; sym::check(ok, "file content"); UniqueStream t; t = std::move(s); sym::check(!(t == UniqueStream{}) && s == UniqueStream{} && opened() == 1, "moved"); }
  sym::check(opened() == 0, "closed"); sym::reach("end");
}
HARNESS(stream_short) {
  std::uint8_t d[5], got[8] = {}; for (auto &x : d) x = sym::any<std::uint8_t>("d"); { UniqueStream s(awl::io::CreateUniqueFile("f")); s.Write(d, 5); } memfs::short_reads = true; UniqueStream s(awl::io::OpenUniqueFile("f")); unsigned n = 0;
  for (unsigned k = 0; k < 6 && !s.End(); ++k) { std::size_t r = s.Read(got + n, sym::range(1, 3, "count")); sym::check(r >= 1 && r <= 3, "progress"); n += r; } sym::check(n == 5 && s.Read(got + 5, 1) == 0, "all bytes"); bool ok = true; for (unsigned i = 0; i < 5; ++i) ok = ok && got[i] == d[i]; sym::check(ok, "the bytes that the system delivered, in order");
  bool threw = false; try { s.Write(d, 1); } catch (const awl::io::IoException &) { threw = true; } sym::check(threw, "a file that was opened for reading is not written"); sym::reach("end"); sym::observe("n", n);
}
HARNESS(handles) {
  { awl::io::UniqueFileHandle h[3]; bool open[3] = {}; unsigned n = 0; for (unsigned k = 0; k < (THOROUGH ? 7 : 5); ++k) {
      unsigned i = sym::choice(3, "i"), j = (i + 1) % 3; switch (sym::choice(4, "op")) {
      case 0: if (n < 3) { h[i] = awl::io::CreateUniqueFile("f"); n += !open[i]; open[i] = true; } break;
      case 1: h[i].Close(); n -= open[i]; open[i] = false; break;
      case 2: h[i] = std::move(h[j]); if (open[i]) --n; open[i] = open[j]; open[j] = false; break;
      default: { awl::io::UniqueFileHandle t(std::move(h[i])); sym::check((bool)t == open[i], "moved"); n -= open[i]; open[i] = false; } }
      for (unsigned a = 0; a < 3; ++a) sym::check((bool)h[a] == open[a] && ((awl::io::HANDLE)h[a] == awl::io::NullHandleValue) == !open[a], "whether a handle is open"); sym::check(opened() == n, "every handle is closed exactly once"); } }
  sym::check(opened() == 0, "every handle is closed"); sym::reach("end");
}
