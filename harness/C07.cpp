//! entry save_crash shards=8 time=200 reach=old,new,first
//! entry recover_crash shards=8 time=200 reach=old,new,first
//! entry history shards=8 time=300 reach=end,crashed
//! entry failed_save shards=8 time=300 reach=end,threw
//! entry snapshot shards=8 time=200 reach=old,new,first
//! entry object shards=8 time=300 reach=old,new,first
//! flags -std=gnu++20
//! bound values: byte vectors of 0..3 (history: 0..2) arbitrary bytes in one or two hash blocks; snapshots and persistent objects: a structure of an arbitrary int and a string of 0..1 (thorough 0..2) arbitrary characters, written with its type information
//! bound histories: none or one earlier save and a save with a crash; a crash while the crashed save is being recovered; three steps of save, load or reopening with a crash anywhere; a save in which any one system call fails, a second save with a crash; always followed by reopening, loading, another save and another load
//! bound crash points: before, in the middle of and after every write, truncate and fsync; every prefix of the last write that was not yet synced may have reached the disk, of earlier ones nothing, half or everything, and each unsynced truncation may or may not have
//! assume a file is opened and loaded before it is saved for the first time; fsync makes the file durable; reads return what was written; the two files exist or are empty after a crash (directory entries are durable)
//! stub the POSIX calls (open, close, lseek, fstat, read, write, ftruncate, fsync, access) are harness/fs.h, a file system in memory that can lose whatever was not synced; natively the same
#include "sym.h"
#include "fs.h"
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/PersistentObject.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/AtomicStorage.cpp"
namespace {
struct NullLogger : awl::Logger { void log(awl::LogLevel, awl::LogString) override {} };
using HI = awl::io::HashInputStream<awl::crypto::Crc64>; using HO = awl::io::HashOutputStream<awl::crypto::Crc64>;
using V = std::vector<std::uint8_t>;
struct Box { V v; awl::io::PlainSerializable<V, HI, HO> plain{v}; awl::io::HashingSerializable<> hashed; Box(unsigned block) : hashed(plain, block) {} };
struct Rec { std::int32_t i = 0; std::string s; AWL_REFLECT(i, s) bool operator==(const Rec &) const = default; };
V value(unsigned max, const char *nm) { unsigned n = sym::choice(max + 1, "n"); V v; for (unsigned i = 0; i < n; ++i) v.push_back(sym::any<std::uint8_t>(nm)); return v; }
Rec record(unsigned max, const char *nm) { Rec r; r.i = sym::any<std::int32_t>(nm); unsigned n = sym::choice(max + 1, "n"); for (unsigned i = 0; i < n; ++i) r.s.push_back(sym::any<char>(nm)); return r; }
struct Session {
  NullLogger log; awl::io::AtomicStorage s{log}; Box b; Session(unsigned block) : b(block) { s.Open("m", "b"); }
  bool load() { return s.Load(b.hashed); }
  void save(const V &v) { b.v = v; s.Save(b.hashed); }
  const V &get() { return b.v; }
};
struct Mutex : awl::IMutex { int locked = 0; void lock() override { sym::check(!locked, "locked twice"); ++locked; } void unlock() override { sym::check(locked, "unlocked twice"); --locked; } };
struct SnapSession {
  NullLogger log; awl::io::AtomicStorage s{log}; Rec r; awl::io::EuphoricallySerializable<Rec> e; Mutex m; SnapSession(unsigned block) : e(r, block) { s.Open("m", "b"); }
  bool load() { return s.Load(e); }
  void save(const Rec &x) { r = x; s.Save(e, &m); sym::check(!m.locked, "the mutex is released"); }
  const Rec &get() { return r; }
};
struct ObjSession {
  NullLogger log; awl::io::PersistentObject<Rec> o; ObjSession(unsigned block) : o(log, awl::io::Header{"T", 1}, block) { o.open("m"); }
  bool load() { return o.load(); }
  void save(const Rec &x) { *o = x; o.save(); }
  const Rec &get() { return *o; }
};
// after whatever happened: reopening yields one of the acceptable values, and saving and loading work as if nothing had happened
template <class S, class T> T settle(unsigned block, bool first, const std::vector<T> &any, const T &next) {
  memfs::reboot(); T got{}; { S s(block); bool ok = s.load(); got = s.get(); if (!ok) { sym::check(first, "a complete value is loaded"); sym::check(got == T{}, "the value is not touched"); } else { bool found = false; for (const T &a : any) if (a == got) found = true; sym::check(found, "the old or the new value is loaded"); } }
  { S s(block); bool ok = s.load(); sym::check((ok || first) && s.get() == got, "loading again yields the same value"); s.save(next); sym::check(s.load() && s.get() == next, "a saved value is loaded"); } { S s(block); sym::check(s.load() && s.get() == next, "a saved value is loaded after reopening"); }
  return got;
}
template <class S, class T, class G> void crash(G gen, const T &next, unsigned block) {
  bool first = sym::choice(2, "first"); T v0{}, v1 = gen("new");
  if (!first) { v0 = gen("old"); S s(block); sym::check(!s.load(), "nothing to load"); s.save(v0); } memfs::reboot();
  { S s(block); sym::check(s.load() == !first && s.get() == v0, "the value before the crash"); memfs::crash_on = true; s.save(v1); memfs::maybe_crash(); } bool stopped = memfs::dead;
  std::vector<T> any{v1}; if (!first && stopped) any.push_back(v0); T got = settle<S, T>(block, first && stopped, any, next); sym::reach(got == v1 ? "new" : first ? "first" : "old"); sym::observe("stopped", stopped);
}
}
HARNESS(save_crash) { unsigned block = sym::choice(2, "block") ? 64 : 16; crash<Session, V>([](const char *nm) { return value(THOROUGH ? 4 : 3, nm); }, V{1, 2}, block); }
HARNESS(snapshot) { unsigned block = THOROUGH && sym::choice(2, "block") ? 64 : 192; crash<SnapSession, Rec>([](const char *nm) { return record(THOROUGH ? 2 : *nm == 'n', nm); }, Rec{5, "next"}, block); }
HARNESS(object) { crash<ObjSession, Rec>([](const char *nm) { return record(THOROUGH ? 2 : *nm == 'n', nm); }, Rec{5, "next"}, 192); }
HARNESS(recover_crash) {
  unsigned block = THOROUGH && sym::choice(2, "block") ? 16 : 64; bool first = sym::choice(2, "first"); V v0, v1{sym::any<std::uint8_t>("new")};
  if (!first) { v0 = value(2, "old"); Session s(block); s.load(); s.save(v0); } memfs::reboot();
  { Session s(block); s.load(); memfs::crash_on = true; s.save(v1); } memfs::reboot();
  { Session s(block); memfs::crash_on = true; s.load(); } std::vector<V> any{v1}; if (!first) any.push_back(v0); V got = settle<Session, V>(block, first, any, V{7}); sym::reach(got == v1 ? "new" : first ? "first" : "old");
}
HARNESS(history) {
  unsigned block = 64; V cur; bool none = true; std::vector<V> any; bool any_none = false; { auto s = std::make_unique<Session>(block); s->load(); memfs::crash_on = true;
    for (unsigned k = 0; k < (THOROUGH ? 4 : 3); ++k) {
      bool dead = memfs::dead; unsigned op = sym::choice(3, "op");
      if (op == 0) { V v = value(2, "v"); s->save(v); if (!dead && memfs::dead) { any = {cur, v}; any_none = none; } cur = v; none = false; }
      else { if (op == 2) { s.reset(); s = std::make_unique<Session>(block); } bool ok = s->load(); sym::check(ok == !none && s->get() == cur, "the last saved value is loaded"); if (!dead && memfs::dead) { any = {cur}; any_none = none; } }
    } }
  if (memfs::dead) sym::reach("crashed"); else { any = {cur}; any_none = none; } settle<Session, V>(block, any_none, any, V{9}); sym::reach("end");
}
// the disk is full or broken for a moment: the save fails, the program goes on and saves again, and stops in the middle of that
HARNESS(failed_save) {
  unsigned block = 64; V v0{sym::any<std::uint8_t>("a")}, v1{sym::any<std::uint8_t>("b"), 1}, v2{sym::any<std::uint8_t>("c")}; bool threw = false; { Session s(block); s.load(); s.save(v0); memfs::fail_reads = false; memfs::calls = 0; memfs::fail_at = sym::choice(12, "fail"); bool moved = sym::choice(2, "variant"); memfs::fail_short = moved;
    try { s.save(v1); } catch (const awl::io::IoException &) { threw = true; } sym::check(threw == memfs::failed, "a failing call makes the save fail"); memfs::fail_at = -1; if (moved) { awl::io::AtomicStorage t(std::move(s.s)); s.s = std::move(t); } memfs::crash_on = true; s.save(v2); memfs::maybe_crash(); }
  bool stopped = memfs::dead; std::vector<V> any{v2}; if (stopped) { any.push_back(v1); if (threw) any.push_back(v0); } settle<Session, V>(block, false, any, V{9}); if (threw) sym::reach("threw"); sym::reach("end");
}
