// A file system in memory that stands in for the system calls of Platforms/Posix. It knows what has been made durable by fsync, can lose
// or tear everything that has not (a crash at any operation), can fail any call, and can return short counts. Natively it runs the same
// way, so no real file is ever touched. Include it before every Awl header that uses the system calls.
#pragma once
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <functional>
#include <mutex>
#include <optional>
#include <tuple>
#include <variant>
#include <chrono>
#include <filesystem>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
namespace memfs {
constexpr unsigned Cap = 192, MaxPending = 8;
struct Image { std::uint8_t d[Cap]; unsigned n = 0; };
struct Op { unsigned char kind; unsigned pos, n; std::uint8_t d[Cap]; }; // 0 write, 1 truncate to pos
struct Node { char name[16] = {}; bool exists = false; Image vis, dur; Op p[MaxPending]; unsigned np = 0; };
struct Fd { Node *f = nullptr; long pos = 0; bool rw = false; };
inline Node node[2]; inline Fd fd[6];
inline bool crash_on = false, dead = false; inline Image disk[2];           // the image that survives a crash
inline int fail_at = -1; inline int calls = 0; inline bool failed = false, fail_short = false; // one failing call
inline bool fail_reads = true, fail_open = true; inline bool short_reads = false;
inline void apply(Image &i, const Op &o, unsigned k) {
  if (o.kind == 1) { if (o.pos > i.n) std::memset(i.d + i.n, 0, o.pos - i.n); i.n = o.pos; return; }
  if (k == 0) return; if (o.pos > i.n) { std::memset(i.d + i.n, 0, o.pos - i.n); } std::memcpy(i.d + o.pos, o.d, k); if (o.pos + k > i.n) i.n = o.pos + k;
}
// what the disk holds after the power has gone: of every operation that was not followed by an fsync, any part may have been written
inline void lose(unsigned f) {
  Node &x = node[f]; Image i = x.dur;
  for (unsigned k = 0; k < x.np; ++k) {
    const Op &o = x.p[k]; if (o.kind == 1) { if (sym::choice(2, "truncated")) apply(i, o, 0); continue; }
    unsigned part = k + 1 == x.np ? sym::choice(o.n + 1, "torn") : (sym::choice(3, "torn") * o.n + 1) / 2; apply(i, o, part);
  }
  disk[f] = i;
}
inline void crash() { for (unsigned f = 0; f < 2; ++f) lose(f); dead = true; }
inline void maybe_crash() { if (crash_on && !dead && sym::choice(2, "crash")) crash(); }
inline void reboot() { for (Fd &f : fd) f = {}; if (dead) for (unsigned f = 0; f < 2; ++f) { node[f].vis = node[f].dur = disk[f]; node[f].np = 0; } dead = false; crash_on = false; }
inline bool fails() { bool f = calls++ == fail_at; if (f) { failed = true; errno = EIO; } return f; }
inline Fd *get(int h) { if (h < 3 || h >= 9 || !fd[h - 3].f) { errno = EBADF; return nullptr; } return &fd[h - 3]; }
inline Node *find(const char *name) { for (Node &n : node) if (n.exists && !std::strcmp(n.name, name)) return &n; return nullptr; }
inline int sym_access(const char *name, int) { if (find(name)) return 0; errno = ENOENT; return -1; }
inline int sym_open(const char *name, int flags, unsigned = 0) {
  if (fail_open && fails()) return -1; Node *n = find(name);
  if (!n) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } for (Node &x : node) if (!x.exists) { n = &x; break; } sym::check(n, "at most two files"); n->exists = true; std::memcpy(n->name, name, std::min<size_t>(15, std::strlen(name) + 1)); }
  if (flags & O_TRUNC) { Op &o = n->p[n->np++]; o.kind = 1; o.pos = 0; apply(n->vis, o, 0); }
  for (int h = 0; h < 6; ++h) if (!fd[h].f) { fd[h] = {n, 0, (flags & O_ACCMODE) != O_RDONLY}; return h + 3; } errno = EMFILE; return -1;
}
inline int sym_close(int h) { Fd *f = get(h); if (!f) return -1; f->f = nullptr; return 0; }
inline off_t sym_lseek(int h, off_t o, int whence) {
  Fd *f = get(h); if (!f || (fail_reads && fails())) return -1; long p = whence == SEEK_SET ? o : whence == SEEK_CUR ? f->pos + o : (long)f->f->vis.n + o; if (p < 0) { errno = EINVAL; return -1; } return f->pos = p;
}
inline int sym_fstat(int h, struct stat *s) { Fd *f = get(h); if (!f || (fail_reads && fails())) return -1; *s = {}; s->st_size = f->f->vis.n; return 0; }
inline ssize_t sym_read(int h, void *b, size_t n) {
  Fd *f = get(h); if (!f || (fail_reads && fails())) return -1; Image &i = f->f->vis; size_t a = f->pos >= (long)i.n ? 0 : i.n - f->pos; if (a > n) a = n; if (short_reads && a > 1) a = 1 + sym::choice(a, "short"); std::memcpy(b, i.d + f->pos, a); f->pos += a; return a;
}
inline ssize_t put(Fd *f, const void *b, size_t n) {
  Node &x = *f->f; sym::check(f->pos >= 0 && f->pos + n <= Cap && x.np < MaxPending, "the model of the file system is large enough");
  Op &o = x.p[x.np++]; o.kind = 0; o.pos = f->pos; o.n = n; std::memcpy(o.d, b, n); if (crash_on && !dead && n) maybe_crash(); apply(x.vis, o, n); f->pos += n; return n;
}
inline ssize_t sym_write(int h, const void *b, size_t n) {
  Fd *f = get(h); if (!f || !f->rw) { errno = EBADF; return -1; } if (fails()) { if (!fail_short || n < 2) { if (n) fail_short = false; errno = ENOSPC; return -1; } n = 1 + sym::choice(n - 1, "written"); } return put(f, b, n);
}
inline int sym_ftruncate(int h, off_t n) {
  Fd *f = get(h); if (!f || !f->rw || n < 0 || fails()) return -1; Node &x = *f->f; sym::check(n <= (off_t)Cap && x.np < MaxPending, "the model of the file system is large enough"); Op &o = x.p[x.np++]; o.kind = 1; o.pos = n; maybe_crash(); apply(x.vis, o, 0); return 0;
}
inline int sym_fsync(int h) { Fd *f = get(h); if (!f || fails()) return -1; maybe_crash(); f->f->dur = f->f->vis; f->f->np = 0; return 0; }
}
using memfs::sym_access; using memfs::sym_open; using memfs::sym_close; using memfs::sym_lseek; using memfs::sym_fstat; using memfs::sym_read; using memfs::sym_write; using memfs::sym_ftruncate; using memfs::sym_fsync;
inline ssize_t sym_pread(int h, void *b, size_t n, off_t o) { memfs::Fd *f = memfs::get(h); if (!f) return -1; long p = f->pos; f->pos = o; ssize_t r = sym_read(h, b, n); f->pos = p; return r; }
inline ssize_t sym_pwrite(int h, const void *b, size_t n, off_t o) { memfs::Fd *f = memfs::get(h); if (!f) return -1; long p = f->pos; f->pos = o; ssize_t r = sym_write(h, b, n); f->pos = p; return r; }
#define access sym_access
#define open sym_open
#define close sym_close
#define lseek sym_lseek
#define fstat sym_fstat
#define read sym_read
#define write sym_write
#define pread sym_pread
#define pwrite sym_pwrite
#define ftruncate sym_ftruncate
#define fsync sym_fsync
#define fdatasync sym_fsync
