// Native replay runtime: feeds a recorded assignment to the harness linked against the real code.
// Usage: prog ENTRY FILE      (FILE: one "name hexvalue" per line)
#include "sym.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <sanitizer/asan_interface.h>

static std::vector<std::pair<std::string, unsigned long long>> *in;
static size_t pos = 0;
static std::atomic<long long> live{0};
static std::atomic<size_t> cap{(size_t)1 << 16};
static std::atomic<bool> capOn{false};
static std::map<std::string, uint64_t> *kv;
static std::vector<std::thread> *threads;
static thread_local int tid = 0;
static long long allocFail = 0;

static void diverge(const char *n) { fflush(stdout); fprintf(stderr, "DIVERGED at input %zu: harness asks for %s, file has %s\n", pos, n, pos < in->size() ? (*in)[pos].first.c_str() : "<end>"); _exit(77); }
static uint64_t next(const char *n) {
  while (pos < in->size() && (*in)[pos].first == "sched") ++pos;
  if (pos >= in->size() || (*in)[pos].first != n) diverge(n);
  return (*in)[pos++].second;
}
static void *rawNew(size_t n) {
  if (capOn && n > cap) return nullptr;
  if (allocFail > 0 && --allocFail == 0) return nullptr;
  void *p = malloc(n ? n : 1); if (p) ++live; return p;
}
void *operator new(size_t n) { void *p = rawNew(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = rawNew(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return rawNew(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return rawNew(n); }
void operator delete(void *p) noexcept { if (p) { --live; free(p); } }
void operator delete[](void *p) noexcept { if (p) { --live; free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { --live; free(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { --live; free(p); } }

extern "C" {
uint64_t __sym_int(const char *n, unsigned) { return next(n); }
uint64_t __sym_range(uint64_t lo, uint64_t hi, const char *n) { uint64_t v = next(n); if (v < lo || v > hi) diverge(n); return v; }
uint64_t __sym_choice(uint64_t k, const char *n) { uint64_t v = next(n); if (v >= k) diverge(n); return v; }
void __sym_bytes(void *p, size_t n, const char *nm) { for (size_t i = 0; i < n; ++i) ((unsigned char *)p)[i] = (unsigned char)next(nm); }
void __sym_assume(bool c) { if (!c) { fflush(stdout); fprintf(stderr, "ASSUMPTION not met\n"); _exit(76); } }
void __sym_assert(bool c, const char *m) { if (!c) { printf("ASSERT-FAILED %s\n", m); fflush(stdout); _exit(1); } }
void __sym_observe(const char *t, uint64_t v) { printf("OBS %s %llx\n", t, (unsigned long long)v); }
void __sym_reach(const char *) {}
uint64_t __sym_concretize(uint64_t v) { return v; }
void *__sym_malloc(size_t n) { return malloc(n); }
void *__sym_new(size_t n, int) { return rawNew(n); }
void __sym_delete(void *p, int, size_t) { if (p) { --live; free(p); } }
void __sym_free(void *p) { free(p); }
void __sym_alloc_cap(size_t n) { cap = n; capOn = true; }
uint64_t __sym_live_heap() { return (uint64_t)(long long)live; }
void __sym_kv_set(const char *k, uint64_t v) { if (!strcmp(k, "alloc_fail_in")) { allocFail = (long long)v; return; } (*kv)[k] = v; }
uint64_t __sym_kv_get(const char *k) { if (!strcmp(k, "alloc_fail_in")) return allocFail; return (*kv)[k]; }
void __sym_preempt_max(unsigned) {}
int __sym_native() { return 1; }
void __sym_end() { printf("END\n"); fflush(stdout); _exit(0); }
void __sym_print(const char *, uint64_t) {}
int __sym_thread_create(void (*f)(void *), void *a) { int id = threads->size() + 1; threads->emplace_back([=] { tid = id; f(a); }); return id; }
void __sym_thread_join(int id) { (*threads)[id - 1].join(); }
int __sym_thread_self() { return tid; }
void __sym_spin() { std::this_thread::yield(); }
void __sym_yield() { static thread_local unsigned r = (unsigned)(size_t)&r + (unsigned)time(nullptr); r = r * 1103515245u + 12345u; if ((r >> 16) % 3 == 0) std::this_thread::yield(); else if ((r >> 16) % 3 == 1) usleep((r >> 20) % 50); }
}
int main(int argc, char **argv) {
  if (argc < 3) return 78;
  in = new std::vector<std::pair<std::string, unsigned long long>>(); kv = new std::map<std::string, uint64_t>(); threads = new std::vector<std::thread>(); threads->reserve(64);
  std::ifstream f(argv[2]); std::string n, v;
  while (f >> n >> v) { if (n == "#") { std::getline(f, v); continue; } in->push_back({n, strtoull(v.c_str(), 0, 16)}); }
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { fprintf(stderr, "no entry\n"); return 78; }
  e();
  printf("END\n"); fflush(stdout);
  _exit(0);
}
