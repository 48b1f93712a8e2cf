// Harness primitives. In the symbolic run they are implemented by the engine; in the native replay by native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __sym_int(const char *name, unsigned bits);          // arbitrary value of the given width
uint64_t __sym_range(uint64_t lo, uint64_t hi, const char *name);  // arbitrary value in [lo, hi] (kept symbolic)
uint64_t __sym_choice(uint64_t n, const char *name);          // arbitrary value in [0, n), one path per value
void __sym_bytes(void *p, size_t n, const char *name);
void __sym_assume(bool c);
void __sym_assert(bool c, const char *msg);
void __sym_observe(const char *tag, uint64_t v);
void __sym_reach(const char *label);
uint64_t __sym_concretize(uint64_t v);
void *__sym_malloc(size_t n);
void *__sym_new(size_t n, int kind);
void __sym_delete(void *p, int kind, size_t size);
void __sym_free(void *p);
void __sym_alloc_cap(size_t n);
uint64_t __sym_live_heap();
void __sym_kv_set(const char *k, uint64_t v);
uint64_t __sym_kv_get(const char *k);
void __sym_preempt_max(unsigned n);
int __sym_native();
void __sym_end();
void __sym_print(const char *tag, uint64_t v);
int __sym_thread_create(void (*f)(void *), void *arg);
void __sym_thread_join(int id);
int __sym_thread_self();
void __sym_yield();
void __sym_spin();                                            // one round of a busy wait
}
#ifdef __cplusplus
namespace sym {
template <class T> inline T any(const char *n) { return static_cast<T>(__sym_int(n, sizeof(T) * 8)); }
template <> inline bool any<bool>(const char *n) { return __sym_int(n, 1) != 0; }
inline uint64_t range(uint64_t lo, uint64_t hi, const char *n) { return __sym_range(lo, hi, n); }
inline unsigned choice(unsigned k, const char *n) { return (unsigned)__sym_choice(k, n); }
inline void assume(bool c) { __sym_assume(c); }
inline void check(bool c, const char *m) { __sym_assert(c, m); }
inline void observe(const char *t, uint64_t v) { __sym_observe(t, v); }
inline void reach(const char *l) { __sym_reach(l); }
}
// Leak check: every heap block allocated inside the scope has been released at its end.
struct sym_leak_scope { uint64_t n; sym_leak_scope() : n(__sym_live_heap()) {} void done(const char *m = "no memory is leaked") { __sym_assert(__sym_live_heap() == n, m); } };
#define HARNESS(name) extern "C" void name()
#endif
