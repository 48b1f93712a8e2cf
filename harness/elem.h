// Element type owning heap memory: double destruction, use after destruction and leaks become memory errors.
#pragma once
#include "sym.h"
#include <utility>
struct Elem {
  int *p;
  static inline int throw_in = 0; // when it counts down to zero the copy constructor throws
  struct Boom {};
  Elem(int v = 0) : p(new int(v)) {}
  Elem(const Elem &o) { if (throw_in && --throw_in == 0) throw Boom{}; p = new int(*o.p); }
  Elem(Elem &&o) noexcept : p(o.p) { o.p = nullptr; }
  Elem &operator=(const Elem &o) { if (this != &o) { if (throw_in && --throw_in == 0) throw Boom{}; int *q = new int(*o.p); delete p; p = q; } return *this; }
  Elem &operator=(Elem &&o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~Elem() { delete p; }
  int val() const { return *p; }
  bool operator==(const Elem &o) const { return *p == *o.p; }
  friend bool operator<(const Elem &a, const Elem &b) { return *a.p < *b.p; }
  friend bool operator<(const Elem &a, int b) { return *a.p < b; }
  friend bool operator<(int a, const Elem &b) { return a < *b.p; }
};
inline int val(int v) { return v; }
inline int val(const Elem &e) { return e.val(); }
