//! entry eq64 shards=4 time=80 reach=end
//! entry eq32 shards=2 time=80 reach=end
//! entry order64 shards=2 time=80 reach=end
//! entry order32 time=80 reach=end
//! entry normal time=60 reach=end
//! flags -std=gnu++20
//! bound every mantissa and sign of decimal<uint64_t,4> and decimal<uint32_t,3>; order: every pair of digit counts; equality: the digit counts {0,1,3,15} and {0,1,2,7} (thorough tier: every pair)
#include "dec.h"
using namespace dec;
namespace {
template <class T> void eq(unsigned a0, unsigned a1, unsigned a2, unsigned a3, unsigned all) {
  unsigned set[4] = {a0, a1, a2, a3}, ea, eb; if (THOROUGH) { ea = (unsigned)sym::choice(all, "ea"); eb = (unsigned)sym::choice(all, "eb"); } else { ea = set[sym::choice(4, "ea")]; eb = set[sym::choice(4, "eb")]; }
  T a = make<T>(ea, "a"), b = make<T>(eb, "b"); unsigned e = std::max(ea, eb); i128 x = scaled(a, e), y = scaled(b, e);
  sym::check((a == b) == (x == y), "=="); sym::check((a != b) == (x != y), "!=");
  sym::reach("end");
}
template <class T> void order(unsigned n) {
  unsigned ea = (unsigned)sym::choice(n, "ea"), eb = (unsigned)sym::choice(n, "eb"); T a = make<T>(ea, "a"), b = make<T>(eb, "b");
  unsigned e = std::max(ea, eb); i128 x = scaled(a, e), y = scaled(b, e);
  switch (sym::choice(4, "op")) {
  case 0: sym::check((a < b) == (x < y), "<"); break;
  case 1: sym::check((a > b) == (x > y), ">"); break;
  case 2: sym::check((a <= b) == (x <= y), "<="); break;
  default: sym::check((a >= b) == (x >= y), ">="); break;
  }
  sym::reach("end");
}
}
HARNESS(eq64) { eq<D>(0, 1, 3, 15, 16); }
HARNESS(eq32) { eq<S>(0, 1, 2, 7, 8); }
HARNESS(order64) { order<D>(16); }
HARNESS(order32) { order<S>(8); }
// equal values have one normal form, and the normal form is equal to the value
HARNESS(normal) {
  unsigned e = (unsigned)sym::choice(16, "e"); D a = make<D>(e, "a"), n = a.normalize();
  sym::check(n.exponent() <= e && scaled(n, e) == scaled(a, e), "normalize keeps the value"); sym::check(n.exponent() == 0 || n.unsigned_mantissa() % 10 != 0, "no trailing zeros"); sym::check(n.unsigned_mantissa() != 0 || (n.exponent() == 0 && n.positive()), "one zero");
  sym::reach("end");
}
