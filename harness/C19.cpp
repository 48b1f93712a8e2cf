//! entry addsub_wide time=80 reach=exact,thrown
//! entry addsub64 shards=2 time=80 reach=exact,thrown
//! entry addsub32 time=80 reach=exact,thrown
//! entry assign time=60 reach=exact,thrown
//! entry mul64 shards=2 time=80 reach=exact,thrown
//! entry mul32 time=80 reach=exact,thrown
//! entry construct time=60 reach=exact,thrown
//! flags -std=gnu++20
//! bound sums of decimal<uint128_t,5> with equal numbers of digits; every mantissa and sign and every pair of digit counts of decimal<uint64_t,4> and decimal<uint32_t,3>
#include "dec.h"
using namespace dec;
namespace {
template <class T> void addsub(unsigned n) {
  unsigned ea = (unsigned)sym::choice(n, "ea"), eb = (unsigned)sym::choice(n, "eb"); T a = make<T>(ea, "a"), b = make<T>(eb, "b"); bool plus = sym::choice(2, "op");
  unsigned e = std::max(ea, eb); i128 x = scaled(a, e), y = scaled(b, e), z = plus ? x + y : x - y, m = T::max_mantissa(); bool fits = x <= m && x >= -m && y <= m && y >= -m && z <= m && z >= -m; T r;
  if (throws([&] { r = plus ? a + b : a - b; })) { sym::check(!fits, "a result that fits is delivered"); sym::reach("thrown"); return; }
  sym::check(r.exponent() == e && scaled(r, e) == z, "exact sum or difference"); sym::reach("exact");
}
template <class T> void mul(unsigned n) {
  unsigned ea = (unsigned)sym::choice(n, "ea"), eb = (unsigned)sym::choice(n, "eb"); T a = make<T>(ea, "a"), b = make<T>(eb, "b"); i128 z = (i128)a.unsigned_mantissa() * (i128)b.unsigned_mantissa(); bool fits = ea + eb < n && z <= (i128)T::max_mantissa(); T r;
  if (throws([&] { r = awl::multiply(a, b); })) { sym::check(!fits, "a product that fits is delivered"); sym::reach("thrown"); return; }
  sym::check(r.exponent() == ea + eb && (i128)r.unsigned_mantissa() == z, "exact product"); sym::check(z == 0 || r.negative() == (a.negative() != b.negative()), "sign of the product"); sym::reach("exact");
}
}
HARNESS(addsub_wide) { // equal numbers of digits: every pair of mantissas
  unsigned e = (unsigned)sym::choice(32, "e"); bool plus = sym::choice(2, "op"); W a = wmake(e, "a"), b = wmake(e, "b"), r; i128 x = (i128)a.unsigned_mantissa(), y = (i128)b.unsigned_mantissa(), m = (i128)W::max_mantissa(); if (a.negative()) x = -x; if (b.negative()) y = -y; i128 z = plus ? x + y : x - y; bool fits = z <= m && z >= -m;
  if (throws([&] { r = plus ? a + b : a - b; })) { sym::check(!fits, "a result that fits is delivered"); sym::reach("thrown"); return; }
  sym::check(fits && r.exponent() == e && (i128)r.unsigned_mantissa() == (z < 0 ? -z : z) && (z == 0 || r.negative() == (z < 0)), "exact sum or difference"); sym::reach("exact");
}
HARNESS(addsub64) { addsub<D>(16); }
HARNESS(addsub32) { addsub<S>(8); }
HARNESS(mul64) { mul<D>(16); }
HARNESS(mul32) { mul<S>(8); }
// += and -= leave the operand unchanged when they throw; negation is exact
HARNESS(assign) {
  static const unsigned ds[] = {0, 1, 5, 9, 15}; unsigned ea = ds[sym::choice(5, "ea")], eb = ds[sym::choice(5, "eb")]; D a = make<D>(ea, "a"), b = make<D>(eb, "b"), c = a; bool plus = sym::choice(2, "op");
  unsigned e = std::max(ea, eb); i128 x = scaled(a, e), y = scaled(b, e), z = plus ? x + y : x - y;
  if (throws([&] { plus ? c += b : c -= b; })) { sym::check(c.to_bits() == a.to_bits(), "unchanged"); sym::reach("thrown"); return; }
  sym::check(scaled(c, e) == z, "+= and -="); D m = -c; sym::check(m.exponent() == c.exponent() && scaled(m, e) == -z, "negation"); m.negate(); sym::check(m.to_bits() == c.to_bits(), "twice"); sym::reach("exact");
}
// the constructor from a mantissa and the representation as bits
HARNESS(construct) {
  unsigned e = (unsigned)sym::choice(16, "e"); std::int64_t v = sym::any<std::int64_t>("v"); i128 m = D::max_mantissa(); D d;
  if (throws([&] { d = D(v, (u8)e); })) { sym::check((i128)v > m || (i128)v < -m, "a mantissa that fits is accepted"); sym::reach("thrown"); return; }
  sym::check(d.mantissa() == v && d.exponent() == e && d.negative() == (v < 0), "the value"); D b = D::from_bits(d.to_bits()); sym::check(b.mantissa() == v && b.exponent() == e, "bits"); sym::reach("exact");
}
