//! entry rescale64 shards=2 time=80 reach=exact,thrown
//! entry rescale32 time=80 reach=exact,thrown
//! entry round64 shards=2 time=80 reach=end
//! entry round32 time=60 reach=end
//! entry normal time=60 reach=end
//! entry nanoseconds time=60 reach=exact,thrown
//! entry wide_round shards=2 time=80 reach=end
//! entry wide_rescale shards=2 time=80 reach=exact,thrown
//! entry wide_extend shards=2 time=80 reach=exact,thrown
//! flags -std=gnu++20
//! bound every mantissa and sign, every pair of digit counts up to the maximum and beyond it, of decimal<uint64_t,4>, decimal<uint32_t,3> and decimal<uint128_t,5> (digits added to the wide one: mantissas up to 9 and within 5 of the largest that fits)
#include "dec.h"
#include "Awl/DecimalTime.h"
using namespace dec;
namespace {
i128 tdiv(i128 a, i128 b) { return a / b; }
i128 fdiv(i128 a, i128 b) { i128 q = a / b; return a % b != 0 && a < 0 ? q - 1 : q; }
i128 cdiv(i128 a, i128 b) { i128 q = a / b; return a % b != 0 && a > 0 ? q + 1 : q; }
// rescale (with and without the check), extend, the mantissa for a digit count
template <class T> void rescale(unsigned n) {
  unsigned e = (unsigned)sym::choice(n, "e"), d = (unsigned)sym::choice(n + 2, "d"), op = sym::choice(4, "op"); T a = make<T>(e, "a"), before = a, r; i128 m = a.negative() ? -(i128)a.unsigned_mantissa() : (i128)a.unsigned_mantissa(), max = T::max_mantissa(), want; bool ok = true; unsigned digits = d;
  if (d > e) { ok = d < n; want = ok ? m * (i128)pow10(d - e) : 0; if (want > max || want < -max) ok = false; }
  else if (op == 1) { want = m; digits = e; }                                             // extend never removes digits
  else { i128 den = pow10(e - d); want = tdiv(m, den); if (op != 2) ok = m % den == 0; } // removing digits is checked, or truncates
  typename T::Int man = 0;
  bool t = throws([&] { if (op == 0) r = a.rescale((u8)d); else if (op == 1) r = a.extend((u8)d); else if (op == 2) r = a.rescale((u8)d, false); else man = a.rescaled_mantissa((u8)d); });
  sym::check(a.to_bits() == before.to_bits(), "the operand is unchanged");
  if (t) { sym::check(!ok, "throws only when the value does not fit"); sym::reach("thrown"); return; }
  sym::check(ok, "throws when the value does not fit");
  if (op == 3) sym::check((i128)man == want, "rescaled mantissa"); else sym::check(r.exponent() == digits && scaled(r, digits) == want, "rescaled value");
  sym::reach("exact");
}
template <class T> void round(unsigned n) {
  unsigned e = (unsigned)sym::choice(n, "e"), d = (unsigned)sym::choice(n + 1, "d"), op = sym::choice(3, "op"); T a = make<T>(e, "a"), r; i128 m = a.negative() ? -(i128)a.unsigned_mantissa() : (i128)a.unsigned_mantissa();
  r = op == 0 ? a.truncate((u8)d) : op == 1 ? a.floor((u8)d) : a.ceil((u8)d);
  if (d >= e) { sym::check(r.to_bits() == a.to_bits(), "nothing to round"); sym::reach("end"); return; }
  i128 den = pow10(e - d), want = op == 0 ? tdiv(m, den) : op == 1 ? fdiv(m, den) : cdiv(m, den);
  sym::check(r.exponent() == d && scaled(r, d) == want, op == 0 ? "truncate" : op == 1 ? "floor" : "ceil"); sym::reach("end");
}
}
HARNESS(rescale64) { rescale<D>(16); }
HARNESS(rescale32) { rescale<S>(8); }
HARNESS(round64) { round<D>(16); }
HARNESS(round32) { round<S>(8); }
// the wide decimal, digits removed; the divisors do not fit into 64 bits when more than 19 are removed
HARNESS(wide_round) {
  unsigned e = (unsigned)sym::choice(32, "e"), d = (unsigned)sym::choice(33, "d"), op = sym::choice(3, "op");
  W a = wmake(e, "a"), r; u128 m = a.unsigned_mantissa(); r = op == 0 ? a.truncate((u8)d) : op == 1 ? a.floor((u8)d) : a.ceil((u8)d);
  if (d >= e) { sym::check(r.to_bits() == a.to_bits(), "nothing to round"); sym::reach("end"); return; }
  u128 den = wpow10(e - d), want = m / den; bool away = op == 1 ? a.negative() : op == 2 ? a.positive() : false; if (away && m % den != 0) ++want;
  sym::check(r.exponent() == d && r.unsigned_mantissa() == want && (want == 0 || r.negative() == a.negative()), op == 0 ? "truncate" : op == 1 ? "floor" : "ceil"); sym::reach("end");
}
HARNESS(wide_rescale) {
  unsigned e = (unsigned)sym::choice(32, "e"), op = sym::choice(2, "op"), k = (unsigned)sym::choice(e + 1, "removed"); W a = wmake(e, "a"), r; u128 m = a.unsigned_mantissa(), den = wpow10(k); unsigned d = e - k;
  if (throws([&] { r = a.rescale((u8)d, op == 0); })) { sym::check(op == 0 && m % den != 0, "throws only when digits would be lost"); sym::reach("thrown"); return; }
  sym::check(op == 1 || m % den == 0, "throws when digits would be lost"); sym::check(r.exponent() == d && r.unsigned_mantissa() == m / den && (m / den == 0 || r.negative() == a.negative()), "rescaled value"); sym::reach("exact");
}
HARNESS(wide_extend) {
  unsigned e = (unsigned)sym::choice(32, "e"), d = e + 1 + (unsigned)sym::choice(32 - e, "added"); u128 max = W::max_mantissa(), m = sym::range(0, 9, "m"); if (d < 32 && sym::choice(2, "edge")) m += max / wpow10(d - e) - 5; sym::assume(m <= max); W a((u8)e), r; a.set_unsigned_mantissa(m); if (sym::any<bool>("negative")) a.negate(); bool ok = d < 32 && m <= max / wpow10(d - e);
  if (throws([&] { r = a.extend((u8)d); })) { sym::check(!ok, "throws only when the value does not fit"); sym::reach("thrown"); return; }
  sym::check(ok, "throws when the value does not fit"); sym::check(r.exponent() == d && r.unsigned_mantissa() == m * wpow10(d - e) && (m == 0 || r.negative() == a.negative()), "extended value"); sym::reach("exact");
}
HARNESS(nanoseconds) {
  unsigned e = (unsigned)sym::choice(16, "e"); D a = make<D>(e, "a"); i128 m = a.negative() ? -(i128)a.unsigned_mantissa() : (i128)a.unsigned_mantissa(), max = D::max_mantissa(), want = e <= 9 ? m * (i128)pow10(9 - e) : tdiv(m, pow10(e - 9)); std::chrono::nanoseconds ns{};
  if (throws([&] { ns = awl::decimal_to_nanoseconds(a); })) { sym::check(want > max || want < -max, "a duration that fits is delivered"); sym::reach("thrown"); return; }
  sym::check((i128)ns.count() == want, "nanoseconds"); sym::reach("exact");
}
// equal values have one normal form, and the normal form is equal to the value
HARNESS(normal) {
  unsigned e = (unsigned)sym::choice(16, "e"); D a = make<D>(e, "a"), n = a.normalize();
  sym::check(n.exponent() <= e && scaled(n, e) == scaled(a, e), "normalize keeps the value"); sym::check(n.exponent() == 0 || n.unsigned_mantissa() % 10 != 0, "no trailing zeros"); sym::check(n.unsigned_mantissa() != 0 || (n.exponent() == 0 && n.positive()), "one zero");
  sym::reach("end");
}
