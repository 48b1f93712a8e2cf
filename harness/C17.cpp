//! entry parse_short time=80 reach=value,thrown
//! entry parse_long shards=4 time=80 reach=value,thrown
//! entry parse_zeros time=60 reach=value,thrown
//! entry parse_wide time=60 reach=value,thrown
//! entry parse_dense shards=4 time=60 reach=value,thrown
//! entry print shards=4 time=80 reach=end
//! entry trip time=80 reach=end
//! flags -std=gnu++20
//! bound parsing: every text of up to 4 characters (every character value), 2, 17 and 18 (8 and 9) arbitrary digits (thorough tier: every number of digits up to 20) (three of them can be zero) with the point in any position (at most two digits after the point are not zero), 0-300 zeros in the fraction; decimal<uint64_t,4>, decimal<uint32_t,3>; also decimal<uint64_t,2> with 1-20 digits that are not zero
//! bound printing: every sign, mantissa and digit count of decimal<uint32_t,3>; every mantissa with 0 and 15 digits of decimal<uint64_t,4> (thorough tier: every digit count); printed and parsed back: mantissas up to 99999 with 0-3 digits (thorough tier: all of decimal<uint32_t,3>)
//! assume a text without any digit is not parsed (its value is not specified)
#include "dec.h"
#include <string>
using namespace dec;
namespace {
// what the text denotes: false when it is not a decimal number
struct Num { bool ok = true, neg = false, any = false; u128 man = 0; unsigned digits = 0; bool big = false; };
template <class C> Num denoted(const C *p, size_t n) {
  Num r; size_t i = 0; if (n && (p[0] == '+' || p[0] == '-')) { r.neg = p[0] == '-'; ++i; }
  bool point = false; size_t frac = 0, used = 0; u128 man = 0, best = 0;
  for (; i < n; ++i) {
    if (p[i] == '.' && !point) { point = true; best = man; used = 0; continue; }
    if (p[i] < '0' || p[i] > '9') { r.ok = false; return r; }
    r.any = true; unsigned d = (unsigned)(p[i] - '0');
    if (!point) { man = man * 10 + d; if (man >> 100) r.big = true; continue; }
    ++frac; if (d) { for (; used < frac - 1; ++used) { man *= 10; if (man >> 100) { r.big = true; return r; } } man = man * 10 + d; if (man >> 100) { r.big = true; return r; } ++used; }   // trailing zeros do not count
  }
  (void)best; r.man = man; r.digits = (unsigned)used; return r;
}
template <class T, class C> void parse(const C *p, size_t n) {
  Num w = denoted(p, n); sym::assume(!w.ok || w.any); T d;
  bool fits = w.ok && !w.big && w.digits <= T::max_exponent() && w.man <= (u128)T::max_mantissa();
  if (throws([&] { d = T(std::basic_string_view<C>(p, n)); })) { sym::check(!fits, "a decimal number that fits is accepted"); sym::reach("thrown"); return; }
  sym::check(fits, "other text is rejected");
  sym::check(d.exponent() == w.digits && (u128)d.unsigned_mantissa() == w.man && d.negative() == w.neg, "the number that the text denotes"); sym::reach("value");
}
}
HARNESS(parse_short) { size_t n = 1 + sym::choice(4, "n"); char s[4]; for (size_t i = 0; i < n; ++i) s[i] = sym::any<char>("c"); if (sym::choice(2, "type")) parse<D>(s, n); else parse<S>(s, n); }
HARNESS(parse_wide) { size_t n = 1 + sym::choice(3, "n"); wchar_t s[4]; for (size_t i = 0; i < n; ++i) s[i] = sym::any<wchar_t>("c"); parse<D>(s, n); }
// many digits: the point in any position, only two digits after it differ from zero
HARNESS(parse_long) {
  bool wide = sym::choice(2, "type"); static const unsigned lens[] = {2, 17, 18}, lens32[] = {8, 9}; size_t n = THOROUGH ? 1 + sym::choice(wide ? 20 : 10, "n") : wide ? lens[sym::choice(3, "n")] : lens32[sym::choice(2, "n")], point = THOROUGH || n == 2 ? sym::choice((unsigned)n + 1, "point") : 0, k = 0; if (!THOROUGH && n > 2) { size_t ps[] = {0, 3, n / 2, n - 1, n}; point = ps[sym::choice(5, "point")]; }
  if (n > point) { size_t r = n - point; k = THOROUGH ? sym::choice((unsigned)r, "k") : sym::choice(r > 1 ? 2 : 1, "k") * (r - 1) / 2; } char s[24]; size_t m = 0;
  unsigned sign = n == 2 || THOROUGH ? sym::choice(3, "sign") : n % 3; if (sign) s[m++] = sign == 1 ? '+' : '-';
  for (size_t i = 0; i < n; ++i) { if (i == point) s[m++] = '.'; if (i < point) s[m++] = (char)sym::range(i < 2 || i == n / 2 ? '0' : '1', '9', "d"); else s[m++] = i - point == k || i == n - 1 ? (char)sym::range('1', '9', "f") : '0'; }
  if (wide) parse<D>(s, m); else parse<S>(s, m);
}
HARNESS(parse_dense) {
  size_t n = 1 + sym::choice(20, "n"), point = sym::choice(3, "point"); char s[24]; size_t m = 0; point = point * n / 2;
  for (size_t i = 0; i < n; ++i) { if (i == point) s[m++] = '.'; s[m++] = (char)sym::range('1', '9', "d"); }
  if (sym::choice(2, "type")) parse<D>(s, m); else parse<awl::decimal<u64, 2>>(s, m);
}
// long runs of zeros do not make a different number
HARNESS(parse_zeros) {
  static const unsigned zs[] = {0, 1, 6, 7, 14, 15, 16, 254, 255, 256, 257, 300}; unsigned z = zs[sym::choice(12, "zeros")], where = sym::choice(3, "where"), tail = sym::choice(2, "tail"); std::string s; 
  char a = (char)sym::range('0', '9', "a"), b = (char)sym::range('0', '9', "b");
  if (where == 0) { s.append(z, '0'); s += a; s += '.'; s += b; } else if (where == 1) { s += a; s += '.'; s.append(z, '0'); s += b; } else { s += a; s += '.'; s += b; s.append(z, '0'); }
  if (tail) s += '0'; parse<D>(s.data(), s.size());
}
namespace {
// the text is exactly: sign, the integer part without leading zeros, the point and as many digits as the exponent says
template <class T> void text(const T &d, const std::string &t) {
  size_t i = 0; if (d.negative()) { sym::check(!t.empty() && t[0] == '-', "sign"); ++i; }
  unsigned e = d.exponent(); size_t n = t.size() - i; sym::check(e ? n >= e + 2u : n >= 1, "length"); size_t ints = e ? n - e - 1 : n;
  u128 man = 0; for (size_t k = 0; k < n; ++k) { char c = t[i + k]; if (e && k == ints) { sym::check(c == '.', "point"); continue; } sym::check(c >= '0' && c <= '9', "digit"); man = man * 10 + (unsigned)(c - '0'); }
  sym::check(ints == 1 || t[i] != '0', "no leading zeros"); sym::check(man == d.unsigned_mantissa(), "digits");
}
}
HARNESS(print) {
  if (sym::choice(2, "type")) { S d = make<S>((unsigned)sym::choice(8, "e"), "a"); text(d, d.to_astring()); }
  else { static const unsigned es[] = {0, 15}; D d = make<D>(THOROUGH ? (unsigned)sym::choice(16, "e") : es[sym::choice(2, "e")], "a"); text(d, d.to_astring()); }
  sym::reach("end");
}
// parsing the printed text gives the same number
HARNESS(trip) { unsigned e = (unsigned)sym::choice(THOROUGH ? 8 : 4, "e"); S d = make<S>(e, "a", THOROUGH ? S::max_mantissa() : 99999); std::string t = d.to_astring(); S r{std::string_view(t)}; sym::check(r.exponent() <= e && scaled(r, e) == scaled(d, e), "parsed back"); sym::reach("end"); }
