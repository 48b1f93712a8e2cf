// Symbolic decimals: every sign, every mantissa and a chosen number of digits.
#pragma once
#include "sym.h"
#include "Awl/Decimal.h"
#include <string_view>
namespace dec {
using namespace std::literals;
using u8 = std::uint8_t; using u64 = std::uint64_t; using u128 = unsigned __int128; using i128 = __int128;
using D = awl::decimal<u64, 4>; using S = awl::decimal<std::uint32_t, 3>;
constexpr u64 pow10(unsigned e) { u64 r = 1; while (e--) r *= 10; return r; }
template <class T> T make(unsigned digits, const char *name, u64 limit = T::max_mantissa()) { T d((u8)digits); d.set_unsigned_mantissa(sym::range(0, limit, name)); if (sym::any<bool>("negative")) d.negate(); return d; }
// value * 10^(digits of the type - own digits) as an integer
template <class T> i128 scaled(const T &d, unsigned digits) { i128 m = (i128)d.unsigned_mantissa() * (i128)pow10(digits - d.exponent()); return d.negative() ? -m : m; }
// the wide decimal: 122 bits of mantissa, up to 31 digits
using W = awl::decimal<u128, 5>;
constexpr u128 wpow10(unsigned e) { u128 r = 1; while (e--) r *= 10; return r; }
inline W wmake(unsigned digits, const char *name) { u128 m = (u128)sym::range(0, (u64)(W::max_mantissa() >> 64), name) << 64 | sym::any<u64>(name); W d((u8)digits); d.set_unsigned_mantissa(m); if (sym::any<bool>("negative")) d.negate(); return d; }
template <class F> bool throws(F f) { try { f(); } catch (const std::logic_error &) { return true; } return false; }
}
