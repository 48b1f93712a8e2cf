//! entry less_ascii time=90 reach=less,notless
//! entry less_swo time=120 reach=end
//! entry less_wide time=60 reach=end
//! entry equal_ci time=60 reach=equal,different
//! entry less_cs time=60 reach=end
//! entry u128_any shards=4 time=150 reach=end
//! entry i128_any shards=4 time=150 reach=negative,positive
//! entry u128_width time=120 reach=padded,long
//! entry i128_width time=60 reach=end
//! entry fixed_ops time=60 reach=equal,different
//! entry fixed_concat time=60 reach=end
//! entry conv_round time=60 reach=end
//! entry fmt_values time=60 reach=end
//! entry fmt_optional time=60 reach=value,empty
//! bound case-insensitive comparison: all pairs of strings up to 4 characters with character values 1..127 (agreement with lower-casing), all triples up to 2 characters with all 255 non-zero character values (strict weak order)
//! bound 128-bit integers: every unsigned and every signed value (one query set per digit count 1..39 and sign); widths 0..9 with an arbitrary fill character for values 0..99999
//! bound fixed strings: 5 + 3 characters; conversions: all ASCII strings up to 4 characters
//! assume "C" locale; only ASCII text is converted between narrow and wide strings
#include "sym.h"
#include "Awl/String.h"
#include "Awl/StringFormat.h"
#include "Awl/LogString.h"
#include <sstream>
namespace {
template <class C> struct Str { C t[6]; unsigned n; const C *c() const { return t; } };
Str<char> text(unsigned max, int lo, const char *nm) { Str<char> s; s.n = sym::choice(max + 1, "len"); for (unsigned i = 0; i < s.n; ++i) { s.t[i] = sym::any<char>(nm); if (lo > 0) sym::assume(s.t[i] >= lo); else sym::assume(s.t[i] != 0); } s.t[s.n] = 0; return s; }
int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int cmp(const char *a, const char *b) { for (;; ++a, ++b) { int x = low(*a), y = low(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
using u128 = __uint128_t; using i128 = __int128_t;
u128 pow10(unsigned n) { u128 r = 1; while (n--) r *= 10; return r; }
}
HARNESS(less_ascii) {
  auto a = text(THOROUGH ? 5 : 4, 1, "a"), b = text(THOROUGH ? 5 : 4, 1, "b"); awl::CStringInsensitiveLess<char> l;
  bool got = l(a.c(), b.c()); sym::check(got == (cmp(a.c(), b.c()) < 0), "agrees with comparing the lower-cased texts"); sym::reach(got ? "less" : "notless"); sym::observe("got", got);
}
HARNESS(less_swo) {
  auto a = text(2, 0, "a"), b = text(2, 0, "b"), c = text(2, 0, "c"); awl::CStringInsensitiveLess<char> l;
  bool ab = l(a.c(), b.c()), ba = l(b.c(), a.c()), bc = l(b.c(), c.c()), cb = l(c.c(), b.c()), ac = l(a.c(), c.c()), ca = l(c.c(), a.c());
  sym::check(!l(a.c(), a.c()), "irreflexive"); sym::check(!(ab && ba), "asymmetric"); sym::check(!(ab && bc) || ac, "transitive"); sym::check(!(!ab && !ba && !bc && !cb) || (!ac && !ca), "incomparability is transitive");
  sym::check((!ab && !ba) == awl::StringInsensitiveEqual<char>()(a.c(), b.c()), "equality is consistent with the order"); sym::reach("end");
}
HARNESS(less_wide) {
  wchar_t a[3] = {}, b[3] = {}; unsigned n = sym::choice(3, "n"), m = sym::choice(3, "m"); char p[3] = {}, q[3] = {};
  for (unsigned i = 0; i < n; ++i) { p[i] = (char)sym::range(1, 127, "a"); a[i] = p[i]; } for (unsigned i = 0; i < m; ++i) { q[i] = (char)sym::range(1, 127, "b"); b[i] = q[i]; }
  bool got = awl::CStringInsensitiveLess<wchar_t>()(a, b); sym::check(got == (cmp(p, q) < 0), "wide comparison agrees with the narrow one"); sym::check((awl::StringInsensitiveEqual<wchar_t>()(a, b)) == (cmp(p, q) == 0), "wide equality"); sym::reach("end"); sym::observe("got", got);
}
HARNESS(equal_ci) {
  auto a = text(4, 1, "a"), b = text(4, 1, "b"); std::string x(a.c()), y(b.c());
  bool got = awl::StringInsensitiveEqual<char>()(x, y); sym::check(got == (cmp(a.c(), b.c()) == 0), "equal up to letter case"); sym::check(awl::StringInsensitiveEqual<char>()(y, x) == got, "symmetric");
  bool eq = awl::StringEqual<char>()(x, y); sym::check(eq == (x == y), "case sensitive equality"); sym::check(!eq || got, "equal texts are equal up to case"); sym::reach(got ? "equal" : "different"); sym::observe("got", got);
}
HARNESS(less_cs) {
  auto a = text(3, 1, "a"), b = text(3, 1, "b"); bool got = awl::CStringLess<char>()(a.c(), b.c()); sym::check(got == (std::string(a.c()) < std::string(b.c())), "lexicographic order"); sym::check(awl::StrLen(a.c()) == a.n && (awl::StrCmp(a.c(), b.c()) < 0) == got, "length and comparison"); sym::reach("end"); sym::observe("got", got);
}
static std::string str(u128 v) { using awl::operator<<; std::ostringstream o; o << v; return o.str(); }
// Horner's rule over the printed digits; the digit count is fixed, so nothing wraps unless the text is wrong
static bool horner(const std::string &s, std::size_t from, unsigned n, u128 v) {
  bool ok = s.size() == from + n; u128 m = 0; bool over = false; for (unsigned i = 0; i < n; ++i) { unsigned char d = ok ? (unsigned char)(s[from + i] - '0') : 10; ok = ok && d <= 9; if (i == 38) over = m > ~(u128)0 / 10; m = m * 10 + d; if (i == 38) over = over || m < d; } return ok && !over && m == v;
}
static u128 ofDigits(unsigned n, u128 limit) { u128 v = (u128)sym::any<std::uint64_t>("hi") << 64; v |= sym::any<std::uint64_t>("lo"); if (n > 1) sym::assume(v >= pow10(n - 1)); if (n < 39) sym::assume(v < pow10(n)); sym::assume(v <= limit); return v; }
HARNESS(u128_any) {
  unsigned n = 1 + sym::choice(39, "digits"); u128 v = ofDigits(n, ~(u128)0); std::string s = str(v); sym::check(s.size() == n, "number of digits"); sym::check(horner(s, 0, n, v), "exact decimal representation"); sym::reach("end"); sym::observe("n", s.size());
}
HARNESS(u128_width) {
  using awl::operator<<; unsigned v = sym::range(0, 99999, "v"), w = sym::choice(10, "w"); char f = (char)sym::range(1, 127, "fill"); bool left = sym::choice(2, "left"); std::ostringstream o; o << std::setfill(f) << std::setw(w); if (left) o << std::left; o << (u128)v; o << 'x';
  std::string s = o.str(), p = str(v); sym::check(s.back() == 'x', "one number is written"); s.pop_back(); std::size_t pad = w > p.size() ? w - p.size() : 0;
  sym::check(s.size() == p.size() + pad, "padded to the width and no further"); sym::check(s.compare(left ? 0 : pad, p.size(), p) == 0, "the number"); bool ok = true; for (std::size_t i = 0; i < pad; ++i) ok = ok && s[left ? p.size() + i : i] == f; sym::check(ok, "padded with the fill character");
  sym::reach(p.size() > w && w > 1 ? "long" : "padded"); sym::observe("n", s.size());
}
HARNESS(i128_any) {
  using awl::operator<<; unsigned n = 1 + sym::choice(39, "digits"); bool neg = sym::choice(2, "neg"); u128 m = ofDigits(n, ((u128)1 << 127) - !neg); if (neg) sym::assume(m != 0); i128 v = (i128)(neg ? -m : m); std::ostringstream o; o << v; std::string s = o.str();
  sym::check(s.size() == n + neg && (s[0] == '-') == neg, "sign and number of digits"); sym::check(horner(s, neg, n, m), "exact decimal representation"); sym::reach(neg ? "negative" : "positive"); sym::observe("n", s.size());
}
HARNESS(i128_width) {
  using awl::operator<<; int v = sym::any<short>("v"); unsigned w = 1 + sym::choice(5, "w"); std::ostringstream o; o << std::setw(w); bool threw = false; try { o << (i128)v; } catch (const std::runtime_error &) { threw = true; }
  sym::check(threw && o.str().empty(), "a width with a signed 128-bit integer is rejected, and nothing is written"); sym::reach("end");
}
HARNESS(fixed_ops) {
  char a[6] = {}, b[6] = {}; for (unsigned i = 0; i < 5; ++i) { a[i] = sym::any<char>("a"); b[i] = sym::any<char>("b"); } awl::fixed_string<char, 5> x(a), y(b); awl::fixed_string<char, 3> z;
  bool eq = true; for (unsigned i = 0; i < 5; ++i) { sym::check(x[i] == a[i] && x.begin()[i] == a[i], "characters"); if (a[i] != b[i]) eq = false; }
  sym::check((x == y) == eq && (x != y) == !eq, "equality of the characters"); sym::check(!(x == z) && x != z, "different lengths differ"); sym::check(x.size() == 5 && x.end() - x.begin() == 5 && x.c_str()[5] == 0 && x.c_str() == x.data(), "size and terminator");
  std::string s = x; std::string_view v = x; sym::check(s.size() == 5 && s == std::string(a, 5) && v == s, "conversion to strings"); unsigned k = sym::range(0, 4, "k"); char c = sym::any<char>("c"); x[k] = c; bool ok = true; for (unsigned i = 0; i < 5; ++i) ok = ok && x[i] == (i == k ? c : a[i]); sym::check(ok, "assignment to one character");
  sym::reach(eq ? "equal" : "different"); sym::observe("eq", eq);
}
HARNESS(fixed_concat) {
  char a[6] = {}, b[4] = {}; for (unsigned i = 0; i < 5; ++i) a[i] = sym::any<char>("a"); for (unsigned i = 0; i < 3; ++i) b[i] = sym::any<char>("b");
  awl::fixed_string<char, 5> x(a); auto y = awl::fixed_string<char, 3>::from_ascii(b); auto s = x + y, t = y + awl::fixed_string<char, 5>(a); bool ok = s.size() == 8;
  static_assert(std::is_same_v<decltype(x + y), awl::fixed_string<char, 8>>);
  for (unsigned i = 0; i < 8; ++i) ok = ok && s[i] == (i < 5 ? a[i] : b[i - 5]); sym::check(ok, "concatenation"); for (unsigned i = 0; i < 8; ++i) ok = ok && t[i] == (i < 3 ? b[i] : a[i - 3]); sym::check(ok && s.c_str()[8] == 0 && t.c_str()[8] == 0, "concatenation");
  char w[3] = {b[0] & 127, b[1] & 127, 0}; auto wf = awl::fixed_string<wchar_t, 2>::from_ascii(w); sym::check(wf[0] == (wchar_t)w[0] && wf[1] == (wchar_t)w[1] && wf.size() == 2, "wide from ASCII"); sym::reach("end");
}
HARNESS(conv_round) {
  auto a = text(4, 1, "a"); std::wstring w = awl::DecodeString(a.c()); sym::check(w.size() == a.n, "length"); bool ok = true; for (unsigned i = 0; i < a.n; ++i) ok = ok && w[i] == (wchar_t)a.t[i]; sym::check(ok, "every character");
  std::string s = awl::EncodeString(w.c_str()), want(a.c()); sym::check(s == want, "round trip"); sym::check(awl::FromACString(a.c()) == want && awl::FromAString(want) == want && awl::ToAString(want) == want && awl::FromWCString(w.c_str()) == want && awl::FromWString(w) == want, "conversions agree");
  sym::check(awl::StringConvertor<wchar_t>::Decode(a.c()) == w && awl::StringConvertor<wchar_t>::Encode(w.c_str()) == w && awl::StringConvertor<wchar_t>::EncodeToA(w.c_str()) == want, "convertors agree");
  sym::check(awl::LogString(a.c()).str() == want && awl::LogString(w.c_str()).str() == want && awl::LogString(want).str() == want && awl::LogString(w).str() == want, "log strings"); sym::reach("end"); sym::observe("n", s.size());
}
HARNESS(fmt_values) {
  int v = (int)sym::range(0, 999, "v") - 500; char c = (char)sym::range(1, 127, "c"); auto t = text(2, 1, "t"); std::string s = awl::aformat() << v << c << t.c() << "end"; bool n = v < 0; unsigned m = n ? -v : v; std::string want;
  do want.insert(want.begin(), (char)('0' + m % 10)); while (m /= 10); if (n) want.insert(want.begin(), '-'); want += c; want += t.c(); want += "end"; sym::check(s == want, "the texts of the values one after another"); awl::LogString l = awl::aformat() << want; sym::check(l.str() == want, "log string"); sym::reach("end"); sym::observe("n", s.size());
}
HARNESS(fmt_optional) {
  using awl::operator<<; std::optional<unsigned> v; if (sym::any<bool>("has")) v = sym::range(0, 999, "v"); std::ostringstream o, q; o << v; if (v) q << *v; sym::check(o.str() == (v ? q.str() : std::string("empty")), "the value, or empty"); sym::reach(v ? "value" : "empty"); sym::observe("n", o.str().size());
}
