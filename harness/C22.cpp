//! entry en_conv time=60 reach=thrown,ok
//! entry en_str time=100 reach=thrown,ok
//! entry bm_ops time=100 reach=end
//! entry bm_big time=60 reach=end
//! entry bm_range time=60 reach=thrown,ok
//! bound en_*: enums of 4 and 70 values, every underlying 8-bit value, every name of up to 7 characters
//! bound bm_*: bitmaps of 7 and 70 bits, every pair of contents and every enum value
#include "sym.h"
#include "Awl/BitMap.h"
#include "Awl/String.h"
#include <stdexcept>
#include <string>
namespace ns {
AWL_SEQUENTIAL_ENUM(Color, Red, green, Blue, X)
AWL_BITMAP(Flag, a, b, c, d, e, f, g)
AWL_BITMAP(Big, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23, v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39, v40, v41, v42, v43, v44, v45, v46, v47, v48, v49, v50, v51, v52, v53, v54, v55, v56, v57, v58, v59, v60, v61, v62, v63, v64, v65, v66, v67, v68, v69)
AWL_SEQUENTIAL_ENUM(Tight, p,q,r)
}
AWL_ENUM_TRAITS(ns, Color)
AWL_ENUM_TRAITS(ns, Flag)
AWL_ENUM_TRAITS(ns, Big)
AWL_ENUM_TRAITS(ns, Tight)
using namespace ns;
static const char *names[] = {"Red", "green", "Blue", "X"};
HARNESS(en_conv) {
  uint8_t v = sym::any<uint8_t>("v"); Color c = static_cast<Color>(v); bool bad = v >= 4; int thrown = 0;
  sym::check(awl::EnumTraits<Color>::count() == 4 && awl::EnumTraits<Big>::count() == 70, "count");
  try { sym::check(awl::enum_to_index(c) == v, "enum_to_index"); } catch (const std::runtime_error &) { ++thrown; }
  try { sym::check(awl::enum_from_index<Color>(v) == c, "enum_from_index"); } catch (const std::runtime_error &) { ++thrown; }
  try { awl::validate_enum(c); } catch (const std::runtime_error &) { ++thrown; }
  try { awl::validate_enum_index<Color>(v); } catch (const std::runtime_error &) { ++thrown; }
  try { const std::string &s = awl::enum_to_string(c); sym::check(v < 4 && s == names[v & 3], "enum_to_string"); sym::check(awl::enum_from_string<Color>(s) == c, "from string of to string"); } catch (const std::runtime_error &) { ++thrown; }
  sym::check(thrown == (bad ? 5 : 0), "conversions throw exactly for values outside the enum"); sym::reach(bad ? "thrown" : "ok");
  sym::check(awl::enum_to_underlying(c) == v, "enum_to_underlying"); sym::observe("thrown", thrown);
  uint8_t t = sym::any<uint8_t>("t"); bool tt = false; try { const std::string &s = awl::enum_to_string(static_cast<Tight>(t)); sym::check(s.size() == 1 && s[0] == "pqr"[t], "names do not depend on white space in the list"); } catch (const std::runtime_error &) { tt = true; } sym::check(tt == (t >= 3), "range of the enum");
  uint8_t w = sym::any<uint8_t>("w"); bool th = false; try { sym::check(awl::enum_from_index<Big>(w) == static_cast<Big>(w), "enum_from_index"); } catch (const std::runtime_error &) { th = true; } sym::check(th == (w >= 70), "range of the big enum");
}
HARNESS(en_str) {
  unsigned n = sym::choice(THOROUGH ? 8 : 7, "len"); std::string s; for (unsigned i = 0; i < n; ++i) s.push_back(sym::any<char>("ch"));
  int hit = -1, ihit = -1; for (int k = 0; k < 4; ++k) { bool e = s.size() == __builtin_strlen(names[k]), ie = e; if (e) for (unsigned i = 0; i < n; ++i) { char x = s[i], y = names[k][i]; if (x != y) e = false; auto lo = [](char z) { return z >= 'A' && z <= 'Z' ? char(z + 32) : z; }; if (lo(x) != lo(y)) ie = false; } if (e && hit < 0) hit = k; if (ie && ihit < 0) ihit = k; }
  bool th = false, thi = false;
  try { Color c = awl::enum_from_string<Color>(s); sym::check(hit >= 0 && c == static_cast<Color>(hit), "enum_from_string"); sym::reach("ok"); } catch (const std::runtime_error &) { th = true; sym::reach("thrown"); }
  try { Color c = awl::enum_from_string_i<Color>(s); sym::check(ihit >= 0 && c == static_cast<Color>(ihit), "enum_from_string_i"); } catch (const std::runtime_error &) { thi = true; }
  sym::check(th == (hit < 0), "an unknown name throws"); sym::check(thi == (ihit < 0), "an unknown name throws (case-insensitive)"); sym::observe("th", th * 2 + thi);
}
static FlagBitMap make(uint8_t bits) { FlagBitMap m; for (int i = 0; i < 7; ++i) if (bits >> i & 1) m.set(static_cast<Flag>(i), true); return m; }
static void same(const FlagBitMap &m, uint8_t bits, const char *msg) {
  bits &= 127; for (int i = 0; i < 7; ++i) sym::check(m.test(static_cast<Flag>(i)) == (bool)(bits >> i & 1) && m[static_cast<Flag>(i)] == (bool)(bits >> i & 1), msg);
  sym::check(m.any() == (bits != 0) && m.none() == (bits == 0) && m.all() == (bits == 127) && (bool)m == (bits != 0), "any/all/none"); sym::check(m.count() == __builtin_popcount(bits) && m.size() == 7, "count");
}
// build without forking: one conditional set per bit
static FlagBitMap fast(uint8_t bits) { FlagBitMap m; for (int i = 0; i < 7; ++i) m.set(static_cast<Flag>(i), bits >> i & 1); return m; }
HARNESS(bm_ops) {
  uint8_t x = sym::any<uint8_t>("x") & 127, y = sym::any<uint8_t>("y") & 127; FlagBitMap a = fast(x), b = fast(y); int k = sym::choice(7, "k"); Flag v = static_cast<Flag>(k); uint8_t bit = 1 << k;
  same(a, x, "contents");
  switch (sym::choice(9, "op")) {
  case 0: same(a | b, x | y, "or"); { FlagBitMap c = a; c |= b; same(c, x | y, "|="); } break;
  case 1: same(a & b, x & y, "and"); { FlagBitMap c = a; c &= b; same(c, x & y, "&="); } break;
  case 2: same(a ^ b, x ^ y, "xor"); { FlagBitMap c = a; c ^= b; same(c, x ^ y, "^="); } break;
  case 3: same(~a, ~x, "complement"); break;
  case 4: same(a | v, x | bit, "or value"); { FlagBitMap c = a; c |= v; same(c, x | bit, "|= value"); } break;
  case 5: same(a & v, x & bit, "and value"); { FlagBitMap c = a; c &= v; same(c, x & bit, "&= value"); } break;
  case 6: same(a ^ v, x ^ bit, "xor value"); { FlagBitMap c = a; c ^= v; same(c, x ^ bit, "^= value"); } break;
  case 7: { bool on = sym::any<bool>("on"); FlagBitMap c = a; c.set(v, on); same(c, on ? x | bit : x & ~bit, "set"); c = b; c[v] = on; same(c, on ? y | bit : y & ~bit, "operator[] writes"); break; }
  case 8: sym::check((a == b) == (x == y) && (a != b) == (x != y), "equality"); { FlagBitMap c{v, static_cast<Flag>((k + 3) % 7), v}; same(c, bit | 1 << (k + 3) % 7, "initializer list"); } break;
  }
  same(a, x, "the operands are not modified"); same(b, y, "the operands are not modified"); sym::reach("end"); sym::observe("x", x);
}
HARNESS(bm_big) {
  uint8_t i = sym::range(0, 69, "i"), j = sym::range(0, 69, "j"), q = sym::range(0, 69, "q"); Big x = static_cast<Big>(i), y = static_cast<Big>(j), z = static_cast<Big>(q);
  BigBitMap m{x, y}; sym::check(m.test(z) == (q == i || q == j), "initializer list"); sym::check(m.count() == (i == j ? 1 : 2) && m.size() == 70, "count");
  BigBitMap n; n |= x; n = n | y; sym::check(n == m, "same set"); sym::check((n ^ x).test(x) == false && (n & y).test(z) == (q == j), "value operators"); sym::check((~n).test(z) != n.test(z) && (~n).count() == 70 - n.count(), "complement");
  sym::reach("end"); sym::observe("c", m.count());
}
HARNESS(bm_range) {
  uint8_t v = sym::any<uint8_t>("v"); FlagBitMap m = fast(sym::any<uint8_t>("x")); Flag f = static_cast<Flag>(v); int th = 0; FlagBitMap keep = m;
  try { (void)m.test(f); } catch (const std::out_of_range &) { ++th; }
  try { m.set(f, true); } catch (const std::out_of_range &) { ++th; }
  try { FlagBitMap n = keep | f; m = keep; sym::check(n.test(f), "or"); } catch (const std::out_of_range &) { ++th; }
  sym::check(th == (v < 7 ? 0 : 3), "a value outside the enum throws"); if (v >= 7) sym::check(m == keep, "and changes nothing"); sym::reach(v < 7 ? "ok" : "thrown");
}
