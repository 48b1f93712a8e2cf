BUGS = [
dict(id="header-version-narrow", property="C09", needs="data whose version differs from the expected one by a multiple of 2^32", breaks="the versions are compared in 32 bits, so other data passes as the expected version", flags="-std=gnu++20",
 edits=[("Awl/Io/HeaderedSerializable.h", "            if (actual_header.version > expectedHeader.version)", "            const auto actual_version = static_cast<std::uint32_t>(actual_header.version);\n            const auto expected_version = static_cast<std::uint32_t>(expectedHeader.version);\n\n            if (actual_version > expected_version)"),
  ("Awl/Io/HeaderedSerializable.h", "            if (actual_header.version < expectedHeader.version)", "            if (actual_version < expected_version)")],
 demo=r'''#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/VectorStream.h"
struct A { int x = 0; AWL_REFLECT(x) };
int main() {
  using H = awl::io::HeaderedSerializable<A>; std::vector<std::uint8_t> v; awl::io::VectorOutputStream out(v); A a{7}; H w({"f", (size_t(1) << 32) + 3}, a); awl::io::Serializable<> &s = w; s.Write(out);
  awl::io::VectorInputStream in(v); A b{1}; H r({"f", 3}, b); awl::io::Serializable<> &t = r; try { t.Read(in); } catch (const awl::io::IoException &) { return 0; } return 1;
}
'''),
dict(id="ring-reserve-oldest", property="C11", needs="a ring that is given a smaller capacity than its size", breaks="a ring that shrinks keeps its oldest elements instead of the newest",
 edits=[("Awl/Ring.h", "                    new (buf + i) T(std::move(operator[](size() - min_size + i)));", "                    new (buf + i) T(std::move(operator[](i)));")],
 demo=r'''#include "Awl/Ring.h"
int main() { awl::ring<int> r(4); for (int i = 0; i < 6; ++i) r.push_back(i); r.reserve(2); return r.size() == 2 && r[0] == 4 && r[1] == 5 ? 0 : 1; }
'''),
dict(id="transparent-compare-order", property="C21", needs="a lookup by a key whose first part is less than the one of the element while a later part is greater", breaks="a comparer that decides for the other side is not the last word",
 edits=[("Awl/TransparentCompositeCompare.h", "                if (comp(right, left))\n                {\n                    return false;\n                }\n\n                return Compare<Index + 1>(left_key, right);", "                return Compare<Index + 1>(left_key, right);")],
 demo=r'''#include "Awl/TransparentCompositeCompare.h"
#include "Awl/KeyCompare.h"
#include <set>
struct P { int a, b; };
int main() { auto c = awl::compose_transparent_comparers<P>(awl::make_compare(&P::a), awl::make_compare(&P::b)); std::set<P, decltype(c)> s(c); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) s.insert({a, b}); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { if (std::distance(s.begin(), s.upper_bound(decltype(c)::make_key(a, b))) != a * 4 + b + 1) return 1; } return 0; }
'''),
dict(id="test-output-carry", property="C31", needs="a test that is run in a loop, prints something, passes at first and fails later", breaks="the output of the passed iterations is kept with that of the failed one", src="Awl/Testing/TestMap.cpp",
 edits=[("Awl/Testing/TestMap.cpp", "            if (p_out == &lastOutput)\n            {\n                lastOutput.str(String());\n            }\n\n            context.out << _T(\"\\tPassed within \") << sw << std::endl;\n        }\n", "            context.out << _T(\"\\tPassed within \") << sw << std::endl;\n        }\n\n        if (p_out == &lastOutput)\n        {\n            lastOutput.str(String());\n        }\n")],
 demo=r'''#include "Awl/Testing/UnitTest.h"
#include "Awl/Testing/TestMap.h"
#include <sstream>
using namespace awl::testing; static int n;
static void body(const TestContext &c) { ++n; c.out << n; if (n == 3) Assert::Fail("third"); }
struct P : AttributeProvider { bool TryFind(const awl::String &k, awl::String &v) const override { if (k == "loop") { v = "5"; return true; } return false; } };
int main() { TestLink l("t", body); std::ostringstream out; P p; int r = 1; { TestContext c{out, {}, p}; TestMap m; try { m.Run(c, "t"); } catch (const TestException &) { r = m.GetLastOutput() == "3" ? 0 : 2; } } Shutdown(); return r; }
'''),
dict(id="watchdog-log", property="C26", needs="a watch dog that is destroyed before its timeout", breaks="the watch dog reports a timeout that has not elapsed",
 edits=[("Awl/WatchDog.h", "            if (!token.stop_requested())", "            if (!m_source.stop_requested())")],
 demo=r'''#include "Awl/WatchDog.h"
#include <atomic>
int main() { std::atomic<int> n = 0; { std::stop_source s; awl::watch_dog w(s.get_token(), std::chrono::hours(1), [&] { ++n; }); } return n; }
'''),
]
