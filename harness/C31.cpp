//! entry run_all time=90 reach=passed,failed
//! entry run_name time=30 reach=ran,unknown
//! entry duplicates time=30 reach=thrown,end
//! entry loops time=60 reach=passed,failed
//! entry output time=90 reach=all,failed,null,wrong
//! entry timeout threads time=120 reach=stopped,untimed
//! entry number_int time=60 reach=parsed,range
//! entry number_unsigned time=60 reach=parsed,range
//! entry number_long time=90 reach=parsed,range
//! entry number_size time=90 reach=parsed,range
//! entry number_text time=60 reach=end
//! entry malformed time=60 reach=parsed,fallback
//! entry strings time=60 reach=end
//! entry numbers time=90 reach=end
//! entry flag time=30 reach=end
//! entry asserts time=60 reach=failed,passed
//! entry throws time=30 reach=end
//! entry chain time=60 reach=end
//! flags -std=gnu++20
//! source $REPO/Awl/Testing/TestMap.cpp
//! bound up to 3 (thorough 4) tests, every order of registration and every set of names, every filter, the failing test anywhere, 0 to 3 loops; texts of up to 4 characters; every value of the integer attributes (unsigned ones and size_t up to 20 digits), sets and vectors of up to 2 elements
//! assume attributes come from a provider of the harness; the regular expressions of the command line and of the name filter are those of the standard library
#include "sym.h"
#include "Awl/Testing/UnitTest.h"
#include "Awl/Testing/TestMap.h"
#include "Awl/Testing/TestContext.h"
#include <sstream>
#include <set>
#include <vector>
namespace {
using namespace awl::testing; using awl::String; const unsigned N = THOROUGH ? 4 : 3;
struct Provider : AttributeProvider {
  std::vector<std::pair<String, String>> v;
  bool TryFind(const String &n, String &val) const override { for (auto &p : v) if (p.first == n) { val = p.second; return true; } return false; }
};
struct Cleanup { ~Cleanup() { Shutdown(); } };
struct Other { };
std::vector<int> ran; int failing; std::string text[4]; const char *const names[4] = {"a_Test", "b_Test", "ba_Test", "c"};
template <int K> void body(const TestContext &c) { ran.push_back(K); c.out << text[K]; if (failing == K) Assert::Fail("failed"); }
TestFunc funcs[4] = {body<0>, body<1>, body<2>, body<3>};
void init() { ran.clear(); failing = -1; for (auto &t : text) { t.clear(); t.shrink_to_fit(); } }
void fini() { std::vector<int>().swap(ran); for (auto &t : text) { t.clear(); t.shrink_to_fit(); } }
template <class T> T attribute(const Provider &p, T def) { LocalAttribute<T> a(p, "T", "x", def); return a.GetValue(); }
}
HARNESS(run_all) { // tests in any order of registration; the names decide the order
  sym_leak_scope L; { init(); std::vector<std::unique_ptr<TestLink>> links; Cleanup cl; unsigned mask = 0;
    for (unsigned i = 0; i < N; ++i) { unsigned k = sym::choice(4, "test"); if (mask >> k & 1) continue; mask |= 1u << k; links.push_back(std::make_unique<TestLink>(names[k], funcs[k])); }
    int filter = sym::range(0, 15, "filter"); failing = (int)sym::choice(5, "failing") - 1; std::function<bool(const String &)> f = [&](const String &n) -> bool { for (int k = 0; k < 4; ++k) if (n == names[k]) return (bool)(filter >> k & 1); return false; };
    Provider p; std::ostringstream out, list; TestContext c{out, {}, p}; TestMap m; bool ok = true;
    try { m.RunAll(c, f); } catch (const TestException &e) { ok = false; sym::check(e.What() == "failed", "the failure of the test"); }
    std::vector<int> want; std::string printed; unsigned count = 0; bool fail = false;
    for (int k = 0; k < 4; ++k) if (mask >> k & 1 && filter >> k & 1) { ++count; printed += names[k]; printed += '\n'; if (!fail) { want.push_back(k); if (k == failing) fail = true; } }
    sym::check(ran == want, "each selected test runs once, in the order of the names, up to the first that fails"); sym::check(ok == !fail, "a failure is reported, a success is not"); sym::check(m.GetTestCount() == links.size() && m.GetCount(f) == count, "the number of tests"); m.PrintNames(list, f); sym::check(list.str() == printed, "the list of names"); sym::reach(ok ? "passed" : "failed"); fini(); }
  L.done();
}
HARNESS(run_name) {
  sym_leak_scope L; { init(); TestLink a(names[2], funcs[2]), b(names[0], funcs[0]); Cleanup cl; char n[8]; unsigned len = sym::choice(8, "len"); for (unsigned i = 0; i < len; ++i) { n[i] = sym::any<char>("c"); sym::assume(n[i]); } n[len] = 0;
    std::string s(n); Provider p; std::ostringstream out; TestContext c{out, {}, p}; TestMap m; bool known = s == names[0] || s == names[2], thrown = false;
    try { m.Run(c, n); } catch (const TestException &) { thrown = true; } sym::check(thrown == !known, "an unknown test is an error"); if (known) { sym::check(ran.size() == 1 && ran[0] == (s == names[0] ? 0 : 2), "the named test runs"); sym::reach("ran"); } else { sym::check(ran.empty(), "nothing runs"); sym::reach("unknown"); } fini(); }
  L.done();
}
HARNESS(duplicates) {
  sym_leak_scope L; { init(); unsigned i = sym::choice(3, "first"), j = sym::choice(3, "second"), k = sym::choice(3, "third"); std::string copy(names[j]); TestLink a(names[i], funcs[0]), b(copy.c_str(), funcs[1]), c(names[k], funcs[2]); Cleanup cl; bool thrown = false; size_t n = 0;
    try { TestMap m; n = m.GetTestCount(); } catch (const TestException &) { thrown = true; } sym::check(thrown == (i == j || j == k || i == k), "two tests with one name are an error"); if (thrown) sym::reach("thrown"); else { sym::check(n == 3, "all are there"); sym::reach("end"); } fini(); }
  L.done();
}
namespace { int loopFail, loopRuns; void looped(const TestContext &c) { ++loopRuns; c.out << 'L' << loopRuns; if (loopRuns == loopFail) Assert::IsTrue(false); } }
HARNESS(loops) {
  sym_leak_scope L; { init(); loopRuns = 0; loopFail = sym::choice(5, "fail"); unsigned k = sym::choice(5, "loop"); TestLink a("loop", looped); Cleanup cl; Provider p; if (k) p.v.push_back({"loop", std::string(1, (char)('0' + k - 1))}); std::ostringstream out; TestContext c{out, {}, p}; TestMap m; bool ok = true; unsigned n = k < 2 ? 1 : k - 1;
    try { m.Run(c, "loop"); } catch (const TestException &) { ok = false; } bool fail = loopFail && (unsigned)loopFail <= n; sym::check(ok == !fail && loopRuns == (int)(fail ? loopFail : n), "the test runs as often as asked, up to a failure"); sym::check(m.GetLastOutput() == (fail ? "L" + std::to_string(loopFail) : ""), "the output of the failed run only"); sym::reach(ok ? "passed" : "failed"); }
  L.done();
}
HARNESS(output) {
  sym_leak_scope L; { init(); static const char *const values[] = {"", "all", "failed", "null", "nul", "All", "failed "}; unsigned o = sym::choice(7, "output"); TestLink a(names[0], funcs[0]), b(names[1], funcs[1]); Cleanup cl; Provider p; if (o) p.v.push_back({"output", values[o]}); for (int k = 0; k < 2; ++k) { unsigned len = sym::choice(2, "len"); for (unsigned i = 0; i < len + 1; ++i) text[k] += sym::range('p', 'z', "c"); text[k] += '#'; }
    failing = (int)sym::choice(3, "failing") - 1; std::ostringstream out; TestContext c{out, {}, p}; TestMap m; bool ok = true; try { m.RunAll(c, [](const String &) { return true; }); } catch (const TestException &) { ok = false; }
    if (o > 3) { sym::check(!ok && ran.empty(), "an unknown kind of output is an error"); sym::reach("wrong"); }
    else {
      sym::check(ok == (failing < 0), "the result does not depend on the output"); std::string s = out.str(), want = (o == 0 || o == 2) && failing >= 0 ? text[failing] : ""; sym::check(m.GetLastOutput() == want, "the output of the failed test is kept, and only of that"); unsigned hashes = 0; for (char ch : s) if (ch == '#') ++hashes; sym::check(hashes == (o == 1 ? ran.size() : 0), "the output of the tests is shown exactly when asked");
      if (o == 1) { auto x = s.find('\n'); for (int k : ran) { x = s.find(text[k], x); sym::check(x != std::string::npos, "the text of the test is shown, in order"); } sym::reach("all"); } else sym::reach(o == 3 ? "null" : "failed"); } fini(); }
  L.done();
}
namespace { bool stoppedSeen; void waits(const TestContext &c) { while (!c.stopToken.stop_requested()) __sym_spin(); stoppedSeen = true; } void looks(const TestContext &c) { stoppedSeen = c.stopToken.stop_requested(); } }
HARNESS(timeout) {
  sym_leak_scope L; { __sym_preempt_max(2); stoppedSeen = false; bool timed = sym::any<bool>("timed"); Provider p; if (timed) p.v.push_back({"timeout", "20"}); TestLink a("x", timed ? waits : looks); Cleanup cl; std::ostringstream out; std::stop_source s; bool req = !timed && sym::any<bool>("requested"); if (req) s.request_stop(); TestContext c{out, s.get_token(), p}; { TestMap m; m.Run(c, "x"); }
    if (timed) { sym::check(stoppedSeen && !s.stop_requested(), "a test that takes too long is asked to stop"); sym::reach("stopped"); } else { sym::check(stoppedSeen == req, "without a limit the test sees the stop requests of the runner"); sym::reach("untimed"); } }
  L.done();
}
namespace {
template <class T> void number(unsigned most) { // every text of up to that many digits
  sym_leak_scope L; {
    unsigned n = sym::choice(most, "digits") + 1; bool sgn = std::is_signed_v<T> && sym::choice(2, "minus"); std::string s; if (sgn) s += '-'; unsigned __int128 v = 0; for (unsigned i = 0; i < n; ++i) { unsigned char d = sym::range('0', '9', "d"); s += (char)d; v = v * 10 + (unsigned)(d - '0'); }
    T def = sym::any<T>("def"); Provider p; p.v.push_back({"x", s}); T r = attribute<T>(p, def); bool fits = v <= (unsigned __int128)std::numeric_limits<T>::max() + sgn;
    if (fits) { sym::check(r == (sgn ? (T)(0 - (T)v) : (T)v), "the value on the command line"); sym::reach("parsed"); } else { sym::check(r == def, "a value that is out of range is not used"); sym::reach("range"); } }
  L.done();
}
template <class T> void text_of(T x) { sym_leak_scope L; { Provider p; p.v.push_back({"x", Formatter<T>::ToString(x)}); sym::check(attribute<T>(p, 5) == x, "the text of a value is read back"); p.v[0].first = "y"; sym::check(attribute<T>(p, 5) == 5, "the default without a value"); } L.done(); sym::reach("end"); }
}
HARNESS(number_int) { number<int>(11); }
HARNESS(number_unsigned) { number<unsigned>(11); }
HARNESS(number_long) { if (sym::choice(2, "type")) number<long>(20); else number<long long>(20); }
HARNESS(number_size) { if (sym::choice(2, "type")) number<size_t>(21); else number<unsigned long long>(21); }
HARNESS(number_text) { switch (sym::choice(6, "type")) { case 0: text_of<int>((int)sym::range(0, 240, "x") - 120); break; case 1: text_of<unsigned>(sym::range(0, 300, "x")); break; case 2: text_of<long>((long)sym::range(0, 220, "x") - 110); break; case 3: text_of<size_t>(sym::range(0, 300, "x")); break; case 4: text_of<long long>(9 - (long long)sym::range(0, 18, "x")); break; default: { static const unsigned long long v[] = {0, 1, 2147483648ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull}; unsigned long long x = v[sym::choice(8, "x")]; text_of<unsigned long long>(x); text_of<size_t>(x); text_of<long>((long)x); text_of<int>((int)x); text_of<unsigned>((unsigned)x); } } }
HARNESS(malformed) { // text that does not start with a number gives the default
  sym_leak_scope L; { Provider p; std::string s; unsigned len = sym::choice(4, "len"); for (unsigned i = 0; i < len; ++i) s += sym::range(' ', '~', "c"); p.v.push_back({"x", s}); int def = sym::any<int>("def"), r = attribute<int>(p, def); size_t i = 0; while (i < len && s[i] == ' ') ++i; bool neg = false; if (i < len && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; } bool any = false; int v = 0; while (i < len && s[i] >= '0' && s[i] <= '9') { any = true; v = v * 10 + (s[i] - '0'); ++i; } if (neg) v = -v; sym::check(r == (any ? v : def), "the number at the beginning of the text, or the default"); sym::reach(any ? "parsed" : "fallback"); } L.done();
}
HARNESS(strings) {
  sym_leak_scope L; { Provider p; std::string s; unsigned len = sym::choice(5, "len"); for (unsigned i = 0; i < len; ++i) s += sym::any<char>("c"); p.v.push_back({"x", s}); sym::check(attribute<String>(p, "def") == s, "text is taken as it is");
    std::vector<std::string> words; std::string w; for (char c : s) { bool sp = c == ' ' || (c >= '\t' && c <= '\r'); if (!sp) w += c; else if (!w.empty()) { words.push_back(w); w.clear(); } } if (!w.empty()) words.push_back(w);
    sym::check(attribute<std::vector<String>>(p, {}) == words, "a list of words"); std::set<String> set(words.begin(), words.end()); sym::check(attribute<std::set<String>>(p, {}) == set, "a set of words"); p.v.clear(); sym::check(attribute<String>(p, "def") == "def" && attribute<std::set<String>>(p, {"d"}) == std::set<String>{"d"}, "the default without a value"); } L.done(); sym::reach("end");
}
HARNESS(numbers) {
  sym_leak_scope L; { std::vector<int> v; unsigned n = sym::choice(3, "n"); for (unsigned i = 0; i < n; ++i) v.push_back((int)sym::range(0, 24, "v") - 12); Provider p; p.v.push_back({"x", Formatter<std::vector<int>>::ToString(v)}); sym::check(attribute<std::vector<int>>(p, {5}) == v, "a list of numbers is read back"); std::set<int> s(v.begin(), v.end()); p.v[0].second = Formatter<std::set<int>>::ToString(s); sym::check(attribute<std::set<int>>(p, {5}) == s, "a set of numbers is read back"); } L.done(); sym::reach("end");
}
HARNESS(flag) {
  sym_leak_scope L; { Provider p; bool def = sym::any<bool>("def"); sym::check(attribute<bool>(p, def) == def, "an absent flag"); std::string s; if (sym::any<bool>("text")) s += sym::any<char>("c"); p.v.push_back({"x", s}); sym::check(attribute<bool>(p, def), "a flag that is there is set"); } L.done(); sym::reach("end");
}
HARNESS(asserts) {
  sym_leak_scope L; { int a = sym::any<int>("a"), b = sym::any<int>("b"); bool c = sym::any<bool>("c"), failed = false, want; unsigned k = sym::choice(5, "kind"); String m; 
    try { switch (k) { case 0: want = !c; Assert::IsTrue(c, "text"); break; case 1: want = c; Assert::IsFalse(c, "text"); break; case 2: want = a != b; sym::assume(a >= 0 && a < 20 && b > -12 && b < 10); Assert::AreEqual(a, b, "text"); break; case 3: want = true; Assert::Fail("text"); break; default: { want = a >= b; std::string x(1, 'x'), y(1, a < b ? 'x' : 'y'); Assert::AreEqual(x, y, "text"); } } } catch (const TestException &e) { failed = true; m = e.What(); }
    sym::check(failed == want, "an assertion fails exactly when it does not hold"); sym::check(!failed || m.rfind("text", 0) == 0, "the message"); if (failed && k == 2) sym::check(m == "text  expected " + std::to_string(a) + ", actual " + std::to_string(b) + ".", "the values are in the message"); sym::reach(failed ? "failed" : "passed"); }
  L.done();
}
namespace { template <class E> int expect(unsigned what) { try { Assert::Throws<E>([&] { switch (what) { case 0: return; case 1: throw TestException("inner"); case 2: throw std::runtime_error("r"); case 3: throw Other(); default: throw std::out_of_range("o"); } }); return 0; } catch (const TestException &e) { return e.What() == "inner" ? 1 : 9; } catch (const std::out_of_range &) { return 4; } catch (const std::runtime_error &) { return 2; } catch (const Other &) { return 3; } } }
HARNESS(throws) {
  sym_leak_scope L; { unsigned w = sym::choice(5, "thrown"); int a = expect<std::runtime_error>(w), b = expect<std::exception>(w), c = expect<TestException>(w), d = expect<Other>(w); auto want = [&](unsigned mask) { return mask >> w & 1 ? 0 : w ? (int)w : 9; };
    sym::check(a == want(4) && d == want(8), "Throws passes exactly when an exception of the type is thrown"); sym::check(b == want(2 | 4 | 16) && c == want(2), "also for types that cover the failure itself"); } L.done(); sym::reach("end");
}
HARNESS(chain) { // registration and shutdown
  sym_leak_scope L; { init(); unsigned n = sym::choice(N + 1, "n"); std::vector<std::unique_ptr<TestLink>> l; for (unsigned i = 0; i < n; ++i) l.push_back(std::make_unique<TestLink>(names[i], funcs[i])); unsigned seen = 0; for (TestLink *p : GetTestChain()) { unsigned k = 0; while (k < n && p != l[k].get()) ++k; sym::check(k < n && !(seen >> k & 1), "each link once"); seen |= 1u << k; std::ostringstream o; Provider pr; TestContext c{o, {}, pr}; p->Run(c); sym::check(ran.back() == (int)k && p->GetName() == names[k], "the link of the test"); } sym::check(seen == (1u << n) - 1, "all links"); Shutdown(); sym::check(GetTestChain().empty(), "nothing is left"); { TestMap m; sym::check(m.GetTestCount() == 0, "no tests"); } fini(); } L.done(); sym::reach("end");
}
