FS = r'''// The system calls of this program are recorded: the files are copied to memory at every change, so that each moment can be replayed as if
// the machine had stopped there. Everything happens in the scratch directory that demo.sh has created.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <iterator>
#include <map>
#include <string>
#include <vector>
#include <filesystem>
using Img = std::vector<std::uint8_t>;
static Img get(const char *n) { std::ifstream f(n, std::ios::binary); return Img(std::istreambuf_iterator<char>(f), {}); }
static void put(const char *n, const Img &i) { std::ofstream f(n, std::ios::binary | std::ios::trunc); f.write((const char *)i.data(), (std::streamsize)i.size()); }
static bool rec = false; static std::vector<std::pair<Img, Img>> moments; static Img durM, durB; static std::map<int, char> which;
static void moment() { if (rec) moments.push_back({get("m"), get("b")}); }
static void lost() { if (rec) moments.push_back({durM, durB}); }
static void mixed() { if (rec) { moments.push_back({durM, get("b")}); moments.push_back({get("m"), durB}); } }
static int myopen(const char *n, int f, unsigned m = 0) { int h = ::open(n, f, m); if (h >= 0) which[h] = n[0]; return h; }
static ssize_t mywrite(int h, const void *b, size_t n) { ssize_t k = 0; for (size_t i = 0; i < n; ++i) { k += ::write(h, (const char *)b + i, 1); if (i % 8 == 0 || i + 1 == n) { moment(); mixed(); lost(); } } return k; }
static int mytruncate(int h, off_t n) { int r = ::ftruncate(h, n); moment(); mixed(); lost(); return r; }
static int mysync(int h) { if (which[h] == 'm') durM = get("m"); else durB = get("b"); moment(); mixed(); lost(); return 0; }
#define open myopen
#define write mywrite
#define ftruncate mytruncate
#define fsync mysync
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/AtomicStorage.cpp"
struct L : awl::Logger { void log(awl::LogLevel, awl::LogString) override {} };
using HI = awl::io::HashInputStream<awl::crypto::Crc64>; using HO = awl::io::HashOutputStream<awl::crypto::Crc64>;
struct B { std::string v; awl::io::PlainSerializable<std::string, HI, HO> p{v}; awl::io::HashingSerializable<> h{p}; };
struct R { std::string v; AWL_REFLECT(v) }; struct E { R r; awl::io::EuphoricallySerializable<R> h{r}; };
struct M : awl::IMutex { void lock() override {} void unlock() override {} };
static std::string &val(B &b) { return b.v; } static std::string &val(E &e) { return e.r.v; }
template <class X> int run(const std::string &a, const std::string &c, awl::IMutex *mu) {
  L l; std::filesystem::remove("m"); std::filesystem::remove("b"); moments.clear(); durM = durB = {}; { awl::io::AtomicStorage s(l, "m", "b"); X x; s.Load(x.h); val(x) = a; s.Save(x.h, mu); durM = get("m"); durB = get("b"); rec = true; val(x) = c; s.Save(x.h, mu); rec = false; }
  auto all = moments; for (auto &m : all) { put("m", m.first); put("b", m.second); X x; { awl::io::AtomicStorage s(l, "m", "b"); moments.clear(); durM = m.first; durB = m.second; rec = true; bool ok = s.Load(x.h); rec = false; if (!ok || (val(x) != a && val(x) != c)) return 1; }
    auto second = moments; for (auto &k : second) { put("m", k.first); put("b", k.second); X y; awl::io::AtomicStorage s(l, "m", "b"); if (!s.Load(y.h) || (val(y) != a && val(y) != c)) return 2; } }
  return 0;
}
'''
BOTH = FS + r'''int main() { M m; int r = run<B>("the old value", "new", nullptr); if (!r) r = run<B>("old", "the new value", nullptr); if (!r) r = run<E>("old", "the new value", &m); if (!r) r = run<E>("the old value", "new", &m); return r; }
'''
BUGS = [
dict(id="storage-flush-before-truncate", property="C07", needs="a value that is shorter than the one before, and a power failure between the end of the save and the moment when the system writes the file size", breaks="the files are flushed before they are truncated, so the truncation of the master file may be lost although the backup is already cleared", flags="-std=gnu++20",
 edits=[("Awl/Io/AtomicStorage.h", "            s.Truncate();\n            s.Flush();\n\n            if", "            s.Flush();\n            s.Truncate();\n\n            if")], demo=BOTH),
dict(id="storage-recovery-clears-first", property="C07", needs="a crash while the master file is written, then a second crash while loading restores it from the backup", breaks="the backup is cleared before the master file is rewritten", flags="-std=gnu++20",
 edits=[("Awl/Io/AtomicStorage.cpp", "        WriteToStream(m_s, val);\n    }\n\n    ClearBackup();\n\n    if (backup_success)\n    {\n        return true;", "        ClearBackup();\n\n        WriteToStream(m_s, val);\n\n        return true;"), ("Awl/Io/AtomicStorage.cpp", "    //No need to reset", "    ClearBackup();\n\n    //No need to reset")], demo=BOTH),
dict(id="storage-snapshot-order", property="C07", needs="a save with a mutex (a snapshot) that is interrupted while the master file is written", breaks="the snapshot is written to the master file before it is written to the backup", flags="-std=gnu++20",
 edits=[("Awl/Io/AtomicStorage.cpp", "            WriteSnapshot(m_backup, snapshotable, v);\n        }\n\n        WriteSnapshot(m_s, snapshotable, v);\n", "            WriteSnapshot(m_s, snapshotable, v);\n        }\n\n        WriteSnapshot(m_backup, snapshotable, v);\n")], demo=BOTH),
dict(id="stream-short-write", property="C08", needs="a disk that becomes full in the middle of a write, so that the system writes a part", breaks="a short write is reported as a success",
 edits=[("Platforms/Posix/Awl/Io/NativeStream.h", "            if (static_cast<size_t>(written_count) != count)", "            if (static_cast<size_t>(written_count) > count)")],
 demo=r'''#include <sys/resource.h>
#include <csignal>
#include "Awl/Io/NativeStream.h"
int main() { std::signal(SIGXFSZ, SIG_IGN); rlimit l{10, 10}; if (setrlimit(RLIMIT_FSIZE, &l)) return 98; awl::io::UniqueStream s(awl::io::CreateUniqueFile("f")); std::uint8_t b[16] = {}; try { s.Write(b, 16); } catch (const awl::io::IoException &) { return 0; } return s.GetLength() == 16 ? 0 : 1; }
'''),
dict(id="stream-read-error", property="C08", needs="a read that fails", breaks="a failing read is reported as the number of bytes -1",
 edits=[("Platforms/Posix/Awl/Io/NativeStream.h", "            Check(read_count);\n            \n            return static_cast<size_t>(read_count);", "            Check(static_cast<size_t>(read_count) - count - 1);\n            \n            return static_cast<size_t>(read_count);")],
 demo=r'''#include "Awl/Io/NativeStream.h"
int main() { awl::io::UniqueStream s(awl::io::OpenUniqueFile(".")); std::uint8_t b[16]; try { return s.Read(b, 16) <= 16 ? 0 : 1; } catch (const awl::io::IoException &) { return 0; } }
'''),
dict(id="decimal-trim-wide", property="C20", needs="a decimal with more than 19 digits behind the point, whose divisor does not fit into 64 bits", breaks="the divisor of a truncation is computed in 64 bits", flags="-std=gnu++20",
 edits=[("Awl/Decimal.h", "                if (check && m_data.man() % denom != 0)\n                {\n                    throw std::logic_error(\"Decimal is losing precision.\");\n                }\n\n                m_data.set_man(m_data.man() / denom);", "                if (check && m_data.man() % denom != 0)\n                {\n                    throw std::logic_error(\"Decimal is losing precision.\");\n                }\n\n                m_data.set_man(m_data.man() / static_cast<uint64_t>(denom));")],
 demo=r'''#include "Awl/Decimal.h"
using D = awl::decimal<__uint128_t, 5>;
int main() { D d(std::string_view("7.1234567890123456789012345678")); return d.truncate(2) == D(std::string_view("7.12")) && d.truncate(0) == D(std::string_view("7")) && d.truncate(10) == D(std::string_view("7.1234567890")) ? 0 : 1; }
'''),
dict(id="decimal-compare-fraction", property="C18", needs="two decimals with equal integer parts and different numbers of digits, the longer one on the left-hand side", breaks="the fraction of the right-hand side is scaled by one power of ten too few when it is shorter by more than nine digits",
 edits=[("Awl/Decimal.h", "                    const uint8_t diff = a.exponent() - b.exponent();\n\n                    b_val *= m_denoms[diff];", "                    const uint8_t diff = a.exponent() - b.exponent();\n\n                    b_val *= m_denoms[diff > 9 ? diff - 1 : diff];")],
 demo=r'''#include "Awl/Decimal.h"
using D = awl::decimal<std::uint64_t, 4>;
int main() { D a(std::string_view("1.40000000001")), b(std::string_view("1.5")); return a < b && b > a && !(a > b) && !(b < a) ? 0 : 1; }
'''),
dict(id="decimal-parse-zeros-flush", property="C17", needs="a fraction with two separate groups of zeros", breaks="the zeros before a later digit are not forgotten, so they are inserted again",
 edits=[("Awl/Decimal.h", "                    zero_count = 0;\n\n                    do_append(digit);", "                    if (digit != 9)\n                    {\n                        zero_count = 0;\n                    }\n\n                    do_append(digit);")],
 demo=r'''#include "Awl/Decimal.h"
using D = awl::decimal<std::uint64_t, 4>;
int main() { D a(std::string_view("1.0901")); return a.exponent() == 4 && a.unsigned_mantissa() == 10901 && D(std::string_view("1.00905")).unsigned_mantissa() == 100905 ? 0 : 1; }
'''),
dict(id="decimal-add-align", property="C19", needs="a sum of decimals in which the one with fewer digits is the left one and negative", breaks="the sign is lost when the left-hand side is aligned",
 edits=[("Awl/Decimal.h", "            else if (b.m_data.exp() > a.m_data.exp())\n            {\n                a.rescale_self(b.m_data.exp());\n            }", "            else if (b.m_data.exp() > a.m_data.exp())\n            {\n                a = decimal(static_cast<Int>(a.unsigned_mantissa()), a.exponent()).rescale(b.exponent());\n            }")],
 demo=r'''#include "Awl/Decimal.h"
using D = awl::decimal<std::uint64_t, 4>;
int main() { D a(-5, 1), b(125, 2); return a + b == D(75, 2) && b + a == D(75, 2) && a - b == D(-175, 2) ? 0 : 1; }
'''),
]
