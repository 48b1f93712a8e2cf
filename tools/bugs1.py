BUGS = [
dict(id="crc-table-entry", property="C06", needs="data that makes the running checksum select one particular table entry", breaks="one of the 256 CRC table entries has one wrong bit, so some byte ranges hash differently from the specification",
 edits=[("Awl/Crypto/Crc64.h", "UINT64_C(0x4d06c6676eae0222)", "UINT64_C(0x4d06c6676eae0232)")],
 demo=r'''#include <cstdint>
#include <iterator>
#include <vector>
#include <cstring>
#include "Awl/Crypto/Crc64.h"
#include "Awl/Int2Array.h"
static std::uint64_t ref(std::uint64_t c, std::uint8_t b) { c ^= b; for (int i = 0; i < 8; ++i) c = c & 1 ? (c >> 1) ^ 0x95ac9329ac4bc9b5ull : c >> 1; return c; }
int main() { for (int b = 0; b < 256; ++b) { std::uint8_t d[1] = {(std::uint8_t)b}; auto h = awl::crypto::Crc64()(d, d + 1); if (awl::from_array<std::uint64_t>(h) != ref(127, d[0])) return 1; } return 0; }
'''),
dict(id="ring-push-front-leak", property="C11", needs="push_front on a full ring of elements that own something", breaks="the overwritten element is not destroyed",
 edits=[("Awl/Ring.h", "            if (saved_full)\n            {\n                m_data->~T();\n            }\n            else\n            {\n                ++m_size;\n            }", "            if (!saved_full)\n            {\n                ++m_size;\n            }")],
 demo=r'''#include <memory>
#include "Awl/Ring.h"
int main() { auto p = std::make_shared<int>(1); { awl::ring<std::shared_ptr<int>> r(2); for (int i = 0; i < 5; ++i) r.push_front(p); if (p.use_count() != 3) return 1; } return p.use_count() == 1 ? 0 : 1; }
'''),
dict(id="observable-set-clear-order", property="C14", needs="an observer that looks at the set while it is notified about clearing", breaks="clear() notifies after the elements are gone instead of before",
 edits=[("Awl/ObservableSet.h", "                m_observable.Notify(&INotifySetChanged<T>::OnClearing);\n                m_set.clear();\n", "                m_set.clear();\n                m_observable.Notify(&INotifySetChanged<T>::OnClearing);\n")],
 demo=r'''#include "Awl/StringFormat.h"
#include "Awl/ObservableSet.h"
struct O : awl::Observer<awl::INotifySetChanged<int>> { awl::observable_set<int> &s; int sum = 0, n = 0; O(awl::observable_set<int> &x) : s(x) {} void OnAdded(const int &) override {} void OnRemoving(const int &) override {} void OnClearing() override { ++n; for (int i : s) sum += i; } };
int main() { awl::observable_set<int> s; O o(s); s.Subscribe(&o); s.insert(1); s.insert(2); s.clear(); return o.n == 1 && o.sum == 3 && s.empty() ? 0 : 1; }
'''),
dict(id="update-queue-unlocked-append", property="C16", needs="two threads that queue updates (or one that queues while another applies) at the same moment", breaks="the update is appended to the pending list outside the lock, so it can be lost or corrupt the list", flags="-fsanitize=thread",
 edits=[("Awl/UpdateQueue.h", "            std::lock_guard<std::recursive_mutex> lock(queueMutex);\n\n            Message * p_message = nullptr;\n", "            std::unique_lock<std::recursive_mutex> lock(queueMutex);\n\n            Message * p_message = nullptr;\n"), ("Awl/UpdateQueue.h", "            p_message->Func = func;\n\n            pendingMessages", "            p_message->Func = func;\n\n            lock.unlock();\n\n            pendingMessages")],
 demo=r'''#include "Awl/UpdateQueue.h"
#include <thread>
#include <cstdio>
int main() { for (int k = 0; k < 20; ++k) { awl::UpdateQueue<int> q; int sum = 0; auto f = [&] { for (int i = 0; i < 50; ++i) q.Push([&](int x) { sum += x; }); }; std::thread a(f), b(f); for (int i = 0; i < 20; ++i) q.ApplyUpdates(1); a.join(); b.join(); q.ApplyUpdates(1); if (sum != 100) return 1; } return 0; }
'''),
dict(id="validate-enum-count", property="C22", needs="an enum value that is exactly the number of enumerators", breaks="validate_enum accepts the value just behind the last enumerator",
 edits=[("Awl/EnumTraits.h", "        if (int_val >= EnumTraits<T>::count())\n        {\n            raise_wrong_enum_value(val);", "        if (int_val > EnumTraits<T>::count())\n        {\n            raise_wrong_enum_value(val);")],
 demo=r'''#include "Awl/EnumTraits.h"
namespace n { AWL_SEQUENTIAL_ENUM(Col, Red, Green, Blue) }
AWL_ENUM_TRAITS(n, Col)
int main() { for (int i = 0; i < 256; ++i) { bool thrown = false; try { awl::validate_enum((n::Col)i); } catch (const std::exception &) { thrown = true; } if (thrown != (i > 2)) return 1; } return 0; }
'''),
dict(id="string-read-keeps-tail", property="C01", needs="a destination string that is longer than the string in the stream", breaks="reading a string into a longer one keeps the old tail",
 edits=[("Awl/Io/Rw/StringReadWrite.h", "        val.resize(len);\n", "        //There is enough room in a longer string.\n        if (val.size() < len)\n        {\n            val.resize(len);\n        }\n")],
 demo=r'''#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/VectorStream.h"
int main() { std::vector<std::uint8_t> v; awl::io::VectorOutputStream o(v); awl::io::Write(o, std::string("abc")); std::string s = "something else"; awl::io::VectorInputStream i(v); awl::io::Read(i, s); return s == "abc" ? 0 : 1; }
'''),
dict(id="vector-set-uncle-color", property="C10", needs="a long run of insertions in one direction", breaks="the mirrored rebalancing case does not recolour the uncle, so the tree loses its balance",
 edits=[("Awl/VectorSet.h", "                    y = x->parent->parent->left;\n                    if (y != nullptr && y->color == Color::Red)\n                    {\n                        x->parent->color = Color::Black;\n                        y->color = Color::Black;\n                        x->parent->parent->color = Color::Red;\n\n                        x = x->parent->parent;", "                    y = x->parent->parent->left;\n                    if (y != nullptr && y->color == Color::Red)\n                    {\n                        x->parent->color = Color::Black;\n                        x->parent->parent->color = Color::Red;\n\n                        x = x->parent->parent;")],
 demo=r'''#include "Awl/StringFormat.h"
#include "Awl/VectorSet.h"
static int n; struct L { bool operator()(int a, int b) const { ++n; return a < b; } };
int main() { int worst = 0; for (int dir = 0; dir < 2; ++dir) { awl::vector_set<int, L> s; for (int i = 0; i < 4096; ++i) s.insert(dir ? i : -i); for (int i = 0; i < 4096; ++i) { n = 0; s.contains(dir ? i : -i); if (n > worst) worst = n; } } return worst <= 2 * 26 ? 0 : 1; }
'''),
dict(id="uint128-high-digits", property="C30", needs="a 128-bit integer of at least 2^64 whose quotient by some power of ten has only zeros in its low 64 bits", breaks="the digit loop looks at the low half only and drops the leading digits",
 edits=[("Awl/String.h", "            while (val != 0);", "            while (static_cast<uint64_t>(val) != 0);")],
 demo=r'''#include "Awl/String.h"
#include <sstream>
#include <iomanip>
int main() { std::ostringstream s; __uint128_t v = (__uint128_t)10 << 64; awl::operator<<(s << std::setw(25) << std::setfill('0'), v); return s.str() == "0000184467440737095516160" ? 0 : 1; }
'''),
dict(id="splice-front-empty", property="C12", needs="a non-empty list spliced in front of another non-empty list and then walked backwards", breaks="splicing a list in front leaves the backward chain unfinished",
 edits=[("Awl/QuickList.h", "DLink * old_last = this->first(); //the last element in the backward list", "DLink * old_last = this->last(); //the last element in the backward list")],
 demo=r'''#include "Awl/QuickList.h"
struct E : awl::quick_link { int v; E(int x) : v(x) {} };
int main() { E a(1), b(2), c(3), d(4); awl::quick_list<E> x{&a, &b}, y{&c, &d}; x.push_front(y); int k = 0; int w[] = {2, 1, 4, 3}; bool ok = true; for (auto i = x.rbegin(); i != x.rend(); ++i) ok = ok && k < 4 && (*i)->v == w[k++]; ok = ok && k == 4; x.clear(); return ok ? 0 : 1; }
'''),
dict(id="pool-owner-before-link", property="C15", needs="the allocation of the shared pointer's control block fails", breaks="the shared pointer is made before the object is linked into the list of used objects, so a failed allocation unlinks an object that is in no list",
 edits=[("Awl/ObjectPool.h", "            m_used.push_back(p);\n\n            return MakePointer(p);", "            auto result = MakePointer(p);\n\n            m_used.push_back(p);\n\n            return result;")],
 demo=r'''#include <cstdlib>
#include <new>
static int fail = -1; void *operator new(std::size_t n) { if (fail >= 0 && fail-- == 0) throw std::bad_alloc(); return std::malloc(n); } void operator delete(void *p) noexcept { std::free(p); } void operator delete(void *p, std::size_t) noexcept { std::free(p); }
#include "Awl/ObjectPool.h"
static int dead; struct T : awl::pooled_object { ~T() { ++dead; } void Finalize() override {} };
int main() { for (int k = 0; k < 3; ++k) { dead = 0; int made = 0; { awl::object_pool<T> p; fail = k; try { auto a = p.make(); } catch (const std::bad_alloc &) {} made = fail < 0 && k == 0 ? 0 : 1; fail = -1; } if (dead != made) return 1; } return 0; }
'''),
dict(id="unique-key-compare-swapped", property="C21", needs="lookup of a bare key in a set of unique pointers", breaks="comparing a bare key with an element uses the opposite order if the element is a unique_ptr",
 edits=[("Awl/KeyCompare.h", "        constexpr bool operator()(const key_type & id, const std::unique_ptr<T, Deleter> & val) const\n        {\n            return m_comp(id, getKey(*val));", "        constexpr bool operator()(const key_type & id, const std::unique_ptr<T, Deleter> & val) const\n        {\n            return !m_comp(getKey(*val), id);")],
 demo=r'''#include "Awl/KeyCompare.h"
struct P { int a; };
int main() { awl::unique_compare<&P::a> c; auto p = std::make_unique<P>(); for (int e = 0; e < 3; ++e) for (int k = 0; k < 3; ++k) { p->a = e; if (c(k, p) != (k < e) || c(p, k) != (e < k)) return 1; } return 0; }
'''),
dict(id="notify-while-true-next", property="C13", needs="an observer that unsubscribes or destroys itself from within a notification that can be stopped", breaks="the iterator is advanced after the call, when the observer has already left the list",
 edits=[("Awl/Observable.h", "                IObserver* p_observer = *(i++);\n\n                if (!(p_observer->*func)(args ...))\n                {\n                    return false;\n                }\n", "                IObserver* p_observer = *i;\n\n                if (!(p_observer->*func)(args ...))\n                {\n                    return false;\n                }\n\n                ++i;\n")],
 demo=r'''#include "Awl/Observable.h"
struct I { virtual bool f() = 0; }; struct O : awl::Observer<I> { int n = 0; bool once; O(bool o) : once(o) {} bool f() override { ++n; if (once) UnsubscribeSelf(); return true; } }; struct S : awl::Observable<I> { bool go() { return NotifyWhileTrue(&I::f); } };
int main() { O a(false), b(true), c(false); S s; s.Subscribe(&a); s.Subscribe(&b); s.Subscribe(&c); bool r = s.go(); return r && a.n == 1 && b.n == 1 && c.n == 1 && s.size() == 2 ? 0 : 1; }
'''),
]
