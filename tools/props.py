NOTE = {}
prop("C01", "Plain serialization round-trips every value and consumes exactly its bytes",
 "Whatever value of a supported type is written with the plain writer (arithmetic types, bool, enums, strings, byte arrays, fixed-size arrays, optional, pointers, variant, bitset, vectors, deques, maps, sets, decimals, chrono values, tuple-like structures and compositions of these) is read back equal by the plain reader into any destination object, regardless of what the destination held. Reading consumes exactly the bytes that writing produced, and a measuring stream reports exactly that number of bytes. Two values written one after another are read back in order.",
 "inputs", "every value of the supported types (sizes bounded) and every previous content of the destination",
 "The serialization tests write a handful of fixed or random values into freshly constructed destinations; they do not range over all bit patterns, sizes, empty/non-empty destinations and type compositions.",
 ["Awl/Io/ReadWrite.h", "Awl/Io/PlainSerializable.h", "Awl/Io/PlainReader.h", "Awl/Io/Rw"],
 [("Read/Write overloads per type", "Awl/Io/Rw/*.h"), ("length-prefixed collections", "Awl/Io/Rw/Range.h"), ("MeasureStream", "Awl/Io/MeasureStream.h")], ["awl::io::Read/Write", "VectorInputStream position"])
prop("C02", "Reading malformed or truncated input throws and stays memory-safe",
 "Reading any supported type from any byte sequence whatsoever either produces a valid value of that type or throws an exception; it never reads outside the buffer, never overruns or corrupts memory, never creates a value outside the type (such as a bool other than true or false, or a variant alternative that does not exist), and never leaks. A strict prefix of a serialized value is always rejected with an end-of-file style input/output exception.",
 "inputs fault_sequences", "every byte sequence up to the bound, every truncation point, every declared length",
 "Tests read back only what the writer produced (plus one or two hand-made corruptions); they cannot try every corrupted byte, length prefix or truncation point.",
 ["Awl/Io/Rw", "Awl/Io/VectorStream.h", "Awl/Io/IoException.h", "Awl/Io/ReadWrite.h"],
 [("EndOfFileException from ReadRaw", "Awl/Io/ReadWrite.h, Awl/Io/IoException.h"), ("CorruptionException on bad bool/variant index", "Awl/Io/Rw")], ["exceptions thrown by awl::io::Read"])
prop("C03", "Version tolerant reading maps old fields by name and type, whatever the order",
 "A structure written by one version of a program is read by another version with each field that has the same name and type getting exactly the written value, whatever the order of the fields; fields the reader does not know are skipped, fields the writer did not have keep the value the reader's object had, and the stream is left exactly behind the structure. The same holds for nested structures and for variants and collections of structures.",
 "inputs configurations programs", "every field value and every pair of old/new schemas in the checked family (added, removed, reordered, nested fields)",
 "VtsTest checks a few hand-written pairs of structures with fixed values; it does not range over the field values or over all insert/delete/reorder combinations.",
 ["Awl/Io/Reader.h", "Awl/Io/Writer.h", "Awl/Io/Vts.h", "Awl/Io/Metadata.h", "Awl/Io/FieldMap.h", "Awl/Io/VersionTolerantSerializable.h"],
 [("type prototypes in the stream", "Awl/Io/Metadata.h, Awl/Prototype.h"), ("field mapping and skipping", "Awl/Io/Reader.h")], ["VersionTolerantSerializable::Read"])
prop("C04", "A failed read leaves the previously held value unchanged",
 "When reading into a serializable holder fails with an exception at any point of the input, the held value is exactly what it was before the read, and the holder stays usable for another read. When it succeeds the held value is the one that was written.",
 "inputs fault_sequences", "every failure point of the input stream, every corruption within the bound, every previously held value",
 "Tests trigger a failing read at one or two hand-picked places and compare one value.",
 ["Awl/Io/PlainSerializable.h", "Awl/Io/VersionTolerantSerializable.h", "Awl/Io/Snapshotable.h", "Awl/Io/HashingSerializable.h"],
 [("read into a temporary, then move", "Awl/Io/PlainSerializable.h"), ("snapshot and restore for non-movable values", "Awl/Io/Snapshotable.h")], ["Serializable::Read"])
prop("C05", "Hashing and buffering streams are transparent and detect any alteration",
 "Data written through a hashing output stream is returned unchanged by the matching hashing input stream however the writes and reads are split and whatever the block size. A stream that was truncated, or in which a block or its hash was altered so that they no longer match, is reported with an exception instead of returning altered data as if it were valid. A buffered stream delivers exactly the bytes written to it, in order, whatever the sizes of the individual writes, reads and of its buffer.",
 "inputs fault_sequences histories", "every content, every split into writes and reads, every block/buffer size in the bound, every single altered byte",
 "HashStreamTest uses a few random vectors and one kind of corruption with fixed block sizes.",
 ["Awl/Io/HashStream.h", "Awl/Io/BufferedStream.h", "Awl/Io/HashingSerializable.h"],
 [("block hash verification", "Awl/Io/HashStream.h"), ("buffer refill/flush", "Awl/Io/BufferedStream.h")], ["HashInputStream::Read", "HashOutputStream::Write"])
prop("C06", "CRC64 matches its specification and composes; integers convert to bytes and back",
 "The CRC64 hash of any byte range equals the bit-by-bit CRC with the documented polynomial, initial value and reflection; hashing a range piece by piece gives the same result as hashing it at once, and any single-bit change of the data changes the hash. Converting an integer to a byte array and back is the identity for every value, with the documented byte order.",
 "inputs", "every byte string up to the bound, every split point, every 8/16/32/64-bit value",
 "HashTest compares a couple of known strings; equality with the specification for all inputs is not settled by samples.",
 ["Awl/Crypto/Crc64.h", "Awl/Int2Array.h", "Awl/Crypto/IntHash.h", "Awl/Crypto/FixedHash.h"],
 [("table driven CRC", "Awl/Crypto/Crc64.h"), ("shift based conversion", "Awl/Int2Array.h")], ["Crc64::operator()", "to_array/from_array"])
prop("C07", "AtomicStorage survives a crash at any point of a save",
 "For a storage that was loaded after it was opened: if the process or machine stops at any point while a value is being saved, losing or tearing whatever was not flushed to the disk, opening and loading afterwards yields either the complete previously saved value or the complete new one, never a mixture, a partial value or a failure, and the next save and load work normally. A save that returned normally is what the next load yields. A master file damaged by an interrupted save is recovered from the backup, also when the recovery is itself interrupted. The same holds for saving a snapshot and for a persistent object, and when a save failed with an I/O error before the interrupted one.",
 "crash_points fault_sequences histories", "every crash point among the file operations of a save (including torn writes), every sequence of saves and crashes in the bound, every value",
 "AtomicStorageTest simulates a few failures by hand; it never stops between two arbitrary file operations or loses unsynced data.",
 ["Awl/Io/AtomicStorage.h", "Awl/Io/AtomicStorage.cpp", "Platforms/Posix"],
 [("write backup, flush, write master, flush", "Awl/Io/AtomicStorage.cpp"), ("load master, else backup", "Awl/Io/AtomicStorage.cpp")], ["AtomicStorage::Load/Save"])
prop("C08", "Storage failures are reported, and optional storage never fails",
 "A failing or short write, truncate, seek or flush of the underlying file makes a save fail with an exception rather than report success, and loses neither the value in memory nor the last saved one. A native stream performs exactly the requested operation, returns exactly the bytes that the system delivered, in order, also with short reads, and reports every failing call with an exception; each file handle is closed exactly once. Optional storage tolerates files that cannot be opened (loading then keeps the default values and saving does nothing) and saves that fail, which it logs.",
 "fault_sequences inputs", "every failing system call, every short read/write pattern in the bound",
 "The tests run on a healthy file system where no call ever fails or returns a short count.",
 ["Platforms/Posix", "Awl/Io/OptionalStorage.cpp", "Awl/Io/AtomicStorage.cpp"],
 [("system call result checks", "Platforms/Posix/Awl/Io/Native"), ("try/catch in optional storage", "Awl/Io/OptionalStorage.cpp")], ["exceptions and return values"])
prop("C09", "A versioned header accepts exactly matching data",
 "Data written by a holder with a format name and version header is accepted by a holder with the same format name and version and yields the written value. Data with a different format name or version, or with an altered or truncated header, is rejected with the corresponding exception and the held value is not changed.",
 "inputs configurations fault_sequences", "every value, every version number, every altered header byte",
 "The tests check one right and one wrong header.",
 ["Awl/Io/HeaderedSerializable.h", "Awl/Io/PrototypeContainer.h", "Awl/Io/EuphoricallySerializable.h"],
 [("header comparison", "Awl/Io/HeaderedSerializable.h")], ["Serializable::Read"])
prop("C10", "vector_set is an ordered set with correct positions after any history",
 "After any sequence of insertions, emplacements, erasures, copies, moves and clears, a vector_set holds exactly the expected elements in comparator order with no duplicates; find, contains, bounds, index lookup, at, index_of and forward and reverse iteration all agree with that order and report absent keys and out-of-range positions as documented. Iterators and references to the other elements stay valid over insertions and erasures, nothing is leaked even when an element constructor throws, and after insertions a lookup visits a logarithmic number of elements.",
 "histories inputs", "every relative order of keys and every operation history within the bound",
 "VectorSetTest compares against std::set along random histories; it cannot cover every order of insertions and erasures, and checks neither the depth nor exception paths.",
 ["Awl/VectorSet.h", "Awl/DoubleNodeIterator.h", "Awl/KeyCompare.h"],
 [("red-black rebalancing with subtree counts", "Awl/VectorSet.h"), ("heterogeneous comparison", "Awl/KeyCompare.h")], ["the public interface of vector_set"], [("subtree count", "number of nodes below a node, used for positions", "Awl/VectorSet.h Node::count")])
prop("C11", "ring is a bounded FIFO that overwrites its oldest element when full",
 "After any sequence of pushes, pops, clears, copies, moves and assignments a ring holds exactly the most recent elements, at most its capacity, in order; size, capacity, empty, front, back, indexing, at and iteration agree with that, and at throws for every position that is not less than the size. Elements are destroyed exactly once and nothing is leaked, including when a pushed value aliases an element of the same ring.",
 "histories inputs", "every operation history within the bound, every capacity in the bound, every index and value",
 "RingTest runs a few fixed histories on one or two capacities.",
 ["Awl/Ring.h"], [("head/size arithmetic modulo capacity", "Awl/Ring.h"), ("placement construction and destruction", "Awl/Ring.h")], ["the public interface of ring"])
prop("C12", "Intrusive lists keep order and membership over any history",
 "After any sequence of pushes, insertions, pops, erasures, exclusions, splices and moves, an intrusive list visits exactly its members in order, forwards and backwards, and its size and emptiness queries agree; a node knows whether it is in a list, and leaves it when it is excluded, erased, popped or destroyed. A movable node that is moved takes the place of its source in the list, and a node that is linked into several lists is a member of each independently.",
 "histories", "every operation history within the bound",
 "ListTest checks a few fixed sequences.",
 ["Awl/QuickList.h", "Awl/QuickLink.h", "Awl/SingleList.h", "Awl/SingleLink.h", "Awl/DoubleIterator.h"],
 [("circular double linking", "Awl/QuickLink.h, Awl/QuickList.h"), ("link stealing on move", "Awl/QuickLink.h")], ["iteration over the lists"])
prop("C13", "Every subscribed observer is notified exactly once, in subscription order",
 "Notifying an observable calls every observer that is subscribed at that time exactly once, in the order of subscription, with the given arguments, and no other observer; this holds after any sequence of subscriptions, unsubscriptions, moves and destructions of observers and observables, and also when an observer unsubscribes or destroys itself from within its own notification. Destroying an observable or an observer in any order leaves the others safe to use, and an observer that throws does not corrupt the subscription list.",
 "histories", "every history of subscribe/unsubscribe/move/destroy/notify operations within the bound",
 "ObservableTest walks through a couple of fixed scenarios.",
 ["Awl/Observable.h", "Awl/QuickLink.h"], [("intrusive observer list", "Awl/Observable.h"), ("next pointer taken before the call", "Awl/Observable.h Notify")], ["observer callbacks"])
prop("C14", "Observable, mirror and foreign sets reflect every change of the source",
 "An observable set notifies each actual insertion and removal exactly once with the affected element (insertions after, removals before they happen) and notifies nothing when the set does not change; clearing is notified once. A mirror set that subscribed to a source contains at any time exactly what the source contains, and a foreign key set keeps consistent with its source likewise, whatever the sequence of operations.",
 "histories inputs", "every operation history within the bound and every order of keys",
 "The tests follow one fixed sequence with fixed keys.",
 ["Awl/ObservableSet.h", "Awl/MirrorSet.h", "Awl/ForeignSet.h"], [("notification around the inner vector_set", "Awl/ObservableSet.h"), ("copy by notification", "Awl/MirrorSet.h, Awl/ForeignSet.h")], ["INotifySet callbacks", "contents of the mirror"])
prop("C15", "object_pool reuses objects but never hands one out twice",
 "An object obtained from a pool is never handed out again while any reference to it exists; when the last reference goes away it is finalized exactly once and becomes available for reuse, and a new object is created only if none is available. Clearing the pool destroys exactly the objects that are not in use, and every object is destroyed exactly once.",
 "histories", "every history of make/add/copy/drop/clear within the bound",
 "ObjectPoolTest counts instances on one fixed history.",
 ["Awl/ObjectPool.h", "Awl/PooledObject.h"], [("shared_ptr deleter returns the object to the free list", "Awl/ObjectPool.h")], ["shared pointers", "Finalize calls"])
prop("C16", "UpdateQueue applies every queued update once, in order, from any thread",
 "Every notification that a thread puts into an update queue is delivered to the observers exactly once, by the thread that applies the updates and only then, in the order in which each thread queued them, with the arguments it was queued with; nothing is delivered before or after. This holds for every interleaving of the queueing threads with the applying one, without data races or deadlocks.",
 "schedules histories", "every interleaving (bounded preemptions) of queueing threads and an applying thread, every argument value",
 "UpdateQueueTest runs one or two threads once; a schedule that loses or reorders an update need not occur.",
 ["Awl/UpdateQueue.h", "Awl/OptionalMutex.h"], [("mutex-protected pending list", "Awl/UpdateQueue.h")], ["observer callbacks"])
prop("C17", "Decimal text conversion is exact in both directions",
 "Parsing the text of a decimal number (narrow or wide characters: an optional sign, digits, at most one point) yields exactly the number it denotes, with as many digits as the fraction has without its trailing zeros, whenever that number of digits and the mantissa fit; formatting prints the sign, the integer part without leading zeros and exactly as many fraction digits as the decimal has, and parsing that text gives the same number again. Text that is not a number or does not fit is rejected with an exception and never accepted with a wrong value, however long it is. (Text without any digit, such as the empty string, is not specified.)",
 "inputs", "every text up to the bounded length, every mantissa and digit count",
 "DecimalTest lists some dozens of literals.",
 ["Awl/Decimal.h", "Awl/DecimalData.h", "Awl/DecimalConstants.h"], [("digit loop", "Awl/Decimal.h")], ["decimal(string_view)", "to_string"])
prop("C18", "Decimal comparison is a total order that agrees with the numeric value",
 "Any two decimals compare exactly as the rational numbers they represent, regardless of how many digits each has; comparison is a strict total order, equality is consistent with it and zero equals negative zero. Comparing never overflows or depends on the representation.",
 "inputs", "every pair (triple) of representable decimals",
 "DecimalTest compares a few literals.",
 ["Awl/Decimal.h"], [("rescaling comparison", "Awl/Decimal.h")], ["operators <, ==, ..."])
prop("C19", "Decimal arithmetic is exact, or throws",
 "Adding and subtracting decimals gives exactly the mathematical sum or difference with the larger number of digits of the operands, and awl::multiply exactly the product with the sum of their digits; each throws std::logic_error, and never delivers a wrong value, if and only if an operand or the result does not fit into the mantissa at that number of digits (or the digits exceed the maximum). The compound operators leave their operand unchanged when they throw. Negation and the conversion from and to a mantissa and bits are exact; a mantissa that does not fit is rejected. (The operators that work through double are documented as inexact and not meant.)",
 "inputs", "every pair of decimals within the mantissa bounds, including the extremes",
 "DecimalTest adds and multiplies a few literals, far from overflow.",
 ["Awl/Decimal.h"], [("mantissa arithmetic with common exponent", "Awl/Decimal.h")], ["operators +, -, +=, -=, unary -, multiply, set_mantissa"])
prop("C20", "Decimal rounding, rescaling and time conversion keep their contracts",
 "Changing the number of digits of a decimal (rescale, extend, rescaled_mantissa) preserves its value exactly and throws if and only if the value would not fit or digits other than zero would be lost; rescale without the check and truncate cut off the digits towards zero, floor rounds towards minus infinity and ceil towards plus infinity, for positive and negative numbers; normalize removes exactly the trailing zeros. decimal_to_nanoseconds delivers exactly the number of nanoseconds of a decimal number of seconds (cutting off what is below a nanosecond) or throws if it does not fit.",
 "inputs", "every mantissa and every pair of digit counts",
 "DecimalTest samples a few values, hardly any negative.",
 ["Awl/Decimal.h", "Awl/DecimalTime.h"], [("rescale", "Awl/Decimal.h")], ["rescale/extend/truncate/floor/ceil/normalize", "decimal_to_nanoseconds"])
prop("C21", "The comparators are strict weak orders and support lookup by key",
 "The composite, transparent composite, reverse, pointer and member comparators are strict weak orders whenever their components are: irreflexive, asymmetric, transitive, with transitive incomparability; the composite one orders lexicographically by its components and reverse ones exactly oppositely. Comparing an element with a bare key gives the same answer as comparing with an element having that key, in both argument orders.",
 "inputs", "all triples of elements and keys",
 "The tests sort one or two small containers.",
 ["Awl/KeyCompare.h", "Awl/CompositeCompare.h", "Awl/TransparentCompositeCompare.h", "Awl/ReverseCompare.h"], [("operator()", "the comparator headers")], ["comparator calls"])
prop("C22", "Enums convert safely and bitmaps are exact sets of enum values",
 "Converting an enum to its index, name or back is the identity for every value of the enum, and throws for every value, index or name outside it; case-insensitive conversion accepts exactly the names that match up to case. A bitmap behaves as the set of enum values put into it under all its operators, whatever the number of enum values, and rejects a value outside the enum.",
 "inputs", "every 8-bit value, every name up to the bound, every pair of bitmap contents",
 "BitMapTest tries a few flags of one small enum.",
 ["Awl/EnumTraits.h", "Awl/BitMap.h", "Awl/Reflection.h"], [("index check", "Awl/EnumTraits.h"), ("std::bitset", "Awl/BitMap.h")], ["enum_to_string, enum_from_string, bitmap operators"])
prop("C23", "Generators yield exactly the produced sequence and propagate exceptions",
 "Iterating over a generator or an asynchronous generator yields exactly the values that its body yields, in order and lazily, then ends; an exception thrown by the body reaches the consumer at that point. Abandoning a generator at any point, moving it, or never starting it destroys its frame exactly once and leaks nothing.",
 "inputs histories fault_sequences", "every number of yielded and consumed values, throw and abandon points within the bound",
 "CoroFibonacciTest and CoroAsyncGeneratorTest consume one sequence to the end.",
 ["Awl/Coro/Generator.h", "Awl/Coro/AsyncGenerator.h"], [("promise and iterator", "Awl/Coro/Generator.h")], ["iteration"])
prop("C24", "Coroutine tasks deliver their result once and never leak or resume twice",
 "Awaiting a task yields exactly the value or the exception that its body ended with, after the body has run exactly once; tasks started or awaited in any nesting resume their awaiters exactly once. Destroying, moving or abandoning a task at any point destroys its frame exactly once; an update task that was released goes on to its end without an owner and then destroys its frame.",
 "histories inputs fault_sequences", "every nesting, suspension and failure point within the bound",
 "The coroutine tests run a couple of fixed task graphs.",
 ["Awl/Coro/ProcessTask.h", "Awl/Coro/UpdateTask.h"], [("promise, awaiter and continuation", "Awl/Coro/ProcessTask.h, Awl/Coro/UpdateTask.h")], ["co_await results"])
prop("C25", "Stop tokens deliver a stop request to every callback exactly once",
 "In the stop token and joining thread library that Awl brings for platforms without std::jthread, a stop request succeeds for exactly one requester and is seen by every token of the same state; each registered callback runs exactly once if it is registered before the request and not destroyed first, immediately if registered afterwards, and never after its destructor returned, also when callbacks destroy themselves or each other. The shared state lives exactly as long as a source, token or callback refers to it. A joining thread requests a stop and waits for its thread when it is destroyed or assigned to, and a wait of the condition variable with a stop token ends when its condition holds, when a stop is requested or when its time has passed and returns whether the condition holds. This holds for every interleaving, without races, deadlocks, lost wake-ups or leaks.",
 "schedules histories", "every interleaving (bounded preemptions) of requesters, registrations, destructions and waits",
 "The stop token tests run some threads once; the windows between registration, execution and destruction are not explored.",
 ["Extras/JThread/JThreadExtras/stop_token.hpp", "Extras/JThread/JThreadExtras/jthread.hpp", "Extras/JThread/JThreadExtras/condition_variable_any2.hpp"], [("state word with lock bit", "Extras/JThread stop_token"), ("destructor and assignment", "Extras/JThread jthread"), ("interruptible waits", "Extras/JThread condition_variable_any2")], ["callback executions", "return values"])
prop("C26", "An interruptible sleep ends by its deadline or on a stop request, never lost",
 "awl::sleep_for returns when its time has passed or as soon as a stop was requested, whichever comes first, and not before; a stop request made at any moment, also before the sleep or just before the wait begins, is never lost. A watch_dog runs its action at most once, only after its time has passed and never after it was destroyed; its own token is stopped when the time has passed, when the token that it was given is stopped or when the watch_dog is destroyed.",
 "schedules", "every interleaving (bounded preemptions) of the waiting thread with a requesting thread and the passage of time",
 "CancellationTest depends on the wall clock and one schedule.",
 ["Awl/Sleep.h", "Awl/WatchDog.h"], [("condition variable with stop token", "Awl/Sleep.h"), ("timer thread", "Awl/WatchDog.h")], ["return of sleep_for", "action and token of watch_dog"])
prop("C27", "A scope guard runs its callback exactly once unless released",
 "The callback of a scope guard runs exactly once, when the guard that finally owns it goes out of scope by normal exit or by an exception, and only if the guard was created engaged and was not released. Moving or move-assigning a guard hands over the callback together with its engaged state, so the source never runs it and a released or disengaged guard stays so; an initializer runs at once and only for an engaged guard.",
 "histories inputs", "every combination of engaged flag, releases, moves, assignments and exit paths",
 "ScopeGuardTest never moves a guard explicitly and never leaves the scope by an exception.",
 ["Awl/ScopeGuard.h"], [("engaged flag", "Awl/ScopeGuard.h")], ["callback executions"])
prop("C28", "unique_ptr destroys its object exactly once",
 "After any sequence of constructions, moves, assignments (also to itself), resets, releases and swaps every object owned by a unique pointer is destroyed exactly once, at the time its owner lets go of it, a released object is not destroyed, and get, dereference, conversion to bool and the comparisons reflect the ownership.",
 "histories", "every operation history within the bound",
 "UniquePtrTest checks one move and one release.",
 ["Awl/UniquePtr.h"], [("reset/release", "Awl/UniquePtr.h")], ["destructor calls"])
prop("C29", "Aggregators, singletons, separators and name lists follow their protocols",
 "An aggregator calls its function when the last missing argument has been set, with exactly the values set last, not before and never after it was cancelled. A shared singleton is created once and never again after it was destroyed, an on-demand one is created again exactly when none is alive; a separator prints nothing the first time and its text every other time; the list of member names has exactly the declared names in order and finds each of them, and the static chain and factory find exactly the registered names. A position check reports a moved element exactly when its neighbours show that the order is broken.",
 "histories inputs", "every order of set/cancel calls, every acquisition and release history, every value and name within the bound",
 "Each of the utilities has one short test with fixed values.",
 ["Awl/Aggregator.h", "Awl/SharedSingleton.h", "Awl/Separator.h", "Awl/Reflection.h", "Awl/RangeUtil.h", "Awl/StaticChain.h", "Awl/StaticFactory.h"], [("optional tuple", "Awl/Aggregator.h"), ("weak pointer", "Awl/SharedSingleton.h"), ("comma splitting", "Awl/Reflection.h"), ("registration in a static list", "Awl/StaticChain.h")], ["callback executions", "returned pointers"])
prop("C30", "String utilities compare, convert and format every input correctly",
 "Case-insensitive comparison of texts is a strict weak order that agrees with comparing the lower-cased texts, and case-insensitive equality is consistent with it. Formatting a 128-bit integer writes its exact decimal representation, padded with the fill character to the requested width and no further (a width with a signed 128-bit integer is rejected). Fixed strings compare, concatenate and convert as the character sequences they hold, converting ASCII text between narrow and wide strings loses nothing, and a formatter writes exactly its values one after another.",
 "inputs", "every string up to the bound, every integer value near the boundaries and every small one",
 "StringTest checks a few literals.",
 ["Awl/String.h", "Awl/StringFormat.h", "Awl/FixedString.h", "Awl/LogString.h"], [("tolower comparison", "Awl/String.h"), ("digit loop", "Awl/String.h operator << for __uint128_t"), ("character array", "Awl/FixedString.h")], ["function results"])
prop("C31", "The test runner runs exactly the selected tests and reads its attributes correctly",
 "Running all tests runs each registered test that the filter selects exactly once (or as many times as the loop attribute says), in the order of their names whatever order they were registered in, and stops at the first one that fails, whose failure is reported and whose output alone is kept; the output of the tests is shown, kept or discarded as the output attribute says and an unknown value is an error; two tests with one name and an unknown test name are errors; a test that exceeds its timeout is asked to stop, and otherwise sees the stop requests of the runner. An attribute has the value that its text begins with, or the default if it is absent, malformed or out of range of its type; the text of a value is read back as the value; lists and sets of words and numbers are read back. An assertion fails exactly when its condition does not hold, and an expected exception passes exactly when one of its type is thrown.",
 "inputs histories schedules", "every order of registration, filter, failing test, loop count, text and value within the bound",
 "The runner is the instrument of the tests themselves: a test that is silently skipped or an assertion that never fails passes.",
 ["Awl/Testing/TestMap.h", "Awl/Testing/TestMap.cpp", "Awl/Testing/TestChain.h", "Awl/Testing/TestAssert.h", "Awl/Testing/AttributeProvider.h", "Awl/Testing/LocalAttribute.h", "Awl/Testing/Formatter.h", "Awl/Testing/ScalarFormatter.h"], [("exceptions used for failures", "Awl/Testing/TestAssert.h"), ("conversion of attribute text", "Awl/Testing/ScalarFormatter.h"), ("output redirection", "Awl/Testing/TestMap.cpp")], ["order of test bodies", "thrown exceptions", "attribute values", "streams"])
