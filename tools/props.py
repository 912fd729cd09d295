#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "library/Java/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[L+f for f in files],
            state=[dict(name=a, meaning=b, where=L+c) for a, b, c in state],
            mechanism=[dict(name=a, where=L+b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

SEM="Util/Concurrent/Semaphore/Semaphore.cpp"
prop("C01","Semaphore never grants more permits than exist",
 "At every moment the permits granted by a semaphore never exceed the permits it started with plus those released so far, and the available count it reports is never negative. An acquisition of several permits takes all of them or none, and a failed attempt takes none. Once every call has returned, the available count equals initial plus released minus granted.",
 ["schedules","programs","fault_sequences"],"every interleaving of acquire, timed and untimed tryAcquire and release calls of any sizes from any number of threads, including spurious wakeups, timeouts and clock changes",
 "The tests start one or two threads and observe one interleaving of each; over-granting needs two callers between the check of the count and its decrement, or a wakeup that grants without a permit.",
 [SEM,"Util/Concurrent/Semaphore/Semaphore.hpp"],
 [("check-and-take of permits under the lock","Util/Concurrent/Semaphore/Semaphore.cpp: tryAcquire(int,long)"),("release under the lock","Util/Concurrent/Semaphore/Semaphore.cpp: release(int)")],
 [("available permits","number of permits nobody holds",SEM)],["Semaphore::availablePermits, acquire, tryAcquire, release return values"])
prop("C02","Blocked semaphore callers are always woken; timed attempts keep their deadline",
 "A caller blocked in acquire returns once enough permits are available to it, whatever the order of releases, the sizes other callers wait for, and spurious wakeups; a program whose releases cover its acquires always finishes. A timed attempt that is offered enough permits before its timeout succeeds, one that is not fails no earlier than its timeout and within a bounded time after it, and changes of the wall clock alter neither. Untimed attempts never block.",
 ["schedules","programs","fault_sequences"],"every interleaving, waiter mix, wakeup order, spurious wakeup and wall-clock jump",
 "A lost wakeup needs a release to fall in a window of a few instructions; deadlines are only met by luck on a real clock, so the semaphore tests are excluded as flaky.",
 [SEM],[("waiting on the condition and re-checking","Util/Concurrent/Semaphore/Semaphore.cpp: tryAcquire(int,long)"),("notification in release","Util/Concurrent/Semaphore/Semaphore.cpp: release(int)")],(),["return of acquire / tryAcquire, simulated clock"])
prop("C03","A started thread runs its task exactly once and join waits for its end",
 "Starting a thread object runs its task exactly once, in a new thread, concurrently with the caller. join returns only after the task has returned, with all the task's writes visible and the thread no longer reported alive; every join by every caller returns, and a timed join returns at the end of the task or of the timeout, whichever comes first, without affecting other joins. A thread is reported alive at every moment its task is executing.",
 ["schedules","programs","fault_sequences"],"every interleaving of start, join, timed join, isAlive and the task, from several threads",
 "The Thread test suite is excluded as flaky; each test sees one interleaving and a single joiner.",
 ["Lang/Thread/Thread.cpp","Lang/Thread/Thread.hpp"],
 [("completion signalling","Lang/Thread/Thread.cpp: run"),("waiting","Lang/Thread/Thread.cpp: join")],[("alive flag","task executing","Lang/Thread/Thread.hpp")],["start, join, isAlive, effects of the task"])
prop("C04","Thread identity, sleeping and destruction are safe",
 "Inside its task a thread's currentThread is its own thread object and its reported id is the id of the executing thread, distinct from that of every other running thread; sleeping suspends the caller for at least the requested time whatever interrupts it. Destroying a thread object that was started waits for the task, leaves no running code that uses the object, and releases everything it allocated. When the system cannot create a thread, start reports it and the object stays usable.",
 ["schedules","programs","fault_sequences"],"every interleaving, signal interruption of sleeps, and thread-creation failure",
 "Needs destruction to overlap the last instructions of the task, interrupted sleeps, and failing thread creation, none of which a test can produce.",
 ["Lang/Thread/Thread.cpp"],[("destructor join","Lang/Thread/Thread.cpp: ~Thread"),("thread-local current thread","Lang/Thread/Thread.cpp: run, currentThread")],(),["currentThread, getId, sleep, destructor"])
CHM="Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
CK="Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh"
prop("C05","Concurrent map operations on keys are linearizable",
 "Concurrent put, get, getOrDefault, containsKey, find, putIfAbsent, replace, remove and conditional remove calls behave as if each took effect at one instant between its call and its return, as on a plain sequential map. In particular, of several concurrent removals or conditional changes of one entry exactly one succeeds, and a removal returns the value it removed.",
 ["schedules","programs"],"every interleaving of map operations on a few contended keys from several threads",
 "The tests of the map are single-threaded.",
 [CHM,CK],[("bucket locking","Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh: lock_two, snapshot_and_lock_two"),("wrapper operations","Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp")],(),["results of the map operations"])
prop("C06","Concurrent map growth, iteration and clearing lose or duplicate nothing",
 "While threads insert enough entries to make the map grow repeatedly, no entry that was put and not removed is ever missed by a lookup, and afterwards size, iteration, containsValue and lookups all agree with each other and with the history. forEach visits a single consistent snapshot with every entry exactly once, and clear removes every entry put before it and none put after it.",
 ["schedules","programs","histories"],"every interleaving of growth, displacement, iteration, size, clear and element operations, with well- and badly-distributed hash values",
 "No test grows the map from more than one thread; displacement chains and lazy migration race only in narrow windows.",
 [CHM,CK],[("growth and lazy migration","Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh: cuckoo_fast_double, rehash_lock, migrate"),("displacement","Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh: run_cuckoo, cuckoopath_move"),("whole-table locking","Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh: lock_all, locked_table")],(),["lookups, size, forEach, clear"])
CLQ="Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
MC="Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp"
prop("C07","Concurrent queue delivers every element exactly once, per-producer in order",
 "Every element that add or offer accepted is returned by exactly one poll, removed by a clear that overlaps or follows it, or still in the queue at the end; nothing else is ever returned. Elements one thread added are taken out in the order it added them, by any single consumer. When no other call is in progress, size and isEmpty are exact and a poll of a non-empty queue returns an element.",
 ["schedules","programs","histories"],"every interleaving of producers and consumers, including producers that end and are replaced, block, index and producer-table growth (the read-only and unsupported calls contains, peek, element and remove are left out)",
 "The queue tests are single-threaded; the lock-free paths (block reuse, producer recycling, hash resize) race only in narrow windows.",
 [CLQ,MC],[("lock-free sub-queues","Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp: ImplicitProducer"),("producer lookup table","Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp: get_or_add_implicit_producer"),("block free list","Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp: FreeList")],(),["add, offer, poll, clear, size, isEmpty"])
prop("C08","The blocking queue delivers exactly once and wakes every waiting consumer",
 "Every element enqueued in the bundled blocking queue, singly or in bulk, is dequeued exactly once and in per-producer order, and every consumer waiting without a time limit returns as long as enough elements are enqueued. A timed wait that fails does so no earlier than its timeout and takes no element, and its semaphore never grants more than was signalled, under spurious wakeups and interrupted waits too.",
 ["schedules","programs","fault_sequences"],"every interleaving of producers and waiting, timed and non-blocking consumers, and interrupted waits (not wall-clock jumps, which move its timed waits by design)",
 "No test exercises the bundled blocking queue or its semaphore at all.",
 ["Util/Concurrent/LinkedBlockingQueue/blockingconcurrentqueue.hpp","Util/Concurrent/LinkedBlockingQueue/lightweightsemaphore.hpp"],
 [("lightweight semaphore","Util/Concurrent/LinkedBlockingQueue/lightweightsemaphore.hpp: LightweightSemaphore"),("wait_dequeue","Util/Concurrent/LinkedBlockingQueue/blockingconcurrentqueue.hpp")],(),["enqueue, wait_dequeue, wait_dequeue_timed, try_dequeue, bulk variants"])
SB="Lang/StringBuffer/StringBuffer.cpp"
prop("C09","String buffer operations are atomic and keep the text intact under sharing",
 "Operations on a string buffer shared by several threads behave as if executed one at a time: no appended, inserted, deleted, replaced or reversed piece is lost, split or seen half-done, and length, characters, substrings, searches and conversions always describe one moment of that order. A buffer that is the argument of another's operation contributes its content at one moment.",
 ["schedules","programs"],"every interleaving of buffer operations from several threads",
 "StringBuffer tests are single-threaded; a missing lock shows only when a preemption falls inside a copy or reallocation.",
 [SB,"Lang/StringBuffer/StringBuffer.hpp"],[("per-object mutex","Lang/StringBuffer/StringBuffer.cpp")],(),["all public StringBuffer operations"])
prop("C10","Random: concurrent draws are distinct positions of one seeded sequence",
 "For a given seed the generator yields the documented sequence of values; when several threads draw from one generator, the values drawn are, as a whole, exactly the next values of that sequence with none repeated or skipped, and each thread sees its own in sequence order. Generators created without a seed, at the same clock reading or from different threads, get different sequences.",
 ["schedules","programs","fault_sequences"],"every interleaving of draws on a shared generator and of constructions, with a stalled or backward clock",
 "Tests draw from one thread; a lost update of the seed needs a preemption inside the update.",
 ["Util/Random/Random.cpp","Util/Random/Random.hpp"],[("atomic seed update","Util/Random/Random.cpp: next"),("seed uniquifier","Util/Random/Random.cpp: seedUniquifier")],(),["nextInt, nextLong, nextBoolean, nextFloat, nextDouble, nextGaussian, nextBytes, setSeed"])
G="Util/UUID/libuuid/gen_uuid.c"
prop("C11","Time-based UUIDs are unique across threads, processes, restarts and clock jumps",
 "No two time-based UUIDs generated on a machine are equal, whichever threads and processes generate them and however those start, fork, crash and restart, while the wall clock stalls or jumps forwards or backwards, and whether or not the shared state file can be opened, locked, read or written. Each is a well-formed version-1 identifier carrying the wall-clock time of the call. Within one thread, under a clock that does not go back, successive timestamps increase. A process never closes a file that is not its own and keeps at most the state file open.",
 ["schedules","crash_points","fault_sequences","histories"],"every interleaving of generating threads and processes, fork, clock step, crash point, and interrupted lock, short read or short write of the state file",
 "Tests generate in one thread of one process under the real clock; duplicates need two generators to read the same state, or a clock step back between two calls or across a restart.",
 [G,"Util/UUID/UUID.cpp"],[("clock sequence and adjustment","Util/UUID/libuuid/gen_uuid.c: get_clock"),("state file and its lock","Util/UUID/libuuid/gen_uuid.c: get_clock")],[("last time, clock sequence, adjustment","where the previous identifier was","Util/UUID/libuuid/gen_uuid.c: get_clock")],["UUID::timeUUID, toString, version, variant, timestamp bits"])
prop("C12","Random UUIDs stay unique and well formed when entropy sources misbehave",
 "No two random UUIDs of a process and of the processes forked from it are equal and each carries version 4 and the standard variant, when several threads generate them and when the system entropy source is missing, cannot be opened, is interrupted or returns short reads. Generation always finishes and leaves no file open.",
 ["schedules","fault_sequences","histories"],"every interleaving of generating threads, and every pattern of failing, short or interrupted reads and opens of the entropy device, with clock stalls",
 "Tests only see a healthy entropy device.",
 ["Util/UUID/libuuid/randutils.c",G],[("entropy loop","Util/UUID/libuuid/randutils.c: random_get_bytes"),("fallback generator","Util/UUID/libuuid/randutils.c: random_get_fd")],(),["UUID::randomUUID"])
prop("C13","A Date is a value of its own",
 "Every Date keeps the moment (in whole seconds) or the calendar fields given to it, as numbers or as text: reading or changing one Date is never affected by another Date being created, parsed, changed or destroyed, in the same or another thread, nor by the clock advancing. Reading its fields, formatting it, comparing it and setting one field give consistent results for that one moment in the local time zone, summer time included; Dates of the same moment are equal and have the same hash code.",
 ["schedules","programs","histories"],"every interleaving of Date operations in several threads, clock advances between calls",
 "Tests use one Date at a time in one thread.",
 ["Util/Date/Date.cpp","Util/Date/Date.hpp"],[("broken-down time of a Date","Util/Date/Date.cpp: initializeDate, updateDateStatus")],(),["getters, setters, toString, getTime, compareTo, after, before"])
prop("C14","Date formatting leaves the process and other threads alone",
 "Formatting a Date with a pattern gives the text for that Date's moment in the zone asked for, also when other threads format, in other zones, or create Dates at the same time. It leaves the environment, the process's own time zone and the caller's objects as they were, and repeated use neither leaks nor leaves dangling references behind.",
 ["schedules","programs","histories"],"every interleaving of formatting with other formatting and calendar calls, initial time-zone settings",
 "Tests format in one thread and never look at the environment afterwards.",
 ["Text/SimpleDateFormat/SimpleDateFormat.cpp","Util/TimeZone/TimeZone.cpp"],[("zone switching","Text/SimpleDateFormat/SimpleDateFormat.cpp: format"),("zone lookup","Util/TimeZone/TimeZone.cpp: getTimeZone")],(),["SimpleDateFormat::format, environment, TimeZone::getTimeZone"])
prop("C15","Objects used by only one thread are unaffected by other threads",
 "Operations on objects that only one thread uses (message digests, strings and their formatting, number conversion, encoders and decoders, identifiers, lists, maps, sets and bit sets) give in a multi-threaded program the same results as in a single-threaded one, whatever the other threads do with objects of their own.",
 ["schedules","programs"],"every interleaving of threads working on unshared objects",
 "Hidden shared state (static buffers, lazily built tables, process-wide settings) never shows in single-threaded tests.",
 ["Security/MessageDigest/MessageDigest.cpp","Lang/String/String.cpp","Lang/Long/Long.cpp","Lang/Integer/Integer.cpp","Util/Base64/Base64.cpp","Net/URLEncoder/URLEncoder.cpp"],[("no mutable state shared between objects","Lang/ and Util/ classes")],(),["results of the operations, data races on hidden state"])
prop("C16","Console lines are never torn or mixed",
 "Text printed by one println call, together with its line end, reaches the console as one unbroken piece in program order of its thread, exactly once, whatever other threads print and however the underlying writes are cut short, interrupted or fail for a while. A failing console neither blocks nor terminates the program.",
 ["schedules","fault_sequences"],"every interleaving of printing threads; short, interrupted and failing writes",
 "The tests print from one thread to a terminal that never fails.",
 ["Lang/System/System.hpp"],[("stream insertion","Lang/System/System.hpp: out::print, out::println")],(),["bytes written to standard output"])
prop("C17","Running out of memory never corrupts data",
 "When memory runs out during an operation of a collection, a string, a buffer, a number object or a date, the operation either completes or reports failure to its caller; it does not crash, and the objects involved stay usable and hold the old or the new content (an operation that adds several elements may have added some of them), with nothing leaked or freed twice. Later operations, once memory is available again, behave normally.",
 ["fault_sequences","histories","programs"],"allocation failure at every allocation of histories of operations on lists, maps, sets, stacks, queues, strings, string buffers, numbers and dates",
 "No test makes an allocation fail.",
 ["Lang/StringBuffer/StringBuffer.cpp","Lang/StringBuilder/StringBuilder.cpp","Util/ArrayList/ArrayList.hpp","Util/HashMap/HashMap.hpp","Util/LinkedList/LinkedList.hpp","Util/Vector/Vector.hpp"],[("allocation checks","Lang/StringBuffer/StringBuffer.cpp, Lang/StringBuilder/StringBuilder.cpp"),("standard containers","Util/")],(),["results, content after failure, allocator balance"])
prop("C18","Callbacks and elements that throw leave shared structures usable",
 "When an iteration callback given to a concurrent map stops early or throws, or copying or assigning an element throws or runs out of memory inside a concurrent map or queue, the exception reaches the caller (or the call reports failure), no lock stays held, nothing is leaked or destroyed twice, and the structure holds either its old or its new content and stays fully usable by every thread. (Hash functions, equality, destructors and move operations declared noexcept must not throw.)",
 ["schedules","fault_sequences","programs"],"an exception from any callback or element copy inside any map, queue or iteration call, with other threads active",
 "Tests use callbacks and elements that never throw.",
 [CHM,CK,CLQ,MC],[("scoped locks","Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh: LockManager, AllLocksManager"),("exception paths of enqueue and dequeue","Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp")],(),["operations after the exception"])
prop("C19","Objects nobody changes can be read by many threads at once",
 "Once built, an object that no thread modifies (strings, builders, numbers, dates, identifiers, lists, maps, vectors, stacks, queues, bit sets, arrays, encoders, media types, exceptions) may be read by any number of threads without synchronization: lookups, comparisons, hash codes, conversions to text, traversal and copying give every thread what a single reader gets and never write to memory the other readers see.",
 ["schedules","programs"],"every interleaving of reading operations on shared unmodified objects",
 "Tests read objects from one thread; a hidden cache or scratch member written by a reading operation never shows there.",
 ["Lang/String/String.cpp","Lang/StringBuilder/StringBuilder.cpp","Util/ArrayList/ArrayList.hpp","Util/HashMap/HashMap.hpp","Util/BitSet/BitSet.cpp","Util/Vector/Vector.hpp"],[("reading operations write no member","Lang/String/String.cpp: hashCode; Util/ArrayList/ArrayList.hpp and Util/HashMap/HashMap.hpp: toString"),("lookups","Util/")],(),["results of the operations, data races"])
prop("C20","Results depend on the inputs only",
 "What an operation returns, throws or leaves behind is determined by its arguments and the objects it is given, also at and beyond the edges (empty objects, indexes out of range, values never set, an object or an element of it given to its own operation, a copy that outlives its original): never by what memory held before, where objects lie (identity hash codes, of Object and of classes that define none of their own, excepted), the value of errno, or the time of day for anything but the current-time functions. No operation touches memory outside its objects, and none leaks.",
 ["programs","inputs","configurations"],"every program over the value, text, collection, date, random, codec and connection classes; every content of fresh memory and stack, heap layout, errno and time",
 "A test passes or fails in the one environment it runs in; reading a member never set or one element past the end gives a plausible value there.",
 ["Lang/String/String.cpp","Lang/StringBuilder/StringBuilder.cpp","Lang/StringBuffer/StringBuffer.cpp","Util/ArrayList/ArrayList.hpp","Util/LinkedList/LinkedList.hpp","Util/PriorityQueue/PriorityQueue.hpp","Util/Vector/Vector.hpp","Util/BitSet/BitSet.cpp","Net/URLConnection/URLConnection.cpp"],[("constructors set every member","Util/Vector/Vector.hpp, Net/URL/URL.hpp"),("index checks","Lang/String/String.cpp, Util/ArrayList/ArrayList.hpp, Util/LinkedList/LinkedList.hpp")],(),["results in different environments, heap accesses"])
prop("C21","A copy is a value of its own",
 "A copy of an object, made by copy construction, assignment (also over an object with a history) or clone, equals its original when it is made and leaves the original as it was. From then on nothing done to one of them, by the same or another thread, shows in the other, and neither needs the other to stay alive: each behaves, returns and throws as an object made separately with the same history.",
 ["programs","schedules","histories"],"texts, builders, lists, vectors, stacks, heaps, maps (also of collections), bit sets, arrays, dates, formats, zones, identifiers, digests, random generators, URLs, media types, encoders, exceptions and numbers; every history before and after the copy, every way of copying, one thread or one per object, either one gone first",
 "Tests copy an object and look at it at once; shared state shows only when both go on, one dies first, or two threads use them.",
 ["Util/BitSet/BitSet.cpp","Util/Random/Random.cpp","Security/MessageDigest/MessageDigest.cpp","Lang/StringBuilder/StringBuilder.cpp","Util/LinkedList/LinkedList.hpp","Util/HashMap/HashMap.hpp","Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hpp"],[("copy constructors and assignment","Util/BitSet/BitSet.cpp, Util/LinkedList/LinkedList.hpp, Lang/Double/Double.cpp"),("engine clones","Security/MessageDigest/MessageDigest.cpp")],(),["operation results and contents of both objects"])
# ---- pure functions: listed, not claimed
NA = {}
def na(id,title,statement,text,why,files,mech,reason):
    prop(id,title,statement,["inputs"],text,why,files,[mech]); NA[id]=reason
pure = "A pure function of its arguments: no schedule, clock, I/O, randomness or fault can influence it, so a simulator has nothing to decide; input generation would be a different technique."
na("N01","Strings behave as immutable sequences of characters","String operations (search, substring, split, replace, trim, case, comparison, format) return what the corresponding operation on a character sequence returns and never change their operands.","all strings and arguments","Tests sample a few strings.",["Lang/String/String.cpp"],("string operations","Lang/String/String.cpp"),pure+" (That concurrent use of separate strings does not interfere is C15; allocation failure is C17.)")
na("N02","Numbers convert to text and back without loss","Parsing the text of a number gives the same number in every supported radix and type, text that is not a number of the type is rejected, and values at the limits are handled like any other.","all values, radixes and texts","Tests sample a few values.",["Lang/Integer/Integer.cpp","Lang/Long/Long.cpp","Lang/Double/Double.cpp","Lang/Float/Float.cpp","Lang/Short/Short.cpp","Lang/Bytes/Bytes.cpp"],("parsing and formatting","Lang/Integer/Integer.cpp"),pure)
na("N03","Base64 and URL encodings are inverse to their decodings","Decoding an encoded byte sequence gives the original bytes for each variant, and malformed input is reported.","all byte sequences and variants","Tests sample a few inputs.",["Util/Base64/Base64.cpp","Net/URLEncoder/URLEncoder.cpp","Net/URLDecoder/URLDecoder.cpp"],("encoders","Util/Base64/Base64.cpp"),pure)
na("N04","Message digests equal the published algorithms","The MD5 or SHA1 digest of a message is the published one for every message, however the message is cut into updates.","all messages and chunkings","Tests sample a few messages.",["Security/MessageDigest/md5.cpp","Security/MessageDigest/sha1.cpp"],("block processing","Security/MessageDigest/md5.cpp"),pure+" (Digests computed in parallel threads are covered by C15.)")
na("N05","Lists, maps, sets, stacks and queues match their sequential model","Every history of operations on a list, map, set, stack, vector or queue used by one thread gives the results of the corresponding mathematical structure.","all operation histories","Tests sample short histories.",["Util/ArrayList/ArrayList.hpp","Util/HashMap/HashMap.hpp","Util/LinkedList/LinkedList.hpp","Util/Vector/Vector.hpp","Util/PriorityQueue/PriorityQueue.hpp"],("containers","Util/"),"Single-threaded in-memory containers: deterministic functions of the call history with no schedule, clock or I/O. Their behaviour under the one fault that can reach them, allocation failure, is claimed as C17.")
na("N06","Bit sets behave as sets of numbers","Set, clear, flip, and, or, xor, search and conversion on bit sets agree with the set of bit positions they stand for.","all bit sets and arguments","Tests sample a few.",["Util/BitSet/BitSet.cpp"],("word operations","Util/BitSet/BitSet.cpp"),pure)
na("N07","Mathematical functions return documented values","Math functions return the documented value for every argument including limits, infinities and not-a-number.","all arguments","Tests sample a few.",["Lang/Math/Math.cpp"],("functions","Lang/Math/Math.cpp"),pure)
na("N08","URLs and media types parse into their parts","Parsing a URL or media type yields parts that reassemble to the same text.","all texts","Tests sample a few.",["Net/URL/URL.cpp"],("parsing","Net/URL/URL.cpp"),pure+" The HTTP connection classes perform no I/O in this code base.")
if __name__=="__main__":
    with open(os.path.join(HERE,"properties.jsonl"),"w") as f:
        for p in P:
            assert len(p["title"])<=80,p["title"]
            f.write(json.dumps(p)+"\n")
