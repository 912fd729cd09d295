"""What each check runs."""
LIBRARY = "all of /repo/library compiled from the working tree with instrumentation (std templates it uses included)"
STUB = ["scheduler, pthread mutexes, condition variables, semaphores, futexes, thread creation and join, static-initialisation guards (simulated)", "clocks and sleeps (simulated time)", "heap allocator and memory/string primitives of libc (replaced by checked versions)"]
CHECKS = {
 "C01": dict(files=["sem"], real=[LIBRARY, "libstdc++ std::mutex, std::unique_lock, std::condition_variable"], stub=STUB, max_inconclusive=0.3),
 "C02": dict(files=["sem"], real=[LIBRARY, "libstdc++ std::mutex, std::unique_lock, std::condition_variable"], stub=STUB),
 "C03": dict(files=["thread"], real=[LIBRARY, "libstdc++ std::thread, std::mutex, std::condition_variable"], stub=STUB, require={"thread_join":["join waited for the task","timed join timed out"]}),
 "C04": dict(files=["thread"], real=[LIBRARY, "libstdc++ std::thread, std::mutex, std::condition_variable, std::this_thread::sleep_for"], stub=STUB, require={"thread_life":["join waited for the task","start reported a failure","started after a failed start"]}),
 "C05": dict(files=["map"], real=[LIBRARY, "ConcurrentHashMap and libcuckoo, with the initial table and the number of locks scaled down alike (16 slots, 4 locks)"], stub=STUB, require={"map_keys":["iteration"]}),
 "C06": dict(files=["map"], real=[LIBRARY, "ConcurrentHashMap and libcuckoo, with the initial table and the number of locks scaled down alike (16 slots, 4 locks)"], stub=STUB, require={"map_grow":["iteration"]}),
 "C07": dict(files=["queue"], real=[LIBRARY, "ConcurrentLinkedQueue and its lock-free queue, with blocks, block index and producer table scaled down (2 elements, 2, 2)"], stub=STUB, require={"queue":["found the queue empty"]}),
 "C08": dict(files=["queue"], real=[LIBRARY, "the bundled blocking queue (explicit and implicit producers, bulk operations) and LightweightSemaphore, with small blocks, tables and spin counts"], stub=STUB, require={"blocking_queue":["timed wait gave up"],"signal_count":["timed wait gave up"]}),
 "C09": dict(files=["buf"], real=[LIBRARY, "StringBuffer and the String it hands out"], stub=STUB, require={"buffer":["index out of range","one buffer argument of another"]}),
 "C10": dict(files=["random"], real=[LIBRARY, "Random, Math.random"], stub=STUB, require={"draws":["gaussian draws","reseeded"]}),
 "C11": dict(files=["uuid"], real=[LIBRARY, "libuuid's time generator and UUID, in up to seven simulated processes (some forked) with statics of their own", "stdio of libc on the simulated state file"], stub=STUB+["files, file locks, descriptors, the entropy device (simulated)"], require={"time_uuid":["process restarted","call cut off by a crash","forked"]}),
 "C12": dict(files=["uuid"], real=[LIBRARY, "libuuid's random generator and UUID"], stub=STUB+["files, descriptors, the entropy device (simulated)"], require={"random_uuid":["no entropy device","dead entropy device","forked"]}),
 "C13": dict(files=["date"], real=[LIBRARY, "Date", "the calendar of libc (TZ strings and zone files)"], stub=STUB+["environment accesses are observed; the wall clock is simulated"], require={"dates":["summer-time","parsed"]}),
 "C14": dict(files=["date"], real=[LIBRARY, "SimpleDateFormat, TimeZone, Date", "the calendar of libc (TZ strings and zone files), the real environment of the simulator's process"], stub=STUB+["environment accesses are observed; the wall clock is simulated"], require={"formatting":["summer-time"]}),
 "C15": dict(files=["iso"], real=[LIBRARY, "numbers, strings, encoders, digests, identifiers, lists, maps, stacks, queues, bit sets, URLs, media types, exceptions", "the reference: the same calls of each thread alone in a copy of the process taken before the threads start"], stub=STUB),
"C16": dict(files=["console"], real=["System::out::print and println", "the C++ standard streams (std::cout over the C library's stream)", "String and number insertion"], stub=STUB, require={"console": ["console failed", "printing threw"]},
    assumptions=["the C library's stream behaves as glibc's does: one fwrite or fflush is atomic, a failed flush delivers a part of the buffer and drops the rest", "programs write to the console through System::out only"]),
"C17": dict(files=["memory"], real=[LIBRARY, "lists, vectors, linked lists, stacks, heaps, maps, strings, string buffers and builders, bit sets, the concurrent map and queue, digests, identifiers, numbers, dates", "the reference: a twin object of the same class whose allocations succeed"], stub=STUB, require={"memory": ["an operation reported that memory ran out"]}),
"C19": dict(files=["readers"], real=[LIBRARY, "numbers, strings, builders, encoders, identifiers, dates, lists, maps, stacks, queues, bit sets, URLs, media types, arrays, exceptions", "the reference: the same calls by one thread in a copy of the process"], stub=STUB),
 "C20": dict(files=["inputs"], real=[LIBRARY, "nearly every class, one thread", "the reference: the same calls in a copy of the process with other leftovers in memory, other addresses and another time"], stub=STUB),
 "C21": dict(files=["copies"], real=[LIBRARY, "the value classes: texts, builders, lists, vectors, stacks, heaps, maps, bit sets, arrays, dates, formats, identifiers, digests, random generators, URLs, media types, encoders, exceptions, numbers", "the reference: two objects made separately, each with its whole history"], stub=STUB),
 "C18": dict(files=["throwing"], real=[LIBRARY, "ConcurrentHashMap and libcuckoo, ConcurrentLinkedQueue and the queues it is built on (producers with and without tokens, bulk operations, the blocking one), with small tables and blocks"], stub=STUB+["elements and callbacks are the harness's and throw when told to"], require={"throwing_map": ["user code threw", "an operation reported failure"], "throwing_queue": ["user code threw", "an operation reported failure"]}),
}
