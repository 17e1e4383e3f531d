#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Edit here, then run.
import json, os
HM = "containers/cliffMap/hashMap.hpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "Concurrent map operations are linearizable, also during a resize",
 "Every concurrent history of put, putIfAbsent, remove, remove-if-equal, replace, get and containsKey on one PMap is linearizable: the results are those of some sequential order of the operations on an ordinary map that respects real time. This holds for any interleaving of any number of threads, and while the table is being migrated to a larger one (including migrations that start while another is still running). Every operation returns as long as its thread keeps being scheduled, and none crashes the program.",
 ["schedules", "histories", "programs"],
 "for every set of per-thread operation sequences over non-reserved keys and values, every interleaving of their atomic steps, every initial contents and capacity",
 "The tests never compare a result with a model: they count successes and only need the run to end. They use one initial capacity (2^14) that rarely resizes and whatever schedules the OS happens to give.",
 [HM, "include/persistence.hpp", "include/marking.hpp"],
 [("putIfMatch slot claim and value CAS", HM+": putIfMatch"), ("copySlot / copySlotAndCheck migration protocol", HM+": class CHM"), ("getImpl probe and forwarding", HM+": getImpl"), ("dirty-bit aware CAS", "include/persistence.hpp: pcas")],
 ["invocation and response of each public operation of ConcurrentHashMap"],
 [("table / newTable chain", "current table and the table it migrates to", HM), ("marked value / primed tombstone", "slot frozen for migration / slot fully migrated", HM)])

prop("C02", "Each update or increment is applied exactly once",
 "update() with an increment function changes the value of its key exactly once per call, starting from 0 when the key is absent, and returns the value it replaced. No increment is lost, applied twice, or turned into a plain store, under any interleaving with other updates, puts and removes, and whether or not the table is resized meanwhile. Every call returns.",
 ["schedules", "histories", "programs"],
 "for every mix of concurrent increments and other operations, on every interleaving, including those in which the increment is retried in a new table",
 "No test checks the final value of an incremented key; the random and degree tests only report throughput, and their table rarely resizes.",
 [HM, "containers/ucfMap.hpp"],
 [("Table::increment", HM), ("update passes a custom CAS through putIfMatch", HM)],
 ["return value of update()/increment()", "value of each key once all threads have finished"])

prop("C03", "A single thread sees exactly an ordinary map",
 "For any single-threaded sequence of operations on a PMap, every result equals that of an ordinary associative map given the same sequence. This holds for all non-reserved keys and values (including 0 and the largest ones), any power-of-two initial capacity, any hash function, and any clustering or collision of keys, with table sizes within a constant factor of the number of insertions (and of the initial capacity).",
 ["inputs", "programs", "configurations"],
 "for every operation sequence, key set (dense, strided, sharing low or high bits, extreme), value, initial capacity and hash functor",
 "Tests use uniformly random or sequential small keys with the identity hash, one capacity, and never look at the values returned.",
 [HM, "hashing/hash.hpp", "include/define.hpp"],
 [("linear probing with reprobe limit", HM+": putIfMatch, getImpl"), ("tableFull heuristic", HM), ("sentinel checks", HM+": isKeyReserved, isValueReserved")],
 ["result of every public operation"])

prop("C04", "Growing the table loses, duplicates and resurrects nothing",
 "However often the table grows, and however many threads insert, remove and read meanwhile, afterwards every key that was inserted and not removed is present with the last value written to it, every removed key is absent, and no key appears that was never inserted. Growth always completes: the operations that trigger it or run into it return.",
 ["schedules", "histories", "programs"],
 "for every number of threads, keys and growth steps, on every schedule of the migrating threads",
 "Tests print the container size and never look a key up afterwards.",
 [HM],
 [("resize allocates and publishes a larger table", HM+": resize"), ("helpCopyImpl chunked migration and promotion", HM)],
 ["contents of the map after all threads have finished", "results of reads during growth"])

prop("C05", "size() is exact whenever no operation is running",
 "Once all operations on a PMap have returned, size() equals the number of keys present, and isEmpty() is true exactly when there are none, whatever operations ran, on whatever schedule, across any number of resizes, and after a recovery.",
 ["schedules", "histories", "crash_points"],
 "for every quiescent state reached by any concurrent history, or by recovery from any crash",
 "Tests print size() but never compare it with the contents, and never size a recovered map.",
 [HM], [("size counter updated with each successful value CAS", HM+": putIfMatch"), ("count at recovery", HM+": constructor")],
 ["size(), isEmpty() and the set of keys found at quiescence"])

prop("C06", "Completed updates survive a crash at any point",
 "If the machine fails at any moment, the map recovered from the table files reflects every operation that had returned, and each operation that was still running either took full effect or none; the results seen before the crash together with the recovered contents are linearizable. This holds whatever subset of unflushed cache lines reached persistent memory, also in the middle of a resize.",
 ["crash_points", "schedules", "fault_sequences"],
 "for every crash point between two atomic steps of any concurrent history, and every choice of unflushed cache lines that happened to be written back",
 "No test ever recovers a table: all run with -r 0, and a process exit keeps unflushed cache lines that a power failure would lose.",
 [HM, "include/persistence.hpp", "include/marking.hpp"],
 [("flush-then-unflag of dirty words", "include/persistence.hpp: persist, pcas_read, pcas"), ("new table persisted before it is published", HM+": mmapTable, resize"), ("migration mark persisted before the copy", HM+": copySlot"), ("recovery", HM+": constructor with reconstruct")],
 ["results returned before the crash", "contents of the map recovered from the simulated persistent image"],
 [("DirtyFlag", "the word may not be persistent yet", "include/marking.hpp")])

prop("C07", "A value that a read has returned is never rolled back by a crash",
 "If an operation returned a result that depends on another thread's update (a value read, an insert refused because the key was present, a removal reporting absence), that update is in the map recovered after any later crash unless it was overwritten by a later one, even if the updating operation itself had not returned.",
 ["crash_points", "schedules"],
 "for every update still in progress, every operation that observes it, and every crash point after the observer returned",
 "It needs a crash between a store and its flush while another thread reads the line; tests have no crash and compare no values.",
 ["include/persistence.hpp", HM],
 [("pcas_read persists a dirty word before returning it", "include/persistence.hpp"), ("all key and value reads go through pcas_read", HM+": Table::key, Table::value")],
 ["results of reads before the crash", "recovered contents"])

prop("C08", "Recovery always yields a usable map, however often crashes repeat",
 "From the files left by a crash at any point (during normal operation, table creation, migration, or recovery itself) recovery succeeds and yields a map on which all operations work, which keeps growing correctly, and which survives further crashes; recovering twice in a row changes nothing.",
 ["crash_points", "fault_sequences", "histories"],
 "for every sequence of crash, recovery and further operation, with crashes at any step including steps of recovery, and any number of table files",
 "Recovery is never executed by a test.",
 [HM], [("directory scan, ordering and filtering of table files", HM+": constructor with reconstruct"), ("re-linking of tables in migration", HM+": constructor with reconstruct"), ("file numbering", HM+": getOrderedFileName, numFromName, fileNameCounter")],
 ["outcome of the constructor with reconstruct", "results of operations on the recovered map", "table files present"])

prop("C09", "Operations finish even if other threads stop at any point",
 "PMap is lock-free: at any moment, if all threads but one stop for good at arbitrary points inside their operations, the remaining thread completes its operations within a bounded number of its own steps. No set of stalled threads, wherever they stopped (also in the middle of a migration), blocks or livelocks the others.",
 ["schedules", "fault_sequences"],
 "for every reachable state, every choice of stopped threads and stopping points, and every subsequent operation of a running thread",
 "Tests never suspend a thread inside an operation, and a livelock shows only as a rare timeout.",
 [HM, "include/persistence.hpp"], [("helping: copySlotAndCheck, helpCopy", HM), ("promotion without waiting for stalled helpers", HM+": helpCopyImpl"), ("bounded CAS retry", "include/persistence.hpp: pcas")],
 ["number of atomic steps each operation takes while the other threads are stopped"])

prop("C10", "No invalid memory access and no undefined behaviour",
 "No sequence of operations of the containers, concurrent or not, with any non-reserved keys and values, across resizes, recovery and destruction, reads or writes memory outside live objects, maps or unmaps memory it does not own, frees twice, or executes behaviour the C++ language leaves undefined.",
 ["inputs", "programs", "schedules"],
 "for every operation sequence and configuration of the ucf and stl containers and of PMap's recovery",
 "The tests are built without sanitizers and do not check which memory is touched; most stray accesses do not crash.",
 [HM, "include/persistence.hpp", "containers/ucfMap.hpp", "containers/stlMap.hpp", "hashing/xxhash.hpp"],
 [("index masking", HM), ("table mapping and unmapping", HM+": mmapTable, munmapTable"), ("file name parsing", HM+": numFromName")],
 ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "addresses and lengths passed to mmap and munmap"])

prop("C11", "No data races in the ucf and stl containers",
 "No two threads using a ucf or stl container through its public interface ever access the same memory location without synchronisation when at least one access is a write, during normal operation, resizing, or counting.",
 ["schedules", "programs"],
 "for every concurrent use of the container interface, judged by the happens-before order of the C++ memory model rather than by the outcome on one machine",
 "A data race rarely changes a result on x86, so tests pass with it.",
 [HM, "containers/stlMap.hpp", "containers/ucfMap.hpp"],
 [("atomic keys, values, counters and table pointers", HM), ("global_lock", "containers/stlMap.hpp")],
 ["ThreadSanitizer reports"])

prop("C12", "Every container honours the same interface contract",
 "In the ucf, stl, pm and clevel containers alike: insert returns true exactly when the element was absent, erase returns true exactly when it was present, contains reports presence, get returns the element's value when present; in ucf, stl and pm count() is the number of elements present once no operation is running. In ucf and stl, increment creates an absent element with value 1 and otherwise adds exactly 1 to its value. This holds for every sequence of calls and every element, also while other threads use other elements.",
 ["programs", "configurations", "inputs"],
 "for every single-threaded sequence of interface calls on every container, with elements in 1..2^60",
 "Tests tally the returned booleans but never check them, so containers disagreed unnoticed.",
 ["containers/container.hpp", "containers/ucfMap.hpp", "containers/stlMap.hpp", "containers/pmemMap.hpp", "containers/levelMap.hpp", "include/libpmemobj++/container/concurrent_hash_map.hpp", "include/libpmemobj++/experimental/clevel_hash.hpp"],
 [("adapters implementing Container", "containers/")],
 ["return value of every interface call"])

prop("C13", "The persist primitives cover exactly the bytes they are given",
 "After PERSIST(addr, len) every cache line containing any byte of [addr, addr+len) has been flushed and a fence has followed the flushes, for any address and length, and no page outside the range has been touched; PERSIST_FLUSH_ONLY flushes the same lines, and PERSIST_BARRIER_ONLY fences. pcas and pcas_read never return or expose a word whose dirty flag is set; they and persist never return before the word they report (or a later one) is persistent; and pcas succeeds exactly when the stored value, ignoring that flag, equals the expected one, and otherwise reports the value it found.",
 ["inputs", "schedules", "crash_points"],
 "for every address alignment and length, and every interleaving of concurrent pcas and pcas_read on one word",
 "No test can see a flush: on ordinary memory a missing one has no effect until power fails.",
 ["include/persistence.hpp", "include/marking.hpp"],
 [("PERSIST loop over cache lines", "include/persistence.hpp"), ("persist / pcas_read / pcas", "include/persistence.hpp")],
 ["flush and fence instructions issued", "return values and word contents"])

prop("C14", "The pm container is linearizable",
 "Every concurrent history of insert, erase, contains and get on the pm container (libpmemobj++ concurrent_hash_map) is linearizable to a set, while it grows and rehashes, and count() equals the number of elements once all operations have returned.",
 ["schedules", "histories"],
 "for every interleaving of concurrent operations, including accessors held by other threads during rehash and erase",
 "Tests tally results without checking them and do not steer the schedule.",
 ["containers/pmemMap.hpp", "include/libpmemobj++/container/concurrent_hash_map.hpp"],
 [("bucket locks, lazy rehash and element accessors", "include/libpmemobj++/container/concurrent_hash_map.hpp")],
 ["invocation and response of each interface call"])

prop("C15", "The pm container survives a crash at any point",
 "If the machine fails at any moment while the pm container is used, reopening the pool yields a container that reflects every completed operation and, of the interrupted ones, each fully or not at all, with a correct count() and all operations working.",
 ["crash_points", "fault_sequences"],
 "for every crash point between two persistence steps, and every choice of unflushed cache lines written back",
 "Tests never reopen a pool.",
 ["containers/pmemMap.hpp", "include/libpmemobj++/container/concurrent_hash_map.hpp", "include/libpmemobj++/transaction.hpp", "include/libpmemobj++/persistent_ptr.hpp"],
 [("transactions around insert, erase and segment allocation", "include/libpmemobj++/container/concurrent_hash_map.hpp"), ("runtime_initialize", "include/libpmemobj++/container/concurrent_hash_map.hpp")],
 ["results before the crash", "contents and count() after reopening"])

prop("C16", "The clevel container loses no acknowledged element",
 "An element whose insert into the clevel container returned true is found by every later contains and get until it is erased, and is not found once erase has returned true, while other threads insert and erase other elements and the table expands in the background.",
 ["schedules", "histories"],
 "for every concurrent history in which each element is inserted and erased by one thread at a time, across any number of background expansions",
 "Tests tally results without checking them.",
 ["containers/levelMap.hpp", "include/libpmemobj++/experimental/clevel_hash.hpp"],
 [("two-level insertion and background expansion", "include/libpmemobj++/experimental/clevel_hash.hpp"), ("per-thread staging entries", "containers/levelMap.hpp")],
 ["result of each interface call", "contents at quiescence"])

prop("C17", "The clevel container survives a crash",
 "If the machine fails at any moment while one thread uses a clevel container, reopening its pool yields a container holding exactly the elements whose insert had completed and whose erase had not, the one interrupted operation having taken effect or not, and it accepts further operations.",
 ["crash_points", "fault_sequences"],
 "for every crash point between two persistence steps of a single client thread (the container's own expansion thread may be running)",
 "Tests never reopen a pool.",
 ["containers/levelMap.hpp", "include/libpmemobj++/experimental/clevel_hash.hpp"],
 [("entry persisted before its slot pointer", "include/libpmemobj++/experimental/clevel_hash.hpp")],
 ["results before the crash", "contents after reopening"])

prop("C18", "The hash functions compute XXH32 and XXH64 for every input",
 "xxh::xxhash<32> and xxh::xxhash<64> return the values of the reference XXH32 and XXH64 algorithms for every input length, content, alignment and seed; the streaming interface gives the same result for every way of splitting the input into updates; and so does streaming XXH3 against one call. The xxhash functor is the XXH64 of the bytes of the key, and NaiveHash the key itself.",
 ["inputs", "programs"],
 "for every byte string, seed, element type, alignment and split into chunks",
 "The hash functions are not exercised by any test.",
 ["hashing/xxhash.hpp", "hashing/hash.hpp"],
 [("xxh::xxhash, xxh::hash_state_t", "hashing/xxhash.hpp"), ("functors", "hashing/hash.hpp")],
 ["return values"])

prop("C19", "The stl container is linearizable",
 "Every concurrent history of insert, erase, contains, get, count and increment on the stl container is linearizable to an ordinary map, including count().",
 ["schedules", "histories"],
 "for every interleaving of concurrent operations",
 "Tests tally results without checking them.",
 ["containers/stlMap.hpp"], [("global_lock", "containers/stlMap.hpp")],
 ["invocation and response of each interface call"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
