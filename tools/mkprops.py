import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="include/nudb/impl/"; D="include/nudb/detail/"; H="include/nudb/"
p("C01","A store is an exact insert-only map across every operation history",
"After any sequence of inserts, fetches, flushes, closes and reopens, fetching a key yields exactly the bytes first inserted under it (callback invoked exactly once, no error), a key never inserted yields key_not_found without a callback, and inserting a present key yields key_exists and changes nothing. This holds wherever the entry currently lives (memory pools, bucket cache, key file bucket, spill chain), across bucket splits and spills, for colliding hashes, for every key size, block size, load factor and value size, and independently of what the caller does with its buffers after insert returns.",
["histories","inputs","configurations"],"every bounded sequence of insert/fetch/flush/close/reopen over every assignment of key hashes, key sizes, block sizes, load factors and value sizes in bounds",
"Unit tests insert a few sequentially generated keys with a good hash; wrong answers hide in particular combinations of hash collision, split point, spill chain and flush position that a sampled sequence does not reach.",
[I+"basic_store.ipp",D+"bucket.hpp",D+"pool.hpp",D+"cache.hpp",D+"bulkio.hpp"],
[("insert/fetch/exists/split/load/commit",I+"basic_store.ipp"),("bucket insert, lower_bound, spill",D+"bucket.hpp"),("bucket_index / linear hashing",D+"bucket.hpp")])
p("C02","Concurrent fetch and insert are linearizable with a background commit",
"When several threads call insert and fetch on one open store while a flush is in progress, the results are those of some sequential order of the calls consistent with real time: exactly one of several racing inserts of a key succeeds and the others get key_exists, and a fetch that starts after a successful insert returns finds exactly that value. No interleaving with any step of a commit (pool swap, append, bucket view swap, log write, key file write, cache clear) makes a key vanish, appear early, or carry wrong bytes.",
["schedules","programs"],"every thread schedule within the preemption bound of every small program of concurrent insert/fetch/flush calls in the list, including scheduling points inside file writes",
"Stress tests sample a few OS schedules; the windows between pool swap, bucket view swap, generation switch and key file write are a few instructions wide and need particular orders.",
[I+"basic_store.ipp",D+"gentex.hpp",D+"mutex.hpp"],
[("commit phases",I+"basic_store.ipp"),("generation lock",D+"gentex.hpp"),("insert lock and shared lock",I+"basic_store.ipp")])
p("C03","Concurrent use is free of data races in memory and in the files",
"Under every schedule of concurrent fetch, insert, background flush and close, no two threads access the same memory without synchronisation where one writes, and no thread touches freed memory. Likewise no read of a key file bucket, data record or spill record overlaps an unsynchronised write of the same file region, so a reader never sees a half written bucket.",
["schedules","programs"],"every schedule within the preemption bound of the small concurrent programs, with happens-before checking of every instrumented memory access and every file region",
"A data race rarely shows in test output, and ordinary runs exercise few of the happens-before orders; the check needs the ordering relation in every explored schedule.",
[I+"basic_store.ipp",I+"context.ipp",D+"gentex.hpp",D+"pool.hpp",D+"cache.hpp"],
[("generation lock guards bucket reads against commit",D+"gentex.hpp"),("shared/unique lock over pools and bucket view",I+"basic_store.ipp"),("error publication",I+"basic_store.ipp")])
p("C04","No deadlock, and fetch/insert never wait for commit disk I/O",
"Every call to fetch, insert, flush, open, close, context start and stop completes under every schedule: there is no deadlock, lost wakeup or livelock. While a commit is stalled inside any single file operation, every fetch and every insert started then still completes on its own.",
["schedules","programs","fault_sequences"],"every schedule within the preemption bound, and every file operation of a commit at which the committing thread is suspended indefinitely",
"A test cannot show the absence of a hang, and does not suspend the commit inside each of its disk operations.",
[I+"basic_store.ipp",D+"gentex.hpp",I+"context.ipp"],
[("locks released around commit I/O",I+"basic_store.ipp"),("gentex start/finish/unlock_gen",D+"gentex.hpp"),("context run/stop/erase waits",I+"context.ipp")])
p("C05","A process crash loses no committed data and leaves no partial commit",
"If the process dies at any point of any history, including in the middle of a write, the next open succeeds and the store then holds exactly the contents of the last completed commit, or of the commit in progress in full: never part of a commit, never a wrong value, never a lost earlier key. The recovered store is fully usable and verifies clean, and recovery leaves no log records behind.",
["crash_points","histories","configurations"],"every system call boundary and every torn write prefix of every history in bounds, including the commits done by close, by the flush thread and after reopen",
"Tests count down a failure counter in one fixed insertion sequence and do not tear writes or check exact contents after every crash point of varied histories.",
[I+"basic_store.ipp",I+"recover.ipp",D+"bulkio.hpp",D+"bucket.hpp"],
[("write-ahead log of clean buckets",I+"basic_store.ipp"),("rollback",I+"recover.ipp")])
p("C06","Committed data survives power loss with any subset of unsynced writes",
"If power fails at any point and the device keeps only what was synced plus any subset of later overwrites, any prefix of later appends and any prefix of later file creations and removals, the next open succeeds and shows exactly the last commit that had returned, or the one in progress in full. A commit that has finished, or a close that returned success, is never undone or damaged.",
["crash_points","fault_sequences"],"every crash point of every history in bounds times every subset of unsynced overwrites, every torn position and prefix of unsynced appends and of unsynced directory operations",
"No unit test can drop unsynced writes; a missing or misplaced sync is invisible to every in-process test.",
[I+"basic_store.ipp",I+"recover.ipp",I+"create.ipp",I+"posix_file.ipp"],
[("sync ordering of log, data and key file",I+"basic_store.ipp"),("sync ordering during rollback",I+"recover.ipp"),("create syncs",I+"create.ipp")])
p("C07","Recovery is idempotent, restartable and rolls back exactly",
"Recovering an interrupted database restores the data file to its exact committed bytes and length and the key file to its committed buckets and length, and running recovery again changes nothing. If recovery itself is interrupted by a crash or a failing file operation at any point, any number of times, a later uninterrupted recovery still reaches the same result.",
["crash_points","fault_sequences"],"every crash state of every history in bounds, then every crash point, torn write and single file operation failure inside the recovery of each, nested until no new disk state appears",
"Tests inject one failure in recovery of one history; nested crashes multiply into a state graph that must be searched, not sampled.",
[I+"recover.ipp",D+"bucket.hpp",D+"bulkio.hpp"],
[("replay, truncate, sync, clear log, erase order",I+"recover.ipp")])
p("C08","An I/O error is reported, sticks, and never costs committed data",
"If any file operation fails at any point of any history, the affected call reports that error (for an error inside a background commit, the calls that follow it do), after a failed commit the store keeps failing with it until reopened, and no call crashes or returns wrong data as success. After the fault clears, reopening succeeds and yields the last completed commit or the one in progress in full, even if inserts, flushes and closes continued concurrently with or after the failure, and no file descriptor is leaked.",
["fault_sequences","histories","schedules"],"every single failing file operation (and persistent failure from every point) of every history in bounds, with inserts placed at every step of the failing commit and further flush/close attempts after it",
"Tests inject one-shot failures into a single sequential workload, where no inserts overlap the failing commit and retries after an error never happen.",
[I+"basic_store.ipp",I+"create.ipp",I+"recover.ipp"],
[("sticky error",I+"basic_store.ipp"),("flush/close after error",I+"basic_store.ipp"),("log kept on error",I+"basic_store.ipp")])
p("C09","Files follow the documented format and the data file only grows",
"At every quiescent point the data, key and log files decode under the documented format by an independent reader: header fields, big-endian integers, hash and pepper equal to the reference hash function for any length, alignment and salt, entries sorted in the bucket linear hashing assigns, spill chains that end, record sizes that match, zero padding to the block size. Outside of recovery no byte of the data file is ever rewritten, and a database produced by an independent writer of the format is readable.",
["histories","inputs","configurations"],"every history in bounds decoded after every commit, every write system call of every history, all hash inputs up to a length bound at all alignments",
"Round trip tests use the same code for writing and reading, so a symmetric format change passes them while losing compatibility with existing databases.",
[D+"format.hpp",D+"bucket.hpp",D+"stream.hpp",D+"field.hpp",D+"xxhash.hpp",H+"xxhasher.hpp"],
[("header and record serialisation",D+"format.hpp"),("field encoding",D+"field.hpp"),("xxHash64",D+"xxhash.hpp")])
p("C10","Rekey rebuilds a key file equivalent to the data file",
"For every data file and every valid block size and load factor, any item count estimate and any buffer size, rekey produces a key file with which the database opens, every record in the data file is fetchable with its exact value, no other key is, verification passes, and further inserts work. It does not alter existing data file bytes, removes its log on success, rejects block sizes and load factors that cannot be stored, and reports errors without touching a database that has a pending log.",
["inputs","configurations"],"all combinations of data files (including those with spill records from earlier key files, empty ones and colliding hashes), block sizes, load factors, item counts from 0 upward and buffer sizes in bounds",
"The test rekeys one generated database with one matching item count and a couple of buffer sizes.",
[I+"rekey.ipp",D+"bulkio.hpp",D+"bucket.hpp"],
[("multi pass bucket build and spills",I+"rekey.ipp")])
p("C11","An interrupted rekey never harms the data and can always be redone",
"If rekey is interrupted at any point by a process crash, power loss or failing file operation, the records of the data file survive unchanged, and recovery followed by rekey, repeated through further interruptions, always reaches a complete working database. A partially built key file is never accepted as a usable database, and once rekey returned success power loss cannot undo or damage it.",
["crash_points","fault_sequences"],"every crash point, torn write, subset of unsynced writes and failing operation inside rekey and inside the recovery that follows",
"The test uses a failure counter with a process-level view only and never loses unsynced writes or interrupts the recovery after the interrupted rekey.",
[I+"rekey.ipp",I+"recover.ipp"],
[("rekey log with zero key file size",I+"rekey.ipp"),("removal of partial key file",I+"recover.ipp")])
p("C12","Verify accepts every valid database and reports exact statistics",
"For every database produced by any history of create, insert, flush, close, recover and rekey, verify returns success for every buffer size, and its counts of values, keys, bytes, spills, buckets, histogram and file sizes equal those computed by an independent reader. It does not modify any file.",
["histories","inputs","configurations"],"every final state of the bounded histories and rekeys times every distinct chunking of the buffer size",
"The test verifies a few databases and compares almost none of the numbers; chunk boundaries and spill layouts vary with history.",
[I+"verify.ipp",H+"verify.hpp"],
[("verify_normal and verify_fast",I+"verify.ipp")])
p("C13","Verify detects structural corruption and no reader crashes on it",
"For any database damaged so that a record is not indexed, an entry points at a missing or different record, an entry's size or hash disagrees with its record, an entry sits in the wrong bucket, a record is indexed twice, an entry refers to no record, a bucket count is out of range, a spill pointer leads past the end, in a circle or to something other than a spill record, or a file is truncated so that content is lost, verify reports an error rather than success. Neither verify, visit, recover nor fetch crashes, hangs or reads outside its buffers on such files.",
["inputs","fault_sequences"],"every single structural mutation (each field of each header, bucket, entry and spill record, each truncation length) of a set of small databases, for both verify algorithms",
"The tests feed only valid or header-damaged files; the space of single damages to a database has to be enumerated to know that each is noticed.",
[I+"verify.ipp",D+"bucket.hpp",D+"format.hpp",I+"visit.ipp"],
[("verify error paths",I+"verify.ipp"),("bucket size checks",D+"bucket.hpp")])
p("C14","Visit enumerates exactly the inserted records in order",
"Visiting a data file calls the callback exactly once per record ever committed to it, in insertion (file) order, with its exact key and value, skipping spill records of any block size, and stops with the callback's error if it sets one. A truncated or failing file gives an error, not a crash, and the reported progress never goes backwards or beyond the file size.",
["histories","inputs","fault_sequences"],"every final data file of the bounded histories, every callback stop position, every truncation length and every failing read",
"The test visits one database without spills from several block sizes, and never truncates the file.",
[I+"visit.ipp",D+"bulkio.hpp"],
[("data file scan",I+"visit.ipp"),("bulk reader refill",D+"bulkio.hpp")])
p("C15","The flush context serves all its stores and shuts down cleanly",
"With any number of flush threads and stores, each open store with pending inserts is flushed repeatedly without help from its user, never by two threads at once and never after close returned; one store's close or error does not disturb another. Start and stop may be called in any order and repeatedly; stop returns with no flush thread running, and after it an explicit flush works on the caller's thread.",
["schedules","programs"],"every schedule within the preemption bound of programs with one to three flush threads, one or two stores, start/stop/flush/open/close in bounds",
"The context is driven by timed condition variables and background threads; tests see only the schedule that happens.",
[I+"context.ipp",H+"context.hpp",D+"store_base.hpp"],
[("start/run/stop_all/flush/insert/erase/flush_one",I+"context.ipp")])
p("C16","Create is all or nothing and records its parameters faithfully",
"Create either succeeds, giving an empty database that opens with exactly the given application number, key size, block size, salt and load factor, or reports an error and leaves no file it made and no change to any file that was already there. Parameters that cannot be represented in the files are rejected, never silently altered into an unusable or different database. An interrupted create never leaves files that open as anything but the empty database, and every file is reached only through the File type the caller chose.",
["inputs","fault_sequences","configurations"],"boundary-complete enumeration of key size, block size and load factor; every subset of pre-existing files; every failing file operation of create",
"The test tries three bad parameters and one failure style; the cross product of parameters, existing files and failing steps is not covered.",
[I+"create.ipp",D+"format.hpp",H+"native_file.hpp"],
[("parameter checks, cleanup on failure",I+"create.ipp")])
p("C17","Open and recovery refuse foreign or mismatched files and leave them untouched",
"Opening files with a wrong type, version, uid, application number, key size, salt, pepper, hash function or invalid header value, and recovering with a log that disagrees with the data or key file in one of these or in block size, fails with an error and modifies no data, key or log file that holds content (a log shorter than its header holds none). In particular a log belonging to another database is never replayed into this one, and neither a commit log nor a rekey log ever causes files of another database to be changed or removed. Without a log, recover has nothing to do.",
["inputs","fault_sequences"],"every header byte mutation of the three files, every pairing of data, key and log files from different databases, every truncation of each file",
"Tests check one wrong value for some header fields and never check that the files stay as they were.",
[D+"format.hpp",I+"recover.ipp",I+"basic_store.ipp"],
[("header verification before replay",I+"recover.ipp"),("verify overloads",D+"format.hpp")])
p("C18","Short transfers and interrupted system calls are invisible",
"If the kernel returns fewer bytes than asked from any read or write, or interrupts any read, write, sync or truncate with EINTR, any number of times, every operation of the library gives exactly the result and file contents it gives without them. Reading past the end reports a short read and other errors are reported with their code.",
["fault_sequences"],"every system call of every history in bounds returning every short count class or EINTR, singly and for pairs and on every call at once",
"Real kernels almost never return short counts for regular files, so the retry loops are dead code in every test.",
[I+"posix_file.ipp"],
[("read/write/sync/trunc loops",I+"posix_file.ipp")])
p("C19","Offsets, sizes and bucket numbers work at full range",
"Databases whose data file is larger than 4 GiB, up to the 48 bit offset limit, whose bucket numbers times block size exceed 4 GiB, or whose values reach the largest sizes, up to the library limit of 2^32 buckets, behave as small ones do: insert, fetch, commit, split, spill, crash recovery, verify and rekey compute offsets and sizes without wrapping.",
["inputs","configurations"],"file sizes, bucket counts and value sizes at, around and above each power of two where some field or intermediate type could wrap, crossed with each operation",
"Tests cannot afford terabyte files; the arithmetic only fails beyond the sizes they create.",
[I+"basic_store.ipp",D+"bucket.hpp",D+"format.hpp",I+"recover.ipp",I+"rekey.ipp"],
[("bucket offset arithmetic",I+"basic_store.ipp"),("ceil_pow2 and bucket_index",D+"format.hpp")])
p("C20","Lookups, commits, growth and memory cost what the design promises",
"A lookup reads only the one bucket of its key, that bucket's spill records and the records whose stored hash is equal, each once; a value still in memory is served without reading files; an insert writes nothing. A commit appends each record once, writes each key file bucket at most once, and logs only buckets it changes. Within a session the number of buckets follows the number of inserts by the load factor, to within one bucket, however the inserts are grouped into flushes. Lookups, idle stores, visit, verify and rekey hold memory that does not grow with the number of records, and nothing stays allocated after a store is gone.",
["histories","inputs","configurations"],"every lookup of every key after every step of every bounded history, every commit of these, lookups at every file operation of a commit, and long growing databases",
"Unit tests check results, never the number of reads, writes or bytes; a change that reads whole values, rewrites buckets, stops splitting or never frees a cache passes all of them.",
[I+"basic_store.ipp",D+"cache.hpp",D+"pool.hpp",D+"arena.hpp"],
[("fetch, exists, commit, split",I+"basic_store.ipp"),("freeing of pools and caches",D+"arena.hpp")])
p("C21","A store object carries nothing over from one session to the next",
"Any sequence of open, failed open, insert, flush, set_burst, close and destruction on store objects of one context behaves as the state machine says: is_open, paths, parameters and contents are those of the database opened last, two stores never mix, and a store object opened, closed and reopened on the same or another database leaves exactly the files a new object would leave. After everything is destroyed no file descriptor, log file or memory is left.",
["histories","programs"],"every legal call sequence up to the bound over one and two store objects and two databases of different key size, block size and load factor",
"Tests open each store object once; state carried over in members or caches shows only after particular sequences on different databases.",
[I+"basic_store.ipp",I+"context.ipp",D+"store_base.hpp"],
[("open, close, state",I+"basic_store.ipp"),("list of stores",I+"context.ipp")])
p("C22","The file layer keeps the documented File contract",
"For every sequence of create, open, close, erase, read, write, truncate, sync, size, move construction and move assignment, the native file objects behave as the File concept says: create never touches an existing file, contents, sizes and end of file are exact in every mode, each open handle owns exactly one descriptor that closing, destroying or assigning releases, and any failing system call is reported with its own code, leaves the file contents alone and, in create and open, leaves neither an open handle nor a new file.",
["histories","fault_sequences"],"every legal call sequence up to the bound on two handles and two paths in all four modes, and every single failing system call of the shorter ones",
"The test suite drives the file class only through the database, in one order, and never looks at descriptors or error codes.",
[I+"posix_file.ipp",H+"posix_file.hpp"],
[("posix_file members",I+"posix_file.ipp")])
p("C23","Writers are delayed only when they outrun the disk with a burst pending",
"An insert is delayed when, and only when, a write rate was measured by a commit larger than the burst size, the inserts since the last flush are more than the burst size, and they arrive faster than that rate (both estimated to within the block overhead). A delay is short, does not delay fetches, never turns into an error and never loses the value; set_burst takes effect at once in both directions and a reopened store starts without a measured rate.",
["histories","inputs"],"every combination in bounds of burst size, value size, amount and duration of the measured commit, insert interval and order of calls, under virtual time",
"The delay depends on elapsed times; tests run in real time, never reach the burst size and cannot tell a delayed insert from a slow one.",
[I+"basic_store.ipp"],
[("rate measurement in flush, sleep in insert",I+"basic_store.ipp")])
p("C24","The command line tool does exactly what the library does and says so",
"The recover, rekey and verify commands of the nudb tool have exactly the effect on the files of the library call they stand for (rekey with the block size of the volume and a load factor of one half), exit with status zero if and only if that call succeeds, and otherwise name the error. info, verify and visit need only permission to read, change nothing, and print the exact header fields, statistics, value count and size histogram of the files. Unknown commands and missing or malformed arguments are refused with a non-zero status, a message and no effect; the order and notation of arguments do not matter.",
["inputs","crash_points","fault_sequences"],"every command with every combination of argument lists in bounds, on every combination of whole, missing, empty, swapped, damaged and interrupted files, and with each file operation failing",
"The tool has no tests.",
["tools/nudb.cpp"],
[("commands, argument parsing, printing","tools/nudb.cpp")])
p("C25","Exceptions of callbacks and allocations leave store and files intact",
"An exception thrown by the callback of fetch, by the callback or progress of visit, or by the progress of verify or rekey reaches the caller of that function unchanged and once. So does the failure of any allocation that fetch, insert, open, verify, visit, rekey, recover or create makes. Either way nothing else changes: no lock, descriptor or memory stays held, later fetches, inserts and commits work and give what they would have given, an insert that threw has not inserted its key and can be repeated, an open that threw leaves the store closed, recover can be repeated, and an unfinished rekey is undone by recover and can then be repeated. This holds also for fetches made while a commit is in progress. (Failing allocations inside a commit are not covered.)",
["histories","fault_sequences","inputs"],"every callback and every allocation of every call in every history in bounds, also of fetches made at every file operation of a commit",
"Tests never throw from a callback and never run out of memory; a lock kept by one path shows only in a later commit.",
[I+"basic_store.ipp",I+"visit.ipp",I+"verify.ipp",I+"rekey.ipp",I+"recover.ipp","include/nudb/detail/gentex.hpp","include/nudb/detail/pool.hpp","include/nudb/detail/arena.hpp"],
[("locks held across callbacks in fetch",I+"basic_store.ipp"),("genlock","include/nudb/detail/gentex.hpp"),("pool insert","include/nudb/detail/pool.hpp")])
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
