# What each property's check builds and runs.
ASAN = ["-O1", "-fsanitize=address", "-mllvm", "-asan-stack=0", "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan": {"cflags": ASAN, "ldflags": ["-fsanitize=address"]},
    "sched": {"cflags": ["-O1", "-fno-inline", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"], "ldflags": []},
    "fast": {"cflags": ["-O2"], "ldflags": []},
}
IO_CALLS = "open close read write writev pwritev pread pwrite lseek fsync fdatasync sync_file_range ftruncate rename unlink mkdir rmdir link fstat lstat stat opendir readdir closedir flock".split()
IO_WRAP = ["-Wl," + ",".join("--wrap=" + c for c in IO_CALLS)]
SCHED_CALLS = "pthread_create pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_setname_np pthread_sigmask sched_yield gettid usleep clock_gettime gettimeofday time eventfd epoll_create epoll_create1 epoll_ctl epoll_wait".split()
SCHED_WRAP = ["-Wl," + ",".join("--wrap=" + c for c in SCHED_CALLS)]
CORE = ["mc/mc.c", "mc/am.c"]
CHECKS = {}
def check(prop, level, rule, targets, assumptions=(), limit=None, technique="", note=""):
    for t in targets:
        t["sources"] = CORE + t["sources"] if not t.pop("nocore", False) else t["sources"]
        t.setdefault("variant", "asan")
    CHECKS[prop] = {"level": level, "rule": rule, "targets": targets, "assumptions": list(assumptions),
                    "technique": technique, "note": note}
    if limit: CHECKS[prop]["limit"] = limit

check("C09", "model_checking",
      "every sequence of operations up to the depth is one execution, compared with a reference map after every step",
      [{"name": "heap", "sources": ["harness/heap.c"]}],
      technique="bounded exhaustive operation sequences on the real allocator against a reference model")

check("C01", "fault_enumeration",
      "one execution is one history of log writes, rotations and restarts with up to 2-3 crashes; each crash is placed at every mutating system call and combined with every loss/tear pattern of unsynced data; non-trivial: at least one crash or fault happened",
      [{"name": "wal_crash", "sources": ["harness/wal_crash.c", "mc/crashfs.c"], "ldflags": IO_WRAP}],
      technique="exhaustive crash-point and torn-write enumeration of the real log code over an in-memory disk")

check("C02", "model_checking",
      "one execution is one history of writes, rotations, restarts and reader steps; each is compared with the list of written records, from every start position and in every reading mode",
      [{"name": "wal_read", "sources": ["harness/wal_read.c", "mc/crashfs.c"], "ldflags": IO_WRAP}],
      technique="bounded exhaustive operation sequences and exhaustive single-byte damage on the real log reader against a reference log")

check("C03", "model_checking",
      "one execution is one history of writes, rotations, slot changes, snapshots and cleanups; the directory, list and status are compared with the reference after every step; non-trivial: a cleanup removed a file",
      [{"name": "wal_gc", "sources": ["harness/wal_gc.c", "mc/crashfs.c"], "ldflags": IO_WRAP}],
      technique="bounded exhaustive operation sequences on the real log cleanup against a reference model")

check("C10", "model_checking",
      "one execution is one sequence of index operations from an empty or prepared table; the index is compared with a map by a full scan and a lookup of every key after every operation; non-trivial: the sequence crossed an incremental resize",
      [{"name": "hash", "sources": ["harness/hash.c"]}],
      technique="bounded exhaustive operation sequences with visited-state pruning on the real hash index against a reference map")

check("C11", "model_checking",
      "one execution is one sequence of index operations and changing scans; the index is compared with a sorted map by a scan opened at every key, present or not, after every operation; non-trivial: more than two pages were reached",
      [{"name": "tree", "sources": ["harness/tree.c"]}],
      technique="bounded exhaustive operation sequences with visited-state pruning on the real tree index against a sorted map")

check("C12", "model_checking",
      "one execution is one assignment of keys to partitions, scanned from every key; all assignments within the bounds are enumerated",
      [{"name": "merge", "sources": ["harness/merge.c"]}],
      technique="exhaustive enumeration of partition contents and start keys on the real merge iterators against sorted reference lists")

check("C13", "model_checking",
      "one execution is one sequence of row operations in up to three pipelined transactions; every index, the row store and the replayed log are compared with a reference table after every operation; non-trivial: a second transaction was open or an operation failed midway",
      [{"name": "part", "sources": ["harness/part.c"]}],
      technique="bounded exhaustive transaction histories with visited-state pruning on the real partition code against a reference table with an undo stack")

check("C05", "fault_enumeration",
      "one execution is one history of partition creation, row changes, saves and backups snapshots with up to 2 crashes at any mutating system call and every loss/tear pattern of unsynced data; non-trivial: at least one crash happened",
      [{"name": "partfile", "sources": ["harness/partfile.c", "mc/crashfs.c"], "ldflags": IO_WRAP}],
      technique="exhaustive crash-point and torn-write enumeration of the real partition file code over an in-memory disk")

check("C06", "model_checking",
      "round trip: one execution is one history of additions and removals with saves and loads, compared with a reference set; damage: one case is one changed byte or truncation length of a saved file",
      [{"name": "partdata", "sources": ["harness/partfile.c", "mc/crashfs.c"], "ldflags": IO_WRAP, "cflags": ["-DC06"]}],
      technique="bounded exhaustive histories and exhaustive single-byte damage and truncation on the real file code against a reference set")

check("C14", "model_checking",
      "one execution is one sequence of schema operations; each operation is rejected, ignored, rolled back and committed against a reference schema, and every object is looked up by every name after it; non-trivial: an operation was accepted",
      [{"name": "catalog", "sources": ["harness/catalog.c", "mc/crashfs.c"], "ldflags": IO_WRAP}],
      technique="bounded exhaustive operation sequences with visited-state pruning on the real catalog against a reference schema")

check("C07", "fault_enumeration",
      "read back: one execution is one sequence of schema operations with a save and a restart after each; crash: one execution is one history of operations and saves with up to 2 crashes at any mutating system call of a save and every loss/tear pattern of unsynced data; non-trivial: a save was read back or a crash happened",
      [{"name": "catfile", "sources": ["harness/catalog.c", "mc/crashfs.c"], "ldflags": IO_WRAP, "cflags": ["-DC07"]}],
      technique="exhaustive crash-point and torn-write enumeration of the real catalog save over an in-memory disk, and bounded exhaustive schema histories read back")

check("C08", "fault_enumeration",
      "one execution is one history of changes and saves of the state and configuration with up to 3 crashes at any mutating system call, every loss/tear pattern of unsynced data, or up to 2 failing system calls; or one value of one option saved and read back; non-trivial: a crash, a fault or a changed value",
      [{"name": "statefile", "sources": ["harness/state.c", "mc/crashfs.c"], "ldflags": IO_WRAP}],
      technique="exhaustive crash-point, torn-write and fault enumeration of the real state and configuration saves over an in-memory disk, and exhaustive enumeration of option values up to a length")

RANGE_WRAP = ["-Wl," + ",".join("--wrap=" + c for c in "open close write writev pwrite pwritev fsync fdatasync rename unlink mkdir stat lstat".split())]
check("C15", "model_checking",
      "ranges: one case is one partition count, all slots are decided; keys: one execution is one partition count, volume count, key type and index type with inserts, lookups, scans and restarts, over keys of every length around the encoding limits, each in three encodings; non-trivial: more than one partition",
      [{"name": "ranges", "sources": ["harness/route.c"], "variant": "fast", "cflags": ["-DRANGES"], "ldflags": RANGE_WRAP},
       {"name": "keys", "sources": ["harness/route.c", "mc/crashfs.c"], "ldflags": IO_WRAP}],
      technique="exhaustive enumeration of partition counts and of key types, lengths and encodings on the real partition manager against the definition of a partitioning")

check("C19", "model_checking",
      "timers: one execution is one sequence of timer starts, stops and clock steps compared with a list of deadlines; loop: one execution is one program of up to three coroutines which wait, sleep, work and signal on the real main loop with a virtual clock, with outside signals at every point; non-trivial: a timer fired or a timed wait is part of the program",
      [{"name": "timer", "sources": ["harness/timer.c"], "ldflags": ["-Wl,--wrap=clock_gettime,--wrap=gettimeofday,--wrap=epoll_wait"]}],
      technique="bounded exhaustive operation sequences and coroutine programs on the real timers and main loop under virtual time against a reference list of deadlines and signals")

check("C27", "model_checking",
      "history: one execution is one sequence of user changes, time steps and requests, with every token tried at its end; bytes: one case is one changed, inserted or removed byte of a token with a cold or warm cache; fields: one header and payload, properly signed; non-trivial: users changed before a request, or a damaged token",
      [{"name": "auth", "sources": ["harness/auth.c"], "ldflags": ["-Wl,--wrap=clock_gettime"]}],
      technique="bounded exhaustive histories with visited-state pruning and exhaustive single-byte damage on the real authenticator against an independent verifier")

check("C28", "model_checking",
      "one execution is one script generated from the statement grammar; each is fed whole and in every division into lines (one case each) and the statements compared with the generated ones; non-trivial: several statements or a block",
      [{"name": "separator", "sources": ["harness/separator.c"]}],
      technique="exhaustive enumeration of scripts of a grammar within bounds and of their divisions into lines on the real splitter against the generated statements")

check("C22", "model_checking",
      "one execution is a set of texts that share a prefix (one case each), or one value; each text is parsed in a block of its exact size, compared with an independent parser, printed in both forms and read again; non-trivial: more than two tokens",
      [{"name": "json", "sources": ["harness/json.c"]}],
      technique="exhaustive enumeration of texts over token and byte alphabets and of boundary values on the real JSON code against an independent parser and comparison")

check("C23", "model_checking",
      "layouts, sizes: one execution is one column layout (sizes around both thresholds as cases), built in a block of its exact size, read back, copied to the row store; keys: one execution is one choice of column types, key order and row width, every pair of its rows (one case each) is compared with the natural order; non-trivial: several columns",
      [{"name": "rows", "sources": ["harness/rows.c"]}],
      technique="exhaustive enumeration of row layouts, sizes and key pairs within bounds on the real row code against an independent order")

check("C24", "model_checking",
      "dates, timestamps: one execution is a range of years, every day of it (one case each) is printed, read, taken apart, truncated and compared with a calendar counted day by day; the others: one execution is a set of texts (field combinations, every changed, inserted, removed or cut byte), of zone tables with their local times, of interval values and texts, or of encoded bytes; every text stands in a block of its exact size",
      [{"name": "time", "sources": ["harness/time.c"]}],
      technique="exhaustive enumeration of days, field values, texts, zone tables and byte strings within bounds on the real code against an independent calendar and codecs")

check("C25", "model_checking",
      "one execution is one stream of messages (well formed with or without its end, heads around the size limit, every text over a byte alphabet, every content length of a list, written messages), read in every division into reads of its kind (one case each: fixed sizes, every cut, pairs of cuts) and compared with what the text says; non-trivial: several messages, a cut stream or a malformed text",
      [{"name": "http", "sources": ["harness/http.c"], "ldflags": ["-Wl,--wrap=tcp_read"]}],
      technique="exhaustive enumeration of message streams and of their divisions into reads on the real HTTP reader against an independent reader of the text")

check("C17", "model_checking",
      "sequences: one execution is one sequence of lock, unlock and cancel operations of up to 4 coroutines, compared with first-come first-served service after every step; threads: one execution is one schedule of tasks on their own threads within the preemption bound; non-trivial: somebody waited, or a schedule of threads",
      [{"name": "locks_seq", "sources": ["harness/locks.c"], "nosched": True},
       {"name": "locks", "sources": ["harness/locks.c", "mc/sc.c"], "variant": "sched", "cflags": ["-DSCHED"], "ldflags": SCHED_WRAP}],
      technique="exhaustive enumeration of thread schedules of the real lock code under a controlled scheduler (preemption-bounded), and of operation sequences against a reference queue")

check("C18", "model_checking",
      "one execution is one schedule of sender, receiver, signaller and waiter tasks on their own threads within the preemption bound, including expiring timeouts and delayed stores; every execution is non-trivial (it has at least two threads)",
      [{"name": "ipc", "sources": ["harness/ipc.c", "mc/sc.c"], "variant": "sched", "ldflags": SCHED_WRAP}],
      technique="exhaustive enumeration of thread schedules of the real messaging, event and event loop code under a controlled scheduler (preemption-bounded, x86 store buffering of atomic stores)")

check("C20", "model_checking",
      "one execution is one schedule of submitting tasks, their coroutines and background workers on their own threads within the preemption bound; every execution is non-trivial (it has at least two threads)",
      [{"name": "jobs", "sources": ["harness/jobs.c", "mc/sc.c"], "variant": "sched", "ldflags": SCHED_WRAP}],
      technique="exhaustive enumeration of thread schedules of the real background job code under a controlled scheduler (preemption-bounded)")

check("C21", "model_checking",
      "threads: one execution is one schedule of tasks on their own threads which use a pool or counter at the same time, within the preemption bound (all are non-trivial); sequences: one execution is one sequence of operations on the identifier list or a counter, compared with a reference; non-trivial: something was removed or followed",
      [{"name": "pools_seq", "sources": ["harness/pools.c"]},
       {"name": "pools", "sources": ["harness/pools.c", "mc/sc.c"], "variant": "sched", "cflags": ["-DSCHED"], "ldflags": SCHED_WRAP}],
      technique="exhaustive enumeration of thread schedules of the real pools and counters under a controlled scheduler (preemption-bounded), and of operation sequences against a reference")

check("C26", "model_checking",
      "one execution is one set of addresses that share a scheme, user and host, or a position of an edit, or a prefix (one case each address); every address stands in a block of its exact size, is compared with an independent reader of the grammar, printed, copied, saved and read again; non-trivial: some are accepted",
      [{"name": "uri", "sources": ["harness/uri.c"]}],
      technique="exhaustive enumeration of address components, edits, texts and byte values within bounds on the real parser and printer against an independent reader of the grammar")

check("C04", "model_checking",
      "one execution is one schedule of writers, the background log worker, a follower, cleanup, a snapshot or requests on their own threads within the preemption bound, with the file operations in memory; every execution is non-trivial (it has at least two threads)",
      [{"name": "wal_conc", "sources": ["harness/wal_conc.c", "mc/sc.c", "mc/crashfs.c"], "variant": "sched", "ldflags": IO_WRAP + SCHED_WRAP}],
      technique="exhaustive enumeration of thread schedules of the real log code under a controlled scheduler (preemption-bounded) over an in-memory file system which knows what is on disk")

FILE_WRAP = ["-Wl," + ",".join("--wrap=" + c for c in "open close read write writev pwritev pread pwrite lseek fdatasync ftruncate lstat".split())]
NET_WRAP = ["-Wl," + ",".join("--wrap=" + c for c in "read writev epoll_ctl epoll_wait close socket connect getsockopt setsockopt getsockname fcntl".split())]
check("C29", "fault_enumeration",
      "files: one execution is one sequence of reads or writes with one sequence of results of the system calls below (every shorter count, interruptions, failures); non-trivial: a call failed",
      [{"name": "fileio", "sources": ["harness/fileio.c"], "ldflags": FILE_WRAP},
       {"name": "netio", "sources": ["harness/netio.c"], "ldflags": NET_WRAP}],
      technique="exhaustive enumeration of the results of every system call below the real read and write primitives, within bounds")

check("C16", "model_checking",
      "branches, sizes, versions: one execution is one set of rows, branches and region sizes, written, reopened and read from every key, each branch alone and merged; damage: one case is one changed byte, cut or shift of a small object; crash: one execution is one crash while a branch is added; non-trivial: several rows, damage or a crash",
      [{"name": "object", "sources": ["harness/object.c", "mc/crashfs.c"], "ldflags": IO_WRAP}],
      technique="exhaustive enumeration of row sets, region sizes and branches within bounds, of every damaged byte and of every crash point on the real object reader and writer against the written rows")

TLS_WRAP = ["-Wl," + ",".join("--wrap=" + c for c in "epoll_ctl epoll_wait close socket connect getsockopt setsockopt getsockname getpeername fcntl".split())]
check("C31", "fault_enumeration",
      "one execution is one exchange over the real TLS library with an independent endpoint in memory, with one sequence of short transfers and interruptions below it, or one client history, or one certificate name (one case for each name it is tried with); non-trivial: a transfer was short or interrupted",
      [{"name": "tls", "sources": ["harness/tls.c"], "variant": "fast", "ldflags": TLS_WRAP}],
      technique="exhaustive enumeration of short transfers and interruptions below the real connection code against an independent TLS endpoint in memory")
check("C30", "model_checking",
      "one execution is one order of all messages between the coordinators, the commit task and the partitions for one set of transactions; the results, the partitions and the log are compared with running the committed transactions one at a time; non-trivial: some transactions were aborted and some committed",
      [{"name": "dtr_one", "sources": ["harness/dtr.c"], "overlay": True, "cflags": ["-DONE"], "ldflags": ["-Wl,--wrap=wal_mgr_write"]},
       {"name": "dtr", "sources": ["harness/dtr.c"], "variant": "fast", "overlay": True, "ldflags": ["-Wl,--wrap=wal_mgr_write"]}],
      technique="exhaustive message orders with visited-state pruning on the real transaction protocol against serial execution")

check("C32", "fault_enumeration",
      "history: one execution is one sequence of changes, checkpoints and restarts of a whole database; crash: the same with one crash before or after any system call and what was on disk; the tables and rows found by the next start are compared with the committed transactions; non-trivial: a crash happened",
      [{"name": "recover", "sources": ["harness/recover.c", "mc/crashfs.c"], "variant": "fast", "overlay": True, "ldflags": IO_WRAP}],
      technique="exhaustive enumeration of change histories and crash points on the real schema, partitions, log and recovery over an in-memory disk against the committed transactions")
check("C33", "fault_enumeration",
      "backup: one execution is one sequence of changes, checkpoints, restarts and backups of a whole database; every backup is copied when it ends, restored into a fresh directory and opened, and has the tables and rows of the moment it began; crash: the same with one crash; non-trivial: a backup was restored or a crash happened",
      [{"name": "backup", "sources": ["harness/recover.c", "mc/crashfs.c"], "overlay": True, "cflags": ["-DBACKUP"], "ldflags": IO_WRAP}],
      technique="exhaustive enumeration of change and backup histories and crash points on the real snapshots, log and recovery over an in-memory disk against the committed transactions")
check("C41", "fault_enumeration",
      "repl: one execution is one sequence of changes of a primary, messages to a replica, lost or cut messages, checkpoints and restarts; the replica has the tables and rows of the transaction of its log position after every message and of the last one in the end; non-trivial: all operations of the sequence were possible",
      [{"name": "repl", "sources": ["harness/repl.c", "mc/crashfs.c"], "overlay": True, "ldflags": IO_WRAP + ["-Wl,--wrap=tcp_read"]}],
      technique="exhaustive enumeration of change, message-loss and restart histories on the real streamer, replay, log and recovery over an in-memory connection and disk against the committed transactions")

check("C40", "model_checking",
      "one execution is one table layout and content; every statement of the grammar is executed in it and decided against the reference evaluator (cases)",
      [{"name": "sql", "sources": ["harness/sql.c", "mc/crashfs.c"], "variant": "fast", "overlay": True, "engine": True, "ldflags": IO_WRAP},
       {"name": "sqlprog", "variant": "fast", "sources": ["harness/sqlprog.c", "mc/crashfs.c"], "overlay": True, "engine": True, "ldflags": IO_WRAP},
       {"name": "sqlalter", "variant": "fast", "sources": ["harness/sqlalter.c", "mc/crashfs.c"], "overlay": True, "engine": True, "ldflags": IO_WRAP}],
      technique="bounded exhaustive enumeration of statements, programs and table layouts on the real compiler, virtual machine and executor against a reference evaluator")
