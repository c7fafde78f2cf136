"""What runs for each property: harness, sources of /repo it needs, sanitizer build, sizes."""


def J(name, src, mode="", flavor="asan", repo=(), quick=1, thorough=None, shards=4, timeout=120, **kw):
    d = dict(name=name, src=src, mode=mode, flavor=flavor, repo=list(repo), quick=quick,
             thorough=thorough if thorough is not None else quick * 20, shards=shards, timeout=timeout)
    d.update(kw)
    return d


SPECS = {}
NOT_APPLICABLE = {}

SPECS["C01"] = dict(
    jobs=[J("random", "c01_binary.cpp", "random", quick=2500, thorough=40000, shards=7),
          J("boundaries", "c01_binary.cpp", "boundaries", quick=1, thorough=3, shards=1, weight=9),
          J("threads", "c01_binary.cpp", "threads", flavor="tsan", quick=40, thorough=400, shards=1)],
    gate={"thread_values": 1500, "roundtrips": 10000, "boundary_sweeps": 1, "foreign_signed": 500},
    eval="roundtrips", distinct="shape",
    rule="random value trees (biased to width, length and key-length boundaries, re-used targets, foreign legal encodings) plus a sweep of all "
         "width boundaries; each is built through the API, encoded, read by an independent decoder, decoded by the library and compared; "
         "four threads on their own values at once under ThreadSanitizer; "
         "distinct = different tree shapes (types, width classes, nesting) with more than one node",
)

SPECS["C02"] = dict(
    jobs=[J("random", "c02_json.cpp", "random", quick=1500, thorough=30000, shards=7),
          J("sweep", "c02_json.cpp", "sweep", quick=1, thorough=4, shards=1, weight=9),
          J("threads", "c02_json.cpp", "threads", flavor="tsan", quick=40, thorough=400, shards=1)],
    gate={"thread_values": 1500, "edges": 1000, "written": 10000, "read": 8000, "xml": 5000, "codepoints": 3000, "sweeps": 1},
    eval="read", distinct="shape",
    rule="random value trees written by the library and read by an independent strict RFC 8259 / XML reader, and random JSON documents (own writer "
         "with random white space, escapes, number notations) read by the library; plus sweeps over integer and double boundaries, every byte "
         "value, code points and depths at top level, in arrays and in members; four threads on their own values at once under ThreadSanitizer; distinct = different tree shapes read",
)

SPECS["C03"] = dict(
    jobs=[J("bin", "c03_hostile.cpp", "bin", repo=["CHttpReader.cpp", "Utils.cpp"], quick=400, thorough=10000, shards=3),
          J("json", "c03_hostile.cpp", "json", repo=["CHttpReader.cpp", "Utils.cpp"], quick=300, thorough=8000, shards=2),
          J("pkg", "c03_hostile.cpp", "pkg", repo=["CHttpReader.cpp", "Utils.cpp"], quick=700, thorough=20000, shards=1),
          J("http", "c03_hostile.cpp", "http", repo=["CHttpReader.cpp", "Utils.cpp"], quick=1500, thorough=40000, shards=1),
          J("extreme", "c03_hostile.cpp", "extreme", repo=["CHttpReader.cpp", "Utils.cpp"], quick=1, thorough=3, shards=1, weight=9)],
    gate={"bin_accepted": 300, "bin_rejected": 10000, "json_accepted": 200, "json_rejected": 10000, "pkg_accepted": 1000, "pkg_rejected": 1000,
          "cpkg_reads": 2000, "cpkg_errors": 1000, "http_accepted": 3000, "http_rejected": 1000, "tags": 10000, "extremes": 30, "depth_sequences": 1000},
    eval="inputs", distinct="shape",
    rule="valid encodings of random trees / requests, all their prefixes, 1-3 byte or token mutations, random bytes, every type tag with every short "
         "length field, nesting up to one million; input in an exactly sized heap block; acceptance and value compared with independent decoders, "
         "heap use bounded by 4096 bytes per input byte; distinct = different input byte strings",
)

SPECS["C04"] = dict(
    jobs=[J("ops", "c04_value.cpp", quick=130, thorough=8000, shards=8)],
    gate={"long_names": 50, "released": 5000, "ops": 60000, "self_assign": 1000, "push_own": 300, "conversions": 8000},
    eval="ops", distinct="history",
    rule="random operation sequences (assignments between variables and between parts of one value, subscripts, index, push/pop, insert/erase, clear, "
         "copies, const reads, conversions, wrong-type operations) on a pool of values mirrored by model trees; all values compared after every "
         "operation, all memory back after every history; distinct = different operation/type sequences",
)

SPECS["C05"] = dict(
    jobs=[J("packages", "c05_anypkg.cpp", quick=400, thorough=6000, shards=8)],
    gate={"head_changes": 3000, "head_only": 500, "packages": 8000, "headers": 15000, "short": 8000, "forwarded": 1000, "raw": 500, "xml": 200},
    eval="packages", distinct="shape",
    rule="random header fields and random bodies set in different ways on fresh and re-used packages, encoded (binary, JSON, XML), header bytes and "
         "body compared with an independent layout reader, decoded by another package, forwarded, copied, truncated; distinct = body shapes",
)

SPECS["C06"] = dict(
    jobs=[J("histories", "c06_package.cpp", quick=300, thorough=5000, shards=8), J("hostile", "c06_package.cpp", "hostile", quick=120, thorough=8000, shards=8)],
    gate={"hostile_ops": 500000, "cut_short": 100000, "too_short": 10000, "copied": 15000, "replaced": 15000, "packages": 10000, "reads": 80000, "seeks": 5000, "patched": 2000},
    eval="packages", distinct="shape",
    rule="random write sequences (all integer types by write and <<, zero-terminated, counted and raw blocks, in-place patches) for three header sizes, "
         "bytes compared with a model, read back in order from an exactly sized copy with cursor excursions, reads and seeks past the ends; "
         "any bytes as a package with any order of reads, seeks, copies and replacements, against a model with a cursor; distinct = different item sequences",
)

COMM = ["CCommMgr.cpp", "CEvent.cpp", "Utils.cpp"]
SPECS["C07"] = dict(
    jobs=[J("filters", "c07_framing.cpp", "filters", repo=COMM, quick=120, thorough=4000, shards=3),
          J("loop", "c07_framing.cpp", "loop", repo=COMM, quick=250, thorough=5000, shards=5)],
    gate={"decisions": 100000, "hostile_decisions": 50000, "connections": 800, "packets": 3000, "rejected": 200, "inj_recv_cut": 5000},
    eval="decisions", distinct="packets",
    rule="valid packets of every framing and packet sequences, cut at every byte (filters, on exactly sized memory) or received in pieces chosen by the "
         "monitor at the system-call boundary (manager), followed by nothing, another packet, part of one, garbage or a packet that cannot fit; "
         "distinct = different streams",
)

SPECS["C30"] = dict(
    jobs=[J("ops", "c30_sockbuf.cpp", quick=3500, thorough=100000, shards=8)],
    gate={"ops": 200000, "refused": 1000, "received": 20000, "emptied": 10000, "copies": 2000, "full": 500},
    eval="ops", distinct="history",
    rule="random append / consume / receive-in-place / grow / reset / copy sequences on buffers of initial sizes 0..4096 and maxima 0..100000, each "
         "compared with a string after every operation; distinct = different configurations and operation sequences",
)

SPECS["C08"] = dict(
    jobs=[J("writes", "c08_delivery.cpp", repo=COMM, quick=350, thorough=4000, shards=8)],
    gate={"writes": 10000, "refused_writes": 300, "closed_exact": 500, "bytes": 5000000, "greeted": 1000, "settled": 600, "inj_send_cut": 1000, "inj_again": 1000, "callback_writes": 1000},
    eval="writes", distinct="history",
    rule="random interleavings of writes (0 to 300 000 bytes, from messages, from inside onConnect and onRead, with and without close) on up to four concurrent "
         "connections with slow readers, small kernel buffers and injected partial sends, EAGAIN and EINTR; every connection carries its own "
         "pseudo-random stream, checked byte by byte at the peer, also while nothing more is written; distinct = different write histories",
)

SPECS["C09"] = dict(
    jobs=[J("life", "c09_life.cpp", repo=COMM, quick=90, thorough=2000, shards=8)],
    gate={"sessions": 5000, "limit_rounds": 100, "turned_away": 300, "dialed": 500, "dial_refused": 50, "stale_uses": 200, "batched": 20, "innocents": 150,
          "closed_in_connect": 20, "replaced_in_batch": 30, "output_resets": 15, "replaced_in_end": 10},
    eval="sessions", distinct="history",
    rule="random histories of joins, requests, closes by either side (plain, reset, half, from inside callbacks, of other sessions, with an immediate new "
         "connect on the same descriptor), outgoing connects to accepting, refusing and silent peers, use of dead sessions and floods beyond the limit, "
         "with injected accept, epoll and receive failures; an automaton per session, the descriptor table and the peers are compared afterwards; "
         "distinct = different histories",
)

SPECS["C10"] = dict(
    jobs=[J("hostile", "c10_hostile.cpp", repo=COMM, quick=60, thorough=600, shards=8)],
    gate={"good_answers": 5000, "garbage": 150, "bad_length": 100, "oversize": 100, "non_reader": 200, "early_leaver": 200, "half_close": 200, "connect_and_vanish": 500,
          "vanished": 150, "floods": 5, "refused_writes": 20},
    eval="good_answers", distinct="history",
    rule="one manager with four services (both STX framings, raw, HTTP); one well-behaved client per service checks every answer while hostile peers send "
         "garbage, impossible and oversized lengths, partial packets, urgent data, reset, half-close, do not read their answers, vanish before them, or "
         "flood beyond the limit, with injected short, interrupted and failing system calls; distinct = different sequences of hostile acts",
)

SPECS["C11"] = dict(
    jobs=[J("virtual", "c11_timers.cpp", "virtual", repo=COMM, quick=400, thorough=20000, shards=8),
          J("real", "c11_timers.cpp", "real", repo=COMM, quick=8, thorough=60, shards=2)],
    gate={"fired": 20000, "deleted": 2000, "clock_changes": 500, "long_handlers": 500, "self_posts": 2000, "fd_events": 1000, "real_fired": 80, "inj_eintr": 500},
    eval="fired", distinct="history",
    rule="random histories of arming, re-arming and deleting timers (ids and delays over their whole range, equal due times) from inside timer callbacks, with "
         "handlers that take time, busy descriptors, messages that post themselves again, system clock changes and interrupted waits, under a clock the monitor "
         "controls (exact comparison of due times), plus runs under the real clock; distinct = different histories",
)

SPECS["C12"] = dict(
    jobs=[J("asan", "c12_messages.cpp", repo=COMM, quick=120, thorough=3000, shards=4),
          J("tsan", "c12_messages.cpp", flavor="tsan", repo=COMM, quick=60, thorough=2000, shards=4)],
    gate={"messages": 200000, "self_messages": 5000, "floods": 4, "restarts": 50, "stops_idle": 50},
    eval="messages", distinct="interleaving",
    rule="1-6 threads and the loop itself post numbered messages, each with its own handler object, before and while the loop runs, across stops and restarts "
         "and beyond 65536 pending; exactly-once, order per sender, type, parameter, handler and thread are checked at delivery; also under ThreadSanitizer; "
         "distinct = different delivery orders",
)

SPECS["C31"] = dict(
    jobs=[J("asan", "c31_sync.cpp", repo=["CThread.cpp"], quick=160, thorough=6000, shards=4),
          J("tsan", "c31_sync.cpp", flavor="tsan", repo=["CThread.cpp"], quick=160, thorough=6000, shards=4)],
    gate={"mutex_sections": 5000, "spin_sections": 2000, "try_refused": 100, "guards_unwound": 100, "rw_writes": 2000, "rw_reads": 4000, "wakeups": 5000, "timeouts": 200,
          "singletons": 1000, "thread_kind_0": 20, "thread_kind_1": 20, "thread_kind_4": 20, "thread_kind_7": 20},
    eval="cases", distinct="shape",
    rule="random contention on every lock type (blocking, try, guard, guard left by an exception), producer/consumer hand-over through conditions, timed waits "
         "with and without notification, thread objects through start/stop/join/detach/delete in varying orders, and first use of 150 singleton types by "
         "several threads at once, under AddressSanitizer and ThreadSanitizer; distinct = different scenario draws",
)

SCHED = ["-Wl," + ",".join("--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_timedwait",
                                                   "pthread_cond_signal", "pthread_cond_broadcast", "pthread_create"))]
SPECS["C13"] = dict(
    jobs=[J("asan", "c13_task.cpp", repo=["CTask.cpp", "CThread.cpp"], quick=1000, thorough=20000, shards=4, libs=SCHED),
          J("tsan", "c13_task.cpp", flavor="tsan", repo=["CTask.cpp", "CThread.cpp"], quick=400, thorough=10000, shards=4, libs=SCHED)],
    gate={"tasks": 50000, "refused": 5000, "full": 100, "barriers": 50, "stops": 300, "pending_at_stop": 30, "restarts": 50, "nested": 2000, "inj_spurious_wakeups": 500, "runs_failed": 100},
    eval="tasks", distinct="interleaving",
    rule="1-4 threads and running tasks submit numbered tasks with plain payloads to pools of 1-8 workers with queues of 0 to 100000, with random pauses "
         "at every lock, signal and wait and spurious wake-ups; execution count, argument, visibility, concurrency, acceptance order, refusal exactly at "
         "the bound, and stop / restart / destruction at any time are checked; also under ThreadSanitizer; distinct = different (order, worker) histories",
)

POOL = COMM + ["CTask.cpp", "CThread.cpp", "CHttpReader.cpp", "CHttpWriter.cpp"]
SPECS["C14"] = dict(
    jobs=[J("asan", "c14_pools.cpp", repo=POOL, quick=200, thorough=1500, shards=5, libs=SCHED),
          J("tsan", "c14_pools.cpp", flavor="tsan", repo=POOL, quick=80, thorough=600, shards=3, libs=SCHED)],
    gate={"requests": 10000, "answers": 8000, "refused": 500, "left_early": 500, "closing_answers": 100, "handler_failures": 150, "conserved": 300, "inj_spurious_wakeups": 50},
    eval="requests", distinct="history",
    rule="six pools (raw, any-package, HTTP; roomy and with a queue of 1-4) behind one manager, up to 30 clients sending pipelined numbered requests, leaving "
         "with requests under way (a new client takes over the descriptor), asking for closing answers, hitting failing handlers and full queues, with cut and "
         "interrupted system calls and random pauses; request bytes, session, exactly-once, answer bytes and addressee are checked at worker and client, "
         "requests = processed + refused, memory and descriptors do not grow; also under ThreadSanitizer; distinct = different histories",
)

NETW = ["CNetWorker.cpp", "CCommMgr.cpp", "CEvent.cpp", "Utils.cpp", "CThread.cpp"]
SPECS["C15"] = dict(
    jobs=[J("asan", "c15_workers.cpp", repo=NETW, quick=200, thorough=3000, shards=5, libs=SCHED),
          J("tsan", "c15_workers.cpp", flavor="tsan", repo=NETW, quick=100, thorough=1500, shards=3, libs=SCHED)],
    gate={"packets": 4000, "sessions": 4000, "answer_bytes": 10000000, "outgoing_answered": 200, "floods": 20, "turned_away": 800, "abrupt_stops": 20, "stale_uses": 200,
          "served_beside_busy": 50, "start_failures": 10, "messages": 8000, "timers": 3000, "workers_used": 300, "closed_other": 10, "greeted": 120},
    eval="packets", distinct="history",
    rule="one to four workers behind two services (both framings); histories of joins, pipelined, split, empty and large answers, closes by either side and from "
         "inside callbacks, outgoing connects of workers, timers and messages per worker, dead sessions, a worker kept busy, floods beyond the descriptor limit, "
         "orderly and abrupt stops, threads that cannot start, with injected short, interrupted and failing system calls; owner, thread, order, life cycle, bytes "
         "and descriptors are checked; also under ThreadSanitizer; distinct = different histories",
)

SPECS["C16"] = dict(
    jobs=[J("asan", "c16_blockqueue.cpp", quick=60, thorough=3000, shards=4, libs=SCHED),
          J("tsan", "c16_blockqueue.cpp", flavor="tsan", quick=60, thorough=3000, shards=4, libs=SCHED)],
    gate={"seq_ops": 60000, "small_ops": 20000, "lin_histories": 1500, "elements": 15000, "big_runs": 80, "storms": 800, "wakeups": 200, "observers": 1000, "timed_out": 1000, "clears": 20, "inj_spurious_wakeups": 500},
    eval="small_ops", distinct="history",
    rule="random operation sequences of one thread against a deque; short histories of 2-4 threads with every operation, checked by exhaustive search for a "
         "legal order; long runs of up to 4 producers and 4 consumers checked for exactly-once, real-time order, capacity and the bounds of size/full/empty; "
         "blocked calls that must be released; with random pauses and spurious wake-ups, also under ThreadSanitizer; distinct = different histories",
)

SPECS["C17"] = dict(
    jobs=[J("asan", "c17_ring.cpp", quick=60, thorough=3000, shards=4),
          J("tsan", "c17_ring.cpp", flavor="tsan", quick=60, thorough=3000, shards=4)],
    gate={"seq_ops": 60000, "seq_full": 3000, "seq_empty": 3000, "handed_over": 500000, "refused_full": 1000, "refused_empty": 1000, "reinits": 20, "before_init": 20},
    eval="handed_over", distinct="history",
    rule="random operation sequences of one thread against a deque for every capacity up to 40 and random larger ones (also before init and after re-init), and one "
         "producer and one consumer handing over thousands of numbered multi-word elements with own memory through queues of capacity 1 and up: each element checked "
         "for value, order and wholeness, each refusal for being justified; also under ThreadSanitizer with nothing else ordering the two threads; distinct = "
         "different sequences and refusal patterns",
)

SPECS["C18"] = dict(
    jobs=[J("asan", "c18_bufqueue.cpp", quick=45, thorough=3000, shards=4),
          J("tsan", "c18_bufqueue.cpp", "tsan", flavor="tsan", quick=45, thorough=3000, shards=4)],
    gate={"pushes": 80000, "refused": 10000, "pops": 30000, "pops2": 30000, "pop_empty": 10000, "too_long": 3000, "attached": 5000, "empty_pushes": 1000, "huge": 3000,
          "thread_messages": 100000, "process_messages": 50000, "duo_refused": 1000, "duo_empty": 1000},
    eval="pushes", distinct="history",
    rule="random push / pop sequences (one and two buffers, message sizes from 0 to impossible, receive buffers around the message size, second attachments) on "
         "exactly sized buffers from the smallest legal size on, compared with a list of strings after every operation; then one side filling and the other "
         "draining from two threads (also under ThreadSanitizer) and from two processes on shared memory, every message compared byte for byte and every refusal "
         "and count with what the other side had done; distinct = different histories",
)

SHM = ["-Wl,--wrap=shmget,--wrap=shmat,--wrap=shmdt"]
SPECS["C19"] = dict(
    jobs=[J("ops", "c19_bitmap.cpp", quick=400, thorough=20000, shards=7, libs=SHM),
          J("sweep", "c19_bitmap.cpp", "sweep", quick=1, thorough=1, shards=1, weight=9, libs=SHM)],
    gate={"sets": 50000, "gets": 20000, "range_refused": 5000, "over_wide": 5000, "inits": 10000, "attached": 3000, "init_failed": 1000, "dead_uses": 3000, "clears": 300, "copies": 1000, "swept": 20000},
    eval="sets", distinct="history",
    rule="random set / get / clear / init / re-init / copy / destroy histories of several objects of every width on shared segments whose end is watched to the byte, "
         "with indices inside, at and far beyond the end, over-wide values, missing, too small and unattachable segments; all elements of all objects compared with "
         "a model after every operation; plus every index and value of all small maps over both backgrounds; distinct = different histories",
)

SPECS["C20"] = dict(
    jobs=[J("ops", "c20_shmarray.cpp", quick=250, thorough=15000, shards=8, libs=SHM)],
    gate={"sets": 50000, "gets": 20000, "created": 2000, "attached": 2000, "init_failed": 1000, "dead_uses": 500, "copies": 1000, "create_races": 500, "real_processes": 200,
          "shm_creates": 3000, "shm_copies": 3000, "shm_attaches": 1000},
    eval="sets", distinct="history",
    rule="random histories of init (new, existing, too large, absurd, missing, unattachable, read-only), element access, copies and destruction of several objects of "
         "four element types and of raw segments, on a model of System V shared memory whose ends are watched to the byte and where creation can be overtaken by "
         "another process; plus 2-6 real processes creating, filling and reading one real segment at once; distinct = different histories",
)

SPECS["C21"] = dict(
    jobs=[J("asan", "c21_lru.cpp", repo=["Utils.cpp"], quick=100, thorough=5000, shards=5, libs=SCHED + ["-Wl,--wrap=time"]),
          J("tsan", "c21_lru.cpp", "threads", flavor="tsan", repo=["Utils.cpp"], quick=100, thorough=5000, shards=3, libs=SCHED + ["-Wl,--wrap=time"])],
    gate={"sets": 100000, "evictions": 10000, "expired": 5000, "hits": 40000, "misses": 40000, "dels": 8000, "clears": 300, "v2_hits": 20000, "v2_misses": 5000, "lin_histories": 2000,
          "thread_hits": 50000, "thread_runs": 300},
    eval="sets", distinct="history",
    rule="random set / get / del / clear histories with and without expiry under a clock the monitor controls, on caches of 0 to some hundred entries, compared after "
         "every operation with an ordered list; the sharded variant likewise with the bounds its sharding allows; short histories of 2-4 threads checked by exhaustive "
         "search for a legal order and longer ones for values of the right key and writer; also under ThreadSanitizer; distinct = different histories",
)

LOGW = SCHED + ["-Wl,--wrap=time,--wrap=gettimeofday,--wrap=clock_gettime,--wrap=usleep"]
LOGS = ["CAsyncLog.cpp", "CLog.cpp", "CFileLog.cpp", "CThread.cpp", "Utils.cpp"]
SPECS["C22"] = dict(
    jobs=[J("asan", "c22_asynclog.cpp", repo=LOGS, quick=120, thorough=5000, shards=4, libs=LOGW),
          J("levels", "c22_asynclog.cpp", "levels", repo=LOGS, quick=50, thorough=1000, shards=2, libs=LOGW),
          J("tsan", "c22_asynclog.cpp", flavor="tsan", repo=LOGS, quick=80, thorough=3000, shards=3, libs=LOGW)],
    gate={"accepted": 60000, "refused": 20000, "flushes": 5000, "lines": 100000, "rotated_files": 2000, "days": 800, "periodic": 40, "destroyed": 300, "start_failures": 15,
          "late_directories": 25, "into_empty": 200, "level_records": 2000, "level_runs": 40, "before_init": 20, "inj_pauses": 10000, "discards": 60, "both_buffers": 40, "reopened": 50, "full_written": 20, "budgets": 8},
    eval="accepted", distinct="history",
    rule="1-6 threads writing numbered records of all kinds and lengths (beyond the buffers too) through buffers from 120 bytes to 64 KiB, with flushes from any thread, "
         "the log's own periodic flush, rotation from 1 byte on, day changes, a directory that appears late, a thread that cannot start, destruction with and without "
         "flush; the files are read back: every accepted record once, whole, unchanged, in its thread's order, stamped with its time, no refused one; CLog with all 16 "
         "masks in processes of their own; random pauses at every lock; also under ThreadSanitizer; distinct = different interleavings of records in the files",
)

SPECS["C23"] = dict(
    jobs=[J("asan", "c23_filelog.cpp", repo=LOGS, quick=50, thorough=3000, shards=5, libs=LOGW),
          J("tsan", "c23_filelog.cpp", "threads", flavor="tsan", repo=LOGS, quick=60, thorough=3000, shards=3, libs=LOGW)],
    gate={"records": 40000, "comparisons": 10000, "restarts": 2000, "reinits": 2000, "moves": 900, "disk_full": 900, "no_directory": 900, "leftovers": 60, "streamed": 9000,
          "thread_records": 40000, "thread_runs": 240, "before_init": 30},
    eval="records", distinct="history",
    rule="random histories of records of all kinds and lengths, restarts, re-initialisation, other paths, full disk and missing directory under a clock the monitor "
         "controls, with every size and file budget; every file of every day compared byte for byte with a model of the rotation; then 2-6 threads at once (also under "
         "ThreadSanitizer): whole lines, per-thread order, budget, each closed file just over the size limit; distinct = different histories",
)

SPECS["C24"] = dict(
    jobs=[J("requests", "c24_httpreader.cpp", repo=["CHttpReader.cpp", "Utils.cpp"], quick=1500, thorough=40000, shards=8)],
    gate={"requests": 25000, "left_over_checks": 50000, "broken": 6000, "cleared": 2500, "params": 200000, "numbers": 100000, "cookies": 110000, "heads": 330000, "parts": 18000, "files": 9000, "opaque": 2500, "urlencoded": 5000},
    eval="requests", distinct="request",
    rule="random well-formed requests built from a structure (all methods, every encoding of parameters and cookies, heads in any case and spacing, multipart bodies with "
         "awkward data, names and boundaries, opaque bodies), several through one reader with broken requests and clear() in between; every public getter of a fresh and "
         "of the used reader compared with the structure, and nothing of earlier requests left; distinct = different requests",
)

SPECS["C25"] = dict(
    jobs=[J("responses", "c25_httpwriter.cpp", repo=["CHttpWriter.cpp", "Utils.cpp"], quick=1500, thorough=60000, shards=8),
          J("big", "c25_httpwriter.cpp", "big", flavor="plain", repo=["CHttpWriter.cpp", "Utils.cpp"], quick=1, thorough=1, shards=1, weight=9)],
    gate={"responses": 25000, "heads": 160000, "cookies": 14000, "cookie_overwritten": 350, "empty_bodies": 10000, "named_builtin": 5000, "no_begin": 1000, "early_ends": 5000, "copies": 2000, "explicit_length": 1200, "big_bodies": 1, "bodyless": 40},
    eval="responses", distinct="response",
    rule="random sequences of begin, setters (with long and awkward values), cookies, body output of every type and size, end (also twice) and copies through one writer "
         "built on dirty memory; every byte string produced is parsed independently and must be one valid response with exactly the status, heads, cookies, length and "
         "body set since begin; plus bodies beyond 2 and 4 GiB; distinct = different responses",
)

SPECS["C26"] = dict(
    jobs=[J("texts", "c26_config.cpp", repo=["CConfig.cpp", "Utils.cpp"], quick=3000, thorough=60000, shards=8)],
    gate={"values": 150000, "numbers": 80000, "absent": 900000, "files": 10000, "addresses": 6000, "address_files": 1800, "reloads": 2000, "hostile": 1500, "duplicates": 35000, "junk_lines": 9000, "comments": 20000, "sections": 28000, "missing_files": 900, "second_files": 2000},
    eval="values", distinct="text",
    rule="random ini texts built from a structure (indentation, blanks, comments, junk, duplicate and re-opened sections, awkward names and values, both line ends, no last "
         "line end), loaded and compared through every getter, also for names that are not in the text; address values and lists; damaged texts; distinct = different texts",
)

SPECS["C27"] = dict(
    jobs=[J("random", "c27_helpers.cpp", repo=["Utils.cpp"], quick=600, thorough=40000, shards=7),
          J("sweep", "c27_helpers.cpp", "sweep", repo=["Utils.cpp"], quick=1, thorough=1, shards=1, weight=9),
          J("threads", "c27_helpers.cpp", "threads", flavor="tsan", repo=["Utils.cpp"], quick=40, thorough=1000, shards=1)],
    gate={"shared_calls": 100000, "replace": 120000, "split": 120000, "middle": 120000, "trim": 120000, "url": 120000, "hostport": 120000, "dates": 200000, "date_forms": 400000, "far_dates": 40000, "cut_dates": 300000, "bad_dates": 250000, "swept": 65000, "days": 26000, "addresses": 120000},
    eval="url", distinct="call",
    rule="random and overlapping arguments to every helper against its plain definition written independently (two-character alphabets, empty finds and separators, "
         "positions behind the end, in-place use), dates of every day of 1967-2040 in every form, far and malformed dates in buffers watched to the byte, all byte pairs "
         "behind a %; in seven time zones; dates, addresses and encodings from four threads at once under ThreadSanitizer; distinct = different calls",
)

SPECS["C28"] = dict(
    jobs=[J("low", "c28_tcpconn.cpp", repo=["CTcpConnector.cpp"], quick=100, thorough=5000, shards=6),
          J("high", "c28_tcpconn.cpp", "high", repo=["CTcpConnector.cpp"], quick=70, thorough=3000, shards=2)],
    gate={"ops": 9000, "connections": 1200, "bytes_read": 15000000, "bytes_written": 20000000, "timeouts": 900, "peer_closes": 200, "peer_resets": 100, "ends_seen": 100, "broken_writes": 80, "refused": 400, "transfers": 40, "stalled": 5, "partial_writes": 8, "unconnected_reads": 1000, "failures_reported": 3000, "failed_later": 60, "long_timeouts": 2, "write_timeouts": 20},
    eval="ops", distinct="history",
    rule="random histories of connect (listener, closed port, no address), write, read, readn and close against a peer that sends, closes and resets at any point, with short "
         "transfers, interrupted calls, immediate connects, failing sockets and connects that fail later injected; two-way transfers with random pauses; peers that do not read or answer; descriptors "
         "below and above 1024; results, bytes, time-outs and descriptors compared with a model; distinct = different histories",
)

SPECS["C29"] = dict(
    jobs=[J("service", "c29_udp.cpp", "service", repo=COMM + ["CUdpConnector.cpp"], quick=350, thorough=15000, shards=3),
          J("connector", "c29_udp.cpp", "connector", repo=COMM + ["CUdpConnector.cpp"], quick=110, thorough=6000, shards=3),
          J("threads", "c29_udp.cpp", "threads", flavor="tsan", repo=COMM + ["CUdpConnector.cpp"], quick=80, thorough=4000, shards=2)],
    gate={"datagrams": 14000, "handed": 8000, "refused": 4000, "answers_checked": 9000, "echoes": 2000, "empty": 1000, "hostile": 1500, "recreated": 200, "wrong_targets": 300, "connects": 700, "reads": 350, "writes": 1500,
          "timeouts": 800, "crowd": 2000, "thread_echoes": 8000, "thread_answers": 1500, "inj_sendto_fail": 150, "local_ports": 35},
    eval="datagrams", distinct="history",
    rule="datagrams of every size and content from several peers to services of every framing and buffer size (whole, incomplete, malformed, empty, too long), the log of "
         "the handler compared with what was sent, every answer (to the sender, to others, too long, through wrong servers) compared at the peer, services removed and "
         "re-created with datagrams on their way; random histories of the connector with failing calls and time-outs; hundreds of connectors at once; clients and answering "
         "threads at once under ThreadSanitizer; distinct = different histories",
)

MYSQL = ["-DHAVE_MYSQL_H", "-I/usr/include/mariadb"]
SPECS["C32"] = dict(
    jobs=[J("histories", "c32_mysql.cpp", repo=["CMysql.cpp"], quick=220, thorough=8000, shards=8, defs=MYSQL, libs=["-lmariadb", "-ldl"])],
    gate={"queries": 10000, "executed": 8000, "values": 600000, "nulls": 90000, "affected": 7000, "errors": 1700, "drops": 800, "cuts": 300, "killed": 800, "several": 1000, "connect_failures": 400, "connects": 1200, "escapes": 1100, "assigned": 800, "self_assigned": 1000, "uses": 1500, "stalled": 5, "later_errors": 60, "lost_later": 8, "charset_seen": 3000},
    eval="queries", distinct="history",
    rule="random histories of connecting (also refused, rejected and cut off), choosing databases and character sets, queries (rows with NULLs and binary values, affected rows, "
         "errors, duplicate names, several results, connections dropped before or in the middle of the answer, time-outs) and escaping, through the real client library "
         "against a server of the monitor; results compared by every getter and after copying, assigning and releasing; every library handle and result followed; "
         "distinct = different histories",
)

SPECS["C33"] = dict(
    jobs=[J("services", "c33_services.cpp", repo=COMM, quick=300, thorough=6000, shards=8)],
    gate={"created": 10000, "removed": 10000, "removed_onConnect": 200, "removed_onClose": 50, "removed_onError": 20, "removed_onError (limit)": 50, "removed_onRead of its own": 200,
          "removed_onRead of another": 100, "removed_onTimer": 300, "answered": 1500, "others_served": 3000, "connections_ended": 2000, "outgoing_ended": 1000, "refused_after": 1000,
          "capacity_rounds": 100, "impossible": 1000, "bare_dropped": 200, "dialed_silent": 500},
    eval="removed", distinct="history",
    rule="random histories on one running manager: TCP services of every framing (also an own one, set twice, or none), UDP services and outgoing services are created, used by "
         "several clients each and removed from messages, timers and from inside their own or foreign connect, read, close, error and limit notifications, some created "
         "again on the same address at once, next to services that cannot be created; handlers of removed services must stay silent, their connections and ports close, ids "
         "stay dead, the others answer, and descriptors, client slots and memory blocks return; distinct = different histories",
)

SPECS["C34"] = dict(
    jobs=[J("signals", "c34_signals.cpp", repo=COMM + ["CTask.cpp", "CThread.cpp"], quick=60, thorough=3000, shards=6),
          J("threads", "c34_signals.cpp", "threads", flavor="tsan", repo=COMM + ["CTask.cpp", "CThread.cpp"], quick=40, thorough=1500, shards=2)],
    gate={"sent": 25000, "handled": 25000, "single_deliveries": 1500, "behind_failed_calls": 2000, "echoes": 4000, "messages": 4000, "dials": 600, "registered_late": 90, "refusals": 130, "stops": 60, "inj_eintr": 4000, "tasks": 600, "timers": 500, "timers_under_signals": 80},
    eval="sent", distinct="history",
    rule="random sets of signals (also real-time ones) registered, registered again and registered while they already arrive, sent by several threads to the loop, the process and other "
         "threads, and raised right behind failed system calls of the loop by a handler that leaves another errno, while clients, outgoing connections, messages, timers and a "
         "task pool work; real-time signals are counted exactly, single deliveries one by one, the work must finish undisturbed, timers fire although signals keep arriving, stop() from onSignal ends the loop, impossible "
         "registrations are refused; under ThreadSanitizer as well; distinct = different histories",
)

SPECS["C35"] = dict(
    jobs=[J("process", "c35_process.cpp", repo=["Utils.cpp"], quick=120, thorough=4000, shards=8)],
    gate={"limit_calls": 800, "limit_true": 400, "limit_false": 100, "limit_raised": 100, "daemons": 100, "buffered": 60, "exit_handlers": 50},
    eval="limit_calls", distinct="call",
    rule="limits set to random and boundary soft and hard values, raised one to three times with and without privileges, compared with what the system allows in a sibling process; "
         "programs with buffered output, exit handlers, own sessions, blocked and ignored signals become daemons under a monitor that adopts and counts every process, also when "
         "no process can be made; distinct = different calls",
)
