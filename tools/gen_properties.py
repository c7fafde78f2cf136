#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Binary serialization preserves every value tree",
  "Encoding any dynamic value (null, bool, signed/unsigned integers of every magnitude, strings and binary blobs of any size and content, doubles, arrays, maps with keys of up to 255 bytes, nested to any practical depth) and decoding the bytes yields an equal value: same types, numbers, bytes, element order and keys. The bytes follow the published tag/length format exactly, so an independent decoder reads the same tree, re-encoding a decoded value reproduces the same bytes, decoding into a value that held something else leaves nothing of it, and bytes that follow the encoding do not influence the value. Values of different threads have nothing in common: each thread encodes and decodes its own as if it were alone.",
  ["inputs"], "every value tree; every byte layout the encoder can choose between (width boundaries, lengths, key lengths)",
  "The tests round-trip a handful of fixed trees and one golden file; width and length boundaries, blobs with NULs, nesting and re-use of a target are never sampled.",
  ["include/CAnyValue.h"],
  [("encode/encode_uinteger/encode_sinteger/encode_map/encode_vector", "include/CAnyValue.h"), ("decode/decode_map/decode_vector", "include/CAnyValue.h")],
  ["lce::CAnyValue::encode", "lce::CAnyValue::decode"])

p("C02", "JSON and XML text exchange preserves values",
  "Any value without binary-only types is written as valid JSON that an independent RFC 8259 parser reads as the same value (strings byte for byte, integers over the full 64-bit range exactly, finite doubles exactly), and any valid JSON document (whitespace, escapes, \\u escapes including surrogate pairs, exponents, nesting, empty containers, any top-level value, object keys of up to 255 bytes, integers of up to 64 bits) is read into the value the document denotes. XML output is well formed, escapes markup characters, and carries the same scalar data and nesting. This holds for threads working on values of their own at the same time.",
  ["inputs"], "every value tree and every valid JSON document",
  "The tests parse a few fixed documents and compare the library with itself; escapes, number formats, extremes and white space placements are not sampled.",
  ["include/CAnyValue.h"],
  [("encodeJSON/decodeJSON/encodeXML", "include/CAnyValue.h")],
  ["lce::CAnyValue::encodeJSON", "lce::CAnyValue::decodeJSON", "lce::CAnyValue::encodeXML"])

p("C03", "Decoding untrusted bytes is memory safe, bounded and all-or-error",
  "Handing any byte string of any length to a decoder of the library (dynamic value binary, JSON, any-package, fixed-header package, HTTP request) never reads or writes outside the given bytes, never corrupts or leaks memory, uses stack and heap bounded by the input size, and ends in a well-formed value or in the documented error. A truncated encoding, an unknown type tag or a JSON text cut short is reported as an error and never silently accepted as a complete value; nesting beyond a fixed limit (1000) may be refused, and a refused input has no influence on what is decoded afterwards.",
  ["inputs"], "every byte string, in particular every truncation, mutation and splice of valid encodings",
  "The tests only decode well-formed data produced by the library itself.",
  ["include/CAnyValue.h", "include/CAnyPackage.h", "include/CPackage.h", "src/CHttpReader.cpp"],
  [("check(), size checks before each read", "include/CAnyValue.h"), ("header size checks", "include/CAnyPackage.h"), ("size checks on >>", "include/CPackage.h")],
  ["lce::CAnyValue::decode", "lce::CAnyValue::decodeJSON", "lce::CAnyValuePackage::decode", "lce::CPackage operator>>", "lce::CHttpReader::reset"])

p("C04", "Dynamic values have value semantics",
  "A dynamic value behaves like a plain tree value under any sequence of operations: copies and assignments are deep and independent (also when a value is assigned from itself or from part of itself), subscript access creates exactly the missing entry, erase/push/pop/clear change exactly the addressed element, size/hasKey/type queries and conversions agree with the contents, and reading through a const value never changes it. Misuse of a type (subscripting a scalar, converting a container) reports the documented error or neutral value and leaves the value intact. All memory of a value is released with it; of a name only the first 255 bytes count, wherever it is used.",
  ["inputs", "histories"], "every sequence of operations on every tree, including aliasing ones",
  "Tests perform a few straight-line assignments; aliasing assignment, re-typing and long mixed histories are not explored.",
  ["include/CAnyValue.h"],
  [("assign/clear/operator=/operator[]", "include/CAnyValue.h")],
  ["lce::CAnyValue public operators"])

p("C05", "Any-packages deliver header and body unchanged",
  "A package built from a header (command, sequence, ids, flags, return code, source fields) and a dynamic body, encoded and decoded on the other side, returns every header field and the whole body unchanged; the reported sizes equal the bytes produced and what is added to a package it was decoded from travels on with it; integer fields travel in network byte order; a new header on an encoded package leaves its body alone, and a package without a body leaves the receiver without one. Decoding accepts exactly well-formed packages and reports anything else as an error without reading beyond the package.",
  ["inputs"], "every header field value and body, every package size, binary and JSON bodies",
  "One test sends one small package; field extremes, size accounting and malformed packages are not covered.",
  ["include/CAnyPackage.h", "include/CAnyValue.h"],
  [("encode/decode/encodeJSON/decodeJSON and head accessors", "include/CAnyPackage.h")],
  ["lce::CAnyValuePackage"])

p("C06", "Fixed-header packages read back exactly what was written",
  "Whatever sequence of integers, strings and raw blocks is appended to (or patched in place in) a package, reading the same sequence from its bytes returns the same values in the same order, with integers in network byte order on the wire and the header kept separate and intact. Reads past the end, impossible string lengths and packages shorter than the header are reported as errors and never touch bytes outside the package; seeking positions the read cursor relative to the requested origin and never outside the body.",
  ["inputs", "histories"], "every write/read/seek sequence and every package content",
  "No stable test exercises the package reader at all.",
  ["include/CPackage.h"],
  [("operator<< / operator>> / readString / writeString / seek", "include/CPackage.h")],
  ["lce::CPackage"])

p("C07", "Packet framing is independent of how the stream is split",
  "For every supported framing (STX/ETX with 4-byte length, STX/ETX with 2-byte length, raw, HTTP with and without body) and every sequence of well-formed packets, the receiver is handed exactly those packets in order no matter where the byte stream is cut, how packets are merged in one read, or what followed; an incomplete packet only makes it wait. A stream that cannot be a valid packet (wrong markers, impossible or oversized length) is rejected, and deciding this never looks at bytes that have not been received.",
  ["inputs", "schedules"], "every packet sequence and every segmentation of its byte stream",
  "Tests send whole small packets in one write each; splits at every byte, merges and hostile lengths are never exercised.",
  ["include/CH2T3PackageFilter.h", "include/CH2ShortT3PackageFilter.h", "include/CRawPackageFilter.h", "include/CHttpPackageFilter.h", "src/CCommMgr.cpp", "src/CNetWorker.cpp"],
  [("isWholePackage", "include/C*PackageFilter.h"), ("receive loop over the session buffer", "src/CCommMgr.cpp")],
  ["CPackageFilter::isWholePackage", "CProcessor::onRead"])

p("C08", "Server connections deliver exactly the bytes written, in order",
  "On each TCP connection of the communication manager the peer receives exactly the concatenation of the accepted writes of that session, in order, without loss, duplication or foreign bytes, whatever the sizes, however slowly the peer reads and however many sessions are active; a write that is refused says so, and if part of it already went out the stream ends there rather than continuing with a gap. When a write asks for closing, the connection is closed only after all its accepted bytes were delivered (to a peer that keeps reading), and not later than that.",
  ["inputs", "schedules", "histories"], "every mix of writes, sizes, peer read speeds and concurrent sessions",
  "The echo tests use short messages that always fit the socket buffer, so the pending-send path never runs.",
  ["src/CCommMgr.cpp", "include/CSocketBuf.h"],
  [("CCommMgr::write, onWrite, onEvent send branch", "src/CCommMgr.cpp")],
  ["peer socket", "CCommMgr::write result"])

p("C09", "Connection life cycle is accounted exactly once",
  "Every accepted or initiated connection yields exactly one connect notification, then its packets, then exactly one terminating notification (onClose when the peer closed or reset it, onError for a protocol, socket or buffer error; none when the application itself closed it), and nothing after it; an outgoing connection that fails is notified once as failed; its descriptor is closed exactly once and may be reused by a later connection, which starts with clean state; notifications carry the address of the peer they are about. The number of simultaneous clients never exceeds the configured maximum of the manager (further ones are turned away while existing ones continue), and after all peers have gone the server holds no descriptors or clients and accepts the full number again.",
  ["histories", "schedules", "configurations"], "every order of connects, requests, closes by either side and limits",
  "Tests open and close one connection at a time; limits, descriptor reuse and double closes are not exercised.",
  ["src/CCommMgr.cpp", "include/CCommMgr.h"],
  [("onAccept/onClose/close/connect bookkeeping", "src/CCommMgr.cpp")],
  ["CProcessor::onConnect/onClose", "/proc/self/fd", "peer sockets"],
  [("client count", "live accepted connections per server", "src/CCommMgr.cpp")])

p("C10", "Hostile or failing peers never harm the server or other clients",
  "Whatever peers do (reset mid-packet, half-close, send garbage or oversized lengths, connect and vanish, stop reading, flood connections, close before the answer is written), the process does not crash, the offending connection is dropped without leaking its descriptor, and well-behaved clients on the same server continue to be answered correctly.",
  ["fault_sequences", "schedules", "inputs"], "every sequence of peer faults interleaved with legitimate traffic",
  "No test misbehaves as a client.",
  ["src/CCommMgr.cpp", "src/CNetWorker.cpp", "src/Utils.cpp"],
  [("error branches of receive/send/accept", "src/CCommMgr.cpp")],
  ["liveness of good clients", "fd table", "sanitizers"])

p("C11", "Timers fire once per arming, in time order, never early",
  "Every armed timer of the event loop fires exactly once, not before its delay has elapsed (to the millisecond granularity of the clock) and within a bounded time after it, with the parameter it was armed with, and timers with different due times fire in the order of their due times; a timer deleted before it is due never fires, and deleting or re-arming timers (also from inside a timer callback) does not disturb the others.",
  ["histories", "schedules"], "every set of delays and every interleaving of add, delete and expiry",
  "The event test arms one timer.",
  ["src/CEvent.cpp", "include/CEvent.h"],
  [("addTimer/delTimer/timer processing in run", "src/CEvent.cpp")],
  ["CEvent::addTimer callbacks"])

p("C12", "Event-loop messages are delivered exactly once, in order",
  "Every message posted to the event loop from any number of threads is delivered to its handler exactly once, on the loop thread, with its own parameter, and messages of one sender arrive in the order they were posted; posting neither blocks forever nor loses messages when many are pending, including when posting from the loop thread itself; stopping the loop takes effect promptly, without waiting for the next event.",
  ["schedules", "histories"], "every interleaving of posters and the loop and every backlog",
  "The test posts a few messages from one thread.",
  ["src/CEvent.cpp", "include/CEvent.h"],
  [("addMessage + pipe wake-up, message dispatch in run", "src/CEvent.cpp")],
  ["CEvent::addMessage", "message callbacks"])

p("C13", "Task pool runs every accepted task exactly once",
  "Each task accepted by the thread pool is executed exactly once, by one of its worker threads, with its own argument and all effects made before submission visible to it; at most the configured number run at once, tasks are started in acceptance order, a full queue refuses tasks instead of losing them and holds at most its configured size, and stopping the pool neither hangs nor crashes: it waits for running tasks, and tasks not yet started stay queued until the pool runs again.",
  ["schedules", "histories"], "every interleaving of submitters, workers and stop",
  "Tests submit a few tasks and sleep; no contention, overflow or stop races.",
  ["include/CTask.h", "src/CTask.cpp", "include/CThread.h", "src/CThread.cpp"],
  [("CTask queue under mutex and condition", "src/CTask.cpp")],
  ["task callbacks", "CTask::dispatch"])

p("C14", "Worker pools answer each request on its own connection, once",
  "With requests of any number of concurrent clients processed by the raw, HTTP or any-package worker pool, every request reaches exactly one worker with the bytes and session it arrived with, its response goes to the connection it came from exactly once and unchanged, and never to another client; under overload requests are refused and reported to the error handler, and when the client has gone or a handler throws no answer is sent, without leaking, crashing or answering somebody else.",
  ["schedules", "histories"], "every interleaving of clients, worker threads, event loop and disconnects",
  "The pool tests send one request at a time from one client.",
  ["include/CRawWorkerPool.h", "include/CHttpWorkerPool.h", "include/CAnyWorkerPool.h", "include/CRawWorker.h", "include/CHttpWorker.h", "include/CAnyWorker.h", "src/CCommMgr.cpp"],
  [("onRead -> CTask dispatch -> sendMessage -> onMessage write", "include/C*WorkerPool.h")],
  ["client sockets", "worker callbacks"])

p("C15", "Multi-reactor server isolates and serves all connections",
  "With several network workers sharing one listening service, each accepted connection is owned by exactly one worker (new ones are spread over all of them), its packets are delivered in order on that worker's thread, the bytes written to it arrive unchanged and in order at its peer, and connect/close are notified exactly once with the same connection identity; slow, failing or vanishing peers do not disturb others.",
  ["schedules", "histories", "fault_sequences"], "every distribution of connections, load and peer faults over the workers",
  "The networker test makes a single connection.",
  ["src/CNetWorker.cpp", "include/CNetWorker.h", "include/CNetWorkerMgr.h", "include/CCircleQueue.h"],
  [("accept thread hands fds to workers through queue + eventfd", "include/CNetWorkerMgr.h")],
  ["peer sockets", "CNetWorker callbacks"])

p("C16", "Blocking queue is a linearizable bounded FIFO",
  "Under any number of producers and consumers the blocking queue behaves like one atomic bounded FIFO: every pushed element is popped exactly once, in order, never more than the capacity is held, blocked operations proceed as soon as they can, operations with a time-out return success with an element or failure after about that time, and size/empty/full/front/clear report the same state.",
  ["schedules", "histories"], "every interleaving of producers, consumers, timed pops and clears",
  "Tests use the queue from one thread.",
  ["include/CBlockQueue.h"],
  [("mutex + two condition variables", "include/CBlockQueue.h")],
  ["lce::CBlockQueue"])

p("C17", "Ring queue between two threads loses and invents nothing",
  "With one producing and one consuming thread the ring queue hands over every accepted element exactly once, in order and fully written, refuses when full or empty, and holds at most its capacity; sequentially it equals a bounded FIFO for every operation sequence and capacity.",
  ["schedules", "histories"], "every interleaving of one producer and one consumer and every capacity",
  "The test is single threaded and uses one capacity.",
  ["include/CCircleQueue.h"],
  [("head/tail indices", "include/CCircleQueue.h")],
  ["lce::CCircleQueue"])

p("C18", "Shared buffer queue is a FIFO of intact messages across processes",
  "The byte-buffer queue returns exactly the messages accepted, whole and in order, for every mix of message and buffer sizes (including wrap-around and completely full or empty states), refuses what does not fit, ignores empty messages, drops and reports a message too long for the reader's buffer, reports consistent counts, never touches memory outside its buffer, and keeps its content when the buffer is attached again or drained by another process while the first one fills it (one filling and one draining side).",
  ["histories", "schedules", "configurations"], "every push/pop sequence, message size, buffer size, re-attach and two-party interleaving",
  "The test pushes a short fixed sequence.",
  ["include/CBufferQueue.h"],
  [("offset arithmetic of push/pop with wrap", "include/CBufferQueue.h")],
  ["lce::CBufferQueue"])

p("C19", "Bit maps store every element independently",
  "For every element width, size and index, setting an element makes exactly that element read back as the value set and leaves every other element and all memory outside the map untouched; out-of-range indices and over-wide values are refused or masked without affecting other elements.",
  ["inputs", "histories"], "every width, map size, index, value and sequence of sets",
  "The test sets a few elements of one map.",
  ["include/CBitMap.h"],
  [("mask/shift access per width", "include/CBitMap.h")],
  ["lce::CBitMap classes"])

p("C20", "Shared-memory arrays share one consistent content",
  "Attaching the same shared-memory key gives every attachment and every process the same array content, a newly created array starts zeroed, exactly one attachment is told that it created the segment, an existing one is found with its content intact, elements are addressed independently within bounds, and failures (wrong size, missing segment, no permission) are reported and leave the object unusable but safe; detaching never invalidates other attachments and a read-only attachment cannot be written.",
  ["histories", "configurations"], "every sequence of create/attach/write/detach by several objects and processes",
  "No stable test uses shared memory.",
  ["include/CShm.h", "include/CShmArray.h"],
  [("shmget/shmat/shmdt wrappers", "include/CShm.h")],
  ["lce::CShm", "lce::CShmArray", "shmctl(IPC_STAT)"])

p("C21", "LRU cache equals a least-recently-used map with expiry",
  "For every operation sequence the cache returns the last value stored under a key as long as it has neither been deleted, expired nor evicted; it never returns stale, foreign or expired values, evicts only the least recently used entries and only when it has reached the configured maximum size, and its size matches its contents; expiry counts whole seconds (an entry lives until more than its number of seconds have passed). The sharded variant does the same in each of its 32 shards, every one with its share of the maximum (at least one entry). Concurrent use from several threads is as if the operations ran one after the other.",
  ["histories", "schedules"], "every sequence and interleaving of set/get/delete with sizes and expiry times",
  "The test stores a handful of keys from one thread and never fills the cache.",
  ["include/CLruCache.h"],
  [("hash map + doubly linked recency list under a lock", "include/CLruCache.h")],
  ["lce::CLruCache"])

p("C22", "Asynchronous log writes every accepted record, whole and once",
  "Every record accepted by the asynchronous log, from any number of threads, appears in the log files exactly once, complete on its own line, with each thread's records in order, also across buffer switches, full buffers, rotation, periodic and explicit flushes, as long as files can be written; a record is refused only when it fits neither of the two buffers, full buffers are written at once and others after the configured period, files are closed at the configured size and the oldest are discarded only beyond the configured number, and a restarted log appends to what is there; levels are switched on and off individually and records of a level that is off do not appear, and shutting down after a flush loses nothing accepted before.",
  ["schedules", "histories"], "every interleaving of writers, background flusher and rotation, every record size",
  "The log test writes a few lines from one thread.",
  ["src/CAsyncLog.cpp", "include/CAsyncLog.h", "include/CLogBuffer.h"],
  [("double buffering with background thread", "src/CAsyncLog.cpp")],
  ["log files", "lce::CAsyncLog"])

p("C23", "File log keeps the newest records in order within its file budget",
  "Every record written to the file log appears exactly once, intact, with its time stamp and in writing order across the rotated files; rotation happens at the configured size, keeps at most the configured number of files of a day, discards only the oldest ones, and a restarted log appends to what is there. A record that cannot be written is reported as refused, and concurrent writers never interleave within a line.",
  ["histories", "configurations", "schedules"], "every record sequence, size and file-count limit, restart point and writer interleaving",
  "The test writes below the rotation size with a single setting.",
  ["src/CFileLog.cpp", "include/CFileLog.h", "include/CLog.h", "src/CLog.cpp"],
  [("shift files + size check under lock", "src/CFileLog.cpp")],
  ["log files", "lce::CFileLog"])

p("C24", "HTTP requests are understood exactly as sent",
  "For every well-formed HTTP request (GET, POST or HEAD, any distinctly named GET query or POST body parameters, url-encoding, headers in any case, cookies, url-encoded, multipart or opaque bodies) the reader reports the method, path, decoded parameters, header values, cookies, uploaded files and raw body exactly as sent, independent of requests parsed earlier with the same object.",
  ["inputs", "histories"], "every well-formed request and sequence of requests through one reader",
  "The HTTP tests send one or two fixed requests.",
  ["src/CHttpReader.cpp", "include/CHttpReader.h"],
  [("reset() parsing of request line, headers, parameters, multipart", "src/CHttpReader.cpp")],
  ["lce::CHttpReader accessors"])

p("C25", "HTTP responses on the wire carry exactly what the handler produced",
  "The bytes produced by the response writer always form one valid HTTP response whose status, headers, cookies and body are exactly those the handler set (a head set by the handler replaces the built-in one of the same name, the last cookie of a name wins), with a body length that lets a client delimit it (also for an empty body) and with nothing left over from a previous response or cut off when values are long.",
  ["inputs", "histories"], "every status, header, cookie and body set and every re-use sequence",
  "The HTTP tests check one fixed small response.",
  ["src/CHttpWriter.cpp", "include/CHttpWriter.h"],
  [("begin/setHeader/setCookie/<< / end / data", "src/CHttpWriter.cpp")],
  ["lce::CHttpWriter output"])

p("C26", "Configuration files are read exactly as written",
  "Loading an ini file yields for every section and key exactly the value written (white space around keys and values, comments, blank lines and line ends handled; later duplicates and defaults as documented), nothing that is not in the file, and typed getters (numbers, addresses ip:port, lists of addresses separated by |) agree with the text; loading again lets what the new text says count and keeps the rest.",
  ["inputs", "histories"], "every ini text in the supported syntax and every load/get sequence",
  "No stable test reads a configuration file.",
  ["src/CConfig.cpp", "include/CConfig.h"],
  [("loadConfig state machine", "src/CConfig.cpp")],
  ["lce::CConfig"])

p("C27", "Text, date and address helpers are exact and total",
  "The helpers for url-encoding, splitting, trimming, replacing, extracting, hex, dates, addresses and host:port are exact inverses or match their plain definitions for every input, including empty, malformed and multi-byte ones (host:port splits at the first separator, dates from 1970 to 2039), terminate, and never read outside their arguments, from any thread and in any time zone.",
  ["inputs"], "every argument string, separator and time value",
  "They are not tested.",
  ["src/Utils.cpp", "include/Utils.h", "include/StringHelper.h"],
  [("FormUrlEncode/FormUrlDecode/Gmt2Time/GetGMTDate/SplitStr/ReplaceStr/TrimStr/GetMiddleStr", "src/Utils.cpp, include/StringHelper.h")],
  ["return values"])

p("C28", "Blocking TCP connector transfers exact bytes or reports failure",
  "Whatever the peer and network timing do, the TCP connector reports success only if it is connected and the requested bytes were written or read completely as promised, returns received bytes unchanged and in order (a write returns how many bytes it accepted, which may be fewer when its time-out passes), respects its connect time-out and the time-out of each wait for further bytes within a bounded margin, connects again when written to after a close, reports refusal, time-out and close as failures, and never leaks descriptors, kills the process or touches memory outside the buffers, for any descriptor number.",
  ["fault_sequences", "inputs", "histories"], "every peer behaviour, transfer size, descriptor number and sequence of connect/read/write/close",
  "No stable test uses the connector against a misbehaving peer.",
  ["src/CTcpConnector.cpp", "include/CTcpConnector.h"],
  [("connect with select, read/write loops", "src/CTcpConnector.cpp")],
  ["lce::CTcpConnector", "fd table"])

p("C29", "UDP services exchange whole datagrams with the right peer",
  "Every non-empty datagram up to the receive buffer maximum of the service which holds one packet of its framing is handed to its handler once, whole, with the sender's address, any other is reported to the error handler and never mixed with a later one, and every answer or connector write leaves as one datagram with exactly the given bytes to exactly the addressed peer; oversized, empty, malformed or unanswered datagrams, writes through a wrong server and unreachable peers neither crash nor block the service beyond the configured time-out.",
  ["inputs", "histories", "fault_sequences"], "every datagram size and content, peer mix and error reply",
  "No stable test uses UDP.",
  ["src/CCommMgr.cpp", "src/CUdpConnector.cpp", "include/CUdpConnector.h"],
  [("UDP server receive/sendTo", "src/CCommMgr.cpp"), ("connector sendto/recvfrom with a receive time-out", "src/CUdpConnector.cpp")],
  ["datagrams at peers"])

p("C30", "Socket buffer is an exact bounded byte queue",
  "For every sequence of appends, consumes, moves, resizes and resets, the socket buffer presents exactly the bytes appended and not yet consumed, in order, grows on demand up to its maximum and refuses what exceeds it without changing its content, and never touches memory outside its allocation.",
  ["histories", "configurations"], "every operation sequence and initial/maximum size",
  "It is only used indirectly with small messages.",
  ["include/CSocketBuf.h"],
  [("CSocketBuf add/skip/move/resize", "include/CSocketBuf.h")],
  ["lce::CSocketBuf"])

p("C31", "Locks, conditions and threads synchronise as promised",
  "The mutex, guard, condition, thread and singleton wrappers give mutual exclusion with visibility, no lost wake-ups, timed waits that return after a notification or after about the given time, threads that run their body once with start, stop and join working from any state, and exactly one singleton instance however many threads ask first.",
  ["schedules", "histories"], "every interleaving of lock, wait, signal, start, stop, join and first use",
  "They are only used incidentally by other tests.",
  ["include/CLock.h", "include/CThread.h", "src/CThread.cpp", "include/CSingleton.h"],
  [("pthread wrappers", "include/CLock.h, src/CThread.cpp"), ("double-checked creation", "include/CSingleton.h")],
  ["public API of the wrappers"])

p("C32", "Database results reach the caller exactly as the server sent them",
  "For every result set the MySQL client returns, rows, columns, names, binary values (NULL as an empty text) and affected-row counts of its first statement are those the server sent, results are released exactly once, copies and assignments of results stay valid independently, errors and failing connections are reported by an exception, a dropped connection is opened again with the chosen database and the query sent at most once more, the character set and the read time chosen are those used, escaped text reads back as the original, and no failure ever causes use of a stale result or connection, leaks either, or disturbs later queries.",
  ["inputs", "fault_sequences", "histories"], "every result set, sequence of queries and failure point",
  "There is no database in the test environment, so nothing of it is tested.",
  ["src/CMysql.cpp", "include/CMysql.h"],
  [("query/storeResult/MySqlData", "src/CMysql.cpp")],
  ["lce::CMysql", "calls into the mysql client library"])

p("C33", "Services come and go at run time without a trace",
  "Services can be added, configured and removed while the manager runs. Removing a service, from any callback on its loop and whatever its connections are doing, closes its listening socket and every connection of it (also those being established), lets nothing be notified for it afterwards and frees its descriptors, memory and client slots; the ids of removed services are refused by every operation and never given again, other services keep working, and the address can be served again at once. A service that cannot be created (no address, occupied TCP port, unknown type) is reported and leaves nothing behind.",
  ["histories", "schedules"], "every sequence of creations, configurations and removals, every callback a removal may happen in, every state of the connections",
  "The tests create one service and never remove it.",
  ["src/CCommMgr.cpp", "include/CCommMgr.h"],
  [("createSrv/createClient/setProcessor/setPkgFilter/rmSrv", "src/CCommMgr.cpp")],
  ["CProcessor callbacks", "sockets at the peers", "descriptor table", "heap blocks"])

p("C34", "Signals reach their handler and disturb nothing",
  "Every signal delivered after its registration with the manager reaches onSignal of the processor registered last, with its number, once per delivery (once per queued real-time signal), whichever thread of the program it interrupts and also while other signals are being registered. Event loop, connections, messages, timers and tasks go on undisturbed, even if the handler leaves another errno; stop() called from onSignal ends the loop promptly; registering what cannot be handled (no such signal, SIGKILL, SIGSTOP, no processor) is refused.",
  ["schedules", "histories"], "every arrival point of a signal in any thread, every set of registrations",
  "No test sends a signal other than to end the process.",
  ["src/CCommMgr.cpp", "include/CCommMgr.h", "src/CEvent.cpp"],
  [("addSigHandler/onSignal", "src/CCommMgr.cpp"), ("interrupted waits, stop", "src/CEvent.cpp")],
  ["CProcessor::onSignal", "sockets at the peers"])

p("C35", "Becoming a daemon and raising limits does exactly that",
  "InitDaemon lets exactly one process go on, in a new session it does not lead and without a terminal, with SIGINT, SIGHUP, SIGQUIT, SIGPIPE, SIGTTOU, SIGTTIN, SIGCHLD, SIGTERM and SIGIO ignored and memory, files, buffered output, exit handlers, working directory, signal mask and other dispositions unchanged, while the original process ends with status 0, or with another one if no process could be made. SetFileLimit and SetCoreLimit return true exactly if the limit is at least the wanted one afterwards, raise the hard limit only if needed, and never lower a limit.",
  ["inputs", "fault_sequences"], "every limit, privilege and process state",
  "They are not tested at all: they change or end the calling process.",
  ["src/Utils.cpp", "include/Utils.h"],
  [("InitDaemon, SetFileLimit, SetCoreLimit", "src/Utils.cpp")],
  ["process table", "getrlimit", "files of the program"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
