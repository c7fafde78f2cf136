"""What decides each property and where the exploration ends (for DESIGN.md)."""
N = {
"C01": "Oracle: an independent encoder/decoder of the tag/length format (`anytree.h`) and the model tree the value was built from. Bounds: blobs up to some MiB, nesting up to 900 levels, keys up to 255 bytes.",
"C02": "Oracle: a strict RFC 8259 and a well-formedness XML reader written for the monitor; numbers compared exactly (64-bit integers, shortest-form doubles). Bounds: finite doubles, valid UTF-8 and single stray bytes.",
"C03": "Oracle: ASan red zones around exactly sized input, an independent decoder for acceptance and value, the allocation ledger for the heap bound, stack overflow as a crash. Not coverage guided: the mutations come from valid encodings, and every tag and short length is swept.",
"C04": "Oracle: a pool of model trees with the documented conversions; aliasing (assign from a part of itself, push an own element) is drawn on purpose.",
"C05": "Oracle: an independent reader of the header layout and of the body; exactly sized packets.",
"C06": "Oracle: a model cursor and byte string; all reads past the end must throw.",
"C07": "Oracle: the list of packets that were put into the stream; ASan on exactly sized memory shows a filter looking beyond the received bytes. Through the manager the cuts are made at `recv`.",
"C08": "Oracle: one pseudo-random stream per connection, checked byte by byte at the peer, plus the ledger of accepted bytes and of the close request.",
"C09": "Oracle: an automaton per session in the handlers, the peers' view of every connection, the table of open descriptors with double and foreign closes, the client count. Injected: failing accept, epoll and receive calls, epoll batches with several ends.",
"C10": "Oracle: the well-behaved clients' answers (byte for byte, with a dead line), the descriptor table, memory, sanitizers.",
"C11": "Oracle: under the monitor's clock the exact sequence of due times; under the real clock never early and at most a bounded lateness. Wrap-around of the clock is reached by moving it.",
"C12": "Oracle: per-sender counters carried in the messages; ThreadSanitizer for the queue.",
"C13": "Oracle: per-task counters and start order under the pool's lock order as seen by the tasks; ThreadSanitizer for the visibility of the submitted data; pauses at every pthread call (`schedinj.h`). Also stops from a task of the pool itself and crossing stops of two pools.",
"C14": "Oracle: numbered requests whose content names client and sequence; the answers are compared at the client, the worker's view with what that session sent; processed + refused = sent.",
"C15": "Oracle: thread identity per connection, an automaton per connection, byte ledgers at the peers, a ledger of what was written behind a closing write, descriptors; ThreadSanitizer over the hand-over between acceptor and workers.",
"C16": "Oracle: exhaustive search for a legal sequential order of short histories (a linearizability checker for the bounded FIFO with failure results); exactly-once and real-time order for long ones; a watchdog for blocked calls that must be released.",
"C17": "Oracle: numbered multi-word elements with own memory; TSan sees any hand-over that is not ordered by the queue itself.",
"C18": "Oracle: a list of strings; buffers end at a guard page; two threads under TSan and two processes on real shared memory.",
"C19": "Oracle: one integer per element; the segment ends at a guard page. The sweep covers every index and value of all maps of up to 40 elements.",
"C20": "Oracle: a model per key; the emulated segments end at a guard page, refuse and fail as told, read-only ones are really read-only; real segments with 2 to 6 real processes.",
"C21": "Oracle: an ordered list with due times under the monitor's clock; instance counts of the values (nothing leaks, nothing hoarded); a linearizability search for the threaded histories; full capacity of the sharded variant.",
"C22": "Oracle: the log files read back; every record carries writer and number. Clock, pauses and thread creation failures from outside.",
"C23": "Oracle: a byte-exact model of the rotation under the monitor's clock (single thread); order, wholeness and budget (threads).",
"C24": "Oracle: the structure the request was built from; a fresh and a used reader must agree with it.",
"C25": "Oracle: an independent HTTP response parser and the list of setter calls; writers are built on dirty memory.",
"C26": "Oracle: the structure the text was built from.",
"C27": "Oracle: plain definitions written independently (naive search, timegm/strftime of the C library in UTC, inet_pton); guard bytes around every buffer.",
"C28": "Oracle: the peer of the monitor knows every byte it sent and received; wall-clock bounds for the time-outs with a margin; descriptors above 1024 (FD_SET limits).",
"C29": "Oracle: the ledger of datagrams at both ends; a lost datagram on the loopback is excluded by large socket buffers.",
"C30": "Oracle: a string; ASan.",
"C31": "Oracle: plain counters that only the lock protects (TSan and lost updates), hand-over counts, real-time bounds of timed waits (also with a frozen, moved or whole-second clock), life counts of thread bodies and singletons, address space after many ended threads.",
"C32": "Oracle: the result sets the fake server sent. The monitor speaks the MySQL protocol on the loopback network to the real libmariadb that the library links; all `mysql_*` handles and results are followed by wrapping.",
"C33": "Oracle: handlers of removed services fail on any notification, their peers must see the end, ids stay dead; descriptors, client slots, memory blocks. Half-way failures of creation (socket, bind, listen, epoll) followed by a creation on the same descriptor.",
"C34": "Oracle: counts of queued real-time signals, one-by-one deliveries, unchanged errno and undisturbed work; TSan.",
"C35": "Oracle: a subreaper that adopts and counts every process, `getsid`, `/dev/tty`, signal dispositions; limits read back with `getrlimit` in a sibling process.",
}
