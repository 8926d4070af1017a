"""Property texts and claims; mkmeta.py turns them into properties.jsonl and
MANIFEST.json."""
PROPS = []
H, I, S, F, C = "histories", "inputs", "schedules", "fault_sequences", "configurations"


def P(id, title, statement, over, quant, why, files, mech, note=None, tech="summ", state=(), observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, note=note, tech=tech, state=list(state), observe=list(observe), na=na))


P("C01", "Operations on a shard are mutually exclusive",
  "Every access to the entries, counters or table of a part (shard) of the cache happens while holding that shard's lock, "
  "taken by an atomic test that can only succeed for one thread at a time; a shard is released exactly once by every "
  "operation that is not part of a batch, and by no one else. A batch keeps every shard it touched locked until the batch "
  "ends, and then releases each exactly once.",
  [S, H], "every operation with and without a batch, every return path, every interleaving of operations on the same shard",
  "a lock that is skipped, released early or never released shows only under contention or as a hang later on",
  ["src/pogocache.c"],
  [("lock/unlock around every operation, owner linked into the batch", "src/pogocache.c acquire_for_key, acquire_for_scan, lock, unlock"),
   ("pogocache_end releases every shard of the batch", "src/pogocache.c pogocache_end")],
  state=[("lock", "owner of a shard", "src/pogocache.c struct shard")],
  note="lock state is followed on every path of every exported operation; fairness and progress of the spin lock are not decided",
  tech="psim")

P("C02", "Conditional stores obey their condition and report it truthfully",
  "A store succeeds exactly when its condition allows it: insert-only stores fail on a live key, replace-only stores fail on "
  "an absent or expired key, and compare-and-store succeeds only on a live key whose unique value equals the given one. "
  "The reported status always matches what happened, and a refused store leaves the previous live entry, and nothing else, "
  "under the key.",
  [H, I], "every combination of store options, every state of the key (absent, live, expired) and every outcome of the "
  "caller's veto callback",
  "the suite stores a handful of keys over HTTP with default options; the option/state product is never enumerated",
  ["src/pogocache.c"],
  [("storeop decides after swapping the new entry in and puts the old one back", "src/pogocache.c storeop"),
   ("map_insert returns the displaced entry", "src/pogocache.c map_insert")],
  state=[("bucket", "holds the one entry stored under a key", "src/pogocache.c struct map")],
  observe=["pogocache_store status", "pogocache_load"],
  note="all paths of the store operation are enumerated to a fixpoint and compared with the decision table for every option "
       "assignment; bucket search correctness (robin hood probing) is assumed",
  tech="psim")

P("C03", "An expired entry is never observable",
  "Once an entry's expiry time has been reached, no operation hands out its value, counts it as existing, inherits its "
  "expiry or announces it as live; it is reported only as expired. Conversely an entry without expiry, or whose expiry "
  "still lies in the future, is never dropped or hidden as expired.",
  [H, I], "every engine operation (load, store, delete, iterate, sweep, clear, scan, eviction) on entries in every expiry state",
  "tests never let an entry expire between two operations, so the alive/expired decision of each operation is not exercised",
  ["src/pogocache.c"],
  [("entry_alive/entry_alive_exp guard every use of a looked-up entry", "src/pogocache.c"),
   ("operations take one timestamp and compare all entries with it", "src/pogocache.c loadop, storeop, deleteop, iterop, sweepop")],
  observe=["pogocache_load", "pogocache_iter callback", "eviction callback"],
  note="on every path the alive/expired fact about each observed entry must have been established against the operation's time; "
       "wall-clock behaviour itself is not modelled",
  tech="psim")

P("C04", "Entries are released exactly once and never while still reachable",
  "Every entry that leaves the cache is released exactly once, and no entry is released while it can still be reached from the "
  "cache or while a caller holds a reference to it. After releasing its reference an operation never touches the entry again, "
  "and no operation loses the last reference without releasing it.",
  [H, S, F], "every path of every engine operation, including failure paths, and every number of outstanding references",
  "leaks, double releases and use-after-release need particular option/state/failure combinations that the two tests never reach",
  ["src/pogocache.c"],
  [("reference count in every entry", "src/pogocache.c entry_free, entry_clone"),
   ("map_insert/map_delete hand the displaced entry to the caller", "src/pogocache.c")],
  state=[("rc", "number of owners of an entry", "src/pogocache.c struct entry")],
  note="ownership of each entry is followed on every path of every operation; the reference-count primitives are checked against "
       "their contracts",
  tech="psim")

P("C05", "Every stored version gets a fresh unique value",
  "Whenever the content of a key is created or replaced, the new version carries a unique value never used before in that "
  "part of the cache, so a compare-and-store prepared against an older version can never succeed. Reading a key never "
  "changes its unique value.",
  [H, S], "every operation that creates an entry version, in any history",
  "a reuse needs two versions of one key made by different operations; tests never compare unique values",
  ["src/pogocache.c"],
  [("per-shard counter incremented under the shard lock before each new entry", "src/pogocache.c storeop, loadop")],
  state=[("cas", "last unique value handed out", "src/pogocache.c struct shard")],
  note="every path that creates an entry must have advanced the counter since the previous creation and stamped exactly that "
       "value; the counter is written nowhere else",
  tech="psim")

P("C06", "Entry count, memory size and store total always match the content",
  "The reported number of entries and their reported memory size always equal the number and the summed size of the entries "
  "actually held, after every operation including failed, refused, expired, evicted and cleared ones. The running total grows "
  "by exactly one for each newly added key and by nothing else.",
  [H, F], "every operation and every outcome of it",
  "drift appears only after expirations, updates, refused stores or failed allocations and is never compared by a test",
  ["src/pogocache.c"],
  [("map_insert, delentry_at_bkt, delbkt keep count/entsize/total", "src/pogocache.c"),
   ("resize carries the counters over", "src/pogocache.c resize")],
  state=[("count, entsize, total", "derived counters of a shard", "src/pogocache.c struct map")],
  observe=["pogocache_count", "pogocache_size", "pogocache_total", "STATS"],
  note="each path's net change of the counters is computed as a linear form over entry sizes and must equal the net change of the "
       "entries in the map",
  tech="psim")

P("C07", "Every change is announced exactly once with the right reason",
  "Each entry that enters or leaves the cache causes exactly one change notification, of the right kind (inserted, replaced, "
  "deleted, expired, cleared, evicted) and naming the right old and new entry; an operation that changes nothing announces "
  "nothing. The eviction callback runs exactly for expirations, clears and low-memory evictions, with the evicted entry's own "
  "content and the matching reason.",
  [H, I], "every path of every engine operation that changes the content",
  "no test registers a notification or eviction callback",
  ["src/pogocache.c"],
  [("notify() dispatch", "src/pogocache.c notify"), ("opts_to_ctx wires callbacks", "src/pogocache.c opts_to_ctx")],
  observe=["pogocache_opts.notify", "pogocache_opts.evicted"],
  note="per path, the multiset of announcements must equal the net entry changes; dispatch and option wiring are checked by "
       "effect summaries",
  tech="psim")

P("C08", "Running out of memory is reported and leaves the cache unharmed",
  "When an allocation inside the cache fails the operation reports out of memory (or, for housekeeping, carries on), the "
  "previous content, counters and notifications are untouched, nothing is leaked or released twice, and nothing null is "
  "dereferenced. Creating a cache that cannot get all its memory fails cleanly, and clearing works even when no new table can "
  "be allocated.",
  [F, H], "failure of any allocation of the engine at any point of any operation",
  "no test injects allocation failures",
  ["src/pogocache.c"],
  [("nomem exits of store/load", "src/pogocache.c storeop, loadop"), ("map_init failure in resize/clear", "src/pogocache.c resize, clearop"),
   ("shard_init failure", "src/pogocache.c pogocache_new")],
  observe=["status codes", "pogocache_count after failure"],
  note="every path with a failed allocation is judged; failure of the operating system to honour malloc'd memory is out of scope",
  tech="psim")

P("C09", "Eviction happens only under memory pressure and never hits the new key",
  "An entry is evicted only when the caller signals low memory and a new key was really added, at most one entry per added key, "
  "never the key just stored, an expired entry before a live one, and otherwise the one used longest ago of the two sampled. With "
  "eviction disabled such stores are refused instead, and every client write command passes the memory state to the cache.",
  [H, C], "every store under every combination of memory state, eviction setting and outcome",
  "tests never run under memory pressure",
  ["src/pogocache.c", "src/cmds.c", "src/memcache.c"],
  [("auto_evict_entry", "src/pogocache.c auto_evict_entry"), ("lowmem option", "src/pogocache.c storeop; src/cmds.c")],
  note="decides who may be evicted, when and how often on every path; the quality of the choice beyond the two sampled "
       "candidates is not claimed",
  tech="psim")

P("C17", "Every command gets exactly one complete, well-formed reply",
  "Whatever its arguments, the state of the cache and the outcome of its operations, every command produces exactly one complete "
  "reply of the client's own protocol: a RESP value whose announced element counts and lengths match what follows, a Postgres "
  "row description / rows / completion / one ready-for-query, one HTTP response, or memcache lines ended properly. Work that is "
  "continued in the background is answered exactly once when it completes, and never twice.",
  [I, H, F], "every path of every command handler and of every completion routine, for each of the four protocols",
  "a missing or surplus reply desynchronises a pipelined client; it hides in error branches and protocol variants that two tests never send",
  ["src/cmds.c", "src/memcache.c", "src/conn.c", "src/postgres.c"],
  [("command handlers", "src/cmds.c cmdGET ... cmdMONITOR"), ("completion routines", "src/cmds.c *done, bgsetdone"),
   ("reply primitives", "src/conn.c conn_write_*, src/postgres.c pg_write_*")],
  observe=["bytes on the client connection"],
  note="paths of all handlers with a model of the engine's outcomes are enumerated; loops are decided per iteration plus trip count; "
       "the encoding inside the reply primitives belongs to C29",
  tech="psim")

P("C10", "Lifetimes are turned into the right expiry time",
  "SET EX/PX/EXAT/PXAT, SETEX and EXPIRE give the entry exactly the expiry their number means: relative values count from the "
  "present in seconds or milliseconds, absolute ones are measured against the unix clock, memcache values above 30 days are unix "
  "times and negative ones expire at once, and the number is taken from the option's own argument. No number, however large or far in the past, "
  "wraps around, makes the entry permanent or resurrects it; zero and negative lifetimes are refused by SET and SETEX, and options other than "
  "the expiry ones leave the expiry alone.",
  [I, C], "every option, protocol and 64-bit number",
  "a wrong unit or an overflow shows only after the wrong amount of time, or for numbers nobody tries",
  ["src/cmds.c", "src/util.c"],
  [("expiry arithmetic", "src/cmds.c cmdSET, expiry_seconds_time, expiry_unix_time, cmdSETEX, cmdEXPIRE"),
   ("saturating helpers", "src/util.c int64_add_clamp, int64_mul_clamp")],
  observe=["TTL/PTTL", "presence of the entry later on"],
  note="the expiry handed to the engine is compared, as a symbolic term over the number and the clocks, with the definition of the option on "
       "every path; the clocks themselves (sys_now, sys_unixnow) and HTTP's own translation of query arguments are not decided here",
  tech="psim")

P("C18", "Read commands report exactly what the cache holds",
  "GET, MGET/MGETS, TTL/PTTL, EXISTS, DBSIZE and ECHO look up exactly the keys given, in order and at the present time, and report "
  "exactly the value, length, flags, unique value, remaining time or count of the entry found; a missing key is reported as missing, "
  "never as an empty or another key's value. TTL reports -2 for a missing key, -1 for an entry without expiry, and asking for TTL or EXISTS "
  "does not count as a use of the entry; ECHO and PING repeat their argument byte for byte.",
  [I, H], "every path of every read command and its per-entry callback, in all four protocols",
  "tests read one short key over HTTP; multi-key, binary, flagged and expiring entries in other protocols are never read",
  ["src/cmds.c"],
  [("per-entry reply callbacks", "src/cmds.c get_entry, mget_entry, ttl_entry"), ("handlers", "src/cmds.c cmdGET, cmdMGET, cmdTTL, cmdEXISTS, cmdDBSIZE")],
  observe=["replies"],
  note="operands of lookups and replies are compared as symbolic terms on every path; the engine's own answer is the subject of C02-C05, "
       "KEYS and SCAN completeness is not claimed",
  tech="psim")

P("C19", "Counters and APPEND/PREPEND are atomic and exact",
  "INCR, DECR, INCRBY, DECRBY (and their unsigned forms), APPEND and PREPEND read and write their key inside one batch that is always "
  "ended, so no other client's write can be lost in between. Counters move by exactly the given amount in the right direction, refuse "
  "values that are not numbers and (outside memcache) results that overflow, and answer the value stored; APPEND and PREPEND keep both parts in the right order. "
  "The entry's expiry and flags survive, and a missing key starts from zero or empty without expiry, or is refused for memcache.",
  [S, H, I], "every path of the read-modify-write commands, every protocol, every interleaving with other writers of the key",
  "the lost update needs two clients at the same moment; overflow, sign and flag loss need unusual values",
  ["src/cmds.c"],
  [("batch around load and store", "src/cmds.c execINCRDECR, cmdAPPEND"), ("entry callbacks", "src/cmds.c get64, append_entry")],
  observe=["value, TTL and flags after the command", "reply"],
  note="atomicity is reduced to: both operations run on the same batch, begun once and ended once on every path (isolation of batches is C01)",
  tech="psim")

P("C20", "A number is accepted only when the whole argument is one",
  "Wherever a client passes a number, the text is accepted exactly when all of it is a decimal number that fits: empty text, leading white "
  "space, trailing characters, out of range values and (for unsigned ones) a minus sign are refused, whatever number was read before. "
  "A number that could not be read is never used.",
  [I], "every byte string passed as a numeric argument",
  "tests pass well-formed numbers only",
  ["src/util.c", "src/cmds.c", "src/memcache.c"],
  [("parse_i64, parse_u64", "src/util.c"), ("argi64, argu64", "src/util.c")],
  observe=["error replies"],
  note="decided for the two shared parsers on every accepting path and, for all their call sites, that success is looked at; texts longer than 21 bytes are refused",
  tech="psim")

P("C38", "Write commands change exactly what they were asked to change",
  "SET, SETEX, DEL, EXPIRE and TOUCH act on exactly the keys given, at the present time, and store exactly the value, flags and options given: NX, XX, "
  "KEEPTTL, CAS, FLAGS and GET take effect precisely when the client named them, unknown or contradictory options are refused before anything is "
  "stored, and the reply states what really happened: stored or not, how many keys were deleted or touched, the previous value for GET.",
  [I, H], "every option combination, number of keys, outcome and protocol",
  "the option product and the multi-key counts are never enumerated by tests",
  ["src/cmds.c"],
  [("option parsing", "src/cmds.c cmdSET, execSET"), ("cmdDEL, cmdEXPIRE, cmdTOUCH, cmdSETEX", "src/cmds.c")],
  observe=["engine content after the command", "replies"],
  note="options are decided as loop-carried flags (set exactly in the iteration that saw the name), counts per iteration",
  tech="psim")

P("C13", "SAVE writes every entry or fails without touching the old file",
  "When SAVE reports success, every part of the cache has been written exactly once, each entry with its key, value, flags, unique value and remaining "
  "time to live, in blocks that carry their length, a checksum over their compressed data and the time of saving, into a work file of its "
  "own which then replaced the target in one rename. If anything fails - opening, a write (also a partial one), compression, a worker, the rename - "
  "SAVE reports failure, the previous file is left as it was and no work file remains.",
  [H, F, S], "every content, number of parts and workers, and every point at which a system call or a thread start fails",
  "tests never save; short writes, oversized blocks and failing workers cannot be produced by them",
  ["src/save.c"],
  [("blocks and their header", "src/save.c flush"), ("entry encoding", "src/save.c save_entry"), ("workers and their parts", "src/save.c thsave, save"),
   ("work file and rename", "src/save.c save")],
  observe=["SAVE reply", "the file"],
  note="decided on every path; LZ4, crc32 and the varint codec are taken at their word, a crash is covered by the order write-all, then rename (no fsync is claimed)",
  tech="psim")

P("C14", "LOAD restores what was saved and rejects damaged files",
  "Loading accepts a file only if every block is complete, tagged and matches its checksum, decompresses to its announced length, and every field of every "
  "entry lies inside the block; otherwise it reports failure. Every entry restored has the saved key, value and flags, and the time to live "
  "that is left counting from the time of the save; entries that have expired meanwhile are skipped, entries without expiry stay without. "
  "No block is dropped, loaded twice or left in the queue when loading reports success.",
  [I, F, S], "every file content, truncation point, read failure and interleaving of reader and loaders",
  "tests never load; damaged and truncated files are never tried",
  ["src/save.c"],
  [("entry decoding with bounds", "src/save.c load_block"), ("block queue between reader and loaders", "src/save.c thload, load")],
  observe=["LOAD reply", "content after loading"],
  note="decided on every path of the decoder, the loader thread and the reader; fairness of condition variables is not modelled",
  tech="psim")

P("C15", "Start-up and shutdown never lose or overwrite the saved data",
  "With a persistence file configured the server counts as loaded only once the file turned out absent or was loaded completely; if loading fails it "
  "exits with an error and never saves. On SIGINT or SIGTERM a loaded server saves to the configured file before it exits, exits with "
  "failure if that failed, and a server that was not loaded does not save. The SAVE and LOAD commands act on the path given (or the "
  "configured one) and report exactly the outcome of the operation. Start-up removes no file but abandoned work files.",
  [H, F, C], "every start-up and termination order, every outcome of loading and saving",
  "no test configures persistence or terminates the server in the middle of loading",
  ["src/main.c", "src/cmds.c"],
  [("load at start, loaded flag", "src/main.c listening"), ("save at termination", "src/main.c sigterm, sigtermticker"),
   ("SAVE/LOAD as background work", "src/cmds.c cmdSAVELOAD, bgsaveloadwork, bgsaveloaddone")],
  observe=["exit status", "the file", "SAVE/LOAD reply"],
  note="decided on every path of the functions named; the order of start-up steps inside the network layer is taken from net.c's contract (listening before serving)",
  tech="psim")

P("C16", "Nothing is executed for a client that has not presented the password",
  "When a password is configured (--auth), no command other than AUTH takes effect for a connection until that very connection has presented exactly the "
  "password - by AUTH with that one argument, by the Postgres password message, or for a single HTTP request by ?auth= or 'Authorization: Bearer' - "
  "and every other attempt is answered with an authentication error: a shorter, longer, or differently cased text never matches. A new connection "
  "starts unauthenticated, authenticating one connection does not affect another, and without a configured password no command needs any.",
  [I, H], "every command on every protocol, every text presented as password and every order of authentication and commands",
  "tests run a server without a password only",
  ["src/cmds.c", "src/http.c", "src/postgres.c", "src/conn.c", "src/main.c"],
  [("gate in front of every handler", "src/cmds.c evcommand"), ("comparison with the password", "src/cmds.c cmdAUTH, src/http.c parse_http, src/postgres.c parsep"),
   ("startup of a Postgres session", "src/postgres.c pg_respond, src/conn.c evdata"), ("per-connection state", "src/conn.c conn_setauth, conn_auth, evopened"),
   ("the flag", "src/main.c main")],
  observe=["reply to a command", "effect of the command"],
  note="decided on every path of the functions named; parse_http is followed loop by loop, forgetting what was known before a loop once it is left",
  tech="psim")

P("C29", "Answers have the form of the client's protocol, whatever bytes they hold",
  "A value of any bytes is written with its exact length and end; numbers (as all of their decimal digits), arrays, lines and nulls in the form of the protocol, bare for memcache; the text of a line or of a RESP error can never end the line early. "
  "An HTTP response has one status line, the length of the body that really follows, and one body. An error is answered once: RESP '-', memcache one line that is SERVER_ERROR for running out of memory, CLIENT_ERROR for "
  "a bad request and ERROR for an unknown command, HTTP the status that belongs to it (405, 401, 400, else 500), Postgres an error followed by ready. What is formatted or stored without a check fits into its memory.",
  [I], "every value, length, number and error text, each of the protocols",
  "an encoder that is wrong for an empty value, a zero byte, a line end in a message or the largest number still answers all ordinary requests rightly",
  ["src/conn.c"],
  [("values", "src/conn.c conn_write_bulk, conn_write_array, conn_write_uint, conn_write_int, writeln, resp_write_bulk"), ("HTTP", "src/conn.c conn_write_http"), ("errors", "src/conn.c conn_write_error, write_error")],
  observe=["the bytes of an answer"],
  note="how an answer is chosen is decided by the properties of the commands; here only its form; text that the program itself writes is taken as it is",
  tech="psim")

P("C30", "A connection is accepted, read, answered, counted and closed exactly once",
  "An accepted socket becomes one connection owned by one thread, non-blocking and watched before it is used; a socket that could not be prepared, or one beyond maxconns, is "
  "closed once, and only the latter is counted as rejected. Every event of a connection leads to reading it; what was read is handed, with its length, to that connection's own handler once; every connection with answers is "
  "written and every connection that ended, failed or was closed is closed, none is lost or queued for another. When a connection ends, it is taken out of the table, its socket closed and its memory given up "
  "exactly once, its end is announced once, and the counts of connections of the thread and the process go back by one. The table finds every open connection by its descriptor after any growth or removal.",
  [S, H, F], "every order of connects, disconnects, resets and limits, every set of events in one turn of a network thread",
  "a connection that is lost or closed twice shows only with many connections in one turn, a descriptor that is reused, or after the limit was reached",
  ["src/net.c", "src/conn.c"],
  [("one turn of a network thread", "src/net.c qthread, qreset, qaccept, handle_read, qread, qprocess, qwrite, qclose"),
   ("the table of connections", "src/net.c cmap_insert, cmap_grow, cmap_get, cmap_delete"),
   ("memory of a connection", "src/conn.c evopened, evclosed; src/net.c conn_new, conn_free")],
  state=[("net_conn table", "the connections of a thread by descriptor", "src/net.c struct cmap"), ("counters", "nconns, tconns, rconns", "src/net.c")],
  observe=["net_nconns, net_tconns, net_rconns", "connections that hang or end early", "open descriptors of the process"],
  note="calls of the system that fail in ways the manual does not list are not decided; what the kernel does with a closed descriptor is trusted",
  tech="psim")

P("C32", "Every answered byte reaches the client once and in order",
  "The output buffer of a connection holds what was answered and not sent yet: adding keeps what is there, makes room for all of the added bytes before they are written, and no pointer into "
  "the buffer is used after it may have moved. Sending begins with the first byte that was not sent, goes on after a short write where that write ended, waits for a client that is only slow, "
  "sends all of it and then empties the buffer; only a real error ends the connection. Answers are taken back only for a memcache request with noreply, and never those of earlier requests.",
  [F, I], "every length of an answer, every way the socket can take it: all, a part, nothing yet, an error",
  "on a loopback socket nearly every write takes everything; short writes and EAGAIN in the middle of an answer do not happen in the suite",
  ["src/net.c", "src/conn.c"],
  [("sending", "src/net.c flush_conn, qwrite"), ("the output buffer", "src/net.c net_conn_out_ensure, net_conn_out_write, net_conn_out_write_byte"),
   ("writing in place", "src/conn.c conn_write_bulk, writeln")],
  state=[("out/outlen/outcap", "answers that were not sent yet", "src/net.c struct net_conn")],
  observe=["the bytes a slow client receives for large and pipelined answers"],
  note="bytes that were handed to the kernel are taken to arrive in order (TCP); TLS and io_uring are compiled out",
  tech="psim")

P("C33", "Memory pressure is noticed, and expired entries are swept, while the server runs",
  "While the server runs it compares the memory in use with --maxmemory: soon after the limit is passed new entries only come in at the expense of old ones (or are refused), and soon after memory "
  "falls below the limit that ends. Unless --autosweep=no was given, expired entries are found and removed in the background by the present time. Both go on as long as the server lives. Times are "
  "nanoseconds of a clock that setting the system's date does not move, and the memory in use is the resident size in bytes.",
  [I], "every turn of the background threads, every combination of limit, use and mode",
  "the threads run once a second for the life of the server and their mistakes show only under pressure or after days",
  ["src/main.c", "src/sys.c", "src/xmalloc.c"],
  [("memory thread", "src/main.c memticker"), ("sweep thread", "src/main.c autosweepticker"), ("clock and memory", "src/sys.c sys_now, sys_unixnow, sys_getmeminfo")],
  observe=["answer to a store when memory is short; number of entries after they expired"],
  note="all paths of the two threads, their start and the readings they use; that the operating system's numbers are right is assumed; what the cache does in low-memory mode is C09's",
  tech="psim")

P("C34", "MONITOR shows every command, exactly, to exactly the connections that asked",
  "While a connection is in MONITOR every command any client runs is written to it once as one line: every argument complete, quoted, with control bytes, quotes, backslashes and bytes outside "
  "of ASCII escaped so that the line can be read back unambiguously. AUTH, and with it the password, is never shown. A connection is on the list of monitors from the moment it asked until it "
  "ends, never longer and never twice, whatever other connections join or leave at the same time.",
  [I], "every argument byte, every command, any number of monitors joining and leaving",
  "a monitor is a debugging aid nobody tests; a leaked password or a stale connection on the list shows only in the one session that meets it",
  ["src/monitor.c", "src/cmds.c"],
  [("what is shown", "src/monitor.c monitor_cmd"), ("the list", "src/monitor.c monitor_start, monitor_stop"), ("the session", "src/cmds.c monitor_work")],
  observe=["the lines a monitoring client receives"],
  note="all paths of the four functions, all 256 values of an argument byte; that every executed command is handed to monitor_cmd is decided by C21; how long a slow monitor may hold up others is not judged",
  tech="psim")

P("C41", "What a request or connection takes is given back exactly once",
  "Memory, descriptors, open files and mutexes taken while the server runs are given back: a block allocated, a file or socket opened, or a growing buffer filled by a function is, on every path, "
  "freed or closed, or handed on to something that outlives the function; what has been freed or closed is not used or freed again; a mutex taken is released on every path and not taken again by "
  "the thread that holds it. A connection that ends takes its packet buffer, arguments, output, address and Postgres session (user, database, statements, portals, description) with it, and a KEYS, "
  "SCAN, SAVE or LOAD job its own memory, so a server that has served any number of requests and connections holds no more than before.",
  [I], "every path of every function outside the storage engine, error paths included",
  "a leak or an unreleased mutex on an error path passes every test; it ends a server that has run for months",
  ["src/net.c", "src/conn.c", "src/cmds.c", "src/postgres.c", "src/save.c", "src/monitor.c", "src/args.c", "src/resp.c", "src/sys.c", "src/util.c"],
  [("connections", "src/conn.c evclosed; src/net.c conn_free, qaccept, qclose"), ("sessions", "src/postgres.c pg_free"), ("jobs", "src/cmds.c, src/save.c"), ("mutexes", "src/monitor.c, src/save.c, src/net.c")],
  observe=["memory, open descriptors and blocked threads of a server after many requests"],
  note="path-sensitive over every function except main, the storage engine (C01, C04), compression and the hash table; what another function does with what it is given is summarised from its own paths; memory reached only through arrays filled in loops is not followed",
  tech="psim")

P("C35", "Every command line option has exactly its documented effect",
  "The value of an option is the argument after it or the text after '=', and it reaches the part of the server it is documented for: addresses, "
  "ports, sockets and backlog the listeners; --threads, --queuesize, --maxconns, --tcpnodelay, --keepalive, --quickack, --uring, --warmup the network "
  "layer; --shards, --loadfactor, --seed, --cas, --sixpack and --evict the cache; --autosweep the sweeper; --maxmemory (k, m, g, t, percent, unlimited) "
  "the memory limit. 'yes' and 'no' mean what they say for every such option, any other value is refused before the server starts, numbers outside the "
  "documented range are replaced by the nearest limit, and an option that is not given has its documented default.",
  [I], "every option, both ways of writing it, every value",
  "the tests start the server with two options only, and most options have no effect a test could see",
  ["src/main.c", "src/net.c", "src/pogocache.c"],
  [("option table", "src/main.c main"), ("values to flags", "src/main.c main"), ("options of cache and network layer", "src/main.c main"),
   ("copies", "src/net.c net_main, src/pogocache.c opts_to_ctx"), ("units of memory", "src/main.c calc_memlimit")],
  observe=["behaviour of a server started with the option", "exit status"],
  note="decided on the flow graph of main: guards that dominate each store, constants selected for each text, numbers propagated through the limits; TLS and allocator "
       "options are compiled out in this build and not covered",
  tech="lint")

P("C21", "A command name selects exactly its own command",
  "The command carried out is the one whose documented name equals the first argument over its whole length, in upper or lower case (MGETS, PTTL, FLUSH, "
  "FLUSHDB and the unsigned counter forms being further names of MGET, TTL, FLUSHALL and the counters). Option words of the commands are compared in the same way. A text that "
  "is no name - a prefix, a name with something after it, an empty text - executes nothing and is answered with exactly one error. A command that is found is "
  "shown to the monitoring clients first and then carried out exactly once for the connection and the arguments it came with, on every thread.",
  [I, H, S], "every text sent as a command name or option word, on every thread",
  "tests send a handful of correct names over HTTP, which has a fixed set of them",
  ["src/cmds.c", "src/util.c", "src/args.c"],
  [("command table and its hash", "src/cmds.c cmds, build_commands_table, get_cmd"), ("comparison", "src/util.c argeq_bytes, argeq, src/args.c args_eq"),
   ("carrying out", "src/cmds.c evcommand")],
  observe=["reply to a command name"],
  note="the comparison loops are decided by what one iteration compares and what holds when they end; the quality of the hash is not decided",
  tech="psim")

P("C22", "A command reads only the arguments that were sent",
  "Whatever number of arguments a client sends, a command never looks at an argument that is not there: an option that takes a value and comes last is answered with a syntax "
  "error, and so is a command with fewer arguments than it needs. Commands with a fixed number of arguments (GET, SETEX, TTL, DBSIZE, ECHO, KEYS, INCR, APPEND, "
  "STATS, ...) refuse any other number instead of ignoring the rest. The same holds for the fields of a memcache command line.",
  [I], "every command with every number of arguments, every option in every position",
  "reading one element too far finds an old value or garbage and shows only as a wrong answer now and then",
  ["src/cmds.c", "src/memcache.c", "src/args.c"],
  [("argument counts and options", "src/cmds.c cmdSET, cmdSCAN and all other handlers"), ("fields of a memcache line", "src/memcache.c parse_memcache")],
  observe=["reply to a command with a missing argument"],
  note="every read of an element of an argument list on every path of the handlers and of the memcache translation, against what the path knows about the number of arguments; "
       "reads whose index is related to the number in a way that is not linear are left undecided and reported as such",
  tech="psim")

P("C23", "STATS reports what happened",
  "Every counter STATS reports counts exactly the events its name says: hits and misses of GET, MGET, MGETS, TTL, DEL, TOUCH, INCR and DECR follow the outcome of the operation on the "
  "cache and are counted once per key; stores refused for lack of memory, authentications, failed authentications and flushes are counted once each. The counts a connection collects "
  "reach the totals without loss and without being added twice, and each line of the report shows its own counter.",
  [I], "every command with a counter, every outcome, any number of threads",
  "a counter that drifts is noticed only by comparing it with the traffic, and no test does",
  ["src/cmds.c", "src/stats.c", "src/net.c", "src/conn.c"],
  [("outcomes and counters", "src/cmds.c cmdGET, cmdMGET, cmdDEL, cmdTOUCH, execINCRDECR, cmdAUTH"), ("collecting", "src/net.c sumstats, sumstats_global"), ("report", "src/cmds.c cmdSTATS")],
  observe=["the numbers STATS prints after known traffic"],
  note="all paths of the counting commands, of every counter's increment and accessor and of the collection of the per-connection counters; the counters of the connection slots are C30's",
  tech="psim")

P("C24", "An HTTP request runs exactly the command it stands for",
  "GET /key runs GET, PUT /key runs SET and DELETE /key runs DEL on that key: the path after its '/' up to the '?'. A key has 1 to 250 bytes, none of them a blank, a control "
  "or non-ASCII byte or one of % + @ $ ? =. A PUT stores exactly as many bytes as Content-Length says, waits until all have come, and refuses a length that is not a number or is beyond "
  "the size limit. The query options flags, ex (or ttl) and cas with their own values, xx and nx are each passed on once and none is dropped. Names of headers may be written in "
  "any case. Any other method is not allowed (405), an invalid key is refused as such, the help page is the answer to GET / alone, and the connection is closed after the answer.",
  [I], "every method, path, combination and order of query options, header and body, however the bytes arrive",
  "tests store and read a few fixed keys; the combinations of options, values and positions in the query are never enumerated",
  ["src/http.c", "src/conn.c"],
  [("the request", "src/http.c parse_http"), ("allowed keys", "src/http.c http_valid_key"), ("end of the connection", "src/conn.c evdata")],
  note="decided on every path of parse_http, loop by loop; what was known before a loop is forgotten once it is left, so relations that span two loops are not decided",
  observe=["status and body of the answer", "stored value, flags, expiry and cas"],
  tech="psim")

P("C25", "A memcache request runs exactly the command it stands for",
  "set, add, replace, append, prepend and cas store exactly the data block of the given length (0 up to the size limit) that follows the line, only once the block and its line end have "
  "all come; add, replace and cas are passed on as NX, XX and CAS with the given number, non-zero flags and expiry are passed on as FLAGS and EX, and append and prepend ignore both. "
  "get and gets fetch every key given, delete, incr, decr, touch and flush_all (with its optional delay) become DEL, UINCRBY, UDECRBY, EXPIRE and FLUSHALL of the same arguments. "
  "An unknown command, a wrong number of arguments, a number that is none, a data block without its line end, and a key that is not 1 to 250 bytes free of blanks and control characters (anywhere in a "
  "get of many) are refused, and nothing else is. noreply as the last argument of a writing command silences exactly that command's answer, and no other. "
  "After a refused request the connection stays open and the server goes on behind that line (behind the data block when only its end is bad).",
  [I], "every request line and data block, however the bytes arrive and whatever follows them",
  "tests store and read a few keys; combinations of flags, expiry, noreply, counts and cut-off blocks are never enumerated",
  ["src/memcache.c", "src/conn.c"],
  [("the request", "src/memcache.c parse_memcache"), ("words of the line", "src/memcache.c parse_memcache_telnet"), ("allowed keys", "src/memcache.c mc_valid_key"),
   ("noreply and going on", "src/conn.c evdata, done5")],
  note="gat, gats and verbosity have no command behind them and are left out; negative or oversized flags are refused by SET itself",
  observe=["answer and its absence", "stored value, flags, expiry and cas", "the requests that follow on the connection"],
  tech="psim")

P("C26", "A RESP request is read exactly as it was sent",
  "In a RESP array every argument holds exactly the bytes sent for it, whatever they are (zero bytes, CR, LF, any length up to 512 MB), a request ends right behind the line end of "
  "its last argument, and it is reported only when all of it arrived. In a RESP line of text arguments are separated by white space, both kinds of quotes group, \\n \\r \\t are "
  "translated inside quotes, a line ends at its line feed and never inside quotes. Lengths that are empty, negative, too large or not a number are refused, and no byte behind the "
  "ones received is ever looked at.",
  [I], "every byte sequence, cut at every position",
  "a parser is right for the requests tests send; an argument cut off between its text and its line end, or one with a quote at its end, is not among them",
  ["src/resp.c"],
  [("RESP arrays", "src/resp.c parse_resp, read_num"), ("RESP text lines", "src/resp.c parse_resp_telnet")],
  observe=["arguments of the command carried out", "bytes left for the next request"],
  note="the value of a number is the C library's strtoll; whether strtoll reads digits rightly is not part of this",
  tech="psim")

P("C27", "Postgres messages are taken apart, and prepared statements run, as sent",
  "A Postgres connection starts with a startup message (encryption requests before it are answered with one byte), whose parameters are taken exactly; an encoding other than UTF8 and a connection "
  "without the right password, when one is set, end in an error. After it every message is exactly one letter, its four-byte length and that many bytes: it is acted on only when all of it "
  "arrived, nothing behind it is read, and a length that contradicts its content, an unknown letter or a length below 4 is an error. Query, Parse, Bind, Describe, Execute and Sync get the "
  "answers belonging to them, in the order sent. A statement or portal is kept under exactly the name given with exactly the query, parameters and types given (the newest wins); Execute of a portal "
  "runs its statement's query with each $n replaced by exactly the bytes of the n-th value of its own Bind; a name that does not exist, or values more or fewer than the parameters, is an error.",
  [I, S], "every message and every sequence of messages, every name, count, format and type, cut at every byte",
  "drivers used in tests send one well-formed shape of each message; wrong counts, lengths, formats and re-used names never occur",
  ["src/postgres.c", "src/postgres.h", "src/conn.c"],
  [("messages", "src/postgres.c parse_postgres, parse_message, parse_magic"), ("single messages", "src/postgres.c parseQ, parseP, parseB, parseD, parseE, parsep"),
   ("names", "src/postgres.c statement_*, portal_*"), ("answers", "src/postgres.c pg_respond")],
  observe=["answers to a sequence of messages", "arguments of the command an Execute carries out"],
  note="how query text is split into arguments is C39, the lengths inside answers C40; a description of a portal comes with its Execute",
  tech="psim")

P("C39", "A Postgres query becomes exactly the arguments it spells",
  "The text of a Postgres query is split into words, quoted strings and parameters, in order and completely: white space separates and is dropped, a word ends before white space, a quote, a $ or a ;, "
  "a 'text' holds the bytes between its quotes with each doubled quote written once, an E'text' those bytes with its escapes replaced (\\\\ \\/ \\b \\f \\n \\r \\t \\\" \\' and \\uXXXX as UTF-8, two "
  "surrogates as the one character they encode, a lone one as U+FFFD); a string ends at the first quote that is not doubled or, in E'text', behind an even number of backslashes. A query with an "
  "unterminated string, an identifier in double quotes, a $ without a number or anything but ; behind its first ; is refused and executes nothing. Parameters are numbered from $1 to $65535, may "
  "repeat, and a query that leaves out a number below its highest is refused; the number of different parameters is reported. For each argument it is noted whether it is a parameter and "
  "whether it follows the one before without white space.",
  [I], "every query text, every byte in every position, every number and order of parameters",
  "clients in tests send short commands with plain words; quotes, escapes, surrogates, numbers and tables that grow only matter for particular texts",
  ["src/postgres.c"],
  [("split", "src/postgres.c parse_query_args"), ("quotes", "src/postgres.c arg_append_unescape_simplestr, arg_append_unescape_str"), ("characters", "src/postgres.c decode_hex, decode_codepoint, encode_codepoint"),
   ("numbers of parameters", "src/postgres.c pmap_insert, pmap_exists, pmap_grow")],
  observe=["arguments of the command that is carried out"],
  note="which message brings the query and how parameters are filled in is C27; escapes that are not listed are not judged; hexadecimal digits that are none are not judged",
  tech="psim")

P("C40", "Postgres answers have the length, counts and content they announce",
  "Every message sent to a Postgres client announces exactly the bytes that follow, most significant byte first. An error holds severity, code and the whole text given, each ended by a zero byte, and a "
  "zero byte at the end; a CommandComplete exactly its tag; a parameter status its name and value; a row description as many fields as it announces, each with its name and the type chosen for the "
  "connection (text, or bytea after ::bytea or ::bytes); a data row as many values as it announces, each with its own length and exactly its bytes; the description of a statement one type for each of its "
  "parameters. A single-row answer is description, row, tag and ready, in this order; a session starts with AuthenticationOk, the encodings (UTF8) and ready. BEGIN, ROLLBACK and COMMIT are answered with their own word and "
  "execute nothing, a type word is removed from the command behind it and remembered, an unknown type is refused, and any other command is carried out.",
  [I], "every text, every number and length of columns, every number of parameters",
  "drivers read a few short rows; lengths are wrong only for particular counts, types or texts",
  ["src/postgres.c"],
  [("writers", "src/postgres.c pg_write_*"), ("descriptions", "src/postgres.c parseD"), ("start of a session", "src/postgres.c write_auth_ok"), ("words", "src/postgres.c pg_precommand")],
  observe=["bytes of the answers"],
  note="which answer a command gets is C17, which one a message gets C27; texts of tags are made by vsnprintf",
  tech="psim")

P("C28", "A byte stream is cut into requests completely, in order and once",
  "However the network cuts the bytes of a connection into pieces, each request is carried out exactly once and in the order sent: an incomplete request waits until the rest "
  "arrived, all bytes not yet taken are kept and no taken byte is kept, exactly the bytes of a request are taken. The protocol is chosen from the first complete line (or the first byte) and "
  "stays for the whole connection; settings such as noreply or the keep-alive of one request never carry over to the next. A malformed request is answered once and ends the "
  "connection, except for memcache where only its line is skipped. No further request is read after the connection was closed or while background work for it is running.",
  [I, S], "every way to cut a stream of requests into pieces, every mix of good and bad requests",
  "tests send a request in one piece and read the answer; leftovers and pipelining only matter when reads end in the middle of a request",
  ["src/conn.c", "src/parse.c"],
  [("the request loop", "src/conn.c evdata"), ("choice of the protocol", "src/parse.c parse_command, sniff_proto")],
  observe=["order and number of answers for a stream sent in arbitrary pieces"],
  note="what a request means is decided elsewhere (C24 to C27); here only where it begins and ends",
  tech="psim")

P("C31", "Work handed to another thread keeps to itself and ends exactly once",
  "Commands that take long (KEYS, FLUSHALL, SAVE, LOAD, SWEEP, PURGE, the ASYNC forms) run on a thread of their own. That thread never uses the connection, and what it is given holds copies, "
  "never pointers into the request. What it is given is freed exactly once: when the work has ended, or by the command if the thread could not be started, in which case the client is told so. "
  "While work runs, the connection is out of the event loop and no other work begins for it; answers before it were sent. When the work ends the "
  "answer is sent once, the connection is read again once, and requests that were received behind the command are carried out before anything more is read, also when the client has finished sending.",
  [S, I], "every interleaving of the worker with the event loop, threads that cannot be started, every request behind a background command",
  "whether a worker touches freed request memory, or a connection is read by two threads, depends on timing; a thread that fails to start never happens in a test",
  ["src/cmds.c", "src/conn.c", "src/net.c"],
  [("handing over", "src/cmds.c cmdKEYS, cmdFLUSHALL, cmdSAVELOAD, cmdSWEEP, cmdPURGE; src/conn.c conn_bgwork; src/net.c net_conn_bgwork"),
   ("the end of the work", "src/net.c bgwork, qattach; src/conn.c done5")],
  observe=["answers on a connection with a background command in the middle of a pipeline", "memory errors when a request is gone before its work is done"],
  note="MONITOR, which keeps its connection on purpose, is exempt from the first sentence; data races inside the cache are C01",
  tech="psim")

P("C36", "Request arguments and growing buffers keep their bytes and their owner",
  "A growing buffer always has room for what is written to it, keeps what it holds when it grows, and frees its memory only when it owns it; a cleared buffer is empty and owns nothing. "
  "Each argument of a request is put behind the others with exactly its bytes, either as a pointer into the request that is never freed, or as a copy that is freed exactly once; new slots start empty, "
  "removing the first argument moves all others and leaves no second owner. An argument equals a word only if both length and bytes (ignoring case) agree.",
  [H, I], "every sequence of appends, removals and clears, every mix of copied and borrowed arguments, every length",
  "who owns an argument matters only when slots are used again by later requests in another way, which needs particular sequences of requests on one connection",
  ["src/args.c", "src/buf.c"],
  [("arguments", "src/args.c args_append, args_clear, args_free, args_remove_first, args_eq"), ("buffers", "src/buf.c buf_ensure, buf_append, buf_append_byte, buf_clear, buf_append_uvarint")],
  state=[("args", "slots with data, length and capacity (0: borrowed)", "src/args.h struct args, src/buf.h struct buf")],
  observe=["arguments the commands see", "memory errors and leaks"],
  note="the allocator is taken to return what was asked for or nothing",
  tech="psim")

P("C37", "Whole-cache commands work on every entry once, when and how they were asked to",
  "FLUSHALL and SWEEP work on every shard exactly once, however many threads share the work and whichever of them cannot be started, and report the end only after all threads have "
  "finished. With DELAY nothing is removed before that many seconds have passed; ASYNC answers at once, SYNC after the work, FAST changes neither; SWEEP takes ASYNC and FAST "
  "together; an option that is not known is refused. KEYS and SCAN report exactly the keys that match the pattern, each with all its bytes and as many as "
  "announced; SCAN takes at most COUNT entries, reports the cursor it reached and gives back every entry it took from the cache.",
  [I, F], "every number of shards and threads, every option, every pattern, a thread that cannot be started",
  "the division of shards among threads is wrong only for some numbers of cores and shards; tests run on one machine with one shard count",
  ["src/cmds.c"],
  [("division of the work", "src/cmds.c flushfast, sweepfast, thflush, thsweep"), ("options", "src/cmds.c cmdFLUSHALL, cmdSWEEP, cmdSCAN"),
   ("walks", "src/cmds.c keys_entry, bgkeys_work, bgkeys_done, scan_work, scan_done")],
  observe=["entries left after FLUSHALL", "swept and kept counts", "keys reported by KEYS and SCAN"],
  note="a SYNC behind a DELAY makes the flush immediate (as the program does it today); the meaning of a pattern (glob matching) and completeness of a SCAN over a cache that changes meanwhile are not decided",
  tech="psim")

P("C11", "A stored key is found until it is removed, replaced, expired or evicted",
  "However many keys share a place in the hash table of a shard, and in whatever order keys are stored and removed, every key that was stored and not removed is found, and no other key is taken for it: "
  "a lookup begins at the place of the key's hash and follows the chain to its end, comparing hash, length and all bytes; storing a key keeps the keys it displaces and replaces an entry only for the same "
  "key; removing a key closes the gap in its chain and changes no other; a table that grows or shrinks keeps every entry, its counts and room for more. A key has the same hash and the same shard in every operation.",
  [H, I], "every table, chain, collision, displacement and wrap around the end of a table; every size and load factor",
  "tests store few keys with hashes that hardly collide; a gap in a chain, a lost displaced entry or a bucket left behind needs particular collisions and sizes",
  ["src/pogocache.c"],
  [("lookup", "src/pogocache.c map_get_bucket, bucket_eq"), ("store", "src/pogocache.c map_insert"), ("remove", "src/pogocache.c delbkt, map_delete"), ("grow and shrink", "src/pogocache.c resize, tryshrink, map_init"),
   ("hash and shard", "src/pogocache.c acquire_for_key")],
  state=[("bucket", "entry, hash and displacement", "src/pogocache.c struct bucket")],
  observe=["answers of later operations on the keys"],
  note="each turn of the loops is compared with robin hood hashing over a set of tables that has every kind of chain; displacements above 255 (chains no hash produces) are not decided; memory safety of other uses of the table is C06's part",
  tech="psim")

P("C12", "An entry keeps exactly the key, value, expiry, flags and unique value it got",
  "For every length and content of key and value, with and without an expiry, flags and a unique value, with keys packed or plain, reading an entry back returns exactly what it was made with, its size is the "
  "size of its memory, and nothing is written outside that memory. A key that is packed unpacks to itself and fits the buffers it is unpacked into; entries compare equal exactly when their keys are equal. An entry "
  "without expiry never expires, and one with an expiry is dead from that time on.",
  [H, I], "every key and value length, every byte, every combination of optional parts and both key encodings",
  "tests use short keys and values without flags, and the layout changes at lengths and combinations they never use: a field read at the wrong place shows only there",
  ["src/pogocache.c"],
  [("make", "src/pogocache.c entry_new"), ("read", "src/pogocache.c entry_extract, entry_key, entry_rawkey, entry_value, entry_expires, entry_cas, entry_memsize"),
   ("packed keys", "src/pogocache.c sixpack, unsixpack, tosix, fromsix"), ("lengths", "src/pogocache.c varint_write_u64, varint_read_u64"), ("compare", "src/pogocache.c entry_compare")],
  state=[("entry", "header, size prefix, optional fields, key and value in one allocation", "src/pogocache.c struct entry")],
  observe=["values, flags, unique values and expiry of GET, gets, TTL and saved files"],
  note="the paths of writer and readers are evaluated together over the bytes of an entry, for lengths on both sides of each width of the size prefix; loops are compared turn by turn; negative expiries, which mean no expiry, are not part of it",
  tech="psim")

NA = [
 ("C51", "Concurrent commands on the same keys are linearizable",
  "Whatever commands clients run at the same time, their answers are those of some order of the commands that respects which finished before which began.", [S, H], "every interleaving of every set of commands",
  ["src/pogocache.c", "src/cmds.c"], "linearizability is a property of whole histories of answers; the static parts it rests on (mutual exclusion, one lock per operation, no lost release) are decided as C01, the rest needs histories or a model checker"),
 ("C52", "Memory use stays within --maxmemory",
  "When a memory limit is set, the memory of the process stays within a small margin of it however much clients store.", [H, C], "every load, every limit",
  ["src/sys.c", "src/pogocache.c", "src/main.c"], "the resident size reported by the operating system and the rate at which entries are evicted are runtime quantities; no static bound on them exists in this code"),
 ("C53", "Evicted entries are the ones used least recently, approximately",
  "Under memory pressure the entries that are evicted are, on average, older in use than those that stay.", [H], "every access pattern",
  ["src/pogocache.c"], "a statement about the distribution of random choices over a workload; that an eviction releases its entry and counts it is decided with C04 and C06"),
 ("C54", "Compressed dumps decompress to what was compressed",
  "Decompressing a block that was written by a save yields exactly the bytes that were compressed, for every content.", [I], "every content of a block",
  ["src/lz4.c", "src/save.c"], "needs a functional proof of the LZ4 encoder and decoder, which are outside pogocache's own code; the framing, sizes and checks around them are decided as C13 to C15"),
 ("C55", "A slow client does not delay other clients",
  "A client that reads or sends slowly never delays the commands of other clients by more than a fixed time.", [S], "every schedule and network behaviour",
  ["src/net.c"], "time and scheduling are runtime quantities; the code waits for a client that does not read (write with EAGAIN), so no static bound can be shown"),
 ("C56", "Keys are spread evenly over shards and buckets",
  "For every set of keys the number of keys per shard and the length of chains stay near the average.", [I], "every set of keys",
  ["src/pogocache.c"], "a statistical property of the hash function; that every operation uses the same hash and shard for a key is decided as C11"),
 ("C57", "Connections with TLS carry the same commands and answers",
  "Over TLS a client gets the answers it would get without, and nothing is sent in the clear.", [I, C], "every certificate, every split of records",
  ["src/tls.c", "src/conn.c", "src/net.c"], "OpenSSL is not available here: the build under check compiles these parts out (NOOPENSSL), so there is no code to analyse"),
 ("C58", "io_uring and plain reads and writes behave the same",
  "With and without io_uring clients observe the same answers.", [C, S], "every kernel and every option of the build",
  ["src/net.c", "src/uring.c"], "liburing is not available here: the build under check compiles these parts out (NOURING), so there is no code to analyse"),
 ("C59", "Keys present during a whole listing are listed exactly once",
  "A listing of keys that runs while other clients store and remove keys contains every key that is present from its beginning to its end, exactly once.", [S, H], "every interleaving of a listing with other commands",
  ["src/pogocache.c", "src/cmds.c"], "shards are locked one after another and tables may be moved in between: needs an argument over histories"),
]
for i_, t_, s_, o_, q_, f_, n_ in NA:
    P(i_, t_, s_, o_, q_, "tests run single clients for a short time", f_, [("", f_[0])], na=n_)
