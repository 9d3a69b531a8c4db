"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

FS, FS2, SH, FI, SQ = ("durus/file_storage.py", "durus/file_storage2.py", "durus/shelf.py",
                       "durus/file.py", "durus/sqlite_storage.py")
CO, PE, SE, SS, CL = ("durus/connection.py", "durus/persistent.py", "durus/serialize.py",
                      "durus/storage_server.py", "durus/client_storage.py")
ST, BT = "durus/storage.py", "durus/btree.py"
CONT = ["durus/persistent_dict.py", "durus/persistent_list.py", "durus/persistent_set.py", BT]

p("C01", "An acknowledged commit survives any crash",
  "Once a commit has returned successfully, the values it wrote are what the database returns after any later process kill or power loss and restart, until a later commit replaces them. This holds for every storage format (default file, DFS20 file, SQLite), and a restart after a crash needs at most the documented repair option.",
  ["crash_points", "histories", "fault_sequences"],
  "for every history of commits, aborts, packs, closes and restarts, and every crash point (between or inside any file-system call, with the process only or with power lost so that only synced data is certain)",
  "The tests close storages politely and never lose unsynced data or stop inside a write; a missing or misplaced sync or a lost index update is invisible to them.",
  [FS, SH, FI, FS2, SQ],
  [("transaction append + sync before acknowledging", "FileStorage.end / Shelf.store"),
   ("write, flush, fsync", "FileStorage2.end"), ("SQLite transaction", "SqliteStorage._store_records")],
  ["Storage.load and Storage.gen_oid_record after reopening"])
p("C02", "A commit interrupted by a crash applies entirely or not at all",
  "After a crash at any instant, the reopened database equals the state after some whole number of commits: the last acknowledged one, or that plus the one commit in flight. No mixture of two commits, no half-written object and no object under another's identity is ever returned.",
  ["crash_points", "histories"],
  "for every history and every crash point inside a commit, including writes cut at any byte and unsynced overwrites reaching the disk in any order with respect to appended data",
  "No test interrupts a commit; the torn images depend on byte-exact coincidences of lengths and identifiers that a handful of fixed files never hit.",
  [SH, FS, FS2, SQ, FI],
  [("length header completed after the records", "Shelf.store"),
   ("whole-transaction parse on open", "read_transaction_offsets"),
   ("terminator record", "FileStorage2._write_transaction / _build_index")],
  ["state read after reopening each crash image"])
p("C03", "A truncated file or live copy opens only at a commit boundary",
  "A file storage cut at any byte, or copied sequentially while commits are running, either is refused with an error or opens showing exactly the state after some complete commit. With the repair option it opens at the last complete commit contained in it, keeps all of that state, and accepts and preserves new commits. (A cut through the part of a file that was written by a pack during which commits were made is not included.)",
  ["crash_points", "inputs", "schedules"],
  "for every file produced by a history of commits and packs, every cut position, and every interleaving of a sequential copier with a committing writer",
  "Two hand-made truncations are tested; the acceptance of a cut depends on which field of the last record the cut falls in.",
  [SH, FS2, FS],
  [("short-read detection and truncating repair", "read_transaction_offsets / FileStorage2._build_index")],
  ["opening the cut or copied file with and without repair"])
p("C04", "A commit that fails on a disk error leaves no trace and harms nothing",
  "When a commit raises because the disk is full or reports an error, the committed state stays exactly what it was, in the running process and after reopening. Once the disk works again, the same storage (or a reopened one) accepts commits, and those commits survive a restart without the failed one's data appearing.",
  ["fault_sequences", "histories"],
  "for every history and every placement of ENOSPC, EIO, short writes and failed syncs on any file operation of a commit, for any length of outage",
  "No test injects an I/O error; the damage shows only in later commits or at the next reopening.",
  [SH, FI, FS, FS2, SQ],
  [("truncate back on failure", "Shelf.store"), ("clear pending records", "Storage.begin")],
  ["Storage.end outcome, loads afterwards, reopened state"])
p("C05", "Packing never loses or alters a reachable object",
  "While a pack runs in any number of steps, with commits interleaved between the steps, and after it finishes and after reopening, every object reachable from the root has exactly its latest committed value. Objects made reachable again or newly created during the pack are kept as well.",
  ["schedules", "histories"],
  "for every object graph, and every interleaving of pack steps with commits that create, change, link and unlink objects, on every storage format",
  "Tests pack small graphs, mostly without commits in between, at one or two fixed positions.",
  [FS, SH, FS2, SQ, SS],
  [("incremental packer and pack_extra", "get_packer in each storage")],
  ["loads during and after the pack, and after reopening"])
p("C06", "A crash or error during a pack loses nothing",
  "If the process or machine dies at any point of a pack, including while files are being exchanged, restarting on the same file name gives the complete committed state, without repair beyond the documented option and without human file juggling. If a pack step fails with an I/O error, the running storage keeps all its data and stays usable for commits, which are durable.",
  ["crash_points", "fault_sequences"],
  "for every history, every crash point and every failing file operation inside a pack and the commits interleaved with it",
  "No test stops inside a pack; the dangerous window is a few system calls wide.",
  [FS, FS2, FI, SQ],
  [("write aside, sync, then rename over", "FileStorage.get_packer / FileStorage2._packer / File.rename")],
  ["state after reopening the crash image under the original name"])
p("C07", "Packing removes garbage, always finishes, and can be retried",
  "A pack run to its end with no commits in between leaves exactly the objects reachable from the root. It ends after a number of steps bounded by the size of the database and the commits made meanwhile, and after a finished, failed or crashed pack a later pack again works and collects.",
  ["histories", "schedules", "fault_sequences"],
  "for every graph including cycles, every interleaving with commits, and every failure or crash of an earlier pack",
  "Tests check a single successful pack; repeated packs after failures and stale pack files are not exercised.",
  [FS, SH, FS2, SQ],
  [("reachability traversal from the root", "gen_oid_record(start_oid) / _packer"),
   ("pack_extra marks a running pack", "get_packer")],
  ["gen_oid_record after the pack"])
p("C08", "Object identifiers are never given to two objects",
  "An identifier handed out for a new object is never one that belongs to a stored object still reachable, nor one handed out to anyone else who may still use it. This holds across clients, restarts, crashes, packs and disconnects, and a client never receives an identifier of a removed object while it has that object cached and has not yet been told of the removal.",
  ["histories", "schedules", "crash_points"],
  "for every history of allocations, commits, packs, restarts and client arrivals and departures",
  "Reuse needs a pack, a hole and the right order of allocation afterwards; the tests allocate from fresh storages.",
  [FS, SH, FS2, SQ, SS, CL, ST],
  [("holes and increasing counter", "Shelf.next_name / FileStorage.new_oid / FileStorage2.new_oid / SqliteStorage.new_oid"),
   ("server filtering of invalid and unused identifiers", "StorageServer._new_oids / handle_C"),
   ("client pool", "ClientStorage.new_oid")],
  ["Storage.new_oid results", "committed records"])
p("C09", "At most one process at a time can write a storage file",
  "While a process has a file storage open for writing, every other attempt to open the same file name for writing fails, at every moment including during and after a pack, and changes nothing in the file. After the holder closes or dies, the file can be opened again.",
  ["schedules", "histories", "crash_points"],
  "for every interleaving of one or more openers with a writer's commits and packs, at file-system-call granularity",
  "A test opens twice at one quiet moment; the exposure is between the calls that exchange the packed file.",
  [FI, SH, FS2, FS],
  [("exclusive non-blocking file lock", "File.obtain_lock"), ("rename keeps the lock", "File.rename")],
  ["outcome of the second open; file contents"])
p("C10", "A read-only open never writes and sees a committed state",
  "Opening a file storage read-only changes no byte of any file, even if the file is damaged, and can neither commit nor pack. Opened while a writer is committing or packing, it is either refused or shows exactly the state after some complete commit, and keeps showing that state while the writer goes on.",
  ["schedules", "histories"],
  "for every interleaving, at file-system-call granularity, of a read-only reader with a writer that commits and packs",
  "Tests open a quiescent file read-only once.",
  [FS, FS2, SH, FI],
  [("readonly mode", "File.__init__ / is_readonly"), ("append-only layout", "Shelf")],
  ["file bytes; reader's loads"])
p("C11", "Abort restores exactly the last committed state",
  "After abort(), every persistent object that was ever stored shows its last committed state, whatever mix of changes, deletions, loads, evictions and failed commits came before. Nothing of the aborted changes reaches the storage in any later commit.",
  ["histories"],
  "for every sequence of object operations, evictions, garbage collections, failed commits and aborts over every container type",
  "Tests abort after one or two simple changes with a cache large enough to hide reloading.",
  [CO, PE] + CONT,
  [("changed objects become ghosts", "Connection.abort")],
  ["attribute and item reads after abort; storage contents after the next commit"])
p("C12", "A failed commit can be aborted or retried without loss",
  "When commit() raises for any reason (conflict, storage error, unpicklable state), the stored state is unchanged and the application may repair the cause and commit again, or abort and redo the work, including re-linking the same new objects. The commit that finally succeeds stores every object reachable from the committed changes, with no dangling references.",
  ["fault_sequences", "histories"],
  "for every history and every point at which a commit can fail, including after some objects were serialised or got identifiers",
  "One test covers a conflict on a new object; other failure causes and retries are not exercised.",
  [CO, SE, CL, FS, FS2, SQ],
  [("new objects are reset on failure", "Connection.commit"), ("identifiers returned to the pool", "ClientStorage.end")],
  ["the state read by a fresh connection after the retry"])
p("C13", "Every change made through the public API is stored by the next commit",
  "Any change to a persistent object (attribute set or delete, slots, any mutating method or operator of the dict, list, set and BTree types), made on an object in any load state, is stored by the next successful commit, and a fresh connection then sees the same contents. Objects newly reachable from a changed object are stored with it, and reading never causes a store.",
  ["programs", "histories"],
  "for every sequence of API operations with loads, evictions, commits and aborts interleaved, in the C and the pure Python implementation",
  "Tests call the mutators on unsaved objects, where a missing change mark cannot show.",
  [PE, "durus/_persistent.c", CO, SE] + CONT,
  [("_p_note_change before mutating", "each mutator"), ("changed map", "Connection.note_change")],
  ["contents seen by a fresh connection"])
p("C14", "A BTree behaves as a sorted map through every persistent history",
  "For any sequence of insertions, replacements, deletions, clears and queries (forwards, backwards, ranges, minimum, maximum, length), interleaved with commits, aborts, evictions and reloads, a BTree gives the answers of a sorted map holding the same committed and pending items. After every commit a fresh connection sees that same map.",
  ["histories", "programs"],
  "for every operation sequence, node size, and placement of commits, aborts, evictions and failed commits",
  "The deep deletion cases need particular node shapes; persistence faults need an unmarked node to be evicted or aborted.",
  [BT, PE, CO],
  [("BNode insert, split, delete, merge", "durus/btree.py")],
  ["every BTree query; fresh connection contents"])
p("C15", "Cache eviction and garbage collection are never visible",
  "Whatever the cache size and whenever objects are evicted, collected or reloaded, the values read are those written or committed; one stored object is never represented by two live instances in a connection, and changed but uncommitted objects are never dropped. After a shrink the number of cached loaded objects is brought down towards the target when they are not in use.",
  ["schedules", "histories", "configurations"],
  "for every history, cache size, and placement of eviction and garbage collection",
  "Tests use caches bigger than the data and never collect in the middle of an operation.",
  [CO, PE, SE, "durus/_persistent.c"],
  [("weak dictionary with delayed removal", "ObjectDictionary"), ("LRU ghosting", "Cache.shrink"),
   ("reference resolution through the cache", "serialize.persistent_load")],
  ["object identity and values", "cache counters"])
p("C16", "The C and pure Python implementations behave identically",
  "The same history of object operations, transactions, evictions and conflicts gives the same values, errors, object load states and stored records with the C extension as with the pure Python base classes.",
  ["programs", "histories"],
  "for every history over all object kinds, including ghosts, slots, conflicts and failed loads",
  "The suite runs separately under each implementation, on fixed cases, and never compares them.",
  [PE, "durus/_persistent.c", CO, SE],
  [("attribute hooks", "_persistent.c PersistentBase / persistent.PersistentBase")],
  ["observation log of the same simulated run under both"])
p("C17", "Committed transactions are serializable",
  "For any number of clients of one server, the committed transactions have the same effect, and each read what it would have read, as if they had been executed one after another in the order they were committed. In particular no update is lost and no transaction commits after reading something another client has since changed.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of client operations and server steps, network delay and fragmentation, client cache state, packs, and client crashes",
  "Tests drive two clients in one fixed order; isolation faults need a specific interleaving.",
  [SS, CL, CO, PE],
  [("invalidation sets and conflict checks", "StorageServer.handle_C / Connection._handle_invalidations"),
   ("access tracking", "note_access")],
  ["reads, commits and their outcomes at each client; server commit order"])
p("C18", "All reads of a transaction come from one committed state",
  "Between two transaction boundaries of a client, everything it reads (apart from its own changes) equals one single committed state of the database, even for transactions that never commit and however objects are loaded or evicted. If that is impossible, a ReadConflictError is raised instead of returning a mixture.",
  ["schedules", "histories"],
  "for every interleaving of loads with other clients' commits and packs",
  "A mixture needs another commit between two loads of the same transaction.",
  [SS, CL, CO],
  [("STATUS_INVALID and sync on load", "_send_load_response / Connection.get_stored_pickle")],
  ["values read within each transaction"])
p("C19", "Commit and abort bring the client up to date",
  "After commit() or abort() returns, the client reads, for every object, a state at least as new as the last commit acknowledged to any client before that call began, and never goes back to an older state later. This includes its own commits.",
  ["schedules", "histories"],
  "for every interleaving of clients, evictions, packs, dropped clients and network delays",
  "A stale object appears only if an invalidation is dropped for one client at one moment.",
  [SS, CL, CO],
  [("per-client invalid set", "StorageServer.handle_S / handle_C"), ("ghosting invalid objects", "Connection._sync")],
  ["values read after a boundary"])
p("C20", "Conflicts are reported only when there is one",
  "A conflict error is raised only if an object the client accessed since its last boundary, or is loading, was changed or removed by someone else meanwhile. In particular a client that works alone never gets a conflict, and after abort() the same work retried without interference commits.",
  ["schedules", "histories"],
  "for every interleaving of clients, packs and evictions",
  "Over-eager conflicts look like legitimate ones in a test that does not know the true history.",
  [CO, SS, CL],
  [("serial comparison", "Connection._handle_invalidations"), ("invalid set cleared when delivered", "handle_S / handle_C")],
  ["conflict outcomes against the recorded history"])
p("C21", "A commit is atomic and propagated whatever happens to its client",
  "If a client dies or its connection breaks at any byte of a commit exchange, the server either applied the whole transaction or none of it; if it applied it, every other client sees it after its next boundary exactly as if it had been acknowledged. A client that got an acknowledgement can rely on it.",
  ["fault_sequences", "schedules", "crash_points"],
  "for every cut, reset, delay or stall position in the commit exchange and every interleaving with other clients",
  "Tests never break a connection inside a commit.",
  [SS, CL],
  [("complete request read before applying", "StorageServer.handle_C"), ("bookkeeping of invalidations", "handle_C")],
  ["server state and other clients' reads"])
p("C22", "The server keeps serving whatever happens to individual clients",
  "Dead, resetting, stalled or malformed clients, failing accepts, and failing disk operations never end or block the server for good: once the faults stop, a healthy client completes a commit within a bounded time. Resources of dropped clients are released.",
  ["fault_sequences", "schedules"],
  "for every placement of disconnects, resets, stalls, malformed requests and I/O errors, with bounded simulated time",
  "The tests have one well-behaved client; liveness after faults is a bound over schedules.",
  [SS],
  [("per-client error handling", "StorageServer.serve"), ("socket timeout", "TIMEOUT")],
  ["progress of a healthy client after faults stop"])
p("C23", "Each reply answers its own request, however the stream is cut",
  "However the network splits, delays or coalesces bytes, every client operation (loads, bulk loads, identifier batches, syncs, commits, pack requests) gets exactly the result of its own request, also after an operation that ended in an error such as a missing or conflicting object. A broken connection gives an error, never wrong data.",
  ["schedules", "fault_sequences", "inputs"],
  "for every fragmentation of both directions, message sizes, and sequences of failing and succeeding requests",
  "Local sockets deliver whole messages; partial sends and errors inside bulk answers do not occur in tests.",
  [CL, SS, "durus/utils.py"],
  [("length-prefixed messages; read and write loops", "durus/utils.py read / write"),
   ("bulk responses", "ClientStorage.bulk_load / handle_B")],
  ["results at the client API against server state"])
p("C24", "A server crash and restart keeps every acknowledged commit of all clients",
  "After the server process or machine dies at any instant and is restarted on its file, clients that reconnect see all transactions acknowledged to any client, at most one further transaction that was in flight per crash, and nothing else. They can continue to commit without identifier clashes.",
  ["crash_points", "schedules", "histories"],
  "for every interleaving of several clients' commits, packs and every crash point of the server, repeatedly",
  "No test restarts the server.",
  [SS, FS, FS2, SQ, CL],
  [("acknowledge after durable commit", "handle_C / Storage.end")],
  ["state seen by new connections after restart"])
p("C25", "Automatic garbage collection starts as configured and completes",
  "With a collection threshold of N bytes, once at least N bytes have been committed since the last collection the server starts one, finishes it when clients leave it idle time, and garbage existing at its start is gone, with no effect on any client's committed or pending work. With no threshold it never starts one by itself; an explicit pack request always leads to a completed collection.",
  ["schedules", "configurations", "histories"],
  "for every threshold, commit sizes, interleaving of clients and pack requests, and storage format",
  "The threshold path is not tested with live clients.",
  [SS, FS, FS2, SQ],
  [("bytes_since_pack and packer stepping", "StorageServer.serve / handle_P")],
  ["objects in the storage after the server goes idle"])
p("C26", "Traversals visit every reachable object once, in its current state",
  "Iterating over all records, crawling the object graph, finding instances of a class, counting classes and indexing references report each object reachable in the client's current state exactly once with its current value, for any batch size, also when commits, aborts or evictions happen between two steps of the iteration. Crawled objects are never left in a stale state.",
  ["schedules", "histories", "configurations"],
  "for every graph, batch size and interleaving of an iteration with transactions, evictions and other clients",
  "Tests iterate over quiet storages with default batches.",
  [ST, CO, FS, FS2, SQ],
  [("batched breadth-first traversal", "Storage.gen_oid_record"), ("crawler", "Connection.get_crawler"),
   ("helpers", "gen_every_instance / get_census / get_reference_index")],
  ["objects and records yielded"])
p("C27", "Starting and stopping servers never disturbs a live one",
  "A server started on an address where another is alive fails and leaves the other reachable and serving; one started on the stale socket of a dead server takes it over, and a file that holds data is never taken for a socket. Stopping ends the server with all acknowledged data on disk and its address free, and a waiting client returns as soon as the server accepts connections and gives up only after its stated number of tries.",
  ["schedules", "fault_sequences", "crash_points"],
  "for every interleaving of server starts, stops, crashes and waiting clients on TCP and Unix addresses in simulated time",
  "Tests start one server on one free address.",
  [SS, "durus/__main__.py"],
  [("stale socket detection", "UnixDomainSocketAddress.bind_socket"), ("stop and wait", "stop_durus / wait_for_server")],
  ["reachability of the servers, socket files"])
p("C28", "A computed attribute is recomputed everywhere after it is invalidated",
  "After one client invalidates a computed attribute and commits, every other client that passes a boundary recomputes it before using it; a value computed from data that was then aborted or changed is not kept after the invalidation is processed. Without invalidation the cached value is reused and nothing is stored.",
  ["schedules", "histories"],
  "for every interleaving of computations, invalidations, commits, aborts and evictions at several clients",
  "Tests use a single connection.",
  [PE, CO],
  [("invalidate marks the object changed", "ComputedAttribute.invalidate")],
  ["values returned and compute calls made"])
p("C29", "Record encoding and decoding are inverse",
  "Splitting an object record into identifier, data and references returns what was joined, for all inputs.",
  ["inputs"], "for every identifier, data and reference list",
  "Examples only.", [SE], [("pack_record / unpack_record / split_oids", SE)])
p("C30", "Compact integer arrays and sets behave as arrays and sets",
  "The file-backed byte, bit, word and integer arrays and integer sets answer as the corresponding plain Python structures for every sequence of operations and sizes.",
  ["inputs", "programs"], "for every size and operation sequence",
  "Examples only.", ["durus/utils.py"], [("ByteArray, BitArray, WordArray, IntArray, IntSet", "durus/utils.py")])
p("C31", "A socket-activated server serves its inherited socket and leaves it in place",
  "A server activated by the init system (systemd) serves everyone who connects to the listening socket it inherits, of any address family, including those who connected before it ran or while its predecessor was dying, and it binds nothing of its own. Neither its regular end nor its crash at any point removes the socket or stops it from accepting connections, and the next activation finds all acknowledged commits. An activation meant for another process is ignored and the server listens on its own address.",
  ["schedules", "fault_sequences", "crash_points"],
  "for every interleaving of connecting clients, activations, stops and crashes of the server",
  "Tests start servers that bind their own address; a crash and a second activation never happen.",
  ["durus/systemd_socket.py", SS],
  [("the inherited descriptor", "get_systemd_socket"), ("what the end of a server does to it", "InheritedSocket.close")],
  ["connections served, the socket and its name"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
