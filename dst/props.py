"""Which simulations decide which property.

accept: a violation found by a property's runs is reported for it when it carries the property's
tag or one of these related tags (a run drives one scenario; several properties overlap there).
"""

# ---------------------------------------------------------------- storage histories
OPS = dict(commit=10, abandon=1, alloc=1, check=2, sync=1, pack=1, pstart=1, pstep=3, reopen=1,
           crash=1, cut=0, diskfull=0, diskok=0, repair=0)


def S(name, weight=1, kinds=("file", "file2", "sqlite"), snap=0.0, kill=0.0, err=0.0, short=0.0,
      lengths=None, **ops):
    o = dict(OPS)
    o.update(ops)
    prof = dict(kinds=list(kinds), snap_p=snap, p_kill=kill, p_err=err, p_short=short, ops=o)
    if lengths:
        prof["lengths"] = lengths
    return dict(name=name, harness="h_storage", weight=weight, prof=prof)


STORAGE_REAL = ["durus.shelf", "durus.file", "durus.file_storage", "durus.file_storage2",
                "durus.sqlite_storage", "durus.storage", "durus.serialize", "durus.utils"]
STORAGE_STUB = ["file system (in memory; injects faults, crash images, locks)",
                "SQLite C library (in-memory shim of the sqlite3 module: real libsqlite3 through a "
                "transaction log on the simulated disk)"]
CRASH = ["process crash: everything written stays, plus any prefix of the write in flight",
         "power loss: synced bytes stay; later appends reach the disk as an ordered prefix, later "
         "overwrites independently and possibly torn; renames and links as a prefix of the "
         "metadata journal, which any fsync commits (ext4 ordered-mode assumption)",
         "SQLite honours its documented PRAGMA synchronous and locking semantics"]

crash_images = S("images", 3, snap=0.06, short=0.01)
crash_kill = S("kill", 2, snap=0.02, kill=0.03, crash=2)
crash_mixed = S("mixed", 1, snap=0.04, kill=0.01, err=0.02, short=0.01, diskfull=0.5, diskok=1)

PROPS = {}

PROPS["C01"] = dict(
    profiles=[crash_images, crash_kill, crash_mixed,
              S("file-images", 2, kinds=("file",), snap=0.08, pack=0.5, pstart=0.5)],
    accept=("C02",),
    probes=("image.checked", "crash.recovered"))

PROPS["C02"] = dict(
    profiles=[S("images", 3, snap=0.08, pack=0.5, pstart=0.3), crash_kill,
              S("short", 1, snap=0.05, kill=0.02, short=0.05, pack=0.3, pstart=0.2)],
    accept=("C01", "C03"),
    probes=("image.inflight_applied", "crash.recovered", "image.checked"))

PROPS["C03"] = dict(
    profiles=[S("cuts", 3, kinds=("file", "file", "file2"), cut=5, pack=1.5, diskfull=0, repair=1),
              S("cuts-crash", 1, kinds=("file", "file2"), cut=4, snap=0.03, kill=0.01, repair=1)],
    accept=("C02", "C10"),
    probes=("cut.refused", "cut.opened"))

PROPS["C04"] = dict(
    profiles=[S("errors", 3, err=0.04, short=0.01, diskfull=1.5, diskok=2),
              S("errors-crash", 1, err=0.03, snap=0.03, kill=0.01, diskfull=1, diskok=1.5),
              S("full", 1, diskfull=3, diskok=3, reopen=2)],
    accept=("C01", "C02"),
    probes=("commit.failed",))

PROPS["C05"] = dict(
    profiles=[S("packs", 3, pack=2, pstart=4, pstep=8, commit=8, lengths=[6, 10, 18, 30]),
              S("packs-short", 1, pack=2, pstart=3, pstep=6, short=0.05)],
    accept=("C01", "C02", "C06", "C07", "C26"),
    probes=("commit.during_pack", "pack.finished"))

PROPS["C06"] = dict(
    profiles=[S("pack-images", 3, snap=0.1, pack=3, pstart=3, pstep=6, commit=6),
              S("pack-kill", 2, snap=0.03, kill=0.03, pack=3, pstart=3, pstep=6, commit=6),
              S("pack-errors", 2, err=0.05, short=0.01, pack=3, pstart=3, pstep=6, commit=6,
                diskfull=1, diskok=1.5)],
    accept=("C01", "C02", "C04", "C05", "C07"),
    probes=("pack.started",))

PROPS["C07"] = dict(
    profiles=[S("packs", 2, pack=4, pstart=2, pstep=6, commit=8),
              S("pack-errors", 2, err=0.05, pack=3, pstart=3, pstep=6, commit=6, diskfull=0.7,
                diskok=1.5),
              S("pack-kill", 1, kill=0.02, pack=3, pstart=3, pstep=6, commit=6)],
    accept=("C05", "C06"),
    probes=("pack.finished", "pack.failed"))

PROPS["C08"] = dict(
    profiles=[S("oids", 3, alloc=5, reopen=3, crash=2, pack=3, pstart=2, abandon=2, sync=2),
              S("oids-faults", 1, alloc=5, reopen=2, crash=2, pack=2, err=0.03, kill=0.01, sync=2,
                diskfull=0.5, diskok=1)],
    accept=(),
    probes=("pack.finished", "crash.recovered", "op.reopen"))

for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    PROPS[p].setdefault("real", STORAGE_REAL)
    PROPS[p].setdefault("stub", STORAGE_STUB)
    PROPS[p].setdefault("assumptions", CRASH)
    PROPS[p].setdefault("modes", ("c", "py", "c", "c"))
    PROPS[p].setdefault("technique", "storage histories with disk faults and crash images against a "
                        "list-of-states model")
    PROPS[p].setdefault("note", "Seeded search, not exhaustive. Assumes the crash model of "
                        "DESIGN.md (ordered appends, fsync honoured, journalled metadata); the "
                        "kernel, the disk and SQLite's own durability are simulated, not verified.")

# ---------------------------------------------------------------- several processes and one file
def F(name, weight=1, **prof):
    return dict(name="files-" + name, harness="h_files", weight=weight, prof=prof)


PROPS["C03"]["profiles"] += [
    F("copies", 3, copiers=[1, 1, 2], writers=[1], readers=[0], p_kill=0.002, p_short=0.01),
    F("copies-packs", 1, copiers=[1], writers=[1], readers=[0],
      ops={"w": dict(pack=3, pstart=4, pstep=10)})]
PROPS["C03"]["probes"] += ("copy.during_commit", "copy.refused", "copy.opened")
PROPS["C09"] = dict(
    profiles=[F("openers", 3, writers=[2, 3, 3, 4], readers=[0, 0, 1]),
              F("openers-packs", 3, writers=[2, 3], readers=[0],
                ops={"w": dict(open=5, pack=3, pstart=4, pstep=8)}),
              F("openers-kills", 2, writers=[2, 3, 4], readers=[0], p_kill=0.004, p_short=0.01)],
    accept=("C10", "C01", "C02", "C05"),
    probes=("open.refused.held", "open.ok", "pack.finished", "writer.closed", "fault.kill"))
PROPS["C10"] = dict(
    profiles=[F("readers", 3, writers=[1, 1, 2], readers=[1, 2, 3]),
              F("readers-packs", 2, writers=[1], readers=[1, 2], ops={"w": dict(pack=3, pstart=4, pstep=8)}),
              F("readers-kills", 2, writers=[1, 2], readers=[1, 2], p_kill=0.003, p_short=0.01),
              F("readers-damage", 1, writers=[1], readers=[1, 2], ops={"r": dict(rdamaged=10)})],
    accept=("C02", "C03"),
    probes=("ropen.ok.during_commit", "ropen.refused", "rread", "rwrite.commit", "rwrite.pack",
            "damage.refused", "damage.opened"))
for p in ("C09", "C10"):
    PROPS[p].update(
        real=["durus.shelf", "durus.file", "durus.file_storage", "durus.file_storage2", "durus.storage",
              "durus.serialize", "durus.utils"],
        stub=["file system (in memory; locks as flock(2), kills in any call)", "scheduler (one runnable "
              "process at a time, switches at every file-system call, chosen by the seed)"],
        assumptions=["each call on the file system is atomic; flock belongs to an open file and ends with "
                     "the process", "a process that is killed leaves what it has written"],
        modes=("c",),
        technique="several processes on one storage file, switched at every file-system call and killed "
                  "in any; openings, reads and copies checked against the list of commits in their window",
        note="Seeded search, not exhaustive, over up to four writers and three readers. POSIX locking only "
             "(the Windows branches do not run).")

# ---------------------------------------------------------------- clients and a server
WORK = dict(txn=10, crawl=1, gc=0.5, commit=0.5, abort=1, pause=1, leave=0.5)


def Y(name, weight=1, ops=None, **prof):
    o = dict(WORK)
    o.update(ops or {})
    prof["ops"] = o
    return dict(name="sys-" + name, harness="h_system", weight=weight, prof=prof)


def M(name, weight=1, ops=None, **prof):
    """The same with shared containers."""
    o = dict(WORK, crawl=0.5)
    o.update(ops or {})
    prof["ops"] = o
    return dict(name="shared-" + name, harness="h_shared", weight=weight, prof=prof)


SYSTEM_REAL = STORAGE_REAL + ["durus.storage_server (handlers, addresses, select loop)",
                              "durus.client_storage", "durus.connection", "durus.persistent",
                              "durus.persistent_dict", "durus.persistent_list",
                              "durus.persistent_set", "durus.btree",
                              "durus._persistent (C) or its pure fallback"]
SYSTEM_STUB = STORAGE_STUB + ["sockets and select (in-memory streams with latency, windows, short "
                              "transfers, resets, stalls)", "clocks (simulated time)",
                              "scheduler (one runnable actor at a time, chosen by the seed)"]
NETWORK = CRASH + ["each client process and the server is one actor; switches happen at socket, "
                   "select and sleep calls (durus processes are single-threaded)",
                   "sockets are reliable byte streams until they break, as TCP and Unix sockets are"]

few = dict(clients=[1, 2, 3, 4])
many = dict(clients=[2, 3, 3, 4, 5])
contend = Y("contend", 3, **many)
contend_gc = Y("contend-gc", 2, dict(gc=1.5), gcbytes=[0, 300, 1000, 3000], **many)
streams = Y("streams", 2, p_short=0.2, p_delay=0.05, gcbytes=[0, 500], **many)
resets = Y("resets", 2, p_reset=0.01, p_short=0.05, **many)
stalls = Y("stalls", 1, p_stall=0.02, p_short=0.05, **many)
client_kills = Y("client-kills", 2, dict(ckill=1), p_ckill=0.01, p_short=0.03, **many)
server_kills = Y("server-kills", 2, dict(skill=1), p_skill=0.003, p_fskill=0.01, gcbytes=[0, 500], **few)
disk_errors = Y("disk-errors", 2, dict(diskfull=1), p_fserr=0.02, gcbytes=[0, 500], **few)
raw_replies = Y("raw", 3, dict(raw=6), p_short=0.05, **many)
hostile = Y("hostile", 2, dict(evil=3), p_accept=0.02, **few)
everything = Y("everything", 1, dict(evil=1, raw=1, skill=.3, ckill=.3, diskfull=.3), p_short=0.05,
               p_delay=0.01, p_reset=0.003, p_stall=0.003, p_ckill=0.003, p_skill=0.001,
               p_fserr=0.003, p_fskill=0.002, p_accept=0.01, gcbytes=[0, 500, 2000], **few)

shared = M("contend", 3, **many)
shared_gc = M("contend-gc", 1, dict(gc=1.5), gcbytes=[0, 300, 1000, 3000], **many)
shared_kills = M("kills", 1, dict(ckill=.5, skill=.3), p_ckill=0.005, p_skill=0.001, p_short=0.05,
                 p_reset=0.003, gcbytes=[0, 500], **many)

PROPS["C17"] = dict(
    profiles=[contend, contend_gc, streams, client_kills, resets, shared, shared_gc, shared_kills],
    accept=("C18", "C21", "C12"), probes=("conflict",))
PROPS["C18"] = dict(
    profiles=[contend, contend_gc, streams, Y("crawl", 2, dict(crawl=6), **many), raw_replies,
              shared, shared_gc],
    accept=("C17", "C15", "C23"), probes=("commit.acked",))
PROPS["C19"] = dict(
    profiles=[contend, Y("readers", 2, dict(commit=4, abort=4, crawl=3), **many), raw_replies, resets,
              contend_gc, stalls, shared,
              M("readers", 1, dict(commit=4, abort=4, crawl=2), **many)],
    accept=("C21", "C18", "C17"), probes=("commit.acked",))
PROPS["C20"] = dict(
    profiles=[contend, Y("alone", 2, dict(crawl=2, abort=2, leave=1), clients=[1, 1, 2]), contend_gc,
              raw_replies, Y("alone-gc", 1, dict(gc=2), clients=[1], gcbytes=[0, 300]),
              M("apart", 2, dict(abort=2), **many)],
    accept=(), probes=("conflict", "commit.acked"))
PROPS["C21"] = dict(
    profiles=[client_kills, resets, stalls, contend, Y("cut", 2, dict(ckill=1, leave=1), p_ckill=0.005,
              p_reset=0.005, p_short=0.2, window=[64], **many),
              shared_kills],
    accept=("C17", "C18", "C19"), probes=("fault.kill.client", "fault.net.reset", "fault.net.stall",
                                         "commit.acked"))
PROPS["C22"] = dict(
    profiles=[hostile, disk_errors, stalls, resets, everything,
              Y("stall-hostile", 1, dict(evil=3), p_stall=0.02, p_reset=0.005, p_accept=0.02, **few)],
    accept=("C21", "C23", "C24"), probes=("fault.hostile.commit", "fault.hostile.garbage",
                                         "fault.net.stall", "fault.net.reset", "commit.failed"))
PROPS["C23"] = dict(
    profiles=[raw_replies, Y("raw-cut", 3, dict(raw=6), p_short=0.3, p_delay=0.05, **many), streams,
              Y("raw-gc", 1, dict(raw=6, gc=2), p_short=0.05, gcbytes=[0, 500], **few), resets],
    accept=("C18", "C19", "C21", "C22"), probes=("raw.loads", "fault.net.short_recv"))
PROPS["C24"] = dict(
    profiles=[server_kills, Y("server-kills-more", 2, dict(skill=2), p_fskill=0.03, p_skill=0.005, **few),
              Y("server-kills-gc", 1, dict(skill=1, gc=1.5), p_fskill=0.01, gcbytes=[300, 1000], **few),
              everything, M("server-kills", 1, dict(skill=1.5), p_fskill=0.01, p_skill=0.002,
                            gcbytes=[0, 500], **few)],
    accept=("C01", "C02", "C08", "C17", "C18", "C19", "C21", "C22"), probes=("server.restarted",))
PROPS["C25"] = dict(
    profiles=[Y("gc", 3, dict(gc=1), gcbytes=[0, 200, 500, 1000, 3000], **few), contend_gc,
              Y("gc-kills", 1, dict(ckill=1, gc=2), gcbytes=[0, 300, 1000], p_ckill=0.005, **few),
              Y("gc-hostile", 1, dict(evil=3, gc=2), gcbytes=[0, 300, 1000], **few),
              Y("gc-errors", 1, dict(diskfull=1, gc=1), gcbytes=[0, 300, 1000], p_fserr=0.01, **few),
              M("gc", 1, dict(gc=2), gcbytes=[0, 200, 500, 1000, 3000], **few)],
    accept=("C05", "C17", "C18", "C20", "C21"), probes=("pack.finished",))

PROPS["C08"]["profiles"] += [
    Y("oids-hostile", 1, dict(evil=5, leave=1), **many),
    Y("oids-gc", 2, dict(raw=4, gc=3), gcbytes=[0, 300], **many),
    Y("oids-kills", 1, dict(raw=2, skill=1, ckill=1, leave=2, gc=1), p_skill=0.002, p_ckill=0.005, **many)]

for p in ("C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"):
    PROPS[p].setdefault("real", SYSTEM_REAL)
    PROPS[p].setdefault("stub", SYSTEM_STUB)
    PROPS[p].setdefault("assumptions", NETWORK)
    PROPS[p].setdefault("modes", ("c", "py", "c", "c"))
    PROPS[p].setdefault("technique", "server, clients, hostile peers, network and disk under one seeded "
                        "scheduler; reads and commits checked against the list of committed states")
    PROPS[p].setdefault("note", "Seeded search, not exhaustive, over small object graphs (up to a few "
                        "dozen objects) and up to five clients. Sockets, disk and clock are simulated; "
                        "the operating system's own behaviour is assumed.")

# ---------------------------------------------------------------- servers that come and go
def A(name, weight=1, **prof):
    return dict(name="addr-" + name, harness="h_addr", weight=weight, prof=prof)


PROPS["C27"] = dict(
    profiles=[A("servers", 3), A("servers-kills", 3, p_kill=0.004),
              A("unix", 2, addrs=["unix", "unix", "unix2"], p_kill=0.003),
              A("unix-kills", 1, addrs=["unix"], p_kill=0.02, operators=[1, 2]),
              A("waits", 1, ops=dict(wait=10)), A("stops", 1, ops=dict(stop=8, start=8)),
              A("stops-stalls", 1, ops=dict(stop=8, start=8), p_stall=0.02),
              A("race", 1, addrs=["unix"], race=1, operators=[2, 3, 4])],
    accept=("C22", "C24", "C01", "C02"),
    probes=("start.refused.live", "server.ready.unix", "server.ready.inet", "server.ready.abstract",
            "stop.done", "wait.returned", "wait.gave", "ping.ok", "fault.kill", "junk"),
    real=SYSTEM_REAL + ["durus.__main__ (start, stop, command line)"],
    stub=SYSTEM_STUB,
    assumptions=NETWORK + ["bind, listen, connect and unlink are atomic; a dead process gives up its "
                           "sockets, a Unix socket leaves its name behind; closed TCP connections linger"],
    modes=("c",),
    technique="servers started, stopped and killed in any call on TCP, Unix and abstract addresses in "
              "simulated time, with clients and waiting clients; who may be reachable is modelled exactly",
    note="Seeded search, not exhaustive, over up to four operators and three addresses. POSIX sockets only; "
         "systemd activation is simulated for C31.")


def U(name, weight=1, **prof):
    return dict(name="unit-" + name, harness="h_unit", weight=weight, prof=prof)


PROPS["C31"] = dict(
    profiles=[U("activated", 3), U("activated-kills", 3, p_kill=0.004), U("quits", 2, ops=dict(quit=5)),
              U("stalls", 1, p_stall=0.02)],
    accept=("C27", "C22", "C24", "C01", "C02"),
    probes=("ping.ok.activating", "unit.stopped", "fault.kill", "quit"),
    real=SYSTEM_REAL + ["durus.systemd_socket", "durus.__main__ (start, command line)"],
    stub=SYSTEM_STUB + ["the init process: it owns the listening socket and starts the server on demand"],
    assumptions=NETWORK + ["a listening socket and its queue live as long as any descriptor of it is open"],
    modes=("c",),
    technique="servers activated on demand through an inherited listening socket, stopped and killed in any call, "
              "with clients that connect whether a server runs or not; the init process is simulated",
    note="Seeded search, not exhaustive, over one unit and up to four clients.")

# ---------------------------------------------------------------- one application's connection
CONN = dict(mut=10, link=3, read=3, commit=4, abort=1, pin=1, unpin=1, gc=.5, shrink=.7, idle=.2,
            bad=.5, pack=.3, reopen=.2, comp=1, cstart=.5, cstep=1, census=.3, b=0)
LOCAL = ("file", "file2", "sqlite", "memory")
CLIENT = ("client:file", "client:file2", "client:sqlite")


def N(name, weight=1, ops=None, kinds=LOCAL, harness="h_conn", **prof):
    o = dict(CONN)
    if tuple(kinds) != LOCAL:
        o["b"] = 2
    o.update(ops or {})
    prof["ops"] = o
    prof["kinds"] = list(kinds)
    return dict(name="conn-" + name, harness=harness, weight=weight, prof=prof)


CONN_REAL = STORAGE_REAL + ["durus.connection", "durus.persistent", "durus._persistent (C) or its pure "
                            "fallback", "durus.persistent_dict", "durus.persistent_list",
                            "durus.persistent_set", "durus.btree", "durus.client_storage",
                            "durus.storage_server"]
CONN_ASSUME = ["the application follows the documented protocol: it marks nested mutable values itself, "
               "aborts after a conflict or an I/O error, and reaches objects through the connection "
               "(references kept over a boundary are used only while the object is stored)",
               "garbage collection runs where the simulation calls it (and reference counting as usual)",
               "server and application switch at socket and select calls"]
IO = dict(p_err=0.05, p_rerr=0.01)
SMALL = [1, 1, 2, 3, 5]

PROPS["C11"] = dict(
    profiles=[N("aborts", 3, dict(abort=4, read=4)), N("aborts-small", 2, dict(abort=4), cache=SMALL),
              N("aborts-faults", 2, dict(abort=3, bad=1), **IO),
              N("aborts-tree", 2, dict(mut=20, shrink=3), only=["btree"], cache=SMALL, p_rerr=0.06),
              N("aborts-client", 1, dict(abort=4), CLIENT)],
    accept=("C12", "C13", "C14", "C15"), probes=("abort", "commit.failed", "read"))
PROPS["C12"] = dict(
    profiles=[N("fails", 3, dict(bad=3, commit=6), p_err=0.05),
              N("fails-client", 2, dict(bad=2, commit=6, b=4), CLIENT),
              N("fails-small", 2, dict(bad=2, commit=6), cache=SMALL, p_err=0.08),
              Y("contend-objects", 1, **many)],
    accept=("C04", "C05", "C11", "C13", "C14", "C15", "C17"),
    probes=("commit.failed.io", "commit.failed.state", "conflict", "commit.retried", "commit.relinked"))
PROPS["C13"] = dict(
    profiles=[N("changes", 3), N("changes-small", 2, cache=SMALL), N("changes-idle", 1, dict(idle=2, gc=2)),
              N("changes-client", 1, None, CLIENT), N("trees", 1, only=["btree", "dict"]),
              M("changes", 1, **few)],
    accept=("C11", "C12", "C14", "C15", "C28"), probes=("mut.dict", "mut.list", "mut.set", "mut.btree",
                                                        "mut.slot", "mut.slot3", "mut.bag"))
PROPS["C14"] = dict(
    profiles=[N("tree", 3, dict(mut=20, link=2, abort=1.5), only=["btree"]),
              N("tree-small", 2, dict(mut=20, shrink=2), only=["btree"], cache=SMALL),
              N("tree-faults", 1, dict(mut=20, bad=1), only=["btree"], **IO),
              N("tree-rerrs", 2, dict(mut=20, shrink=3), only=["btree"], cache=SMALL, p_rerr=0.06),
              N("tree-client", 1, dict(mut=20, b=3), CLIENT, only=["btree"]),
              M("trees", 2, containers=["btree"], **many)],
    accept=("C11", "C12", "C13", "C15", "C17", "C18"), probes=("mut.btree", "commit.ok", "abort"))
PROPS["C15"] = dict(
    profiles=[N("evict", 3, dict(shrink=4, gc=3, idle=1), cache=SMALL),
              N("evict-crawl", 1, dict(shrink=3, gc=2, idle=1, cstart=2, cstep=4), cache=SMALL),
              N("evict-client", 2, dict(shrink=4, gc=2, idle=1, b=3), CLIENT, cache=SMALL),
              N("evict-faults", 1, dict(shrink=4, gc=2, bad=1), cache=SMALL, **IO),
              M("evict", 1, cache=SMALL, **many)],
    accept=("C11", "C12", "C13", "C14", "C17", "C18", "C20", "C28"), probes=("op.shrink", "op.gc", "op.idle", "read"))
TWIN = dict(odd=4)
PROPS["C16"] = dict(
    profiles=[N("twin", 3, TWIN, harness="h_twin"),
              N("twin-small", 2, dict(TWIN, shrink=2, gc=2), harness="h_twin", cache=SMALL),
              N("twin-client", 2, dict(TWIN, b=3), CLIENT, harness="h_twin"),
              N("twin-faults", 2, dict(TWIN, bad=1), harness="h_twin", p_err=0.03, p_rerr=0.03)],
    accept=(), probes=("twin.compared", "odd.getattr", "odd.ghost", "fault.read.EIO", "conflict"),
    modes=("c",))
CRAWL = dict(cstart=3, cstep=6, census=3)
PROPS["C26"] = dict(
    profiles=[N("crawl", 3, CRAWL), N("crawl-small", 1, dict(CRAWL, shrink=2), cache=SMALL),
              N("crawl-client", 3, dict(CRAWL, b=4), CLIENT),
              N("crawl-tree", 1, CRAWL, only=["btree", "bag"]),
              Y("crawl", 2, dict(crawl=6), **many)],
    accept=("C11", "C13", "C15", "C18", "C19", "C23"), probes=("crawl.step", "crawl.done", "op.census"))
PROPS["C28"] = dict(
    profiles=[N("computed", 2, dict(comp=8), only=["owner", "bag"]),
              N("computed-client", 3, dict(comp=8, b=5), CLIENT, only=["owner", "bag", "dict"]),
              N("computed-small", 1, dict(comp=8, shrink=2, gc=1, b=3), LOCAL + CLIENT,
                only=["owner", "bag"], cache=SMALL),
              N("computed-fails", 1, dict(comp=8, bad=2), only=["owner", "bag"], p_err=0.05),
              M("computed", 2, containers=["comp", "comp", "comp", "bag"], **many)],
    accept=("C11", "C12", "C13", "C15", "C17", "C18", "C19", "C20"),
    probes=("comp.computed", "comp.reused", "comp.invalidated", "other.commit"))

for p in ("C11", "C12", "C13", "C14", "C15", "C16", "C26", "C28"):
    PROPS[p].setdefault("real", CONN_REAL)
    PROPS[p].setdefault("stub", SYSTEM_STUB)
    PROPS[p].setdefault("assumptions", CONN_ASSUME)
    PROPS[p].setdefault("modes", ("c", "py", "c", "py"))
    PROPS[p].setdefault("technique", "object programs with evictions, garbage collections, failing commits "
                        "and another client, checked step by step against plain Python values")
    PROPS[p].setdefault("note", "Seeded search, not exhaustive, over histories of up to a few hundred "
                        "operations on up to some forty objects of ten kinds.")
PROPS["C16"]["technique"] = ("the same seeded object program, with the same faults and schedule, under the C "
                             "extension and a pure Python copy of durus in one process; all observations "
                             "compared")
