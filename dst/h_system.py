"""A whole system: one real StorageServer, several real clients, hostile peers, disk and network.

Every commit that the storage completes extends a list of states S[0], S[1], ...; each client's
reads, conflicts and boundaries are checked against that list while the run goes on.
"""
import errno
import random

import simfs
import simnet
import objs
from core import Sim, SimKilled, SimStop, Proc, Violation, HarnessError
from h_storage import klass as storage_class, io_error, where, n8, i8

MAIN = "/simfs/db"
Z = b"\0" * 8
ADDRESSES = {"inet": ("127.0.0.1", 2972), "unix": "/simfs/sock", "abstract": "@durus"}


def generate(rng, prof):
    def rate(name):
        return prof.get(name, 0.0) * rng.choice([0, 1, 1, 3])
    nc = rng.choice(prof.get("clients", [1, 2, 2, 3, 4]))
    cfg = {
        "kind": rng.choice(prof.get("kinds", ["file", "file", "file2", "sqlite"])),
        "address": rng.choice(["inet", "inet", "unix", "abstract"]),
        "gcbytes": rng.choice(prof.get("gcbytes", [0])),
        "clients": nc,
        "cells": rng.choice([1, 2, 3, 5]),
        "depth": rng.choice([1, 2, 3]),
        "cache": [rng.choice(prof.get("cache", [1, 2, 3, 5, 100, 100])) for _ in range(nc + 2)],
        "slots": rng.random() < 0.4,
        "increment": rng.choice([1, 2, 5, 50]),
        "loglevel": rng.choice([4, 10, 20, 50]),
        "window": rng.choice(prof.get("window", [65536, 65536, 64, 200, 1000])),
        "pool": rng.choice([1, 2, 5, 32, 32]),
        "p_switch": rng.choice([0.02, 0.1, 0.3, 0.6]),
        "p_short": rate("p_short"), "p_delay": rate("p_delay"), "p_reset": rate("p_reset"),
        "p_stall": rate("p_stall"), "p_ckill": rate("p_ckill"), "p_skill": rate("p_skill"),
        "p_fserr": rate("p_fserr"), "p_fskill": rate("p_fskill"), "p_accept": rate("p_accept"),
    }
    w = dict(prof["ops"])
    for k in list(w):
        if k not in prof.get("always", ("txn",)):
            w[k] = w[k] * rng.choice([0, 1, 1, 2])
    names = sorted(w)
    weights = [w[k] for k in names]
    n = rng.choice(prof.get("lengths", [6, 12, 20, 35]))
    ops = []
    for i in range(n):
        k = rng.choices(names, weights)[0]
        ops.append({"u": i + 1, "k": k, "c": rng.randrange(nc), "r": rng.getrandbits(30)})
    return {"h": "system", "cfg": cfg, "ops": ops}


class Txn(object):
    def __init__(self, client, name, lo, base):
        self.client = client
        self.name = name
        self.base = base            # commits applied when the boundary before it was requested
        self.lo = lo                # the oldest state it may see
        self.cand = None            # indices of the states that agree with everything read
        self.reads = []
        self.readset = {}
        self.accessed = set()
        self.writes = {}            # id(obj) -> obj
        self.new = {}               # id(obj) -> object made in this transaction
        self.expect = {}            # id(obj) -> what it should hold
        self.status = "open"
        self.applied = None         # number of the commit
        self.raw = None             # what its commit has to store
        self.seen_n = 0


class Recorder(object):
    """The storage that the server uses: the real one, observed."""
    def __init__(self, world, storage):
        self.w = world
        self.st = storage
        self.pending = {}

    def load(self, oid):
        return self.st.load(oid)

    def begin(self):
        self.pending = {}
        self.st.begin()

    def store(self, oid, record):
        self.pending[bytes(oid)] = bytes(record)
        self.st.store(oid, record)

    def end(self, handle_invalidations=None):
        w = self.w
        w.inflight = dict(self.pending)
        try:
            self.st.end(handle_invalidations)
        except Exception:
            w.inflight = None
            w.sim.stat("commit.failed")
            raise
        w.inflight = None
        pending, self.pending = self.pending, {}
        w.guard(w.applied, pending)

    def sync(self):
        return self.st.sync()

    def new_oid(self):
        oid = self.st.new_oid()
        self.w.guard(self.w.oid_made, oid)
        return oid

    def close(self):
        self.st.close()

    def pack(self):
        raise HarnessError("pack")

    def bulk_load(self, oids):
        return self.st.bulk_load(oids)

    def gen_oid_record(self, *a, **k):
        return self.st.gen_oid_record(*a, **k)

    def get_packer(self):
        w = self.w
        p = self.st.get_packer()
        w.guard(w.pack_asked)
        if p is None:
            return None
        w.pack_started()
        return self.run_packer(p)

    def run_packer(self, p):
        w = self.w
        n = 0
        try:
            for x in p:
                n += 1
                w.pack_step()
                yield x
        except Exception:
            w.pack_base = None
            w.pack_failed += 1
            w.sim.stat("pack.failed")
            raise
        w.guard(w.pack_done, n)


class World(object):
    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.cfg = plan["cfg"]
        self.kind = self.cfg["kind"]
        self.K = storage_class(self.kind)
        self.S = [{}]               # contents after each commit: oid -> canonical value
        self.R = [{}]               # oid -> record
        self.by = [None]            # who committed
        self.touched = [set()]      # oids of each commit
        self.reach_cache = {}
        self.acked = 0              # highest commit acknowledged to a client
        self.txns = {}
        self.inflight = None
        self.oids = {}              # oid -> server incarnation that issued it
        self.incarnation = 0
        self.clients = []
        self.quiet = True
        self.server_proc = None
        self.server_actor = None
        self.restarts = 0
        self.stop_all = False
        self.left = 0
        # collections
        self.bytes_low = 0          # record bytes committed since the last collection ended
        self.asked = 0
        self.ordered = 0            # collections that nothing but a request explains
        self.requested = 0          # explicit requests that reached the server (at most)
        self.started = 0
        self.done = 0
        self.pack_base = None
        self.pack_failed = 0
        self.last_garbage = set()
        self.fs_faults = 0
        self.final = False
        self.soft = None            # a commit that may still disappear (see check_restart)

    # ---- environment
    def setup(self):
        import logging
        sim, cfg = self.sim, self.cfg
        logging.getLogger("durus").setLevel(cfg["loglevel"])
        if hasattr(self.K, "_PACK_INCREMENT"):
            self.K._PACK_INCREMENT = cfg["increment"]
        simfs.BUFFER_SIZE = 8192
        sim.p_switch = cfg["p_switch"]
        sim.max_steps = 600000
        self.fs = simfs.FS(sim)
        self.fs.yield_points = False
        simfs.use(self.fs)
        self.net = simnet.Net(sim)
        self.net.window = cfg["window"]
        self.net.faults = self.net_faults
        simnet.use(self.net)
        self.address = ADDRESSES[cfg["address"]]
        from durus.connection import Connection
        st = self.K(MAIN)
        rec = Recorder(self, st)
        self.S, self.R, self.by, self.touched = [{}], [{}], [None], [set()]

        conn = Connection(st_as(rec))
        root = conn.get_root()
        klass = objs.Slot if cfg["slots"] else objs.Cell
        n = 0
        for i in range(cfg["cells"]):
            cur = None
            for d in range(cfg["depth"]):
                n += 1
                cur = (objs.Cell if n % 2 else klass)("i.%d" % n, [cur] if cur is not None else [])
            root["c%d" % i] = cur
        root["#"] = "i.root"
        conn.commit()
        self.oids.clear()
        st.close()
        self.acked = self.n()

    def n(self):
        return len(self.S) - 1

    def net_faults(self, call, sock, nbytes):
        if self.quiet:
            return None
        cfg = self.cfg
        server = sock.proc is self.server_proc
        odds = [(cfg["p_skill"] if server else cfg["p_ckill"] if sock.proc.name[0] == "c" else 0,
                 lambda r: {"kill": 1})]
        if call in ("send", "recv"):
            odds.append((cfg["p_reset"], lambda r: {"reset": 1}))
            if not server:
                odds.append((cfg["p_stall"], lambda r: {"stall": r.choice([0.5, 3, 9, 11, 40])}))
            if nbytes > 1:
                odds.append((cfg["p_short"], lambda r: {
                    "short": r.choice([1, 1, 2, 3, r.randrange(1, nbytes)])}))
            odds.append((cfg["p_delay"], lambda r: {"delay": r.choice([0.001, 0.01, 0.3, 4.0])}))
        elif call == "accept":
            odds.append((cfg["p_accept"] / 2, lambda r: {"abort": 1}))
            odds.append((cfg["p_accept"] / 2, lambda r: {"err": r.choice([
                errno.EMFILE, errno.ENFILE, errno.ECONNABORTED, errno.ENOBUFS])}))
        elif call == "settimeout" and server:
            odds.append((cfg["p_accept"], lambda r: {"err": errno.EINVAL}))

        def gen(r):
            x = r.random()
            for p, f in odds:
                if x < p:
                    return f(r)
                x -= p
            return None
        return self.sim.decide("net." + call, gen)

    def fs_fault(self, call, path, nbytes):
        if self.quiet or self.sim.cur.proc is not self.server_proc:
            return None
        cfg = self.cfg
        if not (cfg["p_fserr"] or cfg["p_fskill"]) and not self.sim.replay:
            return None
        mutating = call not in ("stat", "read", "flock", "open")

        def gen(r):
            x = r.random()
            if mutating and x < cfg["p_fskill"]:
                return {"k": r.random()} if call == "write" else {"k": -1}
            x -= cfg["p_fskill"] if mutating else 0
            if x < 0:
                return None
            if x < cfg["p_fserr"] * (1 if mutating else 0.3) and call not in ("stat", "flock"):
                d = {"err": r.choice([errno.ENOSPC, errno.EIO]) if mutating else errno.EIO}
                if call == "write" and r.random() < 0.5:
                    d["short"] = r.randrange(0, max(1, nbytes))
                return d
            return None
        f = self.sim.decide("fs." + call, gen)
        if f is None:
            return None
        if "k" in f:
            self.sim.stat("fault.kill." + call)
            self.sim.stat("fault.kill")
            if f["k"] < 0 or nbytes == 0:
                self.sim.kill(self.sim.cur.proc)
                raise SimKilled()
            return {"short": int(f["k"] * (nbytes + 1)), "kill": 1}
        if "err" in f:
            self.fs_faults += 1
        return f

    def guard(self, fn, *args):
        """Run harness code inside the server, which catches every Exception."""
        try:
            return fn(*args)
        except Exception as e:
            raise HarnessError("%r %s" % (e, tb(e)))

    # ---- states
    def applied(self, records):
        """The storage has completed a commit."""
        S = dict(self.S[-1])
        R = dict(self.R[-1])
        new = {}
        for oid, rec in records.items():
            new[oid] = objs.canon_record(rec)
        S.update(new)
        R.update(records)
        self.S.append(S)
        self.R.append(R)
        self.touched.append(set(records))
        self.last_garbage -= set(records)
        self.soft = None
        names = set()
        for oid, c in new.items():
            t = objs.token_of(c)
            if t is not None:
                names.add(t.rsplit(".", 1)[0])
        self.by.append(names)
        self.bytes_low += sum(map(len, records.values()))
        self.sim.states.add(hash_canon(S))
        self.sim.ev("applied", self.n(), sorted(map(n8, records)))
        if self.incarnation == 0:
            return
        if len(names) != 1:
            self.bad("mixed-commit", ("C21", "C17"), "a commit holds records of transactions %s" %
                     sorted(names))
        if names == {"evil.0"}:
            for c in self.clients:
                if c.conn is not None and set(new) & set(c.storage.oid_pool) & c.holds():
                    self.bad("foreign-oid", ("C08", "C22"), "the server stored an object under %s, "
                             "which it had given to %s" % (sorted(map(n8, new)), c.name))
            self.sim.stat("evil.applied")
            return      # (the owner had been disconnected already)
        t = self.txns.get(next(iter(names)))
        if t is None:
            self.bad("foreign-commit", ("C21",), "commit of unknown transaction %s" % names)
        if t.applied is not None:
            self.bad("applied-twice", ("C21",), "transaction %s applied twice" % t.name)
        if t.status not in ("committing", "unknown"):
            self.bad("applied-uncommitted", ("C21", "C17", "C11"),
                     "transaction %s was applied in state %s" % (t.name, t.status))
        t.applied = self.n()
        want = t.raw or {}
        if set(new) != set(want):
            self.bad("wrong-write-set", ("C21", "C12", "C13"),
                     "transaction %s stored oids %s instead of %s" % (
                         t.name, sorted(map(n8, new)), sorted(map(n8, want))))
        for oid in want:
            if new[oid] != want[oid]:
                self.bad("wrong-write", ("C21", "C13", "C23"), "transaction %s stored %d as %s not %s" % (
                    t.name, n8(oid), new[oid], want[oid]))
        for oid in sorted(new):
            for ref in objs.record_refs(records[oid]):
                if ref not in S:
                    self.bad("dangling", ("C12", "C21"), "%d refers to %d, which is not stored" % (
                        n8(oid), n8(ref)))
        prev = self.S[-2]
        for oid, c in t.reads:
            if prev.get(oid) != c:
                self.bad("not-serializable", ("C17",),
                         "transaction %s (commit %d) read %d as %s but it was %s just before" % (
                             t.name, self.n(), n8(oid), c, prev.get(oid)))
        self.sim.stat("commit.applied")

    def reach(self, j):
        r = self.reach_cache.get(j)
        if r is None:
            R = self.R[j]
            r = set()
            todo = [Z]
            while todo:
                o = todo.pop()
                if o in r or o not in R:
                    continue
                r.add(o)
                todo.extend(objs.record_refs(R[o]))
            self.reach_cache[j] = r
        return r

    def maybe_removed(self, oid, base):
        if self.asked == 0 and self.pack_failed == 0:
            return False
        return any(oid not in self.reach(j) for j in range(max(0, base), self.n() + 1))

    def oid_made(self, oid):
        oid = bytes(oid)
        if self.incarnation == 0:
            return
        if oid in self.oids and self.oids[oid] == self.incarnation and oid not in self.freed():
            self.bad("oid-issued-twice", ("C08",), "storage issued %d twice" % n8(oid))
        if oid in self.reach(self.n()):
            self.bad("oid-in-use", ("C08",), "storage issued %d, which is reachable" % n8(oid))
        self.oids[oid] = self.incarnation

    def freed(self):
        """Oids that a collection may have removed: they may be given out again."""
        if self.asked == 0:
            return ()
        live = self.reach(self.n())
        return set(o for o in self.S[-1] if o not in live)

    # ---- collections
    def pack_asked(self):
        self.asked += 1
        n = self.cfg["gcbytes"]
        self.sim.ev("pack asked", self.bytes_low)
        upper = self.bytes_upper
        if not (0 < n <= upper):
            # It has not started by itself.  (Where it may have, it uses up no request: one may
            # be on its way.)
            self.ordered += 1
            if self.requested < self.ordered:
                if n == 0:
                    self.bad("gc-unasked", ("C25",), "a collection started without threshold or request")
                self.bad("gc-early", ("C25",), "a collection started after at most %d bytes, "
                         "threshold %d" % (upper, n))
        self.sim.stat("pack.asked")

    @property
    def bytes_upper(self):
        return self.bytes_low * 2 + 200 * (self.n() + 1)

    def pack_started(self):
        self.started += 1
        self.pack_base = self.n()
        self.sim.stat("pack.started")

    def pack_step(self):
        if self.pack_base is not None and self.n() > self.pack_base:
            self.sim.stat("commit.during_pack")

    def pack_done(self, n):
        if n == 0:
            self.bad("gc-refused", ("C25", "C07"), "a collection was asked for and does nothing")
            return
        self.done += 1
        self.bytes_low = 0
        self.sim.stat("pack.finished")
        self.sim.ev("pack done")
        if self.pack_base is not None:
            dead = set(self.S[self.pack_base])
            dead -= self.reach(self.pack_base)
            for j in range(self.pack_base + 1, self.n() + 1):
                # what was committed meanwhile stays, with all that it leads to
                dead -= self.reach(j)
                dead -= reach_of(self.R[j], self.touched[j])
            self.last_garbage |= dead
            self.sim.ev("garbage", self.pack_base, sorted(map(n8, dead)))
        self.pack_base = None

    # ---- the server
    def start_server(self):
        from durus.storage_server import StorageServer
        self.incarnation += 1
        proc = Proc("server%d" % self.incarnation)
        self.server_proc = proc
        fs = self.fs
        proc.on_death.append(lambda: fs.kill_proc(proc))
        fs.faults = self.fs_fault
        self.pack_base = None

        def body():
            self.sim.cur.ctx = proc.name
            st = self.open_storage()
            rec = Recorder(self, st)
            server = StorageServer(rec, address=self.address, gcbytes=self.cfg["gcbytes"])
            self.check_restart(st)
            self.bytes_low = 0
            server.serve()
        self.server_actor = self.sim.spawn(proc.name, body, proc)

    def open_storage(self):
        q, self.quiet = self.quiet, True
        full, self.fs.outage = self.fs.outage, None
        try:
            try:
                return self.K(MAIN)
            except Exception as e:
                if self.kind == "sqlite":
                    self.bad("crash-unopenable", ("C24", "C01"), "open raised %r at %s" % (e, where(e)))
                e0 = "%r at %s" % (e, where(e))
                simfs.CUR.kill_proc(self.sim.cur.proc)
            try:
                self.sim.stat("crash.repair_used")
                return self.K(MAIN, repair=True)
            except Exception as e:
                self.bad("crash-unopenable", ("C24", "C01"), "open raised %s, with repair %r at %s" % (
                    e0, e, where(e)))
        finally:
            self.quiet = q
            self.fs.outage = full

    def contents(self, st):
        out = {}
        for oid, rec in st.gen_oid_record():
            out[bytes(oid)] = bytes(rec)
        return out

    def differs(self, got, R, live):
        for oid in sorted(live):
            if oid not in got:
                return "oid %d missing" % n8(oid)
            if got[oid] != R[oid]:
                return "oid %d is %s instead of %s" % (n8(oid), objs.canon_record(got[oid]),
                                                        objs.canon_record(R[oid]))
        for oid in sorted(got):
            if oid not in R or got[oid] != R[oid]:
                return "oid %d is %s instead of %s" % (
                    n8(oid), objs.canon_record(got[oid]), R.get(oid) and objs.canon_record(R[oid]))
        return None

    def check_restart(self, st):
        q, self.quiet = self.quiet, True
        got = self.contents(st)
        why = self.differs(got, self.R[-1], self.reach(self.n()))
        if why is not None and self.inflight:
            R2 = dict(self.R[-1])
            R2.update(self.inflight)
            keep = len(self.S)
            infl, self.inflight = self.inflight, None
            why2 = None
            live2 = reach_of(R2)
            why2 = self.differs(got, R2, live2)
            if why2 is None:
                self.sim.stat("crash.inflight_applied")
                soft = self.soft
                self.applied(infl)
                self.soft = soft or self.n()
                why = None
        self.inflight = None
        if why is not None and self.soft:
            # The last commits (from this one on) were in flight in earlier crashes, have never been
            # acknowledged and had not reached the disk: they may go.
            for j in range(self.n() - 1, self.soft - 2, -1):
                why2 = self.differs(got, self.R[j], self.reach(j))
                if why2 is None:
                    while self.n() > j:
                        self.revert()
                    why = None
                    break
        if why is not None:
            self.bad("restart-lost", ("C24", "C01", "C02"),
                     "after restart %d the contents are not those of commit %d: %s" % (
                         self.restarts, self.n(), why))
        self.quiet = q

    def revert(self):
        self.sim.stat("crash.soft_commit_lost")
        self.sim.ev("commit gone", self.n())
        self.reach_cache.pop(self.n(), None)
        for name in self.by[-1]:
            if name in self.txns:
                self.txns[name].applied = None
                self.txns[name].status = "gone"
        for x in (self.S, self.R, self.by, self.touched):
            x.pop()
        if self.soft > self.n():
            self.soft = None
        for c in self.clients:
            c.floor = min(c.floor, self.n())

    def supervise(self):
        """Restarts a server that was killed; one that ended by itself is a violation."""
        sim = self.sim
        while True:
            a = self.server_actor
            sim.block("supervise", lambda: a.done or a.proc.dead or self.stop_all)
            if self.stop_all:
                return
            sim.block("server end", lambda: a.done)
            if not a.proc.dead:
                self.server_ended(a)
                sim.kill(a.proc)
            self.restarts += 1
            sim.stat("crash.recovered")
            sim.stat("server.restarted")
            self.reboot()
            sim.sleep(sim.pick("downtime", 3) * 2.0)
            self.start_server()

    def server_ended(self, a):
        e = a.error
        if isinstance(e, OSError) and "get_listening_socket" in where(e):
            self.sim.stat("server.no_start")
            return
        self.bad("server-ended", ("C22",), "the server ended by itself: %r at %s" % (
            e, where(e) if e is not None else "return"))

    def reboot(self):
        """What the file system holds when the machine (or just the process) comes back."""
        v = self.sim.decide("image", lambda r: r.getrandbits(30)) or 0
        r = random.Random(v)
        if self.pack_base is not None:
            self.pack_base = None
            self.pack_failed += 1
        if v != 0 and r.random() < 0.5:
            self.sim.stat("fault.power_loss")
            self.last_garbage = set()
            img = self.fs.clone(r)
            img.yield_points = False
            self.fs = img
            simfs.use(img)
        else:
            self.sim.stat("fault.process_crash")

    def admin(self, ops):
        """Kills the server at decided moments."""
        sim = self.sim
        sim.cur.ctx = "adm"
        for op in ops:
            sim.cur.ctx = "adm%d" % op["u"]
            r = random.Random(op["r"])
            sim.sleep(r.choice([0.0005, 0.005, 0.05, 0.5, 3.0]) * r.random() * 2)
            if self.final:
                break
            if op["k"] == "skill":
                p = self.server_proc
                if not p.dead:
                    sim.stat("fault.kill.server")
                    sim.kill(p)
            elif op["k"] == "diskfull":
                self.fs.outage = [r.choice([errno.ENOSPC, errno.EIO]), -1]
                self.fs_faults += 1
                sim.stat("outage.set")
                sim.sleep(r.random() * 2)
                self.fs.outage = None

    def bad(self, kind, props, detail):
        self.sim.violate(kind, props, detail)

    # ---- running
    def run(self):
        sim = self.sim
        self.setup()
        by = {}
        for op in self.plan["ops"]:
            if op["k"] == "evil":
                by.setdefault("e%d" % (op["c"] % 2), []).append(op)
            elif op["k"] in ("skill", "diskfull"):
                by.setdefault("adm", []).append(op)
            elif op["k"] == "raw":
                by.setdefault("r", []).append(op)
            else:
                by.setdefault("c%d" % op["c"], []).append(op)
        self.quiet = False
        self.start_server()
        sim.spawn("sup", self.supervise)
        self.left = 0
        for name in sorted(by):
            ops = by[name]
            if name[0] == "e":
                self.go(name, Evil(self, name, ops).run)
            elif name == "adm":
                self.go(name, lambda ops=ops: self.admin(ops))
            elif name == "r":
                self.go(name, Raw(self, name, ops).run)
            else:
                c = self.client(name, int(name[1:]))
                self.go(name, lambda c=c, ops=ops: c.run(ops))
        sim.spawn("judge", self.judge)
        reason = sim.run()
        if reason == "blocked":
            self.bad("blocked", ("C22", "C23"), "nobody can go on: %s" % ", ".join(sim.stuck))
        if reason == "steps":
            self.bad("endless", ("C22", "C25"), "no end after %d steps%s" % (
                sim.max_steps, " although faults stopped" if self.final else ""))
        for a in sim.actors:
            if a.error is not None and not a.proc.dead and a.name[:6] != "server":
                if isinstance(a.error, Exception):
                    raise a.error
                raise HarnessError("%s: %r %s" % (a.name, a.error, tb(a.error)))
        # the server is gone now: the file holds everything
        sim.cur.ctx = "fin"
        self.quiet = True
        fin = Proc("fin")
        sim.cur.proc = fin
        self.reboot_final()
        st = self.open_storage()
        self.check_restart(st)
        left = set(self.contents(st))
        st.close()
        stay = self.last_garbage & left - self.reach(self.n())
        for oid in sorted(stay):
            self.bad("gc-left", ("C25",), "a finished collection left %d, garbage at its start" % n8(oid))

    def reboot_final(self):
        self.fs.kill_proc(self.server_proc)

    def client(self, name, index):
        return Client(self, name, index)

    def go(self, name, fn):
        self.left += 1

        def body():
            self.sim.cur.ctx = name
            try:
                fn()
            finally:
                if not self.sim.stopping:
                    self.left -= 1
        p = Proc(name)
        return self.sim.spawn(name, body, p)

    def judge(self):
        """When everyone is finished and faults have stopped, a healthy client must get through."""
        sim = self.sim
        sim.cur.ctx = "judge"
        sim.block("work", lambda: self.left == 0)
        self.final = True
        self.quiet = True
        self.fs.outage = None
        sim.ev("faults stop")
        if self.server_proc.dead:
            sim.block("restart", lambda: not self.server_proc.dead)
        waiting = len(self.net.open_sockets(self.server_proc))
        bound = 12.0 * (waiting + 2) + 10
        t0 = sim.now
        c = self.client("cz", len(self.cfg["cache"]) - 1)
        try:
            c.healthy()
        except (SimKilled, SimStop, Violation):
            raise
        except Exception as e:
            self.bad("unhealthy", ("C22", "C24"), "a healthy client failed: %r at %s" % (e, where(e)))
        if sim.now - t0 > bound:
            self.bad("slow", ("C22",), "a healthy client needed %.1f s" % (sim.now - t0))
        # idle time: collections complete, dropped clients go away
        n = self.cfg["gcbytes"]
        sim.sleep(40)
        if n and self.bytes_low >= n and not self.fs_faults:
            self.bad("gc-missing", ("C25",), "%d bytes were committed since the last collection, "
                     "threshold %d, and the server is idle" % (self.bytes_low, n))
        if self.pack_base is not None:
            self.bad("gc-unfinished", ("C25",), "a collection does not complete on an idle server")
        for s in self.net.open_sockets(self.server_proc):
            if s.state == "connected" and (s.peer.state == "closed"):
                self.bad("leak", ("C22",), "the server keeps a connection whose client is gone")
        c.close()
        self.stop_all = True
        sim.kill(self.server_proc)


def reach_of(R, roots=(Z,)):
    r = set()
    todo = list(roots)
    while todo:
        o = todo.pop()
        if o in r or o not in R:
            continue
        r.add(o)
        todo.extend(objs.record_refs(R[o]))
    return r


def tb(e):
    import traceback
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]


def st_as(rec):
    from durus.storage import Storage

    class S(Storage):
        def __init__(self):
            pass
        load = staticmethod(rec.load)
        begin = staticmethod(rec.begin)
        store = staticmethod(rec.store)
        end = staticmethod(rec.end)
        sync = staticmethod(rec.sync)
        new_oid = staticmethod(rec.new_oid)
    return S()


def hash_canon(S):
    import hashlib
    h = hashlib.blake2b(digest_size=8)
    for o in sorted(S):
        h.update(o)
        h.update(repr(S[o]).encode())
    return h.hexdigest()


NET_ERRORS = (OSError, AssertionError)


class Lost(Exception):
    """The connection of a client is gone."""


class Client(object):
    def __init__(self, world, name, index):
        self.w = world
        self.sim = world.sim
        self.name = name
        self.index = index
        self.conn = None
        self.storage = None
        self.ntok = 0
        self.ntxn = 0
        self.txn = None
        self.floor = 0          # never goes back behind this state
        self.life = 0
        self.proc = None

    # ---- connection
    def connect(self):
        from durus.client_storage import ClientStorage
        from durus.connection import Connection
        from durus.error import ProtocolError, ConflictError
        w, sim = self.w, self.sim
        for attempt in range(60):
            base = w.n()
            st = None
            self.incarnation = w.incarnation
            try:
                st = ClientStorage(address=w.address)
                st.oid_pool_size = w.cfg["pool"]
                self.storage = st
                self.watch_oids(st)
                self.conn = Connection(st, cache_size=w.cfg["cache"][self.index])
                self.begin(base, base)
                sim.stat("client.connected")
                return
            except NET_ERRORS as e:
                self.drop()
            except ConflictError as e:
                # the root was changed again and again while we loaded it
                sim.stat("connect.conflict")
                self.drop()
            except ProtocolError as e:
                w.bad("protocol", ("C23",), "%s: %r while connecting" % (self.name, e))
            sim.sleep(1.0)
        raise Lost("cannot connect")

    def watch_oids(self, st):
        real_new = st.new_oid

        def new_oid():
            oid = real_new()
            self.got_oid(bytes(oid))
            return oid
        st.new_oid = new_oid
        real_end = st.end

        def end(handle_invalidations=None):
            # The new objects have their identifiers now (a failing commit takes them back).
            if self.txn.status == "committing":
                self.txn.raw = self.expected_records(self.txn)
            return real_end(handle_invalidations)
        st.end = end

    def got_oid(self, oid):
        w = self.w
        if self.incarnation != w.incarnation:
            return      # from a server that is gone: it cannot be used
        if oid in w.reach(w.n()):
            w.bad("oid-in-use", ("C08",), "%s got identifier %d, which is reachable" % (self.name, n8(oid)))
        for c in w.clients:
            if c is not self and c.conn is not None and oid in c.holds():
                w.bad("oid-issued-twice", ("C08",), "%s and %s both got identifier %d" % (
                    self.name, c.name, n8(oid)))
        if self.conn is not None:
            obj = self.conn.cache.get(oid)
            if obj is not None and not obj._p_is_ghost():
                w.bad("oid-cached", ("C08",), "%s got identifier %d, which it has cached" % (
                    self.name, n8(oid)))

    def holds(self):
        """Identifiers this client may still use for new objects."""
        st = self.storage
        if st is None or self.incarnation != self.w.incarnation:
            return set()
        other = st.s.peer
        if other is None or other.state == "closed":
            return set()        # the server has dropped this client
        return set(map(bytes, list(st.oid_pool) + [
            o for o in st.transaction_new_oids if o not in self.w.S[-1]]))

    def drop(self):
        st, self.storage, self.conn = self.storage, None, None
        if st is not None:
            try:
                st.s.close()
            except OSError:
                pass
        if self.txn is not None and self.txn.status == "open":
            self.txn.status = "dropped"
        self.txn = None

    def close(self):
        if self.storage is not None:
            try:
                self.storage.close()
            except OSError:
                pass
            self.storage = self.conn = None

    # ---- transactions
    def begin(self, base, lo):
        self.ntxn += 1
        name = "%s_%d.%d" % (self.name, self.life, self.ntxn)
        lo = max(lo, self.floor)
        self.txn = t = Txn(self, name, lo, base)
        self.w.txns[name] = t
        t.cand = None
        self.root = None

    def token(self):
        self.ntok += 1
        return "%s.%d" % (self.txn.name, self.ntok)

    def boundary_passed(self, base, lo):
        t = self.txn
        if t.cand:
            self.floor = max(self.floor, min(t.cand))
        self.begin(base, lo)

    def candidates(self, t):
        n = self.w.n()
        if t.cand is None:
            t.cand = list(range(t.lo, n + 1))
            t.seen_n = n
        elif t.seen_n < n:
            S = self.w.S
            for j in range(t.seen_n + 1, n + 1):
                if all(S[j].get(o) == c for o, c in t.reads):
                    t.cand.append(j)
            t.seen_n = n
        return t.cand

    def read(self, obj):
        """Read everything in obj, as an application does."""
        from durus.error import ConflictError
        t, w = self.txn, self.w
        oid = obj._p_oid
        if oid is not None:
            t.accessed.add(bytes(oid))
        self.loading = bytes(oid) if oid is not None else None
        c = objs.canon_live(obj)
        self.loading = None
        if id(obj) in t.writes:
            want = self.canon_expected(t, obj)
            if c != want:
                w.bad("own-write-lost", ("C15", "C13"), "%s reads its own change of %s as %s not %s" % (
                    t.name, oid and n8(oid), c, want))
            return c
        if oid is None:
            raise HarnessError("unsaved object not in writes")
        oid = bytes(oid)
        self.sim.ev("read", n8(oid), c)
        if t.readset.get(oid) == c:
            return c
        if oid in t.readset:
            w.bad("unstable-read", ("C18",), "%s reads %d as %s and then as %s" % (
                t.name, n8(oid), t.readset[oid], c))
        cand = self.candidates(t)
        t.reads.append((oid, c))
        t.readset[oid] = c
        S = w.S
        new = [j for j in cand if S[j].get(oid) == c]
        if not new:
            self.explain(t, oid, c, cand)
        t.cand[:] = new
        self.sim.stat("reads")
        return c

    def explain(self, t, oid, c, cand):
        w = self.w
        S = w.S
        have = [j for j in range(w.n() + 1) if S[j].get(oid) == c]
        if not have:
            w.bad("wrong-data", ("C23", "C18"), "%s reads %d as %s, which was never committed" % (
                t.name, n8(oid), c))
        if max(have) < t.lo:
            props = ("C19",) if w.acked > max(have) else ("C21", "C19")
            w.bad("stale-read", props + ("C17", "C18"),
                  "%s began after commit %d (acknowledged %d) and reads %d as of commit %s" % (
                      t.name, t.lo, w.acked, n8(oid), have[-1]))
        w.bad("mixed-read", ("C18", "C17"),
              "%s reads %d as of commits %s; its other reads are of commits %s: %s" % (
                  t.name, n8(oid), have[-5:], cand[-5:],
                  [(n8(o), x) for o, x in t.reads][-6:]))

    def right_error(self, e, what):
        """Reading and committing have an error each, which names objects."""
        from durus.error import ReadConflictError, WriteConflictError, ConflictError
        if isinstance(e, ConflictError):
            if not isinstance(e, WriteConflictError if what == "commit" else ReadConflictError) or not e.oids:
                self.w.bad("wrong-error", ("C20", "C17", "C18"), "%s got %s with oids %r in %s" % (
                    self.txn.name, type(e).__name__, e.oids, what))

    def conflict(self, e, what):
        """A conflict was reported: is there one?"""
        w, t = self.w, self.txn
        self.sim.stat("conflict")
        self.sim.ev("conflict", what, type(e).__name__)
        seen = set(t.accessed)
        if self.loading:
            seen.add(self.loading)
        for o in (getattr(e, "oids", None) or ()):
            if what == "crawl":
                seen.add(bytes(o))
        if isinstance(e, KeyError) and e.args and isinstance(e.args[0], bytes):
            seen.add(bytes(e.args[0]))
        self.right_error(e, what)
        mine = t.name.rsplit(".", 1)[0]
        changed = set()
        for j in range(t.base + 1, w.n() + 1):
            if any(nm.rsplit(".", 1)[0] == mine for nm in w.by[j]):
                continue
            changed |= w.touched[j]
        if seen & changed:
            for o in (getattr(e, "oids", None) or ()):
                # (whom the error blames)
                o = bytes(o)
                if not (o in seen and o in changed or w.maybe_removed(o, t.base)):
                    w.bad("false-conflict", ("C20",), "%s got %r in %s, which names %d: it accessed %s, "
                          "others changed %s since commit %d" % (t.name, e, what, n8(o), sorted(map(n8, seen)),
                                                                 sorted(map(n8, changed)), t.base))
            return
        for o in sorted(seen):
            if w.maybe_removed(o, t.base):
                self.sim.stat("conflict.removed")
                return
        w.bad("false-conflict", ("C20",),
              "%s got %r in %s; it accessed %s, others changed %s since commit %d" % (
                  t.name, e, what, sorted(map(n8, seen)), sorted(map(n8, changed)), t.base))

    # ---- what a transaction should store
    def canon_expected(self, t, obj):
        e = t.expect[id(obj)]
        if e[0] == "dict":
            return (obj.__class__.__name__, objs.canon_value(e[1]))
        return (obj.__class__.__name__, e[1], objs.canon_value(e[2]))

    def expected_records(self, t):
        todo = [o for o in t.writes.values() if id(o) not in t.new]
        seen = set()
        out = {}
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            out[bytes(o._p_oid or b"none")] = self.canon_expected(t, o)
            e = t.expect[id(o)]
            kids = e[1].values() if e[0] == "dict" else e[2]
            for k in kids:
                if id(k) in t.new:
                    todo.append(k)
        return out

    # ---- operations
    def run(self, ops):
        sim = self.sim
        sim.cur.ctx = self.name
        self.w.clients.append(self)
        self.proc = sim.cur.proc
        me = self
        rest = list(ops)

        def died():
            # the machine starts the client again
            if me.w.sim.stopping:
                return
            w = me.w
            me.storage = me.conn = None
            if me.txn is not None and me.txn.status in ("committing",):
                me.txn.status = "unknown"
            elif me.txn is not None:
                me.txn.status = "dropped"
            w.clients.remove(me)
            sim.stat("fault.kill.client")
            c = w.client(me.name, me.index)
            c.life = me.life + 1
            c.ntok = me.ntok
            todo = list(rest)
            if todo:
                w.go(me.name + "x", lambda: c.run(todo))
        self.proc.on_death.append(died)
        while rest:
            op = rest.pop(0)
            sim.cur.ctx = "%s.%d" % (self.name, op["u"])
            self.op = op
            rng = random.Random(op["r"])
            try:
                self.step(op, rng)
            except Lost:
                break
        if self.proc.on_death:
            self.proc.on_death.remove(died)
        r = sim.pick("leave", 3)
        if r == 1:
            self.close()
        elif r == 2:
            self.drop()
        if self in self.w.clients and self.storage is None:
            self.w.clients.remove(self)

    def step(self, op, rng):
        from durus.error import ConflictError, ProtocolError
        sim, w = self.sim, self.w
        if op["k"] == "pause":
            sim.sleep(rng.choice([0.001, 0.05, 1.0, 12.0]) * rng.random())
            return
        if op["k"] == "leave":
            if rng.random() < 0.5:
                self.close()
            else:
                self.drop()
            return
        if op["k"] == "ckill":
            sim.kill(self.proc)
            sim.check_alive()
        if self.conn is None:
            self.connect()
        self.loading = None
        sim.stat("op." + op["k"])
        what = op["k"]
        try:
            getattr(self, "op_" + op["k"])(rng)
        except (ConflictError, KeyError) as e:
            if isinstance(e, KeyError) and not isinstance(e.args[0], bytes):
                raise
            self.conflict(e, self.phase)
            if self.txn.status == "committing":
                self.txn.status = "conflict"
                if self.txn.applied is not None:
                    w.bad("conflict-applied", ("C17", "C12"), "%s got %r but is applied" % (
                        self.txn.name, e))
            e = None
            self.abort_after()
        except ProtocolError as e:
            w.bad("protocol", ("C23",), "%s: %r" % (self.name, e))
        except NET_ERRORS as e:
            if isinstance(e, AssertionError) and not self.broken():
                w.bad("assertion", ("C08", "C12", "C15", "C17", "C18", "C20", "C23"), "%s: %r at %s" % (self.name, e, where(e)))
            sim.stat("client.io_error")
            sim.ev("io error", type(e).__name__)
            if not self.broken() and not w.fs_faults and not self.stalled():
                w.bad("refused", ("C22", "C23"), "%s: %r at %s without any fault" % (
                    self.name, e, where(e)))
            if self.txn is not None and self.txn.status == "committing":
                self.txn.status = "unknown"
            e = None
            self.drop()

    def stalled(self):
        return True if self.w.cfg["p_stall"] or self.w.cfg["p_delay"] else False

    def broken(self):
        """Has anything happened that may break this connection?"""
        c = self.w.cfg
        return (c["p_reset"] or c["p_ckill"] or c["p_skill"] or c["p_accept"] or c["p_fskill"] or
                self.w.restarts or self.w.server_proc.dead)

    def abort_after(self):
        self.phase = "abort"
        try:
            self.do_abort()
        except NET_ERRORS as e:
            e = None
            self.drop()

    def do_abort(self):
        w = self.w
        base = w.n()
        self.phase = "abort"
        if self.txn.status == "open":
            self.txn.status = "aborting"
        self.conn.abort()
        self.sim.ev("aborted")
        if self.txn.status == "aborting":
            self.txn.status = "aborted"
        self.boundary_passed(base, base)

    def do_commit(self):
        w, t = self.w, self.txn
        base = w.n()
        writing = any(id(o) not in t.new for o in t.writes.values())
        self.phase = "commit"
        t.status = "committing" if writing else "reading"
        self.sim.ev("commit", t.name, len(t.writes))
        self.conn.commit()
        self.sim.ev("committed")
        if writing:
            if t.applied is None:
                w.bad("ack-unapplied", ("C21", "C24", "C17"), "%s was acknowledged and is not applied" % t.name)
            t.status = "committed"
            w.acked = max(w.acked, t.applied)
            self.sim.stat("commit.acked")
            self.boundary_passed(base, max(base, t.applied))
        else:
            t.status = "committed"
            self.boundary_passed(base, base)

    def op_txn(self, rng):
        """Walk, read, change, then commit, abort or go on."""
        t = self.txn
        self.phase = "work"
        n = rng.choice([1, 1, 2, 3, 5])
        seen = []
        for i in range(n):
            self.action(rng, seen)
        x = rng.random()
        if x < 0.7:
            if rng.random() < 0.1:
                self.sim.sleep(rng.random() * 0.1)
            self.do_commit()
        elif x < 0.85:
            self.do_abort()
        else:
            self.sim.stat("txn.open")
        del seen[:]

    def walk(self, rng, seen):
        """Some object, found from the root."""
        root = self.conn.get_root()
        self.read(root)
        keys = sorted(k for k in root.keys() if k != "#")
        cur = root
        if keys and rng.random() < 0.95:
            cur = root[rng.choice(keys)]
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                self.read(cur)
                kids = cur.kids
                if not kids:
                    break
                cur = rng.choice(kids)
        return cur

    def kids_of(self, obj):
        return list(obj.kids)

    def note(self, obj, tok, kids):
        t = self.txn
        t.writes[id(obj)] = obj
        t.expect[id(obj)] = ("cell", tok, list(kids))
        if obj._p_oid is not None:
            t.accessed.add(bytes(obj._p_oid))

    def write_cell(self, obj, kids=None):
        """Give obj a new version."""
        t = self.txn
        tok = self.token()
        self.loading = bytes(obj._p_oid) if obj._p_oid is not None else None
        if obj._p_oid is not None:
            t.accessed.add(bytes(obj._p_oid))
        known = id(obj) in t.writes
        obj.tok = tok
        if kids is None:
            # a blind write keeps the other attribute: that is a read of it
            kids = list(obj.kids)
            if not known and obj._p_oid is not None and bytes(obj._p_oid) not in t.readset:
                self.blind(obj, kids)
        else:
            obj.kids = list(kids)
        self.loading = None
        self.note(obj, tok, kids)

    def blind(self, obj, kids):
        self.sim.stat("blind_write")

    def action(self, rng, seen):
        t = self.txn
        conn = self.conn
        x = rng.random()
        if x < 0.06:
            self.sim.sleep(rng.random() * rng.choice([0.001, 0.02, 0.5]))
            return
        if x < 0.10:
            conn.shrink_cache()
            self.sim.stat("shrink")
            return
        if x < 0.14:
            del seen[:]
            return
        if x < 0.19:
            self.crawl(rng)
            return
        obj = self.walk(rng, seen)
        root = conn.get_root()
        if obj is root:
            if rng.random() < 0.5:
                self.write_root(rng, None)
            return
        if x < 0.45:
            self.read(obj)
            seen.append(obj)
        elif x < 0.65:
            if rng.random() < 0.8:
                self.read(obj)
            self.write_cell(obj)
        elif x < 0.78:
            # a new object
            self.read(obj)
            kid = self.make(rng, seen)
            ks = self.kids_of(obj)
            if len(ks) > 4 or rng.random() < 0.3:
                ks = [k for k in ks if rng.random() < 0.6]
            self.write_cell(obj, ks + [kid])
        elif x < 0.88:
            # unlink
            self.read(obj)
            ks = self.kids_of(obj)
            if ks:
                ks.pop(rng.randrange(len(ks)))
            self.write_cell(obj, ks)
        elif x < 0.94 and seen:
            # link something that was read in this transaction
            self.read(obj)
            other = rng.choice(seen)
            self.write_cell(obj, self.kids_of(obj)[:4] + [other])
        else:
            self.write_root(rng, seen)

    def make(self, rng, seen):
        t = self.txn
        klass = objs.Slot if self.w.cfg["slots"] and rng.random() < 0.5 else objs.Cell
        tok = self.token()
        kids = [rng.choice(seen)] if seen and rng.random() < 0.3 else []
        obj = klass(tok, kids)
        t.new[id(obj)] = obj
        self.note(obj, tok, kids)
        if rng.random() < 0.2:
            # a new object that is never linked must not be stored
            return self.make(rng, seen)
        return obj

    def write_root(self, rng, seen):
        t = self.txn
        root = self.conn.get_root()
        self.read(root)
        cur = dict(root.items())
        key = "c%d" % rng.randrange(6)
        tok = self.token()
        x = rng.random()
        if x < 0.4:
            v = self.make(rng, seen or [])
            root[key] = v
            cur[key] = v
        elif x < 0.6 and key in cur and len(cur) > 2:
            del root[key]
            del cur[key]
        root["#"] = tok
        cur["#"] = tok
        t.writes[id(root)] = root
        t.expect[id(root)] = ("dict", cur)
        t.accessed.add(Z)

    def crawl(self, rng):
        w, t = self.w, self.txn
        if t.writes:
            return
        self.phase = "crawl"
        seen = []
        stop = rng.random() < 0.3
        for obj in self.conn.get_crawler(batch_size=rng.choice([1, 2, 3, 100])):
            oid = bytes(obj._p_oid)
            if oid in seen:
                w.bad("crawl-twice", ("C26",), "%s: crawling yields %d twice" % (t.name, n8(oid)))
            seen.append(oid)
            if obj._p_is_ghost():
                w.bad("crawl-ghost", ("C26",), "%s: crawling yields %d as a ghost" % (t.name, n8(oid)))
            self.read(obj)
            if stop and rng.random() < 0.3:
                self.sim.stat("crawl.partial")
                self.phase = "work"
                return
        self.phase = "work"
        cand = self.candidates(t)
        if not any(w.reach(j) == set(seen) for j in cand):
            j = cand[-1]
            w.bad("crawl-incomplete", ("C26", "C23"), "%s: crawling gives %s, reachable %s" % (
                t.name, sorted(map(n8, seen)), sorted(map(n8, w.reach(j)))))
        self.sim.stat("crawl.complete")

    def op_crawl(self, rng):
        self.phase = "work"
        self.crawl(rng)

    def op_gc(self, rng):
        """Ask for a collection."""
        w = self.w
        self.phase = "gc"
        w.requested += 1
        base = w.n()
        self.txn.status = "aborting" if self.txn.status == "open" else self.txn.status
        self.conn.abort()
        self.boundary_passed(base, base)
        self.storage.pack()
        self.sim.stat("gc.requested")

    def op_commit(self, rng):
        self.do_commit()

    def op_abort(self, rng):
        self.do_abort()

    def healthy(self):
        """The work of a client that nothing disturbs any more."""
        w, sim = self.w, self.sim
        w.clients.append(self)
        from durus.error import ConflictError
        for attempt in range(4):
            try:
                self.connect()
                self.phase = "work"
                self.loading = None
                self.everything()
                self.ntok += 1
                root = self.conn.get_root()
                self.write_root(random.Random(attempt), None)
                self.do_commit()
                self.everything()
                return
            except ConflictError as e:
                self.conflict(e, self.phase)
                self.do_abort()
        w.bad("unhealthy", ("C22", "C20"), "a client that works alone does not get through")

    def everything(self):
        w = self.w
        seen = set()
        todo = [self.conn.get_root()]
        while todo:
            o = todo.pop()
            if o._p_oid in seen:
                continue
            seen.add(bytes(o._p_oid))
            self.read(o)
            if o._p_oid == Z:
                todo.extend(v for k, v in sorted(o.items()) if k != "#")
            else:
                todo.extend(o.kids)
        if seen != w.reach(w.n()):
            w.bad("final-incomplete", ("C21", "C24", "C05"), "reachable %s instead of %s" % (
                sorted(map(n8, seen)), sorted(map(n8, w.reach(w.n())))))


class Raw(object):
    """A client that uses ClientStorage directly: every reply is checked on its own."""
    def __init__(self, world, name, ops):
        self.w, self.name, self.ops = world, name, ops
        self.sim = world.sim
        self.st = None
        self.n = 0
        self.oids = []

    def run(self):
        from durus.error import ProtocolError
        sim, w = self.sim, self.w
        for op in self.ops:
            sim.cur.ctx = "r.%d" % op["u"]
            rng = random.Random(op["r"])
            try:
                if self.st is None and not self.connect():
                    return
                for _ in range(rng.choice([1, 2, 4])):
                    self.step(rng)
            except ProtocolError as e:
                w.bad("protocol", ("C23",), "raw client: %r" % (e,))
            except OSError as e:
                sim.stat("raw.io_error")
                e = None
                self.drop()
            if rng.random() < 0.2:
                sim.sleep(rng.random() * 0.05)
        if self.st is not None:
            self.drop()

    def drop(self):
        st, self.st = self.st, None
        if getattr(self, "t", None) is not None and self.t.status == "committing":
            self.t.status = "unknown"
        try:
            st.s.close()
        except OSError:
            pass

    def connect(self):
        from durus.client_storage import ClientStorage
        for i in range(60):
            try:
                self.lo = self.hi = self.w.n()
                self.incarnation = self.w.incarnation
                self.st = ClientStorage(address=self.w.address)
                self.st.oid_pool_size = self.w.cfg["pool"]
                self.hi = self.w.n()
                self.removed_base = self.lo
                return True
            except NET_ERRORS:
                self.sim.sleep(1.0)
        return False

    def touched(self, a, b):
        out = set()
        for j in range(a + 1, b + 1):
            if not any(x.startswith("r_") for x in self.w.by[j]):
                out |= self.w.touched[j]
        return out

    def pick(self, rng):
        w = self.w
        pool = sorted(w.S[-1])
        if rng.random() < 0.15:
            return i8(rng.choice([10 ** 6, 2 ** 40, len(pool) + 500]))
        return rng.choice(pool)

    def check_load(self, oid, rec, a, z):
        """rec (or an exception class name) is the answer about oid; a, z: commits before/after."""
        w = self.w
        told = self.touched(self.hi, a)          # surely invalid
        may = self.touched(self.lo, z)
        if isinstance(rec, str):
            if rec == "conflict":
                if oid not in may and not w.maybe_removed(oid, self.lo):
                    w.bad("false-conflict", ("C23", "C20"), "load(%d) was refused as invalid" % n8(oid))
            else:
                if oid in w.S[-1] and not w.maybe_removed(oid, 0):
                    w.bad("lost-object", ("C23", "C05"), "load(%d) says there is none" % n8(oid))
            return
        rec = bytes(rec)
        if oid in told:
            w.bad("stale-load", ("C18", "C23"), "load(%d) succeeds although it was changed since "
                  "the last sync" % n8(oid))
        if not any(w.R[j].get(oid) == rec for j in range(self.lo, w.n() + 1)):
            w.bad("wrong-data", ("C23",), "load(%d) gave %r" % (n8(oid), rec[:40]))
        self.sim.stat("raw.loads")

    def step(self, rng):
        from durus.error import ReadConflictError, ConflictError
        w, st, sim = self.w, self.st, self.sim
        x = rng.random()
        if x < 0.25:
            oid = self.pick(rng)
            a = w.n()
            try:
                r = st.load(oid)
            except ReadConflictError:
                r = "conflict"
            except KeyError:
                r = "missing"
            self.check_load(oid, r, a, w.n())
        elif x < 0.5:
            oids = [self.pick(rng) for _ in range(rng.choice([1, 2, 3, 6, 20]))]
            a = w.n()
            got = []
            err = None
            try:
                for r in st.bulk_load(list(oids)):
                    got.append(bytes(r))
            except ReadConflictError as e:
                err = ("conflict", bytes(e.oids[0]))
            except KeyError as e:
                err = ("missing", bytes(e.args[0]))
            z = w.n()
            if err is None and len(got) != len(oids):
                w.bad("bulk-count", ("C23",), "bulk_load of %d gives %d" % (len(oids), len(got)))
            for oid, r in zip(oids, got):
                if r[:8] != oid:
                    w.bad("wrong-data", ("C23",), "bulk_load answers %d with %d" % (n8(oid), n8(r[:8])))
                self.check_load(oid, r, a, z)
            if err is not None:
                if err[1] not in oids:
                    w.bad("wrong-error", ("C23",), "bulk_load names %d, not asked for" % n8(err[1]))
                self.check_load(err[1], err[0], a, z)
                sim.stat("raw.bulk_error")
        elif x < 0.65:
            n = rng.choice([1, 3, 40])
            for _ in range(n):
                oid = bytes(st.new_oid())
                if len(oid) != 8:
                    w.bad("wrong-data", ("C23",), "new_oid gave %r" % oid)
                if self.incarnation != w.incarnation:
                    continue        # from a server that is gone
                if oid in w.reach(w.n()):
                    w.bad("oid-in-use", ("C08", "C23"), "raw client got %d, which is reachable" % n8(oid))
                for c in w.clients:
                    if c.conn is not None and oid in c.holds():
                        w.bad("oid-issued-twice", ("C08", "C23"), "raw client and %s both got %d" % (
                            c.name, n8(oid)))
            sim.stat("raw.oids")
        elif x < 0.85:
            self.sync()
        else:
            self.commit(rng)

    def sync(self):
        w = self.w
        a = w.n()
        got = set(map(bytes, self.st.sync()))
        z = w.n()
        self.told(got, a, z)

    def told(self, got, a, z):
        w = self.w
        must = self.touched(self.hi, a)
        may = self.touched(self.lo, z)
        for oid in sorted(must - got):
            w.bad("not-told", ("C19", "C23", "C21"), "sync does not report %d, changed in commits %d..%d" % (
                n8(oid), self.hi + 1, a))
        for oid in sorted(got - may):
            if not w.maybe_removed(oid, 0):
                w.bad("told-wrong", ("C20", "C23"), "sync reports %d, which nobody changed" % n8(oid))
        self.lo, self.hi = a, z
        self.sim.stat("raw.syncs")

    def commit(self, rng):
        """Store a new version of an existing object."""
        from durus.error import ConflictError, WriteConflictError
        w, st = self.w, self.st
        pool = sorted(o for o in w.reach(w.n()) if o != Z and w.S[-1][o][0] == "Cell")
        if not pool:
            return
        self.sync()
        oid = rng.choice(sorted(o for o in pool))
        base = w.n()
        try:
            rec = bytes(st.load(oid))
        except (ConflictError, KeyError):
            return
        _, klass, state, refs = objs.split(rec)
        if klass is not objs.Cell:
            return
        self.n += 1
        t = Txn(self, "r_%d.%d" % (0, self.n), base, base)
        w.txns[t.name] = t
        self.t = t
        tok = "%s.%d" % (t.name, 1)
        kidmap = w.S[-1]
        pairs = [(k.oid, klass_of(kidmap.get(k.oid))) for k in state["kids"]]
        new = objs.make_cell_record(oid, tok, pairs)
        t.raw = {oid: objs.canon_record(new)}
        t.reads.append((oid, objs.canon_record(rec)))
        t.status = "committing"
        seen = []
        a = w.n()

        def invalid(oids):
            seen.extend(map(bytes, oids))
            if oid in seen:
                raise WriteConflictError(oids)
        st.begin()
        st.store(oid, new)
        try:
            st.end(invalid)
        except ConflictError:
            t.status = "conflict"
            self.told(set(seen), a, w.n())
            self.sim.stat("raw.conflict")
            return
        if t.applied is None:
            w.bad("ack-unapplied", ("C21", "C23"), "raw commit was acknowledged and is not applied")
        t.status = "committed"
        w.acked = max(w.acked, t.applied)
        k = t.applied
        must = self.touched(self.hi, a)
        for o in sorted(must - set(seen)):
            w.bad("not-told", ("C19", "C23", "C21"), "commit does not report %d" % n8(o))
        self.lo = self.hi = k
        self.sim.stat("raw.commits")


def klass_of(canon):
    return {"Slot": objs.Slot, "Cell": objs.Cell}.get(canon and canon[0], objs.Cell)


class Evil(object):
    """Peers that break the protocol (never with a well-formed commit or quit request)."""
    def __init__(self, world, name, ops):
        self.w, self.name, self.ops = world, name, ops
        self.sim = world.sim

    def run(self):
        import socket
        sim = self.sim
        for op in self.ops:
            sim.cur.ctx = "%s.%d" % (self.name, op["u"])
            r = random.Random(op["r"])
            sim.sleep(r.random() * r.choice([0.001, 0.05, 1.0]))
            try:
                self.attack(r)
            except (OSError, ValueError):
                sim.stat("evil.io_error")

    def attack(self, r):
        from durus.storage_server import SocketAddress
        sim = self.sim
        s = SocketAddress.new(self.w.address).get_connected_socket()
        if s is None:
            return
        s.settimeout(30)
        kind = r.choice(["nothing", "hello", "garbage", "load", "bulk", "oids", "commit", "noread",
                         "version", "hang", "foreign"])
        sim.stat("evil." + kind)
        sim.stat("fault.hostile." + kind)
        if r.random() < 0.5 and kind not in ("nothing", "version"):
            s.sendall(b"V\0\0\0\1")
            if r.random() < 0.7:
                s.recv(4)
        if kind == "hello":
            s.sendall(b"V"[:r.randrange(2)] + b"\0" * r.randrange(4))
        elif kind == "version":
            s.sendall(b"V" + bytes(r.randrange(256) for _ in range(4)))
        elif kind == "garbage":
            ok = [c for c in range(256) if chr(c) not in "QPCV"]
            s.sendall(bytes(r.choice(ok) for _ in range(r.choice([1, 2, 20]))))
        elif kind == "load":
            s.sendall(b"L" + bytes(r.choice([0, 0, 255]) for _ in range(r.choice([0, 3, 7, 8]))))
        elif kind == "bulk":
            n = r.choice([0, 1, 3, 2 ** 31, 2 ** 32 - 1])
            s.sendall(b"B" + n.to_bytes(4, "big")[:r.choice([2, 4, 4, 4])])
            s.sendall(b"\0" * r.choice([0, 5, 8, 24]))
        elif kind == "oids":
            for _ in range(r.choice([1, 4])):
                s.sendall(b"M" + bytes([r.choice([0, 1, 32, 255])]) + b"N")
        elif kind == "noread":
            for _ in range(40):
                s.sendall(b"L" + Z)
        elif kind in ("commit", "foreign"):
            s.sendall(b"C")
            if r.random() < 0.8:
                s.recv(4)
            x = r.random()
            if kind == "foreign":
                # a commit that uses an identifier given to somebody else
                h = sorted(o for c in self.w.clients if c.conn is not None and
                           c.incarnation == self.w.incarnation for o in c.storage.oid_pool)
                if not h:
                    s.sendall(b"\0\0\0\0")
                else:
                    rec = objs.make_cell_record(r.choice(h), "evil.0.0", [])
                    body = (len(rec) + 8).to_bytes(4, "big") + rec[:8] + rec
                    s.sendall(len(body).to_bytes(4, "big") + body)
            elif x < 0.3:
                s.sendall((1000).to_bytes(4, "big") + b"\0" * r.choice([0, 1, 500]))
            elif x < 0.5:
                s.sendall((2 ** 32 - 1).to_bytes(4, "big") + b"x" * 10)
            elif x < 0.7:
                body = (60).to_bytes(4, "big") + bytes(r.randrange(256) for _ in range(20))
                s.sendall(len(body).to_bytes(4, "big") + body)
            elif x < 0.85:
                body = bytes(r.randrange(1, 4))
                s.sendall(len(body).to_bytes(4, "big") + body)
            else:
                rec = Z + b"\0\0\0\3abc"
                body = (len(rec) + 8).to_bytes(4, "big") + Z + rec + b"\0\0\0\x50" + Z
                s.sendall(len(body).to_bytes(4, "big") + body)
        x = r.random()
        if x < 0.3:
            sim.sleep(r.choice([0.01, 1.0, 15.0]))
        if x < 0.15:
            try:
                s.recv(1000)
            except OSError:
                pass
        if x < 0.9:
            s.close()
        else:
            # vanish: the socket stays open, nothing is ever sent
            self.keep = getattr(self, "keep", [])
            self.keep.append(s)


def run(sim, plan):
    w = World(sim, plan)
    try:
        w.run()
    finally:
        simnet.use(None)
