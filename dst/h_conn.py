"""One application's connection: object operations, transactions, evictions, failed commits,
another client's commits (through a real server), traversals, computed attributes.

The model holds plain Python values: com is the committed content of every stored object; each
side (connection) has the content at its last boundary (base), its pending changes (pend) and the
content of its objects that are not stored yet (fresh).
"""
import errno
import gc
import os
import random
import sys
import types
import weakref

import simfs
import simnet
from core import Sim, SimKilled, SimStop, Proc, Violation, HarnessError
from connops import R, X, dcopy, canon, refs, KINDS, SLOTS, is_read
import connops
from h_storage import MAIN, Z, i8, n8, io_error, klass as storage_class

COLLECTS = True
STOREKINDS = ["bag", "kbag", "slot", "slot2", "slot3", "mixed", "owner", "dict", "list", "set", "btree"]
IDENTITY = ("bag", "kbag", "slot", "slot2", "slot3", "mixed", "owner", "comp")
CLASSNAME = {"bag": "Bag", "kbag": "Kbag", "slot": "Slotted", "slot2": "Slotted2", "slot3": "Private",
             "mixed": "Mixed",
             "owner": "Bag", "comp": "Comp", "dict": "PersistentDict", "list": "PersistentList",
             "set": "PersistentSet", "btree": "BTree"}
CONTENT = ("C11", "C12", "C13", "C15")
SIDES = {"A": 0, "B": 1}


def generate(rng, prof):
    w = dict(prof["ops"])
    for k in list(w):
        if k not in ("mut", "commit"):
            w[k] = w[k] * rng.choice([0, 0.5, 1, 1, 2])
    kind = rng.choice(prof["kinds"])
    if kind[:6] != "client":
        w["b"] = 0
    cfg = {
        "kind": kind,
        "cache": rng.choice(prof.get("cache", [1, 2, 3, 5, 10, 100, 100000])),
        "objects": rng.choice([0, 3, 6, 12]),
        "kinds": sorted(rng.sample(STOREKINDS, rng.choice([2, 3, 5, 10]))) if not prof.get("only")
        else sorted(prof["only"]),
        "seed": rng.getrandbits(30),
        "p_err": prof.get("p_err", 0.0) * rng.choice([0, 1, 1, 3]),
        "p_rerr": prof.get("p_rerr", 0.0) * rng.choice([0, 0, 1, 2]),
        "p_short": prof.get("p_short", 0.0) * rng.choice([0, 1, 2]),
        "increment": rng.choice([1, 2, 20]),
        "loglevel": rng.choice([10, 20, 50]),
        "gc": rng.choice([0, 0.1, 0.5]),
        "pin": rng.choice([0, 0.2, 0.6]),
        "fresh": rng.choice([0.1, 0.3]),
        "span": rng.choice([12, 40, 90]),
    }
    names = sorted(w)
    weights = [w[k] for k in names]
    ops = []
    for i in range(rng.choice(prof.get("lengths", [8, 16, 30, 60]))):
        k = rng.choices(names, weights)[0]
        ops.append({"u": i + 1, "k": k, "r": rng.getrandbits(30)})
    return {"h": "conn", "cfg": cfg, "ops": ops}


class Raised(Exception):
    """The durus call raised e, of the given sort: conflict, io, api."""
    def __init__(self, sort, e):
        self.sort = sort
        self.e = e


class M(object):
    def __init__(self, mid, kind):
        self.mid = mid
        self.kind = kind
        self.oid = None
        self.owner = None
        self.ktype = 0


class Side(object):
    def __init__(self, name, conn, storage, base):
        self.name = name
        self.conn = conn
        self.storage = storage
        self.base = dict(base)
        self.pend = {}
        self.mut = set()
        self.fresh = {}
        self.pins = {}
        self.wrefs = {}
        self.ids = {}
        self.dirty = set()          # changed by the other side since our boundary (at most)
        self.sure = set()           # (at least)
        self.alts = {}              # contents the other side committed since our boundary
        self.touched = set()
        self.read = set()
        self.why = {}
        self.have = {}
        self.crawl = None
        self.moved = False
        self.xtree = False          # something that cannot be stored got into a tree
        self.log = None             # records of the commit under way
        self.xs = []

    def content(self, mid):
        if mid in self.fresh:
            return self.fresh[mid]
        if mid in self.pend:
            return self.pend[mid]
        return self.base.get(mid)

    def knows(self, mid):
        return mid in self.fresh or mid in self.base


class Run(object):
    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.cfg = plan["cfg"]
        self.kind = self.cfg["kind"]
        self.ms = {}
        self.com = {}
        self.bym = {}               # oid -> mid
        self.rec = {}               # oid -> committed record
        self.dead = set()
        self.gone_oids = set()      # packed away: may be used again
        self.version = 0
        self.packs = 0
        self.history = {}           # oid -> [(version, record)]
        self.quiet = True
        self.faulted = 0
        self.fault_left = 0
        self.reading = False
        self.sides = {}
        self.server = None
        self.disk = None
        self.foreign = None
        self.trace = []
        import connobjs
        self.co = connobjs
        import durus.error
        self.err = durus.error
        from durus.persistent import PersistentObject
        self.PO = PersistentObject
        import durus.btree
        self.BNode = durus.btree.BNode

    # ---- environment
    def setup(self):
        import logging
        sim, cfg = self.sim, self.cfg
        logging.getLogger("durus").setLevel(cfg["loglevel"])
        simfs.BUFFER_SIZE = 8192
        self.fs = simfs.FS(sim)
        self.fs.yield_points = False
        self.fs.faults = self.fs_fault
        simfs.use(self.fs)
        self.net = simnet.Net(sim)
        self.net.faults = self.net_fault
        simnet.use(self.net)
        self.local = self.kind[:6] != "client"
        self.skind = self.kind if self.local else self.kind[7:]
        self.K = None if self.skind == "memory" else storage_class(self.skind)
        if self.K is not None and hasattr(self.K, "_PACK_INCREMENT"):
            self.K._PACK_INCREMENT = cfg["increment"]
        sim.max_steps = 400000

    def open_disk(self):
        if self.K is None:
            from durus.storage import MemoryStorage
            return MemoryStorage()
        return self.K(MAIN)

    def start(self):
        from durus.connection import Connection
        self.disk = self.open_disk()
        if not self.local:
            conn = Connection(self.disk)
            del conn
            from durus.storage_server import StorageServer
            self.address = ("host", 2972) if self.cfg["seed"] % 2 else "/simfs/sock"
            proc = Proc("server")
            self.server_proc = proc

            def body():
                self.sim.cur.ctx = "server"
                StorageServer(self.disk, address=self.address, gcbytes=0).serve()
            self.server = self.sim.spawn("server", body, proc)
            self.sim.sleep(1)
        self.connect("A")
        m = self.new_m("dict")
        m.oid = Z
        self.bym[Z] = m.mid
        self.com[m.mid] = {}
        self.rec[Z] = bytes(self.disk.load(Z))
        self.history[Z] = [(0, self.rec[Z])]
        A = self.sides["A"]
        A.base = dict(self.com)
        self.got(A, m.mid, A.conn.get_root())

    def connect(self, name):
        from durus.connection import Connection
        if self.local:
            st = self.disk
        else:
            from durus.client_storage import ClientStorage
            for i in range(50):
                try:
                    st = ClientStorage(address=self.address)
                    break
                except (AssertionError, OSError):
                    self.sim.sleep(0.2)
            else:
                raise HarnessError("no connection to the server")
        size = self.cfg["cache"] if name == "A" else 100000
        conn = Connection(st, cache_size=size)
        s = Side(name, conn, st, self.com)
        if 0 in self.com:
            self.got(s, 0, conn.get_root())
        self.watch(s)
        self.sides[name] = s
        return s

    def watch(self, s):
        st = s.storage
        store = st.store
        while hasattr(store, "_inner"):
            store = store._inner

        def logged(oid, record):
            if s.log is not None:
                s.log.append((bytes(oid), bytes(record)))
            return store(oid, record)
        logged._inner = store
        st.store = logged

    def net_fault(self, call, sock, nbytes):
        p = self.cfg["p_short"]
        if self.quiet or (not p and not self.sim.replay):
            return None

        def gen(r):
            if r.random() < p and nbytes > 1 and call in ("send", "recv"):
                return {"short": r.choice([1, 2, 3, r.randrange(1, nbytes)])}
            return None
        return self.sim.decide("net." + call, gen)

    def fs_fault(self, call, path, nbytes):
        if self.quiet or not self.fault_left:
            return None
        p = self.cfg["p_rerr"] if self.reading else self.cfg["p_err"]
        if not p and not self.sim.replay:
            return None
        mutating = call not in ("stat", "read", "flock", "open")
        if call in ("stat", "flock") or (mutating and self.reading) or (not mutating and not self.reading):
            return None

        def gen(r):
            if r.random() < p:
                d = {"err": r.choice([errno.ENOSPC, errno.EIO]) if mutating else errno.EIO}
                if call == "write" and r.random() < 0.5:
                    d["short"] = r.randrange(0, max(1, nbytes))
                return d
            return None
        f = self.sim.decide("fs." + call, gen)
        if f is not None:
            self.faulted += 1
            self.fault_left -= 1
        return f

    def bad(self, kind, props, detail):
        self.sim.violate(kind, props, detail)

    def tr(self, *parts):
        s = " ".join(map(str, parts))
        self.trace.append(s)
        self.sim.ev(s)

    # ---- model helpers
    def new_m(self, kind):
        m = M(len(self.ms), kind)
        self.ms[m.mid] = m
        return m

    def reach(self, s, content=None, start=(0,)):
        content = content or s.content
        seen = set()
        todo = list(start)
        while todo:
            mid = todo.pop()
            if mid in seen:
                continue
            seen.add(mid)
            c = content(mid)
            if c is None:
                if self.ms[mid].kind != "comp":
                    raise HarnessError("model: %d is reachable and unknown" % mid)
                continue
            todo.extend(r.mid for r in refs(c) if isinstance(r, R))
        return seen

    def describe(self, mid):
        m = self.ms[mid]
        return "%s %d (oid %s)" % (m.kind, mid, m.oid and n8(m.oid))

    # ---- live objects
    def call(self, s, fn, *args):
        """Call into durus for side s."""
        before = self.faulted
        try:
            return fn(*args)
        except (Violation, HarnessError, SimKilled, SimStop):
            raise
        except self.err.ConflictError as e:
            raise Raised("conflict", e)
        except Raised:
            raise
        except Exception as e:
            if io_error(e) and self.faulted > before:
                raise Raised("io", e)
            raise Raised("api", e)

    def surprise(self, s, r, what, props=CONTENT):
        """A call that should have worked raised: decide whether it may have."""
        e = r.e
        if r.sort == "conflict":
            if type(e) is not self.err.ReadConflictError:
                self.bad("wrong-error", ("C12", "C15", "C05"), "%s: %s raised %r" % (s.name, what, e))
            if s.dirty:
                self.sim.stat("conflict")
                self.tr(s.name, "conflict in", what, type(e).__name__)
                return
            self.bad("conflict-baseless", ("C12", "C15", "C05"), "%s: %s in %s: %r, although nobody "
                     "else committed" % (s.name, type(e).__name__, what, e))
        if r.sort == "io":
            self.tr(s.name, "io error in", what)
            return
        self.bad("raised", props, "%s: %s raised %r at %s" % (s.name, what, e, where(e)))

    def got(self, s, mid, o):
        m = self.ms[mid]
        w = s.wrefs.get(mid)
        cur = w and w()
        if cur is not None and cur is not o:
            self.bad("two-instances", ("C15",), "%s: two live instances of %s" % (
                s.name, self.describe(mid)))
        if type(o).__name__ != CLASSNAME[m.kind]:
            self.bad("wrong-class", ("C15", "C13"), "%s: %s is a %s" % (
                s.name, self.describe(mid), type(o).__name__))
        if cur is None:
            s.wrefs[mid] = weakref.ref(o)
        if m.oid is not None and mid not in s.fresh:
            if bytes(o._p_oid or b"") != m.oid or o._p_connection is not s.conn:
                self.bad("wrong-identity", ("C15", "C12"), "%s: %s has _p_oid %r and connection %s" % (
                    s.name, self.describe(mid), o._p_oid, o._p_connection is s.conn))
        return o

    def mid_of(self, s, o):
        oid = o._p_oid
        if oid is not None and o._p_connection is s.conn:
            mid = self.bym.get(bytes(oid))
            if mid is None:
                mid = s.ids.get(id(o))
                if mid is None:
                    self.bad("stranger", ("C12", "C15"), "%s: a reference to an object with oid %d that was "
                             "never stored" % (s.name, n8(oid)))
                return mid
            self.got(s, mid, o)
            return mid
        if oid is not None:
            return None
        mid = s.ids.get(id(o))
        if mid is None:
            self.bad("stranger", ("C12", "C15"), "%s: a reference to %s, which has no oid and is not an "
                     "object this application made" % (s.name, type(o).__name__))
        return mid

    def canon_live(self, s, v):
        if isinstance(v, self.PO):
            mid = self.mid_of(s, v)
            return ("R", mid) if mid is not None else ("X", "foreign")
        if isinstance(v, Bad):
            return ("X", "bad")
        if isinstance(v, types.FunctionType):
            return ("X", "lambda")
        if isinstance(v, dict):
            return ("dict", tuple(sorted(((self.canon_live(s, k), self.canon_live(s, x))
                                          for k, x in v.items()), key=repr)))
        if isinstance(v, (set, frozenset)):
            return ("set", tuple(sorted((self.canon_live(s, x) for x in v), key=repr)))
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, tuple(self.canon_live(s, x) for x in v))
        return (type(v).__name__, v)

    def canon_result(self, s, v):
        """Like canon_live, but new containers (results of operators) count as plain ones."""
        if isinstance(v, self.PO) and v._p_oid is None and id(v) not in s.ids:
            n = type(v).__name__
            v = dict(v.items()) if n == "PersistentDict" else list(v) if n == "PersistentList" else set(v)
        if isinstance(v, tuple):
            return ("tuple", tuple(self.canon_result(s, x) for x in v))
        return self.canon_live(s, v)

    def live(self, s, v):
        """The live value for model value v (in side s)."""
        if isinstance(v, R):
            return self.obj(s, v.mid)
        if isinstance(v, X):
            return v.live
        if isinstance(v, dict):
            return dict((k, self.live(s, x)) for k, x in v.items())
        if isinstance(v, list):
            return [self.live(s, x) for x in v]
        if isinstance(v, tuple):
            return tuple(self.live(s, x) for x in v)
        if isinstance(v, set):
            return set(self.live(s, x) for x in v)
        return v

    def obj(self, s, mid, rng=None):
        """The live object of mid; raises Raised."""
        o = s.pins.get(mid)
        m = self.ms[mid]
        if o is not None and (mid in s.fresh or rng is None or rng.random() < 0.6):
            return self.got(s, mid, o)
        if rng is not None and not s.dirty and rng.random() < 0.6:
            p = self.path(s, mid)
            if p is not None:
                return self.walk(s, p, mid)
        if mid in s.fresh:
            raise HarnessError("fresh object without a pin")
        key = m.oid
        if rng is not None and rng.random() < 0.3:
            key = n8(m.oid)
        o = self.call(s, s.conn.get if rng is None or rng.random() < 0.7 else s.conn.__getitem__, key)
        if o is None:
            self.bad("lost-object", CONTENT + ("C05",), "%s: get() finds no object for %s, which is stored"
                     % (s.name, self.describe(mid)))
        s.touched.add(mid)
        return self.got(s, mid, self.stale(s, mid, o))

    def stale(self, s, mid, o):
        """get() may find the ghost of a removed object whose oid was used again (a test of the
        repository expects it), until a reference to the new object is loaded."""
        m = self.ms[mid]
        if (m.oid in self.gone_oids and type(o).__name__ != CLASSNAME[m.kind] and
                s.conn.get_cache().get(m.oid) is o and o._p_is_ghost()):
            self.sim.stat("stale ghost")
            o = s.conn.get_cache().get_instance(m.oid, self.klass(m.oid), s.conn)
        return o

    def has_read(self, s, mid):
        """The application read mid, unless it may be the other side's later state."""
        if self.ms[mid].kind == "btree" and mid in s.pend:
            return      # (a tree that was cleared has no node in common with what the others see)
        if mid not in s.dirty or mid in s.pend:
            s.read.add(mid)

    def path(self, s, target):
        """Access steps [(mid, steps)] from the root to target, or None."""
        prev = {0: None}
        todo = [0]
        while todo:
            nxt = []
            for mid in todo:
                if mid == target:
                    out = []
                    while prev[mid] is not None:
                        p, steps = prev[mid]
                        out.append((p, steps, mid))
                        mid = p
                    return out[::-1]
                c = s.content(mid)
                if c is None:
                    continue
                for steps, ref in accesses(c):
                    if ref.mid not in prev:
                        prev[ref.mid] = (mid, steps)
                        nxt.append(ref.mid)
            todo = nxt
        return None

    def walk(self, s, path, target):
        o = self.call(s, s.conn.get_root)
        self.got(s, 0, o)
        for mid, steps, child in path:
            kind = self.ms[mid].kind
            s.touched.add(mid)

            def go(o=o):
                x = o
                for i, k in enumerate(steps):
                    if i == 0 and kind in IDENTITY:
                        x = getattr(x, k)
                    elif isinstance(x, (set,)) or (i == 0 and kind == "set"):
                        for y in x:
                            if self.contains(s, y, child):
                                x = y
                                break
                        else:
                            return None
                    else:
                        x = x[k]
                    if isinstance(x, self.PO):
                        return x
                return x
            try:
                nxt = self.call(s, go)
            except Raised as r:
                if r.sort != "api":
                    raise
                self.bad("read-wrong", self.tags(s, mid), "%s: following %r in %s raised %r at %s" % (
                    s.name, steps, self.describe(mid), r.e, where(r.e)))
            if isinstance(nxt, tuple):
                nxt = next((y for y in flat(nxt) if isinstance(y, self.PO)
                            and self.mid_of(s, y) == child), None)
            if not isinstance(nxt, self.PO) or self.mid_of(s, nxt) != child:
                self.bad("read-wrong", self.tags(s, mid), "%s: %r of %s is %r, not %s" % (
                    s.name, steps, self.describe(mid), nxt, self.describe(child)))
            if kind != "btree":
                s.read.add(mid)
            o = nxt
        s.touched.add(target)
        return self.got(s, target, o)

    def contains(self, s, y, child):
        return any(isinstance(z, self.PO) and self.mid_of(s, z) == child for z in flat((y,)))

    def tags(self, s, mid):
        why = set(s.why.get(mid, ()))
        if self.ms[mid].kind == "btree":
            why.add("C14")
        if self.ms[mid].kind in ("comp", "owner"):
            why.add("C28")
        if not why - {"C14", "C28"}:
            why |= set(CONTENT)
        return tuple(sorted(why))

    def blame(self, s, mid, tag):
        s.why.setdefault(mid, set()).add(tag)

    def blame_all(self, s, tag):
        for mid in s.base:
            s.why.setdefault(mid, set()).add(tag)

    # ---- reading
    def dump(self, o, kind, style, names):
        if kind in ("bag", "kbag", "owner"):
            if style == 0:
                return dict(o.__dict__)
            if style == 1:
                return dict(o.__getstate__())
            out = dict((n, getattr(o, n)) for n in names if n in o.__dict__)
            for n in o.__dict__:
                if n not in out:
                    out[n] = getattr(o, n)
            return out
        if kind in ("slot", "slot2", "slot3", "mixed"):
            if style == 1:
                return dict(o.__getstate__())
            out = {}
            for n in SLOTS["slot2" if kind == "mixed" else kind]:
                if hasattr(o, n):
                    out[n] = getattr(o, n)
            if kind == "mixed":
                out.update(o.__dict__)
            return out
        if kind == "dict":
            return (dict(o.items()) if style == 0 else dict((k, o[k]) for k in o) if style == 1 else
                    dict(zip(o.keys(), o.values())))
        if kind == "list":
            return (list(o) if style == 0 else [o[i] for i in range(len(o))] if style == 1 else o[:])
        if kind == "set":
            return set(o)
        if kind == "btree":
            items = list(o.items()) if style == 0 else list(o.iteritems()) if style == 1 else [
                (k, o[k]) for k in o]
            ks = [k for k, v in items]
            if ks != sorted(ks) or len(set(ks)) != len(ks) or len(o) != len(ks):
                return ("disorder", ks, len(o))
            return dict(items)
        return None

    def check(self, s, mid, rng=None, o=None):
        """Read the whole object and compare; raises Raised for conflicts and injected errors."""
        m = self.ms[mid]
        if m.kind == "comp":
            return
        if o is None:
            o = self.obj(s, mid, rng)
        s.touched.add(mid)
        style = rng.randrange(3) if rng is not None else 0
        want = s.content(mid)
        try:
            got = self.call(s, lambda: self.canon_live(s, self.dump(o, m.kind, style, sorted(want, key=repr))
                                                       if m.kind != "comp" else None))
        except Raised as r:
            if r.sort == "api":
                self.bad("read-raised", self.tags(s, mid), "%s: reading %s raised %r at %s" % (
                    s.name, self.describe(mid), r.e, where(r.e)))
            raise
        if o._p_is_ghost():
            self.bad("still-ghost", ("C15", "C16"), "%s: %s was read and is not loaded" % (
                s.name, self.describe(mid)))
        self.sim.stat("read")
        c = canon(want)
        if c not in [canon(a) for a in s.alts.get(mid, ())] and not (m.kind == "btree" and mid in s.pend):
            s.read.add(mid)
        if got != c:
            if mid in s.dirty and (
                    m.kind == "btree" if mid in s.pend else    # (some nodes ours, some the other side's)
                    got in [canon(a) for a in s.alts.get(mid, ())]):
                s.moved = True
                self.tr(s.name, "moved", mid)
                return
            self.bad("read-wrong", self.tags(s, mid), "%s: %s reads %s, expected %s" % (
                s.name, self.describe(mid), short(got), short(c)))
        s.why.pop(mid, None)
        self.tr(s.name, "read", mid, hashed(got))

    # ---- values
    def targets(self, s, identity=False):
        out = [m for m in s.fresh] + [m for m in s.base if m not in self.dead]
        if s.dirty:
            out = [m for m in out if m in s.fresh or m in s.base]
        if identity:
            out = [m for m in out if self.ms[m].kind in IDENTITY]
        return sorted(out)

    def create(self, s, rng, depth=0, identity=False):
        kinds = [k for k in self.cfg["kinds"] if not identity or k in IDENTITY] or ["bag"]
        kind = rng.choice(kinds)
        m = self.new_m(kind)
        g = Gen(self, s, depth + 1)
        co = self.co
        if kind == "dict":
            c = dict((rng.choice(connops.KEYS), g.value(rng)) for i in range(rng.randrange(3)))
        elif kind == "list":
            c = [g.hvalue(rng) for i in range(rng.randrange(4))]
        elif kind == "set":
            c = set(g.hvalue(rng) for i in range(rng.randrange(4)))
        elif kind == "btree":
            m.ktype = rng.randrange(3)
            c = dict((connops.bkey(rng, m.ktype, self.cfg["span"]), g.value(rng))
                     for i in range(rng.choice([0, 1, 5, 14])))
        elif kind == "owner":
            cm = self.new_m("comp")
            cm.owner = m.mid
            o = co.Comp()
            self.adopt(s, cm, o, None)
            c = {"n": rng.randrange(50), "comp": R(cm.mid)}
        else:
            names = SLOTS.get(kind) or ["a", "b", "n", "x"]
            c = dict((n, g.value(rng)) for n in names if rng.random() < 0.5)
        c = dcopy(c)
        lv = self.live(s, c)
        if kind == "btree":
            import durus.btree as bt
            o = co.BTree(rng.choice([bt.BNode, bt.BNode, bt.BNode4, bt.BNode16]))
            for k in c:
                o[k] = lv[k]
        elif kind in ("dict", "list", "set"):
            o = {"dict": co.Dict, "list": co.List, "set": co.Set}[kind](lv)
        else:
            o = getattr(co, CLASSNAME[kind])(**lv)
        self.adopt(s, m, o, c)
        return m.mid

    def adopt(self, s, m, o, c):
        s.fresh[m.mid] = c
        s.pins[m.mid] = o
        s.ids[id(o)] = m.mid
        s.wrefs[m.mid] = weakref.ref(o)
        self.sim.stat("object.made")

    # ---- mutations
    def settle(self, s, r, what, props=CONTENT):
        """After a conflict or an injected error: the application aborts."""
        self.surprise(s, r, what, props)
        self.abort(s)

    def mutate(self, s, rng, mid=None, reads=True):
        """One random public operation on a random object."""
        if mid is None:
            pool = [m for m in self.targets(s) if self.ms[m].kind != "comp"]
            if s.dirty:
                pool = [m for m in pool if m not in s.dirty]
            if not pool:
                return
            mid = rng.choice(pool)
            if rng.random() < 0.15 and 0 not in s.dirty:
                mid = 0
        m = self.ms[mid]
        cur = s.content(mid)
        g = Gen(self, s, 0)
        try:
            made = set(s.fresh)
            kw = {"ktype": m.ktype, "span": self.cfg["span"]} if m.kind == "btree" else \
                {"reserved": ("n", "comp")} if m.kind == "owner" else {}
            name, lf, mf = KINDS[m.kind](rng, g, cur, m.kind, **kw)
            if name == "nested" and mid in s.mut and mid not in s.fresh:
                return      # nodes that left the tree may share the value, and nobody can mark them
            o = self.obj(s, mid, rng)
        except Raised as r:
            return self.settle(s, r, "finding an object")
        new = dcopy(cur)
        s.touched.add(mid)
        # values the operation needs are resolved first: a conflict there is not the operation's
        try:
            for r0 in refs(cur):
                pass
            got, exc = None, None
            try:
                res = self.call(s, lf, o, lambda v: self.live(s, v))
                got = self.call(s, self.canon_result, s, res)
            except Raised as r:
                if r.sort != "api":
                    raise
                exc = r.e
        except Raised as r:
            return self.settle(s, r, name)
        if mf == "popitem":
            want, wexc = self.popped(new, res if exc is None else None, got, exc)
        elif mf == "setpop":
            want, wexc = None, None
            if not new:
                wexc = KeyError
            elif exc is None:
                el = [x for x in new if canon(x) == got]
                if len(el) != 1:
                    self.bad("api-result", self.tags(s, mid) + ("C13",), "%s: pop() of %s gave %s, not "
                             "an element" % (s.name, self.describe(mid), short(got)))
                new.discard(el[0])
                want = got
        else:
            want, wexc = None, None
            try:
                want = canon(mf(new))
            except Exception as e:
                wexc = type(e)
        if (exc is None) != (wexc is None) or (exc is not None and not issubclass(type(exc), wexc)):
            self.bad("api-result", tuple(set(self.tags(s, mid) + ("C13",))), "%s: %s on %s %s, expected %s" % (
                s.name, name, self.describe(mid), "raised %r at %s" % (exc, where(exc)) if exc is not None
                else "returned " + short(got), wexc.__name__ if wexc else short(want)))
        if exc is None and got != want:
            self.bad("api-result", tuple(set(self.tags(s, mid) + ("C13",))), "%s: %s on %s returned %s, "
                     "expected %s" % (s.name, name, self.describe(mid), short(got), short(want)))
        self.sim.stat("mut." + m.kind)
        self.tr(s.name, "mut", mid, name, hashed(got), exc is not None and type(exc).__name__)
        if m.kind != "btree" or len(str(want)) > 200:
            self.has_read(s, mid) if not name.startswith(("set ", "touch", "del ")) else None
        if is_read(name):
            self.forget(s, made)
            if mid in s.fresh:
                return
            return
        self.blame(s, mid, "C13")
        if mid in s.fresh:
            s.fresh[mid] = new
        else:
            s.pend[mid] = new
            s.mut.add(mid)
        self.forget(s, made)

    def forget(self, s, made):
        """Objects made for an operation that did not keep them are dropped sometimes."""

    def popped(self, new, res, got, exc):
        if not new:
            return None, KeyError
        if exc is not None:
            return None, None
        k = res[0]
        if k not in new or canon((k, new[k])) != got:
            return ("nothing",), None
        del new[k]
        return got, None

    # ---- boundaries
    def boundary(self, s):
        s.pend.clear()
        s.mut.clear()
        for mid in s.dirty:
            self.blame(s, mid, "C18")
        for mid in list(s.have):
            if mid in s.dirty:
                del s.have[mid]
        self.cached(s)
        s.base = dict(self.com)
        s.dirty.clear()
        s.alts.clear()
        s.sure.clear()
        s.touched.clear()
        s.read.clear()
        s.moved = False
        s.xtree = False
        s.xs = [x for x in s.xs if x[0] in s.fresh]

    def cached(self, s):
        """Which computed values may still be there (called wherever objects may be evicted)."""
        for mid in list(s.have):
            o = s.have[mid]()
            if o is None or o._p_is_ghost():
                del s.have[mid]

    def abort_begins(self, s):
        for mid in s.pend:
            self.blame(s, mid, "C11")
            s.have.pop(mid, None)
        for mid in s.mut:
            self.blame(s, mid, "C11")
            s.have.pop(mid, None)

    def abort(self, s):
        self.sim.stat("abort")
        self.abort_begins(s)
        try:
            self.call(s, s.conn.abort)
        except Raised as r:
            self.bad("raised", ("C11",), "%s: abort raised %r at %s" % (s.name, r.e, where(r.e)))
        self.boundary(s)
        self.tr(s.name, "abort")

    def closure(self, s):
        """Unstored objects that the next commit stores."""
        todo = [m for m in s.mut]
        new = set()
        seen = set()
        while todo:
            mid = todo.pop()
            if mid in seen:
                continue
            seen.add(mid)
            for r in refs(s.content(mid)):
                if isinstance(r, R) and r.mid in s.fresh and r.mid not in new:
                    new.add(r.mid)
                    todo.append(r.mid)
        return new

    def commit(self, s, rng, faults=True):
        """One commit; returns True when it succeeded."""
        new = self.closure(s)
        changed = set(m for m in s.pend if canon(s.pend[m]) != canon(s.base[m]))
        bad = [x for m in sorted(s.mut | new) for x in refs(s.content(m)) if isinstance(x, X)]
        must_conflict = bool(changed) and bool(s.read & s.sure)
        may_conflict = bool(s.mut) and bool(s.touched & s.dirty)
        s.log = []
        before = self.faulted
        self.fault_left = 1 if faults else 0
        exc = None
        try:
            self.call(s, s.conn.commit)
        except Raised as r:
            exc = r
        finally:
            self.fault_left = 0
        log, s.log = s.log, None
        what = "commit of %s" % sorted(s.mut)
        if exc is not None:
            e = exc.e
            self.sim.stat("commit.failed")
            self.tr(s.name, "commit fails", type(e).__name__)
            if exc.sort == "conflict":
                if type(e) is not self.err.WriteConflictError:
                    self.bad("wrong-error", ("C12", "C20"), "%s: %s raised %r" % (s.name, what, e))
                if not may_conflict:
                    self.bad("conflict-baseless", ("C12", "C20"), "%s: %s raised %r although nothing it "
                             "used was changed (touched %s, changed %s)" % (
                                 s.name, what, e, sorted(s.touched), sorted(s.dirty)))
                self.sim.stat("conflict")
            elif exc.sort == "io":
                self.sim.stat("commit.failed.io")
            elif not bad and (s.xtree or any(self.ms[m].kind == "btree" for m in s.mut) and
                              any(isinstance(x, X) for m in s.fresh for x in refs(s.content(m)))):
                s.xtree = True
                # a node that left its tree still holds what cannot be stored: only abort helps
                self.sim.stat("commit.failed.orphan")
            elif not bad:
                self.bad("commit-raised", ("C12", "C13"), "%s: %s raised %r at %s" % (
                    s.name, what, e, where(e)))
            else:
                self.sim.stat("commit.failed.state")
            self.unchanged(s, log, what)
            for mid in sorted(s.fresh):
                o = s.pins[mid]
                if o._p_oid is not None or o._p_connection is not None:
                    self.bad("half-stored", ("C12",), "%s: after a failed commit, new %s keeps oid %r" % (
                        s.name, self.describe(mid), o._p_oid))
            for mid in s.mut:
                self.blame(s, mid, "C12")
            if exc.sort == "conflict" or not bad and s.xtree:
                self.abort(s)
            return False
        if bad:
            self.bad("commit-accepted", ("C12",), "%s: %s succeeded although it includes %r" % (
                s.name, what, bad))
        if must_conflict:
            self.bad("conflict-missed", ("C17", "C12"), "%s: %s succeeded although %s changed" % (
                s.name, what, sorted(s.read & s.sure)))
        self.sim.stat("commit.ok")
        if self.faulted > before:
            self.sim.stat("commit.despite-fault")
        if any(self.ms[m].kind == "btree" for m in s.mut):
            # a node that left its tree may be stored with what was only there
            oids = set(oid for oid, record in log)
            new |= set(m for m in s.fresh if s.pins[m]._p_oid is not None and bytes(s.pins[m]._p_oid) in oids)
        # every new object is stored now
        for mid in sorted(new):
            o = s.pins[mid]
            if o._p_oid is None:
                self.bad("not-stored", ("C13", "C12"), "%s: %s made %s reachable but it has no oid" % (
                    s.name, what, self.describe(mid)))
            oid = bytes(o._p_oid)
            if oid in self.bym:
                self.bad("oid-twice", ("C08",), "oid %d is given to %s and %s" % (
                    n8(oid), self.describe(self.bym[oid]), self.describe(mid)))
            self.ms[mid].oid = oid
        for mid in sorted(new):
            self.bym[self.ms[mid].oid] = mid
        stored = {}
        for oid, record in log:
            if oid in stored and stored[oid] != record:
                self.bad("stored-twice", ("C13",), "%s: %s stores oid %d twice" % (s.name, what, n8(oid)))
            stored[oid] = record
        must = set(self.ms[m].oid for m in changed | new if self.ms[m].kind != "btree")
        must |= set(self.ms[m].oid for m in new)
        may = set(self.ms[m].oid for m in s.mut | new)
        trees = [m for m in s.mut | new if self.ms[m].kind == "btree"]
        for oid in sorted(must):
            if oid not in stored:
                self.bad("not-stored", ("C13", "C12"), "%s: %s does not store %s" % (
                    s.name, what, self.describe(self.bym[oid])))
        for oid in sorted(stored):
            if oid not in may:
                k = record_class(stored[oid])
                if trees and k.startswith("BNode"):
                    continue
                self.bad("stored-extra", ("C13", "C11", "C28"), "%s: %s stores %s (a %s), which was not "
                         "changed" % (s.name, what, self.describe(self.bym[oid]) if oid in self.bym
                                      else n8(oid), k))
        # the model moves on
        for mid in sorted(changed | new):
            self.com[mid] = dcopy(s.content(mid))
        for oid, record in stored.items():
            self.rec[oid] = record
            self.history.setdefault(oid, []).append((self.version + 1, record))
        if stored:
            self.version += 1
        for oid in sorted(stored):
            for ref in record_refs(stored[oid]):
                if ref not in self.rec:
                    self.bad("dangling", ("C12", "C13"), "%s: %s stores oid %d with a reference to %d, "
                             "which is not stored" % (s.name, what, n8(oid), n8(ref)))
            self.tr("stored", n8(oid), hashed(stored[oid]))
        for mid in new:
            s.fresh.pop(mid)
            s.ids.pop(id(s.pins[mid]), None)
            if rng.random() >= self.cfg["pin"]:
                del s.pins[mid]
        touched = set(s.mut)
        content_changed = set(m for m in touched if m in changed)
        touched = set(m for m in touched if self.ms[m].kind == "btree" or self.ms[m].oid in stored)
        self.boundary(s)
        for mid in touched | new:
            self.blame(s, mid, "C13")
            self.blame(s, mid, "C12")
        for t in self.sides.values():
            if t is not s:
                t.dirty |= touched
                for mid in touched:
                    t.alts.setdefault(mid, []).append(self.com[mid])
                t.sure |= content_changed
        self.on_disk(s, stored, trees, what)
        self.tr(s.name, "commit", len(stored))
        return True

    def hush(self):
        q, self.quiet = self.quiet, True
        return q

    def unchanged(self, s, log, what):
        q = self.hush()
        live = self.rec_reach()
        for oid in sorted(live):
            try:
                r = bytes(self.disk.load(oid))
            except Exception as e:
                self.bad("failed-commit-changed", ("C12", "C04"), "%s: after the failed %s loading %d raised %r"
                         % (s.name, what, n8(oid), e))
            if r != self.rec[oid]:
                self.bad("failed-commit-changed", ("C12", "C04"), "%s: the failed %s changed the stored state "
                         "of oid %d" % (s.name, what, n8(oid)))
        for oid in sorted(set(o for o, r in log)):
            if oid in self.rec:
                continue
            try:
                self.disk.load(oid)
            except KeyError:
                continue
            self.bad("failed-commit-changed", ("C12", "C04"), "%s: the failed %s stored oid %d" % (
                s.name, what, n8(oid)))
        self.quiet = q

    def rec_reach(self):
        seen = set()
        todo = [Z]
        while todo:
            oid = todo.pop()
            if oid in seen:
                continue
            seen.add(oid)
            todo.extend(record_refs(self.rec[oid]))
        return seen

    def on_disk(self, s, stored, trees, what):
        """The stored records, read back and decoded, hold the committed content."""
        q = self.hush()
        for oid in sorted(stored):
            try:
                r = bytes(self.disk.load(oid))
            except Exception as e:
                self.bad("not-on-disk", ("C13", "C12"), "%s: after %s loading %d raised %r" % (
                    s.name, what, n8(oid), e))
            if r != stored[oid]:
                self.bad("not-on-disk", ("C13", "C12"), "%s: after %s oid %d holds other bytes" % (
                    s.name, what, n8(oid)))
            mid = self.bym.get(oid)
            if mid is None:
                continue
            kind = self.ms[mid].kind
            if kind in ("btree", "comp"):
                continue
            got = decode(self, stored[oid])
            want = canon(self.com[mid])
            if got != want:
                self.bad("stored-wrong", ("C13", "C11", "C15"), "%s: %s stored %s as %s, expected %s" % (
                    s.name, what, self.describe(mid), short(got), short(want)))
        if trees:
            F = self.observer()
            for mid in sorted(trees):
                self.blame(F, mid, "C13")
                self.check(F, mid)
        self.quiet = q

    def observer(self):
        from durus.connection import Connection
        try:
            conn = Connection(self.disk)
        except Exception as e:
            self.bad("fresh-raised", ("C13", "C12"), "a fresh connection raised %r at %s" % (e, where(e)))
        F = Side("F", conn, self.disk, self.com)
        self.got(F, 0, conn.get_root())
        return F

    def op_fresh(self, s, rng):
        """A fresh connection sees exactly the committed contents."""
        q = self.hush()
        F = self.observer()
        for mid in sorted(self.reach(F)):
            for t in ("C13", "C12"):
                self.blame(F, mid, t)
            try:
                self.check(F, mid, rng if rng.random() < 0.5 else None)
            except Raised as r:
                self.bad("fresh-raised", ("C13", "C12"), "a fresh connection cannot read %s: %r" % (
                    self.describe(mid), r.e))
        self.quiet = q

    # ---- operations
    def op_mut(self, s, rng):
        for i in range(rng.choice([1, 1, 2, 4])):
            self.mutate(s, rng)
            if s.moved:
                return self.abort(s)

    def op_link(self, s, rng):
        """A new object (or an old one) under the root."""
        if 0 in s.dirty:
            return
        pool = [m for m in self.targets(s) if m != 0]
        try:
            if pool and rng.random() < 0.4:
                mid = rng.choice(pool)
            else:
                mid = self.create(s, rng)
            root = self.obj(s, 0)
            o = self.obj(s, mid)
            k = rng.choice(connops.KEYS)
            self.call(s, lambda: root.__setitem__(k, o))
        except Raised as r:
            return self.settle(s, r, "linking")
        self.changed(s, 0, lambda c: c.__setitem__(k, R(mid)))
        self.tr(s.name, "link", mid)

    def changed(self, s, mid, f):
        new = dcopy(s.content(mid))
        f(new)
        s.touched.add(mid)
        self.blame(s, mid, "C13")
        if mid in s.fresh:
            s.fresh[mid] = new
        else:
            s.pend[mid] = new
            s.mut.add(mid)

    def op_read(self, s, rng):
        pool = self.targets(s)
        rng.shuffle(pool)
        for mid in pool[:rng.choice([1, 3, 8, 40])]:
            try:
                self.check(s, mid, rng)
            except Raised as r:
                return self.settle(s, r, "reading")
            if s.moved:
                return self.abort(s)

    def op_commit(self, s, rng):
        if s.moved:
            return self.abort(s)
        ok = self.commit(s, rng)
        if ok or not s.mut:
            if ok and rng.random() < self.cfg["fresh"]:
                self.op_fresh(s, rng)
            return
        c = rng.random()
        if c < 0.35:
            self.abort(s)
            if rng.random() < 0.5:
                self.relink(s, rng)
        elif c < 0.8:
            if not self.fix(s, rng):
                return
            for i in range(rng.randrange(3)):
                self.mutate(s, rng)
            if s.mut and not s.moved and rng.random() < 0.85:
                if self.commit(s, rng, faults=rng.random() < 0.3):
                    self.sim.stat("commit.retried")
                    self.op_fresh(s, rng)

    def relink(self, s, rng):
        """Put the objects of the failed commit back and commit again."""
        self.fix(s, rng)
        if 0 in s.dirty:
            return
        pool = sorted(s.fresh)
        for mid in pool[:4]:
            k = rng.choice(connops.KEYS)
            try:
                root = self.obj(s, 0)
                self.call(s, lambda: root.__setitem__(k, s.pins[mid]))
            except Raised as r:
                return self.settle(s, r, "relinking")
            self.changed(s, 0, lambda c: c.__setitem__(k, R(mid)))
        if s.mut:
            if self.commit(s, rng, faults=False):
                self.sim.stat("commit.relinked")
                self.op_fresh(s, rng)

    def op_abort(self, s, rng):
        self.abort(s)
        if rng.random() < 0.3:
            self.drop_fresh(s)
        if rng.random() < 0.5:
            self.op_read(s, rng)

    def drop_fresh(self, s):
        if s.mut:
            return
        for mid in list(s.fresh):
            self.dead.add(mid)
            s.ids.pop(id(s.pins.pop(mid)), None)
            s.wrefs.pop(mid, None)
            del s.fresh[mid]
        s.xs = []

    def op_pin(self, s, rng):
        pool = [m for m in self.targets(s) if m not in s.fresh]
        for i in range(rng.randrange(1, 4)):
            mid = rng.choice(pool)
            try:
                s.pins[mid] = self.obj(s, mid, rng)
            except Raised as r:
                return self.settle(s, r, "finding an object")

    def op_unpin(self, s, rng):
        for mid in sorted(s.pins):
            if mid not in s.fresh and rng.random() < 0.7:
                del s.pins[mid]

    def op_gc(self, s, rng):
        gc.collect()
        self.blame_all(s, "C15")
        if rng.random() < 0.3:
            n = sum(1 for o in gc.get_objects() if issubclass(type(o), self.PO) and
                    o._p_connection is s.conn)
            # (what a pack removed has left the cache, and a crawl may still hold it)
            got = s.conn.get_cache_count()
            if got > n or got < n and not self.packs:
                self.bad("cache-count", ("C15",), "%s: get_cache_count() is %r, there are %d objects" % (
                    s.name, s.conn.get_cache_count(), n))
        self.tr("gc")

    def op_shrink(self, s, rng):
        """The application asks for a smaller cache in the middle of its transaction."""
        if rng.random() < 0.4:
            size = rng.choice([1, 2, 4, 1000])
            self.call(s, s.conn.set_cache_size, size)
            try:
                s.conn.set_cache_size(rng.choice([0, -1]))
                self.bad("size-accepted", ("C15",), "%s: a cache size below 1 is accepted" % s.name)
            except ValueError:
                pass
            if s.conn.get_cache_size() != size:
                self.bad("size-wrong", ("C15",), "%s: cache size set to %d, is %r" % (
                    s.name, size, s.conn.get_cache_size()))
        self.blame_all(s, "C15")
        try:
            self.call(s, s.conn.shrink_cache)
        except Raised as r:
            self.surprise(s, r, "shrink_cache", ("C15",))
        self.cached(s)
        self.tr(s.name, "shrink", s.conn.get_cache_count())

    def op_idle(self, s, rng):
        """Nothing in use: the cache goes down to its target."""
        self.abort(s)
        self.drop_fresh(s)
        s.crawl = None
        s.pins.clear()
        size = rng.choice([1, 2, 5, 20])
        s.conn.set_cache_size(size)
        gc.collect()
        n = s.conn.get_cache_count()
        commits = rng.random() < 0.4
        for i in range(n + 5):
            if commits:
                self.call(s, s.conn.commit)
                self.boundary(s)
            else:
                self.abort(s)
        gc.collect()
        self.blame_all(s, "C15")
        loaded = sum(1 for o in s.conn.get_cache() if not o._p_is_ghost())
        self.tr(s.name, "idle", n, size, loaded, s.conn.get_cache_count())
        if loaded > size:
            self.bad("cache-large", ("C15",), "%s: %d objects stay loaded, target %d, none in use (%d cached)"
                     % (s.name, loaded, size, n))
        s.conn.set_cache_size(self.cfg["cache"])

    def op_bad(self, s, rng):
        """Something that cannot be stored gets into an object."""
        pool = [m for m in self.targets(s) if self.ms[m].kind in ("bag", "mixed", "dict", "list", "btree")
                and m not in s.dirty]
        if not pool:
            return
        mid = rng.choice(pool)
        kind = self.ms[mid].kind
        what = rng.choice(["bad", "lambda", "foreign"])
        if what == "bad":
            x = X("bad", Bad())
        elif what == "lambda":
            x = X("lambda", lambda: 0)
        else:
            x = X("foreign", self.outsider())
        try:
            o = self.obj(s, mid, rng)
            if kind in ("bag", "mixed"):
                self.call(s, setattr, o, "zbad", x.live)
                self.changed(s, mid, lambda c: c.__setitem__("zbad", x))
            elif kind == "dict":
                self.call(s, lambda: o.__setitem__("zbad", x.live))
                self.changed(s, mid, lambda c: c.__setitem__("zbad", x))
            elif kind == "list":
                self.call(s, lambda: o.append(x.live))
                self.changed(s, mid, lambda c: c.append(x))
            else:
                c = s.content(mid)
                s.xtree = True
                k = max(c) if c else connops.bkey(rng, self.ms[mid].ktype, self.cfg["span"])
                self.call(s, lambda: o.__setitem__(k, x.live))
                self.changed(s, mid, lambda c: c.__setitem__(k, x))
        except Raised as r:
            return self.settle(s, r, "changing an object")
        self.sim.stat("bad." + what)
        self.tr(s.name, "bad", mid, what)

    def fix(self, s, rng):
        """Remove everything that cannot be stored."""
        for mid in sorted(set(s.mut) | set(s.fresh)):
            c = s.content(mid)
            if c is None or not any(isinstance(x, X) for x in refs(c)):
                continue
            kind = self.ms[mid].kind
            try:
                o = self.obj(s, mid)
                if kind == "list":
                    for i in range(len(c) - 1, -1, -1):
                        if any(isinstance(x, X) for x in refs(c[i])):
                            self.call(s, lambda: o.__delitem__(i))
                            self.changed(s, mid, lambda m: m.__delitem__(i))
                    continue
                for k in sorted(c, key=repr):
                    if any(isinstance(x, X) for x in refs(c[k])):
                        if kind in ("bag", "mixed", "slot", "slot2", "slot3", "kbag", "owner"):
                            self.call(s, setattr, o, k, 1)
                        else:
                            self.call(s, lambda: o.__setitem__(k, 1))
                        self.changed(s, mid, lambda m: m.__setitem__(k, 1))
            except Raised as r:
                self.settle(s, r, "repairing an object")
                return False
        return True

    def outsider(self):
        """A persistent object of another connection."""
        if self.foreign is None:
            from durus.connection import Connection
            from durus.storage import MemoryStorage
            c = Connection(MemoryStorage())
            c.get_root()["x"] = self.co.Bag(a=1)
            c.commit()
            self.foreign = c
        return self.foreign.get_root()["x"]

    def op_pack(self, s, rng):
        if self.K is None:
            return
        # pack() aborts the transaction of this client itself
        late = rng.random() < 0.4
        for t in self.sides.values():
            if t is not s or not late:
                self.abort(t)
        if late and s.mut:
            self.sim.stat("pack.changed")
        gone = set(m for m in self.com if m not in self.reach(s, self.com.get))
        for t in self.sides.values():
            for mid in gone:
                t.pins.pop(mid, None)
                t.wrefs.pop(mid, None)
            # unstored objects that refer to removed ones cannot be used any more
            while True:
                drop = [m for m in t.fresh if t.fresh[m] is not None and
                        any(isinstance(r, R) and (r.mid in gone or r.mid in self.dead)
                            for r in refs(t.fresh[m]))]
                drop += [m for m in t.fresh if self.ms[m].owner in self.dead]
                if not drop:
                    break
                for mid in drop:
                    self.dead.add(mid)
                    t.ids.pop(id(t.pins.pop(mid)), None)
                    t.wrefs.pop(mid, None)
                    del t.fresh[mid]
        if rng.random() < 0.5:
            gc.collect()
        late and self.abort_begins(s)
        try:
            self.call(s, s.conn.pack)
        except Raised as r:
            self.bad("raised", ("C05", "C11"), "%s: pack raised %r at %s" % (s.name, r.e, where(r.e)))
        if not self.local:
            self.sim.sleep(30)
        self.boundary(s)
        self.packs += 1
        for mid in gone:
            self.dead.add(mid)
            del self.com[mid]
            del self.bym[self.ms[mid].oid]
        live = self.rec_reach()
        for oid in list(self.rec):
            if oid not in live:
                self.gone_oids.add(oid)
                del self.rec[oid]
                self.history.pop(oid, None)
        for t in self.sides.values():
            t.base = dict(self.com)
            self.blame_all(t, "C05")
        self.sim.stat("pack")
        self.tr("pack", len(gone))

    def op_reopen(self, s, rng):
        """The application ends and another one starts."""
        self.abort(s)
        self.drop_fresh(s)
        s.crawl = None
        s.pins.clear()
        if self.K is None:
            return
        if self.local:
            if self.faulted:
                # (what a failed commit left behind is another property's business)
                root = self.obj(s, 0)
                root._p_note_change()
                s.mut.add(0)
                if not self.commit(s, rng, faults=False):
                    raise HarnessError("commit without faults fails")
            try:
                self.disk.close()
                self.disk = self.open_disk()
            except Exception as e:
                self.bad("raised", ("C01",), "reopening raised %r at %s" % (e, where(e)))
        else:
            s.storage.close()
        self.connect("A")
        self.blame_all(self.sides["A"], "C13")
        self.tr("reopen")

    # ---- computed attributes
    def op_comp(self, s, rng):
        pool = [m for m in self.targets(s) if self.ms[m].kind == "comp" and
                s.knows(self.ms[m].owner) and self.ms[m].owner not in self.dead]
        if not pool:
            if 0 in s.dirty or "owner" not in self.cfg["kinds"]:
                return
            return self.op_link_owner(s, rng)
        mid = rng.choice(pool)
        owner = self.ms[mid].owner
        c = rng.random()
        try:
            co = self.obj(s, mid, rng)
            o = self.obj(s, owner, rng)
            if c < 0.55:
                return self.comp_get(s, mid, co, owner, o)
            if owner in s.dirty or mid in s.dirty:
                return
            n = rng.randrange(1000)
            if rng.random() < 0.5:
                self.call(s, setattr, o, "n", n)
                self.call(s, lambda: co.invalidate())
            else:
                self.call(s, lambda: co.invalidate())
                self.call(s, setattr, o, "n", n)
            self.changed(s, owner, lambda m: m.__setitem__("n", n))
            self.blame(s, mid, "C28")
            s.touched.add(mid)
            s.have.pop(mid, None)
            if mid not in s.fresh:
                s.pend[mid] = None
                s.mut.add(mid)
            self.sim.stat("comp.invalidated")
            self.tr(s.name, "invalidate", mid)
            if rng.random() < 0.6:
                self.comp_get(s, mid, co, owner, o)
        except Raised as r:
            return self.settle(s, r, "using a computed attribute", ("C28",))

    def op_link_owner(self, s, rng):
        keep = self.cfg["kinds"]
        try:
            self.cfg = dict(self.cfg, kinds=["owner"])
            self.op_link(s, rng)
        finally:
            self.cfg = dict(self.cfg, kinds=keep)

    def comp_get(self, s, mid, co, owner, o):
        calls = []

        def compute():
            calls.append(1)
            return ("value", o.n)
        ghost = co._p_is_ghost()
        v = self.call(s, lambda: co.get(compute))
        s.touched.update((mid, owner))
        self.has_read(s, mid)
        if calls:
            self.has_read(s, owner)
        want = [s.content(owner)["n"]]
        if owner in s.dirty and owner not in s.pend:
            want.extend(a["n"] for a in s.alts.get(owner, ()))
        self.tr(s.name, "comp", mid, v, len(calls))
        if v not in [("value", w) for w in want]:
            self.bad("computed-stale", ("C28",), "%s: computed attribute %d gives %r, the data it depends on "
                     "gives %r" % (s.name, mid, v, want))
        if v != ("value", want[0]):
            s.moved = True
        kept = s.have.get(mid)
        if calls and kept is not None and kept() is co and not ghost and mid not in s.dirty:
            self.bad("computed-again", ("C28",), "%s: computed attribute %d was computed again although it "
                     "was not invalidated" % (s.name, mid))
        s.have[mid] = weakref.ref(co)
        if not calls:
            self.sim.stat("comp.reused")
        else:
            self.sim.stat("comp.computed")
        if s.moved:
            self.abort(s)

    # ---- another client
    def op_b(self, s, rng):
        B = self.sides.get("B") or self.connect("B")
        self.abort(B)
        self.drop_fresh(B)
        for i in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < 0.3:
                self.op_comp(B, rng)
            elif k < 0.45:
                self.op_link(B, rng)
            else:
                self.mutate(B, rng)
        if rng.random() < 0.15:
            self.abort(B)
            return
        if not self.commit(B, rng, faults=False):
            self.bad("conflict-baseless", ("C20", "C12"), "B: commit failed although nobody else committed")
        self.sim.stat("other.commit")
        if rng.random() < 0.3:
            self.op_unpin(B, rng)

    # ---- traversals
    def op_cstart(self, s, rng):
        if s.mut:
            if rng.random() < 0.7:
                self.abort(s)
        start = 0
        if rng.random() < 0.3:
            pool = [m for m in self.targets(s) if m not in s.fresh]
            start = rng.choice(pool)
        batch = rng.choice([1, 2, 3, 5, 100])
        k = rng.randrange(4)
        oid = self.ms[start].oid
        C = {"kind": "crawl", "seen": set(), "version": self.version, "packs": self.packs,
             "start": start, "cls": None, "bound": 0}
        if k == 0:
            C["kind"] = "every"
            C["start"] = 0
            names = rng.sample(["Bag", "Slotted", "Mixed", "PersistentDict", "PersistentList",
                                "PersistentSet", "BTree", "Comp", "Kbag"], rng.choice([1, 2]))
            C["cls"] = names
            from durus.connection import gen_every_instance
            classes = [dict(PersistentDict=self.co.Dict, PersistentList=self.co.List,
                            PersistentSet=self.co.Set).get(n) or getattr(self.co, n) for n in names]
            C["classes"] = tuple(classes)
            gen = gen_every_instance(s.conn, *classes)
        elif k == 1:
            C["kind"] = "records"
            if rng.random() < 0.5:
                gen = s.storage.gen_oid_record(start_oid=oid, batch_size=batch)
                C["bounded"] = True
            else:
                C["start"] = 0
                gen = s.storage.gen_oid_record()
        else:
            gen = s.conn.get_crawler(start_oid=oid, batch_size=batch) if rng.random() < 0.8 or start \
                else s.conn.get_crawler()
        C["gen"] = gen
        s.crawl = C
        self.tr(s.name, "crawl starts", C["kind"], start, batch)
        self.op_cstep(s, rng)

    def op_cstep(self, s, rng, n=None):
        C = s.crawl
        if C is None:
            return
        for i in range(n or rng.choice([1, 1, 2, 4, 1000])):
            if s.crawl is not C:
                return
            try:
                x = self.call(s, next, C["gen"], None)
                if x is None and C["kind"] == "every" and self.packs > C["packs"] and \
                        self.call(s, next, C["gen"], 5) != 5:
                    continue
            except Raised as r:
                s.crawl = None
                if r.sort == "api" and isinstance(r.e, KeyError) and self.packs > C["packs"]:
                    self.tr(s.name, "crawl lost")
                    return
                if r.sort == "api" and isinstance(r.e, (ValueError, OSError)) and self.local and \
                        self.packs > C["packs"]:
                    self.tr(s.name, "crawl of the old file ends")
                    return
                if r.sort == "conflict" and s.dirty:
                    return self.settle(s, r, "crawling", ("C26",))
                if r.sort == "conflict" and self.packs > C["packs"]:
                    return self.abort(s)
                return self.settle(s, r, "crawling", ("C26",))
            if x is None:
                s.crawl = None
                return self.crawl_done(s, C)
            self.sim.stat("crawl.step")
            if C["kind"] == "records":
                oid, record = bytes(x[0]), bytes(x[1])
                if oid in C["seen"]:
                    self.bad("crawl-twice", ("C26",), "%s: oid %d is produced twice" % (s.name, n8(oid)))
                C["seen"].add(oid)
                h = self.history.get(oid)
                if h is None:
                    if self.packs == C["packs"]:
                        self.bad("crawl-stranger", ("C26",), "%s: oid %d was never stored" % (s.name, n8(oid)))
                    continue
                # the record when the traversal began, or any later one
                ok = [r for v, r in h if v > C["version"]] + [r for v, r in h if v <= C["version"]][-1:]
                if record not in ok:
                    self.bad("crawl-stale", ("C26",), "%s: the record produced for oid %d is not current" % (
                        s.name, n8(oid)))
                continue
            self.visited(s, C, x, rng)
            if s.moved:
                self.abort(s)
                return

    def visited(self, s, C, o, rng):
        oid = bytes(o._p_oid)
        if oid in C["seen"]:
            self.bad("crawl-twice", ("C26",), "%s: oid %d is produced twice" % (s.name, n8(oid)))
        C["seen"].add(oid)
        if C["kind"] == "crawl" and o._p_is_ghost():
            self.bad("crawl-ghost", ("C26",), "%s: oid %d is produced without its state" % (s.name, n8(oid)))
        if C["kind"] == "every" and not isinstance(o, C["classes"]):
            self.bad("crawl-class", ("C26",), "%s: %r is no instance of %s" % (s.name, o, C["cls"]))
        if isinstance(o, self.BNode):
            return
        mid = self.bym.get(oid)
        if mid is None:
            if self.packs == C["packs"]:
                self.bad("crawl-stranger", ("C26",), "%s: oid %d was never stored" % (s.name, n8(oid)))
            return
        self.got(s, mid, o)
        if self.ms[mid].kind == "comp" or mid not in s.base:
            return
        s.why.setdefault(mid, set()).add("C26")
        try:
            self.check(s, mid, None, o)
        except Raised as r:
            s.crawl = None
            self.settle(s, r, "reading a crawled object", ("C26",))

    def crawl_done(self, s, C):
        self.sim.stat("crawl.done")
        self.tr(s.name, "crawl done", len(C["seen"]))
        if self.version != C["version"] or self.packs != C["packs"]:
            return
        reach = set()
        todo = [self.ms[C["start"]].oid]
        while todo:
            oid = todo.pop()
            if oid not in reach:
                reach.add(oid)
                todo.extend(record_refs(self.rec[oid]))
        stored = set(self.rec)
        if C["kind"] == "every":
            names = set(n for n in C["cls"])

            def want(oid):
                return any(k.__name__ in names for k in self.klass(oid).__mro__)
            reach = set(o for o in reach if want(o))
            stored = set(o for o in stored if want(o))
        lost = reach - C["seen"]
        if lost:
            self.bad("crawl-lost", ("C26",), "%s: the traversal (%s from %s) did not produce %s" % (
                s.name, C["kind"], C["start"], sorted(map(n8, lost))[:5]))
        if C["kind"] == "crawl" or C.get("bounded"):
            extra = C["seen"] - reach
        else:
            extra = C["seen"] - stored
        if extra:
            self.bad("crawl-extra", ("C26",), "%s: the traversal (%s from %s) produced %s" % (
                s.name, C["kind"], C["start"], sorted(map(n8, extra))[:5]))

    def klass(self, oid):
        name = record_class(self.rec[oid])
        return {"PersistentDict": self.co.Dict, "PersistentList": self.co.List,
                "PersistentSet": self.co.Set}.get(name) or getattr(self.co, name, None) or \
            getattr(sys.modules["durus.btree"], name)

    def op_census(self, s, rng):
        """Counting classes, indexing references, finding referrers: between reachable and stored."""
        import durus.storage as S
        if s.dirty:
            self.abort(s)
        live = self.rec_reach()
        st = s.storage
        try:
            k = rng.randrange(5)
            if k == 0:
                got = self.call(s, S.get_census, st)
                got = dict((as_text(n), c) for n, c in got.items())
                lo, hi = count(self.rec, live), count(self.rec, self.rec)
                for n in sorted(set(lo) | set(got)):
                    if not lo.get(n, 0) <= got.get(n, 0) <= hi.get(n, 0):
                        self.bad("census", ("C26",), "%s: census gives %d of class %s, reachable %d, "
                                 "stored %d" % (s.name, got.get(n, 0), n, lo.get(n, 0), hi.get(n, 0)))
            elif k == 1:
                got = self.call(s, S.get_reference_index, st)
                got = dict((bytes(o), sorted(map(bytes, l))) for o, l in got.items())
                lo, hi = index(self.rec, live), index(self.rec, self.rec)
                for o in sorted(set(lo) | set(got)):
                    g = got.get(o, [])
                    if len(set(g)) != len(g) or not set(lo.get(o, [])) <= set(g) <= set(hi.get(o, [])):
                        self.bad("reference-index", ("C26",), "%s: %d is referred to by %s, index says %s" % (
                            s.name, n8(o), [n8(x) for x in lo.get(o, [])], [n8(x) for x in g]))
            elif k == 2:
                target = rng.choice(sorted(self.rec))
                got = [bytes(o) for o, r in self.call(s, lambda: list(S.gen_referring_oid_record(st, target)))]
                lo, hi = index(self.rec, live).get(target, []), index(self.rec, self.rec).get(target, [])
                if len(set(got)) != len(got) or not set(lo) <= set(got) <= set(hi):
                    self.bad("referrers", ("C26",), "%s: %d is referred to by %s, found %s" % (
                        s.name, n8(target), [n8(x) for x in lo], [n8(x) for x in got]))
            elif k == 3:
                name = rng.choice(["Bag", "PersistentDict", "BTree", "PersistentList"])
                got = [bytes(o) for o, c in self.call(s, lambda: list(S.gen_oid_class(st, name.encode())))]
                lo = [o for o in live if record_class(self.rec[o]) == name]
                hi = [o for o in self.rec if record_class(self.rec[o]) == name]
                if len(set(got)) != len(got) or not set(lo) <= set(got) <= set(hi):
                    self.bad("gen-oid-class", ("C26",), "%s: class %s has %s, found %s" % (
                        s.name, name, sorted(map(n8, lo)), sorted(map(n8, got))))
            else:
                self.touch_refs(s, rng)
        except Raised as r:
            self.settle(s, r, "a census", ("C26",))

    def touch_refs(self, s, rng):
        from durus.connection import touch_every_reference
        from durus.persistent import PersistentObject
        word = rng.choice(["connobjs", "Slotted", "PersistentList", "BTree", "Bag"])
        before = dict(self.rec)
        self.call(s, touch_every_reference, s.conn, word)
        live = self.rec_reach()
        for oid in sorted(before):
            hit = word.encode() in before[oid][12:] and False
            head, state = plain(before[oid])
            hit = word.encode() in head or word.encode() in state
            mid = self.bym.get(oid)
            if mid is None:
                continue
            if hit:
                s.touched.add(mid)
                if oid in live:
                    s.mut.add(mid)
                    s.have.pop(mid, None)
                    s.pend.setdefault(mid, dcopy(s.content(mid)))
                    o = self.obj(s, mid)
                    if not o._p_is_unsaved():
                        self.bad("touch", ("C26",), "%s: %s mentions %s and was not marked" % (
                            s.name, self.describe(mid), word))
                else:
                    s.mut.add(mid)
                    s.have.pop(mid, None)
                    s.pend.setdefault(mid, dcopy(s.content(mid)))
        # BNodes may be marked as well: finish the transaction here
        self.touching = True
        s.trees_touched = True
        self.tr(s.name, "touch", word)
        self.abort(s)

    def op_odd(self, s, rng):
        """Access in unusual ways; only observed (both implementations must do the same)."""
        import copy
        from durus.persistent import _getattribute, _hasattribute
        pool = [m for m in self.targets(s) if m not in s.mut or m in s.fresh]
        if s.dirty or not pool:
            return
        for i in range(rng.randrange(1, 6)):
            mid = rng.choice(pool)
            kind = self.ms[mid].kind
            try:
                o = self.obj(s, mid, rng)
            except Raised as r:
                return self.settle(s, r, "finding an object")
            name = rng.choice(["a", "n", "_p", "_px", "_p_zz", "__zz__", "zz", "value", "q", "data", "__dict__",
                               "__len__", "__doc__", "__module__", "__slots__", "__weakref__", "root", "", "_", "__",
                               "_p_oid", "__class__", "__repr__", "__setstate__", "__r", "__getstate__", "\ud800", "a\udc80", "\xe9"])
            if name in ("__setstate__", "__repr__", "__getstate__", "__len__"):
                tell = lambda v: callable(v)
            elif name in ("__dict__", "root", "data"):
                tell = lambda v: type(v).__name__
            elif name in ("__class__", "__module__"):
                tell = lambda v: getattr(v, "__name__", v)
            elif name in ("__weakref__",):
                tell = lambda v: v is not None
            else:
                tell = lambda v: self.canon_live(s, v)
            fresh = mid in s.fresh
            fs = [
                ("getattr", lambda: tell(getattr(o, name))),
                ("hasattr", lambda: hasattr(o, name)),
                ("_getattribute", lambda: tell(_getattribute(o, name))),
                ("_hasattribute", lambda: _hasattribute(o, name)),
                ("object", lambda: tell(type(o).__getattribute__(o, name))),
                ("repr", lambda: "new" if fresh else repr(o)),
                ("getstate", lambda: kind != "comp" and kind != "btree" and
                    hashed(self.canon_live(s, o.__getstate__()))),
                ("isinstance", lambda: (isinstance(o, self.PO), isinstance(o, dict))),
                ("dir", lambda: sorted(n for n in dir(o) if n in ("a", "n", "_p_oid", "_p_status", "value", "get"))),
                ("serial", lambda: fresh or o._p_serial == s.conn.transaction_serial),
                ("status", lambda: o._p_status),
                ("flags", lambda: (o._p_is_ghost(), o._p_is_saved(), o._p_is_unsaved())),
                ("format", lambda: o._p_format_oid()),
                ("class", lambda: setattr(o, "__class__", type(o))),
                ("hash", lambda: hash(o) == hash(o) if kind not in ("dict", "list", "set") else None),
                ("eq", lambda: (o == o, o != o)),
                ("bool", lambda: bool(o)),
                ("copy", lambda: kind not in ("comp", "btree") and hashed(self.canon_live(
                    s, copy.copy(o).__getstate__()))),
                ("reduce", lambda: len(o.__reduce_ex__(2)) and type(o).__name__),
                ("load", lambda: o._p_load_state() if o._p_is_ghost() else None),
                ("ghost", lambda: o._p_set_status_ghost() if o._p_is_saved() and kind != "comp" else None),
                ("saved", lambda: o._p_set_status_saved() if o._p_is_saved() else None),
                ("badstatus", lambda: setattr(o, "_p_nothing_here", 1) if kind in ("slot", "slot2", "slot3", "comp")
                    else None),
                ("badname", lambda: getattr(o, 5)),
                ("slots", lambda: sorted(o._p_gen_data_slots())),
                ("delp", lambda: type(o).__dict__.get("__slots__")),
            ]
            what, f = rng.choice(fs)
            s.touched.add(mid)
            before = o._p_is_ghost()
            try:
                v = self.call(s, f)
            except Raised as r:
                if r.sort == "conflict" or r.sort == "io":
                    return self.settle(s, r, what)
                v = "raised " + type(r.e).__name__
            if isinstance(v, tuple) and v and v[0] == "R":
                v = "ref"
            self.sim.stat("odd." + what)
            self.tr(s.name, "odd", mid, what, ascii(name), v, before, o._p_is_ghost())
            if what == "ghost":
                s.have.pop(mid, None)
                self.blame(s, mid, "C15")
            o = None

    # ---- driving
    def states(self):
        """The load state of every cached object (for comparing implementations)."""
        for name in sorted(self.sides):
            s = self.sides[name]
            out = []
            for o in s.conn.get_cache():
                if o is None:
                    continue
                out.append("%d%s" % (n8(o._p_oid), "g" if o._p_is_ghost() else "s" if o._p_is_saved() else "u"))
            o = None
            self.tr("states", name, " ".join(sorted(out)))

    def drive(self):
        sim = self.sim
        sim.cur.ctx = "setup"
        self.start()
        A = self.sides["A"]
        rng = random.Random(self.cfg["seed"])
        for i in range(self.cfg["objects"]):
            self.op_link(A, rng)
        if not self.commit(A, rng):
            raise HarnessError("the first commit failed")
        self.quiet = False
        for op in self.plan["ops"]:
            s = self.sides["A"]
            sim.cur.ctx = "o%d" % op["u"]
            rng = random.Random(op["r"])
            sim.ev("op", op["u"], op["k"])
            sim.stat("op." + op["k"])
            self.reading = op["k"] in ("read", "mut", "cstep", "cstart", "comp", "pin", "link", "bad", "odd")
            if self.reading and self.cfg["p_rerr"]:
                self.fault_left = 1
            if op["k"] in ("commit", "b"):
                self.reading = False
            f = getattr(self, "op_" + op["k"])
            f(s, rng)
            self.fault_left = 0
            f = s = None
            if self.cfg["gc"] and rng.random() < self.cfg["gc"]:
                gc.collect()
                for t in self.sides.values():
                    self.blame_all(t, "C15")
            if self.plan.get("twin"):
                self.states()
        sim.cur.ctx = "end"
        self.quiet = True
        self.reading = False
        for name in sorted(self.sides):
            s = self.sides[name]
            s.crawl = None
            rng = random.Random(1)
            for final in (0, 1):
                for mid in self.targets(s):
                    try:
                        self.check(s, mid, rng)
                    except Raised as r:
                        self.surprise(s, r, "reading")
                        break
                self.abort(s)
        self.op_fresh(self.sides["A"], random.Random(2))
        self.tr("end", len(self.com))

    def run(self):
        try:
            self.run1()
        except Broken as e:
            self.bad("record-broken", ("C13", "C12", "C15"), str(e))
        finally:
            self.quiet = True
            self.fs.faults = self.net.faults = None
            if self.skind == "sqlite" and self.disk is not None:
                try:
                    self.disk.close()
                except Exception:
                    pass

    def run1(self):
        sim = self.sim
        self.setup()
        if self.skind == "sqlite" and not self.local:
            # the checks read the server's database from another simulated process
            import durus.sqlite_storage as m
            real = m.sqlite3
            m.sqlite3 = AnyThread(real)
            try:
                self.run2(sim)
            finally:
                m.sqlite3 = real
        else:
            self.run2(sim)

    def run2(self, sim):
        if self.local:
            sim.cur.proc = Proc("app")
            self.drive()
        else:
            def body():
                self.drive()
                sim.cur.ctx = "end"
                for s in self.sides.values():
                    s.storage.close()
                sim.kill(self.server_proc)
            a = sim.spawn("app", body, Proc("app"))
            reason = sim.run()
            if a.error is not None:
                raise a.error
            if reason in ("blocked", "steps"):
                self.bad("blocked", ("C22", "C23"), "%s: %s" % (reason, ", ".join(sim.stuck)))
            if self.server.error is not None and not self.server_proc.dead:
                self.bad("server-ended", ("C22",), "the server ended with %r at %s" % (
                    self.server.error, where(self.server.error)))


class AnyThread(object):
    def __init__(self, real):
        self.real = real

    def connect(self, *args, **kw):
        return self.real.connect(*args, check_same_thread=False, **kw)

    def __getattr__(self, name):
        return getattr(self.real, name)


class Gen(object):
    """Random values for side s."""
    def __init__(self, run, s, depth):
        self.run = run
        self.s = s
        self.depth = depth

    def plain(self, rng):
        c = rng.randrange(12)
        if c < 4:
            return rng.randrange(-3, 300)
        if c < 6:
            return "s%d" % rng.randrange(1000)
        return [None, True, 1.5, 2 ** 70, b"bytes\x00\xff", (1, "t"), "x" * 3000][
            rng.randrange(7)] if c < 11 else ""

    def ref(self, rng, identity):
        run, s = self.run, self.s
        pool = run.targets(s, identity)
        new = len(run.com) + len(s.fresh) < 40 and self.depth < 3
        if pool and (not new or rng.random() < 0.55):
            return R(rng.choice(pool))
        if new:
            return R(run.create(s, rng, self.depth, identity))
        return 5

    def value(self, rng):
        c = rng.random()
        if c < 0.45:
            return self.plain(rng)
        if c < 0.75:
            return self.ref(rng, False)
        if c < 0.85:
            return [self.plain(rng) if rng.random() < 0.6 else self.ref(rng, False)
                    for i in range(rng.randrange(3))]
        if c < 0.93:
            return dict(("d%d" % i, self.plain(rng) if rng.random() < 0.6 else self.ref(rng, False))
                        for i in range(rng.randrange(3)))
        return tuple(self.plain(rng) if rng.random() < 0.6 else self.ref(rng, False)
                     for i in range(rng.randrange(3)))

    def hvalue(self, rng):
        c = rng.random()
        if c < 0.6:
            return self.plain(rng)
        if c < 0.92:
            return self.ref(rng, True)
        return (self.plain(rng), self.ref(rng, True))


class Bad(object):
    """Its pickling fails."""
    def __reduce_ex__(self, protocol):
        raise ValueError("this cannot be pickled")


# ---------------------------------------------------------------- helpers
def accesses(c):
    """(steps, R) for every reference in content c."""
    out = []

    def go(v, steps):
        if isinstance(v, R):
            out.append((steps, v))
        elif isinstance(v, dict):
            for k in v:
                go(v[k], steps + (k,))
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                go(x, steps + (i,))
        elif isinstance(v, (set, frozenset)):
            for x in sorted(v, key=repr):
                go(x, steps + ("*",)) if not isinstance(x, tuple) else [
                    out.append((steps + ("*",), y)) for y in x if isinstance(y, R)]
    go(c, ())
    return out


def flat(t):
    for x in t:
        if isinstance(x, tuple):
            for y in flat(x):
                yield y
        else:
            yield x


def record_refs(record):
    n = int.from_bytes(record[8:12], "big")
    return [bytes(record[i:i + 8]) for i in range(12 + n, len(record), 8)]


_decoded = {}


class Broken(Exception):
    pass


def plain(record):
    try:
        return plain1(record)
    except Exception as e:
        raise Broken("a stored record cannot be decoded: %r" % (e,))


def plain1(record):
    """(class pickle, state pickle) of a record, from the documented format."""
    import io
    import pickle
    import zlib
    n = int.from_bytes(record[8:12], "big")
    data = bytes(record[12:12 + n])
    f = io.BytesIO(data)
    u = pickle.Unpickler(f)
    u.load()
    at = f.tell()
    state = data[at:]
    if state[:1] == b"\x78":
        state = zlib.decompress(state)
    return data[:at], state


def record_class(record):
    head = plain(record)[0]
    import pickletools
    for op, arg, pos in pickletools.genops(head):
        if op.name == "GLOBAL":
            return arg.split(" ")[1]
    return "?"


def decode(run, record):
    import objs
    try:
        oid, klass, state, rf = objs.split(record)
    except Exception as e:
        raise Broken("a stored record cannot be decoded: %r" % (e,))
    mid = run.bym[oid]
    kind = run.ms[mid].kind
    if kind in ("dict", "list"):
        state = state["data"]
    elif kind == "set":
        state = state["s"]

    def c(v):
        if isinstance(v, objs.Ref):
            m = run.bym.get(v.oid)
            if m is None:
                run.bad("dangling", ("C12", "C13"), "the record of %s refers to oid %d, which is not stored" % (
                    run.describe(mid), n8(v.oid)))
            if v.oid != oid and v.oid not in rf:
                run.bad("refs-wrong", ("C13", "C05"), "the record of %s does not list its reference to %d" % (
                    run.describe(mid), n8(v.oid)))
            return ("R", m)
        if isinstance(v, dict):
            return ("dict", tuple(sorted(((c(k), c(x)) for k, x in v.items()), key=repr)))
        if isinstance(v, (set, frozenset)):
            return ("set", tuple(sorted((c(x) for x in v), key=repr)))
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, tuple(c(x) for x in v))
        return (type(v).__name__, v)
    return c(state)


def count(rec, oids):
    out = {}
    for o in oids:
        n = record_class(rec[o])
        out[n] = out.get(n, 0) + 1
    return out


def index(rec, oids):
    out = {}
    for o in oids:
        for r in set(record_refs(rec[o])):
            out.setdefault(r, []).append(o)
    return out


def as_text(n):
    return n if isinstance(n, str) else bytes(n).decode()


def hashed(x):
    import zlib
    return "%08x" % zlib.crc32(x if isinstance(x, bytes) else repr(x).encode())


def short(x):
    r = repr(x)
    return r if len(r) < 400 else r[:260] + " ... " + r[-120:]


def where(e):
    import traceback
    t = traceback.extract_tb(e.__traceback__)
    return " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(t[-3:]))


def run(sim, plan):
    Run(sim, plan).run()
