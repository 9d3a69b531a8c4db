"""Several clients of one server that work on shared containers (trees, dicts, lists, sets, objects,
computed attributes) through their public operations.

Every operation and its result goes to the log of its transaction.  The model is one plain Python
value per container and commit.  A transaction may only see what one committed state gives (replayed
operation by operation), and when the server applies its commit, replaying its log on the state just
before must give the very same results: that is serializability at the level of results, whatever
the containers do inside.
"""
import random

import connops
import objs
import simfs
import simnet
from connops import dcopy, canon
from core import Violation, HarnessError, SimKilled, SimStop
from h_storage import n8
import h_system
from h_system import World, Client, Txn, Recorder, MAIN, ADDRESSES, Z, st_as, hash_canon, reach_of, tb

KINDS = ["btree", "btree", "dict", "list", "set", "bag", "slot", "comp"]


def generate(rng, prof):
    plan = h_system.generate(rng, prof)
    plan["h"] = "shared"
    kinds = prof.get("containers", KINDS)
    plan["cfg"]["containers"] = [
        {"kind": rng.choice(kinds), "t": rng.randrange(3), "fill": rng.choice([0, 0, 3, 12, 30]),
         "degree": rng.choice([2, 2, 2, 4]), "r": rng.getrandbits(20)}
        for _ in range(rng.choice([1, 2, 3, 4]))]
    plan["cfg"]["span"] = rng.choice([8, 20, 60])
    return plan


class Gen(object):
    """Values without references."""
    def value(self, rng):
        x = rng.random()
        if x < 0.6:
            return rng.randrange(100)
        if x < 0.85:
            return "v%d" % rng.randrange(50)
        if x < 0.93:
            return [rng.randrange(10) for _ in range(rng.randrange(3))]
        return (rng.randrange(5), "t")

    def hvalue(self, rng):
        return rng.randrange(30) if rng.random() < 0.7 else "v%d" % rng.randrange(10)


G = Gen()


def plain(v):
    """A result as a plain value."""
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    from durus.persistent_set import PersistentSet
    if isinstance(v, PersistentDict):
        return dict(v.items())
    if isinstance(v, PersistentList):
        return list(v)
    if isinstance(v, PersistentSet):
        return set(v)
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def outcome(fn, *args):
    """What a call does: ("ok", canonical result) or ("exc", names of the exception's classes)."""
    from durus.error import ConflictError
    try:
        return ("ok", canon(plain(fn(*args))))
    except (ConflictError, OSError, AssertionError):
        raise
    except Exception as e:
        return ("exc", tuple(k.__name__ for k in type(e).__mro__[:-2]), repr(e))


def agree(live, model):
    if live[0] != model[0]:
        return False
    if live[0] == "ok":
        return live[1] == model[1]
    return model[1][0] in live[1]


def replay(state, entry):
    """Apply one logged operation to a model state; does it give the logged result?"""
    cid, name, fn, live = entry
    m = state[cid]
    if fn == "popitem" or fn == "setpop":
        if live[0] == "exc":
            return not m and "KeyError" in live[1]
        for x in list(m.items() if fn == "popitem" else m):
            if canon(x) == live[1]:
                if fn == "popitem":
                    del m[x[0]]
                else:
                    m.discard(x)
                return True
        return False
    return agree(live, outcome(fn, m if cid[0] != "k" else state))


class SharedWorld(World):
    def setup(self):
        real = self.cfg["cells"]
        self.cfg["cells"] = 0
        self.M = []
        super(SharedWorld, self).setup()
        self.cfg["cells"] = real
        # The containers are made by an ordinary connection, before anything is recorded.
        from durus.connection import Connection
        import connobjs
        st = self.K(MAIN)
        self.S, self.R, self.by, self.touched = [{}], [{}], [None], [set()]
        rec = Recorder(self, st)
        conn = Connection(st_as(rec))
        root = conn.get_root()
        root._p_note_change()       # (it is part of the recorded state)
        self.M0 = m0 = {}
        self.kinds = {}
        self.ktype = {}
        for i, c in enumerate(self.cfg["containers"]):
            cid = "%s%d" % (c["kind"][0] if c["kind"] != "comp" else "k", i)
            r = random.Random(c["r"])
            kind = c["kind"]
            self.kinds[cid] = kind
            self.ktype[cid] = c["t"]
            if kind == "btree":
                from durus import btree
                o = btree.BTree({2: btree.BNode, 4: btree.BNode4}[c["degree"]])
                m = {}
            elif kind == "comp":
                o = connobjs.Bag(n=0, comp=connobjs.Comp())
                m = {"n": 0}
            else:
                o = {"dict": connobjs.Dict, "list": connobjs.List, "set": connobjs.Set,
                     "bag": connobjs.Bag, "slot": connobjs.Slotted}[kind]()
                m = {"dict": dict, "list": list, "set": set, "bag": dict, "slot": dict}[kind]()
            for j in range(c["fill"]):
                if kind in ("btree", "dict"):
                    k = connops.bkey(r, c["t"], self.cfg["span"]) if kind == "btree" else r.choice(connops.KEYS)
                    o[k] = m[k] = G.value(r)
                elif kind in ("list", "set"):
                    v = G.hvalue(r)
                    (o.append if kind == "list" else o.add)(v)
                    (m.append if kind == "list" else m.add)(v)
            root[cid] = o
            m0[cid] = m
        for i in range(len(self.cfg["cache"])):
            root["c%d" % i] = objs.Cell("i.%d" % i)
        conn.commit()
        self.cids = sorted(m0)
        self.oids.clear()
        st.close()
        self.acked = self.n()
        self.M = [{}] * self.n() + [m0]
        if len(self.M) != len(self.S):
            raise HarnessError("states")
        R = self.R[-1]
        self.oid_of = {}
        from durus.utils import int8_to_str
        _, _, state, _ = objs.split(R[Z])
        for k, ref in state["data"].items():
            if k != "#":
                self.oid_of[k] = ref.oid
        self.marks = dict((self.oid_of[k], k) for k in self.oid_of if k[0] == "c")

    # ---- commits
    def applied(self, records):
        S = dict(self.S[-1])
        R = dict(self.R[-1])
        for oid, rec in records.items():
            S[oid] = hash_bytes(rec)
        R.update(records)
        M0 = self.M[-1] if self.M else {}
        self.S.append(S)
        self.R.append(R)
        self.touched.append(set(records))
        self.last_garbage -= set(records)
        self.soft = None
        self.bytes_low += sum(map(len, records.values()))
        if self.incarnation == 0:
            self.by.append(set())
            return
        self.sim.states.add(hash_canon(S))
        self.sim.ev("applied", self.n(), sorted(map(n8, records)))
        names = set()
        for oid in set(records) & set(self.marks):
            names.add(objs.token_of(objs.canon_record(records[oid])).rsplit(".", 1)[0])
        self.by.append(names)
        self.M.append(M0)
        if len(names) != 1:
            self.bad("mixed-commit", ("C21", "C17", "C13"), "a commit holds records of transactions %s" %
                     sorted(names))
        t = self.txns.get(next(iter(names)))
        if t is None:
            self.bad("foreign-commit", ("C21",), "commit of unknown transaction %s" % names)
        if t.applied is not None:
            self.bad("applied-twice", ("C21",), "transaction %s applied twice" % t.name)
        if t.status not in ("committing", "unknown"):
            self.bad("applied-uncommitted", ("C21", "C17", "C11"),
                     "transaction %s was applied in state %s" % (t.name, t.status))
        t.applied = self.n()
        if records != t.raw:
            self.bad("wrong-write-set", ("C21", "C12", "C23"),
                     "transaction %s stored oids %s instead of %s, or other records" % (
                         t.name, sorted(map(n8, records)), sorted(map(n8, t.raw or ()))))
        for oid in sorted(records):
            for ref in objs.record_refs(records[oid]):
                if ref not in S:
                    self.bad("dangling", ("C12", "C21"), "%d refers to %d, which is not stored" % (
                        n8(oid), n8(ref)))
        m = dcopy(M0)
        for i, entry in enumerate(t.log):
            if not replay(m, entry):
                self.bad("not-serializable", ("C17",),
                         "transaction %s (commit %d): %s on %s (step %d of %d) gave %s, but just before "
                         "the commit the container holds %s" % (
                             t.name, self.n(), entry[1], entry[0], i + 1, len(t.log), short(entry[3]),
                             short(canon(m[entry[0]]))))
        self.M[-1] = m
        self.sim.stat("commit.applied")

    def revert(self):
        self.M.pop()
        super(SharedWorld, self).revert()

    def differs(self, got, R, live):
        for oid in sorted(live):
            if oid not in got:
                return "oid %d missing" % n8(oid)
        for oid in sorted(got):
            if got[oid] != R.get(oid):
                return "oid %d differs" % n8(oid)
        return None

    def client(self, name, index):
        return SharedClient(self, name, index)

    def owned(self, cid, j):
        return reach_of(self.R[j], (self.oid_of[cid],))


def hash_bytes(b):
    import hashlib
    return hashlib.blake2b(b, digest_size=8).hexdigest()


def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


class SharedClient(Client):
    def begin(self, base, lo):
        super(SharedClient, self).begin(base, lo)
        t = self.txn
        t.log = []
        t.cand = {}             # number of a commit -> the model state after the log
        t.old = {}
        t.seen_n = t.lo - 1
        t.used = set()

    def watch_oids(self, st):
        real_new = st.new_oid

        def new_oid():
            oid = real_new()
            self.got_oid(bytes(oid))
            return oid
        st.new_oid = new_oid
        real_end = st.end

        def end(handle_invalidations=None):
            if self.txn.status == "committing":
                self.txn.raw = dict((bytes(o), bytes(r)) for o, r in st.records.items())
            return real_end(handle_invalidations)
        st.end = end

    def candidates(self, t):
        w = self.w
        for j in range(t.seen_n + 1, w.n() + 1):
            m = dcopy(w.M[j])
            if all(replay(m, e) for e in t.log):
                t.cand[j] = m
        t.seen_n = w.n()
        return t.cand

    def boundary_passed(self, base, lo):
        t = self.txn
        if t.cand:
            self.floor = max(self.floor, min(t.cand))
        self.begin(base, lo)

    # ---- work
    def use(self, cid, name, live, fn):
        """One operation on a container."""
        w, t = self.w, self.txn
        cand = self.candidates(t)
        t.used.add(cid)
        res = outcome(live)
        self.sim.ev("use", cid, name, hash_bytes(repr(res[:2]).encode()))
        entry = (cid, name, fn, res)
        cand = self.candidates(t)   # (others may have committed meanwhile)
        t.log.append(entry)
        last = cand[max(cand)] if cand else None
        before = dict((j, dcopy(m.get(cid))) for j, m in cand.items())
        for j in sorted(cand):
            if not replay(cand[j], entry):
                del cand[j]
        self.sim.stat("uses")
        if cand:
            return
        old = [j for j in range(0, t.lo) if w.M[j] and all(
            replay(m, e) for m in [dcopy(w.M[j])] for e in t.log)]
        if old:
            w.bad("stale-use", ("C19", "C17", "C18") + (("C28",) if cid[0] == "k" else ()),
                  "%s began after commit %d (acknowledged %d); %s on %s gives %s as of commit %d" % (
                      t.name, t.lo, w.acked, name, cid, short(res), old[-1]))
        w.bad("mixed-use", ("C18", "C17", "C13", "C28" if cid[0] == "k" else "C14" if
                              w.kinds[cid] == "btree" else "C13"),
              "%s: %s on %s gives %s; with the %d operations before it that is the result in none of "
              "commits %d..%d, which give it %s" % (
                  t.name, name, cid, short(res), len(t.log) - 1, t.lo, w.n(),
                  short(dict((j, canon(x)) for j, x in before.items()))))

    def action(self, rng, seen):
        conn, w, t = self.conn, self.w, self.txn
        x = rng.random()
        if x < 0.05:
            self.sim.sleep(rng.random() * rng.choice([0.001, 0.02, 0.5]))
            return
        if x < 0.10:
            conn.shrink_cache()
            self.sim.stat("shrink")
            return
        if x < 0.13:
            self.crawl(rng)
            return
        self.operate(rng, rng.choice(w.cids))

    def operate(self, rng, cid, reading=None):
        """Some operation on the container; if asked for, one that only reads, or one that may write."""
        w, t = self.w, self.txn
        kind = w.kinds[cid]
        t.used.add(cid)
        obj = self.conn.get_root()[cid]
        if kind == "comp":
            self.computed(rng, cid, obj, reading)
            return
        cand = self.candidates(t)
        cur = cand[max(cand)][cid] if cand else {}
        f = connops.KINDS[kind]
        for attempt in range(30):
            if kind == "btree":
                name, live, fn = f(rng, G, cur, kind, w.ktype[cid], w.cfg["span"])
            else:
                name, live, fn = f(rng, G, cur, kind)
            if reading is None or connops.is_read(name) == reading:
                break
        if reading and rng.random() < 0.25 and kind not in ("bag", "slot"):
            name, live, fn = "len", lambda o, L: len(o), lambda m: len(m)
        self.use(cid, name, lambda: live(obj, dcopy), fn)

    def lean(self, rng):
        """Read one thing, write another one."""
        w = self.w
        a = rng.choice(w.cids)
        b = rng.choice([c for c in w.cids if c != a] or w.cids)
        self.operate(rng, a, True)
        if rng.random() < 0.5:
            self.sim.sleep(rng.random() * rng.choice([0.001, 0.02, 0.1]))
        self.operate(rng, b, False)
        if rng.random() < 0.3:
            self.sim.sleep(rng.random() * rng.choice([0.001, 0.02, 0.1]))
        self.do_commit()

    def computed(self, rng, cid, obj, reading=None):
        """A number, and a computed attribute that depends on it."""
        x = rng.random()
        if reading is not None:
            x = x * 0.7 if reading else 0.9
        if x < 0.6:
            runs = []

            def compute():
                runs.append(1)
                return obj.n * 3 + 1
            self.use(cid, "computed", lambda: obj.comp.get(compute), lambda s: s[cid]["n"] * 3 + 1)
            self.sim.stat("computed.run" if runs else "computed.cached")
        elif x < 0.7:
            self.use(cid, "number", lambda: obj.n, lambda s: s[cid]["n"])
        else:
            v = rng.randrange(1000)
            first = rng.random() < 0.5

            def live():
                if first:
                    obj.comp.invalidate()
                obj.n = v
                if not first:
                    obj.comp.invalidate()
            self.use(cid, "change", live, lambda s: s[cid].__setitem__("n", v))

    def op_txn(self, rng):
        self.phase = "work"
        if rng.random() < 0.4:
            self.lean(rng)
            return
        for i in range(rng.choice([1, 1, 2, 3, 5])):
            self.action(rng, None)
        x = rng.random()
        if x < 0.7:
            if rng.random() < 0.1:
                self.sim.sleep(rng.random() * 0.1)
            self.do_commit()
        elif x < 0.85:
            self.do_abort()
        else:
            self.sim.stat("txn.open")

    def changes(self, t):
        """Do the operations so far change anything, in every state they fit?"""
        cand = self.candidates(t)
        if not cand:
            return None
        return [cid for cid in self.w.cids if all(
            canon(cand[j][cid]) != canon(self.w.M[j][cid]) for j in cand)]

    def do_commit(self):
        w, t = self.w, self.txn
        base = w.n()
        changed = bool(self.conn.changed)
        if changed:
            # Say who it is.
            mark = self.conn.get_root()["c%d" % self.index]
            mark.tok = self.token()
            t.writes[id(mark)] = mark
        else:
            ch = self.changes(t)
            if ch:
                w.bad("change-unnoted", ("C13", "C12"), "%s has changed %s, and nothing is to be stored" % (
                    t.name, ch))
        super(SharedClient, self).do_commit()

    def crawl(self, rng):
        """Load objects ahead, by a crawl or one by one."""
        if rng.random() < 0.5:
            conn = self.conn
            root = conn.get_root()
            for cid in self.w.cids:
                if rng.random() < 0.5:
                    self.txn.used.add(cid)
                    list(root[cid]) if self.w.kinds[cid] in ("btree", "list", "dict", "set") else 0
            return
        n = 0
        stop = rng.choice([1, 3, 1000])
        self.phase = "crawl"
        self.txn.used.update(self.w.cids)
        for obj in self.conn.get_crawler(batch_size=rng.choice([1, 2, 100])):
            n += 1
            if n >= stop:
                break
        self.phase = "work"
        self.sim.stat("crawls")

    def conflict(self, e, what):
        w, t = self.w, self.txn
        self.sim.stat("conflict")
        self.sim.ev("conflict", what, type(e).__name__)
        self.right_error(e, what)
        if w.asked or w.pack_failed:
            return
        mine = t.name.rsplit(".", 1)[0]
        changed = set()
        for j in range(t.base + 1, w.n() + 1):
            if any(nm.rsplit(".", 1)[0] == mine for nm in w.by[j]):
                continue
            changed |= w.touched[j]
        seen = set([Z, w.oid_of["c%d" % self.index]])
        for cid in t.used:
            for j in range(max(0, t.base), w.n() + 1):
                seen |= w.owned(cid, j)
        if seen & changed:
            return
        w.bad("false-conflict", ("C20",),
              "%s got %r in %s; it used %s, others changed %s since commit %d" % (
                  t.name, e, what, sorted(t.used), sorted(map(n8, changed)), t.base))

    # ---- the end
    def write_root(self, rng, seen):
        self.conn.get_root()["c%d" % self.index]._p_note_change()

    def everything(self):
        """Read all containers, in several ways."""
        root = self.conn.get_root()
        w = self.w
        for cid in w.cids:
            obj = root[cid]
            kind = w.kinds[cid]
            if kind == "btree":
                self.use(cid, "everything", lambda: (
                    list(obj.items()), len(obj), list(obj.items_backward()), [obj[k] for k in obj]),
                    lambda m: (sorted(m.items()), len(m), sorted(m.items(), reverse=True),
                               [m[k] for k in sorted(m)]))
            elif kind == "dict":
                self.use(cid, "everything", lambda: (dict(obj.items()), len(obj)), lambda m: (dict(m), len(m)))
            elif kind == "list":
                self.use(cid, "everything", lambda: (list(obj), len(obj)), lambda m: (list(m), len(m)))
            elif kind == "set":
                self.use(cid, "everything", lambda: (set(obj), len(obj)), lambda m: (set(m), len(m)))
            elif kind == "comp":
                self.use(cid, "everything", lambda: obj.comp.get(lambda: obj.n * 3 + 1),
                         lambda s, cid=cid: s[cid]["n"] * 3 + 1)
            else:
                self.use(cid, "everything", lambda: dict(
                    (k, v) for k, v in obj.__getstate__().items()), lambda m: dict(m))


def run(sim, plan):
    w = SharedWorld(sim, plan)
    try:
        w.run()
    finally:
        simnet.use(None)
