"""Storage-level histories: commits, packs, crashes, disk faults against a list-of-states model.

One simulated process owns the storage; the simulator may fail or kill any file-system call, and
takes crash images at many calls (every image is reopened and compared, then used further).
"""
import errno
import os
import random

import simfs
from core import Sim, SimKilled, SimStop, Proc, Violation, HarnessError

MAIN = "/simfs/db"
Z = b"\0" * 8


def klass(kind):
    if kind == "file":
        from durus.file_storage import FileStorage as K
    elif kind == "file2":
        from durus.file_storage2 import FileStorage2 as K
    else:
        from durus.sqlite_storage import SqliteStorage as K
    return K


def i8(n):
    return n.to_bytes(8, "big")


def n8(b):
    return int.from_bytes(bytes(b), "big")


def make_record(oid, token, size, refs, rng):
    from durus.serialize import pack_record
    cls = rng.choice(["Aa", "Bb"])
    head = ("cmod\n%s\n%s " % (cls, token)).encode()
    pad = b""
    if size > len(head):
        style = rng.random()
        n = size - len(head)
        if style < 0.4:
            pad = b"\0" * n
        elif style < 0.7:
            pad = bytes(rng.getrandbits(8) for _ in range(min(n, 64))) * (n // 64 + 1)
        else:
            pad = (b"\0\0\0\0\0\0\0" + bytes([rng.randrange(1, 40)])) * (n // 8 + 1)
        pad = pad[:n]
    return pack_record(oid, head + pad, b"".join(sorted(refs)))


def refs_of(rec):
    n = int.from_bytes(rec[8:12], "big")
    r = rec[12 + n:]
    return [r[i:i + 8] for i in range(0, len(r), 8)]


def reachable(state):
    seen = set()
    todo = [Z] if Z in state else []
    while todo:
        o = todo.pop()
        if o in seen or o not in state:
            continue
        seen.add(o)
        todo.extend(refs_of(state[o]))
    return seen


def brief(state):
    return " ".join("%d=%s" % (n8(o), state[o][12:].split(b" ")[0].split(b"\n")[-1].decode("latin1"))
                    for o in sorted(state))


def io_error(e):
    import sqlite3
    return isinstance(e, (OSError, sqlite3.Error))


def generate(rng, prof):
    """A plan: configuration and operations (details of an operation derive from its own seed)."""
    kind = rng.choice(prof["kinds"])
    cfg = {
        "kind": kind,
        "buffer": rng.choice([8192, 8192, 8192, 64, 512]),
        "increment": rng.choice([1, 2, 5, 20, 100]),
        "loglevel": rng.choice([10, 20, 50]),
        "big": rng.random() < 0.25,
        "alias": rng.random() < 0.5,
        "prefill": rng.choice([0, 0, 0, 3, 12, 40]) if prof.get("prefill", True) else 0,
        "snap_p": prof.get("snap_p", 0.0) * rng.choice([0.5, 1, 1, 2]),
        "p_kill": prof.get("p_kill", 0.0) * rng.choice([0, 1, 1, 2]),
        "p_err": prof.get("p_err", 0.0) * rng.choice([0, 1, 1, 3]),
        "p_short": prof.get("p_short", 0.0) * rng.choice([0, 1, 2]),
    }
    w = dict(prof["ops"])
    for k in list(w):
        w[k] = w[k] * rng.choice([0, 1, 1, 2]) if k not in prof.get("always", ("commit",)) else w[k]
    names = sorted(w)
    weights = [w[k] for k in names]
    n = rng.choice(prof.get("lengths", [3, 6, 10, 18]))
    ops = []
    for i in range(n):
        k = rng.choices(names, weights)[0]
        ops.append({"u": i + 1, "k": k, "r": rng.getrandbits(30)})
        if k == "pstart" and rng.random() < 0.9:
            pass
    return {"h": "storage", "cfg": cfg, "ops": ops}


class Run(object):
    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.cfg = plan["cfg"]
        self.kind = self.cfg["kind"]
        self.K = klass(self.kind)
        self.token = 0
        self.acked = {}
        self.maybe = []          # states a crash may also expose (failed or in-flight commits)
        self.unacked_ok = False
        self.issued = set()
        self.cached = set()
        self.universe = set([Z])
        self.collectable = set()   # unreachable objects a pack may have removed
        self.st = None
        self.packer = None
        self.packs = 0
        self.failed_commits = 0
        self.crashes = 0
        self.pack_commits = 0
        self.in_op = None
        self.snaps = []
        self.retry = None
        self.broken_io = False
        self.outage_on = False
        self.fault_seen = False
        self.revert_failed = False
        self.history = []        # acked states since creation / last pack (for cuts)
        self.base_len = None
        self.bounds = []         # (file length, state) since the base
        self.aborted_records = False
        self.pack_failed = False
        self.quiet_pack = True

    # ---- environment
    def setup(self):
        import logging
        sim = self.sim
        simfs.BUFFER_SIZE = self.cfg["buffer"]
        logging.getLogger("durus").setLevel(self.cfg["loglevel"])
        if hasattr(self.K, "_PACK_INCREMENT"):
            self.K._PACK_INCREMENT = self.cfg["increment"]
        self.fs = simfs.FS(sim)
        self.new_process()
        simfs.use(self.fs)
        self.quiet = True

    def new_process(self):
        p = Proc("p%d" % self.crashes)
        fs = self.fs
        def died():
            fs.kill_proc(p)
            fs.dead = True
        p.on_death.append(died)
        self.sim.cur.proc = p
        fs.faults = self.faults
        fs.on_call = self.on_call

    def faults(self, call, path, nbytes):
        if self.quiet:
            return None
        sim, cfg = self.sim, self.cfg
        pk, pe, ps = cfg["p_kill"], cfg["p_err"], cfg["p_short"]
        mutating = call not in ("stat", "read", "flock", "open")

        def gen(r):
            x = r.random()
            if mutating and x < pk:
                return {"k": r.random()} if call == "write" else {"k": -1}
            x -= pk if mutating else 0
            if x < 0:
                return None
            if x < pe * (1 if mutating else 0.15):
                if call in ("stat", "flock"):
                    return None
                e = r.choice([errno.ENOSPC, errno.EIO]) if mutating else errno.EIO
                d = {"err": e}
                if call == "write" and r.random() < 0.5:
                    d["short"] = r.randrange(0, max(1, nbytes))
                return d
            x -= pe
            if 0 <= x < ps and call in ("write", "read") and nbytes > 1:
                return {"short": r.randrange(1, nbytes)}
            return None
        f = sim.decide("fs." + call, gen)
        if f is None:
            return None
        if "k" in f:
            sim.stat("fault.kill." + call)
            sim.stat("fault.kill")
            if f["k"] < 0 or nbytes == 0:
                sim.kill(sim.cur.proc)
                raise SimKilled()
            return {"short": int(f["k"] * (nbytes + 1)), "kill": 1}
        if "err" in f:
            self.fault_seen = True
            if call == "truncate":
                # the disk failed again while a failed commit was being removed
                self.revert_failed = True
        return f

    def on_call(self, call, path, nbytes):
        if self.quiet or self.cfg["snap_p"] <= 0:
            return
        p = self.cfg["snap_p"]
        v = self.sim.decide("snap", lambda r: r.getrandbits(30) if r.random() < p else None)
        if v is None or len(self.snaps) > 60:
            return
        r = random.Random(v)
        power = r.random() < 0.6
        img = self.fs.clone(r if power else None, r)
        self.sim.stat("image.power" if power else "image.proc")
        self.snaps.append((img, "power" if power else "proc", v, call,
                           os.path.basename(str(path)), self.allowed()))

    # ---- the storage and its model
    def allowed(self):
        return [self.acked] + [m for m in self.maybe if m != self.acked]

    def open(self, repair=False, readonly=False):
        kw = {}
        if repair:
            kw["repair"] = True
        if readonly:
            kw["readonly"] = True
        return self.K(MAIN, **kw)

    def read_state(self, st, props, what):
        """The complete contents as the API shows them."""
        R = {}
        for oid in sorted(self.universe):
            try:
                rec = st.load(oid)
            except KeyError:
                continue
            except Exception as e:
                if io_error(e) and self.fault_active():
                    raise
                self.bad("load-error", props, "%s: load(%d) raised %r" % (what, n8(oid), e))
            R[oid] = bytes(rec)
        G = {}
        try:
            for oid, rec in st.gen_oid_record():
                if oid in G:
                    self.bad("duplicate-in-iteration", props + ("C26",),
                             "%s: oid %d twice in gen_oid_record" % (what, n8(oid)))
                G[bytes(oid)] = bytes(rec)
        except Violation:
            raise
        except Exception as e:
            if io_error(e) and self.fault_active():
                raise
            self.bad("iteration-error", props + ("C26",), "%s: gen_oid_record raised %r" % (what, e))
        for oid in G:
            if oid not in R:
                try:
                    R[oid] = bytes(st.load(oid))
                except KeyError:
                    self.bad("iteration-extra", props + ("C26",),
                             "%s: gen_oid_record yields %d but load does not find it" % (what, n8(oid)))
            if G[oid] != R[oid]:
                self.bad("iteration-differs", props + ("C26",), "%s: oid %d" % (what, n8(oid)))
        for oid in R:
            if oid not in G:
                self.bad("iteration-missing", props + ("C26",),
                         "%s: load finds %d but gen_oid_record does not" % (what, n8(oid)))
        return R

    def fault_active(self):
        return not self.quiet and (self.cfg["p_err"] > 0 or self.outage_on)

    def diff(self, R, S):
        """None if contents R show state S (garbage may be missing), else a description."""
        live = reachable(S)
        for oid in sorted(S):
            if oid in live:
                if oid not in R:
                    return "oid %d missing" % n8(oid)
                if R[oid] != S[oid]:
                    return "oid %d has %s instead of %s" % (n8(oid), brief({oid: R[oid]}),
                                                            brief({oid: S[oid]}))
            elif oid in R and R[oid] != S[oid]:
                return "unreferenced oid %d has %s instead of %s" % (
                    n8(oid), brief({oid: R[oid]}), brief({oid: S[oid]}))
        for oid in sorted(R):
            if oid not in S:
                return "oid %d (%s) was never committed in this state" % (n8(oid), brief({oid: R[oid]}))
        return None

    def bad(self, kind, props, detail):
        props = tuple(props)
        if self.failed_commits:
            props += ("C04",)
        if self.pack_failed:
            props += ("C06", "C07")
        ctx = self.in_op or {}
        self.sim.violate(kind, tuple(dict.fromkeys(props)),
                         "[%s op %s:%s] %s" % (self.kind, ctx.get("u"), ctx.get("k"), detail))

    def must_equal(self, st, states, props, what):
        R = self.read_state(st, props, what)
        why = []
        for i, S in enumerate(states):
            d = self.diff(R, S)
            if d is None:
                return i
            why.append(d)
        self.bad("wrong-state", props, "%s: contents differ from every allowed state: %s" % (
            what, "; or ".join(why[:3])))

    def state_props(self):
        p = ("C01", "C02")
        if self.packer is not None or (self.in_op or {}).get("k") in ("pack", "pstep", "pstart"):
            p += ("C06", "C05")
        return p

    # ---- building transactions
    def build(self, rng, stx, live, store_ok):
        """A legal transaction: references go to stored or new objects only."""
        cfg = self.cfg
        changes = {}
        state = self.acked
        nnew = rng.choice([0, 1, 1, 2, 3, 6])
        new = [self.take_oid(stx) for _ in range(nnew)]
        pool = sorted(live)
        nupd = rng.choice([0, 1, 1, 2, 4])
        upd = set(rng.sample(pool, min(nupd, len(pool))))
        if Z not in state:
            upd.add(Z)
        if new and rng.random() < 0.9:
            upd.add(rng.choice(pool) if pool and rng.random() < 0.6 else Z)
        if not upd and not new:
            upd.add(Z)
        targets = pool + new + ([Z] if Z not in pool else [])
        relink = sorted(store_ok)

        def rec(oid, keep):
            self.token += 1
            refs = set(keep)
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                refs.add(rng.choice(targets))
            if relink and rng.random() < 0.15:
                refs.add(rng.choice(relink))
            refs.discard(oid) if rng.random() < 0.7 else None
            x = rng.random()
            if x < 0.5:
                size = rng.randrange(0, 40)
            elif x < 0.9 or not cfg["big"]:
                size = rng.randrange(40, 300)
            else:
                size = rng.choice([4000, 8170, 8184, 8192, 9000, 20000])
            return make_record(oid, "t%d" % self.token, size, refs, rng)
        for oid in sorted(upd):
            old = [r for r in refs_of(state[oid])] if oid in state else []
            keep = [r for r in old if rng.random() < 0.8]
            changes[oid] = rec(oid, keep)
        hosts = sorted(upd) or [Z]
        for oid in new:
            changes[oid] = rec(oid, [])
        # link the new objects from changed ones (most of them)
        for oid in new:
            if rng.random() < 0.9:
                h = rng.choice(hosts)
                if h not in changes:
                    continue
                r = changes[h]
                self.token += 1
                data = r[12:12 + int.from_bytes(r[8:12], "big")]
                from durus.serialize import pack_record
                refs = set(refs_of(r))
                refs.add(oid)
                changes[h] = pack_record(h, data, b"".join(sorted(refs)))
        if cfg["alias"] and rng.random() < 0.5:
            # make the length of a record equal to an existing identifier (or close to it)
            from durus.serialize import pack_record
            h = sorted(changes)[0]
            r = changes[h]
            want = n8(h) + rng.choice([0, 0, 8, -8])
            data = r[12:12 + int.from_bytes(r[8:12], "big")]
            refs = refs_of(r)
            base = 12 + 8 * len(refs)
            self.token += 1
            d2 = b"cmod\nAa\nt%d " % self.token
            if want - base >= len(d2):
                changes[h] = pack_record(h, d2.ljust(want - base, b"x"), b"".join(refs))
        # every reference must be to something stored or new
        for oid, r in changes.items():
            for ref in refs_of(r):
                if ref not in changes and ref not in state:
                    raise HarnessError("illegal reference")
        return changes

    def take_oid(self, st):
        oid = st.new_oid()
        if not isinstance(oid, (bytes, bytearray)) or len(oid) != 8:
            self.bad("bad-oid", ("C08",), "new_oid() returned %r" % (oid,))
        oid = bytes(oid)
        if oid in self.issued:
            self.bad("oid-issued-twice", ("C08",), "new_oid() returned %d twice" % n8(oid))
        if oid in self.acked and oid in reachable(self.acked):
            self.bad("oid-in-use", ("C08",), "new_oid() returned %d, which is a stored object" % n8(oid))
        if oid in self.cached:
            self.bad("oid-cached", ("C08",),
                     "new_oid() returned %d, which a client still has cached" % n8(oid))
        self.issued.add(oid)
        self.universe.add(oid)
        return oid

    # ---- operations
    def run(self):
        sim = self.sim
        self.setup()
        sim.cur.ctx = "o0"
        self.in_op = {"u": 0, "k": "open"}
        self.st = self.open()
        self.after_base()
        try:
            self.prefill(self.cfg["prefill"] + 1)
            self.quiet = False
            for op in self.plan["ops"]:
                self.do(op)
            try:
                self.finish()
            except Violation:
                raise
            except Exception as e:
                if isinstance(e, HarnessError):
                    raise
                self.bad("unexpected-exception", ("C01", "C05", "C04", "C06", "C07"),
                         "at the end: %r at %s" % (e, where(e)))
        finally:
            simfs.use(None)

    def prefill(self, n):
        """Raise the identifiers in use, so that lengths and identifiers can coincide."""
        rng = random.Random(n)
        self.in_op = {"u": 0, "k": "prefill"}
        st = self.st
        oids = [self.take_oid(st) for _ in range(n)]
        ch = {}
        for i, o in enumerate(oids):
            refs = set(oids[i + 1:i + 1 + rng.randrange(4)])
            if i + 1 < len(oids):
                refs.add(oids[i + 1])
            self.token += 1
            ch[o] = make_record(o, "t%d" % self.token, rng.randrange(0, 60), refs, rng)
        st.begin()
        for o in sorted(ch):
            st.store(o, ch[o])
        st.end()
        self.acked = ch
        self.issued -= set(ch)
        self.mark_bound()

    def do(self, op):
        sim = self.sim
        self.in_op = op
        sim.cur.ctx = "o%d" % op["u"]
        sim.ev("op", op["k"], op["r"])
        sim.stat("op." + op["k"])
        self.snaps = []
        self.fault_seen = False
        try:
            getattr(self, "op_" + op["k"])(random.Random(op["r"]))
            if self.sim.cur.proc.dead:
                raise SimKilled()
        except SimKilled:
            self.recover(None)
        except Violation:
            raise
        except Exception as e:
            if io_error(e) and (self.fault_seen or self.outage_on):
                sim.ev("op-error", type(e).__name__)
            else:
                import traceback
                self.bad("unexpected-exception", self.state_props() + ("C07",) if
                         op["k"] in ("pack", "pstart", "pstep") else ("C01", "C05", "C04"),
                         "%s raised %r at %s" % (op["k"], e, where(e)))
        self.verify_snaps()

    def live(self):
        return reachable(self.acked)

    def relinkable(self):
        """Unreachable objects that are still stored."""
        live = self.live()
        out = set()
        old, self.quiet = self.quiet, True
        try:
            for o in sorted(self.acked):
                if o not in live and o not in self.collectable:
                    try:
                        self.st.load(o)
                    except KeyError:
                        continue
                    out.add(o)
        finally:
            self.quiet = old
        return out

    def op_commit(self, rng, abandon=False):
        sim = self.sim
        st = self.st
        if self.retry is not None and rng.random() < 0.7:
            changes = self.retry
            self.retry = None
            # a retried transaction must still be legal
            known = set(changes) | self.live() | self.relinkable()
            if any(ref not in known for r in changes.values() for ref in refs_of(r)):
                return
        else:
            changes = self.build(rng, st, self.live(), self.relinkable())
        new_state = dict(self.acked)
        new_state.update(changes)
        st.begin()
        if not abandon:
            self.maybe = self.maybe + [new_state]
        items = list(changes.items())
        rng.shuffle(items)
        if abandon:
            for oid, r in items[:rng.randint(1, len(items))]:
                st.store(oid, r)
            self.aborted_records = True
            return
        try:
            for oid, r in items:
                st.store(oid, r)
            st.end()
        except Exception as e:
            if sim.cur.proc.dead:
                raise SimKilled()
            if not (self.fault_seen or self.outage_on):
                raise
            self.failed_commits += 1
            sim.stat("commit.failed")
            sim.ev("commit-failed", type(e).__name__)
            if rng.random() < 0.6:
                self.retry = changes
            self.check_in_process(("C04",), "after failed commit")
            return
        if sim.cur.proc.dead:
            raise SimKilled()
        if self.packer is not None:
            self.pack_commits += 1
            self.pack_states.append(dict(new_state))
            self.quiet_pack = False
            sim.stat("commit.during_pack")
        sim.stat("commit.ok")
        # acknowledged
        self.acked = new_state
        self.maybe = []
        self.revert_failed = False
        self.issued -= set(changes)
        self.cached |= set(changes)
        self.mark_bound()
        sim.states.add(hash_state(new_state))
        if rng.random() < 0.3 and self.cfg["snap_p"] > 0:
            # power loss immediately after the acknowledgement
            self.snap_now()

    def snap_now(self):
        v = self.sim.decide("snapack", lambda r: r.getrandbits(30))
        if v is None:
            return
        r = random.Random(v)
        self.sim.stat("image.power")
        self.snaps.append((self.fs.clone(r), "power", v, "acked", "", self.allowed()))

    def op_abandon(self, rng):
        self.op_commit(rng, abandon=True)

    def op_alloc(self, rng):
        for _ in range(rng.randint(1, 3)):
            self.take_oid(self.st)

    def op_check(self, rng):
        self.check_in_process(("C01", "C05"), "check")
        live = self.live()
        for oid in self.acked:
            if oid in live or oid not in self.collectable:
                self.cached.add(oid)

    def check_in_process(self, props, what):
        """Contents as seen through the running storage equal the acknowledged state."""
        if self.packs or self.packer is not None:
            props += ("C05",)
        old = self.quiet
        self.quiet = True
        try:
            self.must_equal(self.st, [self.acked], props, what)
        finally:
            self.quiet = old

    def op_sync(self, rng):
        for oid in self.st.sync():
            self.cached.discard(bytes(oid))

    def op_pack(self, rng):
        if self.packer is not None:
            return self.op_pdrain(rng)
        self.op_pstart(rng)
        if self.packer is not None:
            self.op_pdrain(rng)

    def op_pstart(self, rng):
        if self.packer is not None or Z not in self.acked:
            return
        if self.aborted_records:
            self.st.begin()
            self.aborted_records = False
        try:
            self.packer = self.st.get_packer()
        except Exception as e:
            if sim_dead(self):
                raise SimKilled()
            if not (self.fault_seen or self.outage_on):
                raise
            self.pack_failed = True
            self.packer = None
            return
        self.pack_steps = 0
        self.pack_states = [dict(self.acked)]
        self.swapped = False
        self.quiet_pack = True
        self.sim.stat("pack.started")

    def op_pstep(self, rng):
        self.steps(rng.choice([1, 1, 2, 3, 5, 10]))

    def op_pdrain(self, rng):
        self.steps(None)

    def steps(self, n):
        sim = self.sim
        limit = 400 + 40 * len(self.universe) + 20 * self.pack_commits
        while self.packer is not None and (n is None or n > 0):
            if n is not None:
                n -= 1
            try:
                ino = self.fs.names.get(MAIN)
                next(self.packer)
                self.pack_steps += 1
                if self.fs.names.get(MAIN) is not ino:
                    # the packed file has taken its place (the packer may have more to do)
                    self.after_base(states=self.pack_states)
                    self.swapped = True
            except StopIteration:
                if sim_dead(self):
                    raise SimKilled()
                self.pack_done()
                return
            except Exception as e:
                if sim_dead(self):
                    raise SimKilled()
                if not (self.fault_seen or self.outage_on):
                    raise
                sim.stat("pack.failed")
                sim.ev("pack-failed", type(e).__name__)
                self.pack_failed = True
                close_packer(self)
                self.collectable |= self.unreachable()
                self.check_in_process(("C06",), "after failed pack")
                return
            if self.pack_steps > limit:
                self.bad("pack-endless", ("C07",), "pack not finished after %d steps" % self.pack_steps)

    def unreachable(self):
        live = self.live()
        return set(o for o in self.acked if o not in live)

    def pack_done(self):
        self.packer = None
        self.packs += 1
        self.sim.stat("pack.finished")
        self.collectable |= self.unreachable()
        self.check_in_process(("C05",), "after pack")
        if self.quiet_pack:
            self.sim.stat("pack.quiet")
            live = self.live()
            old, self.quiet = self.quiet, True
            try:
                have = set(bytes(o) for o, r in self.st.gen_oid_record())
            finally:
                self.quiet = old
            if have != live:
                self.bad("garbage-left", ("C07",), "after a pack without commits the storage holds "
                         "%s instead of the reachable %s" % (
                             sorted(map(n8, have)), sorted(map(n8, live))))
        if not self.swapped:
            self.after_base(states=self.pack_states)

    def op_reopen(self, rng, repair=False):
        self.shutdown()
        self.reopen(repair)

    def shutdown(self):
        if self.packer is not None:
            p, self.packer = self.packer, None
            self.st.close()
            try:
                p.close()
            except Exception:
                pass
            self.collectable |= self.unreachable()
            # the process ends (a pack in progress may keep its own file open)
            self.fs.kill_proc(self.sim.cur.proc)
        else:
            self.st.close()
        if sim_dead(self):
            raise SimKilled()
        self.st = None

    def reopen(self, repair=False):
        """A clean restart: must open without repair and show the acknowledged state."""
        old, self.quiet = self.quiet, True
        self.clear_faults()
        try:
            if self.revert_failed:
                self.sim.stat("reopen.after_failed_revert")
                self.st, i = self.open_after_crash(self.allowed(), ("C04",), "after a failed revert")
                # what is shown now was perhaps never synced
                states = self.allowed()
                self.acked = dict(states[i])
                self.maybe = [s for s in states if s != self.acked]
                self.revert_failed = False
                self.reset_incarnation()
                return
            try:
                self.st = self.open(repair=repair)
            except Exception as e:
                self.bad("reopen-refused", ("C01", "C04") if self.failed_commits else ("C01", "C05"),
                         "clean reopen raised %r at %s" % (e, where(e)))
            self.reset_incarnation()
            self.must_equal(self.st, [self.acked], ("C01", "C05"), "after reopening")
        finally:
            self.quiet = old

    def reset_incarnation(self):
        self.issued = set()
        self.cached = set()
        self.aborted_records = False
        self.retry = None

    def clear_faults(self):
        self.fs.outage = None
        self.outage_on = False

    def op_repair(self, rng):
        self.op_reopen(rng, repair=self.kind != "sqlite")

    def op_crash(self, rng):
        self.sim.stat("fault.kill.between")
        self.sim.kill(self.sim.cur.proc)
        raise SimKilled()

    def op_diskfull(self, rng):
        e = rng.choice([errno.ENOSPC, errno.ENOSPC, errno.EIO])
        n = rng.choice([-1, -1, 1, 3, 8])
        room = rng.choice([0, 0, 3, 17, 100])
        self.fs.outage = [e, n, room] if e == errno.ENOSPC else [e, n]
        self.outage_on = True
        self.sim.stat("outage.set")

    def op_diskok(self, rng):
        self.clear_faults()

    # ---- crashes
    def recover(self, how):
        sim = self.sim
        self.crashes += 1
        sim.stat("crash.recovered")
        v = sim.decide("image", lambda r: r.getrandbits(30)) or 0
        r = random.Random(v)
        power = v != 0 and r.random() < 0.5
        allowed = self.allowed()
        props = self.state_props()
        active = self.packer is not None or self.in_op["k"] in ("pack", "pstep", "pdrain", "pstart")
        img = self.fs.clone(r if power else None)
        img.sim = sim
        if self.packer is not None:
            self.collectable |= self.unreachable()
        drop(self)
        self.fs = img
        self.quiet = True
        self.new_process()
        simfs.use(img)
        self.clear_faults()
        self.st, i = self.open_after_crash(allowed, props + (("C06",) if active else ()),
                                           "after %s" % ("power loss" if power else "process crash"))
        if i:
            sim.stat("crash.inflight_applied")
        self.acked = dict(allowed[i])
        self.maybe = []
        self.revert_failed = False
        self.reset_incarnation()
        self.quiet = False
        self.after_base(False)

    def open_after_crash(self, allowed, props, what):
        try:
            st = self.open()
        except SimKilled:
            raise HarnessError("killed while quiet")
        except Exception as e0:
            self.sim.stat("crash.repair_used")
            e = "%r at %s" % (e0, where(e0))
            e0 = None
            if self.kind == "sqlite":
                self.bad("crash-unopenable", props, "%s: open raised %s" % (what, e))
            # the process that could not open the file ends; a new one repairs
            simfs.CUR.kill_proc(self.sim.cur.proc)
            try:
                st = self.open(repair=True)
            except Exception as e2:
                self.bad("crash-unopenable", props, "%s: open raised %s, with repair %r at %s" % (
                    what, e, e2, where(e2)))
        i = self.must_equal(st, allowed, props, what)
        return st, i

    def verify_snaps(self):
        snaps, self.snaps = self.snaps, []
        if not snaps:
            return
        sim = self.sim
        keep = (self.fs, self.acked, self.maybe, self.issued, self.cached, self.st, self.packer,
                self.quiet, sim.cur.proc, self.token, self.bounds, self.base_len,
                self.aborted_records, self.retry, self.outage_on, set(self.collectable),
                sim.now, set(self.universe), self.pack_commits, self.quiet_pack)
        self.quiet = True
        for img, mode, v, call, name, allowed in snaps:
            sim.stat("image.checked")
            p = Proc("image")
            p.on_death.append(lambda img=img, p=p: img.kill_proc(p))
            sim.cur.proc = p
            simfs.use(img)
            self.packer = None
            what = "image (%s) at %s %s" % ({"power": "power loss", "proc": "process crash"}[mode],
                                            call, name)
            props = self.state_props()
            self.packer = keep[6]
            props = tuple(dict.fromkeys(props + self.state_props()))
            self.packer = None
            st, i = self.open_after_crash(allowed, props, what)
            if i:
                sim.stat("image.inflight_applied")
            # life goes on from the image: commit, reopen, compare
            self.fs = img
            self.st = st
            self.acked = dict(allowed[i])
            self.maybe = []
            self.reset_incarnation()
            r = random.Random(v ^ 0x5555)
            if Z in self.acked and r.random() < 0.6:
                try:
                    ch = self.build(r, st, self.live(), set())
                    st.begin()
                    for oid in sorted(ch):
                        st.store(oid, ch[oid])
                    st.end()
                    self.acked.update(ch)
                    if r.random() < 0.4:
                        st.close()
                        st = self.open()
                    if r.random() < 0.3:
                        for _ in st.get_packer():
                            pass
                        have = set(bytes(o) for o, _ in st.gen_oid_record())
                        if have != reachable(self.acked):
                            self.bad("garbage-left", ("C07", "C06"),
                                     what + ": pack after the crash leaves %s, reachable %s" % (
                                         sorted(map(n8, have)),
                                         sorted(map(n8, reachable(self.acked)))))
                    st.close()
                    st = self.open()
                except Violation:
                    raise
                except Exception as e:
                    self.bad("unusable-after-crash", props + ("C07",),
                             "%s: continuing raised %r at %s" % (what, e, where(e)))
                self.must_equal(st, [self.acked], props, what + ", continued")
            st.close()
        (self.fs, self.acked, self.maybe, self.issued, self.cached, self.st, self.packer,
         self.quiet, sim.cur.proc, self.token, self.bounds, self.base_len,
         self.aborted_records, self.retry, self.outage_on, self.collectable,
         sim.now, self.universe, self.pack_commits, self.quiet_pack) = keep
        simfs.use(self.fs)

    # ---- cuts of the file (C03)
    def after_base(self, known=True, states=()):
        """The file has just been created, packed or recovered: remember where commits start."""
        self.base_states = list(states)     # other states that a part of it may show
        if len(states) > 1:
            # A pack copies objects in the state they are in when it comes to them and then
            # appends all that was committed meanwhile: a part of that is no committed state.
            known = False
        self.base_known = known     # nothing but a creation or a pack wrote the present file
        if self.kind == "sqlite":
            return
        d = self.fs.get(MAIN)
        self.base_len = len(d) if d is not None else 0
        self.bounds = [(self.base_len, dict(self.acked))]

    def mark_bound(self):
        if self.kind == "sqlite" or self.base_len is None:
            return
        d = self.fs.get(MAIN)
        if self.bounds and len(d) < self.bounds[-1][0]:
            return
        self.bounds.append((len(d), dict(self.acked)))

    def op_cut(self, rng):
        if self.kind == "sqlite" or self.packer is not None or not self.bounds:
            return
        if self.maybe:
            return
        data = self.fs.get(MAIN)
        last = self.bounds[-1][0]
        if len(data) != last:
            return
        lo = self.base_len
        cuts = set()
        if self.base_known and rng.random() < 0.5:
            # inside the part written by the creation or the last pack
            for _ in range(8):
                cuts.add(rng.randint(1, lo))
            if self.kind == "file" and rng.random() < 0.7:
                cuts.add(16 + n8(data[8:16]))
        for _ in range(12):
            cuts.add(rng.randint(lo, last))
        for b, s in self.bounds:
            for d in (-9, -8, -7, -4, -1, 0, 1, 7, 8, 9, 16):
                if rng.random() < 0.4 and lo <= b + d <= last:
                    cuts.add(b + d)
        keep = (self.fs, self.sim.cur.proc, self.quiet, self.acked, self.issued, self.cached,
                self.token, set(self.universe), self.retry, self.aborted_records)
        self.quiet = True
        try:
            for c in sorted(cuts):
                self.sim.stat("cut.tried")
                self.check_cut(data[:c], c, rng)
        finally:
            (self.fs, self.sim.cur.proc, self.quiet, self.acked, self.issued, self.cached,
             self.token, self.universe, self.retry, self.aborted_records) = keep
            simfs.use(self.fs)

    def check_cut(self, data, c, rng):
        want = None
        for b, s in self.bounds:
            if b <= c:
                want = s
        states = [s for b, s in self.bounds]
        sim = self.sim
        for mode in ("ro", "rw", "repair"):
            fs = simfs.FS(sim)
            fs.put(MAIN, data)
            simfs.use(fs)
            self.fs = fs
            sim.cur.proc = Proc("cut")
            what = "file cut at %d (boundaries %s), mode %s" % (
                c, [b for b, s in self.bounds][-6:], mode)
            try:
                st = self.open(repair=mode == "repair", readonly=mode == "ro")
            except Exception as e:
                if mode == "repair" and want is not None:
                    self.bad("cut-unrepairable", ("C03",), "%s: %r at %s" % (what, e, where(e)))
                if c in [b for b, s in self.bounds]:
                    self.bad("boundary-refused", ("C03", "C02"), "%s: %r" % (what, e))
                sim.stat("cut.refused")
                if mode == "ro" and fs.get(MAIN) != data:
                    self.bad("readonly-wrote", ("C10",), what)
                continue
            sim.stat("cut.opened")
            R = self.read_state(st, ("C03", "C02"), what)
            if want is None:
                # no complete commit is in the file
                if all(self.diff(R, s) is not None for s in states + self.base_states + [{}] * (not self.packs)):
                    self.bad("cut-wrong-state", ("C03", "C02"), "%s: %s" % (what, self.diff(R, states[0])))
                if mode == "ro" and fs.get(MAIN) != data:
                    self.bad("readonly-wrote", ("C10", "C03"), what)
            elif mode == "repair":
                d = self.diff(R, want)
                if d is not None:
                    self.bad("cut-wrong-state", ("C03", "C02"), "%s: %s" % (what, d))
                # and it accepts and preserves new commits
                self.acked = dict(want)
                self.reset_incarnation()
                if Z in self.acked:
                    ch = self.build(rng, st, self.live(), set())
                    st.begin()
                    for oid in sorted(ch):
                        st.store(oid, ch[oid])
                    st.end()
                    st.close()
                    self.acked.update(ch)
                    try:
                        st = self.open()
                    except Exception as e:
                        self.bad("repaired-unusable", ("C03",), "%s: reopen after a commit: %r" % (what, e))
                    self.must_equal(st, [self.acked], ("C03",), what + ", continued")
            else:
                if all(self.diff(R, s) is not None for s in states):
                    self.bad("cut-wrong-state", ("C03", "C02"), "%s: %s" % (what, self.diff(R, want)))
                if mode == "ro" and fs.get(MAIN) != data:
                    self.bad("readonly-wrote", ("C10", "C03"), what)
            st.close()

    def finish(self):
        sim = self.sim
        self.in_op = {"u": 999, "k": "finish"}
        sim.cur.ctx = "fin"
        self.quiet = True
        self.clear_faults()
        if self.packer is not None:
            # let a running pack end
            try:
                self.fault_seen = False
                self.steps(None)
            except SimKilled:
                raise HarnessError("kill while quiet")
        self.check_in_process(("C01",), "at the end")
        # the disk works: commits must succeed now and last
        r = random.Random(7)
        for i in range(2):
            ch = self.build(r, self.st, self.live(), set()) if Z in self.acked else None
            if ch is None:
                break
            try:
                self.st.begin()
                for oid in sorted(ch):
                    self.st.store(oid, ch[oid])
                self.st.end()
            except Exception as e:
                self.bad("commit-refused", ("C04", "C06", "C01"),
                         "commit on a working disk raised %r at %s" % (e, where(e)))
            self.acked = dict(self.acked)
            self.acked.update(ch)
            self.maybe = []
        self.check_in_process(("C01",), "at the end, after more commits")
        if Z in self.acked and (self.packs or self.pack_failed or self.crashes) and not self.aborted_records:
            try:
                p = self.st.get_packer()
                n = 0
                for _ in p:
                    n += 1
                    if n > 2000 + 60 * len(self.universe):
                        self.bad("pack-endless", ("C07",), "final pack")
            except Violation:
                raise
            except Exception as e:
                self.bad("pack-refused", ("C07", "C06"), "final pack raised %r at %s" % (e, where(e)))
            have = set(bytes(o) for o, _ in self.st.gen_oid_record())
            if have != self.live():
                self.bad("garbage-left", ("C07",), "final pack leaves %s, reachable %s" % (
                    sorted(map(n8, have)), sorted(map(n8, self.live()))))
            self.check_in_process(("C05", "C01"), "after the final pack")
        self.st.close()
        self.reopen()
        self.st.close()


def hash_state(s):
    import hashlib
    h = hashlib.blake2b(digest_size=8)
    for o in sorted(s):
        h.update(o)
        h.update(s[o])
    return h.hexdigest()


def sim_dead(run):
    return run.sim.cur.proc.dead


def close_packer(run):
    p, run.packer = run.packer, None
    if p is not None and hasattr(p, "close"):
        try:
            p.close()
        except Exception:
            pass


def drop(run):
    """Forget the dead process's objects (their destructors cannot have effects)."""
    close_packer_dead(run)
    run.st = None


def close_packer_dead(run):
    p, run.packer = run.packer, None
    if p is not None and hasattr(p, "close"):
        try:
            p.close()
        except BaseException:
            pass


def where(e):
    tb = e.__traceback__
    out = []
    while tb is not None:
        f = tb.tb_frame.f_code
        if "durus" in f.co_filename:
            out.append("%s:%s" % (os.path.basename(f.co_filename), f.co_name))
        tb = tb.tb_next
    return ">".join(out[-3:])


def run(sim, plan):
    Run(sim, plan).run()
