"""Several processes and one storage file: writers, openers, read-only readers and copiers.

Every process is an actor; the scheduler may switch at every file-system call and may kill a
process in any of them.  The model is the list of commits (acknowledged, in flight or left behind
by a dead writer); each look at the file has a window of moments and must show one of its states.
"""
import random

import simfs
from core import SimKilled, Proc, Violation, HarnessError
from h_storage import (MAIN, Z, klass, n8, make_record, refs_of, reachable, brief, hash_state, where)

ROLES = ("w", "r", "c")


def generate(rng, prof):
    kind = rng.choice(prof.get("kinds", ["file", "file2"]))
    nw = rng.choice(prof.get("writers", [1, 2, 3]))
    nr = rng.choice(prof.get("readers", [0, 1, 2]))
    nc = rng.choice(prof.get("copiers", [0]))
    cfg = {
        "kind": kind,
        "buffer": rng.choice([8192, 8192, 64, 512]),
        "increment": rng.choice([1, 2, 5, 20]),
        "actors": ["w"] * nw + ["r"] * nr + ["c"] * nc,
        "p_kill": prof.get("p_kill", 0.0) * rng.choice([0, 1, 1, 2]),
        "p_short": prof.get("p_short", 0.0) * rng.choice([0, 1, 2]),
        "p_switch": rng.choice([0.05, 0.2, 0.2, 0.5]),
        "prefill": rng.choice([0, 1, 3, 10, 30]) if rng.random() < 0.85 else -1,
        "seed": rng.getrandbits(30),
    }
    w = {"w": dict(open=3, commit=10, abandon=.5, check=1, pack=1, pstart=1.5, pstep=6, close=1.5, die=.5,
                   selfopen=.7, sleep=2, alien=.5),
         "r": dict(ropen=4, rread=4, rwrite=2, rclose=2, rdamaged=1, sleep=1.5, die=.3),
         "c": dict(copy=5, sleep=1)}
    for role in w:
        w[role].update(prof.get("ops", {}).get(role, {}))
    ops = []
    u = 0
    for a, role in enumerate(cfg["actors"]):
        names = sorted(w[role])
        weights = [w[role][k] * (rng.choice([0, 1, 1, 2]) if k not in ("commit", "ropen", "copy", "open")
                                 else 1) for k in names]
        for i in range(rng.choice(prof.get("lengths", [3, 6, 10, 16]))):
            u += 1
            ops.append({"u": u, "k": rng.choices(names, weights)[0], "r": rng.getrandbits(30), "a": a})
    return {"h": "files", "cfg": cfg, "ops": ops}


class Att(object):
    """One commit that was begun."""
    def __init__(self, state, t):
        self.state = state
        self.t0 = t
        self.t1 = None
        self.status = "open"    # acked, dropped (with t1)
        self.seen = None


class Ctx(object):
    """What one actor has."""
    def __init__(self, name, role):
        self.name = name
        self.role = role
        self.st = None
        self.packer = None
        self.shown = None
        self.incarnation = 0


class Run(object):
    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.cfg = plan["cfg"]
        self.kind = self.cfg["kind"]
        self.K = klass(self.kind)
        self.token = 0
        self.clock = 0
        self.atts = []
        self.acked = []         # attempts in order of acknowledgement (the first: the empty file)
        self.universe = set([Z])
        self.holder = None      # Ctx
        self.trying = {}        # actor name -> {"alone": bool, ...} of opens for writing under way
        self.closing = set()
        self.looks = []         # readers' and copiers' opens under way
        self.packing = 0
        self.cur_u = None

    # ---- the model
    def t(self):
        self.clock += 1
        return self.clock

    def last(self):
        return self.acked[-1]

    def window(self, t0, t1):
        """Attempts whose state the file may have shown completely at a moment between."""
        out = []
        for i, a in enumerate(self.acked):
            nxt = self.acked[i + 1].t1 if i + 1 < len(self.acked) else None
            if a.t0 <= t1 and (nxt is None or nxt > t0):
                out.append(a)
        for a in self.atts:
            if a.status != "acked" and a.t0 <= t1 and (a.t1 is None or a.t1 > t0):
                out.append(a)
        return out

    def unresolved(self):
        return [a for a in self.atts if a.status == "open"]

    def bad(self, kind, props, detail):
        if self.sim.cur.proc.dead:
            raise SimKilled()
        self.sim.violate(kind, tuple(props), "[%s, %s op %s] %s" % (
            self.kind, self.sim.cur.name, self.cur_u, detail))

    def read_state(self, st, props, what):
        R = {}
        for oid in sorted(self.universe):
            try:
                R[oid] = bytes(st.load(oid))
            except KeyError:
                pass
            except Exception as e:
                self.bad("load-error", props, "%s: load(%d) raised %r" % (what, n8(oid), e))
        G = {}
        try:
            for oid, rec in st.gen_oid_record():
                G[bytes(oid)] = bytes(rec)
        except Exception as e:
            self.bad("iteration-error", props, "%s: gen_oid_record raised %r" % (what, e))
        for oid in sorted(set(G) | set(R)):
            if oid not in R and oid not in self.universe:
                try:
                    R[oid] = bytes(st.load(oid))
                except KeyError:
                    pass
            if R.get(oid) != G.get(oid):
                self.bad("iteration-differs", props, "%s: load and gen_oid_record differ on %d" % (
                    what, n8(oid)))
        return R

    def diff(self, R, S):
        live = reachable(S)
        for oid in sorted(S):
            if oid in live and oid not in R:
                return "oid %d missing" % n8(oid)
            if oid in R and R[oid] != S[oid]:
                return "oid %d has %s instead of %s" % (n8(oid), brief({oid: R[oid]}), brief({oid: S[oid]}))
        for oid in sorted(R):
            if oid not in S:
                return "oid %d (%s) is not in this state" % (n8(oid), brief({oid: R[oid]}))
        return None

    def match(self, R, atts, props, what):
        """The attempt whose state R is."""
        why = []
        for a in reversed(atts):
            d = self.diff(R, a.state)
            if d is None:
                return a
            why.append(d)
        self.bad("wrong-state", props, "%s: the contents differ from every state they may show: %s" % (
            what, "; or ".join(why[:4])))

    # ---- environment
    def setup(self):
        sim = self.sim
        import logging
        simfs.BUFFER_SIZE = self.cfg["buffer"]
        logging.getLogger("durus").setLevel(50)
        if hasattr(self.K, "_PACK_INCREMENT"):
            self.K._PACK_INCREMENT = self.cfg["increment"]
        sim.p_switch = self.cfg["p_switch"]
        fs = self.fs = simfs.FS(sim)
        simfs.use(fs)
        a = Att({}, self.t())
        a.status, a.t1 = "acked", self.t()
        self.acked.append(a)
        self.atts.append(a)
        if self.cfg["prefill"] >= 0:
            st = self.K(MAIN)
            ch = self.build(random.Random(self.cfg["seed"]), st, self.cfg["prefill"])
            self.store(st, ch)
            st.close()
            self.base_ok = True
        else:
            self.base_ok = False        # no complete file yet
        fs.faults = self.faults
        fs.on_call = self.on_call
        fs.watch = self.watch
        self.quiet = False

    def new_proc(self, c):
        c.incarnation += 1
        p = Proc("%s.%d" % (c.name, c.incarnation))
        p.reader = c.role == "r"
        fs = self.fs

        def died():
            fs.kill_proc(p)
            self.gone(c)
        p.on_death.append(died)
        self.sim.cur.proc = p

    def gone(self, c):
        if self.holder is c:
            self.holder = None
        self.trying.pop(c.name, None)
        self.closing.discard(c.name)

    def faults(self, call, path, nbytes):
        if self.quiet:
            return None
        pk, ps = self.cfg["p_kill"], self.cfg["p_short"]
        if not self.base_ok and not self.acked[1:] or self.sim.cur.name[0] == "c":
            pk = 0      # (a file whose creation was cut off is nobody's guarantee)
        sim = self.sim

        def gen(r):
            x = r.random()
            if x < pk:
                return {"k": r.random()}
            if x - pk < ps and call in ("read", "write") and nbytes > 1:
                return {"short": r.randrange(1, nbytes)}
            return None
        f = sim.decide("fs." + call, gen)
        if f is None:
            return None
        if "k" in f:
            sim.stat("fault.kill")
            sim.stat("fault.kill." + call)
            if call == "write" and nbytes:
                return {"short": int(f["k"] * (nbytes + 1)), "kill": 1}
            sim.kill(sim.cur.proc)
            raise SimKilled()
        return f

    def on_call(self, call, path, nbytes):
        if self.quiet:
            return
        p = self.sim.cur.proc
        if getattr(p, "reader", False):
            self.bad("readonly-wrote", ("C10",), "a read-only open of the file makes the call %s on %s" % (
                call, path))
        if call == "open-create" and path == MAIN and self.holder is not None and MAIN not in self.fs.names:
            self.bad("name-vanished", ("C09", "C05"), "%s holds the file open but there is no file of its name"
                     % self.holder.name)

    def watch(self, call, what):
        """After an effect on the disk."""
        if self.quiet or self.holder is None:
            return
        here = self.sim.cur.name
        ours = here == self.holder.name and here not in self.trying
        if ours:
            return
        if what is self.fs.names.get(MAIN) or what == MAIN:
            self.bad("opener-wrote", ("C09",), "%s of the file by %s while %s has it open" % (
                call, here, self.holder.name))

    # ---- transactions
    def build(self, rng, st, n=None):
        cur = self.last().state
        live = sorted(reachable(cur))
        nnew = rng.choice([0, 1, 1, 2, 4]) if n is None else n
        if Z not in cur:
            nnew += 1           # (as a connection does: the first one is for the root)
        new = []
        for i in range(nnew):
            o = bytes(st.new_oid())
            if o in live:
                self.bad("oid-in-use", ("C08",), "new_oid() returned %d, which is a stored object" % n8(o))
            new.append(o)
        ch = {}
        upd = set(rng.sample(live, min(len(live), rng.choice([0, 1, 1, 2, 3]))))
        if Z not in cur:
            upd.add(Z)
            if Z in new:
                new.remove(Z)
        if not upd:
            upd.add(rng.choice(live))
        targets = live + new
        for o in sorted(upd) + new:
            keep = set(r for r in refs_of(cur[o]) if rng.random() < 0.8) if o in cur and o in upd else set()
            for _ in range(rng.choice([0, 0, 1, 2])):
                if targets:
                    keep.add(rng.choice(targets))
            ch[o] = keep
        hosts = sorted(upd)
        for i, o in enumerate(new):
            h = rng.choice(hosts + new[:i])
            ch[h].add(o)
        out = {}
        for o in sorted(ch):
            self.token += 1
            size = rng.randrange(0, 60) if rng.random() < .7 else rng.choice([200, 1000, 4000, 9000])
            out[o] = make_record(o, "t%d" % self.token, size, ch[o], rng)
        self.universe.update(out)
        return out

    def store(self, st, ch):
        """A commit that must succeed (or the process dies)."""
        new = dict(self.last().state)
        new.update(ch)
        st.begin()
        a = Att(new, self.t())
        self.atts.append(a)
        for o in sorted(ch):
            st.store(o, ch[o])
        st.end()
        if self.sim.cur.proc.dead:
            raise SimKilled()
        a.t1 = self.t()
        a.status = "acked"
        self.acked.append(a)
        self.sim.stat("commit.ok")
        self.sim.states.add(hash_state(new))

    # ---- writers
    def attempt(self, c, repair=False, fmt=None):
        """Try to open the file for writing; returns the storage or None."""
        sim = self.sim
        K = fmt or self.K
        busy = self.holder is not None
        who = self.holder
        alone = not busy and not self.trying and not self.closing
        for x in self.trying.values():
            x["alone"] = False
        mark = {"alone": alone}
        self.trying[c.name] = mark
        dirty = bool(self.unresolved())
        sim.ev("try", "repair" if repair else "", busy and who.name)
        e = None
        try:
            kw = {"repair": True} if repair else {}
            st = K(MAIN, **kw)
        except Exception as x:
            e = x
            err = "%r at %s" % (e, where(e))
            st = None
        if sim.cur.proc.dead:
            raise SimKilled()
        self.trying.pop(c.name, None)
        if st is not None:
            sim.stat("open.ok")
            if self.holder is not None:
                self.bad("two-writers", ("C09",), "%s opened the file for writing while %s has it open" % (
                    c.name, self.holder.name))
            if fmt is not None:
                self.bad("alien-format", ("C09", "C02"), "a file of the other format was opened")
            for x in self.trying.values():
                x["alone"] = False
            return st
        sim.stat("open.refused")
        sim.ev("refused", err)
        if busy and self.holder is who:
            sim.stat("open.refused.held")
        if mark["alone"] and fmt is None and (repair or not dirty) and (
                self.base_ok or not self.fs.get(MAIN)):
            self.bad("open-refused", ("C09", "C02", "C01"), "nobody has the file open%s but opening it raised %s"
                     % (", repair is allowed" if repair else "", err))
        return None

    def op_open(self, c, rng):
        if c.st is not None:
            return self.op_check(c, rng)
        repair = bool(self.unresolved()) and rng.random() < 0.7 or rng.random() < 0.1
        st = self.attempt(c, repair)
        if st is None:
            # this process ends
            self.exit(c)
            return
        self.holder = c
        c.st = st
        self.base_ok = True
        cand = [self.last()] + self.unresolved()
        R = self.read_state(st, ("C09", "C01", "C02"), "after opening")
        a = self.match(R, cand, ("C09", "C01", "C02"), "after opening")
        for x in self.unresolved():
            x.t1 = self.t()
            if x is a:
                x.status = "acked"
                self.acked.append(x)
                self.sim.stat("commit.survived")
            else:
                x.status = "dropped"
                if x.seen:
                    self.bad("seen-then-gone", ("C10", "C03", "C02"), "%s showed a commit that is not there "
                             "when a writer opens the file" % x.seen)

    def exit(self, c):
        """The process ends in an orderly way."""
        p = self.sim.cur.proc
        self.drop(c)
        self.fs.kill_proc(p)
        self.gone(c)
        self.new_proc(c)

    def drop(self, c):
        pk, c.packer = c.packer, None
        if pk is not None:
            self.packing -= 1
            try:
                pk.close()
            except BaseException:
                pass
        c.st = None
        c.shown = None

    def ready(self, c, rng):
        if c.st is None:
            self.op_open(c, rng)
        return c.st is not None

    def op_commit(self, c, rng):
        if not self.ready(c, rng):
            return
        self.store(c.st, self.build(rng, c.st))
        if c.packer is not None:
            self.sim.stat("commit.during_pack")

    def op_abandon(self, c, rng):
        if not self.ready(c, rng) or Z not in self.last().state:
            return
        ch = self.build(rng, c.st)
        c.st.begin()
        for o in sorted(ch)[:rng.randint(1, len(ch))]:
            c.st.store(o, ch[o])
        c.st.begin()

    def op_check(self, c, rng):
        if c.st is None:
            return
        R = self.read_state(c.st, ("C09",), "the writer's contents")
        self.match(R, [self.last()], ("C09",), "the writer's contents")

    def op_pack(self, c, rng):
        self.op_pstart(c, rng)
        self.steps(c, None)

    def op_pstart(self, c, rng):
        if not self.ready(c, rng) or c.packer is not None or Z not in self.last().state:
            return
        others = bool(self.closing)
        try:
            p = c.st.get_packer()
        except BlockingIOError:
            if others:
                # the previous holder has let go of the file, and not yet of the file it was packing into
                self.sim.stat("pack.refused")
                return
            raise
        c.packer = p
        self.packing += 1
        self.sim.stat("pack.started")

    def op_pstep(self, c, rng):
        self.steps(c, rng.choice([1, 2, 4, 10]))

    def steps(self, c, n):
        count = 0
        while c.packer is not None and (n is None or count < n):
            count += 1
            if count > 4000 + 100 * len(self.universe):
                self.bad("pack-endless", ("C07",), "pack does not end")
            others = bool(self.closing)
            try:
                next(c.packer)
            except BlockingIOError:
                if not others:
                    raise
                c.packer = None
                self.packing -= 1
                self.sim.stat("pack.refused")
            except StopIteration:
                if self.sim.cur.proc.dead:
                    raise SimKilled()
                c.packer = None
                self.packing -= 1
                self.sim.stat("pack.finished")

    def op_close(self, c, rng):
        if c.st is None:
            return
        if rng.random() < 0.5:
            self.op_check(c, rng)
        # from here on others may open it
        st, c.st = c.st, None
        self.holder = None
        self.closing.add(c.name)
        st.close()
        if self.sim.cur.proc.dead:
            raise SimKilled()
        self.exit(c) if c.packer is not None or rng.random() < 0.5 else None
        self.closing.discard(c.name)
        self.sim.stat("writer.closed")

    def op_die(self, c, rng):
        self.sim.stat("fault.kill.between")
        self.sim.kill(self.sim.cur.proc)
        raise SimKilled()

    def op_selfopen(self, c, rng):
        """The holder's own process tries again."""
        if c.st is None:
            return
        st = self.attempt(c, rng.random() < 0.5)
        if st is not None:
            raise HarnessError("opened twice unnoticed")

    def op_alien(self, c, rng):
        """Somebody tries to open it as a file of the other format."""
        if c.st is not None:
            return
        if not self.base_ok:
            return
        self.attempt(c, rng.random() < 0.3, fmt=klass("file2" if self.kind == "file" else "file"))
        self.exit(c)

    def op_sleep(self, c, rng):
        self.sim.sleep(rng.choice([0.0005, 0.003, 0.02]))

    # ---- readers
    def op_ropen(self, c, rng):
        if c.st is not None:
            return self.op_rread(c, rng)
        t0 = self.t()
        there = MAIN in self.fs.names
        look = {"quiet": not self.unresolved() and not self.packing and self.base_ok and not self.trying}
        self.looks.append(look)
        kw = {"readonly": True}
        if rng.random() < 0.1:
            kw["repair"] = True
        try:
            st = self.K(MAIN, **kw)
        except Exception as e:
            err = "%r at %s" % (e, where(e))
            st = None
        if self.sim.cur.proc.dead:
            raise SimKilled()
        t1 = self.t()
        if st is None:
            self.sim.stat("ropen.refused")
            self.sim.ev("ropen refused", err)
            if there and look["quiet"] and not self.unresolved() and not self.packing and not self.trying and \
                    not any(a.t0 >= t0 for a in self.atts) and "repair" not in kw:
                self.bad("read-refused", ("C10",), "opening the file read-only raised %s although nobody is "
                         "changing it" % err)
            self.exit(c)
            return
        c.st = st
        self.sim.stat("ropen.ok")
        atts = self.window(t0, t1)
        if len(atts) > 1:
            self.sim.stat("ropen.ok.during_commit")
        R = self.read_state(st, ("C10",), "a read-only open")
        a = self.match(R, atts, ("C10",), "a read-only open")
        if a.status == "open":
            a.seen = "a read-only open"
        elif a.status == "dropped":
            self.bad("seen-then-gone", ("C10",), "a read-only open shows a commit that was found incomplete")
        c.shown = R

    def op_rread(self, c, rng):
        if c.st is None:
            return self.op_ropen(c, rng)
        R = self.read_state(c.st, ("C10",), "a read-only open, later")
        self.sim.stat("rread")
        if R != c.shown:
            for o in sorted(set(R) | set(c.shown)):
                if R.get(o) != c.shown.get(o):
                    self.bad("reader-changed", ("C10",), "the state that a read-only open shows changes: oid "
                             "%d was %s, now %s" % (n8(o), brief({o: c.shown[o]}) if o in c.shown else None,
                                                    brief({o: R[o]}) if o in R else None))

    def op_rwrite(self, c, rng):
        """Neither commits nor packs go through a read-only open (on_call watches the disk)."""
        if c.st is None:
            return
        st = c.st
        how = rng.choice(["commit", "pack", "empty"])
        self.sim.stat("rwrite." + how)
        try:
            if how == "pack":
                for _ in st.get_packer():
                    pass
            else:
                st.begin()
                if how == "commit":
                    # (one oid that is there, and one that is new)
                    o = Z if Z in c.shown and rng.random() < 0.5 else bytes(st.new_oid())
                    self.token += 1
                    st.store(o, make_record(o, "r%d" % self.token, 40, [], rng))
                st.end()
        except Exception:
            if self.sim.cur.proc.dead:
                raise SimKilled()
            self.exit(c) if rng.random() < 0.3 else None
            return
        if self.sim.cur.proc.dead:
            raise SimKilled()
        if how != "pack":
            self.bad("readonly-committed", ("C10",), "a commit through a read-only open succeeded")

    def op_rclose(self, c, rng):
        if c.st is None:
            return
        c.st.close()
        self.drop(c)

    def op_rdamaged(self, c, rng):
        """Read-only open of a damaged copy of the file: whatever comes of it, nothing is written."""
        data = self.fs.get(MAIN)
        if not data:
            return
        data = bytearray(data)
        how = rng.choice(["cut", "junk", "zero", "flip", "tail"])
        if how == "cut":
            del data[rng.randrange(len(data)):]
        elif how == "junk":
            data += bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 40)))
        elif how == "zero":
            i = rng.randrange(len(data))
            data[i:] = bytes(len(data) - i)
        elif how == "flip":
            for _ in range(rng.choice([1, 1, 3])):
                data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
        else:
            i = max(0, len(data) - rng.randint(1, 60))
            data[i:] = bytes(rng.getrandbits(8) for _ in range(len(data) - i))
        self.sim.stat("damage." + how)
        with Aside(self, bytes(data)) as fs:
            calls = []
            fs.on_call = lambda call, path, n: calls.append((call, path))
            kw = {"readonly": True}
            if rng.random() < 0.3:
                kw["repair"] = True
            try:
                st = self.K(MAIN, **kw)
                self.sim.stat("damage.opened")
                for o in sorted(self.universe)[:20]:
                    try:
                        st.load(o)
                    except Exception:
                        pass
                st.begin()
                try:
                    st.store(Z, make_record(Z, "x", 40, [], rng))
                    st.end()
                except Exception:
                    pass
                else:
                    self.bad("readonly-committed", ("C10",), "a commit through a read-only open of a damaged "
                             "file succeeded")
                st.close()
            except Exception:
                self.sim.stat("damage.refused")
            st = None
            if calls or fs.content() != {MAIN: bytes(data)}:
                self.bad("readonly-wrote", ("C10",), "opening a damaged file (%s) read-only%s writes: %s" % (
                    how, " with repair" if "repair" in kw else "", calls[:3]))

    # ---- copiers
    def op_copy(self, c, rng):
        t0 = self.t()
        whole = self.base_ok
        try:
            f = open(MAIN, "rb", buffering=0)
        except OSError:
            return
        size = rng.choice([1, 7, 16, 64, 512, 4096])
        if size < 16 and len(self.fs.get(MAIN) or b"") > 3000:
            size = 64
        data = b""
        while True:
            d = f.read(size)
            if not d:
                break
            data += d
            if rng.random() < 0.3:
                self.sim.sleep(rng.choice([0.0002, 0.001]))
        f.close()
        t1 = self.t()
        self.sim.stat("copy.made")
        atts = self.window(t0, t1)
        if len(atts) > 1:
            self.sim.stat("copy.during_commit")
        for mode in ("ro", "rw", "repair"):
            with Aside(self, data) as fs:
                what = "a copy made while the writer works, opened %s" % {
                    "ro": "read-only", "rw": "for writing", "repair": "with repair"}[mode]
                kw = {"readonly": True} if mode == "ro" else {"repair": True} if mode == "repair" else {}
                try:
                    st = self.K(MAIN, **kw)
                except Exception as e:
                    self.sim.stat("copy.refused")
                    if mode == "repair" and whole:
                        self.bad("copy-unrepairable", ("C03",), "%s: %r at %s" % (what, e, where(e)))
                    if fs.get(MAIN) != data and mode != "repair":
                        self.bad("refused-but-wrote", ("C03", "C10"), what)
                    continue
                self.sim.stat("copy.opened")
                R = self.read_state(st, ("C03",), what)
                a = self.match(R, atts, ("C03",), what)
                if a.status == "open":
                    a.seen = "a copy"
                elif a.status == "dropped":
                    self.bad("seen-then-gone", ("C03",), what + " shows a commit that was found incomplete")
                if mode == "ro":
                    if fs.get(MAIN) != data:
                        self.bad("readonly-wrote", ("C10",), what)
                elif Z in a.state:
                    # it accepts and preserves new commits
                    S = dict(a.state)
                    o = rng.choice(sorted(reachable(S)))
                    try:
                        st.begin()
                        r = make_record(o, "copy", rng.choice([30, 300]), refs_of(S[o]), rng)
                        st.store(o, r)
                        st.end()
                        S[o] = r
                        st.close()
                        st = self.K(MAIN)
                    except Exception as e:
                        self.bad("copy-unusable", ("C03",), "%s: continuing raised %r at %s" % (what, e, where(e)))
                    d = self.diff(self.read_state(st, ("C03",), what + ", continued"), S)
                    if d:
                        self.bad("copy-wrong-state", ("C03",), "%s, continued: %s" % (what, d))
                st.close()

    # ---- all of it
    def actor(self, c, ops):
        sim = self.sim
        self.new_proc(c)
        for op in ops:
            sim.cur.ctx = "%s.o%d" % (c.name, op["u"])
            try:
                self.cur_u = op["u"]
                sim.ev("op", op["u"], op["k"])
                sim.stat("op." + op["k"])
                sim.point()
                getattr(self, "op_" + op["k"])(c, random.Random(op["r"]))
                if sim.cur.proc.dead:
                    raise SimKilled()
            except (SimKilled, Exception):
                if not sim.cur.proc.dead:
                    raise
                self.after_kill(c)
        try:
            if c.st is not None:
                if c.role == "w":
                    self.op_close(c, random.Random(1))
                else:
                    self.op_rread(c, random.Random(1))
                    c.st.close()
        except (SimKilled, Exception):
            if not sim.cur.proc.dead:
                raise
            self.after_kill(c)
        self.drop(c)

    def after_kill(self, c):
        self.new_proc(c)        # (destructors of what the dead process had run here, without effect)
        self.drop(c)
        self.sim.stat("process.restarted")

    def run(self):
        sim = self.sim
        self.quiet = True
        try:
            self.setup()
            for i, role in enumerate(self.cfg["actors"]):
                c = Ctx("%s%d" % (role, i), role)
                ops = [op for op in self.plan["ops"] if op["a"] == i]
                sim.spawn(c.name, lambda c=c, ops=ops: self.actor(c, ops))
            how = sim.run()
            if how == "violation":
                raise sim.violations[0] if sim.violations else HarnessError("stopped")
            for a in sim.actors:
                if a.error is not None:
                    raise a.error
            if how == "blocked":
                self.bad("stuck", ("C09", "C10"), "waiting for ever: %s" % "; ".join(sim.stuck))
            if how == "steps":
                self.bad("stuck", ("C09", "C10"), "no end")
            self.finish()
        finally:
            simfs.use(None)

    def finish(self):
        """All processes have ended: the file opens again, complete, and works."""
        sim = self.sim
        self.quiet = True
        sim.cur.ctx = "fin"
        if self.holder is not None or self.trying:
            raise HarnessError("somebody has the file open")
        if not self.base_ok and not self.fs.get(MAIN):
            return
        dirty = bool(self.unresolved())
        c = Ctx("main", "w")
        c.incarnation = 0
        self.new_proc(c)
        rng = random.Random(5)
        st = self.attempt(c)
        if st is None and (dirty or not self.base_ok):
            self.exit(c)
            st = self.attempt(c, repair=True)
        if st is None:
            return
        cand = [self.last()] + self.unresolved()
        R = self.read_state(st, ("C09", "C01", "C02"), "at the end")
        a = self.match(R, cand, ("C09", "C01", "C02"), "at the end")
        for x in self.unresolved():
            if x is not a and x.seen:
                self.bad("seen-then-gone", ("C10", "C03", "C02"), "%s showed a commit that is not there at the "
                         "end" % x.seen)
        for x in self.unresolved():
            x.t1 = self.t()
            x.status = "acked" if x is a else "dropped"
            if x is a:
                self.acked.append(x)
        try:
            self.store(st, self.build(rng, st))
            if rng.random() < 0.5:
                for _ in st.get_packer():
                    pass
            st.close()
            st = self.K(MAIN)
        except Exception as e:
            self.bad("unusable", ("C09", "C01"), "at the end, continuing raised %r at %s" % (e, where(e)))
        R = self.read_state(st, ("C09", "C01"), "at the end, continued")
        self.match(R, [self.last()], ("C09", "C01"), "at the end, continued")
        st.close()


class Aside(object):
    """Another file system holding one file, used without anything else happening."""
    def __init__(self, run, data):
        self.run = run
        self.fs = simfs.FS(run.sim)
        self.fs.put(MAIN, data)
        self.fs.yield_points = False

    def __enter__(self):
        self.proc = self.run.sim.cur.proc
        self.run.sim.cur.proc = Proc("aside")
        self.old = simfs.use(self.fs)
        return self.fs

    def __exit__(self, *a):
        for h in list(self.fs.handles.values()):
            self.fs.close(h)
        simfs.use(self.old)
        self.run.sim.cur.proc = self.proc


def run(sim, plan):
    Run(sim, plan).run()
