"""Servers that come and go on a few addresses: starts, stops, crashes, waiting clients.

Operators run the real start, stop and wait code (through the functions and through the command
line entry point); every server is a process that may be killed in any call.
"""
import io
import logging
import os
import pwd
import random
import socket as socket_mod
import sys

import simfs
import simnet
from core import SimKilled, SimStop, Proc, Violation, HarnessError
from h_storage import klass, where
from h_system import tb

DBS = ["/simfs/db%d" % i for i in range(5)]
ADDR = {"inet": ("127.0.0.1", 2972), "inet2": ("localhost", 3000), "inet6": ("::1", 2972),
        "unix": "/simfs/sock", "unix2": "/simfs/other.sock", "abstract": "@durus"}
CLASSES = {"file": "durus.file_storage.FileStorage", "file2": "durus.file_storage2.FileStorage2",
           "sqlite": "durus.sqlite_storage.SqliteStorage"}


def generate(rng, prof):
    names = sorted(ADDR)
    weights = [2, 1, 1, 3, 1, 1]            # abstract inet inet2 ... (sorted)
    weights = [{"inet": 3, "unix": 4, "abstract": 2}.get(n, 1) for n in names]
    only = prof.get("addrs")
    addrs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        a = rng.choice(only) if only else rng.choices(names, weights)[0]
        if a not in addrs:
            addrs.append(a)
    nop = rng.choice(prof.get("operators", [1, 2, 3, 4]))
    cfg = {
        "addrs": addrs,
        "kinds": [rng.choice(prof.get("kinds", ["file", "file", "file2", "sqlite"])) for _ in DBS],
        "operators": nop,
        "race": bool(prof.get("race")),
        "p_switch": rng.choice([0.05, 0.2, 0.4]),
        "p_kill": prof.get("p_kill", 0.0) * rng.choice([0, 1, 1, 3]),
        "p_stall": prof.get("p_stall", 0.0) * rng.choice([0, 1, 1, 3]),
        "exit": rng.choice([0, 0.001, 0.3, 3.0]),
        "gcbytes": rng.choice([0, 0, 200, 2000]),
        "loglevel": rng.choice([4, 20, 100]),
    }
    w = dict(start=6, stop=3, crash=1.5, wait=3, ping=6, junk=.4, sleep=2, pack=1.5)
    w.update(prof.get("ops", {}))
    for k in w:
        if k not in ("start", "ping"):
            w[k] *= rng.choice([0, 1, 1, 2])
    names = sorted(w)
    ops = []
    u = 0
    for a in range(nop):
        for i in range(rng.choice(prof.get("lengths", [3, 6, 10, 15]))):
            u += 1
            ops.append({"u": u, "k": rng.choices(names, [w[k] for k in names])[0],
                        "r": rng.getrandbits(30), "a": a})
    return {"h": "addr", "cfg": cfg, "ops": ops}


class Server(object):
    def __init__(self, name, addr, db):
        self.name = name
        self.addr = addr            # index
        self.db = db
        self.proc = Proc(name)
        self.phase = "starting"     # ready, ended
        self.doomed = None          # why it may end: stop, crash
        self.stoppers = 0
        self.outcome = None
        self.clean = True           # nothing stands in the way of its start
        self.rival = None           # who was alive on the address when it began
        self.inode = None
        self.stalled = 0.0
        self.gone = False           # its socket was removed

    def __repr__(self):
        return self.name


class Run(object):
    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.cfg = plan["cfg"]
        self.servers = []
        self.acked = dict((d, set()) for d in DBS)
        self.tried = dict((d, set()) for d in DBS)
        self.dirty = set()          # files whose last user was killed
        self.packers = []           # files that a command tries to pack
        self.quiet = False
        self.finishing = False
        self.attempts = {}          # operator -> connection attempts of the wait under way
        self.cur_u = {}
        self.left = 0
        self.starts = 0
        self.token = 0
        self.junk = set()
        self.stopping = {}          # address -> stops under way

    def bad(self, kind, props, detail):
        if self.sim.cur.proc.dead:
            raise SimKilled()
        self.sim.violate(kind, tuple(props), "[%s op %s, %s] %s" % (
            self.sim.cur.name, self.cur_u.get(self.sim.cur.name), "/".join(self.cfg["addrs"]), detail))

    # ---- environment
    def setup(self):
        sim, cfg = self.sim, self.cfg
        self.save = (sys.stdout, sys.stderr, sys.argv, logging.Handler.createLock,
                     list(logging.getLogger("durus").handlers))
        sys.stderr = io.StringIO()
        logging.Handler.createLock = lambda h: setattr(h, "lock", None)
        logging.getLogger("durus").setLevel(cfg["loglevel"])
        simfs.BUFFER_SIZE = 8192
        sim.p_switch = cfg["p_switch"]
        sim.max_steps = 600000
        fs = self.fs = simfs.FS(sim)
        fs.yield_points = False
        simfs.use(fs)
        net = self.net = simnet.Net(sim)
        simnet.use(net)
        from durus.connection import Connection
        self.Connection = Connection
        for db, kind in zip(DBS, cfg["kinds"]):
            st = klass(kind)(db)
            c = Connection(st)
            c.get_root()["name"] = db
            c.commit()
            st.close()
        kinds = dict(zip(DBS, cfg["kinds"]))
        self.kinds = kinds

        def yields(path):
            for d in DBS:
                if path.startswith(d):
                    return kinds[d] != "sqlite"
            return True
        fs.yield_points = yields
        fs.faults = self.fs_faults
        fs.watch = self.fs_watch
        net.faults = self.net_faults
        net.watch = self.net_watch

    def restore(self):
        simfs.use(None)
        simnet.use(None)
        sys.stdout, sys.stderr, sys.argv, logging.Handler.createLock = self.save[:4]
        logging.getLogger("durus").handlers[:] = self.save[4]

    def server_here(self):
        p = self.sim.cur.proc
        for s in self.servers:
            if s.proc is p:
                return s
        return None

    def maybe_kill(self, call, nbytes=0):
        if self.quiet or not (self.cfg["p_kill"] or self.sim.replay):
            return None
        s = self.server_here()
        if s is None:
            return None
        pk = self.cfg["p_kill"]
        f = self.sim.decide("kill." + call, lambda r: [r.random()] if r.random() < pk else None)
        if f is None:
            return None
        self.sim.stat("fault.kill")
        self.sim.stat("fault.kill." + call)
        s.doomed = "crash"
        self.dirty.add(s.db)
        if call == "write" and nbytes:
            return {"short": int(f[0] * (nbytes + 1)), "kill": 1}
        self.sim.kill(s.proc)
        raise SimKilled()

    def fs_faults(self, call, path, nbytes):
        if call in ("write", "truncate", "unlink", "rename") and hasattr(self.sim.cur.proc, "wrote"):
            self.sim.cur.proc.wrote.append((call, path))
        return self.maybe_kill(call, nbytes)

    def net_faults(self, call, sock, nbytes):
        if call == "connect":
            a = self.attempts.get(self.sim.cur.name)
            if a is not None:
                s = self.live(a["addr"], True)
                full = s is not None and len(s.sock.backlog) >= self.net.backlog_limit
                a["at"].append((self.sim.now, s.name if s and not full else None))
        f = self.maybe_kill(call)
        s = self.server_here()
        if f or s is None or self.quiet or call == "settimeout" or not (self.cfg["p_stall"] or self.sim.replay):
            return f
        ps = self.cfg["p_stall"]
        t = self.sim.decide("stall." + call, lambda r: r.choice([0.1, 0.6, 1.7, 4.0]) if r.random() < ps else None)
        if t is None:
            return None
        s.stalled += t
        return {"stall": t}

    def fs_watch(self, call, what):
        """A name of a socket went away: was anybody listening there?"""
        if call not in ("unlink", "rename") or self.quiet and not self.finishing:
            return
        me = self.server_here()
        for s in self.servers:
            if s.phase == "ended" or s.inode is None or s.proc.dead or s.gone:
                continue
            if s.sock.state in ("bound", "listening") and self.fs.names.get(ADDR[self.cfg["addrs"][s.addr]]) is not s.inode:
                s.gone = True
                if s is me:
                    continue    # (its own: it is ending)
                if me is not None and me.addr == s.addr and s.overlaps(me):
                    self.bad("start-race", ("C27",), "%s and %s were started on %s at the same time: one "
                             "removed the socket of the other, which keeps running unreachable" % (
                                 s, me, self.cfg["addrs"][s.addr]))
                self.bad("live-socket-removed", ("C27",), "the %s of %s by %s takes the socket of %s, which is "
                         "alive" % (call, what, me or self.sim.cur.name, s))

    def net_watch(self, event, sock):
        s = self.server_here()
        if s is None:
            return
        if event == "bind":
            s.sock = sock
            s.inode = sock.inode
            return
        other = [o for o in self.servers if o is not s and o.addr == s.addr and o.phase == "ready" and
                 not o.doomed]
        s.phase = "ready"
        s.sock = sock
        s.inode = sock.inode
        s.since = self.sim.now
        self.sim.stat("server.ready")
        self.sim.stat("server.ready." + self.cfg["addrs"][s.addr])
        self.sim.ev("ready", s.name)
        for o in other:
            if s.overlaps(o):
                self.bad("start-race", ("C27",), "%s and %s were started on %s at the same time and both run" % (
                    o, s, self.cfg["addrs"][s.addr]))
            self.bad("two-servers", ("C27",), "%s starts on %s where %s is alive" % (
                s, self.cfg["addrs"][s.addr], o))

    # ---- the servers
    def live(self, addr, doomed=False):
        """The server that is alive on the address."""
        for s in self.servers:
            if s.addr == addr and s.phase == "ready" and not s.proc.dead and (not s.doomed or doomed) and \
                    s.sock.state == "listening" and (
                        s.inode is None or self.fs.names.get(ADDR[self.cfg["addrs"][addr]]) is s.inode):
                return s
        return None

    def around(self, addr):
        return [s for s in self.servers if s.addr == addr and s.phase != "ended"]

    def is_unix(self, addr):
        return self.cfg["addrs"][addr].startswith("unix")

    def start(self, name, addr, db, rng):
        """Start a server process; returns it."""
        sim = self.sim
        s = Server(name, addr, db)
        s.t0 = sim.steps
        s.overlaps = lambda o: self.overlap(s, o)
        around = self.around(addr)
        s.rival = self.live(addr)
        s.clean = not around and ADDR[self.cfg["addrs"][addr]] not in self.junk
        for o in around:
            o.clean = False
        users = [o for o in self.servers if o.db == db and o.phase != "ended"]
        if users:
            s.clean = False
            for o in users:
                if o.phase == "starting":
                    o.clean = False
        repair = (db in self.dirty and rng.random() < 0.8) or rng.random() < 0.1
        if db in self.dirty and not repair or db in self.packers:
            s.clean = False
        how = rng.choice(["serve", "start", "main", "main"])
        if self.kinds[db] == "sqlite" and repair:
            repair = False
        s.repair = repair
        s.how = how
        s.opts = [rng.random() < 0.3 for _ in range(4)]
        if self.stopping.get(addr):
            s.doomed = "stop"       # (a stop that is under way may reach it)
            s.stoppers += self.stopping[addr]
        self.servers.append(s)
        self.starts += 1
        sim.stat("start." + how)

        def died():
            self.fs.kill_proc(s.proc)
            if s.phase != "ended":
                s.phase = "ended"
                s.outcome = s.outcome or "killed"
        s.proc.on_death.append(died)
        sim.spawn(name, lambda: self.server(s), s.proc)
        return s

    def overlap(self, a, b):
        """Did one of the two begin before the other was ready?  (Both on one address.)"""
        first, second = (a, b) if self.servers.index(a) < self.servers.index(b) else (b, a)
        return second.rival is not first

    def server(self, s):
        sim = self.sim
        name = self.cfg["addrs"][s.addr]
        address = ADDR[name]
        e = None
        try:
            self.serve(s, name, address)
            s.outcome = "returned"
        except SimKilled:
            raise
        except SystemExit as x:
            s.outcome = "stopped" if x.code is None else "exit"
            e = x
        except Exception as x:
            if s.proc.dead:
                raise SimKilled()
            s.outcome = "failed"
            e = x
        if s.proc.dead:
            raise SimKilled()
        was = s.phase
        err = "%r at %s" % (e, where(e)) if e is not None else "return"
        sim.ev("server ended", s.outcome, was, err)
        s.phase = "exiting"
        if self.cfg["exit"]:
            # (the interpreter takes its time; what it has not closed is still open)
            sim.sleep(self.cfg["exit"])
        s.phase = "ended"
        self.net.proc_died(s.proc)
        self.fs.kill_proc(s.proc)
        if was == "starting":
            sim.stat("start.failed")
            if s.rival is not None and s.rival.phase == "ready" and not s.rival.doomed:
                sim.stat("start.refused.live")
            if s.clean:
                self.bad("start-refused", ("C27",), "nothing is alive on %s and its file is free, but starting "
                         "%s (%s) ended with %s" % (name, s, s.how, err))
            return
        if s.outcome != "stopped" or s.doomed is None:
            self.bad("server-ended", ("C27", "C22"), "%s on %s was not stopped but ended with %s" % (s, name, err))
        sim.stat("server.stopped")
        self.after_stop(s)

    def serve(self, s, name, address):
        from durus.storage_server import StorageServer, SocketAddress
        from durus import __main__ as m
        K = klass(self.kinds[s.db])
        kw = {"repair": True} if s.repair else {}
        opts = {}
        me = pwd.getpwuid(os.geteuid())
        if name.startswith("unix"):
            if s.opts[0]:
                opts["owner"] = me.pw_name if s.opts[1] else me.pw_uid
            if s.opts[2]:
                opts["umask"] = 0o77
        if s.how == "main":
            argv = ["durus", "--file", s.db, "--storage-class", CLASSES[self.kinds[s.db]],
                    "--logginglevel", str(self.cfg["loglevel"]), "--gcbytes", str(self.cfg["gcbytes"])]
            if s.opts[3] and self.kinds[s.db] != "sqlite":
                argv[3:5] = []
            if isinstance(address, tuple):
                argv += ["--host", address[0], "--port", str(address[1])]
            else:
                argv += ["--address", address]
                if "umask" in opts:
                    argv += ["--umask", str(opts["umask"])]
                if "owner" in opts:
                    argv += ["--owner", me.pw_name]
            if s.repair:
                argv.append("--repair")
            sys.argv = argv
            m.run_durus_main()
            return
        st = K(s.db, **kw)
        a = SocketAddress.new(address, **opts)
        if s.how == "start":
            m.start_durus(None, self.cfg["loglevel"], a, st, self.cfg["gcbytes"])
        elif isinstance(address, tuple):
            StorageServer(st, host=address[0], port=address[1], gcbytes=self.cfg["gcbytes"]).serve()
        else:
            StorageServer(st, address=a, gcbytes=self.cfg["gcbytes"]).serve()

    def keys(self, fs, db, repair):
        """The tokens stored in a file of another file system."""
        sim = self.sim
        proc, sim.cur.proc = sim.cur.proc, Proc("aside")
        old = simfs.use(fs)
        fs.yield_points = False
        try:
            st = klass(self.kinds[db])(db, **({"repair": True} if repair else {}))
            root = self.Connection(st).get_root()
            out = set(k for k in root.keys() if k != "name")
            if root["name"] != db:
                out = None
            st.close()
            return out
        finally:
            for h in list(fs.handles.values()):
                fs.close(h)
            simfs.use(old)
            sim.cur.proc = proc

    def check_file(self, db, repair, what):
        img = self.sim.decide("img", lambda r: r.getrandbits(20) | 1) or 1
        for power in (None, random.Random(img)):
            fs = self.fs.clone(power)
            w = "%s, %s" % (what, "the file" if power is None else "the file after a power loss")
            try:
                got = self.keys(fs, db, repair)
            except Exception as e:
                self.bad("file-broken", ("C27", "C01", "C02"), "%s: opening raised %r at %s" % (w, e, where(e)))
            miss = self.acked[db] - got
            if miss:
                self.bad("lost", ("C27", "C01", "C24"), "%s lacks acknowledged commits %s" % (w, sorted(miss)[:5]))
            more = got - self.tried[db]
            if more:
                self.bad("made-up", ("C27", "C02"), "%s has %s, which nobody stored" % (w, sorted(more)[:5]))
            self.sim.stat("image.checked")

    def after_stop(self, s):
        """A server has ended in the orderly way."""
        users = [o for o in self.servers if o.db == s.db and o.phase != "ended"]
        if not users:
            self.check_file(s.db, s.db in self.dirty and self.kinds[s.db] != "sqlite", "after %s was stopped" % s)
        if self.is_unix(s.addr):
            if self.fs.names.get(ADDR[self.cfg["addrs"][s.addr]]) is s.inode:
                self.bad("socket-left", ("C27",), "%s was stopped but its socket is still there" % s)

    # ---- operators
    def pick(self, rng):
        return rng.randrange(len(self.cfg["addrs"]))

    def op_start(self, rng):
        addr = self.pick(rng)
        sim = self.sim
        if rng.random() < 0.5 and self.live(addr) is not None:
            addr = self.pick(rng)
        if self.is_unix(addr) and not self.cfg["race"]:
            sim.block("start", lambda: not any(s.phase == "starting" for s in self.around(addr)))
        busy = set(s.db for s in self.servers if s.phase != "ended")
        free = [d for d in DBS if d not in busy]
        db = rng.choice(free) if free and rng.random() < 0.95 else rng.choice(DBS)
        if db in busy and self.kinds[db] == "sqlite":
            return      # (SQLite has no lock that lasts: two servers on one file are out of scope)
        s = self.start("s%d" % self.cur_u[sim.cur.name], addr, db, rng)
        x = rng.random()
        if x < 0.6:
            sim.block("started", lambda: s.phase != "starting")
            if s.phase == "ready" and x < 0.3:
                self.ping(addr, rng)

    def op_sleep(self, rng):
        self.sim.sleep(rng.choice([0.001, 0.01, 0.3, 2.0]))

    def op_junk(self, rng):
        """Somebody's file has the name."""
        units = [i for i in range(len(self.cfg["addrs"])) if self.is_unix(i)]
        if not units:
            return
        i = rng.choice(units)
        path = ADDR[self.cfg["addrs"][i]]
        if path in self.junk:
            self.check_junk()
            self.junk.discard(path)
            self.fs.names.pop(path)
        elif path not in self.fs.names and not self.around(i):
            self.fs.put(path, b"precious")
            self.junk.add(path)
            self.sim.stat("junk")

    def check_junk(self):
        for path in self.junk:
            if self.fs.get(path) != b"precious":
                self.bad("file-removed", ("C27",), "starting a server removed %s, a file with data" % path)

    def op_crash(self, rng):
        s = self.live(self.pick(rng), True)
        if s is None:
            return
        self.sim.stat("fault.kill.between")
        s.doomed = "crash"
        self.dirty.add(s.db)
        self.sim.kill(s.proc)

    def op_stop(self, rng):
        sim = self.sim
        addr = self.pick(rng)
        name = self.cfg["addrs"][addr]
        address = ADDR[name]
        s = self.live(addr, True)
        fresh = s is not None and s.doomed is None
        before = self.starts
        none = not self.around(addr)
        for o in self.around(addr):
            o.doomed = o.doomed or "stop"
            o.stoppers += 1
        self.stopping[addr] = self.stopping.get(addr, 0) + 1
        t0 = sim.now
        main = rng.random() < 0.4
        sim.stat("stop.main" if main else "stop")
        try:
            from durus import __main__ as m
            if main:
                sys.argv = ["durus", "--stop"] + (
                    ["--host", address[0], "--port", str(address[1])] if isinstance(address, tuple)
                    else ["--address", address])
                m.run_durus_main()
                res = None
            elif rng.random() < 0.5:
                from durus.storage_server import SocketAddress
                res = m.stop_durus(SocketAddress.new(address))
            else:
                res = m.stop_durus(address)
            err = None
        except (Exception, SystemExit) as e:
            res = None
            err = "%r at %s" % (e, where(e))
        self.stopping[addr] -= 1
        sim.ev("stop", name, res, err)
        alone = self.starts == before
        if err is not None and not (s is not None and (s.stoppers > 1 or s.doomed == "crash") or
                                    not alone or not fresh and not none):
            self.bad("stop-raised", ("C27",), "stopping the server on %s raised %s" % (name, err))
        if none and alone and res:
            self.bad("stop-lied", ("C27",), "stopping %s, where nothing runs, reported success" % name)
        if fresh and s.stoppers == 1 and s.doomed == "stop":
            if res is False:
                self.bad("stop-missed", ("C27",), "%s is alive on %s but stopping it reported that nothing "
                         "runs there" % (s, name))
            if self.live(addr, True) is s and (sim.now - t0 < 9.9 or not s.stalled):
                self.bad("stop-early", ("C27",), "stopping %s returned after %.1f s while the server still "
                         "has the address %s" % (s, sim.now - t0, name))
            if rng.random() < 0.5 and s.doomed == "stop" and not s.stalled and \
                    not [o for o in self.servers if o is not s and o.phase != "ended" and o.addr == addr] and \
                    not [o for o in self.servers if o is not s and o.phase != "ended" and o.db == s.db]:
                # the address and the file are free at once
                n = self.start("s%d" % self.cur_u[sim.cur.name], addr, s.db, rng)
                n.clean = not (s.db in self.dirty and not n.repair) and s.db not in self.packers and \
                    ADDR[self.cfg["addrs"][addr]] not in self.junk
                n.rival = None
                sim.block("started", lambda: n.phase != "starting")
                sim.stat("restarted.at.once")
            if not sim.block("end of server", lambda: s.phase == "ended", 60.0) and s.doomed == "stop":
                self.bad("stop-ineffective", ("C27",), "stopping %s on %s returned but the server runs on" % (
                    s, name))
            sim.stat("stop.done")

    def op_wait(self, rng):
        from durus.storage_server import wait_for_server, SocketAddress
        sim = self.sim
        addr = self.pick(rng)
        address = ADDR[self.cfg["addrs"][addr]]
        tries = rng.choice([1, 2, 3, 5, 20])
        pause = rng.choice([0.01, 0.1, 1, 2])
        me = sim.cur.name
        a = self.attempts[me] = {"addr": addr, "at": []}
        t0 = sim.now
        how = "returned"
        sim.stat("wait")
        kw = dict(maxtries=tries, sleeptime=pause)
        if isinstance(address, tuple) and rng.random() < 0.5:
            kw.update(host=address[0], port=address[1])
        else:
            kw["address"] = SocketAddress.new(address) if rng.random() < 0.5 else address
        try:
            wait_for_server(**kw)
        except SystemExit as e:
            how = "gave up"
        except Exception as e:
            how = "%r at %s" % (e, where(e))
        t1 = sim.now
        at = a["at"]
        self.attempts.pop(me)
        sim.ev("waited", how, len(at))
        sim.stat("wait." + how.split()[0][:8])
        what = "waiting for %s (%d tries, %s s apart)" % (self.cfg["addrs"][addr], tries, pause)
        if how not in ("returned", "gave up"):
            self.bad("wait-raised", ("C27",), "%s: %s" % (what, how))
        seen = [i for i, x in enumerate(at) if x[1]]
        if how == "returned" and not seen:
            self.bad("wait-lied", ("C27",), "%s returned but no server accepted connections" % what)
        if seen and seen[0] != len(at) - 1 or seen and how != "returned":
            self.bad("wait-late", ("C27",), "%s: %s accepted connections at try %d, but it went on" % (
                what, at[seen[0]][1], seen[0] + 1))
        if how == "gave up":
            if len(at) < tries or t1 - t0 < (tries - 1) * pause - 1e-6:
                self.bad("wait-short", ("C27",), "%s gave up after %d tries and %.2f s" % (what, len(at), t1 - t0))
        if len(at) > tries:
            self.bad("wait-long", ("C27",), "%s tried %d times" % (what, len(at)))
        last = t0
        for t, _ in at:
            if t - last > pause + 1.0:
                self.bad("wait-late", ("C27",), "%s: %.2f s between two tries" % (what, t - last))
            last = t
        if seen and t1 - last > 1.0:
            self.bad("wait-late", ("C27",), "%s returned %.2f s after the server accepted" % (what, t1 - last))

    def op_ping(self, rng):
        self.ping(self.pick(rng), rng)

    def ping(self, addr, rng):
        """A client: connect, look, perhaps commit."""
        from durus.client_storage import ClientStorage
        from durus.error import ConflictError
        sim = self.sim
        name = self.cfg["addrs"][addr]
        address = ADDR[name]
        s = self.live(addr)
        known = dict((d, set(self.acked[d])) for d in DBS)
        err = None
        db = None
        got = None
        sim.stat("ping")
        st = None
        try:
            if isinstance(address, tuple) and rng.random() < 0.5:
                st = ClientStorage(host=address[0], port=address[1])
            else:
                st = ClientStorage(address=address)
            conn = self.Connection(st)
            root = conn.get_root()
            db = root["name"]
            got = set(k for k in root.keys() if k != "name")
            if db not in self.acked:
                self.bad("wrong-data", ("C27",), "the server on %s serves %r" % (name, db))
            for i in range(rng.choice([0, 1, 1, 2, 4])):
                self.token += 1
                tok = "t%d" % self.token
                root[tok] = 1
                self.tried[db].add(tok)
                try:
                    conn.commit()
                except ConflictError:
                    conn.abort()
                    sim.stat("conflict")
                    continue
                self.acked[db].add(tok)
                sim.stat("commit.acked")
                if rng.random() < 0.2:
                    sim.sleep(0.01)
            if rng.random() < 0.1:
                conn.pack()
        except ConflictError:
            sim.stat("conflict")    # (another client's commit reached the server meanwhile)
            return
        except Exception as e:
            err = "%r at %s" % (e, where(e))
        finally:
            if st is not None:
                try:
                    st.close()
                except Exception:
                    pass
        sim.ev("ping", name, db, err)
        if db is not None and got is not None:
            sim.stat("ping.ok")
            miss = known[db] - got
            if miss:
                self.bad("lost", ("C27", "C24"), "the server on %s does not have the acknowledged commits %s" % (
                    name, sorted(miss)[:5]))
            if got - self.tried[db]:
                self.bad("made-up", ("C27",), "the server on %s has %s" % (name, sorted(got - self.tried[db])[:5]))
        if s is not None and s.phase == "ready" and not s.doomed and not s.proc.dead and \
                not self.stopping.get(addr):
            if err:
                self.bad("not-served", ("C27", "C22"), "%s is alive on %s but a client gets %s" % (s, name, err))
            if db != s.db:
                self.bad("wrong-server", ("C27",), "%s is alive on %s, but a client there meets the server of %s"
                         % (s, name, db))

    def op_pack(self, rng):
        """The command that packs: through a server, or the file itself."""
        sim = self.sim
        addr = self.pick(rng)
        address = ADDR[self.cfg["addrs"][addr]]
        s = self.live(addr)
        if s is None or s.doomed or self.stopping.get(addr):
            return
        from durus import __main__ as m
        own = not isinstance(address, tuple) or rng.random() < 0.4
        if own and self.kinds[s.db] == "sqlite":
            return      # (no lock, see above)
        sys.argv = ["durus", "-p"] + (["--file", s.db] if own else
                                      ["--host", address[0], "--port", str(address[1])])
        me = Proc("packer")
        me.wrote = []
        sim.stat("pack.file" if own else "pack.server")
        proc, sim.cur.proc = sim.cur.proc, me
        self.packers.append(s.db)
        try:
            m.main()
            err = None
        except (Exception, SystemExit) as e:
            from durus.error import ConflictError
            err = "%r at %s" % (e, where(e))
            if isinstance(e, ConflictError) and not own:
                err = None
        finally:
            self.net.proc_died(me)
            self.fs.kill_proc(me)
            sim.cur.proc = proc
            self.packers.remove(s.db)
        sim.ev("pack", own, err)
        if s.phase != "ready" or s.doomed or s.proc.dead or self.stopping.get(addr):
            return
        if own and err is None:
            self.bad("packed-under", ("C09", "C27"), "the file %s of %s, which is alive, was packed by another "
                     "process" % (s.db, s))
        if not own and err is not None:
            self.bad("not-served", ("C27", "C22"), "%s is alive on %s but packing it raised %s" % (
                s, self.cfg["addrs"][addr], err))
        now = self.fs.names.get(s.db)
        if own and (now is None or now.lock is None or now.lock.proc is not s.proc):
            self.bad("packed-under", ("C09", "C27"), "after a refused pack the file is not held by %s" % s)
        if me.wrote:
            self.bad("packed-under", ("C09", "C27"), "a refused pack changed the file of %s: %s" % (s, me.wrote[:3]))
        self.ping(addr, rng)

    def pack_files(self, rng):
        """Nothing runs any more: the command packs the files, and loses nothing."""
        from durus import __main__ as m
        for db in DBS:
            if db in self.dirty and self.kinds[db] != "sqlite":
                continue
            sys.argv = ["durus", "-p", "--file", db]
            proc, self.sim.cur.proc = self.sim.cur.proc, Proc("packer")
            try:
                m.main()
            except Exception as e:
                self.bad("raised", ("C27", "C05", "C07"), "packing %s, which nobody uses, raised %r at %s" % (
                    db, e, where(e)))
            finally:
                self.net.proc_died(self.sim.cur.proc)
                self.fs.kill_proc(self.sim.cur.proc)
                self.sim.cur.proc = proc
            self.sim.stat("pack.idle")
            self.check_file(db, False, "after the pack at the end")

    # ---- all of it
    def operator(self, i, ops):
        sim = self.sim
        me = sim.cur.name
        for op in ops:
            sim.cur.ctx = "%s.o%d" % (me, op["u"])
            self.cur_u[me] = op["u"]
            sim.ev("op", op["u"], op["k"])
            sim.stat("op." + op["k"])
            sim.point()
            self.check_junk()
            getattr(self, "op_" + op["k"])(random.Random(op["r"]))
        self.left -= 1

    def final(self):
        """Whatever has happened: the addresses can be used again, and given back."""
        sim = self.sim
        sim.block("operators", lambda: not self.left)
        self.quiet = True
        rng = random.Random(self.cfg["operators"] * 7 + len(self.plan["ops"]))
        sim.block("starts", lambda: not any(s.phase == "starting" for s in self.servers), 30)
        sim.sleep(0.5)
        if any(s.phase == "starting" for s in self.servers):
            self.bad("start-hangs", ("C27",), "%s neither starts nor fails" % [
                s for s in self.servers if s.phase == "starting"])
        self.check_junk()
        for p in self.junk:
            self.fs.names.pop(p)
        self.junk.clear()
        for addr in range(len(self.cfg["addrs"])):
            self.cur_u[sim.cur.name] = "fin%d" % addr
            s = self.live(addr)
            if s is not None:
                self.ping(addr, rng)
                n = self.start("x%d" % addr, addr, self.free_db(s), rng)
                sim.block("started", lambda: n.phase != "starting", 60)
                if n.phase == "starting":
                    self.bad("start-hangs", ("C27",), "%s neither starts nor fails" % n)
                self.ping(addr, rng)
                self.stop_it(addr, s)
        for s in self.servers:
            if s.phase != "ended" and s.db not in self.dirty:
                pass
        for addr in range(len(self.cfg["addrs"])):
            self.cur_u[sim.cur.name] = "end%d" % addr
            for s in self.around(addr):
                s.doomed = "crash"
                self.dirty.add(s.db)
                self.sim.kill(s.proc)
            n = self.start("y%d" % addr, addr, self.free_db(None), random.Random(3))
            n.repair = self.kinds[n.db] != "sqlite" and (n.repair or n.db in self.dirty)
            if not n.clean and not any(o.db == n.db and o.phase != "ended" and o is not n for o in self.servers):
                n.clean = True
            sim.block("started", lambda: n.phase != "starting", 60)
            if n.phase != "ready":
                self.bad("start-refused", ("C27",), "at the end no server starts on %s" % self.cfg["addrs"][addr])
            self.ping(addr, rng)
            self.stop_it(addr, n)
        for s in self.servers:
            if s.phase != "ended":
                raise HarnessError("%s runs on" % s)
        for db in DBS:
            self.check_file(db, self.kinds[db] != "sqlite" and db in self.dirty, "at the end")
        self.pack_files(rng)

    def free_db(self, other):
        self.sim.block("exits", lambda: not any(s.phase == "exiting" for s in self.servers), 30)
        busy = set(s.db for s in self.servers if s.phase != "ended")
        free = [d for d in DBS if d not in busy]
        return free[0]

    def stop_it(self, addr, s):
        from durus import __main__ as m
        s.doomed = "stop"
        s.stoppers += 1
        try:
            res = m.stop_durus(ADDR[self.cfg["addrs"][addr]])
        except Exception as e:
            self.bad("stop-raised", ("C27",), "stopping %s raised %r at %s" % (s, e, where(e)))
        if not res:
            self.bad("stop-missed", ("C27",), "%s is alive but stopping reported that nothing runs there" % s)
        if self.live(addr, True) is not None:
            self.bad("stop-early", ("C27",), "stopping %s returned while it still has its address" % s)
        if not self.sim.block("end", lambda: s.phase == "ended", 5.0):
            self.bad("stop-ineffective", ("C27",), "stopping %s returned but the server runs on" % s)

    def run(self):
        sim = self.sim
        try:
            self.quiet = True
            self.setup()
            self.quiet = False
            n = self.cfg["operators"]
            self.left = n
            for i in range(n):
                ops = [op for op in self.plan["ops"] if op["a"] == i]
                sim.spawn("o%d" % i, lambda i=i, ops=ops: self.operator(i, ops))
            sim.spawn("fin", self.final)
            how = sim.run()
            if how == "violation":
                raise sim.violations[0] if sim.violations else HarnessError("stopped")
            for a in sim.actors:
                if a.error is not None:
                    raise a.error
            if how == "blocked":
                self.bad("stuck", ("C27",), "waiting for ever: %s" % "; ".join(sim.stuck))
            if how == "steps":
                self.bad("stuck", ("C27",), "no end")
        finally:
            self.restore()


def run(sim, plan):
    Run(sim, plan).run()
