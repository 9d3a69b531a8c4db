"""A server that is activated through a socket it inherits (as systemd does), and its clients.

The init process owns the listening socket and starts the server whenever somebody waits there and
no server runs.  Servers are stopped and killed at any call; clients connect at any time, whether a
server runs or not.  Nothing that a server does may take the socket away.
"""
import logging
import os
import random
import socket as socket_mod
import sys

import h_addr
import simnet
from core import SimKilled, Proc, HarnessError
from h_addr import ADDR, DBS, Server
from h_storage import where

P = ("C31",)


def generate(rng, prof):
    n = rng.choice([1, 2, 3, 4])
    name = rng.choice(sorted(ADDR))
    others = [a for a in sorted(ADDR) if ADDR[a] != ADDR[name]]
    cfg = {
        "addrs": [name],
        # (the address of the command line does not matter)
        "told": name if rng.random() < 0.5 else rng.choice(others),
        "kinds": [rng.choice(["file", "file", "file2", "sqlite"])] + ["file"] * (len(DBS) - 1),
        "operators": n,
        "race": False,
        # who the activation is meant for: this process, or the one that started it
        "mine": rng.random() < 0.85,
        "p_switch": rng.choice([0.05, 0.2, 0.4]),
        "p_kill": prof.get("p_kill", 0.0) * rng.choice([0, 1, 1, 3]),
        "p_stall": prof.get("p_stall", 0.0) * rng.choice([0, 1, 1, 3]),
        "exit": rng.choice([0, 0.001, 0.3, 3.0]),
        "gcbytes": rng.choice([0, 0, 200, 2000]),
        "loglevel": rng.choice([4, 20, 100]),
        "how": [rng.choice(["serve", "start", "main"]) for _ in range(3)],
    }
    w = dict(ping=6, quit=2, crash=1.5, sleep=2, wait=1, hello=1)
    w.update(prof.get("ops", {}))
    for k in w:
        if k != "ping":
            w[k] *= rng.choice([0, 1, 1, 2])
    names = sorted(w)
    ops = []
    u = 0
    for a in range(n):
        for i in range(rng.choice([3, 6, 10, 15])):
            u += 1
            ops.append({"u": u, "k": rng.choices(names, [w[k] for k in names])[0],
                        "r": rng.getrandbits(30), "a": a})
    return {"h": "unit", "cfg": cfg, "ops": ops}


class Run(h_addr.Run):
    def setup(self):
        self.env = dict((k, os.environ.get(k)) for k in ("LISTEN_PID", "LISTEN_FDS"))
        h_addr.Run.setup(self)
        self.name = self.cfg["addrs"][0]
        self.address = ADDR[self.name]
        self.master = None
        self.over = False
        self.sent = self.taken = 0      # requests to stop
        self.quits = []                 # their connections
        self.ends = 0                   # servers that ended in any way
        self.db = DBS[0]
        self.init = Proc("init")
        os.environ["LISTEN_PID"] = str(os.getpid() + (not self.cfg["mine"]))
        os.environ["LISTEN_FDS"] = "1"

    def restore(self):
        for k, v in getattr(self, "env", {}).items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        h_addr.Run.restore(self)

    # ---- the init process
    def listen(self, a):
        if isinstance(a, tuple):
            s = socket_mod.socket(socket_mod.AF_INET6 if ":" in a[0] else socket_mod.AF_INET,
                                  socket_mod.SOCK_STREAM)
        else:
            s = socket_mod.socket(socket_mod.AF_UNIX, socket_mod.SOCK_STREAM)
            a = a.replace("@", "\0")
        s.setsockopt(socket_mod.SOL_SOCKET, socket_mod.SO_REUSEADDR, 1)
        s.bind(a)
        s.listen(64)
        return s

    def current(self):
        for s in self.servers:
            if s.phase != "ended":
                return s
        return None

    def waiting(self):
        return self.master is not None and self.master.backlog

    def activate(self):
        sim = self.sim
        if self.cfg["mine"]:
            m = self.listen(self.address)
            self.master = m
        else:
            self.decoy = self.listen("/simfs/decoy.sock")
        while not self.over:
            sim.block("activation", lambda: (self.over or self.current() is None and
                                             (self.waiting() or not self.cfg["mine"])))
            if self.over:
                break
            s = Server("s%d" % len(self.servers), 0, self.db)
            s.overlaps = lambda o: False
            s.how = self.cfg["how"][len(self.servers) % 3]
            s.repair = self.db in self.dirty and self.kinds[self.db] != "sqlite"
            s.opts = [False] * 4
            if self.cfg["mine"]:
                s.proc.fds = {3: self.master}
            else:
                s.proc.fds = {3: self.decoy}
            self.servers.append(s)
            sim.stat("unit.activated")

            def died(s=s):
                self.fs.kill_proc(s.proc)
                if s.phase != "ended":
                    s.phase = "ended"
                    s.outcome = "killed"
                    self.ends += 1
            s.proc.on_death.append(died)
            sim.spawn(s.name, lambda s=s: self.server(s), s.proc)
            sim.point()

    def server(self, s):
        sim = self.sim
        told = self.cfg["told"] if self.cfg["mine"] else self.name
        e = None
        try:
            self.serve(s, told, ADDR[told])
            s.outcome = "returned"
        except SimKilled:
            raise
        except SystemExit as x:
            s.outcome = "stopped" if x.code is None else "exit"
            e = x
        except Exception as x:
            if s.proc.dead:
                raise SimKilled()
            s.outcome = "failed"
            e = x
        if s.proc.dead:
            raise SimKilled()
        err = "%r at %s" % (e, where(e)) if e is not None else "return"
        sim.ev("server ended", s.outcome, err)
        self.ends += 1
        s.phase = "exiting"
        if self.cfg["exit"]:
            sim.sleep(self.cfg["exit"])
        s.phase = "ended"
        self.net.proc_died(s.proc)
        self.fs.kill_proc(s.proc)
        if s.outcome == "stopped":
            self.taken += 1
            sim.stat("unit.stopped")
        if s.outcome != "stopped" or self.taken > self.sent:
            self.bad("unit-failed", P, "%s, activated on %s (%s), was not stopped but ended with %s" % (
                s, self.name, s.how, err))
        self.still_there("%s has ended" % s)
        self.check_file(self.db, self.db in self.dirty and self.kinds[self.db] != "sqlite",
                        "after %s was stopped" % s)
        t = sys.stderr.getvalue()
        if "Traceback" in t:
            self.bad("log-broken", P, "a message of %s on %s could not be written: %s" % (
                s, self.name, " ".join(t.split())[-300:]))

    # ---- the socket stays
    def still_there(self, what):
        if not self.cfg["mine"] or self.master is None:
            return
        m = self.master
        a = self.address
        if m.state != "listening" or m.inode is not None and self.fs.names.get(a) is not m.inode:
            self.bad("socket-gone", P, "%s, and the inherited socket %s no longer accepts connections" % (what, a))

    def fs_watch(self, call, what):
        if call in ("unlink", "rename"):
            self.still_there("the %s of %s" % (call, what))

    def net_watch(self, event, sock):
        s = self.server_here()
        if s is None:
            return
        if self.cfg["mine"]:
            self.bad("own-socket", P, "%s inherits a socket but calls %s(%r)" % (s, event, sock.name))
        s.sock = sock
        s.inode = sock.inode
        if event == "listen":
            s.phase = "ready"
            self.master = sock

    # ---- clients
    def ping(self, rng, final=False):
        from durus.client_storage import ClientStorage
        from durus.error import ConflictError
        sim = self.sim
        known = set(self.acked[self.db])
        ends, sent = self.ends, self.sent
        calm = not self.quitting() and (self.current() is None or self.current().phase != "exiting")
        alone = self.current() is None
        sim.stat("ping")
        t0 = sim.now
        st = err = got = None
        stalled = sum(s.stalled for s in self.servers)
        try:
            st = ClientStorage(address=self.address)
            conn = self.Connection(st)
            root = conn.get_root()
            got = set(k for k in root.keys() if k != "name")
            for i in range(rng.choice([0, 1, 1, 2, 4])):
                self.token += 1
                tok = "t%d" % self.token
                root[tok] = 1
                self.tried[self.db].add(tok)
                try:
                    conn.commit()
                except ConflictError:
                    conn.abort()
                    sim.stat("conflict")
                    continue
                self.acked[self.db].add(tok)
                sim.stat("commit.acked")
                if rng.random() < 0.2:
                    sim.sleep(0.01)
        except ConflictError:
            sim.stat("conflict")
            got = None
        except Exception as e:
            err = "%r at %s" % (e, where(e))
        finally:
            if st is not None:
                try:
                    st.close()
                except Exception:
                    pass
        sim.ev("ping", err)
        if got is not None:
            sim.stat("ping.ok")
            if alone:
                sim.stat("ping.ok.activating")
            if known - got:
                self.bad("lost", P, "the acknowledged commits %s are not there" % sorted(known - got)[:5])
            if got - self.tried[self.db]:
                self.bad("made-up", P, "there is %s" % sorted(got - self.tried[self.db])[:5])
        if not self.cfg["mine"]:
            if err and self.quiet:
                self.bad("not-served", P, "the inherited socket is meant for another process and the server has its "
                         "own, but a client gets %s" % err)
            return
        if calm and self.ends == ends and self.sent == sent:
            if err:
                self.bad("not-served", P, "%s is activated on demand and nobody stops the server, but a client "
                         "gets %s" % (self.name, err))
            spent = sim.now - t0 - (sum(s.stalled for s in self.servers) - stalled)
            if spent > 5 and not stalled:
                self.bad("late", P, "a client was served after %.1f s" % spent)
        self.still_there("a client was served")

    def op_ping(self, rng):
        self.ping(rng)

    def quitting(self):
        self.quits = [q for q in self.quits if q.peer.state != "closed"]
        return self.quits

    def op_hello(self, rng):
        """Somebody connects and leaves again."""
        if self.master is None:
            return
        try:
            self.connect().close()
        except OSError:
            pass

    def connect(self):
        from durus.storage_server import SocketAddress
        s = SocketAddress.new(self.address).get_connected_socket()
        if s is None:
            if self.cfg["mine"]:
                self.bad("refused", P, "a connection to %s, where the init process listens, is refused" % self.name)
            raise OSError("refused")
        return s

    def op_quit(self, rng):
        from durus.utils import write
        if self.master is None:
            return
        try:
            s = self.connect()
        except OSError:
            return
        self.sent += 1
        self.quits.append(s)
        self.sim.stat("quit")
        try:
            write(s, "Q")
        except Exception:
            pass
        s.close()

    def op_wait(self, rng):
        from durus.storage_server import wait_for_server
        if self.master is None or not self.cfg["mine"]:
            return
        t0 = self.sim.now
        try:
            wait_for_server(address=self.address, maxtries=2, sleeptime=1)
        except SystemExit:
            self.bad("refused", P, "waiting for %s, where the init process listens, gave up" % self.name)
        if self.sim.now - t0 > 0.9:
            self.bad("refused", P, "waiting for %s, where the init process listens, went on" % self.name)

    def op_crash(self, rng):
        s = self.current()
        if s is None or s.phase == "exiting":
            return
        self.sim.stat("fault.kill.between")
        s.doomed = "crash"
        self.dirty.add(s.db)
        self.sim.kill(s.proc)
        self.still_there("%s was killed" % s)

    def op_sleep(self, rng):
        self.sim.sleep(rng.choice([0.001, 0.01, 0.3, 2.0]))

    def begin(self, i, ops):
        if self.cfg["mine"]:
            self.sim.block("socket", lambda: self.master is not None)
        self.operator(i, ops)

    def check_junk(self):
        pass

    def final(self):
        sim = self.sim
        sim.block("operators", lambda: not self.left)
        self.quiet = True
        self.cur_u[sim.cur.name] = "fin"
        if self.cfg["mine"]:
            sim.block("quits", lambda: self.current() is None and not self.waiting() or
                      self.current() is not None and not self.waiting(), 100)
            sim.sleep(5)
            for i in range(2):
                rng = random.Random(i)
                self.ping(rng)
                self.sent += 1
                c = self.connect()
                self.quits.append(c)
                c.send(b"Q")
                c.close()
                sim.block("stop", lambda: self.current() is None and not self.waiting(), 60)
                if self.current() is not None:
                    self.bad("stop-ineffective", P, "%s does not stop" % self.current())
                self.still_there("the server was stopped")
        else:
            if not sim.block("ready", lambda: self.current() is not None and self.current().phase == "ready" and
                             not self.quitting(), 60):
                self.bad("not-served", P, "the inherited socket is meant for another process, but the server does "
                         "not listen on its own")
            sim.sleep(0.1)
            self.ping(random.Random(1))
        self.over = True
        for s in self.servers:
            if s.phase != "ended":
                s.doomed = "crash"
                self.dirty.add(s.db)
                sim.kill(s.proc)
        self.check_file(self.db, self.kinds[self.db] != "sqlite" and self.db in self.dirty, "at the end")

    def run(self):
        sim = self.sim
        try:
            self.quiet = True
            self.setup()
            self.quiet = False
            n = self.cfg["operators"]
            self.left = n
            sim.spawn("init", self.activate, self.init)
            for i in range(n):
                ops = [op for op in self.plan["ops"] if op["a"] == i]
                sim.spawn("o%d" % i, lambda i=i, ops=ops: self.begin(i, ops))
            sim.spawn("fin", self.final)
            how = sim.run()
            if how == "violation":
                raise sim.violations[0] if sim.violations else HarnessError("stopped")
            for a in sim.actors:
                if a.error is not None:
                    raise a.error
            if how == "blocked":
                self.bad("stuck", P, "waiting for ever: %s" % "; ".join(sim.stuck))
            if how == "steps":
                self.bad("stuck", P, "no end")
        finally:
            self.restore()


def run(sim, plan):
    Run(sim, plan).run()
