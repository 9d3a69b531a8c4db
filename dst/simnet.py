"""SimNet: stream sockets, select and clocks inside the simulation.

A socket made while a simulated network is current is a SimSocket; time.time, time.monotonic and
time.sleep follow the simulated clock while a simulation runs.  Nothing else is changed.
"""
import errno
import fcntl
import os
import select as select_mod
import socket as socket_mod
import time as time_mod
from collections import deque

import simfs
from core import Sim, SimKilled

CUR = None
real = {}
FDBASE = 2000000


def oserr(e):
    return OSError(e, os.strerror(e))


def inherited(fd):
    """What the process that runs now was given under a small descriptor number.

    None if it is not a simulated process."""
    if CUR is None or Sim.CUR is not CUR.sim or isinstance(fd, bool) or not isinstance(fd, int) or \
            not 3 <= fd < 64 or CUR.sim.cur is None:
        return None
    fds = getattr(CUR.sim.cur.proc, "fds", None)
    if fds is None:
        return None
    if fd not in fds:
        raise oserr(errno.EBADF)
    return fds[fd]


def duplicate(l, family=None):
    """Another descriptor of a listening socket."""
    s = SimSocket(l.family if family is None else family, l.type, net=l.net)
    s.state = l.state
    s.name = l.name
    s.backlog = l.backlog
    s.master = l.master or l
    return s


class Pipe(object):
    """One direction of a connection, as its reader sees it."""
    __slots__ = ("buf", "inflight", "eof", "reset", "last", "reader_gone", "lost", "total")

    def __init__(self):
        self.buf = bytearray()      # arrived and not read
        self.inflight = 0
        self.eof = False
        self.reset = False
        self.last = 0.0             # arrival of the last segment
        self.reader_gone = False
        self.lost = False           # what is in flight never arrives
        self.total = 0


class Net(object):
    def __init__(self, sim):
        self.sim = sim
        self.inet = {}              # (host, port) -> sockets bound there
        self.timewait = {}          # (host, port) -> until when closed connections linger
        self.watch = None           # callable(event, sock), after it
        self.abstract = {}
        self.paths = {}             # inode -> listener
        self.nextfd = FDBASE
        self.nextport = 40000
        self.sockets = []
        self.faults = None          # callable(call, sock, nbytes) -> None | dict
        self.window = 65536
        self.latency = 0.0002
        self.procs = set()
        self.backlog_limit = 64

    def attach(self, proc):
        """The operating system closes the sockets of a process that dies."""
        if proc not in self.procs:
            self.procs.add(proc)
            proc.on_death.append(lambda: self.proc_died(proc))

    def proc_died(self, proc):
        for s in list(self.sockets):
            if s.proc is proc:
                s._close(True)

    def open_sockets(self, proc):
        return [s for s in self.sockets if s.proc is proc and s.state != "closed"]


class SimSocket(object):
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None, net=None):
        self.net = net or CUR
        self.sim = self.net.sim
        self.family = socket_mod.AF_INET if family == -1 else family
        self.type = socket_mod.SOCK_STREAM if type == -1 else type
        self.proto = 0
        self.proc = self.sim.cur.proc
        self.net.attach(self.proc)
        self.state = "new"
        self.timeout = None
        self.fd = self.net.nextfd
        self.net.nextfd += 1
        self.net.sockets.append(self)
        self.name = None
        self.peername = None
        self.backlog = deque()
        self.rx = None
        self.tx = None
        self.peer = None
        self.inode = None
        self.master = None      # the socket this one is a duplicate of
        self.reuse = self.reuseport = self.accepted = False
        self.label = "s%d" % (self.fd - FDBASE)

    # ---- helpers
    def _call(self, call, nbytes=0):
        sim = self.sim
        sim.point()
        if self.state == "closed":
            raise oserr(errno.EBADF)
        f = None
        if self.net.faults is not None:
            f = self.net.faults(call, self, nbytes)
            if f:
                if "stall" in f:
                    sim.stat("fault.net.stall")
                    sim.ev("stall", call, f["stall"])
                    sim.sleep(f["stall"])
                if "kill" in f:
                    sim.stat("fault.kill." + call)
                    sim.kill(sim.cur.proc)
                    raise SimKilled()
                if "reset" in f:
                    sim.stat("fault.net.reset")
                    self._reset()
                if "err" in f:
                    sim.stat("fault.%s.%s" % (call, errno.errorcode[f["err"]]))
                    sim.ev("fault", call, errno.errorcode[f["err"]])
                    raise oserr(f["err"])
        if self.state == "closed":
            raise oserr(errno.EBADF)
        return f or {}

    def _reset(self):
        """The connection breaks: nothing more gets through in either direction."""
        if self.rx is None:
            return
        self.sim.ev("reset", self.label)
        for p in (self.rx, self.tx):
            if not p.eof:
                p.reset = True
                p.lost = True

    def _wait(self, label, pred):
        if not self.sim.block(label, pred, self.timeout):
            self.sim.stat("net.timeout")
            raise socket_mod.timeout("timed out")

    # ---- server side
    def setsockopt(self, *a):
        if self.state == "closed":
            raise oserr(errno.EBADF)
        if len(a) == 3 and a[0] == socket_mod.SOL_SOCKET:
            if a[1] == socket_mod.SO_REUSEADDR:
                self.reuse = bool(a[2])
            elif a[1] == getattr(socket_mod, "SO_REUSEPORT", -1):
                self.reuseport = bool(a[2])

    def getsockopt(self, *a):
        return 0

    def bind(self, addr):
        net = self.net
        self._call("bind")
        if self.name is not None:
            raise oserr(errno.EINVAL)
        if self.family == socket_mod.AF_UNIX:
            if isinstance(addr, bytes):
                addr = addr.decode("utf-8", "surrogateescape")
            if addr.startswith("\0"):
                if addr in net.abstract:
                    raise oserr(errno.EADDRINUSE)
                net.abstract[addr] = self
            else:
                fs = simfs.CUR
                path = simfs._norm(addr)
                if not simfs._is_sim(path):
                    raise oserr(errno.EACCES)
                fs._call("bind", path)
                if path in fs.names:
                    raise oserr(errno.EADDRINUSE)
                ino = simfs.Inode(fs.nextino, b"", "sock")
                fs.nextino += 1
                ino.nlink = 1
                fs.names[path] = ino
                fs.journal.append(("link", path, ino))
                net.paths[ino] = self
                self.inode = ino
        else:
            host, port = addr[0], addr[1]
            if port == 0:
                net.nextport += 1
                port = net.nextport
                addr = (host, port)
            for l in net.inet.get((host, port), ()):
                if not (self.reuseport and l.reuseport or
                        self.reuse and l.reuse and l.state != "listening"):
                    raise oserr(errno.EADDRINUSE)
            if not self.reuse and net.timewait.get((host, port), 0) > self.sim.now:
                raise oserr(errno.EADDRINUSE)
            net.inet.setdefault((host, port), []).append(self)
            addr = (host, port)
        self.name = addr
        self.state = "bound"
        self.sim.ev("bind", repr(addr))
        if net.watch:
            net.watch("bind", self)

    def listen(self, n=128):
        self._call("listen")
        if self.name is None:
            raise oserr(errno.EINVAL)
        if self.master is not None:
            return
        if self.family != socket_mod.AF_UNIX:
            for l in self.net.inet.get(self.name[:2], ()):
                if l is not self and l.state == "listening" and not (self.reuseport and l.reuseport):
                    raise oserr(errno.EADDRINUSE)
        self.state = "listening"
        self.sim.ev("listen", repr(self.name))
        if self.net.watch:
            self.net.watch("listen", self)

    def accept(self):
        f = self._call("accept")
        if self.state != "listening":
            raise oserr(errno.EINVAL)
        if "abort" in f and self.backlog:
            # the connection was broken before it was accepted
            s = self.backlog.popleft()
            s._close(True)
            self.sim.stat("fault.accept.ECONNABORTED")
            raise oserr(errno.ECONNABORTED)
        if not self.backlog:
            self._wait("accept", lambda: self.backlog or self.state == "closed")
            if self.state == "closed":
                raise oserr(errno.EBADF)
        s = self.backlog.popleft()
        s.proc = self.proc
        self.sim.ev("accept", s.label)
        return s, s.peername

    # ---- client side
    def connect(self, addr):
        net = self.net
        self._call("connect")
        if self.state not in ("new", "bound"):
            raise oserr(errno.EISCONN)
        if self.family == socket_mod.AF_UNIX:
            if isinstance(addr, bytes):
                addr = addr.decode("utf-8", "surrogateescape")
            if addr.startswith("\0"):
                l = net.abstract.get(addr)
                if l is None:
                    raise oserr(errno.ECONNREFUSED)
            else:
                ino = simfs.CUR.names.get(simfs._norm(addr))
                if ino is None:
                    raise oserr(errno.ENOENT)
                l = net.paths.get(ino) if ino.kind == "sock" else None
        else:
            ls = [x for x in net.inet.get((addr[0], addr[1]), ()) if x.state == "listening"]
            l = ls[self.sim.pick("listener", len(ls))] if ls else None
        if l is None or l.state != "listening" or len(l.backlog) >= net.backlog_limit:
            self.sim.stat("net.refused")
            raise oserr(errno.ECONNREFUSED)
        other = SimSocket(self.family, self.type, net=net)
        other.proc = l.proc
        other.accepted = True
        a, b = Pipe(), Pipe()
        a.last = b.last = self.sim.now
        self.tx, self.rx = a, b
        other.tx, other.rx = b, a
        self.peer, other.peer = other, self
        net.nextport += 1
        self.name = self.name or (("", "")[0] if self.family == socket_mod.AF_UNIX
                                  else ("127.0.0.1", net.nextport))
        other.name = l.name
        self.peername, other.peername = l.name, self.name
        self.state = other.state = "connected"
        l.backlog.append(other)
        self.sim.stat("net.connect")
        self.sim.ev("connect", self.label, other.label, repr(addr))

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno
        return 0

    # ---- data
    def send(self, data, flags=0):
        data = bytes(data)
        f = self._call("send", len(data))
        if self.state != "connected":
            raise oserr(errno.ENOTCONN)
        if not data:
            return 0
        p = self.tx
        w = self.net.window

        def room():
            return (w - len(p.buf) - p.inflight > 0 or p.reset or p.reader_gone or
                    self.state == "closed")
        if not room():
            self.sim.stat("net.window_full")
            self._wait("send", room)
        if self.state == "closed":
            raise oserr(errno.EBADF)
        if p.reset:
            raise oserr(errno.ECONNRESET)
        if p.reader_gone:
            if self.rx.reset or p.lost:
                raise oserr(errno.EPIPE)
            # the first write after the peer has gone is answered by a reset
            p.lost = True
            self.rx.reset = not self.rx.buf
            return len(data)
        n = min(len(data), w - len(p.buf) - p.inflight)
        if "short" in f:
            n = max(1, min(n, f["short"]))
            self.sim.stat("fault.net.short_send")
        chunk = data[:n]
        sim = self.sim
        delay = self.net.latency
        if "delay" in f:
            delay += f["delay"]
            sim.stat("fault.net.delay")
        at = max(p.last, sim.now + delay)
        p.last = at
        p.inflight += n
        p.total += n

        def arrive():
            p.inflight -= n
            if p.lost or p.reader_gone:
                return
            p.buf.extend(chunk)
        sim.after(at - sim.now, arrive)
        sim.ev("send", self.label, n, simfs.hash_bytes(chunk))
        return n

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            data = data[self.send(data):]

    def recv(self, n, flags=0):
        f = self._call("recv", n)
        if self.state != "connected":
            raise oserr(errno.ENOTCONN)
        p = self.rx
        if not (p.buf or p.eof or p.reset):
            self._wait("recv", lambda: p.buf or p.eof or p.reset or self.state == "closed")
        if self.state == "closed":
            raise oserr(errno.EBADF)
        if p.reset and not p.buf:
            raise oserr(errno.ECONNRESET)
        if not p.buf:
            return b""
        k = min(n, len(p.buf))
        if "short" in f and k > 1:
            k = max(1, min(k, f["short"]))
            self.sim.stat("fault.net.short_recv")
        d = bytes(p.buf[:k])
        del p.buf[:k]
        self.sim.ev("recv", self.label, k)
        return d

    def recv_into(self, b, nbytes=0, flags=0):
        d = self.recv(nbytes or len(b))
        b[:len(d)] = d
        return len(d)

    def shutdown(self, how):
        self._call("shutdown")
        if self.state == "listening":
            l = self.master or self     # (also for those who share it)
            l.state = "bound"
            while l.backlog:
                l.backlog.popleft()._close(True)
            return
        if self.state != "connected":
            raise oserr(errno.ENOTCONN)
        if how in (socket_mod.SHUT_WR, socket_mod.SHUT_RDWR):
            self._fin()

    def _fin(self):
        p = self.tx
        at = max(p.last, self.sim.now + self.net.latency)
        p.last = at

        def arrive():
            if not p.reset:
                p.eof = True
        self.sim.after(at - self.sim.now, arrive)

    def close(self):
        if self.state == "closed" or self.proc.dead:
            return
        if Sim.CUR is self.sim and not self.sim.stopping:
            self.sim.point()
        if self.state != "closed":
            self._close(False)

    def _close(self, died):
        if self.state == "closed":
            return
        net = self.net
        old, self.state = self.state, "closed"
        try:
            net.sockets.remove(self)
        except ValueError:
            pass
        for d in (net.abstract, net.paths):
            for k in [k for k, v in d.items() if v is self]:
                del d[k]
        for l in net.inet.values():
            if self in l:
                l.remove(self)
        if self.accepted and self.family != socket_mod.AF_UNIX and not self.rx.eof:
            net.timewait[self.name[:2]] = self.sim.now + 60     # (this side closed first)
        self.sim.ev("close", self.label)
        while self.backlog and self.master is None:
            self.backlog.popleft()._close(True)
        if old == "connected":
            self.rx.reader_gone = True
            if self.rx.buf or self.rx.inflight:
                # unread data: the peer gets a reset (it may lose what is on its way)
                if not self.tx.eof:
                    p = self.tx
                    at = max(p.last, self.sim.now + net.latency)

                    def arrive():
                        p.reset = True
                    self.sim.after(at - self.sim.now, arrive)
            else:
                self._fin()

    def __del__(self):
        # An unreferenced socket is closed, as CPython does.
        try:
            if (self.state != "closed" and Sim.CUR is self.sim and not self.proc.dead and
                    not self.sim.stopping):
                self._close(False)
        except Exception:
            pass

    def detach(self):
        return self.fd

    def fileno(self):
        return -1 if self.state == "closed" else self.fd

    def settimeout(self, t):
        if self.state == "closed":
            raise oserr(errno.EBADF)
        f = self.net.faults("settimeout", self, 0) if self.net.faults is not None else None
        if f and "err" in f:
            self.sim.stat("fault.settimeout.%s" % errno.errorcode[f["err"]])
            raise oserr(f["err"])
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def getsockname(self):
        n = self.name
        if isinstance(n, str) and n.startswith("\0"):
            return os.fsencode(n)
        if isinstance(n, tuple) and len(n) == 2 and ":" in n[0]:
            return n + (0, 0)
        return n

    def getpeername(self):
        if self.state != "connected":
            raise oserr(errno.ENOTCONN)
        return self.peername

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ---- readiness
    def _readable(self):
        if self.state == "listening":
            return bool(self.backlog)
        if self.state == "connected":
            p = self.rx
            return bool(p.buf) or p.eof or p.reset
        return True

    def _writable(self):
        if self.state != "connected":
            return True
        p = self.tx
        return (self.net.window - len(p.buf) - p.inflight > 0) or p.reset or p.reader_gone


def sim_select(r, w, x, timeout=None):
    sim = CUR.sim
    sim.point()
    for s in list(r) + list(w):
        if s.fileno() < 0:
            raise ValueError("file descriptor cannot be a negative integer (-1)")

    def ready():
        return ([s for s in r if s._readable()], [s for s in w if s._writable()])
    a, b = ready()
    if not (a or b):
        if timeout is not None and timeout <= 0:
            return [], [], []
        sim.block("select", lambda: any(s._readable() for s in r) or any(s._writable() for s in w),
                  timeout)
        a, b = ready()
    return a, b, []


def install():
    if real:
        return
    real["socket"] = socket_mod.socket
    real["select"] = select_mod.select
    real["time"] = time_mod.time
    real["monotonic"] = time_mod.monotonic
    real["sleep"] = time_mod.sleep
    rs = real["socket"]

    class socket(rs):
        """The seam: simulated sockets while a simulated network is current."""
        def __new__(cls, *args, **kwargs):
            if CUR is not None and Sim.CUR is CUR.sim:
                fd = kwargs.get("fileno", args[3] if len(args) > 3 else None)
                if fd is not None:
                    l = inherited(fd)
                    if l is None:
                        raise oserr(errno.EBADF)
                    CUR.sim.cur.proc.fds.pop(fd)
                    return duplicate(l)
                return SimSocket(*args, **kwargs)
            return rs.__new__(cls, *args, **kwargs)
    socket_mod.socket = socket

    rff, rdup, rclose, rinh = socket_mod.fromfd, os.dup, os.close, os.set_inheritable
    rfcntl = fcntl.fcntl

    def fromfd(fd, family, type, proto=0):
        l = inherited(fd)
        if l is None and CUR is not None and Sim.CUR is CUR.sim:
            raise oserr(errno.EBADF)
        return rff(fd, family, type, proto) if l is None else duplicate(l, family)
    socket_mod.fromfd = fromfd

    def dup(fd):
        l = inherited(fd)
        if l is None:
            return rdup(fd)
        fds = CUR.sim.cur.proc.fds
        new = min(n for n in range(3, 64) if n not in fds)
        fds[new] = l
        return new
    os.dup = dup

    def close(fd):
        if inherited(fd) is None:
            return rclose(fd)
        CUR.sim.cur.proc.fds.pop(fd)
    os.close = close

    def set_inheritable(fd, flag):
        return rinh(fd, flag) if inherited(fd) is None else None
    os.set_inheritable = set_inheritable

    def fcntl_(fd, *a):
        if isinstance(fd, int) and 3 <= fd < 64 and CUR is not None and Sim.CUR is CUR.sim:
            if inherited(fd) is None:
                raise oserr(errno.EBADF)
            return 0
        return rfcntl(fd, *a)
    fcntl.fcntl = fcntl_

    rsel = real["select"]

    def select(r, w, x, timeout=None):
        if CUR is not None and Sim.CUR is CUR.sim:
            return sim_select(r, w, x, timeout)
        return rsel(r, w, x, timeout)
    select_mod.select = select
    rt, rm, rsl = real["time"], real["monotonic"], real["sleep"]

    def time():
        s = Sim.CUR
        return rt() if s is None else s.now

    def monotonic():
        s = Sim.CUR
        return rm() if s is None else s.now

    def sleep(t):
        s = Sim.CUR
        return rsl(t) if s is None else s.sleep(t)
    time_mod.time = time
    time_mod.monotonic = monotonic
    time_mod.sleep = sleep

    rum = os.umask

    def umask(m):
        return 0o22 if Sim.CUR is not None else rum(m)
    os.umask = umask
    real["umask"] = rum


def use(net):
    global CUR
    old = CUR
    CUR = net
    return old
