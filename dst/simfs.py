"""SimFS: an in-memory file system with faults, crash images and locks.

Paths below ROOT go to the current FS object; everything else goes to the real system.
"""
import builtins
import errno
import io
import os
import random
import stat as statmod

from core import Sim, SimKilled, SimStop, HarnessError

ROOT = "/simfs"
FDBASE = 1000000
CUR = None          # the current FS

real = {}


def _is_sim(path):
    if isinstance(path, int):
        return path >= FDBASE
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    return p == ROOT or p.startswith(ROOT + "/")


def _norm(path):
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    return os.path.normpath(p)


class Inode(object):
    __slots__ = ("ino", "data", "synced", "pend", "nlink", "lock", "kind", "mode", "mtime")

    def __init__(self, ino, data=b"", kind="file"):
        self.ino = ino
        self.data = bytearray(data)
        self.synced = bytes(data)
        self.pend = []
        self.nlink = 0
        self.lock = None
        self.kind = kind
        self.mode = 0o644
        self.mtime = 0


def oserr(e, path=None):
    if path is None:
        return OSError(e, os.strerror(e))
    return OSError(e, os.strerror(e), path)


class Handle(object):
    """An open file description."""
    __slots__ = ("fs", "inode", "path", "readable", "writable", "append", "pos", "fd", "closed", "proc")


class FS(object):
    def __init__(self, sim):
        self.sim = sim
        self.names = {}         # path -> Inode (current view)
        self.dnames = {}        # durable view
        self.journal = []       # [(op, args...)] metadata operations not yet committed
        self.handles = {}       # fd -> Handle
        self.nextfd = FDBASE
        self.nextino = 1
        self.faults = None      # callable(call, path, nbytes) -> None | dict
        self.on_call = None     # callable(call, path, nbytes), before a mutating call
        self.outage = None      # [errno, remaining calls or -1]
        self.capacity = None
        self.ncalls = 0
        self.yield_points = True
        self.dead = False       # all effects suppressed (image frozen)
        self.watch = None       # callable(call, path) observed effects (after)
        self.inflight = None    # (inode, pos, data) of the write being entered

    # ---- images
    def clone(self, power=None, partial=None):
        """A crash image as a new FS.  power=None: process crash (page cache kept);
        else a random.Random deciding what reached the disk."""
        new = FS(self.sim)
        new.nextino = self.nextino
        made = {}
        if power is None:
            names = self.names
        else:
            names = dict(self.dnames)
            j = self.journal
            k = power.choice([0, len(j), power.randint(0, len(j))]) if j else 0
            for op in j[:k]:
                _apply_meta(names, op)
        policy = None
        if power is not None:
            policy = (power.choice(["none", "all", "rand", "rand"]),
                      power.choice([0.0, 1.0, 0.5]))
        for path in sorted(names):
            ino = names[path]
            if ino.ino not in made:
                data = bytes(ino.data) if power is None else _lossy(ino, power, policy)
                n = Inode(ino.ino, data, ino.kind)
                n.mode = ino.mode
                made[ino.ino] = n
            n = made[ino.ino]
            n.nlink += 1
            new.names[path] = n
            new.dnames[path] = n
        if power is None and partial is not None and self.inflight is not None:
            ino, pos, data = self.inflight
            if ino.ino in made:
                k = partial.choice([0, len(data), partial.randint(0, len(data))])
                _place(made[ino.ino].data, pos, data[:k])
                made[ino.ino].synced = bytes(made[ino.ino].data)
        return new

    def content(self):
        return dict((p, bytes(i.data)) for p, i in self.names.items())

    # ---- calls
    def _call(self, call, path, nbytes=0, mutating=True):
        """Common entry of every call: scheduling, kills, faults.
        Returns None or a dict {"short": k} for partial writes."""
        sim = self.sim
        if self.dead:
            raise SimKilled("fs frozen")
        sim.check_alive()
        y = self.yield_points
        if y and (y is True or y(path)):
            sim.point()
        self.ncalls += 1
        if mutating and self.on_call is not None:
            self.on_call(call, path, nbytes)
        if self.dead:
            raise SimKilled("fs frozen")
        f = None
        if self.outage is not None and call in ("write", "extend", "open-create", "link", "fsync"):
            e, n = self.outage[:2]
            if not (e == errno.ENOSPC and call in ("fsync", "write")):
                if n > 0:
                    self.outage[1] = n - 1
                    if self.outage[1] == 0:
                        self.outage = None
                sim.stat("fault.outage.%s" % errno.errorcode[e])
                sim.ev("outage", call, errno.errorcode[e])
                raise oserr(e, path)
        if self.faults is not None:
            f = self.faults(call, path, nbytes)
            if f is not None:
                if "err" in f:
                    sim.stat("fault.%s.%s" % (call, errno.errorcode[f["err"]]))
                    sim.ev("fault", call, os.path.basename(str(path)), errno.errorcode[f["err"]])
                    if "short" not in f:
                        raise oserr(f["err"], path)
                elif "short" in f:
                    sim.stat("fault.%s.short" % call)
        return f

    def _inode(self, path):
        return self.names.get(path)

    def open(self, path, readable, writable, create=False, trunc=False, excl=False, append=False):
        path = _norm(path)
        ino = self.names.get(path)
        creating = ino is None and create
        self._call("open-create" if creating else "open", path, 0,
                   mutating=creating or (trunc and ino is not None))
        ino = self.names.get(path)
        if path == ROOT:
            h = Handle()
            ino = Inode(0, b"", "dir")
        elif ino is None:
            if not create:
                raise oserr(errno.ENOENT, path)
            ino = Inode(self.nextino)
            self.nextino += 1
            self.names[path] = ino
            ino.nlink += 1
            self.journal.append(("link", path, ino))
            self.sim.ev("create", os.path.basename(path))
        elif excl and create:
            raise oserr(errno.EEXIST, path)
        elif ino.kind == "sock":
            raise oserr(errno.ENXIO, path)
        if trunc and writable and len(ino.data):
            self._truncate(ino, 0)
        h = Handle()
        h.fs = self
        h.inode = ino
        h.path = path
        h.readable = readable
        h.writable = writable
        h.append = append
        h.pos = 0
        h.closed = False
        h.proc = self.sim.cur.proc
        h.fd = self.nextfd
        self.nextfd += 1
        self.handles[h.fd] = h
        return h

    def close(self, h):
        if h.closed:
            return
        h.closed = True
        self.handles.pop(h.fd, None)
        if h.inode.lock is h:
            h.inode.lock = None

    def kill_proc(self, proc):
        """The OS releases what a dead process held."""
        for h in list(self.handles.values()):
            if h.proc is proc:
                self.close(h)

    def pread(self, h, n, pos):
        self.sim.check_alive()
        if h.closed:
            raise oserr(errno.EBADF)
        f = self._call("read", h.path, n, mutating=False)
        if not h.readable:
            raise oserr(errno.EBADF)
        d = bytes(h.inode.data[pos:pos + n])
        if f and "short" in f and len(d) > 1:
            d = d[:max(1, f["short"])]
        return d

    def pwrite(self, h, data, pos):
        self.sim.check_alive()
        if not h.writable or h.closed:
            raise oserr(errno.EBADF)
        data = bytes(data)
        if h.append:
            pos = len(h.inode.data)
        self.inflight = (h.inode, pos, data)
        try:
            f = self._call("write", h.path, len(data))
        finally:
            self.inflight = None
        ino = h.inode
        n = len(data)
        if h.append:
            pos = len(ino.data)
        if f and "short" in f:
            n = min(n, f["short"])
        grow = pos + n - len(ino.data)
        if grow > 0 and self.outage is not None and self.outage[0] == errno.ENOSPC:
            room = max(0, len(ino.data) - pos)
            room += self.outage[2] if len(self.outage) > 2 else 0
            if len(self.outage) > 2:
                self.outage[2] = 0
            if room < n:
                self.sim.stat("fault.write.ENOSPC")
                self.sim.ev("enospc", os.path.basename(h.path), room, n)
                n = room
                if self.outage[1] > 0:
                    self.outage[1] -= 1
                    if self.outage[1] == 0:
                        self.outage = None
                if n == 0:
                    raise oserr(errno.ENOSPC, h.path)
        if n > 0:
            self._write(ino, pos, data[:n])
        if f and "err" in f:
            raise oserr(f["err"], h.path)
        if f and "kill" in f:
            self.sim.kill(self.sim.cur.proc)
            raise SimKilled("in write")
        return n

    def _write(self, ino, pos, data):
        size = len(ino.data)
        if pos > size:
            ino.data.extend(b"\0" * (pos - size))
            ino.pend.append(("w", size, b"\0" * (pos - size), size))
            size = pos
        ino.data[pos:pos + len(data)] = data
        ino.pend.append(("w", pos, data, size))
        self.sim.ev("w", ino.ino, pos, len(data), hash_bytes(data))
        if self.watch:
            self.watch("write", ino)

    def _truncate(self, ino, size):
        old = len(ino.data)
        if size == old:
            return
        if size < old:
            del ino.data[size:]
        else:
            ino.data.extend(b"\0" * (size - old))
        ino.pend.append(("t", size, old))
        self.sim.ev("t", ino.ino, size)
        if self.watch:
            self.watch("truncate", ino)

    def ftruncate(self, h, size):
        self.sim.check_alive()
        if not h.writable or h.closed:
            raise oserr(errno.EINVAL)
        self._call("extend" if size > len(h.inode.data) else "truncate", h.path, size)
        self._truncate(h.inode, size)

    def fsync(self, h):
        self._call("fsync", h.path)
        self.sim.stat("fs.fsync")
        ino = h.inode
        if ino.kind == "file":
            ino.synced = bytes(ino.data)
            ino.pend = []
        self.commit_journal()
        self.sim.ev("fsync", ino.ino)

    def commit_journal(self):
        for op in self.journal:
            _apply_meta(self.dnames, op)
        self.journal = []

    def unlink(self, path):
        path = _norm(path)
        if path not in self.names:
            self._call("stat", path, 0, mutating=False)
            raise oserr(errno.ENOENT, path)
        self._call("unlink", path)
        ino = self.names.pop(path, None)
        if ino is None:
            raise oserr(errno.ENOENT, path)
        ino.nlink -= 1
        self.journal.append(("unlink", path))
        self.sim.ev("unlink", os.path.basename(path))
        if self.watch:
            self.watch("unlink", path)

    def rename(self, old, new):
        old, new = _norm(old), _norm(new)
        if old not in self.names:
            self._call("stat", old, 0, mutating=False)
            raise oserr(errno.ENOENT, old)
        self._call("rename", new)
        if old not in self.names:
            raise oserr(errno.ENOENT, old)
        if self.names.get(new) is self.names[old]:
            return      # POSIX: same file, nothing happens
        tgt = self.names.get(new)
        if tgt is not None:
            tgt.nlink -= 1
        self.names[new] = self.names.pop(old)
        self.journal.append(("rename", old, new))
        self.sim.ev("rename", os.path.basename(old), os.path.basename(new))
        if self.watch:
            self.watch("rename", new)

    def link(self, old, new):
        old, new = _norm(old), _norm(new)
        self._call("link", new)
        if old not in self.names:
            raise oserr(errno.ENOENT, old)
        if new in self.names:
            raise oserr(errno.EEXIST, new)
        self.names[new] = self.names[old]
        self.names[new].nlink += 1
        self.journal.append(("link", new, self.names[new]))
        self.sim.ev("link", os.path.basename(old), os.path.basename(new))

    def stat_inode(self, ino):
        mode = ino.mode | {"file": statmod.S_IFREG, "sock": statmod.S_IFSOCK,
                           "dir": statmod.S_IFDIR}[ino.kind]
        t = int(self.sim.now)
        return os.stat_result((mode, ino.ino + 1000, 77, max(ino.nlink, 0), 0, 0,
                               len(ino.data), t, t, t))

    def stat(self, path):
        path = _norm(path)
        self._call("stat", path, 0, mutating=False)
        if path == ROOT:
            return self.stat_inode(Inode(0, b"", "dir"))
        ino = self.names.get(path)
        if ino is None:
            raise oserr(errno.ENOENT, path)
        return self.stat_inode(ino)

    def flock(self, h, op):
        import fcntl
        self._call("flock", h.path, 0, mutating=False)
        ino = h.inode
        if op & fcntl.LOCK_UN:
            if ino.lock is h:
                ino.lock = None
            self.sim.ev("unlock", ino.ino)
            return
        if ino.lock is not None and ino.lock is not h:
            if op & fcntl.LOCK_NB:
                self.sim.stat("fs.lock_refused")
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            self.sim.block("flock", lambda: ino.lock is None or ino.lock is h)
        if op & fcntl.LOCK_EX:
            ino.lock = h
        self.sim.ev("lock", ino.ino)

    # direct helpers for harnesses (no faults, no scheduling)
    def put(self, path, data):
        ino = Inode(self.nextino, data)
        self.nextino += 1
        ino.nlink = 1
        self.names[path] = ino
        self.dnames[path] = ino
        return ino

    def get(self, path):
        ino = self.names.get(path)
        return None if ino is None else bytes(ino.data)


def hash_bytes(b):
    import zlib
    return zlib.crc32(bytes(b))


def _apply_meta(names, op):
    if op[0] == "link":
        names[op[1]] = op[2]
    elif op[0] == "unlink":
        names.pop(op[1], None)
    elif op[0] == "rename":
        if op[1] in names:
            names[op[2]] = names.pop(op[1])


def _lossy(ino, rng, policy):
    """What a file holds after power loss: the synced image plus a prefix of the size-changing
    operations plus any subset (possibly torn) of the overwrites."""
    if not ino.pend:
        return bytes(ino.synced)
    mode, pover = policy
    data = bytearray(ino.synced)
    n = len(ino.pend)
    if mode == "none":
        cut, part = 0, 0.0
    elif mode == "all":
        cut, part = n, 0.0
    else:
        cut, part = rng.randint(0, n), rng.random()
    post = []
    for i, op in enumerate(ino.pend):
        if op[0] == "t":
            if i < cut:
                size = op[1]
                if size < len(data):
                    del data[size:]
                else:
                    data.extend(b"\0" * (size - len(data)))
            continue
        _, pos, chunk, size_then = op
        over = chunk[:max(0, size_then - pos)]
        app = chunk[len(over):]
        if over:
            # an overwrite of existing bytes: reaches the disk or not, on its own
            if rng.random() < pover:
                o = over
                if rng.random() < 0.15:
                    o = over[:rng.randint(0, len(over))]
                lim = len(data)
                if pos < lim:
                    o = o[:lim - pos]
                    data[pos:pos + len(o)] = o
                    # bytes beyond the present end may get there with a later append
                post.append((pos, over if len(o) == len(over) else o))
        if app:
            apos = pos + len(over)
            if i < cut:
                _place(data, apos, app)
            elif i == cut and mode == "rand":
                k = int(part * (len(app) + 1))
                _place(data, apos, app[:k])
    return bytes(data)


def _place(data, pos, chunk):
    if not chunk:
        return
    if pos > len(data):
        # cannot happen in the ordered model unless an earlier truncate was not applied
        data.extend(b"\0" * (pos - len(data)))
    data[pos:pos + len(chunk)] = chunk


class SimRaw(io.RawIOBase):
    """What FileIO is on a real file."""
    def __init__(self, h, name, mode):
        io.RawIOBase.__init__(self)
        self._h = h
        self.name = name
        self._mode = mode

    @property
    def mode(self):
        return self._mode

    def fileno(self):
        self._checkClosed()
        return self._h.fd

    def _checkClosed(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def readable(self):
        self._checkClosed()
        return self._h.readable

    def writable(self):
        self._checkClosed()
        return self._h.writable

    def seekable(self):
        self._checkClosed()
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        self._checkClosed()
        if not self._h.readable:
            raise io.UnsupportedOperation("not readable")
        h = self._h
        d = h.fs.pread(h, len(b), h.pos)
        b[:len(d)] = d
        h.pos += len(d)
        return len(d)

    def readall(self):
        self._checkClosed()
        h = self._h
        out = []
        while True:
            d = h.fs.pread(h, 65536, h.pos)
            if not d:
                break
            h.pos += len(d)
            out.append(d)
        return b"".join(out)

    def write(self, b):
        self._checkClosed()
        if not self._h.writable:
            raise io.UnsupportedOperation("not writable")
        h = self._h
        with memoryview(b) as m:
            data = bytes(m)
        if h.append:
            h.pos = len(h.inode.data)
        n = h.fs.pwrite(h, data, h.pos)
        h.pos += n
        return n

    def seek(self, pos, whence=0):
        self._checkClosed()
        h = self._h
        if whence == 0:
            if pos < 0:
                raise oserr(errno.EINVAL)
            h.pos = pos
        elif whence == 1:
            h.pos += pos
        else:
            h.pos = len(h.inode.data) + pos
        return h.pos

    def tell(self):
        self._checkClosed()
        return self._h.pos

    def truncate(self, size=None):
        self._checkClosed()
        h = self._h
        if not h.writable:
            raise io.UnsupportedOperation("not writable")
        if size is None:
            size = h.pos
        h.fs.ftruncate(h, size)
        return size

    def close(self):
        if not self.closed:
            io.RawIOBase.close(self)
            h = self._h
            h.fs.close(h)


BUFFER_SIZE = io.DEFAULT_BUFFER_SIZE


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    binary = "b" in mode
    m = mode.replace("b", "").replace("t", "")
    plus = "+" in m
    base = m.replace("+", "")
    if base not in ("r", "w", "a", "x"):
        raise ValueError("invalid mode: %r" % mode)
    readable = base == "r" or plus
    writable = base != "r" or plus
    if isinstance(file, int):
        h = CUR.handles[file]
    else:
        if opener is not None:
            fl = {"r": os.O_RDONLY, "w": os.O_CREAT | os.O_TRUNC | os.O_WRONLY,
                  "a": os.O_CREAT | os.O_APPEND | os.O_WRONLY,
                  "x": os.O_CREAT | os.O_EXCL | os.O_WRONLY}[base]
            if plus:
                fl = (fl & ~os.O_WRONLY) | os.O_RDWR
            h = CUR.handles[opener(file, fl)]
        else:
            h = CUR.open(file, readable, writable, create=base != "r", trunc=base == "w",
                         excl=base == "x", append=base == "a")
    if plus:
        rawmode = {"r": "rb+", "w": "rb+", "a": "ab+", "x": "xb+"}[base]
    else:
        rawmode = {"r": "rb", "w": "wb", "a": "ab", "x": "xb"}[base]
    raw = SimRaw(h, file, rawmode)
    if base == "a":
        h.pos = len(h.inode.data)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else BUFFER_SIZE
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif writable:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=False)
    t.mode = mode
    return t


def _fd(f):
    if isinstance(f, int):
        return f
    fn = getattr(f, "fileno", None)
    if fn is None:
        return -1
    return fn()


def _handle(fd):
    h = CUR.handles.get(fd) if CUR is not None else None
    if h is None:
        raise oserr(errno.EBADF)
    return h


def install():
    """Install the dispatching functions.  Must run before durus is imported."""
    if real:
        return
    import fcntl
    real["open"] = builtins.open
    real["flock"] = fcntl.flock

    def dopen(file, *args, **kwargs):
        if CUR is not None and _is_sim(file):
            return sim_open(file, *args, **kwargs)
        return real["open"](file, *args, **kwargs)
    builtins.open = dopen
    io.open = dopen

    def flock(f, op):
        fd = _fd(f)
        if fd >= FDBASE:
            return CUR.flock(_handle(fd), op)
        return real["flock"](f, op)
    fcntl.flock = flock

    real["lockf"] = fcntl.lockf

    def lockf(f, op, *a):
        fd = _fd(f)
        if fd >= FDBASE:
            return CUR.flock(_handle(fd), op)
        return real["lockf"](f, op, *a)
    fcntl.lockf = lockf

    def wrap(name, simfn, nargs=1):
        if not hasattr(os, name):
            return
        r = real["os." + name] = getattr(os, name)

        def f(*args, **kwargs):
            if CUR is not None and args and (_is_sim(args[0]) or
                                             (not isinstance(args[0], (str, bytes, int, os.PathLike))
                                              and hasattr(args[0], "fileno") and
                                              _fd(args[0]) >= FDBASE)):
                return simfn(*args, **kwargs)
            return r(*args, **kwargs)
        f.__name__ = name
        setattr(os, name, f)

    def s_stat(p, *, dir_fd=None, follow_symlinks=True):
        if isinstance(p, int):
            return s_fstat(p)
        return CUR.stat(p)

    def s_fstat(fd):
        h = _handle(_fd(fd))
        return CUR.stat_inode(h.inode)

    def s_open(p, flags, mode=0o777, *, dir_fd=None):
        acc = flags & os.O_ACCMODE
        return CUR.open(p, acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR),
                        create=bool(flags & os.O_CREAT), trunc=bool(flags & os.O_TRUNC),
                        excl=bool(flags & os.O_EXCL), append=bool(flags & os.O_APPEND)).fd

    def s_close(fd):
        CUR.close(_handle(fd))

    def s_read(fd, n):
        h = _handle(fd)
        d = CUR.pread(h, n, h.pos)
        h.pos += len(d)
        return d

    def s_write(fd, data):
        h = _handle(fd)
        n = CUR.pwrite(h, data, h.pos)
        h.pos += n
        return n

    def s_lseek(fd, pos, how):
        h = _handle(fd)
        h.pos = [0, h.pos, len(h.inode.data)][how] + pos
        return h.pos

    def s_trunc(p, n):
        if isinstance(p, int) or hasattr(p, "fileno"):
            return CUR.ftruncate(_handle(_fd(p)), n)
        h = CUR.open(p, False, True)
        try:
            CUR.ftruncate(h, n)
        finally:
            CUR.close(h)

    def s_access(p, mode, **kw):
        return _norm(p) in CUR.names

    def s_listdir(p="."):
        base = _norm(p) + "/"
        return sorted(n[len(base):] for n in CUR.names if n.startswith(base))

    wrap("stat", s_stat)
    wrap("lstat", s_stat)
    wrap("fstat", s_fstat)
    wrap("open", s_open)
    wrap("close", s_close)
    wrap("read", s_read)
    wrap("write", s_write)
    wrap("pread", lambda fd, n, off: CUR.pread(_handle(fd), n, off))
    wrap("pwrite", lambda fd, d, off: CUR.pwrite(_handle(fd), d, off))
    wrap("lseek", s_lseek)
    wrap("ftruncate", s_trunc)
    wrap("truncate", s_trunc)
    wrap("fsync", lambda fd: CUR.fsync(_handle(_fd(fd))))
    wrap("fdatasync", lambda fd: CUR.fsync(_handle(_fd(fd))))
    wrap("unlink", lambda p, **k: CUR.unlink(p))
    wrap("remove", lambda p, **k: CUR.unlink(p))
    wrap("rename", lambda a, b, **k: CUR.rename(a, b))
    wrap("replace", lambda a, b, **k: CUR.rename(a, b))
    wrap("link", lambda a, b, **k: CUR.link(a, b))
    wrap("access", s_access)
    wrap("listdir", s_listdir)
    wrap("chown", lambda p, u, g, **k: None)
    wrap("chmod", lambda p, m, **k: None)
    wrap("fchmod", lambda p, m, **k: None)
    wrap("mkdir", lambda p, *a, **k: None)
    wrap("posix_fallocate", lambda fd, off, n: None)
    wrap("sync", lambda *a: None)


def use(fs):
    global CUR
    old = CUR
    CUR = fs
    return old
