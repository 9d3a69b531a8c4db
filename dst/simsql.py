"""An SQLite VFS whose file I/O goes to SimFS (registered as the default VFS)."""
import ctypes as C
import errno
import os
import traceback

import simfs
from core import Sim, SimKilled, SimStop

OK, ERROR, FULL, CANTOPEN, IOERR, NOTFOUND = 0, 1, 13, 14, 10, 12
IOERR_READ, IOERR_SHORT, IOERR_WRITE, IOERR_FSYNC, IOERR_TRUNC, IOERR_FSTAT, IOERR_DELETE = (
    266, 522, 778, 1034, 1546, 1802, 2570)
DELETE_NOENT = 5898

P, I, I64 = C.c_void_p, C.c_int, C.c_int64
_keep = []
_files = {}
_next = [1]
lib = None


class File(C.Structure):
    _fields_ = [("methods", P), ("id", I64)]


class Methods(C.Structure):
    _fields_ = [("iVersion", I)] + [(n, P) for n in (
        "xClose xRead xWrite xTruncate xSync xFileSize xLock xUnlock xCheckReservedLock "
        "xFileControl xSectorSize xDeviceCharacteristics").split()]


class Vfs(C.Structure):
    _fields_ = [("iVersion", I), ("szOsFile", I), ("mxPathname", I), ("pNext", P),
                ("zName", C.c_char_p), ("pAppData", P)] + [(n, P) for n in (
                    "xOpen xDelete xAccess xFullPathname xDlOpen xDlError xDlSym xDlClose "
                    "xRandomness xSleep xCurrentTime xGetLastError").split()]


class F(object):
    def __init__(self, fs, h, delete):
        self.fs, self.h, self.delete = fs, h, delete


def _cb(rettype, *args):
    t = C.CFUNCTYPE(rettype, *args)

    def deco(fn):
        c = t(fn)
        _keep.append(c)
        return C.cast(c, P)
    return deco


def _f(p):
    return _files[C.cast(p, C.POINTER(File)).contents.id]


def _code(e, default):
    if isinstance(e, OSError) and e.errno == errno.ENOSPC:
        return FULL
    return default


class _NoYield(object):
    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        self.old = self.fs.yield_points
        self.fs.yield_points = False

    def __exit__(self, *a):
        self.fs.yield_points = self.old


def _guard(default, fn, fs):
    try:
        with _NoYield(fs):
            return fn() or OK
    except (SimKilled, SimStop):
        return default
    except OSError as e:
        return _code(e, default)
    except Exception as e:
        Sim.CUR.harness_error = traceback.format_exc()
        return default


def register():
    global lib
    try:
        import sqlite3
        lib = C.CDLL("libsqlite3.so.0")
        if lib.sqlite3_libversion_number is None:
            return False
    except (ImportError, OSError):
        return False

    @_cb(I, P)
    def xClose(p):
        st = C.cast(p, C.POINTER(File)).contents
        f = _files.pop(st.id, None)
        if f is not None:
            try:
                f.fs.close(f.h)
                if f.delete:
                    f.fs.names.pop(f.h.path, None)
            except Exception:
                pass
        return OK

    @_cb(I, P, P, I, I64)
    def xRead(p, buf, n, off):
        f = _f(p)

        def go():
            d = f.fs.pread(f.h, n, off)
            while len(d) < n:
                more = f.fs.pread(f.h, n - len(d), off + len(d))
                if not more:
                    break
                d += more
            C.memmove(buf, d + b"\0" * (n - len(d)), n)
            return OK if len(d) == n else IOERR_SHORT
        return _guard(IOERR_READ, go, f.fs)

    @_cb(I, P, P, I, I64)
    def xWrite(p, buf, n, off):
        f = _f(p)
        data = C.string_at(buf, n)

        def go():
            o, d = off, data
            while d:
                k = f.fs.pwrite(f.h, d, o)
                o += k
                d = d[k:]
        return _guard(IOERR_WRITE, go, f.fs)

    @_cb(I, P, I64)
    def xTruncate(p, size):
        f = _f(p)
        return _guard(IOERR_TRUNC, lambda: f.fs.ftruncate(f.h, size), f.fs)

    @_cb(I, P, I)
    def xSync(p, flags):
        f = _f(p)
        return _guard(IOERR_FSYNC, lambda: f.fs.fsync(f.h), f.fs)

    @_cb(I, P, C.POINTER(I64))
    def xFileSize(p, out):
        f = _f(p)
        out[0] = len(f.h.inode.data)
        return OK

    @_cb(I, P, I)
    def xLock(p, lvl):
        return OK

    @_cb(I, P, I)
    def xUnlock(p, lvl):
        return OK

    @_cb(I, P, C.POINTER(I))
    def xCheckReservedLock(p, out):
        out[0] = 0
        return OK

    @_cb(I, P, I, P)
    def xFileControl(p, op, arg):
        return NOTFOUND

    @_cb(I, P)
    def xSectorSize(p):
        return 4096

    @_cb(I, P)
    def xDeviceCharacteristics(p):
        return 0x1000

    m = Methods(1, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock,
                xCheckReservedLock, xFileControl, xSectorSize, xDeviceCharacteristics)
    _keep.append(m)

    @_cb(I, P, C.c_char_p, P, I, C.POINTER(I))
    def xOpen(vfs, name, p, flags, outflags):
        st = C.cast(p, C.POINTER(File)).contents
        st.methods = None
        fs = simfs.CUR
        if fs is None:
            return CANTOPEN
        temp = name is None
        if temp:
            path = "/simfs/.sqltmp%d" % fs.nextino
        else:
            path = name.decode()
        if not simfs._is_sim(path):
            return CANTOPEN
        writable = bool(flags & 2)
        create = bool(flags & 4)

        def go():
            h = fs.open(path, True, writable, create=create, excl=bool(flags & 16))
            st.id = _next[0]
            _next[0] += 1
            _files[st.id] = F(fs, h, bool(flags & 8))
            st.methods = C.addressof(m)
            if outflags:
                outflags[0] = flags
        return _guard(CANTOPEN, go, fs)

    @_cb(I, P, C.c_char_p, I)
    def xDelete(vfs, name, syncdir):
        fs = simfs.CUR
        path = name.decode()
        if path not in fs.names:
            return DELETE_NOENT

        def go():
            fs.unlink(path)
            if syncdir:
                fs.commit_journal()
        return _guard(IOERR_DELETE, go, fs)

    @_cb(I, P, C.c_char_p, I, C.POINTER(I))
    def xAccess(vfs, name, flags, out):
        fs = simfs.CUR
        path = name.decode()
        ino = fs.names.get(path) if fs is not None else None
        out[0] = 1 if ino is not None and (flags != 0 or len(ino.data)) else 0
        return OK

    @_cb(I, P, C.c_char_p, I, P)
    def xFullPathname(vfs, name, n, out):
        b = os.path.normpath(name.decode()).encode() + b"\0"
        C.memmove(out, b, len(b))
        return OK

    @_cb(I, P, I, P)
    def xRandomness(vfs, n, out):
        C.memmove(out, bytes((i * 37 + 11) & 255 for i in range(n)), n)
        return n

    @_cb(I, P, I)
    def xSleep(vfs, us):
        return us

    @_cb(I, P, C.POINTER(C.c_double))
    def xCurrentTime(vfs, out):
        out[0] = 2460000.5
        return OK

    @_cb(I, P, I, P)
    def xGetLastError(vfs, n, out):
        return 0

    v = Vfs(1, C.sizeof(File), 512, None, b"simfs", None, xOpen, xDelete, xAccess, xFullPathname,
            None, None, None, None, xRandomness, xSleep, xCurrentTime, xGetLastError)
    _keep.append(v)
    lib.sqlite3_vfs_register.argtypes = [P, I]
    rc = lib.sqlite3_vfs_register(C.addressof(v), 1)
    return rc == 0


def reset():
    """Every run starts with the same state of SQLite's own pseudo-random generator."""
    if lib is not None:
        lib.sqlite3_randomness(0, None)
        for k in [k for k, f in _files.items() if f.h.closed]:
            del _files[k]
        if not _files:
            _next[0] = 1
