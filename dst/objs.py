"""Persistent classes used by the harnesses, and an independent reader of stored records."""
import io
import pickle
import zlib

from durus.persistent import Persistent, PersistentObject
from durus.persistent_dict import PersistentDict

Z = b"\0" * 8


class Cell(Persistent):
    """State in __dict__: tok identifies the version, kids are references."""
    def __init__(self, tok, kids=()):
        self.tok = tok
        self.kids = list(kids)


class Slot(PersistentObject):
    """The same with __slots__."""
    __slots__ = ["tok", "kids"]

    def __init__(self, tok, kids=()):
        self.tok = tok
        self.kids = list(kids)


class Ref(object):
    def __init__(self, oid):
        self.oid = oid


class _U(pickle.Unpickler):
    def persistent_load(self, pid):
        return Ref(pid[0] if isinstance(pid[0], bytes) else pid[0].encode("latin1"))


def split(record):
    """(oid, class, state, refs) of a stored record, from the documented format."""
    oid = bytes(record[:8])
    n = int.from_bytes(record[8:12], "big")
    data = bytes(record[12:12 + n])
    refs = [bytes(record[i:i + 8]) for i in range(12 + n, len(record), 8)]
    f = io.BytesIO()
    f.write(data)
    f.seek(0)
    u = _U(f)                   # class and state share the memo
    klass = u.load()
    at = f.tell()
    if data[at:at + 1] == b"\x78":
        f.write(zlib.decompress(data[at:]))
        f.seek(at)
    state = u.load()
    return oid, klass, state, refs


def canon_value(v):
    if isinstance(v, Ref):
        return ("ref", v.oid)
    if isinstance(v, dict):
        return tuple(sorted((k, canon_value(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(canon_value(x) for x in v)
    if isinstance(v, PersistentObject):
        return ("ref", v._p_oid)
    return v


def canon_record(record):
    oid, klass, state, refs = split(record)
    if klass.__name__ in ("Cell", "Slot"):
        return (klass.__name__, state["tok"], canon_value(state["kids"]))
    return (klass.__name__, canon_value(state["data"]))


def canon_live(obj):
    """What the application sees of obj (this loads and accesses it)."""
    if isinstance(obj, (Cell, Slot)):
        tok = obj.tok
        return (obj.__class__.__name__, tok, canon_value(obj.kids))
    return (obj.__class__.__name__, canon_value(dict(obj.items())))


def token_of(canon):
    if canon[0] in ("Cell", "Slot"):
        return canon[1]
    for k, v in canon[1]:
        if k == "#":
            return v
    return None


def record_refs(record):
    n = int.from_bytes(record[8:12], "big")
    return [bytes(record[i:i + 8]) for i in range(12 + n, len(record), 8)]


def make_cell_record(oid, tok, kids, slot=False):
    """A record as the documented format says (kids are (oid, class) pairs)."""
    class P(pickle.Pickler):
        def persistent_id(self, o):
            return o.pid if isinstance(o, _Pid) else None
    f = io.BytesIO()
    klass = Slot if slot else Cell
    p = P(f, 2)
    p.dump(klass)
    head = f.getvalue()
    g = io.BytesIO()
    p2 = P(g, 2)
    p2.dump({"tok": tok, "kids": [_Pid(k) for k in kids]})
    data = head + zlib.compress(g.getvalue())
    refs = sorted(set(k[0] for k in kids) - {oid})
    return bytes(oid) + len(data).to_bytes(4, "big") + data + b"".join(refs)


class _Pid(object):
    def __init__(self, pid):
        self.pid = pid
