"""C16: one history under both implementations of the persistent base classes.

The plan (see h_conn) runs once with the C extension and once with a second copy of durus that was
imported without it.  Both runs take the same decisions (faults, schedules); everything they
observe (results, errors, values, load states of all cached objects, stored records) must be equal.
"""
import gc
import io
import sys

from core import Sim, Violation, HarnessError
import h_conn

COLLECTS = True
COPY = None


def ours(name):
    return name == "durus" or name.startswith("durus.") or name == "connobjs"


def swap(mods):
    """Replace the durus modules by mods; returns the replaced ones."""
    old = dict((n, m) for n, m in sys.modules.items() if ours(n))
    for n in old:
        del sys.modules[n]
    sys.modules.update(mods)
    return old


def pure():
    """A copy of durus in pure Python."""
    global COPY
    if COPY is None:
        old = swap({"durus._persistent": None})
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            import durus.persistent
            import durus.connection
            import durus.file_storage
            import durus.file_storage2
            import durus.storage_server
            import durus.client_storage
            import durus.btree
            import connobjs
            if "durus.sqlite_storage" in old:
                import durus.sqlite_storage
            if durus.persistent.PersistentBase.__dict__.get("__slots__") is None:
                raise HarnessError("the copy uses the extension")
        finally:
            sys.stderr = err
            COPY = swap(old)
        gc.collect()
        gc.freeze()
    return COPY


def generate(rng, prof):
    plan = h_conn.generate(rng, prof)
    plan["h"] = "twin"
    plan["twin"] = True
    return plan


def one(sim, plan):
    """(trace, violation) of one run."""
    r = h_conn.Run(sim, plan)
    v = None
    try:
        r.run()
    except Violation as e:
        v = e
    return r.trace, v


def run(sim, plan):
    import durus.persistent
    if durus.persistent.PersistentBase.__dict__.get("__slots__") is not None:
        raise HarnessError("the first run has no extension")
    mods = pure()
    t1, v1 = one(sim, plan)
    gc.collect()
    inner = Sim(sim.seed, dict(sim.taken))
    inner.p_switch = sim.p_switch
    old = swap(mods)
    Sim.CUR = inner
    try:
        t2, v2 = one(inner, plan)
        gc.collect()
    finally:
        Sim.CUR = sim
        swap(old)
    sim.ev("twin", len(t1), inner.digest())
    for i in range(max(len(t1), len(t2))):
        a = t1[i] if i < len(t1) else "(ends: %s)" % (v1 and v1.kind)
        b = t2[i] if i < len(t2) else "(ends: %s)" % (v2 and v2.kind)
        if a != b:
            break
    else:
        a, b = v1 and v1.kind, v2 and v2.kind
        i = len(t1)
    if a != b:
        del sim.violations[:]
        sim.violate("differ", ("C16",), "observation %d differs: %s with the C extension, %s in pure "
                    "Python%s" % (i, h_conn.short(a), h_conn.short(b), "".join(
                        " [%s: %s %s]" % (n, v.kind, v.detail) for n, v in (("C", v1), ("Python", v2)) if v)))
    sim.stat("twin.compared", len(t1))
    if v1 is not None:
        raise v1
