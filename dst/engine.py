"""Running one simulation: from a seed (search) or from a replay record."""
import gc
import importlib
import os
import random
import signal
import traceback

import boot
import simsql
from core import Sim, Violation, SimKilled, SimStop, HarnessError


DURUS = os.path.join(boot.REPO, "durus") + os.sep


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


class TooSlow(BaseException):
    pass


def _wall(sig, frame):
    raise TooSlow()


class Result(object):
    def __init__(self):
        self.violation = None
        self.error = None
        self.digest = None
        self.stats = {}
        self.decisions = {}
        self.log = []
        self.simtime = 0.0
        self.path = None
        self.states = set()
        self.events = 0


def in_durus(e):
    """Where in durus the exception comes from, or None."""
    at = None
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(DURUS):
            at = "%s:%s" % (os.path.basename(f.co_filename), f.co_name)
        tb = tb.tb_next
    return at or (e.__cause__ and in_durus(e.__cause__)) or (e.__context__ and in_durus(e.__context__)) or None


def unusable(e):
    """Does the error come from a value, and not from a name that is not there (any more)?"""
    if isinstance(e, AttributeError):
        return "'NoneType'" in str(e)
    return not isinstance(e, (ImportError, NameError, MemoryError, OSError))


def execute(harness, plan, seed, decisions=None, keep_log=False, limit=60):
    """Run `plan` on harness module; returns a Result."""
    mod = importlib.import_module(harness)
    if getattr(mod, "COLLECTS", False):
        gc.collect()        # (what earlier runs left must not end inside this one)
    simsql.reset()
    sim = Sim(seed, decisions, keep_log)
    Sim.CUR = sim
    res = Result()
    t0 = sim.now
    # A run that burns this much processor time does not end.  (Real time is no measure: the
    # machine may be busy.)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.signal(signal.SIGALRM, _wall)
    signal.alarm(limit * 8)
    try:
        mod.run(sim, plan)
    except Violation as v:
        res.violation = v
    except Hang:
        res.error = "hang"
        res.hang = True
    except TooSlow:
        res.error = "harness: no end within %d s" % (limit * 8)
    except (SimKilled, SimStop) as e:
        res.error = "stray %r\n%s" % (e, traceback.format_exc())
    except HarnessError as e:
        res.error = "harness: %s\n%s" % (e, traceback.format_exc())
    except Exception as e:
        at = in_durus(e)
        if at:
            # the harness meets every exception that the intact code raises here
            res.violation = Violation("uncaught", ("*",), "durus raised %r at %s where the application "
                                      "expects no exception" % (e, at))
        elif unusable(e):
            # It never happens with the intact code: durus gave something the harness can not work with.
            res.violation = Violation("unusable", ("*",), "the application can not go on: %r at %s" % (e, (
                "%s:%d" % tuple(traceback.extract_tb(e.__traceback__)[-1])[:2]).split(os.sep)[-1]))
        else:
            res.error = "exception: %r\n%s" % (e, traceback.format_exc())
    finally:
        if sim.violations:
            res.violation = sim.violations[0]
        if sim.harness_error and not res.error:
            res.error = "harness: " + sim.harness_error
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        Sim.CUR = None
    res.digest = sim.digest()
    res.stats = sim.stats
    res.decisions = sim.taken
    res.log = sim.log
    res.simtime = sim.now - t0
    res.path = sim.switch_path.hexdigest()
    res.states = sim.states
    res.events = sim.nlog
    res.sim = sim
    return res


def make_plan(harness, prof, seed):
    mod = importlib.import_module(harness)
    return mod.generate(random.Random("plan-%d" % seed), prof)
