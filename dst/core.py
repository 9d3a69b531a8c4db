"""The simulator core: decisions, virtual clock, event log, actors and scheduler.

Everything nondeterministic in a run is obtained through Sim.decide(), so a run is a pure
function of (plan, seed) in search mode or (plan, recorded decisions) in replay mode.
"""
import hashlib
import heapq
import random
import threading

START_TIME = 1_700_000_000.0


class SimKilled(BaseException):
    """Raised inside a simulated process that has been killed."""


class SimStop(BaseException):
    """Raised inside actors when the simulation is being torn down."""


class HarnessError(BaseException):
    """The harness itself is wrong (never reported as a violation)."""


class Violation(BaseException):
    # (not an Exception: the code under test may catch those)
    def __init__(self, kind, props, detail):
        BaseException.__init__(self, kind, detail)
        self.kind = kind
        self.props = tuple(props)
        self.detail = detail


class Proc(object):
    """A simulated operating system process."""
    def __init__(self, name):
        self.name = name
        self.dead = False
        self.on_death = []      # callables run when the process dies (or is ended)


class Actor(object):
    def __init__(self, name, proc, fn):
        self.name = name
        self.proc = proc
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.pred = None
        self.deadline = None
        self.label = None
        self.done = False
        self.started = False
        self.error = None       # exception that ended the actor, if any
        self.ctx = name         # decision key context (actor name + operation uid)
        self.thread = None


class Sim(object):
    CUR = None

    def __init__(self, seed=0, decisions=None, keep_log=False, knobs=None):
        self.seed = seed
        self.replay = decisions is not None
        self.decisions = dict(decisions or {})
        self.taken = {}            # non-default decisions, in order
        self.rng = random.Random(seed)
        self.now = START_TIME
        self.counters = {}
        self.hash = hashlib.blake2b(digest_size=16)
        self.keep_log = keep_log
        self.log = []
        self.nlog = 0
        self.stats = {}
        self.knobs = knobs or {}
        self.proc0 = Proc("main")
        self.main = Actor("main", self.proc0, None)
        self.cur = self.main
        self.actors = []
        self.events = []
        self.evseq = 0
        self.steps = 0
        self.switches = 0
        self.max_steps = 400000
        self.p_switch = 0.2
        self.threaded = False
        self.stopping = False
        self.stop_reason = None
        self.stuck = []             # who was waiting when nothing could move
        self.tick = 0.00005
        self.violations = []
        self.switch_path = hashlib.blake2b(digest_size=8)
        self.states = set()
        self.harness_error = None

    # ---- bookkeeping
    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def ev(self, *parts):
        s = "%s|%s" % (self.cur.name, "|".join(map(str, parts)))
        self.hash.update(s.encode("utf-8", "backslashreplace") + b"\n")
        self.nlog += 1
        if self.keep_log:
            self.log.append("%.5f %s" % (self.now - START_TIME, s))

    def digest(self):
        return self.hash.hexdigest()

    def violate(self, kind, props, detail):
        """Record a violation; the first one ends the run."""
        v = Violation(kind, props, detail)
        self.ev("VIOLATION", kind, detail)
        self.violations.append(v)
        raise v

    # ---- decisions
    def key(self, kind):
        k = "%s/%s" % (self.cur.ctx, kind)
        n = self.counters.get(k, 0)
        self.counters[k] = n + 1
        return "%s/%d" % (k, n)

    def decide(self, kind, gen):
        """gen(rng) -> JSON value or None (the default).  Returns the decided value."""
        key = self.key(kind)
        if self.replay:
            v = self.decisions.get(key)
        else:
            v = gen(self.rng)
        if v is not None:
            self.taken[key] = v
        return v

    def chance(self, kind, p):
        if p <= 0 and not self.replay:
            return False
        return self.decide(kind, lambda r: 1 if r.random() < p else None) is not None

    def pick(self, kind, n):
        """Uniform choice in range(n); 0 is the default."""
        if n <= 1:
            return 0
        v = self.decide(kind, lambda r: r.randrange(n) or None)
        return min(v or 0, n - 1)

    # ---- time
    def time(self):
        return self.now

    def after(self, dt, fn):
        self.evseq += 1
        heapq.heappush(self.events, (self.now + dt, self.evseq, fn))

    def _fire_due(self):
        while self.events and self.events[0][0] <= self.now:
            t, seq, fn = heapq.heappop(self.events)
            fn()

    def sleep(self, dt):
        if not self.threaded or self.cur is self.main:
            self.check_alive()
            self.now += max(dt, 0)
            self._fire_due()
            return
        self.block("sleep", lambda: False, max(dt, 0))

    # ---- processes
    def check_alive(self):
        if self.stopping and self.cur is not self.main:
            raise SimStop()
        if self.cur.proc.dead:
            raise SimKilled(self.cur.proc.name)

    def kill(self, proc):
        if proc.dead:
            return
        self.ev("kill", proc.name)
        proc.dead = True
        for fn in list(proc.on_death):
            fn()

    # ---- actors
    def spawn(self, name, fn, proc=None):
        a = Actor(name, proc or Proc(name), fn)
        self.actors.append(a)
        if self.threaded:
            self._start(a)
        return a

    def _start(self, a):
        a.thread = threading.Thread(target=self._body, args=(a,), daemon=True)
        a.started = True
        a.thread.start()

    def _body(self, a):
        a.sem.acquire()
        try:
            if not self.stopping:
                a.fn()
        except (SimKilled, SimStop):
            pass
        except BaseException as e:
            a.error = e
        a.done = True
        if not self.stopping:
            if isinstance(a.error, (Violation, HarnessError)):
                self.stop("violation")
            else:
                try:
                    self._dispatch(a)
                except (Violation, HarnessError) as v:
                    a.error = v
                    self.stop("violation")

    def stop(self, reason):
        if not self.stopping:
            self.stop_reason = reason
            self.stopping = True
            self.main.sem.release()

    def run(self):
        """Run the actors until all are done, a violation occurs, or nothing can move.
        Returns the reason."""
        self.threaded = True
        threading.stack_size(512 * 1024)
        for a in self.actors:
            if not a.started:
                self._start(a)
        self._dispatch(self.main)
        self.main.sem.acquire()
        reason = self.stop_reason
        # Tear down: release every actor so that its thread ends.
        for a in list(self.actors):
            if not a.done:
                self.cur = a
                a.sem.release()
                a.thread.join(20)
                if a.thread.is_alive():
                    raise HarnessError("actor %s does not stop" % a.name)
        self.cur = self.main
        self.threaded = False
        for a in self.actors:
            if isinstance(a.error, (Violation, HarnessError)):
                raise a.error
        return reason

    def _runnable(self):
        out = []
        now = self.now
        for a in self.actors:
            if a.done:
                continue
            if (a.pred is None or a.proc.dead or
                    (a.deadline is not None and a.deadline <= now) or a.pred()):
                out.append(a)
        return out

    def _next(self, me, stay_default):
        """Choose who runs next; None when the simulation is over."""
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                self.stop("steps")
                return None
            self.now += self.tick
            self._fire_due()
            if self.stopping:
                return None
            r = self._runnable()
            if r:
                break
            # nobody can run: jump to the next deadline
            t = [a.deadline for a in self.actors if not a.done and a.deadline is not None]
            if self.events:
                t.append(self.events[0][0])
            if not t:
                alive = [a for a in self.actors if not a.done]
                self.stuck = ["%s in %s" % (a.name, a.label) for a in alive]
                self.stop("blocked" if alive else "done")
                return None
            self.now = max(self.now, min(t))
            self._fire_due()
        if len(r) == 1:
            return r[0]
        if me in r and stay_default:
            default = me
        else:
            # fair default: the runnable actor after me in order
            try:
                i = self.actors.index(me)
            except ValueError:
                i = -1
            order = self.actors[i + 1:] + self.actors[:i + 1]
            default = next(a for a in order if a in r)
        p = self.p_switch

        def gen(rng):
            if rng.random() < p:
                c = rng.choice(r)
                if c is not default:
                    return c.name
            return None
        v = self.decide("sched", gen)
        if v is not None:
            for a in r:
                if a.name == v:
                    return a
        return default

    def _dispatch(self, me):
        """Hand the baton on when `me` has finished (or is the main thread)."""
        nxt = self._next(me, False)
        if nxt is None:
            return
        self._handover(me, nxt)

    def _handover(self, me, nxt):
        self.switches += 1
        self.switch_path.update(nxt.name.encode() + b";")
        self.cur = nxt
        nxt.sem.release()

    def point(self, label=None):
        """A scheduling point of the running actor."""
        me = self.cur
        if not self.threaded or me is self.main:
            self.check_alive()
            self.now += self.tick
            return
        self.check_alive()
        nxt = self._next(me, True)
        if nxt is None:
            me.sem.acquire()
            self.check_alive()
            raise SimStop()
        if nxt is not me:
            self._handover(me, nxt)
            me.sem.acquire()
        self.check_alive()

    def block(self, label, pred, timeout=None):
        """Wait until pred() or timeout (simulated seconds).  Returns True unless timed out."""
        me = self.cur
        self.check_alive()
        if not self.threaded or me is self.main:
            if pred():
                return True
            if timeout is None:
                raise HarnessError("main blocks for ever in %s" % label)
            self.now += timeout
            self._fire_due()
            return bool(pred())
        deadline = None if timeout is None else self.now + timeout
        me.pred = pred
        me.label = label
        me.deadline = deadline
        try:
            while True:
                nxt = self._next(me, False)
                if nxt is None:
                    me.sem.acquire()
                    self.check_alive()
                    raise SimStop()
                if nxt is not me:
                    self._handover(me, nxt)
                    me.sem.acquire()
                self.check_alive()
                if pred():
                    return True
                if deadline is not None and self.now >= deadline:
                    return False
        finally:
            me.pred = None
            me.deadline = None
