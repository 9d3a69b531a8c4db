"""Command line of the simulation checks.

  run.py check C01          search for violations of one property (VERIF_SEED, VERIF_TIER)
  run.py replay FILE        re-execute a replay file exactly; exit 1 if it fails the same way
  run.py seed C01 I         run one seed of a property verbosely
  run.py determinism N      repeat seeds of every property in other processes, compare event logs
"""
import collections
import gc
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = sys.executable

BUDGET = {"quick": 24.0, "thorough": 600.0}
HANG = 20


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def seed_of(base, prop, prof, i):
    h = hashlib.blake2b(("%s/%s/%s/%s" % (base, prop, prof, i)).encode(), digest_size=6)
    return int.from_bytes(h.digest(), "big")


def child_env():
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = env.get("DST_HASHSEED", "0")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


def pick_profile(spec, i):
    """Profiles take turns according to their weights."""
    ring = []
    for n, p in enumerate(spec["profiles"]):
        ring += [n] * p.get("weight", 1)
    return ring[i % len(ring)]


CRASH = (-11, -6, -4, -8, -7)       # signals of a process that damaged itself


def accept(spec, prop, violation):
    tags = set(violation.props)
    return "*" in tags or bool(tags & (set(spec.get("accept", ())) | {prop}))


def run_one(prop, spec, base, i, decisions=None, keep_log=False):
    import engine
    n = pick_profile(spec, i)
    prof = spec["profiles"][n]
    seed = seed_of(base, prop, n, i)
    plan = engine.make_plan(prof["harness"], prof["prof"], seed)
    return n, seed, plan, engine.execute(prof["harness"], plan, seed, decisions, keep_log,
                                         limit=HANG)


# ---------------------------------------------------------------- worker
def worker(argv):
    prop, base, k, nw, budget, mode, so, out = argv
    base, k, nw, budget = int(base), int(k), int(nw), float(budget)
    import boot
    boot.boot(mode, so)
    import props
    spec = props.PROPS[prop]
    t0 = time.monotonic()
    stats = collections.Counter()
    digests, paths, states = set(), set(), set()
    nontrivial = set()
    samples = []
    runs = simtime = steps = 0
    repeats = mismatches = 0
    other = collections.Counter()
    found = None
    error = None
    errors = 0
    at = os.open(out + ".at", os.O_RDWR | os.O_CREAT, 0o600)
    need = spec.get("probes", ())
    i = k
    profs = collections.Counter()
    while time.monotonic() - t0 < budget:
        os.pwrite(at, b"%12d" % i, 0)   # (should this process crash)
        n, seed, plan, r = run_one(prop, spec, base, i)
        if i < nw * 2:
            log("seed %s #%d %d %s" % (prop, i, seed, mode)) if os.environ.get("DST_VERBOSE") else 0
        runs += 1
        if runs % 25 == 0:
            gc.collect()        # (never inside a run)
        profs[spec["profiles"][n]["harness"] + ":" + spec["profiles"][n]["name"]] += 1
        simtime += r.simtime
        steps += r.events
        stats.update(r.stats)
        digests.add(r.digest)
        paths.add(r.path)
        if len(states) < 200000:
            states.update(r.states)
        if not need or any(r.stats.get(p) for p in need):
            nontrivial.add(r.digest)
            if len(samples) < 1:
                samples.append({"seed": seed, "mode": mode, "profile": spec["profiles"][n]["name"],
                                "plan": brief_plan(plan), "decisions": list(r.decisions.items())[:12],
                                "events": r.events})
        if r.error == "hang":
            found = dict(kind="hang", props=[prop], detail="no end within %d s of processor time" % HANG,
                         profile=n, index=i, seed=seed, plan=plan, decisions=r.decisions, mode=mode)
            break
        if r.error:
            errors += 1
            error = error or dict(index=i, seed=seed, error=r.error, mode=mode)
            if errors > 20:
                break
            i += nw
            continue
        if r.violation is not None:
            if accept(spec, prop, r.violation):
                found = dict(kind=r.violation.kind, props=list(r.violation.props),
                             detail=r.violation.detail, profile=n, index=i, seed=seed, plan=plan,
                             decisions=r.decisions, mode=mode)
                import known
                kf = known.match(prop, found)
                if kf is None:
                    break
                stats["known." + kf] += 1
                found = None
            else:
                other[r.violation.kind + " " + ",".join(r.violation.props)] += 1
        if runs % 40 == 7:
            repeats += 1
            n2, s2, p2, r2 = run_one(prop, spec, base, i)
            if r2.digest != r.digest:
                mismatches += 1
        i += nw
    json.dump(dict(runs=runs, simtime=simtime, events=steps, stats=stats, digests=sorted(digests),
                   paths=sorted(paths), states=sorted(map(str, states)),
                   nontrivial=sorted(nontrivial), samples=samples, found=found, error=error,
                   other=other, repeats=repeats, mismatches=mismatches, profiles=profs, mode=mode,
                   wall=time.monotonic() - t0), open(out + ".tmp", "w"))
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def brief_plan(plan):
    p = dict(plan)
    p["ops"] = plan["ops"][:12]
    s = json.dumps(p, default=str)
    return json.loads(s) if len(s) < 4000 else s[:4000]


# ---------------------------------------------------------------- replay and minimisation
def setup(mode, so=None):
    import boot
    d = None
    if so is None:
        d = tempfile.mkdtemp(prefix="dst")
        so = boot.build_ext(d)
    boot.boot(mode, so)
    if d is not None:
        shutil.rmtree(d, ignore_errors=True)


def minimise(argv):
    """minimise IN OUT SO BUDGET: shrink a failing record (in a process of its own)."""
    src, dst, so, budget = argv
    rec = json.load(open(src))
    setup(rec["mode"], so)
    import engine
    t0 = time.monotonic()
    budget = float(budget)
    tries = [0]

    def fails(plan, decisions):
        if time.monotonic() - t0 > budget:
            return None
        tries[0] += 1
        r = engine.execute(rec["harness"], plan, rec["seed"], decisions, limit=HANG)
        if r.violation is not None and r.violation.kind == rec["kind"] and (
                "*" in r.violation.props or set(r.violation.props) & set(rec["accept"])):
            return r
        return None
    plan, dec = rec["plan"], rec["decisions"]
    r = fails(plan, dec)
    if r is None:
        json.dump(dict(ok=False), open(dst, "w"))
        return
    dec = r.decisions

    def ddmin(items, build):
        """Smallest subset of items (order kept) for which build(subset) still fails."""
        n = 2
        while len(items) >= 1:
            size = max(1, len(items) // n)
            done = False
            for j in range(0, len(items), size):
                sub = items[:j] + items[j + size:]
                if build(sub):
                    items = sub
                    n = max(n - 1, 2)
                    done = True
                    break
            if time.monotonic() - t0 > budget:
                break
            if not done:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def with_ops(ops):
        p = dict(plan)
        p["ops"] = ops
        return p
    ops = ddmin(plan["ops"], lambda sub: fails(with_ops(sub), dec))
    plan = with_ops(ops)
    r = fails(plan, dec) or r
    used = [k for k in dec if k in r.decisions]
    dec = dict((k, dec[k]) for k in used)
    if not fails(plan, dec):
        dec = rec["decisions"]
    keys = ddmin(list(dec), lambda sub: fails(plan, dict((k, dec[k]) for k in sub)))
    dec = dict((k, dec[k]) for k in keys)
    ops = ddmin(plan["ops"], lambda sub: fails(with_ops(sub), dec))
    plan = with_ops(ops)
    mod = sys.modules[rec["harness"]]
    if hasattr(mod, "shrink"):
        again = True
        while again and time.monotonic() - t0 < budget:
            again = False
            for p in mod.shrink(plan):
                if fails(p, dec):
                    plan = p
                    again = True
                    break
    r = engine.execute(rec["harness"], plan, rec["seed"], dec, keep_log=True, limit=HANG)
    if r.violation is None:
        json.dump(dict(ok=False), open(dst, "w"))
        return
    rec.update(plan=plan, decisions=dec, kind=r.violation.kind, props=list(r.violation.props),
               detail=r.violation.detail, log=r.log[-400:], digest=r.digest,
               minimised=dict(executions=tries[0], ops=len(plan["ops"]), decisions=len(dec)))
    json.dump(dict(ok=True, rec=rec), open(dst, "w"))


def replay(path, so=None, quiet=False):
    rec = json.load(open(path))
    if rec["kind"] == "crash" and not quiet:
        r = subprocess.run([PY, "-B", os.path.abspath(__file__), "replay-crash", path], env=child_env(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        print("VIOLATED crash: signal %d" % -r.returncode if r.returncode in CRASH else "no crash")
        return 1 if r.returncode in CRASH else 0
    setup(rec["mode"], so)
    import engine
    r = engine.execute(rec["harness"], rec["plan"], rec["seed"], rec["decisions"], keep_log=True,
                       limit=HANG)
    v = r.violation
    if rec["kind"] == "hang":
        same = r.error == "hang"
        print("hang reproduced" if same else "not reproduced")
        sys.stdout.flush()
        os._exit(1 if same else 0)
    if not quiet:
        print("\n".join(r.log))
    if v is not None:
        print("VIOLATED %s %s: %s" % (v.kind, ",".join(v.props), v.detail))
    else:
        print("no violation", r.error or "")
    same = v is not None and v.kind == rec["kind"]
    if same and rec.get("digest"):
        print("event log %s" % ("identical" if r.digest == rec["digest"] else "DIFFERS"))
    sys.stdout.flush()
    os._exit(1 if same else 0)


# ---------------------------------------------------------------- check
def check(prop):
    import props
    import known
    spec = props.PROPS[prop]
    base = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    budget = float(os.environ.get("DST_BUDGET") or spec.get("budget", {}).get(tier, BUDGET[tier]))
    nw = int(os.environ.get("DST_WORKERS") or os.cpu_count() or 4)
    print("property=%s VERIF_SEED=%d tier=%s workers=%d budget=%.0fs" % (prop, base, tier, nw, budget))
    sys.stdout.flush()
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="dst-%s-" % prop)
    try:
        return _check(prop, spec, base, tier, budget, nw, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, spec, base, tier, budget, nw, scratch, t0):
    import boot
    import known
    try:
        so = boot.build_ext(scratch)
    except subprocess.CalledProcessError as e:
        log("cannot compile _persistent.c:", (e.stdout or b"").decode("utf-8", "replace")[-2000:])
        return 2
    modes = spec.get("modes", ("c", "c", "c", "py"))
    procs = []
    for k in range(nw):
        out = os.path.join(scratch, "w%d.json" % k)
        mode = modes[k % len(modes)]
        err = open(os.path.join(scratch, "w%d.err" % k), "wb")
        p = subprocess.Popen([PY, "-B", os.path.join(HERE, "run.py"), "worker", prop, str(base),
                              str(k), str(nw), str(budget), mode, so, out],
                             env=child_env(), stdout=err, stderr=err, cwd=scratch)
        procs.append((p, out, k))
    results, found, failed = [], None, []
    deadline = time.monotonic() + budget + 9 * HANG + 30
    pending = list(procs)
    while pending:
        for item in list(pending):
            p, out, k = item
            if p.poll() is None:
                continue
            pending.remove(item)
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r["found"] and (found is None or r["found"]["index"] < found["index"]):
                    found = r["found"]
            elif p.returncode in CRASH:
                i = int(open(out + ".at").read())
                n = pick_profile(spec, i)
                seed = seed_of(base, prop, n, i)
                import engine
                found = dict(kind="crash", props=["*"], detail="the process ended with signal %d" % -p.returncode,
                             profile=n, index=i, seed=seed, decisions=None, mode=modes[k % len(modes)],
                             plan=engine.make_plan(spec["profiles"][n]["harness"], spec["profiles"][n]["prof"],
                                                   seed))
            else:
                failed.append((k, p.returncode,
                               open(os.path.join(scratch, "w%d.err" % k), "rb").read()[-3000:]))
        if found is not None or failed:
            # the others end soon or are ended
            end = time.monotonic() + 2
            while time.monotonic() < end and any(p.poll() is None for p, o, k in pending):
                time.sleep(0.05)
            for p, o, k in pending:
                if p.poll() is None:
                    p.kill()
                    p.wait()
                elif os.path.exists(o):
                    r = json.load(open(o))
                    results.append(r)
                    if r["found"] and (found is None or r["found"]["index"] < found["index"]):
                        found = r["found"]
            pending = []
        if time.monotonic() > deadline:
            for p, o, k in pending:
                p.kill()
                failed.append((k, "timeout", b""))
            pending = []
        time.sleep(0.05)
    path = None
    status = 0
    if found is not None:
        path, found = confirm(prop, spec, found, so, scratch)
        if path is None:
            status = 2
        else:
            status = 1
    errors = [r["error"] for r in results if r["error"]]
    if status == 0 and (errors or failed):
        for e in errors:
            log("HARNESS ERROR seed=%s index=%s mode=%s\n%s" % (
                e["seed"], e["index"], e["mode"], e["error"]))
        for k, rc, err in failed:
            log("worker %s ended with %s\n%s" % (k, rc, err.decode("utf-8", "replace")))
        status = 2
    mism = sum(r["mismatches"] for r in results)
    if mism:
        log("WARNING: %d of %d repeated seeds gave another event log" % (
            mism, sum(r["repeats"] for r in results)))
    evidence(prop, spec, base, tier, results, found if status == 1 else None, nw,
             time.monotonic() - t0)
    for kf in known.listed(prop):
        if any(r["stats"].get("known." + kf["id"]) for r in results) or kf.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    if status == 1:
        print("found at seed=%s index=%s mode=%s: %s: %s" % (
            found["seed"], found["index"], found["mode"], found["kind"], found["detail"]))
        if found.get("minimised"):
            print("minimised to %(ops)d operations and %(decisions)d decisions "
                  "(%(executions)d executions)" % found["minimised"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        print("%s: %d runs, %d violations" % (prop, sum(r["runs"] for r in results), 0))
    sys.stdout.flush()
    return status


def confirm(prop, spec, found, so, scratch):
    """Minimise, write the replay file, and make sure that it replays in a fresh process."""
    prof = spec["profiles"][found["profile"]]
    rec = dict(found, harness=prof["harness"], property=prop,
               accept=sorted(set(spec.get("accept", ())) | {prop}))
    full = os.path.join(scratch, "full.json")
    json.dump(rec, open(full, "w"))
    d = os.path.join(TOP, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, found["kind"]))
    best = rec
    if rec["kind"] not in ("hang", "crash"):
        dst = os.path.join(scratch, "min.json")
        try:
            subprocess.run([PY, "-B", os.path.join(HERE, "run.py"), "minimise", full, dst, so, "40"],
                           env=child_env(), cwd=scratch, timeout=150,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            m = json.load(open(dst))
            if m["ok"]:
                best = m["rec"]
        except (subprocess.TimeoutExpired, OSError, ValueError):
            pass
    for cand in ([best] if best is rec else [best, rec]):
        for attempt in range(3):
            json.dump(cand, open(path, "w"), indent=1)
            try:
                p = subprocess.run([PY, "-B", os.path.join(HERE, "run.py"), "replay", path],
                                   env=child_env(), cwd=scratch, timeout=120,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            except subprocess.TimeoutExpired:
                continue
            if p.returncode == 1:
                return path, cand
            if cand["kind"] == "hang":
                break
    log("a violation was found but its replay does not reproduce it:", found["kind"],
        found["detail"], "seed", found["seed"], "index", found["index"], found["mode"])
    return None, found


def evidence(prop, spec, base, tier, results, found, nw, wall):
    stats = collections.Counter()
    other = collections.Counter()
    profs = collections.Counter()
    digests, paths, states, nontriv = set(), set(), set(), set()
    for r in results:
        stats.update(r["stats"])
        other.update(r["other"])
        profs.update(r["profiles"])
        digests.update(r["digests"])
        paths.update(r["paths"])
        states.update(r["states"])
        nontriv.update(r["nontrivial"])
    runs = sum(r["runs"] for r in results)
    sim = sum(r["simtime"] for r in results)
    cpu = sum(r["wall"] for r in results) or 1e-9
    samples = [s for r in results for s in r["samples"]][:3]
    if found is not None:
        samples.insert(0, {"violation": found["kind"], "detail": found["detail"],
                           "seed": found["seed"], "plan": brief_plan(found["plan"]),
                           "decisions": list(found["decisions"].items())[:40]})
    faults = dict((k[6:], v) for k, v in sorted(stats.items()) if k.startswith("fault."))
    probes = dict((k, v) for k, v in sorted(stats.items()) if not k.startswith("fault."))
    searched = max([r["wall"] for r in results] or [1e-9])
    ev = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontriv),
            "rule": "One evaluation is one simulated execution: plan and schedule drawn from one "
                    "seed. It is distinct when its complete event log (every file-system and "
                    "network effect, decision and operation) differs from all others, and "
                    "non-trivial when at least one of these happened in it: "
                    + (", ".join(spec.get("probes", ())) or "anything") + ".",
            "samples": samples,
            "distinct_event_logs": len(digests),
            "distinct_interleavings": len(paths),
            "distinct_interleavings_measure": "hash of the sequence of actors that were given control",
            "distinct_states": len(states),
            "distinct_states_measure": spec.get("states", "hash of the committed contents"),
            "runs_per_profile": dict(profs),
            "simulated_seconds": round(sim, 3),
            "events": sum(r["events"] for r in results),
            "seeds_per_hour": int(runs / searched * 3600),
            "faults_injected": faults,
            "probes": probes,
            "repeated_seeds": sum(r["repeats"] for r in results),
            "repeated_seeds_differing": sum(r["mismatches"] for r in results),
            "violations_of_other_properties": dict(other),
            "components_real": spec["real"],
            "components_stub": spec["stub"],
            "workers": nw, "modes": sorted(set(r["mode"] for r in results)),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 0 if found is None else 1,
    }
    d = os.path.join(TOP, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.rename(tmp, os.path.join(d, "%s.json" % prop))


# ---------------------------------------------------------------- other commands
def one(argv):
    prop, i = argv[0], int(argv[1])
    setup(os.environ.get("MODE", "c"))
    import props
    n, seed, plan, r = run_one(prop, props.PROPS[prop], int(os.environ.get("VERIF_SEED", "1")), i,
                               keep_log=True)
    print("\n".join(r.log))
    print(json.dumps(plan)[:3000])
    print(r.violation and (r.violation.kind, r.violation.props, r.violation.detail), r.error)
    os._exit(0)


def digests(argv):
    """digests MODE START COUNT STEP: print 'prop index digest' lines."""
    mode, start, count, step = argv[0], int(argv[1]), int(argv[2]), int(argv[3])
    setup(mode, os.environ.get("DST_SO"))
    import props
    for prop in sorted(props.PROPS):
        spec = props.PROPS[prop]
        if mode not in spec.get("modes", ("c", "py")):
            continue
        for i in range(start, start + count * step, step):
            n, seed, plan, r = run_one(prop, spec, 1, i)
            print(prop, i, r.digest, r.violation.kind if r.violation else "-",
                  (r.error or "-").split("\n")[0])
            sys.stdout.flush()
    os._exit(0)


def determinism(argv):
    """Every seed is run in two fresh interpreters with different worker splits and hash seeds."""
    n = int(argv[0]) if argv else 200
    import boot
    scratch = tempfile.mkdtemp(prefix="dst-det-")
    so = boot.build_ext(scratch)
    bad = total = 0
    for mode in ("c", "py"):
        outs = []
        for hs, split in (("0", 1), ("0", 7), ("12345", 5), ("777", 3)):
            ps = []
            for k in range(split):
                env = dict(child_env(), PYTHONHASHSEED=hs, DST_SO=so)
                cnt = len(range(k, n, split))
                ps.append(subprocess.Popen([PY, "-B", os.path.join(HERE, "run.py"), "digests", mode,
                                            str(k), str(cnt), str(split)], env=env,
                                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
            lines = []
            for p in ps:
                lines += p.communicate()[0].decode().split("\n")
            outs.append((hs, dict((" ".join(x.split(" ")[:2]), " ".join(x.split(" ")[2:]))
                                  for x in lines if x)))
        ref = outs[0][1]
        for hs, o in outs[1:]:
            for key in sorted(set(ref) | set(o)):
                total += 1
                if ref.get(key) != o.get(key):
                    bad += 1
                    print("DIFFERS mode=%s hashseed=%s %s: %s / %s" % (mode, hs, key, ref.get(key), o.get(key)))
    shutil.rmtree(scratch, ignore_errors=True)
    print("%d comparisons, %d differences" % (total, bad))
    return 1 if bad else 0


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    cmd, rest = argv[0], argv[1:]
    if cmd == "check":
        return check(rest[0])
    if cmd == "setup":
        # nothing is kept: make sure that the tools are there and the tree compiles and imports
        setup("c")
        print("ok")
        return 0
    if cmd == "worker":
        return worker(rest)
    if cmd == "minimise":
        return minimise(rest)
    if cmd == "replay":
        if os.environ.get("PYTHONHASHSEED") != "0":
            os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + argv, child_env())
        return replay(rest[0])
    if cmd == "replay-crash":
        return replay(rest[0], quiet=True)
    if cmd == "seed":
        return one(rest)
    if cmd == "digests":
        return digests(rest)
    if cmd == "determinism":
        return determinism(rest)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
