"""Writes /verif/MANIFEST.json from dst/props.py and properties.jsonl."""
import json, os, sys
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(TOP, "dst"))
import props
PURE = "a pure function of its input: no schedule, clock, fault, I/O or second party is involved"
NA = {"C29": "Splitting and joining of a record is " + PURE + ", so there is nothing to simulate.",
      "C30": "The file-backed integer arrays and sets are used on a private temporary file by one "
             "owner; their contract is a pure function of the sequence of calls (input generation, "
             "not simulation, would decide it). Their use inside FileStorage2 is covered by C01-C08."}
ids = [json.loads(l)["id"] for l in open(os.path.join(TOP, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        cmd = "/opt/venv/bin/python -B dst/run.py check " + i
        checks.append({
            "property": i, "quick_cmd": cmd,
            "thorough_cmd": "VERIF_TIER=thorough " + cmd,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: " + s["technique"],
            "level": "exploration", "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B dst/run.py setup",
     "checks": checks, "not_applicable": na,
     "notes": "One Python simulator (dst/) drives the real durus modules imported from /repo; the "
              "C extension is compiled from /repo into a scratch directory by every check. No hooks "
              "in /repo are needed: file, socket, clock and SQLite seams are replaced before durus "
              "is imported. Repairs of defects are listed in known_findings.json."}
json.dump(m, open(os.path.join(TOP, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(TOP, "MANIFEST.json"), "a").write("\n")
