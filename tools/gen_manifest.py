#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and props.py
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/props.py").read()
ids = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "C24": "Constant time is a claim about instruction timing and addresses on real hardware; a simulator that controls schedules and faults observes values, not timing, and the code makes no such promise.",
 "C25": "Pure functions of their operands: no scheduling, time, I/O, fault or multi-party behaviour for a simulated run to vary. They are exercised, not decided, inside C09-C18.",
}
checks, na = [], []
for d in ids:
    i = d["id"]
    if 'PROPS["%s"]' % i in src:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search, invariants and reference-model oracle)",
            "level": "exploration",
            "level_note": "Seeded search over simulated runs of the real library code compiled from /repo in several build configurations; every run is a replayable plan. No exhaustiveness claim: see evidence for runs, faults and states covered. Trusts the independent reference model in ref/, the simulator, gcc and ASan.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: every seam (random source, clock, C library, stdout, hardware RNG instructions, hash and cipher template parameters, memory accesses of threads) is reached from the harness side. See DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
