#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = "a pure function of its arguments on one thread: no schedule, clock, I/O or fault for it to depend on, so simulation would only be input generation"
NA = {
    "C21": PURE + "; its races, faults and memory behaviour are covered through C11-C20",
    "C22": PURE + "; its races, faults and memory behaviour are covered through C11-C20",
    "C23": PURE,
    "C24": PURE + "; its faults and memory behaviour are covered through C14, C15, C18 and C19",
    "C25": "no GPU, CUDA compiler or CUDA runtime here, so the CUDA sources can be neither built nor executed",
    "C26": PURE + " (the CPU versions of the tiling functions are serial)",
}
CLAIM = set(open(os.path.join(HERE, "tools", "claimed")).read().split())
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in CLAIM:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over thread schedules and faults on the real library code, judged against a reference model",
            "level": "exploration",
            "level_note": "Seeded sampling of schedules, inputs and faults, not enumeration: a quiet run is evidence, not proof. Runs all CPU sources as compiled from the working tree; the OpenMP runtime, scheduler, heap, clocks and log streams are the simulator's. Races are decided by happens-before on every access made.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 build.py",
     "hooks": {"guard": "none", "enable": "no source hook is needed: the library's calls to the OpenMP runtime, heap, clocks, streams and pthreads are redirected at link time (build.py)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known_findings.txt lists genuine defects that are recorded or were repaired."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
