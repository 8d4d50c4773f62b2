#!/usr/bin/env python3
"""check.py <property> quick|thorough   search, gate, minimise, report, evidence
   check.py replay <file>               run a replay file; exit 1 if it violates
   check.py one <property> <seed>       run one seed and print its outcome"""
import json
import os
import re
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as builder  # noqa: E402

NPROC = min(8, os.cpu_count() or 4)
KNOWN = os.path.join(HERE, "known_findings.txt")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
# runs per quick check (over all workers); the wall cap is a backstop only
PLAN = {"default": (24000, 40.0)}
THOROUGH_WALL = 780.0


def load_plan():
    p = os.path.join(HERE, "plan.json")
    if os.path.exists(p):
        PLAN.update({k: tuple(v) for k, v in json.load(open(p)).items()})


def known_for(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=\[(.*?)\] (.*)", line.rstrip("\n"))
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def spec_text(s):
    out = ["# ska-sdp-func simulation replay file (text). Run: python3 check.py replay <this file>"]
    for c in s.get("comments", []):
        out.append("# " + c.replace("\n", " "))
    out += ["prop " + s["prop"], "seed %d" % s["seed"]]
    for k, v in sorted(s.get("over", {}).items()):
        out.append("over %s %r" % (k, v))
    if s.get("explicit"):
        out.append("explicit 1")
        for t in s.get("teams", []):
            out.append("team %d" % t)
        for a, b in s.get("sched", []):
            out.append("sched %d %d" % (a, b))
    for sig in s.get("expect", []):
        out.append("# expect " + sig)
    if s.get("trace"):
        out.append("# trace " + s["trace"])
    return "\n".join(out) + "\n"


class Runner:
    def __init__(self, exe):
        self.exe = exe
        self.n = 0
        self.dir = tempfile.mkdtemp(prefix="simchk.")

    def one(self, s, full=False, timeout=260):
        self.n += 1
        p = os.path.join(self.dir, "s%d.%d" % (threading.get_ident(), self.n))
        with open(p, "w") as f:
            f.write(spec_text(s))
        try:
            r = subprocess.run([self.exe, "one", p] + (["full"] if full else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            return json.loads(r.stdout.decode(errors="replace").strip().splitlines()[-1])
        except (subprocess.TimeoutExpired, ValueError, IndexError):
            return {"state": "lost", "viol": [], "trace": ""}
        finally:
            os.unlink(p)


def sigs(o, known):
    return [v for v in o.get("viol", []) if v["kind"] != "harness" and v["sig"] not in known]


def has(o, sig):
    return o.get("state") == "done" and any(v["sig"] == sig for v in o["viol"])


def parse_params(txt):
    res = []
    for part in txt.split(";"):
        m = re.match(r"(\S+?)=(\S+?):(\S+)$", part)
        if m:
            try:
                res.append((m.group(1), float(m.group(2)), float(m.group(3))))
            except ValueError:
                pass
    return res


def minimise(rn, s, sig, budget):
    """Smaller parameters, then a shorter schedule, that still show `sig`."""
    t0 = time.time()
    left = lambda: budget - (time.time() - t0)
    tried = 0
    base = rn.one(s, True)
    if not has(base, sig):
        return s, base, 0
    best = dict(s)
    # 1. parameters towards their lower bounds (with the seed's own schedule)
    names = [p for p in parse_params(base.get("params", "")) if p[1] != p[2] and not p[0].startswith("cfg.strategy")]
    # configuration and sizes first
    names.sort(key=lambda p: (not p[0].startswith("cfg."), p[0]))
    for nm, v, lo in names[:120]:
        if left() < budget * 0.5:
            break
        isint = v == int(v) and lo == int(lo)
        cur = v
        cands = [lo]
        if isint and v - lo > 2:
            cands += [lo + 1, lo + (v - lo) // 2]
        for c in cands:
            if c == cur:
                continue
            t = dict(best)
            t["over"] = dict(best.get("over", {}))
            t["over"][nm] = c
            o = rn.one(t, timeout=60)
            tried += 1
            if has(o, sig):
                best = t
                break
    # 2. schedule: explicit, then ddmin over the switches
    full = rn.one(best, True)
    ex = dict(best)
    ex.update(explicit=True, sched=full.get("log", []), teams=full.get("teams", []))
    o = rn.one(ex, timeout=120)
    tried += 1
    if has(o, sig) and len(ex["sched"]) < 200000:
        best = ex
        t = dict(ex)
        t["sched"] = []
        o = rn.one(t, timeout=60)
        tried += 1
        if has(o, sig):
            best = t
        else:
            lo, hi = 0, len(ex["sched"])  # shortest failing prefix
            while lo < hi and left() > budget * 0.2:
                m = (lo + hi) // 2
                t = dict(ex)
                t["sched"] = ex["sched"][:m]
                tried += 1
                if has(rn.one(t, timeout=60), sig):
                    hi = m
                else:
                    lo = m + 1
            cur = ex["sched"][:hi]
            t = dict(ex)
            t["sched"] = cur
            if has(rn.one(t, timeout=60), sig):
                best = t
                n = 2
                while len(cur) >= 2 and left() > 2:
                    size = max(1, len(cur) // n)
                    done = False
                    for i in range(0, len(cur), size):
                        if left() < 2:
                            break
                        t = dict(best)
                        t["sched"] = cur[:i] + cur[i + size:]
                        tried += 1
                        if has(rn.one(t, timeout=60), sig):
                            cur = t["sched"]
                            best = t
                            n = max(n - 1, 2)
                            done = True
                            break
                    if not done:
                        if n >= len(cur):
                            break
                        n = min(len(cur), n * 2)
    fin = rn.one(best, True)
    if not has(fin, sig):
        return s, base, tried
    return best, fin, tried


class Worker(threading.Thread):
    def __init__(self, cmd):
        super().__init__(daemon=True)
        self.viol, self.lost, self.stats = [], [], None
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)

    def run(self):
        for raw in self.p.stdout:
            line = raw.decode(errors="replace")
            try:
                if line.startswith("VIOL "):
                    self.viol.append(json.loads(line[5:]))
                elif line.startswith("LOST "):
                    self.lost.append(json.loads(line[5:]))
                elif line.startswith("STATS "):
                    self.stats = json.loads(line[6:])
            except ValueError:
                pass
        self.p.wait()

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass


def search(rn, prop, base, count, wall, known, knownfile):
    ws = []
    for w in range(NPROC):
        hf = os.path.join(rn.dir, "h%d.%d" % (base % 1000003, w))
        x = Worker([rn.exe, "worker", "--prop", prop, "--start", str(base + w), "--stride", str(NPROC),
                    "--count", str((count + NPROC - 1) // NPROC), "--tmax", "%.1f" % wall, "--hashes", hf, "--known", knownfile])
        x.hf = hf
        ws.append(x)
        x.start()
    t0 = time.time()
    first = None
    while any(x.is_alive() for x in ws):
        time.sleep(0.05)
        if first is None and any(sigs(v, known) for x in ws for v in x.viol):
            first = time.time()
        if (first and time.time() - first > 4) or time.time() - t0 > wall + 70:
            for x in ws:
                x.kill()
            break
    for x in ws:
        x.join(5)
    return ws


def merge(tot, d):
    for k, v in d.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            tot[k] = tot.get(k, 0) + v
        elif isinstance(v, dict) and k != "sample":
            t = tot.setdefault(k, {})
            for a, b in v.items():
                t[a] = t.get(a, 0) + b
        elif isinstance(v, list):
            tot[k] = sorted(set(tot.get(k, [])) | set(v))
    if "sample" in d:
        tot.setdefault("samples", []).append(d["sample"])


FAULTS = {"alloc_faults": "failed allocation", "stream_faults": "failing, short or slow log write", "clock_jumps": "clock jump",
          "team_shrunk": "fewer OpenMP threads delivered than asked", "stalls": "stalled thread", "net_lost": "message lost and sent again",
          "net_duplicated": "message duplicated", "net_reordered": "message taken out of order", "net_partitioned": "message held back by a partition",
          "net_restarts": "worker crashed and restarted"}


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        exe = builder.build()
        r = subprocess.run([exe, "one", sys.argv[2]], stdout=subprocess.PIPE)
        o = json.loads(r.stdout.decode(errors="replace").strip().splitlines()[-1])
        for v in o["viol"]:
            print("%s  [%s]" % (v["msg"], v["sig"]))
        print("%s trace %s steps %d switches %d" % (o["state"], o["trace"], o["steps"], o["switches"]))
        if o["state"] != "done":
            o["viol"] = [1]
        if o["viol"]:
            print("VIOLATION property=%s replay=%s" % (o["prop"], sys.argv[2]))
        return 1 if o["viol"] else 0
    if len(sys.argv) >= 4 and sys.argv[1] == "one":
        rn = Runner(builder.build())
        print(json.dumps(rn.one({"prop": sys.argv[2], "seed": int(sys.argv[3])}, True), indent=1)[:6000])
        return 0
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    load_plan()
    t0 = time.time()
    exe = builder.build()
    build_s = time.time() - t0
    rn = Runner(exe)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    kn = known_for(prop)
    known = {s for s, _ in kn}
    kf = os.path.join(rn.dir, "known")
    with open(kf, "w") as f:
        f.write("".join(s + "\n" for s in known))
    count, wall = PLAN.get(prop, PLAN["default"])
    if tier == "thorough":
        count, wall = 10 ** 12, THOROUGH_WALL - build_s
    base = (seed * 1000003 + 17) % (1 << 40) * 1000
    rejected, reported, hist = [], None, []
    tot, seen = {}, set()
    pos, n_lost, harness_viol, dead = base, [], [], None
    t1 = time.time()
    while True:
        left = wall - (time.time() - t1)
        ws = search(rn, prop, pos, count, max(left, 1), known, kf)
        cand = []
        for x in ws:
            if x.stats:
                merge(tot, x.stats)
            n_lost += x.lost
            if os.path.exists(x.hf):
                b = open(x.hf, "rb").read()
                seen |= {b[i:i + 8] for i in range(0, len(b), 8)}
            for v in x.viol:
                if any(y["kind"] == "harness" for y in v["viol"]):
                    harness_viol.append(v)
                elif sigs(v, known):
                    cand.append(v)
        cand.sort(key=lambda v: v["seed"])
        for v in cand:
            sig = sigs(v, known)[0]["sig"]
            s = {"prop": prop, "seed": v["seed"]}
            a, b = rn.one(s), rn.one(s)
            # when the CPU limit strikes is not part of the simulation
            same = a.get("trace") == b.get("trace") == v["trace"] or (sig == "no-progress|cpu" and has(b, sig))
            if same and has(a, sig):
                reported = (v, s, sig)
                break
            rejected.append({"seed": v["seed"], "sig": sig})
        if not reported and prop not in ("C12", "C18", "C20"):
            # a run that takes its whole process down, every time, is a crash
            for x in sorted(n_lost, key=lambda x: x["seed"])[:3]:
                s = {"prop": prop, "seed": x["seed"]}
                st = [rn.one(s).get("state") for _ in range(2)]
                if st[0] == st[1] == x["state"] and st[0] not in ("done", "lost", "killed 9"):
                    dead = (s, "%s, every time" % st[0])
                    break
        if dead or reported or not (cand or harness_viol) or time.time() - t1 > wall * 0.7 or len(rejected) + len(harness_viol) > 20:
            break
        # only unreproducible candidates so far: go on with other seeds
        pos += 500000000
        count = max(1000, count - int(tot.get("runs", 0)))
    search_s = time.time() - t1
    # determinism: a sample of seeds again, each twice in a fresh process
    det_n = det_ok = 0
    for i in range(6):
        s = {"prop": prop, "seed": base + i * 7}
        a, b = rn.one(s, timeout=90), rn.one(s, timeout=90)
        det_n += 1
        det_ok += a.get("trace") == b.get("trace") and a.get("state") == b.get("state") == "done"
    rc = 0
    viol_list = []
    if reported:
        v, s, sig = reported
        best, fin, tried = minimise(rn, s, sig, 60 if tier == "quick" else 150)
        again = rn.one(best)
        if not has(again, sig) or again["trace"] != fin["trace"]:
            best, fin = s, rn.one(s, True)
        best = dict(best)
        msg = [x["msg"] for x in fin["viol"] if x["sig"] == sig][0]
        best.update(expect=[x["sig"] for x in fin["viol"]], trace=fin["trace"],
                    comments=["violation: " + msg, "operations: " + fin.get("note", ""), "found with seed %d; %d minimisation runs; %d schedule entries; allocation faults at %s" % (
                        v["seed"], tried, len(best.get("sched", [])), fin.get("fault_log", [])), "parameters: " + fin.get("params", "")[:3000]])
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%x.replay" % (prop, v["seed"]))
        with open(path, "w") as f:
            f.write(spec_text(best))
        print(msg)
        print("seed %d, minimised to %d scheduling decisions, %d parameters fixed" % (v["seed"], len(best.get("sched", [])), len(best.get("over", {}))))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        viol_list.append({"sig": sig, "msg": msg, "seed": v["seed"], "replay": path})
        rc = 1
    elif dead:
        s, msg = dead
        s = dict(s, comments=["violation: the simulated process ended: " + msg])
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%x.replay" % (prop, s["seed"]))
        with open(path, "w") as f:
            f.write(spec_text(s))
        print("seed %d ended its process: %s" % (s["seed"], msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        viol_list.append({"sig": "process|" + msg, "msg": msg, "seed": s["seed"], "replay": path})
        rc = 1
    hits = tot.get("known", {})
    for sg, what in kn:
        print("KNOWN-FINDING: property=%s %s (met in %d run(s))" % (prop, what, hits.get(sg, 0)))
    runs = int(tot.get("runs", 0))
    wall_w = tot.get("wall", 0) / NPROC or search_s
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": max(runs, 0), "distinct_nontrivial": len(seen),
            "rule": "one evaluation is one simulated run of one seed; distinct: different hashes of (sequence of scheduling decisions, operations run); "
                    "nontrivial: the run reached the situation the property is about (a parallel region or several callers ran, or the injected fault fired, or the error status was set)",
            "samples": [json.dumps(x)[:700] for x in tot.get("samples", [])[:4]] or ["none"],
            "runs_and_seeds_per_hour": int(runs / wall_w * 3600) if wall_w else 0,
            "simulated_seconds": tot.get("sim_ns", 0) / 1e9,
            "simulated_steps": int(tot.get("steps", 0)),
            "scheduling_decisions": int(tot.get("switches", 0)),
            "distinct_schedules": int(tot.get("distinct_sched", 0)),
            "faults_injected": {FAULTS[k]: int(tot.get(k, 0)) for k in FAULTS if k in tot},
            "runs_with_faults": int(tot.get("faulty_runs", 0)),
            "runs_without_faults": runs - int(tot.get("faulty_runs", 0)),
            "conflicting_accesses": int(tot.get("conflicts", 0)),
            "switches_at_conflicts": int(tot.get("conflict_switches", 0)),
            "parallel_regions": int(tot.get("regions", 0)), "simulated_threads": int(tot.get("fibers", 0)),
            "mutex_operations": int(tot.get("locks", 0)), "atomic_operations": int(tot.get("atomics", 0)),
            "strategies": tot.get("strategies", {}), "operations": dict(sorted(tot.get("ops", {}).items(), key=lambda t: -t[1])[:80]),
            "library_functions_reached": len(tot.get("functions", [])), "functions": tot.get("functions", []),
            "determinism_sample": {"seeds_run_twice_in_fresh_processes": det_n, "identical": det_ok},
            "gate": {"candidates_rejected_as_unreproducible": rejected[:10], "harness_reports": [h["seed"] for h in harness_viol[:10]], "runs_lost": len(n_lost), "lost": n_lost[:10]},
            "real_components": "all C/C++ sources under src/ska-sdp-func of the working tree (with PocketFFT), compiled with access instrumentation only",
            "stub_components": "OpenMP runtime (libgomp ABI), thread scheduler, heap, clocks, stdout/stderr, environment, process exit, and POSIX mutex/thread calls: the simulator; CUDA code and MKL: not built",
        },
        "assumptions": ["simulated schedules are sequentially consistent; races are decided by happens-before, so weak-memory outcomes of unordered accesses are reported as races",
                        "compiled with -O2 by the installed gcc; other compilers may reorder floating-point operations"],
        "wall_s": round(time.time() - t0, 2), "build_s": round(build_s, 2), "violations": len(viol_list), "violation_details": viol_list,
        "known_findings": [{"sig": s, "what": w, "runs": hits.get(s, 0)} for s, w in kn],
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct, %d lost, %d rejected, %d harness, build %.1f s, search %.1f s" % (
        prop, tier, runs, len(seen), len(n_lost), len(rejected), len(harness_viol), build_s, search_s))
    subprocess.run(["rm", "-rf", rn.dir])
    return rc


if __name__ == "__main__":
    sys.exit(main())
