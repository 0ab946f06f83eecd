#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the simulator with t8code from /repo's working tree, searches seeded
simulated executions for a violation of PROPERTY, gates every violation (same
seed twice, tape replay, replay of the minimised file in a fresh process) and
writes evidence/PROPERTY.json.  Exit 0: held on everything explored.  Exit 1
with a VIOLATION line: broken.  Exit 2: error of the check."""
import json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or "1")
cfg = json.load(open(HERE + "/checks.json"))
c = dict(cfg["default"])
c.update(cfg["properties"][prop])
t0 = time.time()
jobs = str(os.cpu_count() or 8)


def known_findings():
    out = []
    fn = HERE + "/known-findings.txt"
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith("finding: property=" + prop + " "):
                # finding: property=ID class=CLS match="text" what fails
                rest = line[len("finding: property=" + prop + " "):].rstrip("\n")
                cls = rest.split("class=", 1)[1].split(" ", 1)[0]
                m = rest.split('match="', 1)[1].split('"', 1)
                out.append((cls, m[0], m[1].strip()))
    return out


def build(variant):
    r = subprocess.run([sys.executable, HERE + "/build.py", variant], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:] + "\nbuild failed\n")
        sys.exit(2)
    return HERE + "/.build/%s/simt8" % variant


def main():
    known = known_findings()
    os.makedirs(HERE + "/evidence", exist_ok=True)
    work = HERE + "/.build/work-%s-%d" % (prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    os.makedirs(HERE + "/replay", exist_ok=True)
    kf = work + "/known"
    with open(kf, "w") as f:
        for k in known:
            f.write("%s\t%s\n" % (k[0], k[1]))
    phases = c["thorough" if tier == "thorough" else "quick"]
    results, violation, errors = [], None, []
    build_s = 0
    for ph in phases:
        b0 = time.time()
        exe = build(ph.get("variant", "rel"))
        build_s += time.time() - b0
        first, end_t = ph.get("first", 0), time.time() + ph["time"]
        last = first + ph["runs"]
        tries = 0
        while first < last and time.time() < end_t and tries < 6:
            tries += 1
            js = work + "/out.json"
            rp = HERE + "/replay/%s-%s-seed%d.txt" % (prop, ph.get("variant", "rel"), seed)
            cmd = [exe, "search", "--prop", prop, "--seed", str(seed), "--first", str(first), "--runs", str(last - first), "--time", "%.1f" % (end_t - time.time()),
                   "--jobs", jobs, "--dir", work, "--json", js, "--replay", rp, "--shrink", str(ph.get("shrink", 30)), "--known", kf]
            r = subprocess.run(cmd)
            try:
                out = json.load(open(js))
            except Exception:
                errors.append("the search ended with %d and left no result" % r.returncode)
                break
            out["variant"] = ph.get("variant", "rel")
            results.append(out)
            if r.returncode == 0:
                break
            if r.returncode == 1:
                rr = subprocess.run([exe, "replay", rp], stdout=subprocess.PIPE, text=True)
                if rr.returncode == 1:
                    violation = (out["violation"], rp, rr.stdout)
                    break
                errors.append("replay of %s in a fresh process ended with %d" % (rp, rr.returncode))
            else:
                errors.append(out.get("gate", "error"))
            # the execution was not repeatable: look for one that is
            first = out.get("violation", {}).get("index", last) + 1
        if violation:
            break
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in results)
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    probes = c.get("probes", {})
    faults = {k: v for k, v in counters.items() if k in cfg["fault_counters"]}
    act = {k: v for k, v in counters.items() if k not in cfg["fault_counters"] and not k.startswith("probe")}
    reach = {probes[k]: v for k, v in counters.items() if k in probes}
    search_s = max(tot("search_s"), 1e-3) if results else 1
    hits = [0] * len(known)
    for r in results:
        for i, h in enumerate(r["known_hits"]):
            hits[i] += h
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs") if results else 0,
            "distinct_nontrivial": tot("distinct_nontrivial") if results else 0,
            "rule": c["rule"] + " One evaluation is one simulated job: workload, schedule and faults are drawn from one seed. Non-trivial: ranks were switched more than twice and exchanged messages or entered collectives, and the execution was not discarded; distinct: by the hash of its full event log.",
            "samples": (results[0]["samples"] if results else [])[:3],
            "runs_per_hour": int(tot("runs") / search_s * 3600) if results else 0,
            "seeds_per_hour": int(tot("runs") / search_s * 3600) if results else 0,
            "discarded": tot("discarded") if results else 0,
            "distinct_interleavings": tot("distinct_interleavings") if results else 0,
            "interleaving_measure": "hash of the sequence of scheduling decisions (rank chosen, MPI call, matching and delivery decisions)",
            "distinct_states": tot("distinct_states") if results else 0,
            "state_measure": "hash of the global mesh (or result) at the recorded points of the history",
            "simulated_seconds": counters.get("simulated_us", 0) / 1e6,
            "faults_injected": faults, "activity": act, "reach": reach,
            "real_code": c.get("real", cfg["real"]), "stubs": cfg["stubs"],
            "build_s": round(build_s, 1), "search_s": round(search_s, 1),
            "variants": sorted(set(r["variant"] for r in results)),
            "known_findings_hit": {known[i][2]: hits[i] for i in range(len(known))},
            "gate_errors": errors,
        },
        "assumptions": cfg["assumptions"] + c.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": 1 if violation else 0,
    }
    if violation:
        ev["coverage"]["violation"] = violation[0]
    tmp = HERE + "/evidence/.%s.tmp" % prop
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, HERE + "/evidence/%s.json" % prop)
    shutil.rmtree(work, ignore_errors=True)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if violation:
        v = violation[0]
        print("property %s violated: class %s: %s" % (prop, v["class"], v["message"]))
        print("replay with: .build/rel/simt8 replay %s --verbose 1" % violation[1])
        print("VIOLATION property=%s replay=%s" % (prop, violation[1]))
        return 1
    if errors:
        print("check error: " + "; ".join(errors))
        return 2
    if not results or tot("runs") == 0 or tot("distinct_nontrivial") == 0:
        print("check error: nothing was explored")
        return 2
    print("property %s held on %d simulated executions (%d distinct), %.1f s" % (prop, tot("runs"), tot("distinct_nontrivial"), wall))
    return 0


sys.exit(main())
