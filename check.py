#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property by seeded simulation.

Builds the simulator from /repo's working tree, runs the property's worlds on 8
processes, writes evidence/<ID>.json. exit 0: held on everything explored; 1: a
VIOLATION line was printed; 2: the harness itself failed."""
import json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from worlds import CHECKS

SHARDS = 8


def known_findings(pid):
    """lines `finding: property=ID match=<substring> :: <what fails>`"""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    key, what = line.split(" match=", 1)[1].rstrip("\n").split(" :: ", 1)
                    out.append((key, what))
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    bins = {"": build.build("")}
    variants = {w.get("variant", "") for w in spec["worlds"] if tier in w.get("tiers", ("quick", "thorough"))}
    for v in variants:
        if v not in bins:
            bins[v] = build.build(v)
    t_build = time.time() - t0
    known = known_findings(pid)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ronsim-")
    total = {"runs": 0, "steps": 0, "events": 0, "sim_us": 0, "rechecks": 0, "mismatches": 0, "unreproduced": 0,
             "nontrivial": 0}
    faults, probes, khits, states, hashes = {}, {}, {}, set(), set()
    per_world, samples, violations, stubs = {}, [], [], {}
    t_runs = 0.0
    for w in spec["worlds"]:
        if tier not in w.get("tiers", ("quick", "thorough")):
            continue
        n, cap = w[tier]
        t1 = time.time()
        per = (n + SHARDS - 1) // SHARDS
        procs = []
        for s in range(SHARDS):
            out = os.path.join(tmp, "%s-%d.json" % (w["world"], s))
            procs.append((out, subprocess.Popen([bins[w.get("variant", "")], "run", w["world"], str(base), str(s * per), str(per),
                                                 str(cap), out, replays] + [k for k, _ in known])))
        for out, p in procs:
            rc = p.wait()
            if rc:
                print("HARNESS-ERROR world=%s exit=%d" % (w["world"], rc))
                return 2
        pw = {"runs": 0, "steps": 0, "sim_seconds": 0.0, "slowest_run_s": 0.0}
        for out, p in procs:
            with open(out) as f:
                d = json.load(f)
            os.unlink(out)
            for k in total:
                total[k] += d[k]
            pw["runs"] += d["runs"]
            pw["steps"] += d["steps"]
            pw["sim_seconds"] += d["sim_us"] / 1e6
            pw["slowest_run_s"] = max(pw["slowest_run_s"], d["slowest_run_s"])
            for dst, src in ((faults, d["faults"]), (probes, d["probes"]), (khits, d["known"])):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            states.update((w["world"], h) for h in d["states"])
            hashes.update((w["world"], h) for h in d["hashes"])
            stubs[w["world"]] = d["stubs"]
            if d["sample"] and not any(x["world"] == w["world"] for x in samples):
                samples.append({"world": w["world"], "plan": d["sample"].strip().split("\n")[:60]})
            seen = {v["class"] for v in violations}
            violations += [v for v in d["violations"] if v["class"] not in seen]
        pw["wall_s"] = round(time.time() - t1, 1)
        t_runs += time.time() - t1
        per_world[w["world"]] = pw
    os.rmdir(tmp)
    ev = {
        "property": pid, "tier": tier, "seed": base, "level": spec["level"],
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": total["nontrivial"],
            "rule": "one evaluation = one simulated run (one seed); non-trivial = its event-log hash is new in its shard and it "
                    "reached more than one distinct abstract state. " + spec.get("rule", ""),
            "samples": samples,
            "runs": total["runs"], "plan_steps": total["steps"], "simulated_events": total["events"],
            "seeds_per_hour": round(total["runs"] * 3600 / max(t_runs, 0.001)),
            "simulated_seconds": round(total["sim_us"] / 1e6, 3),
            "faults_injected": faults, "rare_conditions_reached": probes,
            "distinct_states": len(states), "distinct_event_histories": len(hashes),
            "determinism_rechecks": total["rechecks"], "determinism_mismatches": total["mismatches"],
            "unreproduced_failures": total["unreproduced"],
            "known_findings_hit": khits, "per_world": per_world, "real_and_stub": stubs,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d steps, %d distinct states, %d faults, build %.0fs, runs %.0fs" % (
        pid, tier, total["runs"], total["steps"], len(states), sum(faults.values()), t_build, t_runs))
    for key, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        print("  class=%s steps=%d\n  %s" % (v["class"], v["steps"], v["msg"][:1500].replace("\n", "\n  ")))
    if violations:
        return 1
    if total["runs"] == 0:
        print("HARNESS-ERROR no runs")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
