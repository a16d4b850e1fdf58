#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: build from the current /repo tree, explore, report.
Exit 0: the property held on everything explored.  Exit 1: VIOLATION (after the counterexample was replayed)."""
import sys, os, json, time, subprocess, tempfile, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, checks
V = build.VERIF

def known_findings(pid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l)
    return out

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = checks.CHECKS[pid]
    total = c.get("budget", {}).get(tier, 600 if tier == "quick" else 3600)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=0.0, violations=0,
              coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, scenarios=[]),
              assumptions=checks.ASSUME + c.get("assume", []))
    viol = []
    for eng in c["engines"]:
        res = eng(pid, tier, t0 + total)
        for r in res:
            cov = ev["coverage"]
            cov["states"] += r["states"]; cov["transitions"] += r["transitions"]
            cov["traces_validated_against_impl"] += r["paths"]
            cov["observations_compared"] = cov.get("observations_compared", 0) + r.get("observations", 0)
            if not r["complete"]: cov["exhaustive"] = False
            cov["scenarios"].append({k: r[k] for k in ("scenario", "depth", "actions", "states", "transitions", "complete", "secs") if k in r})
            if r.get("sample"): cov["samples"].append({"scenario": r["scenario"], "case": r["sample"][:600]})
            if r["violated"]: viol.append(r)
        if viol: break
    for k in known_findings(pid): print(k)
    ev["wall_s"] = round(time.time() - t0, 2); ev["violations"] = len(viol)
    if not ev["coverage"]["samples"]: ev["coverage"]["samples"] = [{"scenario": s["scenario"]} for s in ev["coverage"]["scenarios"][:3]]
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if viol:
        r = viol[0]
        path = os.path.join(V, "replays", "%s-%s.txt" % (pid, tier))
        with open(path, "w") as f:
            f.write("property: %s\nscenario: %s\nreplay: %s\n\n%s\n\ntrace:\n%s" % (pid, r["scenario"], r.get("replay_cmd", ""), r["msg"], r["trace"]))
        sys.stdout.write(r["msg"][:3000] + "\n")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s %s: held; %d states, %d transitions, exhaustive within bounds: %s, %.1f s" % (pid, tier, ev["coverage"]["states"], ev["coverage"]["transitions"], ev["coverage"]["exhaustive"], ev["wall_s"]))
    return 0

sys.exit(main())
