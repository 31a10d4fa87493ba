#!/usr/bin/env python3
"""Run the check of one property:  run.py <ID> [--tier quick|thorough]

Builds what the check needs from /repo's current tree, runs its harness
variants, writes evidence/<ID>.json, prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored.  1: violation.  2: could not be decided
(build failure or the harness itself failed).
"""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from registry import CHECKS

VERIF = build.VERIF


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_TIER"] = tier
    os.environ["VERIF_SEED"] = str(seed)
    spec = CHECKS[pid]
    t0 = time.time()
    tree = build.locked_tree()
    jobs = []
    for v in spec["variants"]:
        try:
            jobs.append((v, v["prepare"](tree)))
        except SystemExit:
            print("property %s: build failed for variant %s" % (pid, v["name"]))
            sys.exit(2)
    tree._lock.close()
    print("property %s: built in %.1f s" % (pid, time.time() - t0), flush=True)
    results, violations, broken = [], [], False
    outdir = os.path.join(VERIF, "build", "out")
    os.makedirs(outdir, exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    for v, cmd in jobs:
        out = os.path.join(outdir, "%s-%s-%d.json" % (pid, v["name"], os.getpid()))
        n = v[tier] if tier in v else None
        full = list(cmd) + ["--out", out, "--replay-dir", replays, "--variant", v["name"], "--tier", tier, "--seed", str(seed)]
        if n:
            full += ["--cases", str(n)]
        env = dict(os.environ)
        env.pop("DLB_ARGS", None)
        env["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:detect_odr_violation=0:%s" % (1 if v.get("leaks") else 0, v.get("asan", ""))
        env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:" + v.get("tsan", "")
        env["LC_ALL"] = "C.UTF-8"
        env.update(v.get("env", {}))
        r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors="replace")
        print(r.stdout, end="", flush=True)
        try:
            st = json.load(open(out))
            os.unlink(out)
        except Exception as e:
            print("property %s: no result from variant %s (exit %d): %s" % (pid, v["name"], r.returncode, e))
            broken = True
            continue
        results.append(st)
        if st["failed"]:
            violations.append(st)
            break
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct"] for r in results),
            "rule": spec["rule"],
            "samples": [s for r in results for s in r["samples"]][:6] or ["(none)"],
            "variants": [{k: r[k] for k in ("variant", "evaluations", "planned", "discarded", "inconclusive", "nontrivial", "distinct", "elementary_checks", "max_choices", "wall_s", "labels")} for r in results],
        },
        "assumptions": sorted({a for r in results for a in r.get("assumptions", [])}),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "violation_details": [{"replay": r["replay"], "failure": r["failure"]} for r in violations],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for r in results:
        if r.get("flaky"):
            print("note: unreproduced failure in %s (not reported): %s" % (r["variant"], r["flaky"][:400]))
    if violations:
        for r in violations:
            print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
        sys.exit(1)
    if broken:
        sys.exit(2)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("property %s: held on everything explored (%s, %.1f s)" % (pid, tier, time.time() - t0))


if __name__ == "__main__":
    main()
