#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py C01 [quick|thorough] [--replay FILE]

Builds the check from /repo's current working tree, searches generated cases in one or more phases, writes
evidence/<id>.json and exits 0 (held on everything explored), 1 (VIOLATION line printed) or 2 (could not run)."""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402
import config  # noqa: E402

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:quarantine_size_mb=8:allocator_may_return_null=1:allocation_size_too_big=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"


def known_findings(prop):
    """Lines 'known: property=<id> key=<key> <text>' of the committed file."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                out[key.split("=", 1)[1]] = text
    return out


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    replay = None
    if "--replay" in args:
        k = args.index("--replay")
        replay = args[k + 1]
        args = args[:k] + args[k + 2:]
    tier = args[0] if args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = config.CHECKS[prop]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)

    phases, skipped = [], []
    for ph in spec["phases"]:
        if tier not in ph and not replay:
            continue
        try:
            phases.append((ph, build.build_phase(prop, ph)))
        except build.BuildError as e:
            # The Python phases need the stand-in for pybind11, which may lack what a new tree uses: the other
            # phases still decide the property. Likewise ThreadSanitizer may not run on a machine.
            sys.stderr.write(str(e) + "\n")
            print("NOTE: phase %s of %s could not be built from the current tree" % (ph["name"], prop))
            skipped.append(ph["name"])
    if not phases or any(ph["name"] in skipped for ph in spec["phases"] if ph["config"] not in ("py", "tsan", "cov")):
        print("ERROR: the check of %s could not be built from the current tree" % prop)
        return 2

    if replay:
        data = json.load(open(replay))
        rc = 0
        for ph, cmd in phases:
            if data.get("phase", ph["name"]) != ph["name"]:
                continue
            r = subprocess.run(cmd + ["--replay", replay, "--scale", str(data.get("scale", 0))], env=ENV)
            rc = rc or r.returncode
        return rc

    known = known_findings(prop)
    total = dict(evaluations=0, distinct_nontrivial=0)
    phase_info, samples, rules = [], [], []
    violation = None
    known_hits = set()
    for k, (ph, cmd) in enumerate(phases):
        out = os.path.join(evdir, ".%s.%d.json" % (prop, k))
        rp = os.path.join(rpdir, "%s-%s.json" % (prop, ph["name"]))
        for p in (out, rp):
            if os.path.exists(p):
                os.remove(p)
        cases, cap = ph[tier]
        tp = time.time()
        full = cmd + ["--seed", str(seed * 1000 + k), "--cases", str(cases), "--time-cap", str(cap), "--workers", "8",
                      "--scale", "1" if tier == "thorough" else "0", "--out", out, "--replay-out", rp]
        if known:
            full += ["--known", ",".join(sorted(known))]
        r = subprocess.run(full, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        so, se = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        if r.returncode not in (0, 1) or not os.path.exists(out):
            sys.stderr.write(so + se)
            print("ERROR: phase %s of %s ended with status %d" % (ph["name"], prop, r.returncode))
            return 2
        d = json.load(open(out))
        os.remove(out)
        total["evaluations"] += d["evaluations"]
        total["distinct_nontrivial"] += d["distinct_nontrivial"]
        samples += d["samples"][:4]
        if d["rule"] not in rules:
            rules.append(d["rule"])
        known_hits |= set(d.get("known_hits", []))
        phase_info.append(dict(name=ph["name"], evaluations=d["evaluations"], distinct_nontrivial=d["distinct_nontrivial"],
                               requested=d["requested"], labels=d["labels"], labelled=d["labelled"],
                               wall_s=round(time.time() - tp, 2), build=ph.get("config", "python")))
        if d["violation"]:
            violation = (d["message"], rp)
            data = json.load(open(rp))
            data["phase"] = ph["name"]
            json.dump(data, open(rp, "w"), indent=1)
            break

    for key in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, known.get(key, key)))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct_nontrivial"],
                            rule="; ".join(rules), samples=samples, phases=phase_info),
              assumptions=spec.get("assumptions", []) + config.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    if skipped:
        ev["coverage"]["phases_not_built"] = skipped
    if known_hits:
        ev["coverage"]["known_findings_reproduced"] = sorted(known_hits)
    tmp = os.path.join(evdir, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, prop + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, total["evaluations"], total["distinct_nontrivial"], time.time() - t0))
    if violation:
        print("counterexample: " + violation[0][:2000])
        print("VIOLATION property=%s replay=%s" % (prop, violation[1]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
