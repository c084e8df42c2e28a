#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--tier quick|thorough] [--seed N] | check.py --replay FILE

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. 2: the check itself could not run."""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
from checks import CHECKS

def replay(path):
    t = open(path).read()
    g = lambda k: re.search(r"^%s (\S+)" % k, t, re.M).group(1)
    prop, var = g("property"), g("variant")
    b = build.build(prop, [var])[var]
    r = subprocess.run([b, "--replay", path] + (["-v"] if "-v" in sys.argv else []))
    return 1 if r.returncode == 1 else 0

def findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) sub=(\S+) match=\"(.*?)\" (.*)", l)
            if m and m.group(1) == prop: out.append(m.groups()[1:])
    except OSError: pass
    return out

def main():
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    prop = sys.argv[1]
    def opt(k, d): return sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    only = opt("--sub", None)
    scale = float(opt("--scale", "1"))
    c = CHECKS[prop]
    t0 = time.time()
    variants = sorted({v for _, v, _, _ in c["runs"]})
    bins = build.build(prop, variants)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    tb = time.time() - t0
    budget = 620 if tier == "quick" else 6 * 3600
    parts, viol, errors = [], None, []
    known = findings(prop)
    for sub, var, nq, nt in c["runs"]:
        if only and sub != only: continue
        n = int((nq if tier == "quick" else nt) * scale)
        if n <= 0: continue
        left = budget - (time.time() - t0)
        if left < 5: errors.append("time budget used up before %s/%s" % (sub, var)); break
        of = os.path.join(VERIF, "evidence", ".%s.%d.json" % (prop, os.getpid()))
        try:
            r = subprocess.run([bins[var], "--prop", prop, "--sub", sub, "--seed", str(seed), "--cases", str(n),
                "--variant", var, "--maxsec", "%.0f" % left, "--jobs", os.environ.get("VERIF_JOBS", "8"),
                "--out", of, "--replaydir", rdir], stdin=subprocess.DEVNULL)
            res = json.load(open(of))
        except Exception as e:
            errors.append("%s/%s: %s" % (sub, var, e)); continue
        finally:
            try: os.unlink(of)
            except OSError: pass
        parts.append(res)
        if "-q" not in sys.argv:
            print("%s %s/%s: %d cases, %d distinct non-trivial, %d inconclusive, %.1f s%s" % (prop, sub, var, res["evaluations"],
                res["distinct_nontrivial"], res["inconclusive"], res["wall_s"], " labels %s" % json.dumps(res["labels"])))
            if res["inconclusive_reasons"]: print("  inconclusive:", res["inconclusive_reasons"])
            if res["flaky"]: print("  flaky:", res["flaky"])
        if res["violated"]:
            hit = [k for k in known if k[0] == sub and re.search(k[1], res["message"])]
            if not hit:
                viol = res; break
    for sub, rx, desc in known: print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    samples = []
    for p in parts:
        for s in p["samples"][:2]: samples.append("[%s/%s] %s" % (p["sub"], p["variant"], s))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
            "rule": "Cases are generated from a choice tape seeded by VERIF_SEED. Non-trivial, per part: " +
                "; ".join(sorted({"%s: %s" % (p["sub"], p["rule"]) for p in parts})),
            "samples": samples[:24] or ["none"],
            "inconclusive": sum(p["inconclusive"] for p in parts),
            "parts": [{k: p[k] for k in ("sub", "variant", "evaluations", "distinct", "distinct_nontrivial", "inconclusive",
                "inconclusive_reasons", "flaky", "labels", "wall_s")} for p in parts]},
        "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    if errors: ev["coverage"]["errors"] = errors
    if viol: ev["coverage"]["violation"] = viol["message"]
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for e in errors: print("error:", e)
    if viol:
        print("%s: %s" % (prop, viol["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
        return 1
    if not parts or sum(p["evaluations"] for p in parts) == 0: return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s (build %.1f s)" % (prop, ev["coverage"]["evaluations"],
        ev["coverage"]["distinct_nontrivial"], ev["wall_s"], tb))
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except RuntimeError as e:
        print("build failed:\n%s" % e); sys.exit(2)
