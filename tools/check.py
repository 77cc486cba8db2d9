#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property on /repo's working tree."""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
V = vbuild.VERIF

SEQ = {}
for d, ps in (("fmt", range(13, 21)), ("opt", range(21, 28)), ("spl", (28, 29)), ("pt", range(30, 35)), ("mbseq", (5, 7, 8, 9, 10)), ("indep", (12,)), ("exc", (36,)), ("env", (38,)), ("flt", (39,))):
    for p in ps: SEQ["C%02d" % p] = d
MC = set("C%02d" % p for p in range(1, 13)) | {"C40"}
LIMIT = {"quick": 420, "thorough": 3000}

def merge(parts, prop, tier, t0):
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": True, "rule": "", "spaces": [], "samples": []}
    ass = []; viol = 0
    for e in parts:
        c = e["coverage"]
        for k in ("states", "transitions", "traces_validated_against_impl"): cov[k] += c[k]
        cov["exhaustive"] &= c["exhaustive"]
        cov["rule"] += (" | " if cov["rule"] else "") + c["rule"]
        cov["spaces"] += c["spaces"]; cov["samples"] += c["samples"]
        for k in c:
            if k not in cov: cov[k] = c[k]
        ass += e["assumptions"]; viol += e["violations"]
    return {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
            "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - t0, 2), "violations": viol}

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ev = os.path.join(V, "evidence", prop + ".json"); os.makedirs(os.path.dirname(ev), exist_ok=True)
    rep = os.path.join(V, "replay"); os.makedirs(rep, exist_ok=True)
    tmp = os.path.join(V, "build", "ev"); os.makedirs(tmp, exist_ok=True)
    if os.path.exists(ev): os.remove(ev)
    runs = []
    if prop in MC and os.path.exists(os.path.join(V, "mc", "scen.cpp")): runs.append("mc")
    if prop in SEQ and os.path.exists(os.path.join(V, "seq", SEQ[prop] + ".cpp")): runs.append("seq")
    if prop == "C37": runs = ["mc"] + ["lk:" + d for d in ("spl", "exc", "mbseq", "opt", "fmt", "pt")]
    if prop == "C38": runs = ["seq"] + ["lk:" + d for d in ("spl", "mbseq", "opt", "fmt", "pt")]
    if prop == "C35": runs = ["ub:" + d for d in ("spl", "mbseq", "opt", "fmt", "pt")]
    if not runs: sys.exit("unknown property " + prop)
    parts = []; rc = 0
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:quarantine_size_mb=16:allocator_may_return_null=1" + (":detect_stack_use_after_return=1" if prop == "C35" else ""),
               UBSAN_OPTIONS="print_stacktrace=1")
    for k, r in enumerate(runs):
        # several drivers share the time of one quick run
        lim = LIMIT[tier] if tier != "quick" or len(runs) < 3 else max(20, min(140, int((680 - (time.time() - t0)) / (len(runs) - k))))
        b = vbuild.mc_binary() if r == "mc" else vbuild.seq_binary(r[3:], True) if r[:3] == "ub:" else vbuild.seq_binary(r[3:]) if r[:3] == "lk:" else vbuild.seq_binary(SEQ[prop])
        out = os.path.join(tmp, "%s.%s.%d.json" % (prop, r.replace(":", "-"), os.getpid()))
        p = subprocess.run([b, "--prop", prop, "--tier", tier, "--out", out, "--dir", rep, "--limit", str(lim), "--jobs", "8"], env=env)
        if os.path.exists(out):
            parts.append(json.load(open(out))); os.remove(out)
        if p.returncode:
            rc = p.returncode if p.returncode == 1 else 2
            break
    vbuild.prune()
    if parts:
        t = ev + ".tmp"
        json.dump(merge(parts, prop, tier, t0), open(t, "w"), indent=1); os.replace(t, ev)
    sys.exit(rc)
main()
