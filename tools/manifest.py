#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQT = "bounded-exhaustive enumeration of %s on the real code, each execution compared step by step with a reference model"
SEQN = "Every execution of the stated bounded space of %s is run on the compiled library (AddressSanitizer, libstdc++ assertions); exhaustive within the bounds listed in the evidence. Trusts the reference model in seq/%s.cpp, gcc, libstdc++%s; says nothing beyond the alphabets and bounds."
MCT = "stateless model checking of the real code: all thread interleavings, timeouts and wake-ups of bounded programs under a controlled scheduler, with partial-order state caching%s"
MCN = "Every interleaving (no preemption bound) of the programs listed in the evidence is executed on the compiled library code under our scheduler, with virtual time%s; trusts mc/rt.cpp, gcc's instrumentation and the oracle in mc/scen.cpp, and assumes sequential consistency (which the race monitor justifies for code free of races)."
kind = {}
for p in range(13, 21): kind[p] = ("operation sequences and arguments of Format", "fmt", "")
for p in range(21, 28): kind[p] = ("command lines and parser set-ups of Options", "opt", "")
for p in (28, 29): kind[p] = ("strings", "spl", "")
for p in range(30, 35): kind[p] = ("YAML documents, paths and load sequences", "pt", ", yaml-cpp")
mcp = {}
if os.path.exists(V + "/mc/scen.cpp"):
    for p in list(range(1, 13)) + [40]: mcp[p] = ""
mbk = {5, 7, 8, 9, 10}
if os.path.exists(V + "/seq/indep.cpp"): mbk.add(12)
kind[36] = ("failing calls", "exc", ", yaml-cpp")
kind[38] = ("operations in prepared surroundings (stream state, locale, errno, directory, signals, read-only arguments)", "env", ", yaml-cpp")
kind[39] = ("operations in which every allocation in turn, or every call of the caller's own code, fails", "flt", ", yaml-cpp")
checks = []
for p in range(1, 41):
    i = "C%02d" % p
    if p == 35:
        t = "bounded-exhaustive enumeration of operation sequences and arguments on the real code under address and undefined-behaviour monitors"
        n = "Every execution of the bounded spaces listed in the evidence is run on the compiled library with AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and pattern-initialised locals; a crash, report or hang is a violation. Exhaustive within the bounds; trusts the monitors of gcc 13; vptr checks and unsigned wrap-around are not included, threads are C11's subject."
    elif p == 37:
        t = "bounded-exhaustive enumeration of operation sequences and arguments on the real code, each execution re-run under an exact count of live heap bytes and open descriptors"
        n = "Every execution of the bounded spaces listed in the evidence is run again on the compiled library until it has run four times or left nothing behind; memory or a file descriptor kept by every re-run is a violation, so caches filled once are not. Exhaustive within the bounds (a space cut by the time limit says so); trusts AddressSanitizer's count of live bytes. What a long-lived object keeps until its destruction is not bounded by this check."
    elif p in kind:
        w, d, x = kind[p]; t = SEQT % w; n = SEQN % (w, d, x)
    elif p in mcp:
        both = p in mbk
        t = MCT % ("; plus bounded-exhaustive operation sequences against a reference model" if both else "")
        n = MCN % ("")
        if both: n += " In addition every operation sequence up to a depth is compared with a reference model (seq/%s.cpp, AddressSanitizer)." % ("indep" if p == 12 else "mbseq")
    elif p in mbk:
        w = "operation sequences of MailBox"; t = SEQT % w; n = SEQN % (w, "mbseq", "")
    else: continue
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                   "technique": t, "level": "model_checking", "level_note": n})
done = {c["property"] for c in checks}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "the check for this property is still being built"} for i in ids if i not in done],
     "notes": "No hooks in /repo: instrumentation is done by the compiler and by link-time interposition."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
