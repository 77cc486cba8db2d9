#!/usr/bin/env python3
"""Build every driver once, so that the checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
for d in ("fmt", "opt", "spl", "pt", "mbseq", "exc", "env", "flt", "indep"):
    if os.path.exists(os.path.join(vbuild.VERIF, "seq", d + ".cpp")): print(vbuild.seq_binary(d))
for d in ("spl", "mbseq", "opt", "fmt", "pt"): print(vbuild.seq_binary(d, True))
if os.path.exists(os.path.join(vbuild.VERIF, "mc", "scen.cpp")): print(vbuild.mc_binary())
