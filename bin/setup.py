#!/usr/bin/env python3
"""Checks the tools and builds everything once."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from specs import SPECS
for t in ("gcc", "g++", "clang", "nasm", "valgrind"):
    if not shutil.which(t):
        print("missing tool: %s" % t)
        sys.exit(1)
libs = sorted({v for s in SPECS.values() for st in s["stages"] for v in st["libs"]})
mons = sorted({(st["src"], st.get("kind", "plain")) for s in SPECS.values() for st in s["stages"]})
L, M, X, notes = build.build_all(libs, mons, True, True)
print("%d library variants, %d monitors, 32-bit worker %s" % (len(L), len(M), "built" if X else "not available"))
for n in notes:
    print(n)
