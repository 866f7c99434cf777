#!/usr/bin/env python3
"""warm the build cache: every sanitizer build the checks use"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/checks"]
import build as B
from specs import SPECS
todo = {}
for p, s in SPECS.items():
    if "prog" in s:
        todo.setdefault((s.get("variant", "asan"), tuple(s.get("need", ("bland", "bliss")))), {})[s["prog"]] = \
            [os.path.join(V, "harness", x) for x in s["srcs"]]
        if s.get("py"):
            todo[(s.get("variant", "asan"), tuple(s.get("need", ("bland", "bliss"))))].update(B.py_targets())
        for x in s.get("tools", ()):
            todo[(s.get("variant", "asan"), tuple(s.get("need", ("bland", "bliss"))))][x] = [os.path.join(B.REPO, "bliss", x + ".cpp")]
try:
    for (v, need), t in todo.items():
        B.build(v, t, need=need, verbose=True)
except B.BuildError as e:
    print("build failed (checks will report it):", str(e)[-3000:], file=sys.stderr)
