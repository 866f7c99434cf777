#!/usr/bin/env python3
"""tools/coverage.py DIR [PROPERTY...]: which lines of the repository the checks' workloads execute.

Builds everything once more with coverage counters in DIR, runs the quick checks there (their verdicts do not matter),
and lists, per source file, the functions and lines nothing executed.  Not a check; it shows where reach is missing.
"""
import collections, glob, gzip, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from specs import SPECS
d = os.path.abspath(sys.argv[1])
repo = os.environ.get("VERIF_REPO", "/repo")
props = sys.argv[2:] or [p for p in SPECS if p not in ("B12",)]
env = dict(os.environ, VERIF_BUILD=d + "/b", VERIF_OUT=d + "/o", VERIF_VARIANT="cov", VERIF_REPO=repo)
if "-" not in props:
    for p in props:
        r = subprocess.run(["python3", V + "/checks/run.py", p], env=env, capture_output=True, text=True)
        print(p, r.returncode, (r.stdout.strip().split("\n") or [""])[-1][:150], flush=True)
lines, funcs = collections.defaultdict(collections.Counter), collections.defaultdict(dict)
work = d + "/g"
os.makedirs(work, exist_ok=True)
for g in glob.glob(d + "/b/**/*.gcda", recursive=True):
    r = subprocess.run(["gcov", "--json-format", "--stdout", g], cwd=work, capture_output=True)
    for doc in r.stdout.split(b"\n"):
        if not doc.strip():
            continue
        for f in json.loads(doc)["files"]:
            if not f["file"].startswith(repo + "/"):
                continue
            n = os.path.relpath(f["file"], repo)
            for l in f["lines"]:
                lines[n][l["line_number"]] += l["count"]
            for x in f["functions"]:
                k = (x["start_line"], x["demangled_name"].split("(")[0].split("<")[0])
                funcs[n][k] = funcs[n].get(k, 0) + x["execution_count"]
tot = hit = 0
for n in sorted(lines):
    c = lines[n]
    t, h = len(c), sum(1 for v in c.values() if v)
    tot, hit = tot + t, hit + h
    print(f"{n}: {h}/{t}")
    miss = [str(k[0]) + " " + k[1] for k, v in sorted(funcs[n].items()) if not v]
    if miss:
        print("   functions:", "; ".join(miss))
    if h < t:
        print("   lines:", " ".join(str(k) for k in sorted(c) if not c[k]))
print("total", hit, "of", tot)
