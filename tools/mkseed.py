#!/usr/bin/env python3
"""development helper: plant a bug.  usage from a script:
   from mkseed import seed; seed(id, prop, needs, breaks, [(path, old, new)], demo_cpp, extra={name: text})
Works in the scratch worktree /tmp/wt of /repo; writes /verif/seeded/<id>/ and says what demo and check do with it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
DEMO = r'''#!/bin/bash
# builds and runs demo.cpp against the libraries of the build; exit 0 = behaviour correct
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B="$R/_build"
INC="-I$R/bland/bland/include -I$R/bland/bland/internal/include -I$R/bland/bland -I$R/bland/external/dlpack -I$R/bland/external/dlpack/include -I$R/bliss -I$R/bliss/drift_search -I$R/bliss/file_types"
for d in "$R"/bliss/*/include "$B"/bliss/* "$B"/bland/* "$B/bland/bland/include"; do [ -d "$d" ] && INC="$INC -I$d"; done
g++ -std=gnu++17 -O1 -w -DFMT_DEPRECATED_OSTREAM -DBLISS_USE_CAPNP=1 $INC -isystem /usr/include/hdf5/serial "$D/demo.cpp" -o "$T/demo" \
  -Wl,--start-group $(find "$B/bland" "$B/bliss" -name 'lib*.a' ! -name '*nanobind*') -Wl,--end-group \
  -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lfftw3f -lcapnp -lkj -lfmt -lpthread -ldl -lz || exit 99
cd "$T" && timeout 200 ./demo
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def wt():
    if not os.path.isdir(WT):
        sh(f"git -C /repo worktree prune; git -C /repo worktree add --detach {WT} HEAD")
    sh(f"git -C {WT} checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C {WT} checkout -q -- .")

def seed(id, prop, needs, breaks, edits, demo=None, demo_sh=None, extra=None, check=True):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    wt()
    for path, old, new, *nth in edits:
        p = f"{WT}/{path}"
        t = open(p).read()
        if nth:  # the nth of several places
            parts = t.split(old)
            assert len(parts) > nth[0] + 1, (path, len(parts), old)
            t = old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])
        else:
            assert t.count(old) == 1, (path, t.count(old), old)
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = sh(f"git -C {WT} diff").stdout
    # changed lines must be original ones
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[-1]
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.sh", "w").write(demo_sh or DEMO)
    if demo:
        open(f"{d}/demo.cpp", "w").write(demo)
    for k, v in (extra or {}).items():
        open(f"{d}/{k}", "w").write(v)
    if check:
        verify(id, prop)

def blame_ok(id):
    """every removed line must be in the original commit"""
    d = open(f"{V}/seeded/{id}/patch.diff").read()
    import re
    bad = []
    f = None; ln = 0
    for l in d.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: ln = int(m.group(1)) - 1; continue
        if l.startswith("-") and not l.startswith("---"):
            ln += 1
            b = sh(f"git -C /repo blame -s -L{ln},{ln} HEAD -- {f}").stdout
            if not b.startswith("^"): bad.append(b.strip())
        elif l.startswith(" "): ln += 1
    return bad

def verify(id, prop=None):
    d = f"{V}/seeded/{id}"
    prop = prop or json.load(open(f"{d}/meta.json"))["property"]
    print(f"== {id} ({prop})", "NEW-LINES-TOUCHED %s" % blame_ok(id) if blame_ok(id) else "", flush=True)
    wt()
    env = dict(os.environ, VERIF_REPO=WT, VERIF_BUILD="/tmp/wtb")
    r = sh(f"git -C {WT} apply {d}/patch.diff")
    assert r.returncode == 0, r.stderr
    demo_here = os.path.exists(f"{d}/demo.cpp")
    if demo_here:
        sh(f"python3 {V}/tools/demo_local.py {d} /tmp/wtb 1", env=env)
        r = sh(f"python3 {V}/tools/demo_local.py {d} /tmp/wtb 1", env=env)
        print("  demo with patch rc", r.returncode, (r.stdout + r.stderr)[-300:].strip().replace("\n", " | "), flush=True)
    r = sh(f"python3 {V}/checks/run.py {prop}", env=dict(env, VERIF_OUT="/tmp/wtb"))
    print("  check rc", r.returncode, (r.stdout)[:700].replace("\n", "\n    "), r.stderr[-800:] if r.returncode not in (0, 1) else "", flush=True)
    sh(f"git -C {WT} checkout -q -- .")
    if demo_here:
        r = sh(f"cd /repo && bash {d}/demo.sh")
        print("  demo unpatched rc", r.returncode, (r.stdout + r.stderr)[-300:].strip().replace("\n", " | ") if r.returncode else "", flush=True)

if __name__ == "__main__":
    for i in sys.argv[1:]:
        verify(i)
