#!/usr/bin/env python3
"""checks/run.py PROPERTY [--tier quick|thorough] [--seed N] [--only CASE]

Builds the harness for one property from /repo's current tree, runs it under the sanitizers, judges every report of the
oracles and of the sanitizers against known_findings.txt, rewrites evidence/<PROPERTY>.json.
exit 0: held on everything explored.  exit 1 + VIOLATION line: broken.  exit 2: the check itself failed.
"""
import argparse, fnmatch, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import build as B

HARN = os.path.join(VERIF, "harness")
OUTROOT = os.environ.get("VERIF_OUT", VERIF)
from specs import SPECS  # noqa


def san_env(spec, leaks=False, reuse=False):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ":".join([
        "exitcode=77", "abort_on_error=0", "detect_leaks=%d" % (1 if leaks else 0), "max_malloc_fill_size=1000000000",
        "malloc_fill_byte=190", "detect_stack_use_after_return=1", "strict_init_order=1", "handle_abort=1",
        "allocator_may_return_null=1", "print_summary=1", "max_allocation_size_mb=4096",
        "detect_container_overflow=1", "hard_rss_limit_mb=6000"] + spec.get("asan", [])
        # some shards give freed memory back at once, so that new arrays come to lie where old ones did
        + (["quarantine_size_mb=0", "thread_local_quarantine_size_kb=0"] if reuse else []))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=78:halt_on_error=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:history_size=5:second_deadlock_stack=1" + spec.get("tsan", "")
    e["LSAN_OPTIONS"] = "exitcode=79:print_suppressions=0"
    e["BLAND_LOG_LEVEL"] = "off"
    if spec.get("py") and not os.environ.get("VERIF_VARIANT"):
        lib = lambda n: subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
        e["LD_PRELOAD"] = lib("libasan.so") + " " + lib("libstdc++.so")
        e["PYTHONMALLOC"] = "malloc"
    e["OMP_NUM_THREADS"] = "1"
    e.update(spec.get("env", {}))
    if spec.get("scale") and os.environ.get("VERIF_TIER_NOW") != "thorough":
        e.setdefault("VERIF_SCALE", str(spec["scale"]))  # more quick cases than the harness asks for by itself
    return e


def read_shm(path):
    try:
        d = open(path, "rb").read()
        case_no, evals = struct.unpack_from("<QQ", d, 0)
        desc = d[16:16 + 4096].split(b"\0", 1)[0].decode("utf8", "replace")
        return case_no, evals, desc
    except Exception:
        return 0, 0, "?"


def crash_key(err, rc):
    """(kind, function): kind of sanitizer report and the innermost /repo function on its stack"""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if not kind and m2:
        kind = "ubsan-" + re.sub(r"[0-9xa-f-]*[0-9][0-9a-fx.e+-]*", "N", m2.group(1))[:80].replace(" ", "_")
    if "VH-HANG" in err:
        kind = "hang"
    if not kind:
        if rc < 0:
            kind = "signal-%d" % -rc
        elif "terminate called" in err:
            kind = "terminate"
        else:
            kind = "exit-%d" % rc
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", err)
    if m:
        kind = "tsan-" + m.group(1).strip().replace(" ", "_")
        for m in re.finditer(r"#\d+ (.+?) (/\S+?):(\d+)", err[m.start():]):
            if m.group(2).startswith(B.REPO + "/"):
                fn = re.sub(r"\(.*", "", re.sub(r"<.*", "", m.group(1))).strip()
                return "%s:%s@%s" % (kind, fn.split("::")[-1], os.path.basename(m.group(2)))
        return kind + ":"
    fn = ""
    # innermost frame whose source lies in the repository
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", err):
        if m.group(2).startswith(B.REPO + "/"):
            fn = re.sub(r"\(.*", "", re.sub(r"<.*", "", m.group(1))).strip()
            fn = fn.split("::")[-1] + "@" + os.path.basename(m.group(2))
            break
    return "%s:%s" % (kind, fn)


HUNG = threading.Event()  # one hang, seen twice, is enough: the other shards need not hang as well


def run_shard(spec, exe, prop, tier, seed, work, shard, nshard, only, wall):
    """run one shard; on a crash record it and continue behind the crashing case"""
    outs, fails = [], []
    start, crashes = 0, 0
    out = os.path.join(work, f"out{shard}.json")
    shm = os.path.join(work, f"shm{shard}")
    scratch = os.path.join(work, f"scratch{shard}")
    inconclusive = None
    extra_evals = 0
    t0 = time.time()
    while True:
        if os.path.exists(out):
            os.unlink(out)
        os.makedirs(scratch, exist_ok=True)
        with open(shm, "wb") as f:
            f.write(b"\0" * 8192)
        cmd = (exe if isinstance(exe, list) else [exe]) + [prop, tier, str(seed), out, shm, scratch, "--shard", str(shard), "--nshard", str(nshard),
               "--start", str(start)]
        if only is not None:
            cmd += ["--only", str(only)]
        errf = os.path.join(work, f"err{shard}.{crashes}")
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=san_env(spec, reuse=nshard >= 4 and shard % 4 == 3), cwd=scratch,
                                 start_new_session=True)
            try:
                while True:
                    try:
                        rc = p.wait(timeout=1)
                        break
                    except subprocess.TimeoutExpired:
                        if HUNG.is_set() or time.time() - t0 > wall:
                            raise
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                if HUNG.is_set():
                    break
                inconclusive = "shard %d ran out of its wall-clock budget at case %s" % (shard, read_shm(shm))
                break
        err = open(errf, "rb").read().decode("utf8", "replace")
        if rc == 0 and os.path.exists(out):
            outs.append(json.load(open(out)))
            break
        if rc == 2:
            inconclusive = "harness error: " + err[-2000:]
            break
        case_no, evals, desc = read_shm(shm)
        extra_evals += evals
        key = crash_key(err, rc)
        if key.startswith("exit-") and "ThreadSanitizer" not in err:
            inconclusive = f"unexplained exit {rc}: " + err[-2000:]
            break
        if rc == -9 and "hard rss limit" not in err:
            inconclusive = "killed (out of memory?) at case %d %s" % (case_no, desc)
            break
        if key.startswith("hang") and only is None:
            # a hang is only reported when the case hangs again on its own
            p = subprocess.run((exe if isinstance(exe, list) else [exe]) + [prop, tier, str(seed), out + ".h", shm + ".h", scratch, "--only", str(case_no)],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=san_env(spec), cwd=scratch)
            if p.returncode == 0:
                start = case_no + 1
                continue
            HUNG.set()
        fails.append({"key": key, "case": case_no, "desc": desc, "detail": err[-6000:]})
        crashes += 1
        start = case_no + 1
        if crashes >= 12 or only is not None or HUNG.is_set():
            break
    shutil.rmtree(scratch, ignore_errors=True)
    return outs, fails, inconclusive, extra_evals


def load_known():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
            if m:
                res.append(m.groups())
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", type=int)
    ap.add_argument("--shards", type=int)
    a = ap.parse_args()
    prop = a.property
    spec = SPECS[prop]
    os.environ["VERIF_TIER_NOW"] = a.tier
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vh-{prop}-", dir=os.environ.get("TMPDIR", "/tmp"))
    wall = 800 if a.tier == "quick" else 6 * 3600
    try:
        if spec.get("driver"):
            # property decided from outside the process (command line, Python bindings, thread sanitizer)
            mod = __import__(spec["driver"])
            res = mod.run(prop, a.tier, a.seed, work, san_env(spec), crash_key)
            outs, fails, inconc, extra = res["outs"], res["fails"], res.get("inconclusive"), 0
            inconcs = [inconc] if inconc else []
        else:
            targets = {spec["prog"]: [os.path.join(HARN, s) for s in spec["srcs"]]}
            for t in spec.get("tools", ()):  # programs of the repository itself
                targets[t] = [os.path.join(B.REPO, "bliss", t + ".cpp")]
            if spec.get("py"):
                targets.update(B.py_targets())
            exe = B.build(os.environ.get("VERIF_VARIANT") or spec.get("variant", "asan"), targets, need=spec.get("need", ("bland", "bliss")), verbose=True)[spec["prog"]]
            os.environ["VERIF_BIN_DIR"] = os.path.dirname(exe)
            if spec.get("py"):
                exe = ["/opt/veriftools/pyvenv/bin/python3", os.path.join(HARN, spec["py"])]
            n = 1 if a.only is not None else (a.shards or spec.get("shards", 8))
            outs, fails, inconcs, extra = [], [], [], 0
            with ThreadPoolExecutor(n) as ex:
                rs = list(ex.map(lambda i: run_shard(spec, exe, prop, a.tier, a.seed, work, i, n, a.only,
                                                     wall - (time.time() - t0)), range(n)))
            for o, f, i, e in rs:
                outs += o
                fails += f
                extra += e
                if i:
                    inconcs.append(i)
    except B.BuildError as e:
        print("BUILD FAILED", str(e)[-8000:], file=sys.stderr)
        print(f"INCONCLUSIVE property={prop}: harness does not build against this tree")
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)

    evals, counts, distinct, samples, rule = extra, {}, set(), [], ""
    for o in outs:
        evals += o["evaluations"]
        for k, v in o["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
        distinct.update(o.get("hashes", []))
        samples += o["samples"]
        rule = o["rule"] or rule
        fails += o["fails"]
    known = load_known()
    viol, kf = [], {}
    for f in fails:
        hit = None
        for p, key, what in known:
            if p == prop and fnmatch.fnmatchcase(f["key"], key):
                hit = (p, key, what)
        if hit:
            kf.setdefault(hit, f)
        else:
            viol.append(f)
    rdir = os.path.join(OUTROOT, "out", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    seen = {}
    for f in viol:
        seen.setdefault(f["key"], f)
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": rule, "samples": samples[:6],
                       "observed": dict(sorted(counts.items())), "known_findings_seen": [k[1] for k in kf],
                       "violating_keys": sorted(seen)[:40]},
          "assumptions": spec.get("assume", []), "violations": len(seen), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(OUTROOT, "evidence"), exist_ok=True)
    with open(os.path.join(OUTROOT, "evidence", prop + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    for (p, key, what), f in kf.items():
        print(f"KNOWN-FINDING: property={p} key={key} {what}")
    if seen:
        os.makedirs(rdir, exist_ok=True)
        for i, (k, f) in enumerate(sorted(seen.items(), key=lambda kv: kv[1]["case"])):
            path = os.path.join(rdir, f"replay{i}.json")
            with open(path, "w") as fo:
                json.dump({"property": prop, "key": k, "case": f["case"], "seed": a.seed, "tier": a.tier,
                           "desc": f["desc"], "detail": f["detail"],
                           "replay": f"python3 checks/run.py {prop} --tier {a.tier} --seed {a.seed} --only {f['case']}"},
                          fo, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  key={k} case={f['case']}: {f['desc'][:700]}")
            print("  " + f["detail"][-1200:].replace("\n", "\n  "))
            if i >= 9:
                break
        return 1
    if inconcs:
        print(f"INCONCLUSIVE property={prop}: " + "; ".join(inconcs)[:3000])
        return 2
    if a.only is None and (evals < spec.get("min_evals", 20) or len(distinct) < spec.get("min_distinct", 5)):
        print(f"INCONCLUSIVE property={prop}: observed too little ({evals} evaluations, {len(distinct)} distinct)")
        return 2
    print(f"OK property={prop} tier={a.tier} seed={a.seed} evaluations={evals} distinct={len(distinct)} "
          f"checks={counts.get('oracle_checks', 0)} wall={time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
