#!/usr/bin/env python3
"""Out-of-tree sanitizer builds of /repo's current working tree.

Objects are cached in /verif/build/<variant> and reused only when the compile command and the *contents* of every file
the object was compiled from (as listed by the compiler) are unchanged, so neither mtimes nor copies of the sandbox
matter.  Nothing is ever written under /repo.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

COMMON = ["-std=gnu++17", "-fPIC", "-g1", "-DNDEBUG", "-DFMT_DEPRECATED_OSTREAM",
          "-DBLISS_USE_CAPNP=1", "-DHDF_NO_NAMESPACE", "-DNO_STATIC_CAST", "-DOLD_HEADER_FILENAME", "-w",
          "-fno-omit-frame-pointer"]
VARIANTS = {
    # the main build: every access, cast and arithmetic step of the real code is watched
    "asan": (["-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined",
              "-fsanitize-recover=float-divide-by-zero"],
             ["-fsanitize=address,undefined"]),
    "tsan": (["-fsanitize=thread"], ["-fsanitize=thread"]),
    "plain": (["-g"], []),
    "cov": (["--coverage", "-fprofile-update=atomic"], ["--coverage"]),  # tools/coverage.py
    # for workloads over billions of elements
    "big": (["-O2", "-fsanitize=signed-integer-overflow", "-fno-sanitize-recover=undefined"], ["-fsanitize=undefined"]),
}


# -O0 keeps the optimiser from removing the accesses the sanitizers watch and builds in a fraction of the time; the few
# files whose loops dominate the running time of the workloads are optimised
HOT = ("drift_integration", "connected_components", "local_maxima_cpu", "event_search", "noise_estimate")


def optflag(variant, src):
    if variant == "big":
        return "-O2"
    return "-O1" if any(h in os.path.basename(src) for h in HOT) else "-O0"


class BuildError(Exception):
    pass


def sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha1(f.read()).hexdigest()
    return memo[k]


def cfiles(*dirs):
    out = []
    for d in dirs:
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            out += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".cpp"))
    return out


def rglob(root, skip=()):
    out = []
    for dp, dn, fn in os.walk(os.path.join(REPO, root)):
        dn[:] = sorted(d for d in dn if d not in ("tests", "python", "cuda", "external", "demo", "demos", "examples",
                                                  "benchmarks", "fuzz", "fixtures"))
        out += [os.path.join(dp, f) for f in sorted(fn) if f.endswith(".cpp")]
    return [p for p in out if os.path.basename(p) not in skip]


def bland_sources():
    return rglob("bland/bland", skip=("demo.cpp",))


def bliss_sources():
    top = os.path.join(REPO, "bliss")
    return [p for p in rglob("bliss") if os.path.dirname(p) != top]


def includes():
    inc = [os.path.join(BUILD, "gen")]
    inc += [f"{REPO}/bland/bland/include", f"{REPO}/bland/bland/internal/include", f"{REPO}/bland/bland",
            f"{REPO}/bland/external/dlpack", f"{REPO}/bland/external/dlpack/include"]
    b = f"{REPO}/bliss"
    for d in sorted(os.listdir(b)):
        if os.path.isdir(f"{b}/{d}/include"):
            inc.append(f"{b}/{d}/include")
    inc += [b, f"{b}/file_types", f"{REPO}/bliss/drift_search", f"{VERIF}/harness"]
    return ["-I" + i for i in inc if i.startswith(BUILD) or os.path.isdir(i)] + ["-isystem", "/usr/include/hdf5/serial"]


def generate():
    """what cmake would configure: the CUDA arch list and the Cap'n Proto code"""
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen + "/generated", exist_ok=True)
    def put(path, text):
        try:
            if open(path).read() == text:
                return
        except OSError:
            pass
        with open(path, "w") as f:
            f.write(text)
    put(gen + "/generated/bland_cuda_archs.hpp",
        "#pragma once\n#include <array>\nconstexpr std::array<int, 0> compiled_archs = {};\n")
    schema = f"{REPO}/bliss/file_types/hit.capnp"
    stamp = os.path.join(gen, "hit.stamp")
    want = sha(schema)
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        r = subprocess.run(["capnp", "compile", f"-oc++:{gen}", f"--src-prefix={os.path.dirname(schema)}", schema],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("capnp compile failed\n" + r.stderr)
        with open(stamp, "w") as f:
            f.write(want)
    return os.path.join(gen, "hit.capnp.c++")


def parse_dep(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [p for p in txt.split() if not p.startswith(("/usr/include", "/usr/lib"))]


def compile_one(cmd, src, obj):
    """cached compile; returns (obj, rebuilt)"""
    man = obj + ".json"
    cmdkey = hashlib.sha1(" ".join(cmd + [src]).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if m["cmd"] == cmdkey and all(sha(p) == h for p, h in m["deps"].items()):
                return obj, False
        except Exception:
            pass
    if os.path.exists(man):
        os.unlink(man)
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj + ".tmp"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"compile failed: {src}\n" + r.stderr[-6000:])
    os.replace(obj + ".tmp", obj)
    deps = {p: sha(p) for p in parse_dep(dep)}
    with open(man + ".tmp", "w") as f:
        json.dump({"cmd": cmdkey, "deps": deps}, f)
    os.replace(man + ".tmp", man)
    return obj, True


LIBS = ["-lhdf5_cpp", "-lhdf5", "-lfftw3f", "-lcapnp", "-lkj", "-lfmt", "-lpthread", "-ldl", "-lz"]
LIBDIRS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial"]


NB = "/opt/vp/deps/python/nanobind"
NB_FLAGS = ["-fvisibility=hidden", "-fno-strict-aliasing", f"-I{NB}/include", f"-I{NB}/ext/robin_map/include", "-I/usr/include/python3.12"]


def nb_sources():
    return sorted(os.path.join(NB, "src", f) for f in os.listdir(NB + "/src") if f.endswith(".cpp") and f not in ("nb_combined.cpp",))


def py_targets():
    """the Python extension modules, as the repository's cmake would build them, from the current tree"""
    return {"py/pybland.so": [f"{REPO}/bland/python/pybland.cpp"] + nb_sources(),
            "py/pybliss.so": [f"{REPO}/bliss/python/pybliss.cpp"] + nb_sources()}


def objname(d, src):
    base = os.path.relpath(src, "/").replace("/", "__")
    return os.path.join(d, base + ".o")


def build(variant, targets, need=("bland", "bliss"), extra_srcs=(), verbose=False):
    """targets: {program name: [harness sources]}.  Returns {name: path}."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        capnp_src = generate()
        cflags, lflags = VARIANTS[variant]
        odir = os.path.join(BUILD, variant)
        os.makedirs(odir, exist_ok=True)
        cmd = ["g++"] + COMMON + cflags + includes()
        pyflags = NB_FLAGS + [f"-I{REPO}/bland/python"]
        flags_of = lambda src: pyflags if src.startswith(NB) or "/python/" in src else []
        lib = []
        if "bland" in need:
            lib += bland_sources()
        if "bliss" in need:
            lib += bliss_sources() + [capnp_src]
        jobs = {}
        for s in lib:
            jobs[s] = objname(odir, s)
        for name, srcs in targets.items():
            for s in srcs:
                jobs[s] = objname(odir, s)
        # biggest files first, they dominate the critical path
        prio = lambda s: (-(10**9) if "statistical_cpu" in s or "arithmetic" in s or "comparison_cpu" in s else 0) - (os.path.getsize(s) if os.path.exists(s) else 0)
        rebuilt = 0
        errs = []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            fs = {ex.submit(compile_one, cmd + [optflag(variant, s)] + flags_of(s), s, jobs[s]): s for s in sorted(jobs, key=prio)}
            for f in concurrent.futures.as_completed(fs):
                try:
                    _, r = f.result()
                    rebuilt += r
                except BuildError as e:
                    errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs))
        out = {}
        for name, srcs in targets.items():
            objs = [jobs[s] for s in srcs] + [jobs[s] for s in lib]
            exe = os.path.join(odir, name)
            key = hashlib.sha1(json.dumps([[o, sha(o)] for o in objs] + lflags).encode()).hexdigest()
            keyf = exe + ".key"
            if not (os.path.exists(exe) and os.path.exists(keyf) and open(keyf).read() == key):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                shared = ["-shared", "-Wl,-Bsymbolic"] if name.endswith(".so") else []
                r = subprocess.run(["g++"] + lflags + shared + ["-o", exe + ".tmp"] + objs + LIBDIRS + LIBS,
                                   capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("link failed\n" + r.stderr[-4000:])
                os.replace(exe + ".tmp", exe)
                with open(keyf, "w") as f:
                    f.write(key)
            out[name] = exe
        if verbose:
            print(f"[build] {variant}: {len(jobs)} objects, {rebuilt} rebuilt, {time.time()-t0:.1f}s", file=sys.stderr)
        return out
    finally:
        lock.close()


if __name__ == "__main__":
    v = sys.argv[1] if len(sys.argv) > 1 else "asan"
    build(v, {}, verbose=True)
