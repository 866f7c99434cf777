"""P01: the Python modules, exercised as a Python user would, against numpy and against the library called from C++"""
import copy, gc, json, os, pickle, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vhpy import H
import numpy as np

BIN = os.environ["VERIF_BIN_DIR"]
sys.path.insert(0, BIN + "/py")
import pybliss
import pybland

F32, I32, U8, U32 = np.float32, np.int32, np.uint8, np.uint32
CODE = {F32: (2, 32), I32: (0, 32), U8: (1, 8), U32: (1, 32)}
NP = {v: k for k, v in CODE.items()}


class Lib:
    """the C++ side"""
    def __init__(self):
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        self.p = subprocess.Popen([BIN + "/h_pyo"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)

    def __call__(self, cmd, **kv):
        self.p.stdin.write("\t".join([cmd] + [f"{k}={v}" for k, v in kv.items()]) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the C++ side ended: %s" % self.p.wait())
        return json.loads(line)


lib = None


def refused(f, kinds=(Exception,)):
    try:
        f()
    except kinds:
        return True
    return False


def val(x):
    """a bland array as numpy, by the protocol numpy users use"""
    return np.from_dlpack(x)


def churn(r):
    """give freed memory to somebody else"""
    junk = [np.full(r.randint(1, 3000), 0x5A, U8) for _ in range(20)]
    junk += [bytes(r.randint(1, 2000)) for _ in range(20)]
    del junk
    if r.random() < 0.2:
        gc.collect()


def rand_np(r, dt, shape, small=True):
    n = int(np.prod(shape, dtype=np.int64))
    if dt is F32:
        a = np.array([r.uniform(-50, 50) if r.random() < 0.8 else float(r.randint(-5, 5)) for _ in range(n)], F32)
    elif dt is I32:
        a = np.array([r.randint(-1000, 1000) for _ in range(n)], I32)
    elif dt is U8:
        a = np.array([r.randint(0, 12) for _ in range(n)], U8)
    else:
        a = np.array([r.randint(0, 1000) for _ in range(n)], U32)
    return a.reshape(shape)


def layout(r, a):
    """the same values behind different strides; returns (array, name)"""
    k = r.choice(["c", "c", "f", "step", "neg", "inner", "swap", "bcast", "off"])
    if k == "f":
        return np.asfortranarray(a), k
    if k == "swap" and a.ndim >= 2:
        return np.ascontiguousarray(a.swapaxes(0, -1)).swapaxes(0, -1), k
    if k == "step" and a.ndim:
        big = np.full([s * 2 + 1 for s in a.shape], 77, a.dtype)
        v = big[tuple(slice(1, 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v, k
    if k == "neg" and a.ndim:
        v = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
        return v[tuple(slice(None, None, -1) for _ in a.shape)], k
    if k == "inner" and a.ndim:
        big = np.full([s + 3 for s in a.shape], 99, a.dtype)
        v = big[tuple(slice(2, 2 + s) for s in a.shape)]
        v[...] = a
        return v, k
    if k == "bcast" and a.ndim >= 2:
        return np.lib.stride_tricks.as_strided(np.ascontiguousarray(a[:1]), a.shape, (0,) + np.ascontiguousarray(a[:1]).strides[1:]), k
    if k == "off":
        flat = np.empty(a.size + 5, a.dtype)
        v = flat[3:3 + a.size].reshape(a.shape)
        v[...] = a
        return v, k
    return np.ascontiguousarray(a), "c"


def rand_shape(r, lo=1, hi=4):
    nd = r.randint(lo, hi)
    return tuple(r.choice([1, 2, 3, 4, 5, 7, 16]) if nd > 2 else r.choice([1, 2, 3, 8, 17, 33, 64]) for _ in range(nd))


def close(got, want, rel=2e-6, abs_=1e-6):
    got, want = np.asarray(got, np.float64), np.asarray(want, np.float64)
    if got.shape != want.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (np.abs(got - want) <= abs_ + rel * np.abs(want)) | (got == want) | (np.isnan(got) & np.isnan(want))
    return bool(np.all(ok))


def eq(got, want):
    """dtype, shape and every bit"""
    return got.dtype == want.dtype and got.shape == want.shape and got.tobytes() == np.ascontiguousarray(want).tobytes()


def meta_ok(h, k, x, want):
    """what the bland object says about itself"""
    sh = list(want.shape)
    h.check(x.shape() == sh, k + "-shape", lambda: f"{x.shape()} expected {sh}")
    h.check(x.ndim() == len(sh), k + "-ndim", lambda: x.ndim())
    h.check(x.numel() == want.size, k + "-numel", lambda: x.numel())
    h.check([x.size(i) for i in range(len(sh))] == sh, k + "-size", "")
    h.check(len(x.strides()) == len(sh) and len(x.offsets()) == len(sh), k + "-strides", lambda: (x.strides(), x.offsets()))
    c = CODE.get(want.dtype.type)
    d = x.dtype()
    h.check(c is None or (d.code, d.bits, d.lanes) == (*c, 1), k + "-dtype", lambda: f"{d} expected {want.dtype}")
    h.check(x.device().device_id == 0, k + "-device", lambda: str(x.device()))


# ------------------------------------------------------------------ arrays: operations
def scalar_for(r, dt, op):
    if dt is F32:
        k = r.randint(0, 3)
        s = [r.randint(0, 255), r.randint(256, 70000), -r.randint(1, 1000), round(r.uniform(-20, 20), 3)][k]
        return s
    if dt is I32:
        return r.choice([r.randint(0, 255), r.randint(256, 9000), -r.randint(1, 900)]) if op in ("multiply",) else r.randint(-1000, 1000)
    return r.randint(0, 12)


def ops(h):
    r = h.rng
    b = r.choice([pybland, pybliss.bland])
    shape = rand_shape(r)
    dt = r.choice([F32, F32, I32, U8, U32])
    a0 = rand_np(r, dt, shape)
    a, la = layout(r, a0)
    a0 = np.array(a)  # a broadcast layout changes the values
    op = r.choice(["add", "subtract", "multiply", "divide", "add_s", "subtract_s", "multiply_s", "less_than", "greater_than", "square", "max", "sum", "mean", "stddev", "var",
                   "mean_stddev", "masked_mean", "masked_stddev", "masked_mean_stddev", "standardized_moment", "slice", "median"])
    stat = op in ("max", "sum", "mean", "stddev", "var", "mean_stddev", "masked_mean", "masked_stddev", "masked_mean_stddev", "standardized_moment", "median")
    if stat and op not in ("max", "sum") and dt is not F32:
        dt = F32
        a, la = layout(r, rand_np(r, F32, shape))
        a0 = np.array(a)
    axes = sorted(r.sample(range(len(shape)), r.randint(0, len(shape)))) if op != "median" else []
    if op == "standardized_moment":
        axes = []
    ax = tuple(axes) if axes else tuple(range(len(shape)))
    red = lambda f, x, **k: np.asarray(f(x, axis=ax, **k)).reshape([s for i, s in enumerate(shape) if i not in ax] or [1])
    h.describe(f"{op} {np.dtype(dt).name}{list(shape)} layout {la} axes {axes}")
    src = a0.copy()
    rel, abs_ = 3e-6, 1e-6 * (1 + float(np.max(np.abs(a0.astype(np.float64)), initial=0)))
    outs, wants = [], []
    if op in ("add", "subtract", "multiply", "divide"):
        bdt = dt if r.random() < 0.7 or dt is not F32 else r.choice([I32, U8, U32])
        b0 = rand_np(r, bdt, shape)
        if op == "divide":
            b0 = np.where(b0 == 0, np.array(1, bdt), b0).astype(bdt)
        bb, lb = layout(r, b0)
        b0 = np.array(bb)
        if op == "subtract" and dt in (U8, U32):
            a, b0 = np.maximum(a0, b0), np.minimum(a0, b0)
            a, la = layout(r, a)
            a0 = np.array(a)
            b0 = np.minimum(a0, b0)
            bb, lb = layout(r, b0)
            if lb == "bcast":
                bb, lb = np.ascontiguousarray(b0), "c"
            src = a0.copy()
        h.describe(h.desc + f" with {np.dtype(bdt).name} layout {lb}")
        outs = [getattr(b, op)(a, bb)]
        x, y = a0.astype(np.float64), b0.astype(np.float64)
        w = {"add": x + y, "subtract": x - y, "multiply": x * y, "divide": x / np.where(y == 0, 1, y)}[op]
        wants = [w.astype(np.int64).astype(dt) if dt is not F32 else w.astype(F32)]
        if r.random() < 0.5:
            bb = None
    elif op.endswith("_s"):
        s = scalar_for(r, dt, op[:-2])
        if op == "subtract_s" and dt in (U8, U32):
            s = 0
        h.describe(h.desc + f" scalar {s!r}")
        outs = [getattr(b, op[:-2])(a, s)]
        x = a0.astype(np.float64)
        w = {"add_s": x + s, "subtract_s": x - s, "multiply_s": x * s}[op]
        wants = [w.astype(np.int64).astype(dt) if dt is not F32 else w.astype(F32)]
    elif op in ("less_than", "greater_than"):
        s = scalar_for(r, dt, op) if dt is not I32 else r.choice([r.randint(0, 255), float(r.randint(-900, 900)), r.randint(256, 999)])
        if r.random() < 0.3 and a0.size:
            v = a0.reshape(-1)[r.randrange(a0.size)]
            s = float(v) if dt is F32 else int(v) if v >= 0 else float(v)
        if dt is U32 and r.random() < 0.4: # neighbours that single precision cannot tell apart
            base = r.choice([1 << 24, 1 << 31, (1 << 32) - 8])
            a, la = layout(r, np.array([base + r.randint(0, 7) for _ in range(a0.size)], U32).reshape(a0.shape))
            a0 = np.array(a)
            src, s = a0.copy(), base + r.randint(0, 7)
            h.count("large_unsigned_compared")
        h.describe(h.desc + f" scalar {s!r}")
        outs = [getattr(b, op)(a, s)]
        sv = np.float64(F32(s)) if isinstance(s, float) or s < 0 else s
        x = a0.astype(np.float64)
        wants = [(x < sv if op == "less_than" else x > sv).astype(U8)]
    elif op == "square":
        if dt is U8:
            a0 = np.minimum(a0, 12)
        outs, wants = [b.square(a)], [(a0.astype(np.float64) ** 2).astype(np.int64).astype(dt) if dt is not F32 else (a0.astype(np.float64) ** 2).astype(F32)]
    elif op == "slice":
        dim = r.randrange(len(shape))
        st = r.randint(0, shape[dim] - 1)
        en = r.randint(st + 1, shape[dim])
        step = r.choice([1, 1, 2, 3])
        h.describe(h.desc + f" dim {dim} {st}:{en}:{step}")
        outs = [b.slice(a, dim, st, en, step)]
        idx = [slice(None)] * len(shape)
        idx[dim] = slice(st, en, step)
        wants = [a0[tuple(idx)]]
    elif op == "median":
        got = b.median(a)
        h.check(close(got, np.median(a0.astype(np.float64)), 1e-6), "median", lambda: f"{got} expected {np.median(a0)}")
    else:
        x = a0.astype(np.float64)
        m = None
        if op.startswith("masked"):
            m0 = (np.array([r.random() < 0.3 for _ in range(a0.size)]).reshape(shape)).astype(U8) * r.choice([1, 2, 16])
            # some sample must survive in every reduced group
            for i in np.ndindex(*[1 if k in ax else s for k, s in enumerate(shape)]):
                m0[i] = 0
            m, lm = layout(r, m0)
            if lm == "bcast":
                m, lm = m0, "c"
            h.describe(h.desc + f" mask layout {lm}")
            keep = np.ma.masked_array(x, m0 != 0)
        kw = {} if not axes and r.random() < 0.5 else {"axes": axes}
        if op in ("max", "sum", "mean"):
            outs = [getattr(b, op)(a, **kw)]
            wants = [red(getattr(np, op), x)]
        elif op == "var":
            outs, wants = [b.var(a, **kw)], [red(np.var, x)]
        elif op == "stddev":
            outs, wants = [b.stddev(a, **kw)], [red(np.std, x)]
        elif op == "mean_stddev":
            outs, wants = list(b.mean_stddev(a, **kw)), [red(np.mean, x), red(np.std, x)]
        elif op == "masked_mean":
            outs, wants = [b.masked_mean(a, m, **kw)], [red(np.ma.mean, keep)]
        elif op == "masked_stddev":
            outs, wants = [b.masked_stddev(a, m, **kw)], [red(np.ma.std, keep)]
        elif op == "masked_mean_stddev":
            outs, wants = list(b.masked_mean_stddev(a, m, **kw)), [red(np.ma.mean, keep), red(np.ma.std, keep)]
        else:
            deg = r.randint(2, 4)
            sd = np.std(x)
            if sd > 1e-3:
                outs, wants = [b.standardized_moment(a, deg, **kw)], [np.array([np.sum((x - np.mean(x)) ** deg) / (x.size - 1) / np.std(x, ddof=1) ** deg])]
            rel, abs_ = 1e-3, 1e-3
        if dt is not F32:
            wants = [w.astype(dt) for w in wants]
        else:
            wants = [w.astype(F32) for w in wants]
            if op in ("stddev", "masked_stddev", "mean_stddev", "masked_mean_stddev", "var"):
                abs_ = 2e-3 * (1 + float(np.max(np.abs(x), initial=0))) * (1e-1 if op != "var" else 1)
                rel = 1e-4
            elif op != "standardized_moment":
                abs_ *= 4 * a0.size if op == "sum" else 4
    h.check(np.array_equal(np.asarray(a), src), "operand-changed", lambda: h.desc)
    # the results belong to nobody else: the operands can be overwritten and dropped
    mode = r.randint(0, 3)
    if mode and a.flags.writeable:
        a[...] = 113
    if mode > 1:
        m = bb = a = None
        churn(r)
    for i, (o, w) in enumerate(zip(outs, wants)):
        meta_ok(h, op, o, w)
        n = val(o)
        if mode == 3:
            outs[i] = o = None
            churn(r)
        exact = stat is False and op != "divide" and w.dtype != F32 or op in ("slice", "max", "square")
        ok = eq(n, w) if exact else n.dtype == w.dtype and close(n, w, rel, abs_)
        h.check(ok, op + "-values", lambda: f"{h.desc}: output {i} {n.dtype}{n.shape} {n.ravel()[:8]} expected {w.dtype}{w.shape} {w.ravel()[:8]}")
    h.count("op_" + op)
    h.nontrivial(h.desc)


# ------------------------------------------------------------------ arrays: export, sharing, lifetime
def export(h):
    r = h.rng
    b = r.choice([pybland, pybliss.bland])
    n = r.choice([1, 5, 64, 300, 1000, 5000])
    kind = r.choice(["arange", "linspace", "op", "file"])
    src = None
    if kind == "arange":
        x, w = b.arange(0.0, float(n), 1.0), np.arange(n, dtype=F32)
    elif kind == "linspace":
        n = max(n, 2)
        x, w = b.linspace(-3.0, float(n), n), np.linspace(-3, n, n, endpoint=False).astype(F32)
    elif kind == "op":
        src = rand_np(r, r.choice([F32, I32, U8, U32]), (n,))
        x, w = b.add(src, 1), src + src.dtype.type(1)
    else:
        dt, name = r.choice([(F32, "float"), (I32, "int32"), (U8, "uint8"), (U32, "uint32")])
        w = rand_np(r, dt, (n,))
        p = h.scratch + "/raw.bin"
        w.tofile(p)
        x = b.read_from_file(p, pybliss.bland.ndarray.datatype(name))
        os.unlink(p)
    h.describe(f"export of {kind} with {n} elements")
    meta_ok(h, "export", x, w)
    tol = dict(rel=1e-6, abs_=1e-5) if kind == "linspace" else None
    same = (lambda g, ww: close(g, ww, **tol)) if tol else eq
    views, what = [], []
    addr = val(x).ctypes.data
    for _ in range(r.randint(1, 12)):
        k = r.randint(0, 6)
        what.append(k)
        if k == 0:
            v = val(x)
            h.check(v.ctypes.data == addr, "export-copies", lambda: "from_dlpack of the same array twice does not share memory")
            views.append((v, w))
        elif k == 1:
            x.__dlpack__()  # a capsule nobody takes
        elif k == 2:
            shapes = [s for s in ([n], [1, n], [n, 1]) ] + ([[2, n // 2]] if n % 2 == 0 else [])
            s = r.choice(shapes)
            y = x.reshape(s)
            h.check(y.shape() == s, "reshape-shape", lambda: f"{y.shape()} expected {s}")
            views.append((val(y), w.reshape(s)))
            h.check(views[-1][0].ctypes.data == addr, "reshape-copies", "")
            x.reshape([n])
        elif k == 3:
            y = x.to("cpu")
            views.append((val(y), w))
            y = None
        elif k == 4:
            y = b.add(x, 0) if x.dtype().code != 2 else b.multiply(x, 1.0)
            views.append((val(y), w))
            h.check(views[-1][0].ctypes.data != addr, "operation-shares", "")
        elif k == 5 and views:
            views.pop(r.randrange(len(views)))
        elif k == 6:
            p = h.scratch + "/w.bin"
            ref = refused(lambda: b.write_to_file(x, p))
            h.check(not ref or w.dtype != F32, "write-to-file-refused", "")
            if not ref:
                g = np.fromfile(p, w.dtype)
                h.check(same(g, w), "write-to-file", lambda: f"{g[:6]} expected {w[:6]}")
            if os.path.exists(p):
                os.unlink(p)
        churn(r) if r.random() < 0.3 else None
    order = r.randint(0, 2)
    if order == 0:
        x = src = None
        churn(r)
    for v, ww in views:
        h.check(same(v, ww), "export-values", lambda: f"{v.dtype}{v.shape} {v.ravel()[:6]} expected {ww.dtype}{ww.shape} {ww.ravel()[:6]}; steps {what}")
    if order == 1:
        views = None
        churn(r)
        h.check(same(val(x), w), "array-after-export", "the array changed when its exports were dropped")
    h.count("exports", len(what))
    h.nontrivial(f"{kind} {n} {what} {order}")


def unusual(h):
    """arguments the library cannot take are refused by an exception and touch nothing"""
    r = h.rng
    b = r.choice([pybland, pybliss.bland])
    a = rand_np(r, F32, (r.randint(2, 6), r.randint(2, 40)))
    dtype = r.choice([np.float64, np.float16, np.int64, np.int16, np.int8, np.uint16, np.uint64, np.bool_, np.complex64])
    k = r.randint(0, 11)
    h.describe(f"unusual {k} {np.dtype(dtype).name}")
    if k == 0:
        x = (a > 0).astype(dtype)
        f = r.choice([b.square, b.sum, b.mean, b.stddev, lambda z: b.add(z, z), lambda z: b.less_than(z, 1), lambda z: b.add(z, 1), b.fft_shift_mag_square, b.median])
        out = []
        if not refused(lambda: out.append(f(x))):
            n = val(out[0]) if hasattr(out[0], "__dlpack__") else np.array(out[0])
            h.check(np.all(np.isfinite(n.astype(np.float64))), "odd-dtype-values", lambda: f"{n}")
    elif k == 1:
        ax = [r.choice([-1, -2, 2, 3, 7, 1 << 40, -(1 << 40)])]
        f = r.choice([b.max, b.sum, b.mean, b.stddev, b.var, b.mean_stddev])
        h.describe(h.desc + f" {f.__name__} axes {ax}")
        h.check(refused(lambda: f(a, ax)), "axis-accepted", lambda: h.desc)
    elif k == 2:
        m = np.zeros(a.shape, U8)
        ax = [r.choice([-1, -2, 2, 3, 7])]
        f = r.choice([b.masked_mean, b.masked_stddev, b.masked_mean_stddev])
        h.describe(h.desc + f" {f.__name__} axes {ax}")
        h.check(refused(lambda: f(a, m, ax)), "axis-accepted", lambda: h.desc)
    elif k == 3:
        h.check(refused(lambda: b.slice(a, r.choice([-1, 2, 9]), 0, 1, 1)) and refused(lambda: b.slice(a, 0, 0, 1, r.choice([0, -1]))), "slice-accepted", "")
    elif k == 4:
        h.check(refused(lambda: b.masked_mean(a, np.zeros((a.shape[0], a.shape[1] + 1), U8))) and refused(lambda: b.masked_mean(a, np.ones(a.shape, U8))), "mask-accepted", "")
    elif k == 5:
        h.check(refused(lambda: b.add(a, np.zeros((a.shape[0] + 1, a.shape[1]), F32))), "shapes-accepted", "")
    elif k == 6:
        x = b.add(a, 0)
        h.check(refused(lambda: x.reshape([a.size + 1])) and refused(lambda: x.size(a.ndim)) and refused(lambda: x.size(-1)), "reshape-size-accepted", "")
        h.check(eq(val(x), a), "array-after-refusal", "")
    elif k == 7:
        h.check(all(refused(lambda: b.add(*z)) for z in ((a,), (a, None), ("x", a), (a, a, a), (None, 1), (3, 4))), "arguments-accepted", "")
    elif k == 8:
        h.check(refused(lambda: b.read_from_file(h.scratch + "/none", pybliss.bland.ndarray.datatype("float"))), "missing-file-accepted", "")
    elif k == 9:
        # an empty array has no elements to reduce or return
        e = np.zeros((0, 3), F32)
        x = b.add(e, 1)
        h.check(x.numel() == 0 and val(x).size == 0, "empty-array", "")
        refused(lambda: b.median(e))
        refused(lambda: b.max(e))
    elif k == 10:
        x = np.ascontiguousarray(a)
        x.flags.writeable = False
        out = []
        if not refused(lambda: out.append(b.add(x, 1))):
            h.check(close(val(out[0]), x + 1), "readonly-values", "")
    else:
        h.check(refused(lambda: pybliss.scan(h.scratch + "/none.h5")) and refused(lambda: pybliss.io.h5_filterbank_file(h.scratch + "/none.h5")), "missing-scan-accepted", "")
    h.count("refusals")
    h.nontrivial(h.desc + str(h.case_no % 50))


# ------------------------------------------------------------------ the pipeline
HIT = ["start_freq_index", "start_freq_MHz", "start_time_sec", "duration_sec", "rate_index", "drift_rate_Hz_per_sec", "power", "time_span_steps", "snr", "bandwidth", "binwidth"]
MD = ["fch1", "foff", "tsamp", "tstart", "src_dej", "src_raj", "nchans", "telescope_id", "machine_id", "nbits", "az_start", "za_start", "data_type", "source_name"]
EV = ["starting_frequency_Hz", "average_power", "average_bandwidth", "average_snr", "average_drift_rate_Hz_per_sec", "event_start_seconds", "event_end_seconds"]


def same_num(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return struct.pack("d", a) == struct.pack("d", b) or a == b or (a != a and b != b)


def same_arr(h, k, py, j):
    n = val(py)
    dt = NP[(j["code"], j["bits"])]
    ok = n.dtype == dt and list(n.shape) == j["shape"] and np.ascontiguousarray(n).tobytes().hex() == j["hex"]
    h.check(ok, k, lambda: f"{n.dtype}{n.shape} {n.ravel()[:6]} expected {dt} {j['shape']} {np.frombuffer(bytes.fromhex(j['hex']), dt)[:6]}")
    h.count("arrays_compared")
    return n


def rfi_of(x):
    return {str(int(k)): v for k, v in x.rfi_counts.items()}


def same_hits(h, k, py, j, rfi=True):
    if not h.check(len(py) == len(j), k + "-count", lambda: f"{len(py)} hits expected {len(j)}"):
        return
    for i, (p, w) in enumerate(zip(py, j)):
        bad = [f"{f} {getattr(p, f)!r} expected {w[f]!r}" for f in HIT if not same_num(getattr(p, f), w[f])]
        if rfi and rfi_of(p) != w["rfi_counts"]:
            bad.append(f"rfi {rfi_of(p)} expected {w['rfi_counts']}")
        if repr(p) != w["repr"]:
            bad.append(f"repr {p!r} expected {w['repr']}")
        h.check(not bad, k + "-fields", lambda: f"hit {i}: {bad}")
        if i < 3:
            for how, y in (("pickle", pickle.loads(pickle.dumps(p))), ("copy", copy.copy(p)), ("deepcopy", copy.deepcopy(p))):
                bad = [f"{f} {getattr(y, f)!r} was {getattr(p, f)!r}" for f in HIT if not same_num(getattr(y, f), getattr(p, f))]
                if rfi_of(y) != rfi_of(p): bad.append(f"rfi {rfi_of(y)} was {rfi_of(p)}")
                h.check(not bad, "copied-hit", lambda: f"{how}: {bad}")
                h.count("hits_pickled")
    h.count("hits_compared", len(j))


def same_md(h, k, py, j):
    bad = []
    for f in MD:
        got = []
        if refused(lambda: got.append(getattr(py, f))):
            if j[f] is not None:
                bad.append(f"{f} refused, expected {j[f]}")
        elif j[f] is None or not same_num(got[0], j[f]):
            bad.append(f"{f} {got[0]!r} expected {j[f]!r}")
    h.check(not bad, k + "-metadata", lambda: bad)


def same_channel(h, c, j, keep):
    same_md(h, "channel", c, j)
    keep.append((same_arr(h, "channel-data", c.data, j["data"]), j["data"]))
    keep.append((same_arr(h, "channel-mask", c.mask, j["mask"]), j["mask"]))
    if j.get("noise"):
        s = c.noise_estimate
        bad = [f for f in ("noise_floor", "noise_power", "noise_amplitude") if not same_num(getattr(s, f), j["noise"][f])]
        h.check(not bad, "noise", lambda: f"{[(f, getattr(s, f), j['noise'][f]) for f in bad]}")
        h.count("noise_compared")
    elif "noise" in j:
        h.check(refused(lambda: c.noise_estimate), "noise-not-refused", "")
    if "plane" in j:
        if j["plane"] is None:
            h.check(refused(lambda: c.integrated_drift_plane()), "plane-not-refused", "")
        else:
            p = c.integrated_drift_plane()
            keep.append((same_arr(h, "plane", p.integrated_drifts, j["plane"]["plane"]), j["plane"]["plane"]))
            f = p.integrated_rfi
            f = f() if callable(f) else f
            for n in ("filter_rolloff", "low_spectral_kurtosis", "high_spectral_kurtosis"):
                same_arr(h, "plane-" + n, getattr(f, n), j["plane"][n])
            got = p.drift_rate_info()
            want = j["plane"]["rates"]
            bad = len(got) != len(want) or any(not same_num(getattr(x, n), w[n]) for x, w in zip(got, want) for n in w)
            h.check(not bad, "drift-rates", lambda: f"{len(got)} expected {len(want)}")
            h.count("planes_compared")
    hits = []
    if j["hits"] is None:
        h.check(refused(lambda: c.hits), "hits-not-refused", "")
    else:
        hits = c.hits
        same_hits(h, "channel-hits", hits, j["hits"])
    return hits


def same_scan(h, s, j, keep):
    h.check(s.num_coarse_channels == j["num_coarse_channels"], "channel-count", lambda: f"{s.num_coarse_channels} expected {j['num_coarse_channels']}")
    same_md(h, "scan", s, j)
    hits = []
    for i, jc in enumerate(j["channels"]):
        c = s.read_coarse_channel(i)
        hits += same_channel(h, c, jc, keep)
        c = None
        if h.rng.random() < 0.2:
            churn(h.rng)
    if j["hits"] is not None:
        same_hits(h, "scan-hits", s.hits(), j["hits"])
    return hits


def py_ops(x, toks, bl=pybliss):
    fl, pp, es, ds = bl.flaggers, bl.preprocess, bl.estimators, bl.drift_search
    for t in toks:
        k, *a = t.split(":")
        f = [float(v) if k != "eq" else v for v in a]
        if k == "norm":
            x = pp.normalize(x)
        elif k == "roll":
            x = fl.flag_filter_rolloff(x, f[0])
        elif k == "sk":
            x = fl.flag_spectral_kurtosis(x, f[0], f[1]) if f[2] == 2.0 else fl.flag_spectral_kurtosis(x, f[0], f[1], f[2]) # d is 2 where it is not given
        elif k == "mag":
            x = fl.flag_magnitude(x, *f)
        elif k == "sig":
            x = fl.flag_sigmaclip(x) if f == [3.0, 4.0, 4.0] else fl.flag_sigmaclip(x, int(f[0])) if f[1:] == [4.0, 4.0] else fl.flag_sigmaclip(x, int(f[0]), f[1], f[2])
        elif k == "eq":
            x = pp.equalize_passband_filter(x, f[0])
        elif k == "drift":
            o = ds_opts(int(f[0]), int(f[1]), int(f[2]), int(f[3]))
            x = ds.integrate_drifts(x, o)
        elif k == "filter":
            o = ds.filter_options()
            o.filter_zero_drift = bool(f[0])
            x = ds.filter_hits(x, o)
        elif k == "noise":
            o = es.noise_power_estimate_options()
            o.estimator_method = es.noise_power_estimator.mad if f[0] else es.noise_power_estimator.stddev
            o.masked_estimate = bool(f[1])
            x = es.estimate_noise_power(x, o)
        elif k == "search":
            o = ds.hit_search_options()
            o.method = ds.hit_search_methods.local_maxima if f[0] else ds.hit_search_methods.connected_components
            o.snr_threshold = f[1]
            o.neighbor_l1_dist = int(f[2])
            x = ds.hit_search(x, o)
        elif k == "slice":
            n = [m for m in ("slice_scan_channels", "slice_observation_channels", "slice_cadence_channels") if hasattr(x, m)][0]
            n, a = getattr(x, n), [int(v) for v in f]
            x = n() if a == [0, 1] else n(a[0]) if a[1] == 1 else n(count=a[1]) if a[0] == 0 else n(*a) if a[1] % 2 else n(start=a[0], count=a[1])
    return x


def ds_opts(desmear, lo, hi, step):
    o = pybliss.integrate_drifts_options()
    o.desmear, o.low_rate, o.high_rate, o.rate_step_size = bool(desmear), lo, hi, step
    return o


def g(v):
    return repr(float(np.float32(v)))


def rand_ops(r, fpc, nc, kind, resp):
    t = []
    if kind != "cc" and r.random() < 0.3:
        a = r.randint(0, nc - 1)
        t.append(f"slice:{a}:{r.randint(1, nc - a)}")
    fl = []
    if r.random() < 0.6: fl.append("norm")
    if r.random() < 0.2: fl.append("eq:" + resp)
    if r.random() < 0.6: fl.append("roll:" + g(r.choice([0.05, 0.1, 0.2, 0.3])))
    if r.random() < 0.6: fl.append("sk:" + g(r.choice([0.05, 0.1, 0.25])) + ":" + g(r.choice([5.0, 25.0, 50.0])) + ":" + g(r.choice([2.0, 2.0, 1.0])))
    if r.random() < 0.3: fl.append("mag:" + g(r.choice([2.0, 5.0])) if kind == "cc" and r.random() < 0.5 else "mag")
    if r.random() < 0.6: fl.append(r.choice([f"sig:{r.randint(1, 5)}:" + g(r.choice([3.0, 4.0])) + ":" + g(r.choice([3.0, 4.5])), "sig:3:4.0:4.0", f"sig:{r.randint(1, 5)}:4.0:4.0"]))
    if r.random() < 0.5: r.shuffle(fl)
    t += fl
    stage = r.randint(0, 4)
    if stage >= 1: t.append(f"noise:{int(r.random() < 0.1)}:{int(r.random() < 0.7)}")
    if kind == "cc" and stage >= 1:
        t.pop()
    if stage >= 2: t.append(f"drift:{r.randint(0, 1)}:{-r.randint(0, 20)}:{r.randint(1, 20)}:{r.randint(1, 2)}" if r.random() < 0.85 else f"drift:1:{(lo := r.choice([-1, 1]) * r.randint(300, 4000))}:{lo + r.randint(1, 9)}:1")
    if kind == "cc":
        return t
    if stage >= 3: t.append(f"search:{r.randint(0, 1)}:" + g(r.choice([4.0, 6.0, 10.0, 15.0])) + f":{r.randint(1, 10)}")
    if stage >= 4: t.append(f"filter:{r.randint(0, 1)}")
    return t


def make(h, name, T, fpc, nc, like=None):
    p = h.scratch + "/" + name
    kv = dict(like=1, fch1=repr(like["fch1"]), foff=repr(like["foff"]), tsamp=repr(like["tsamp"])) if like else {}
    return p, lib("make", path=p, seed=h.rng.getrandbits(60), T=T, fpc=fpc, nc=nc, **kv)


def held(h, keep):
    """numpy arrays handed out stay what they were after everything they came from is gone"""
    gc.collect()
    churn(h.rng)
    for n, j in keep:
        h.check(np.ascontiguousarray(n).tobytes().hex() == j["hex"], "array-after-drop", lambda: f"{n.dtype}{n.shape} {n.ravel()[:6]}")
    h.count("arrays_outliving_their_source", len(keep))


def pipeline(h):
    r = h.rng
    T, fpc, nc = r.choice([4, 8, 8, 16, 5]), r.choice([16, 32, 64]), r.randint(1, 3)
    kind = r.choice(["cc", "scan", "scan", "obs", "cad"])
    names = {"cc": [["a.h5"]], "scan": [["a.h5"]], "obs": [["a.h5", "b.h5"]], "cad": [["a.h5", "b.h5"], ["c.h5"], ["d.h5"]][:r.randint(2, 3)]}[kind]
    like, files = None, []
    for o in names:
        files.append([])
        for n in o:
            p, m = make(h, n, T, fpc, nc, like)
            like = like or m
            files[-1].append(p)
    resp = h.scratch + "/resp.f32"
    np.array([r.uniform(0.2, 1) for _ in range(fpc)], F32).tofile(resp)
    toks = rand_ops(r, fpc, nc, kind, resp)
    idx = r.randrange(nc)
    events = kind == "cad" and any(t.startswith("search") for t in toks)
    save = h.scratch + "/cpp.capnp" if kind == "scan" and r.random() < 0.5 and any(t.startswith("search") for t in toks) else ""
    if kind in ("obs", "cad") and any(t.startswith("search") for t in toks) and r.random() < 0.6: save = h.scratch + "/cpp.capnp"
    evsave = h.scratch + "/cpp.ev" if events and r.random() < 0.5 else ""
    h.describe(f"{kind} T {T} fpc {fpc} nc {nc} ops {toks}" + (f" channel {idx}" if kind == "cc" else ""))
    want = lib("pipe", kind=kind, files=";".join("|".join(o) for o in files), fpc=fpc, ops=",".join(toks), want="p" if any(t.startswith("drift") for t in toks) else "", index=idx,
               save=save, events=int(events), evsave=evsave)
    keep, err, evs, hits = [], [], None, None

    def go():
        nonlocal evs, hits
        if kind == "cc":
            x = pybliss.scan(files[0][0], fpc).read_coarse_channel(idx)
            x = py_ops(x, toks)
            if "error" not in want:
                same_channel(h, x, want, keep)
            else:
                val(x.data), val(x.mask)
                if any(t.startswith("drift") for t in toks):
                    val(x.integrated_drift_plane().integrated_drifts)
        elif kind == "scan":
            s0 = pybliss.scan(files[0][0], fine_channels_per_coarse=fpc)
            x = py_ops(s0, toks)
            if r.random() < 0.5:
                del s0
            if "error" not in want:
                hits = same_scan(h, x, want, keep)
                h.check(x.get_file_path() == files[0][0], "file-path", lambda: x.get_file_path())
                if save and want["hits"] is not None:
                    exchange_scan(h, x, want, save)
            else:
                for i in range(x.num_coarse_channels):
                    c = x.read_coarse_channel(i)
                    val(c.data), val(c.mask)
                    if any(t.startswith("noise") for t in toks): c.noise_estimate
                    if any(t.startswith("drift") for t in toks): c.integrated_drift_plane().integrated_drifts
                    if any(t.startswith("search") for t in toks): c.hits
        else:
            mk = pybliss.observation_target(files[0], fpc) if kind == "obs" else pybliss.cadence(files, fine_channels_per_coarse=fpc)
            x = py_ops(mk, toks)
            mk = None
            w = want["cadence"] if events and "error" not in want else want
            if "error" not in want:
                obs = [x] if kind == "obs" else x.observations
                jobs = [w] if kind == "obs" else w["observations"]
                h.check(len(obs) == len(jobs), "observation-count", "")
                h.check(x.number_coarse_channels == jobs[0]["scans"][0]["num_coarse_channels"], "target-channels", "")
                for o, jo in zip(obs, jobs):
                    h.check(o.target_name == jo["target_name"], "target-name", lambda: f"{o.target_name} expected {jo['target_name']}")
                    sc = o.scans
                    h.check(len(sc) == len(jo["scans"]), "scan-count", "")
                    for s, js in zip(sc, jo["scans"]):
                        same_scan(h, s, js, keep)
                if save:
                    exchange_files(h, x, kind, jobs, save)
                if events:
                    evs = []
                    ref = refused(lambda: evs.extend(pybliss.drift_search.event_search(x)))
                    if want["events"] is None:
                        h.check(ref, "events-not-refused", "")
                    elif h.check(not ref, "events-refused", "") and h.check(len(evs) == len(want["events"]), "event-count", lambda: f"{len(evs)} expected {len(want['events'])}"):
                        same_events(h, "event", evs, want["events"])
                        if evsave:
                            exchange_events(h, evs, want["events"], evsave)
            else:
                for o in ([x] if kind == "obs" else x.observations):
                    for s in o.scans:
                        for i in range(s.num_coarse_channels):
                            c = s.read_coarse_channel(i)
                            val(c.data), val(c.mask)
                            if any(t.startswith("noise") for t in toks): c.noise_estimate
                            if any(t.startswith("drift") for t in toks): c.integrated_drift_plane().integrated_drifts
                            if any(t.startswith("search") for t in toks): c.hits

    if "error" in want:
        h.count("pipelines_refused")
        h.check(refused(go), "refusal-lost", lambda: f"C++: {want['error']}")
    else:
        go()
        held(h, keep)
    if hits:
        same_hits(h, "hits-after-drop", hits, [x for c in want["channels"] for x in c["hits"]])
    h.count("pipelines_" + kind)
    h.nontrivial(f"{kind} {toks} {T} {fpc} {nc}")
    for o in files:
        for p in o:
            os.unlink(p)


def same_events(h, k, py, j):
    for p, w in zip(py, j):
        bad = [f"{f} {getattr(p, f)!r} expected {w[f]!r}" for f in EV if not same_num(getattr(p, f), w[f])]
        h.check(not bad and repr(p) == w["repr"], k + "-fields", lambda: bad)
        same_hits(h, k + "-hits", list(p.hits), w["hits"], rfi=False)
    h.count("events_compared", len(j))


def f32(v):
    return float(np.float32(v))


def exchange_scan(h, x, want, cpp):
    """files written on either side mean the same on the other"""
    io = pybliss.io
    p = h.scratch + "/py.capnp"
    io.write_scan_hits_to_file(x, p)
    a, b = open(p, "rb").read(), open(cpp, "rb").read()
    h.check(a == b, "hits-file-bytes", lambda: f"{len(a)} and {len(b)} bytes")
    back = io.read_scan_hits_from_capnp_file(cpp)
    j = lib("rscan", path=p)
    same_md(h, "read-scan", back, j)
    h.check(back.num_coarse_channels == len(j["channels"]), "read-scan-channels", "")
    for i, jc in enumerate(j["channels"]):
        c = back.read_coarse_channel(i)
        same_md(h, "read-channel", c, jc)
        same_hits(h, "read-channel-hits", c.hits, jc["hits"])
    same_hits(h, "read-scan-hits", back.hits(), j["hits"])
    h.count("files_exchanged")
    os.unlink(p)
    os.unlink(cpp)


def exchange_files(h, x, kind, jobs, cpp):
    """the files of a target or a cadence: the same names and bytes from either side, and each side's files read back as the scans they hold"""
    io = pybliss.io
    p = h.scratch + "/py.capnp"
    if any(s["hits"] is None for o in jobs for s in o["scans"]): return
    write, read = (io.write_observation_target_hits_to_capnp_files, io.read_observation_target_hits_from_capnp_files) if kind == "obs" else (io.write_cadence_hits_to_capnp_files, io.read_cadence_hits_from_capnp_files)
    write(x, p)
    names = lambda stem: sorted(f for f in os.listdir(h.scratch) if f.startswith(stem))
    mine, theirs = names("py"), names("cpp")
    mine = [f for f in mine if not f.endswith(".ev")]
    theirs = [f for f in theirs if not f.endswith(".ev")]
    h.check([f.replace("py", "cpp", 1) for f in mine] == theirs, "written-names", lambda: f"{mine} and {theirs}")
    for a in mine:
        b = a.replace("py", "cpp", 1)
        if b in theirs: h.check(open(f"{h.scratch}/{a}", "rb").read() == open(f"{h.scratch}/{b}", "rb").read(), "written-bytes", lambda: a)
    some = all(len(s["channels"]) for o in jobs for s in o["scans"])
    if some:
        back = read(cpp)
        obs = [back] if kind == "obs" else back.observations
        if h.check(len(obs) == len(jobs), "read-observations", lambda: f"{len(obs)} of {len(jobs)}"):
            for o, jo in zip(obs, jobs):
                sc = o.scans
                if not h.check(len(sc) == len(jo["scans"]), "read-scans", lambda: f"{len(sc)} of {len(jo['scans'])}"): continue
                for s, js in zip(sc, jo["scans"]):
                    got, want = s.hits(), js["hits"]
                    h.check(len(got) == len(want) and all(a.start_freq_index == b["start_freq_index"] and a.rate_index == b["rate_index"] and a.start_freq_MHz == b["start_freq_MHz"] for a, b in zip(got, want)), "read-scan-order", lambda: f"{len(got)} hits of {len(want)}")
    h.count("target_files_exchanged", len(mine))
    for f in mine + theirs: os.unlink(f"{h.scratch}/{f}")


def exchange_events(h, evs, want, cpp):
    io = pybliss.io
    p = h.scratch + "/py.ev"
    io.write_events_to_file(evs, p)
    a, b = open(p, "rb").read(), open(cpp, "rb").read()
    h.check(a == b, "events-file-bytes", lambda: f"{len(a)} and {len(b)} bytes")
    j = lib("revents", path=p)
    back = io.read_events_from_file(cpp)
    if h.check(len(back) == len(j) == len(want), "events-read", lambda: f"{len(back)} {len(j)} {len(want)}"):
        same_events(h, "read-event", back, j)
    h.count("files_exchanged")
    os.unlink(p)
    os.unlink(cpp)


# ------------------------------------------------------------------ single calls
def calls(h):
    r = h.rng
    k = r.choice([*range(14), 10, 10, 10, 10, 12])
    h.describe(f"call {k}")
    b = pybliss.bland
    if k == 0:
        w = r.choice(["hamming", "hann", "rectangular", "blackman", "other"])
        n, fc = r.randint(1, 80), r.choice([0.1, 0.25, 0.5])
        j = lib("firdes", n=n, fc=repr(fc), window=w)
        out = []
        ref = refused(lambda: out.append(pybliss.preprocess.firdes(n, fc, w)))
        h.check(ref == ("error" in j), "firdes-refusal", lambda: f"{w} {n}: {j if 'error' in j else ''}")
        if not ref: same_arr(h, "firdes", out[0], j)
    elif k == 1:
        fpc, nc, taps, w = r.choice([4, 16, 32]), r.choice([2, 4, 8]), r.randint(1, 4), r.choice(["hamming", "hann"])
        j = lib("resp", fpc=fpc, nc=nc, taps=taps, window=w)
        out = []
        f = pybliss.preprocess.gen_coarse_channel_response
        ref = refused(lambda: out.append(f(fpc, nc, taps) if w == "hamming" else f(fine_per_coarse=fpc, num_coarse_channels=nc, taps_per_channel=taps, window=w, device_str="cpu")))
        h.check(ref == ("error" in j), "response-refusal", str(j)[:300])
        if not ref: same_arr(h, "response", out[0], j)
    elif k == 2:
        p, m = make(h, "d.h5", r.choice([2, 4]), 8, 2)
        f = pybliss.io.h5_filterbank_file(p)
        st = [r.randint(0, 1), 0, r.randint(0, 8)]
        ct = [1, 1, r.randint(1, 8)]
        j = lib("h5", path=p, start=".".join(map(str, st)), count=".".join(map(str, ct)))
        d, mk = f.read_data(st, ct), f.read_mask(st, ct)
        h.check(repr(f) == j["repr"] and f.get_file_path() == p, "file-repr", lambda: repr(f))
        del f
        churn(r)
        same_arr(h, "file-data", d, j["data"])
        same_arr(h, "file-mask", mk, j["mask"])
        h.check(refused(lambda: pybliss.io.h5_filterbank_file(p).read_data([0, 0, 0], [1, 1, 17])), "file-range-accepted", "")
        os.unlink(p)
    elif k == 3:
        p = h.scratch + "/h.capnp"
        j = lib("whits", path=p, n=r.choice([0, 1, 3, 20]), seed=r.getrandbits(60))
        l = pybliss.io.read_hits_from_capnp_file(p)
        j2 = lib("rhits", path=p)
        same_hits(h, "file-hits", l, j2)
        p2 = h.scratch + "/h2.capnp"
        pybliss.io.write_hits_to_capnp_file(l, p2)
        same_hits(h, "written-hits", pybliss.io.read_hits_from_capnp_file(p2), lib("rhits", path=p2))
        h.check(open(p2, "rb").read() == open(p, "rb").read(), "hits-file-bytes", "rewritten file differs")
        for x in l:
            for how in ("pickle", "copy", "deepcopy"):
                y = pickle.loads(pickle.dumps(x)) if how == "pickle" else copy.copy(x) if how == "copy" else copy.deepcopy(x)
                bad = [f"{f} {getattr(y, f)!r} was {getattr(x, f)!r}" for f in HIT if not same_num(getattr(y, f), getattr(x, f))]
                if rfi_of(y) != rfi_of(x): bad.append(f"rfi {rfi_of(y)} was {rfi_of(x)}")
                if repr(y) != repr(x): bad.append("repr")
                h.check(not bad, "copied-hit", lambda: f"{how}: {bad}")
        h.count("hits_pickled", 3 * len(l))
        # a field set is the field read, and no other
        for x in l[:3]:
            f = r.choice(HIT)
            before = {n: getattr(x, n) for n in HIT}
            v = r.choice([1, 7, 1000]) if isinstance(before[f], int) else r.choice([0.5, 1024.25, -3.0])
            setattr(x, f, v)
            after = {n: getattr(x, n) for n in HIT}
            before[f] = v
            h.check(all(same_num(after[n], before[n]) for n in HIT), "hit-field", lambda: f"{f}: {after} expected {before}")
        os.unlink(p), os.unlink(p2)
    elif k == 4:
        # option objects keep what they are given, field by field
        for cls, fields in ((pybliss.integrate_drifts_options, {"desmear": [True, False], "low_rate": [-7, 0, -500], "high_rate": [3, 64, 900], "rate_step_size": [1, 2, 5]}),
                            (pybliss.drift_search.hit_search_options, {"snr_threshold": [3.5, 10.0], "neighbor_l1_dist": [1, 7, 30], "method": list(map(lambda n: getattr(pybliss.drift_search.hit_search_methods, n), ("connected_components", "local_maxima")))}),
                            (pybliss.drift_search.filter_options, {"filter_zero_drift": [True, False]}),
                            (pybliss.estimators.noise_power_estimate_options, {"masked_estimate": [True, False], "estimator_method": [pybliss.estimators.noise_power_estimator.stddev, pybliss.estimators.noise_power_estimator.mad]})):
            o = cls()
            cur = {f: getattr(o, f) for f in fields}
            for _ in range(6):
                f = r.choice(list(fields))
                cur[f] = r.choice(fields[f])
                setattr(o, f, cur[f])
                now = {n: getattr(o, n) for n in fields}
                h.check(now == cur, "option-field", lambda: f"{cls.__name__} {now} expected {cur}")
    elif k == 5:
        fv = pybliss.flaggers.flag_values
        h.check({n: int(getattr(fv, n)) for n in ("unflagged", "filter_rolloff", "low_spectral_kurtosis", "high_spectral_kurtosis", "magnitude", "sigma_clip")} ==
                {"unflagged": 0, "filter_rolloff": 1, "low_spectral_kurtosis": 2, "high_spectral_kurtosis": 4, "magnitude": 16, "sigma_clip": 32}, "flag-values", "")
    elif k == 6:
        # array forms of the estimators and flaggers
        a = rand_np(r, F32, (r.randint(2, 8), r.randint(4, 40)))
        x = b.add(a, 0)
        o = pybliss.estimators.noise_power_estimate_options()
        o.estimator_method = pybliss.estimators.noise_power_estimator.stddev
        o.masked_estimate = False
        for s in (pybliss.estimators.estimate_noise_power(layout(r, a)[0] if r.random() < 0.01 else a, o), pybliss.estimators.estimate_noise_power(x, o)):
            h.check(close(s.noise_floor, a.astype(np.float64).mean(), 1e-4, 1e-3) and close(s.noise_amplitude, np.sqrt(a.astype(np.float64).std()), 1e-3, 1e-2) and close(s.noise_power, a.astype(np.float64).std(), 1e-3, 1e-2), "array-noise",
                    lambda: f"{s.noise_floor} {s.noise_amplitude} {s.noise_power} expected {a.mean()} {a.std()}")
        t = r.uniform(-20, 20)
        s = pybliss.estimators.noise_power()
        s.noise_floor = b.slice(a, 1, 0, 1, 1).reshape([a.shape[0]]) if False else b.mean(a)
        h.check(close(s.noise_floor, a.mean(), 1e-4, 1e-3), "noise-floor-set", "")
        m = val(pybliss.flaggers.flag_sigmaclip(x, max_iter=1, lower_threshold=2.0, upper_threshold=2.0))
        mu, sd = a.astype(np.float64).mean(), a.astype(np.float64).std()
        near = (np.abs(np.abs(a - mu) - 2 * sd) < 1e-3 * (1 + sd))
        h.check(m.shape == a.shape and np.all(((m != 0) == (np.abs(a - mu) > 2 * sd)) | near), "array-sigmaclip", "")
    elif k == 7:
        D = pybliss.bland.ndarray
        d = D.dev("cpu")
        for n, c in (("float", (2, 32)), ("float32", (2, 32)), ("int32", (0, 32)), ("uint8", (1, 8)), ("uint32", (1, 32))):
            t = [None]
            if not refused(lambda: t.__setitem__(0, D.datatype(n))):
                h.check((t[0].code, t[0].bits, t[0].lanes) == (*c, 1), "datatype", lambda: f"{n} {t[0]}")
        x = D([2, 3])
        h.check(x.shape() == [2, 3] and x.dtype().code == 2 and x.dtype().bits == 32 and "device_type=1" in repr(x.device()) and "device_type=1" in repr(d), "fresh-array", "")
        h.check(val(x).shape == (2, 3), "fresh-array-shape", "")
    elif k == 8:
        # children outlive the objects they were taken from; copies are independent of their source
        p, m = make(h, "l.h5", 4, 16, 3)
        s = pybliss.scan(p, 16)
        cs = [s.read_coarse_channel(i) for i in range(3)]
        d = [val(c.data) for c in cs]
        keep = [x.copy() for x in d]
        tgt = pybliss.observation_target([s, s])
        sl = s.slice_scan_channels(start=1, count=2)
        c1 = sl.read_coarse_channel(0)
        f = cs[1].fch1
        s = None
        tgt2 = pybliss.observation_target(tgt.scans)
        tgt = None
        churn(r)
        h.check(np.array_equal(val(c1.data), keep[1]) and c1.fch1 == f, "slice-child", "")
        sc = tgt2.scans
        sc[0] = None
        h.check(len(tgt2.scans) == 2 and np.array_equal(val(tgt2.scans[1].read_coarse_channel(2).data), keep[2]), "scans-list", "")
        hit_freq = cs[2].fch1 + cs[2].foff * 3
        cc = tgt2.scans[0].get_coarse_channel_with_frequency(frequency=hit_freq)
        h.check(cc == 2 or hasattr(cc, "fch1") and cc.fch1 == cs[2].fch1, "channel-by-frequency", lambda: f"{cc}")
        cs[0].set_device("cpu")
        cs[0].push_device()
        h.check("device_type=1" in repr(cs[0].device()), "device", lambda: str(cs[0].device()))
        cs = sl = c1 = tgt2 = sc = None
        churn(r)
        h.check(all(np.array_equal(x, y) for x, y in zip(d, keep)), "data-after-drop", "")
        os.unlink(p)
    elif k == 10:
        # calls that take a plain array
        x = rand_np(r, F32, (r.choice([2, 4, 8]), r.choice([4, 7, 16, 40])))
        op = r.choice(["noise", "mag", "sig", "sk", "power", "ccl", "arange", "linspace"])
        arr = lambda z: dict(shape=".".join(map(str, z.shape)), hex=np.ascontiguousarray(z).tobytes().hex())
        h.describe(f"{op} of {x.shape}")
        own = b.add(x, 0)
        if op == "noise":
            o = pybliss.estimators.noise_power_estimate_options()
            mad, masked = r.random() < 0.5, r.random() < 0.5
            o.estimator_method = pybliss.estimators.noise_power_estimator.mad if mad else pybliss.estimators.noise_power_estimator.stddev
            o.masked_estimate = masked
            j = lib("grid", op=op, mad=int(mad), masked=int(masked), **arr(x))
            for z in (layout(r, x)[0], own):
                if val(z).shape != x.shape or not np.array_equal(val(z) if z is own else z, x): continue # a broadcast layout has other values
                out = []
                ref = refused(lambda: out.append(pybliss.estimators.estimate_noise_power(z, o)))
                if h.check(ref == ("error" in j), "array-noise-refusal", lambda: f"{mad} {masked} {j}") and not ref:
                    h.check(all(close(getattr(out[0], f), j[f], 1e-5, 1e-5) for f in j), "array-noise-values", lambda: f"{mad} {masked} {[getattr(out[0], f) for f in j]} expected {j}")
        elif op == "mag":
            t = float(F32(r.uniform(0.5, 3)))
            same_arr(h, "array-magnitude", pybliss.flaggers.flag_magnitude(own, t), lib("grid", op=op, f=repr(t), **arr(x)))
        elif op == "sig":
            x[0, 0], x[1, 1] = 900, -300
            own = b.add(x, 0)
            if r.random() < 0.5: same_arr(h, "array-sigmaclip-defaults", pybliss.flaggers.flag_sigmaclip(own), lib("grid", op=op, n=3, f=4, g=4, **arr(x)))
            else:
                n, lo, hi = r.randint(0, 5), float(F32(r.uniform(1, 4))), float(F32(r.uniform(1, 4)))
                same_arr(h, "array-sigmaclip", pybliss.flaggers.flag_sigmaclip(own, n, lo, hi), lib("grid", op=op, n=n, f=repr(lo), g=repr(hi), **arr(x)))
        elif op == "sk":
            x = np.abs(x) + F32(1)
            own = b.add(x, 0)
            N, M, d = r.randint(1, 60), r.randint(2, 40), r.choice([None, None, 1.0, 0.5, 2.0])
            f = pybliss.estimators.estimate_spectral_kurtosis
            same_arr(h, "array-kurtosis", f(own, N, M) if d is None else f(spectrum_grid=own, N=N, M=M, d=d), lib("grid", op=op, N=N, M=M, f=repr(d or 2.0), **arr(x)))
        elif op == "power":
            s = r.choice([(16,), (8, 16), (2, 4, 8), (3, 5), (7,)])
            x = rand_np(r, F32, s)
            z, ln = layout(r, x)
            z0 = np.ascontiguousarray(z)
            j = lib("grid", op=op, **arr(z0))
            out = []
            ref = refused(lambda: out.append(b.fft_shift_mag_square(z)))
            if h.check(ref == ("error" in j), "power-refusal", lambda: f"{s} {ln} {str(j)[:200]}") and not ref:
                y = val(out[0])
                w = np.frombuffer(bytes.fromhex(j["hex"]), F32).reshape(j["shape"])
                h.check(y.shape == w.shape and close(y, w, 1e-4, 1e-3 * (1 + float(np.abs(w).max()))), "power-spectrum", lambda: f"{s} {ln} {y.ravel()[:6]} expected {w.ravel()[:6]}")
        elif op == "ccl":
            m = (np.array([[r.random() < 0.35 for _ in range(x.shape[1])] for _ in range(x.shape[0])])).astype(U8)
            nb = [[i, k] for i in range(-2, 3) for k in range(-2, 3) if (i, k) != (0, 0) and abs(i) + abs(k) <= r.choice([1, 2, 4])]
            j = lib("grid", op=op, nb=";".join(f"{p[0]}.{p[1]}" for p in nb), **arr(m))
            got = pybliss.drift_search.find_components_in_binary_mask(m if r.random() < 0.5 else b.add(m, 0), nb)
            h.check(len(got) == j["count"], "components", lambda: f"{len(got)} expected {j['count']} neighbours {nb}\n{m}")
        elif op == "arange":
            lo, n, st = r.choice([0.0, -3.0, 1.5]), r.randint(1, 200), r.choice([1.0, 0.5, 0.125, 2.0 ** -12, 3.0])
            hi = lo + n * st
            same_arr(h, "arange", b.arange(lo, hi, st), lib("arange", a=repr(lo), b=repr(hi), c=repr(st)))
        else:
            lo, hi, n = r.uniform(-5, 5), r.uniform(-5, 5), r.randint(1, 200)
            same_arr(h, "linspace", b.linspace(float(F32(lo)), float(F32(hi)), n), lib("linspace", a=g(lo), b=g(hi), n=n))
        h.count("array_call_" + op)
    elif k == 11:
        # options nobody set are those of the library
        j = lib("defaults")
        o, s, f, e = pybliss.integrate_drifts_options(), pybliss.drift_search.hit_search_options(), pybliss.drift_search.filter_options(), pybliss.estimators.noise_power_estimate_options()
        got = [[int(o.desmear), o.low_rate, o.high_rate, o.rate_step_size], [int(s.method == pybliss.drift_search.hit_search_methods.local_maxima), s.snr_threshold, s.neighbor_l1_dist], int(f.filter_zero_drift),
               [int(e.estimator_method == pybliss.estimators.noise_power_estimator.mad), int(e.masked_estimate)]]
        h.check(got == [[int(v) if not isinstance(v, float) else v for v in j["drift"]], [int(j["search"][0]), j["search"][1], j["search"][2]], j["filter"], [int(j["noise"][0]), j["noise"][1]]], "default-options", lambda: f"{got} expected {j}")
        # fields of the flag counts and of the noise are their own
        d = b.ndarray.dev("cpu") if hasattr(b.ndarray, "dev") else pybliss.bland.ndarray.dev("cpu")
        q = pybliss.integrated_flags(2, 3, d)
        v = {n: rand_np(r, U8, (2, 3)) for n in ("filter_rolloff", "low_spectral_kurtosis", "high_spectral_kurtosis", "magnitude", "sigma_clip")}
        for n in r.sample(list(v), 5): setattr(q, n, b.add(v[n], 0))
        churn(r)
        for n in v: h.check(eq(val(getattr(q, n)), v[n]), "flag-count-field", lambda: f"{n} {val(getattr(q, n))} expected {v[n]}")
        st = pybliss.estimators.noise_power()
        fl, pw = abs(r.uniform(1, 9)), abs(r.uniform(1, 9))
        one = lambda z: b.add(np.array([z], F32), 0)
        st.noise_power, st.noise_floor = one(pw), one(fl)
        churn(r)
        h.check(close(st.noise_floor, fl, 1e-6, 1e-6) and close(st.noise_power, pw, 1e-6, 1e-6) and close(st.noise_amplitude, pw ** 0.5, 1e-6, 1e-6), "noise-field", lambda: f"{st.noise_floor} {st.noise_power} {st.noise_amplitude} set {fl} {pw}")
    elif k == 12:
        # which coarse channel a frequency is in, asked in every way; scans and targets taken by the width nobody gave
        fpc, nc = r.choice([16, 32]), r.randint(2, 5)
        p, m = make(h, "w.h5", 4, fpc, nc)
        s, o, c = pybliss.scan(p, fpc), pybliss.observation_target([p], fpc), pybliss.cadence([[p]], fpc)
        for _ in range(8):
            q = m["fch1"] + m["foff"] * fpc * (r.randrange(nc) + r.choice([0.01, 0.5, 0.99, 0.001, 0.999]))
            j = lib("where", path=p, fpc=fpc, q=repr(q))
            got = [x.get_coarse_channel_with_frequency(frequency=q) for x in (s, o, c)]
            h.check(got == j, "channel-with-frequency", lambda: f"{q}: {got} expected {j}")
        h.check(o.number_coarse_channels == c.number_coarse_channels == nc, "target-widths", "")
        j = lib("pipe", kind="scan", files=p, fpc=0, ops="", want="")
        for mk in (lambda: pybliss.scan(p), lambda: pybliss.scan(file_path=p, fine_channels_per_coarse=0), lambda: pybliss.observation_target([p], 0).scans[0], lambda: pybliss.cadence([[p]], 0).observations[0].scans[0]):
            out = []
            ref = refused(lambda: out.append(mk()))
            h.check(ref == ("error" in j), "unknown-width", lambda: f"{ref} {str(j)[:200]}")
            if not ref and "error" not in j:
                h.check(out[0].num_coarse_channels == j["num_coarse_channels"], "unknown-width-channels", "")
                same_md(h, "unknown-width", out[0], j)
        os.unlink(p)
    elif k == 13:
        # the hits of a channel, filtered as a list and as a channel
        p, m = make(h, "f.h5", 8, 64, 1)
        s = py_ops(pybliss.scan(p, 64), ["norm", "noise:0:0", "drift:1:-9:9:1", "search:%d:4.0:3" % r.randint(0, 1)])
        cc = s.read_coarse_channel(0)
        hits = cc.hits
        o = pybliss.drift_search.filter_options()
        o.filter_zero_drift = True
        want = pybliss.drift_search.filter_hits(hits, o)
        got = pybliss.drift_search.filter_hits(cc, o)
        got = got.hits if hasattr(got, "hits") else got
        key = lambda l: [(x.start_freq_MHz, x.rate_index, x.snr) for x in l]
        h.check(key(got) == key(want) == key([x for x in hits if x.drift_rate_Hz_per_sec != 0]), "filtered-channel", lambda: f"{len(got)} {len(want)} of {len(hits)}")
        h.count("hits_filtered", len(hits))
        os.unlink(p)
    else:
        # an event's fields; a list handed over is copied
        p = h.scratch + "/e.capnp"
        lib("whits", path=p, n=6, seed=r.getrandbits(60))
        l = pybliss.io.read_hits_from_capnp_file(p)
        o = pybliss.drift_search.filter_options()
        o.filter_zero_drift = True
        n = len(l)
        for i, x in enumerate(l):
            if i % 2: x.rate_index = 0
            x.drift_rate_Hz_per_sec = 0.0 if i % 2 else 1.5
        out = pybliss.drift_search.filter_hits(l, o)
        h.check(len(l) == n and len(out) == sum(x.drift_rate_Hz_per_sec != 0 for x in l), "filtered-list", lambda: f"{len(out)} of {n}")
        os.unlink(p)
    h.count(f"call_{k}")
    h.nontrivial(f"call {k} {h.case_no}")


def main():
    global lib
    h = H(sys.argv)
    h.rule = "an operation on an array of random dtype, shape and memory layout; an export/drop sequence; an unusual argument; a pipeline run on random files from Python and from C++; a single call with random arguments"
    lib = Lib()
    sc = lambda n: max(1, int(n * float(os.environ.get("VERIF_SCALE", 1))))
    h.cases("ops", sc(3000), sc(60000), ops)
    h.cases("export", sc(500), sc(10000), export)
    h.cases("unusual", sc(400), sc(4000), unusual)
    h.cases("pipeline", sc(600), sc(8000), pipeline)
    h.cases("calls", sc(1600), sc(20000), calls)
    h.finish()
    sys.stdout.flush()
    os._exit(0)


main()
