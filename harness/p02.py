"""P02: the Python package as it is shipped - its hit tables and hit plots - against the objects they are made from.
matplotlib is not installed here: a stand-in records every figure, axis and call instead of drawing."""
import copy, gc, json, os, re, subprocess, sys, types
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vhpy import H
import numpy as np

BIN = os.environ["VERIF_BIN_DIR"]
REPO = os.environ.get("VERIF_REPO", "/repo")
FIGS = []


class Rec:
    """anything matplotlib that does not matter: takes every call"""
    def __init__(self, *a, **k): pass
    def __call__(self, *a, **k): return Rec()
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Rec()
    def __getitem__(self, i): return Rec()
    def __iter__(self): return iter(())


class Rectangle(Rec):
    def __init__(self, xy, width, height, **k):
        self.x, self.y, self.w, self.h = xy[0], xy[1], width, height


class Axes(Rec):
    def __init__(self):
        self.lines, self.images, self.boxes, self.limits = [], [], [], []
    def plot(self, *a, **k):
        if len(a) >= 2: self.lines.append((np.array(a[0], float), np.array(a[1], float)))
        return [Rec()]
    def imshow(self, data, *a, **k):
        self.images.append((np.array(data), list(k.get("extent") or [])))
        self.limits.append((k.get("vmin"), k.get("vmax")))
        return Rec()
    def add_patch(self, p):
        self.boxes.append(p)
        return p
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Rec()


class Figure(Rec):
    def __init__(self, *a, **k):
        self.axes, self.titles = [], []
        FIGS.append(self)
    def suptitle(self, t, *a, **k): self.titles.append(str(t))
    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]
    def subplots(self, nrows=1, ncols=1, **k):
        ax = [self.add_subplot() for _ in range(nrows * ncols)]
        return ax[0] if len(ax) == 1 else np.array(ax, dtype=object)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Rec()


class Alt:
    """anything altair: remembers the call that made it"""
    def __init__(self, name, args=(), kw=None, of=None):
        self._n, self._a, self._k, self._of = name, args, kw or {}, of
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Alt("." + n, of=self)
    def __call__(self, *a, **k): return Alt(self._n, a, k, self._of)
    def __and__(self, o): return Alt("&", (self, o))
    def __or__(self, o): return Alt("|", (self, o))
    def __add__(self, o): return Alt("+", (self, o))
    def walk(self):
        """every call in the chart"""
        yield self
        for v in [self._of, *self._a, *self._k.values()]:
            if isinstance(v, Alt): yield from v.walk()


def charts(x):
    """the single charts a concatenation is made of"""
    if x._n in ("&", "|", "+"): return charts(x._a[0]) + charts(x._a[1])
    return [x]


def scatter(h):
    """the scatter matrix plots the hits it is given, by quantities that they have"""
    r = h.rng
    T, fpc, nc = r.choice([4, 8]), r.choice([16, 64]), r.randint(1, 2)
    s = searched(bl.scan(make(h, "sm.h5", T, fpc, nc, band(r)), fpc), r)
    rows = bl.plot_utils.get_hits_list(s)
    if rows and r.random() < 0.15: # as many as long observations give
        rows = [dict(rows[i % len(rows)], SNR=float(i)) for i in range(r.choice([257, 5001, 20000, 70001]))]
    keep = copy.deepcopy(rows)
    h.describe(f"scatter matrix of {len(rows)} hits, T {T} fpc {fpc} nc {nc}")
    c = bl.plot_utils.scatter_matrix_hits(rows)
    if not h.check(isinstance(c, Alt), "scatter-chart", lambda: repr(type(c))): return
    h.check(rows == keep, "scatter-changes-hits")
    known = set(ROW) | {"origin", "count()"}
    pairs, hist = set(), set()
    for one in charts(c):
        calls = list(one.walk())
        data = [q for q in calls if q._n == ".Data"]
        h.check(bool(data) and all(list(q._k.get("values", q._a[0] if q._a else [])) == keep for q in data), "scatter-data", lambda: f"{[(q._a, q._k) for q in data]}")
        fields, rep = [], [q for q in calls if q._n == ".repeat" and q._of is not None and "row" in q._k]
        for q in calls:
            if q._n in (".X", ".Y"): fields += [v for v in q._a[:1] if isinstance(v, str)]
            if q._n == ".encode": fields += [v for k, v in q._k.items() if isinstance(v, str)]
        for q in rep:
            for a in q._k["row"]:
                for b in q._k["column"]: pairs.add((a, b))
            fields += list(q._k["row"]) + list(q._k["column"])
        names = {f.rsplit(":", 1)[0] for f in fields}
        h.check(names <= known, "scatter-field", lambda: f"{sorted(names - known)}")
        if not rep: hist |= names & set(ROW)
    shown = {a for p in pairs for a in p}
    h.check(len(shown) >= 2 and all((a, b) in pairs for a in shown for b in shown), "scatter-pairs", lambda: f"{sorted(pairs)}")
    h.check(hist == shown, "scatter-histograms", lambda: f"histograms of {sorted(hist)}, scatter plots of {sorted(shown)}")
    h.count("scatter_rows", len(rows))
    if rows: h.nontrivial(h.desc)


def stand_in():
    a = types.ModuleType("altair")
    a.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith("__") else Alt("." + n)
    sys.modules["altair"] = a
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith("__") else Rec()
        sys.modules[name] = m
        return m
    fig = Figure
    def subplots(nrows=1, ncols=1, **k):
        f = fig()
        return f, f.subplots(nrows, ncols)
    sub = dict(pyplot=mod("matplotlib.pyplot", figure=fig, subplots=subplots), gridspec=mod("matplotlib.gridspec", GridSpec=Rec),
               patheffects=mod("matplotlib.patheffects", Stroke=Rec, Normal=Rec), patches=mod("matplotlib.patches", Rectangle=Rectangle))
    top = mod("matplotlib", **sub)
    top.__path__ = []


def package(h):
    """the package laid out as the build lays it out"""
    d = h.scratch + "/pkg"
    os.makedirs(d + "/blissdedrift", exist_ok=True)
    src = REPO + "/bliss/python/blissdedrift"
    for f in os.listdir(src):
        if f != "__pycache__" and not os.path.lexists(f"{d}/blissdedrift/{f}"): os.symlink(f"{src}/{f}", f"{d}/blissdedrift/{f}")
    for f in ("pybliss.so", "pybland.so"):
        if not os.path.lexists(f"{d}/blissdedrift/{f}"): os.symlink(f"{BIN}/py/{f}", f"{d}/blissdedrift/{f}")
    sys.path.insert(0, d)


class Lib:
    def __init__(self):
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        self.p = subprocess.Popen([BIN + "/h_pyo"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)
    def __call__(self, cmd, **kv):
        self.p.stdin.write("\t".join([cmd] + [f"{k}={v}" for k, v in kv.items()]) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line: raise RuntimeError("the C++ side ended: %s" % self.p.wait())
        j = json.loads(line)
        if isinstance(j, dict) and "error" in j: raise RuntimeError(j["error"])
        return j


lib = bl = None


def arr(x):
    return np.array(np.from_dlpack(x))


def searched(x, r, search=True):
    fl, pp, es, ds = bl.flaggers, bl.preprocess, bl.estimators, bl.drift_search
    if r.random() < 0.5: x = pp.normalize(x)
    if r.random() < 0.3: x = fl.flag_filter_rolloff(x, 0.05)
    o = es.noise_power_estimate_options()
    o.estimator_method = es.noise_power_estimator.stddev
    o.masked_estimate = r.random() < 0.5
    x = es.estimate_noise_power(x, o)
    o = bl.integrate_drifts_options()
    o.desmear, o.low_rate, o.high_rate, o.rate_step_size = r.random() < 0.5, -r.randint(0, 9), r.randint(1, 10), r.randint(1, 2)
    x = ds.integrate_drifts(x, o)
    if not search: return x
    o = ds.hit_search_options()
    o.method = r.choice([ds.hit_search_methods.local_maxima, ds.hit_search_methods.connected_components])
    o.snr_threshold = r.choice([3.0, 5.0, 9.0])
    o.neighbor_l1_dist = r.randint(1, 8)
    return ds.hit_search(x, o)


def make(h, name, T, fpc, nc, like):
    p = f"{h.scratch}/{name}"
    lib("make", path=p, seed=h.rng.getrandbits(60), T=T, fpc=fpc, nc=nc, like=1, **{k: repr(v) for k, v in like.items()})
    return p


def band(r):
    foff = r.choice([-1, 1]) * r.choice([2.7939677238464355e-06, 3e-6, 1e-4, 2.86e-3, 1e-5])
    return dict(fch1=r.choice([1400.0, 8421.386717353016, 2300.5, 50.0]), foff=foff, tsamp=r.choice([18.253611008, 1.0, 1.07374182, 10.0]))


ROW = {"start_freq_MHz": "start_freq_MHz", "drift_rate_Hz_per_sec": "drift_rate_Hz_per_sec", "SNR": "snr", "power": "power", "bandwidth_Hz": "bandwidth"}


def rows_ok(h, key, rows, hits):
    if not h.check(isinstance(rows, list) and len(rows) == len(hits), key + "-count", lambda: f"{rows if not isinstance(rows, list) else len(rows)} rows of {len(hits)} hits"): return False
    for i, (a, b) in enumerate(zip(rows, hits)):
        for k, f in ROW.items():
            h.check(k in a and a[k] == getattr(b, f), key + "-value", lambda: f"row {i} {k} {a.get(k)} of a hit with {getattr(b, f)}")
    h.count("rows", len(rows))
    return True


def table(h):
    """get_hits_list gives one row per hit, in order, with the hit's values and an origin that tells the scans apart"""
    r = h.rng
    T, fpc, nc = r.choice([4, 8, 16]), r.choice([16, 32, 64]), r.randint(1, 3)
    kind = r.choice(["cc", "scan", "obs", "cad", "cad", "many"])
    like = band(r)
    n = 0
    def one():
        nonlocal n
        n += 1
        return bl.scan(make(h, f"t{n}.h5", T, fpc, nc, like), fpc)
    name = r.choice([None, None, "mine", ""]) if kind != "cad" else None
    many = kind == "many"
    if many: kind, nc, fpc, T = "cad", 1, 16, 4
    if kind in ("cc", "scan"): x, scans = (s := searched(one(), r)), [s]
    elif kind == "obs":
        x = searched(bl.observation_target([one() for _ in range(r.randint(1, 3))]), r)
        scans = list(x.scans)
    else:
        if many: name = None
        sizes = [1] * r.choice([26, 27, 30, 60]) if many else [r.randint(1, 3) for _ in range(r.randint(1, 4))]
        first = one() if many else None
        x = searched(bl.cadence([bl.observation_target([first if many else one() for _ in range(k)]) for k in sizes]), r)
        scans = [s for o in x.observations for s in o.scans]
    h.describe(f"table of {kind} of {len(scans)} scans T {T} fpc {fpc} nc {nc} name {name!r} {like}")
    if kind == "cc":
        x = x.read_coarse_channel(r.randrange(nc))
        per = [x.hits]
    else:
        per = [s.hits() for s in scans]
    hits = [t for p in per for t in p]
    rows = bl.plot_utils.get_hits_list(x, name) if name is not None else bl.plot_utils.get_hits_list(x)
    if rows_ok(h, "table", rows, hits):
        i, seen = 0, []
        for p in per:
            part = {str(w.get("origin")) for w in rows[i:i + len(p)]}
            i += len(p)
            h.check(len(part) <= 1 and None not in part, "table-origin", lambda: f"origins {part} within one scan")
            seen += list(part)
        h.check(len(set(seen)) == len(seen), "table-origins-shared", lambda: f"{seen}")
        if name and kind in ("cc", "scan", "obs"): h.check(all(name in str(w.get("origin")) for w in rows), "table-origin-name", lambda: f"{seen} for {name}")
    again = bl.plot_utils.get_hits_list(x, name) if name is not None else bl.plot_utils.get_hits_list(x)
    h.check(again == rows, "table-again", lambda: f"{len(again)} {len(rows)}")
    del x, scans, per
    gc.collect()
    if hits: h.nontrivial(h.desc)
    if many: h.count("large_cadences")


def near(a, b, tol):
    return abs(a - b) <= tol


def find_image(fig, full):
    """(axes, image, extent, first column) of an image that shows a run of columns of full"""
    for ax in fig.axes:
        for img, ext in ax.images:
            if img.ndim != 2 or img.shape[0] != full.shape[0] or not 0 < img.shape[1] <= full.shape[1]: continue
            for lo in range(full.shape[1] - img.shape[1] + 1):
                if np.array_equal(img, full[:, lo:lo + img.shape[1]], equal_nan=True): return ax, img, ext, lo
    return None


def has_line(ax, x, y, tol, ytol):
    return any(len(lx) == 2 and len(ly) == 2 and ((near(lx[0], x[0], tol) and near(lx[1], x[1], tol) and near(ly[0], y[0], ytol) and near(ly[1], y[1], ytol)) or
               (near(lx[1], x[0], tol) and near(lx[0], x[1], tol) and near(ly[1], y[0], ytol) and near(ly[0], y[1], ytol))) for lx, ly in ax.lines)


def has_box(ax, lo, hi, y0, y1, tol, ytol):
    return any(near(min(b.x, b.x + b.w), lo, tol) and near(max(b.x, b.x + b.w), hi, tol) and b.w >= -tol and
               min(b.y, b.y + b.h) >= y0 - ytol and max(b.y, b.y + b.h) <= y1 + ytol and abs(b.h) >= (y1 - y0) - ytol for b in ax.boxes)


def plots(h):
    """every figure shows the spectrum and plane around its hit, at their own frequencies and times, with the hits where they are"""
    r = h.rng
    T, fpc = r.choice([4, 8, 16]), r.choice([16, 64, 64, 200])
    like = band(r)
    foff, fch1, ts = like["foff"], None, like["tsamp"]
    nc = r.randint(1, 3)
    sc = searched(bl.scan(make(h, "p.h5", T, fpc, nc, like), fpc), r)
    cc = sc.read_coarse_channel(r.randrange(nc))
    fch1 = cc.fch1
    spec, plane = np.log10(arr(cc.data) + 1e-3), np.log10(arr(cc.integrated_drift_plane().integrated_drifts) + 1e-3)
    own = cc.hits
    mode = r.choice(["none", "all", "focus", "focus", "focus", "both"])
    pool = list(own)
    if own:
        for _ in range(r.randint(0, 5)): # hits anywhere in the band, its edges included
            t = copy.copy(r.choice(own))
            ch = r.choice([0, 0.5, 1, fpc - 1, fpc - 1.5, r.uniform(0, fpc - 1)])
            t.start_freq_MHz = fch1 + foff * ch
            t.drift_rate_Hz_per_sec = r.choice([0, r.uniform(-1, 1) * abs(foff) * 1e6 / ts])
            t.bandwidth = r.choice([abs(foff) * 1e6, 3 * abs(foff) * 1e6, 0.0])
            pool.append(t)
    r.shuffle(pool)
    focus = pool[:r.randint(0, 4)] if mode in ("focus", "both") else None
    every = pool if mode in ("all", "both") else None
    pad = r.choice([None, None, 0, 500, abs(foff) * 1e6 * r.choice([2, 7, 30, 1000])])
    h.describe(f"plots {mode} of {len(own)} hits, {len(focus) if focus is not None else 'no'} focused, T {T} N {fpc} padding {pad} {like}")
    FIGS.clear()
    kw = {}
    if focus is not None: kw["focus_hits"] = focus
    if every is not None: kw["all_hits"] = every
    if pad is not None: kw["frequency_padding_Hz"] = pad
    figs = bl.plot_utils.plot_hits(cc, **kw)
    pad = (500 if pad is None else pad) * 1e-6
    t0 = cc.tstart * 24 * 60 * 60
    t1 = t0 + ts * T
    tol, ytol = abs(foff) * 0.05, ts * 0.12
    ends = lambda t: (t.start_freq_MHz, t.start_freq_MHz + (t1 - t0) * t.drift_rate_Hz_per_sec * 1e-6)
    ok = h.check(len(figs) == (1 if focus is None else len(focus)) and all(isinstance(f, Figure) for f in figs), "figure-count", lambda: f"{len(figs)} figures for {len(focus) if focus is not None else 'all'}")
    for i, f in enumerate(figs if ok else []):
        s, p = find_image(f, spec), find_image(f, plane)
        if not h.check(s is not None and p is not None, "figure-data", lambda: f"figure {i}: spectrum {s is not None}, plane {p is not None} of the channel"): continue
        h.check(s[1].shape[1] == p[1].shape[1] and (s[3] == p[3] or p[1].shape[0] == 1), "figure-plane-elsewhere", lambda: f"figure {i}: spectrum from {s[3]}, plane from {p[3]}")
        lo, hi = s[3], s[3] + s[1].shape[1]
        wlo, whi = (0, fpc)
        if focus is not None:
            a, b = sorted((v - fch1) / foff for v in ends(focus[i]))
            half = (focus[i].bandwidth * 1e-6 + pad) / 2 / abs(foff)
            a, b = a - half, b + half
            wlo, whi = min(max(0, a), fpc), min(fpc, max(0, b))
        h.check(lo <= wlo + 1.01 and hi >= whi - 1.01 and lo >= wlo - 2.5 and hi <= whi + 2.5, "figure-range", lambda: f"figure {i} shows channels {lo}..{hi}, the hit and its padding are {wlo}..{whi}")
        if focus is not None: h.check(lo <= (focus[i].start_freq_MHz - fch1) / foff + 0.01 and hi >= (focus[i].start_freq_MHz - fch1) / foff - 0.01, "figure-without-hit", lambda: f"figure {i} shows channels {lo}..{hi}, its hit starts at {(focus[i].start_freq_MHz - fch1) / foff}")
        for ext, what in ((s[2], "spectrum"), (p[2], "plane")):
            h.check(len(ext) == 4 and near(ext[0], fch1 + foff * lo, 2.1 * abs(foff)) and near(ext[1], fch1 + foff * hi, 2.1 * abs(foff)), "figure-frequencies", lambda: f"figure {i} {what}: channels {lo}..{hi} at {(ext[0] - fch1) / foff}..{(ext[1] - fch1) / foff}")
        h.check(len(s[2]) == 4 and near(max(s[2][2:]), t1, ytol) and near(min(s[2][2:]), t0, ytol) and s[2][2] > s[2][3], "figure-times", lambda: f"figure {i}: {s[2]} expected {t1}..{t0}")
        # the colours span the samples shown
        for ax in f.axes:
            for (img, _), (a, b) in zip(ax.images, ax.limits):
                ok = np.isfinite(img)
                if ok.all() and a is not None and b is not None: h.check(float(a) <= float(img.min()) + 1e-5 and float(b) >= float(img.max()) - 1e-5, "figure-colours", lambda: f"figure {i}: {a}..{b} of samples {img.min()}..{img.max()}")
        # a title that tells numbers tells those of its hit
        if focus is not None and f.titles:
            nums = [float(v) for t in f.titles for v in re.findall(r"[-+]?[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?", t)]
            t = focus[i]
            if nums: h.check(any(near(v, t.start_freq_MHz, 1e-3) for v in nums) and (len(nums) < 2 or any(near(v, t.drift_rate_Hz_per_sec, 0.006 + 0.006 * abs(v)) for v in nums)), "figure-title", lambda: f"figure {i}: {f.titles} of a hit at {t.start_freq_MHz} MHz drifting {t.drift_rate_Hz_per_sec}")
        # the summed spectrum
        want = s[1].sum(0)
        h.check(any(len(ly) == len(want) and len(lx) == len(ly) and np.allclose(ly, want, rtol=1e-4, atol=1e-5, equal_nan=True) for ax in f.axes for lx, ly in ax.lines), "figure-sum", lambda: f"figure {i}")
        shown = [focus[i]] if focus is not None else (every if every is not None else own)
        others = []
        if focus is not None:
            fa, fb = sorted(ends(focus[i]))
            m = (focus[i].bandwidth * 1e-6 + pad) / 2
            others = [t for t in (every if every is not None else focus) if any(fa - m + tol < v < fb + m - tol for v in ends(t))]
        for t in list(shown) + others:
            a, b = sorted(ends(t))
            bw = t.bandwidth * 1e-6 / 2
            h.check(has_line(s[0], ends(t), (t0, t1), tol, ytol), "hit-line-missing", lambda: f"figure {i}: hit at channel {(t.start_freq_MHz - fch1) / foff}")
            h.check(has_box(s[0], a - bw, b + bw, t0, t1, tol, ytol), "hit-box-missing", lambda: f"figure {i}: hit at channel {(t.start_freq_MHz - fch1) / foff}, bandwidth {t.bandwidth}; boxes " +
                    str([((q.x - fch1) / foff, q.w / foff) for q in s[0].boxes[:4]]))
            h.count("hits_drawn")
        h.count("figures")
    # nothing that was drawn changed
    h.check(np.array_equal(np.log10(arr(cc.data) + 1e-3), spec), "plot-changes-data")
    h.check([(a.start_freq_MHz, a.snr) for a in cc.hits] == [(a.start_freq_MHz, a.snr) for a in own], "plot-changes-hits")
    if own: h.nontrivial(h.desc)


def main():
    global lib, bl
    h = H(sys.argv)
    h.rule = "a table or a set of plots made from a channel, scan, target or cadence that has hits, compared value by value with those hits and with the channel's spectrum and plane"
    stand_in()
    package(h)
    import blissdedrift
    bl = blissdedrift
    lib = Lib()
    sc = lambda n: max(1, int(n * float(os.environ.get("VERIF_SCALE", 1))))
    h.cases("table", sc(120), sc(2500), table)
    h.cases("plots", sc(400), sc(8000), plots)
    h.cases("scatter", sc(60), sc(1200), scatter)
    h.finish()
    sys.stdout.flush()
    os._exit(0)


main()
