"""C19: filters (specs/Filter.tla, WaveFilter.tla, WindowWidth.tla)."""
import numpy as np
import barotropic as bt
from barotropic import diagnostics


# Own closed forms of window functions with n (odd) points
def window(kind, n):
    h = n // 2
    d = np.arange(n) - h
    if n == 1:
        return np.ones(1)
    name, *par = (kind,) if isinstance(kind, str) else kind
    c = lambda j: np.cos(j * np.pi * d / h)
    return {
        "boxcar": lambda: np.ones(n),
        "hann": lambda: 0.5 + 0.5 * c(1),
        "hamming": lambda: 0.54 + 0.46 * c(1),
        "blackman": lambda: 0.42 + 0.5 * c(1) + 0.08 * c(2),
        "bartlett": lambda: 1 - np.abs(d) / h,
        "triang": lambda: 1 - np.abs(d) / (h + 1),
        "parzen": lambda: parzen(2 * np.abs(d) / n),
        "cosine": lambda: np.cos(np.pi * d / n),
        "gaussian": lambda: np.exp(-0.5 * (d / par[0]) ** 2),
        "exponential": lambda: np.exp(-np.abs(d) / par[1]),
        "kaiser": lambda: np.i0(par[0] * np.sqrt(1 - (d / h) ** 2)),
    }[name]()


def parzen(x):
    return np.where(x <= 0.5, 1 - 6 * x ** 2 * (1 - x), 2 * (1 - x) ** 3)


KINDS = ["boxcar", "hann", "hamming", "blackman", "bartlett", "triang", "parzen", "cosine",
         ("gaussian", 2.5), ("exponential", None, 1.5), ("kaiser", 4.)]


def check(ck):
    grids = {n: bt.Grid(180. / n) for n in (2, 3, 4, 5, 6, 9, 12, 18, 25)}
    widths(ck, grids)
    convolutions(ck, grids)
    by_wavenumber(ck, grids)
    ck.require(asymmetric=20, long=20, programs=30, integers=20, uniform=10, named=30)


def widths(ck, grids):
    for b in ck.tlc("WindowWidth", "WindowWidth"):
        if ck.rng.random() > ck.pick(0.15, 1):
            continue
        g = ck.rng.choice(list(grids.values()))
        kind = ck.rng.choice(KINDS)
        width = b["w"] * g.dlon / 100
        if ck.rng.random() < 0.1 and width > 1:
            width = int(width) if abs(int(width) - width) < 1e-12 else width
        with ck.case("window", limit=60, kind=kind, width=width, dlon=g.dlon, points=b["odd"]):
            want = window(kind, b["odd"])
            if abs(want.sum()) < 1e-9:
                continue
            got = np.asarray(g.get_filter_window(kind, width))
            if ck.expect("size", got.shape == (b["odd"],), b["odd"], got.shape):
                ck.expect_close("values", got, want / want.sum(), rel=1e-9, scale=1.)
                ck.expect_close("sum", np.asarray(got.sum()), np.asarray(1.), rel=1e-12)
        ck.replayed += 1


WINDOWS = [[1], [1, 2, 1], [1, 0, 0], [0, 0, 1], [1, 3, 5], [2, 1, 0, 3, 5], [0, 0, 0, 0, 1], [1, 2, 3, 4, 5, 6, 7]]


def convolutions(ck, grids):
    scen = []
    for _ in range(ck.pick(80, 800)):
        n = ck.rng.choice([2, 3, 4, 5, 6, 9])
        long = ck.rng.random() < 0.3
        w = lambda: [ck.rng.randint(0, 9) for _ in range(ck.rng.choice([2 * n + 3, 4 * n + 1, 4 * n + 5]))] if long else ck.rng.choice(WINDOWS)
        prog = [dict(op=ck.rng.choice(["zonal", "meridional"]), w=w()) for _ in range(1 if long else ck.rng.randint(1, 3))]
        scen.append(dict(f=[[ck.rng.randint(-9, 9) for _ in range(2 * n)] for _ in range(n + 1)], prog=prog))
    jobs = ck.tlc("FilterScen", "FilterScen", scen=scen)
    if len(jobs) != len(scen):
        raise RuntimeError("FilterScen emitted {} of {}".format(len(jobs), len(scen)))
    # All programs on small fields. The small fields need not be those of a
    # grid as long as their filtered dimension is
    small = ck.tlc("Filter", "Filter_" + ck.tier)
    ck.rng.shuffle(small)
    for b in jobs + small[:ck.pick(250, 3000)]:
        replay(ck, b, grids)
        ck.replayed += 1
    named(ck, grids)
    refused(ck, grids)


def replay(ck, b, grids):
    f0, want = np.array(b["f0"]), np.array(b["f"])
    ops = {o["op"] for o in b["prog"]}
    gz = next((g for g in grids.values() if g.nlon == f0.shape[1]), None)
    gm = next((g for g in grids.values() if g.nlat == f0.shape[0]), None)
    if ("zonal" in ops and gz is None) or ("meridional" in ops and gm is None):
        ck.count("no_grid")
        return
    total = np.prod([float(sum(o["w"])) for o in b["prog"]])
    kind = ck.rng.choice(["int", "float", "float32", "fortran", "small"])
    unit = 1e-6 if kind == "small" else 1.
    f = {"int": f0, "float": f0.astype(float), "float32": f0.astype(np.float32),
         "fortran": np.asfortranarray(f0.astype(float)), "small": f0 * unit}[kind]
    tol = dict(rel=2e-6 if kind == "float32" else 1e-11, scale=float(max(1, np.abs(want).max())) * unit)
    norm = ck.rng.random() < 0.5 and total != 0
    with ck.case("convolution", prog=b["prog"], shape=f0.shape, kind=kind, normalized=norm):
        got, keep = f, f.copy()
        for o in b["prog"]:
            w = np.array(o["w"], dtype=ck.rng.choice([int, float]) if kind == "int" else float)
            if norm:
                w = w / w.sum() if w.sum() != 0 else w.astype(float)
            g = gz if o["op"] == "zonal" else gm
            wkeep = w.copy()
            got = getattr(g, "filter_" + o["op"])(got, w)
            ck.expect("window unchanged", np.array_equal(w, wkeep))
        if norm:
            want = want / total
            tol["scale"] = float(max(1, np.abs(want).max())) * unit
        ck.expect_close("2D", got, want * unit, **tol)
        ck.expect("field unchanged", np.array_equal(f, keep))
        if len(ops) == 1:
            (op,) = ops
            i = ck.rng.randrange(f.shape[0 if op == "zonal" else 1])
            line = f[i] if op == "zonal" else f[:,i]
            for o in b["prog"]:
                w = np.array(o["w"], dtype=float)
                line = getattr(gz if op == "zonal" else gm, "filter_" + op)(line, w / w.sum() if norm and w.sum() != 0 else w)
            ck.expect_close("1D", line, (want[i] if op == "zonal" else want[:,i]) * unit, **tol)
        ck.count("asymmetric", any(o["w"] != o["w"][::-1] for o in b["prog"]))
        ck.count("long", any(len(o["w"]) > f0.shape[1 if o["op"] == "zonal" else 0] for o in b["prog"]))
        ck.count("programs", len(b["prog"]) > 1)
        ck.count("integers", kind == "int")
        ck.sample(b["prog"], 2)


def direct(f, w, periodic):
    n, h = f.shape[0], len(w) // 2
    out = np.zeros(f.shape)
    for d in range(-h, h + 1):
        i = np.arange(n) - d
        i = i % n if periodic else np.where(i % (2 * n) < n, i % (2 * n), 2 * n - 1 - i % (2 * n))
        out += w[h + d] * f[i]
    return out


def named(ck, grids):
    """Windows by name and width in degrees"""
    for _ in range(ck.pick(60, 600)):
        g = ck.rng.choice(list(grids.values()))
        kind = ck.rng.choice(KINDS)
        odd = ck.rng.choice([1, 3, 5, 7, 2 * g.nlat + 1, g.nlon + 3])
        odd += 1 - odd % 2
        # even widths are increased
        width = (odd + ck.rng.choice([-1, -0.7, 0, 0.3])) * g.dlon if odd > 1 else ck.rng.choice([0.8, 1.]) * g.dlon
        w = window(kind, odd)
        if abs(w.sum()) < 1e-9:
            continue
        w = w / w.sum()
        f = ck.nprng.normal(size=g.shape)
        if ck.rng.random() < 0.2:
            f = (f * 20).round().astype(int)
        with ck.case("named window", kind=kind, odd=odd, width=width, n=g.nlat - 1):
            tol = dict(rel=1e-10, scale=float(np.abs(f).max()))
            args = ck.rng.choice([lambda: ((kind, width), {}), lambda: ((kind,), dict(width=width)), lambda: ((), dict(window=kind, width=width)), lambda: ((g.get_filter_window(kind, width),), {})])()
            ck.expect_close("zonal", g.filter_zonal(f, *args[0], **args[1]), direct(f.T, w, True).T, **tol)
            ck.expect_close("meridional", g.filter_meridional(f, *args[0], **args[1]), direct(f, w, False), **tol)
            ck.expect_close("zonal 1D", g.filter_zonal(f[1], *args[0], **args[1]), direct(f[1], w, True), **tol)
            ck.expect_close("meridional 1D", g.filter_meridional(f[:,1], *args[0], **args[1]), direct(f[:,1], w, False), **tol)
            c = ck.rng.choice([3, 2.5, -1.])
            ck.expect_close("constant", g.filter_meridional(g.filter_zonal(np.full(g.shape, c), kind, width), kind, width), np.full(g.shape, float(c)), rel=1e-11)
            ck.count("named")


def refused(ck, grids):
    g = grids[6]
    with ck.case("refused"):
        for name in ("filter_zonal", "filter_meridional"):
            func = getattr(g, name)
            for f in (np.zeros(5), np.zeros((3, 5)), np.zeros((2, *g.shape)), np.zeros(g.shape).T):
                ck.expect_raises("{} {}".format(name, f.shape), Exception, lambda: func(f, np.array([1., 2., 1.])))
            ck.expect_raises("unknown window", Exception, lambda: func(np.zeros(g.shape), "nowindow", 30.))
        ck.expect_raises("zonal size", Exception, lambda: g.filter_zonal(np.zeros(g.nlat), np.ones(3)))
        ck.expect_raises("meridional size", Exception, lambda: g.filter_meridional(np.zeros(g.nlon), np.ones(3)))


def by_wavenumber(ck, grids):
    scen = []
    sizes = [4, 6, 8, 12, 18, 24]
    for _ in range(ck.pick(120, 1200)):
        n = ck.rng.choice(sizes)
        mode = ck.rng.choice(["uniform", "two", "any", "extreme"])
        ks = range(1, 2 * n + 12)
        k = {"uniform": lambda: [ck.rng.choice(ks)] * n,
             "two": lambda: [ck.rng.choice(p) for p in [ck.rng.sample(ks, 2)] for _ in range(n)],
             "any": lambda: [ck.rng.choice(ks) for _ in range(n)],
             "extreme": lambda: [ck.rng.choice([0, 1, 4, 2 * n, 2 * n + 7, 400]) for _ in range(n)]}[mode]()
        scen.append(dict(f=[ck.rng.randint(-9, 9) for _ in range(n)], k4=k))
    rows = {}
    for b in ck.tlc("WaveFilter", "WaveFilter", scen=scen):
        rows.setdefault(len(b["f"]), []).append(b)
        ck.replayed += 1
    def expected(b):
        out = []
        for l, s in zip(b["L"], b["sums"]):
            h = 0.5 * (1 + np.cos(np.pi * np.arange(l + 1) / l))
            out.append(np.dot(h, s) / (2 * h.sum() - h[0]))
        return out
    for n, bs in rows.items():
        # rows of a field are independent of each other
        while bs:
            m = ck.rng.choice([1, 2, n // 2 + 1])
            part, bs = bs[:m], bs[m:]
            f, k = np.array([b["f"] for b in part]), np.array([b["k4"] for b in part]) / 4.
            want = np.array([expected(b) for b in part])
            kind = ck.rng.choice(["int", "float", "float", "float32"])
            f = f.astype({"int": int, "float": float, "float32": np.float32}[kind])
            k = k.astype(int) if np.all(k == k.astype(int)) and ck.rng.random() < 0.5 else k
            with ck.case("by wavenumber", n=n, f=f, k=k):
                tol = dict(rel=2e-6 if kind == "float32" else 1e-10, scale=10.)
                keep = f.copy(), k.copy()
                ck.expect_close("2D wavenumber", diagnostics.filter_by_wavenumber(f, k), want, **tol)
                ck.expect("inputs unchanged", np.array_equal(f, keep[0]) and np.array_equal(k, keep[1]))
                uniform = [i for i in range(len(k)) if len(set(k[i])) == 1]
                if uniform:
                    got = diagnostics.filter_by_wavenumber(f[uniform], k[uniform,0])
                    ck.expect_close("1D wavenumber", got, want[uniform], **tol)
                    ck.expect_close("zonal mean", got.mean(axis=1), f[uniform].mean(axis=1), **tol)
                    ck.count("uniform", len(uniform))
                ck.expect_close("constant", diagnostics.filter_by_wavenumber(np.full(f.shape, 2.5), k), np.full(f.shape, 2.5), rel=1e-11)
    g = grids[6]
    with ck.case("wavenumber sizes"):
        ck.expect_raises("1D of other size", Exception, lambda: diagnostics.filter_by_wavenumber(np.zeros(g.shape), np.full(g.nlon, 3.)))
        ck.expect_raises("2D of other shape", Exception, lambda: diagnostics.filter_by_wavenumber(np.zeros(g.shape), np.full(g.shape[::-1], 3.)))
