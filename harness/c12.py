"""C12: area-weighted means (specs/Means.tla, MeanCall.tla)."""
import numpy as np
import barotropic as bt

AXES = {"None": None, "0": 0, "-2": -2, "1": 1, "-1": -1, "2": 2, "-3": -3, "0.5": 0.5}


class Setup:
    def __init__(self, n, **kw):
        self.n = n
        self.g = bt.Grid(180. / n, **kw)
        edge = np.clip(90 - (np.arange(n + 2) - 0.5) * 180 / n, -90, 90)
        s = np.sin(np.deg2rad(edge))
        self.A = s[:-1] - s[1:]

    def region(self, rows, west, width, rng=None):
        """The same region through the public indexer."""
        g, n = self.g, self.n
        d = 180. / n
        lat = (90 - rows[0] * d, 90 - rows[1] * d)
        if rng is not None and rng.random() < 0.5:
            lat = lat[::-1]
        if width == 2 * n:
            lon = slice(None, None)
        else:
            e = (west + width - 1) % (2 * n)
            lon = slice(west * d - d / 4 if west and rng is not None and rng.random() < 0.3 else west * d, e * d)
        return g.region[lon, lat[0]:lat[1]]


def cols(b_west, b_width, n):
    return [(b_west + i) % (2 * n) for i in range(b_width)]


def check(ck):
    setups = {}
    def setup(n):
        if n not in setups:
            setups[n] = [Setup(n), Setup(n, rsphere=1., omega=0.), Setup(n, ntrunc=n - 1, rsphere=3.4e6)]
        return ck.rng.choice(setups[n])
    jobs = ck.tlc("Means", "Means_" + ck.tier)
    ck.rng.shuffle(jobs)
    for b in jobs[:ck.pick(1500, 15000)]:
        basis(ck, b, setup(b["n"]))
        ck.replayed += 1
    scen = []
    for _ in range(ck.pick(80, 500)):
        n = ck.rng.choice([5, 6, 9, 12])
        a, b = sorted((ck.rng.randint(0, n), ck.rng.randint(0, n)))
        scen.append(dict(n=n, point=[ck.rng.randint(0, n), ck.rng.randint(0, 2 * n - 1)], rows=[a, b], west=ck.rng.randint(0, 2 * n - 1), width=ck.rng.randint(1, n)))
    sim = ck.tlc("MeansScen", "MeansScen", scen=scen, args=["-simulate", f"num={ck.pick(60, 500)}", "-depth", "4", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    for b in sim[:ck.pick(500, 5000)]:
        if b["steps"]:
            basis(ck, b, setup(b["n"]))
            blocks(ck, b, setup(b["n"]))
            ck.replayed += 1
    for b in ck.tlc("MeanCall", "MeanCall"):
        call(ck, b, setup)
        ck.replayed += 1
    for n in ck.pick([6, 18, 36], [6, 7, 18, 36, 45, 72, 90]):
        fields(ck, n, Setup(n))
    ck.require(nonzero=100, crossing=100, union=100, refused=100)


def spell(ck, axis):
    return ck.rng.choice({None: [None], 0: [0, -2, "meridional"], 1: [1, -1, "zonal"]}[axis])


def basis(ck, b, s):
    """The mean of the field that is 1 at one point."""
    n, g = b["n"], s.g
    f = np.zeros(g.shape)
    f[b["row"], b["col"]] = 1.
    if ck.rng.random() < 0.2:
        f = f.astype(ck.rng.choice([int, np.float32, bool]))
    num, den = np.array(b["num"], float), np.array(b["den"], float)
    js = list(range(b["rows"][0], b["rows"][1] + 1))
    is_ = cols(b["west"], b["width"], n)
    inside = b["row"] in js and b["col"] in is_
    with ck.case("mean of a point over a region", **{k: b[k] for k in ("n", "row", "col", "rows", "west", "width")}):
        r = s.region(b["rows"], b["west"], b["width"], ck.rng)
        ck.expect("region", r.shape == (len(js), len(is_)), (len(js), len(is_)), r.shape)
        want = (num * s.A).sum() / (den * s.A).sum()
        part = f[np.ix_(js, is_)]
        for what, field in (("whole field", f), ("extracted field", part), ("extracted by the region", r.extract(f))):
            tol = dict(rel=1e-6, atol=1e-7) if f.dtype == np.float32 else dict(rel=1e-10, atol=1e-14)
            ck.expect_close(f"mean, {what}", np.asarray(g.mean(field, region=r)), np.asarray(want), **tol)
            ck.expect_close(f"mean, axis None, {what}", np.asarray(g.mean(field, None, r)), np.asarray(want), **tol)
            ck.expect_close(f"mean of the region, {what}", np.asarray(r.mean(field)), np.asarray(want), **tol)
            ck.expect_close(f"zonal mean, {what}", g.mean(field, spell(ck, 1), r), part.mean(axis=1), **tol)
            ck.expect_close(f"meridional mean, {what}", g.mean(field, axis=spell(ck, 0), region=r),
                            (part * s.A[js][:, None]).sum(axis=0) / s.A[js].sum(), **tol)
        if len(js) == n + 1 and len(is_) == 2 * n:
            ck.expect_close("global mean", np.asarray(g.mean(f)), np.asarray(want), rel=1e-6, atol=1e-7)
        ck.count("nonzero", inside)
        ck.count("crossing", b["west"] + b["width"] > 2 * n)
        ck.sample(b, 2)


def blocks(ck, b, s):
    """Means of disjoint parts combine to the mean of the union."""
    n, g = b["n"], s.g
    f = ck.nprng.integers(-1000, 1000, g.shape).astype(float)
    with ck.case("mean of a union", **{k: b[k] for k in ("n", "rows", "west", "width", "steps")}):
        last = b["steps"][0]
        # the region before the first step
        first_rows, first_width = list(b["rows"]), b["width"]
        for st in reversed(b["steps"]):
            if st["rows"][1] == first_rows[1] and st["rows"][0] > first_rows[0] and st["width"] == first_width and st["west"] == b["west"]:
                first_rows[1] = st["rows"][0] - 1
            else:
                first_width -= st["width"]
        parts = [dict(rows=first_rows, west=b["west"], width=first_width)] + b["steps"]
        total = weight = 0.
        for p in parts:
            r = s.region(p["rows"], p["west"], p["width"], ck.rng)
            w = r.gridpoint_area.sum() * r.shape[1]
            ck.expect("area", abs(w - r.extract(np.repeat(g.gridpoint_area[:, None], 2 * n, 1)).sum()) <= 1e-10 * w)
            total += r.mean(f) * w
            weight += w
        u = s.region(b["rows"], b["west"], b["width"], ck.rng)
        ck.expect_close("mean of the union", np.asarray(u.mean(f)), np.asarray(total / weight), rel=1e-9, atol=1e-9)
        h = ck.nprng.integers(-1000, 1000, g.shape)
        x, y = ck.rng.randint(-9, 9), ck.rng.uniform(-2, 2)
        for axis in (None, 0, 1):
            m = lambda q: np.asarray(g.mean(q, axis, u))
            ck.expect_close("linear", m(x * f + y * h), x * m(f) + y * m(h), rel=1e-9, atol=1e-9)
            c = m(np.full(g.shape, 2.5))
            ck.expect_close("constant", c, np.full(c.shape, 2.5), rel=1e-12)
        # values outside of the selection do not contribute
        keep = f.copy()
        masked = np.where(u.mask, f, ck.rng.choice([np.nan, np.inf, 1e300]))
        for axis in (None, 0, 1):
            ck.expect_close("only the selection contributes", np.asarray(g.mean(masked, axis, u)), np.asarray(g.mean(f, axis, u)), rel=1e-12, atol=1e-12)
        ck.expect("field unchanged", np.array_equal(f, keep))
        ck.count("union")


def call(ck, b, setup):
    n = ck.rng.choice([5, 6, 9])
    s = setup(n)
    g = s.g
    rows, west, width = ck.rng.choice([((1, n - 1), 2 * n - 2, 5), ((0, 2), 1, 3), ((n, n), 0, 2 * n - 1)])
    region = None if b["region"] == "none" else s.region(rows, west, width) if b["region"] == "part" else s.region((0, n), 0, 2 * n)
    js, is_ = (list(range(rows[0], rows[1] + 1)), cols(west, width, n)) if b["where"] == "region" else (list(range(n + 1)), list(range(2 * n)))
    full = ck.nprng.normal(size=g.shape) * 1e3
    part = full[np.ix_(js, is_)]
    field = {"full": full, "extracted": part if region is not None else full[1:3, 2:5], "transposed": full.T, "profile lat": full[:, 0],
             "profile lon": full[0], "3d": full[None], "other": np.ones((3, 4))}[b["field"]]
    args = {} if b["axis"] == "absent" else dict(axis=AXES.get(b["axis"], b["axis"]))
    if region is not None:
        args["region"] = region
    with ck.case("call of mean", **b, n=n):
        if b["outcome"] == "refused":
            ck.expect_raises("mean", Exception, lambda: g.mean(field, **args))
            ck.count("refused")
            return
        A = s.A[js][:, None] * np.ones(len(is_))
        want = {"both": lambda: (part * A).sum() / A.sum(), "meridional": lambda: (part * A).sum(axis=0) / A.sum(axis=0), "zonal": lambda: part.mean(axis=1)}[b["outcome"]]()
        ck.expect_close("mean", np.asarray(g.mean(field, **args)), np.asarray(want), rel=1e-10, atol=1e-10)


def fields(ck, n, s):
    g = s.g
    with ck.case("global means of known functions", n=n):
        ck.expect_close("constant", np.asarray(g.mean(np.full(g.shape, -7.25))), np.asarray(-7.25), rel=1e-12)
        ck.expect_close("odd function", np.asarray(g.mean(np.sin(g.phi2))), np.asarray(0.), atol=1e-12)
        ck.expect_close("wave", np.asarray(g.mean(np.cos(g.phi2) * np.cos(2 * g.lam2))), np.asarray(0.), atol=1e-12)
        ck.expect_close("mean of the squared sine converges to 1/3", np.asarray(g.mean(np.sin(g.phi2)**2)), np.asarray(1 / 3), atol=2. / n**2)
        m = g.mean(g.lat2, "zonal")
        ck.expect_close("zonal mean", m, g.lat, rel=1e-12)
        m = g.mean(g.lon2, "meridional")
        ck.expect_close("meridional mean", m, g.lon, rel=1e-12)
        f = ck.nprng.normal(size=g.shape)
        a = np.average(g.mean(f, "zonal"), weights=s.A)
        ck.expect_close("mean of the zonal means", np.asarray(g.mean(f)), np.asarray(a), rel=1e-10, atol=1e-12)
        ck.expect_close("mean of the meridional means", np.asarray(g.mean(f)), np.asarray(g.mean(f, "meridional").mean()), rel=1e-10, atol=1e-12)
        nh, sh = g.region[:, 0.1:90], g.region[:, -90:0]
        w = [r.gridpoint_area.sum() for r in (nh, sh)]
        ck.expect_close("hemispheres", np.asarray(g.mean(f)), np.asarray((nh.mean(f) * w[0] + sh.mean(f) * w[1]) / sum(w)), rel=1e-10, atol=1e-12)
