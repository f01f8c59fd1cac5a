"""C13: quadrature over domains (specs/QuadDomain.tla)."""
import numpy as np
import barotropic as bt
from .core import frac

X, W = np.polynomial.legendre.leggauss(14)


class Setup:
    def __init__(self, n, **kw):
        self.n, self.g = n, bt.Grid(180. / n, **kw)
        self.r = float(self.g.rsphere)
        self.phi = np.deg2rad(90 - np.arange(n + 1) * 180. / n)
        edge = np.sin(np.deg2rad(np.clip(90 - (np.arange(n + 2) - 0.5) * 180 / n, -90, 90)))
        self.A = edge[:-1] - edge[1:]

    def line(self, seg, y):
        """Integral of y r cos(phi) over a segment (Gauss-Legendre)."""
        i = seg["i"] - 1
        a, b = frac(seg["a"]), frac(seg["b"])
        t = a + (b - a) * (X + 1) / 2
        d = self.phi[i] - self.phi[i + 1]
        val = (y[i] + t * (y[i + 1] - y[i])) * np.cos(self.phi[i] - t * d)
        return self.r * d * (b - a) / 2 * np.dot(W, val)

    def trapz(self, segs, y):
        return sum(self.line(s, y) for s in segs)

    def box(self, boxes, y):
        return self.r * sum(self.A[i - 1] * y[i - 1] for i in boxes)


def check(ck):
    columns = ck.tlc("QuadDomain", "QuadDomain_" + ck.tier)
    ck.rng.shuffle(columns)
    sizes = ck.pick([2, 3, 4, 6, 12, 36], [2, 3, 4, 5, 6, 9, 12, 18, 24, 36, 72])
    setups = {n: [Setup(n), Setup(n, rsphere=1., omega=0.5)] for n in {*sizes, ck.pick(3, 4)}}
    batches(ck, columns, setups)
    scen = []
    for n in sizes:
        for _ in range(ck.pick(40, 150)):
            hi = ck.rng.choice([1, 3, 50])
            scen.append(dict(z=[ck.rng.randint(-hi, hi) for _ in range(n + 1)] if ck.rng.random() < 0.7 else smooth(ck, n)))
    found = ck.tlc("QuadDomainScen", "QuadDomainScen", scen=scen)
    for n in sizes:
        batches(ck, [b for b in found if len(b["z"]) == n + 1], setups)
    for n in sizes:
        whole(ck, n, ck.rng.choice(setups[n]))
    misc(ck)
    ck.require(columns=250, partial=200, sectors=20, touching=50)


def smooth(ck, n):
    """Varying slowly, the sign changes at a few latitudes."""
    phase, k = ck.rng.uniform(0, 6), ck.rng.uniform(0.3, 3)
    return [int(round(1000 * np.sin(k * j * np.pi / n + phase))) for j in range(n + 1)]


def batches(ck, columns, setups):
    k = 0
    while k < len(columns):
        n = len(columns[k]["z"]) - 1
        w = ck.rng.choice([2 * n, 2 * n, n, 1, ck.rng.randint(1, 2 * n)])
        batch = columns[k:k + w]
        k += w
        batch_case(ck, batch, ck.rng.choice(setups[n]))
        ck.replayed += len(batch)


def batch_case(ck, batch, s):
    n, g, w = s.n, s.g, len(batch)
    scale = ck.rng.choice([1., 1e-5, 3e7, 0.1])
    z = np.array([b["z"] for b in batch], float).T * scale
    y = ck.nprng.normal(size=z.shape) * ck.rng.choice([1., 1e-5, 1e8])
    kind = ck.rng.choice(["float", "float", "int", "float32", "fortran", "z itself", "ones"])
    tol = 1e-9
    if kind == "int":
        y = ck.nprng.integers(-50, 50, z.shape)
    elif kind == "float32":
        y = y.astype(np.float32)
        tol = 1e-5
    elif kind == "fortran":
        y, z = np.asfortranarray(y), np.asfortranarray(z)
    elif kind == "z itself":
        y = z
    elif kind == "ones":
        y = np.ones_like(z)
    if ck.rng.random() < 0.1:
        z = np.array([b["z"] for b in batch], int).T
    y0, z0 = y.copy(), z.copy()
    with ck.case("domain of integration", n=n, z=[b["z"] for b in batch[:6]], columns=w, kind=kind, scale=scale):
        yf = np.asarray(y, float)
        for method, one in (("sptrapz", s.trapz), ("boxcount", s.box)):
            dom = "segs" if method == "sptrapz" else "boxes"
            want = np.array([one(b[dom], yf[:, i]) for i, b in enumerate(batch)])
            size = s.r * np.abs(yf).max() * np.pi
            got = g.quad_meridional(y, z, method) if ck.rng.random() < 0.5 else g.quad_meridional(y, z=z, method=method)
            ck.expect_close(f"meridional integral, {method}", got, want, rel=tol, scale=size)
            total = g.quad(y, z, method) if ck.rng.random() < 0.5 else g.quad(y, z=z, method=method)
            ck.expect_close(f"surface integral, {method}", np.asarray(total), np.asarray(s.r * np.deg2rad(180. / n) * want.sum()),
                            rel=tol, scale=s.r * size * np.deg2rad(180. / n) * w)
            if method == "sptrapz":
                ck.expect_close("default method", g.quad_meridional(y, z), want, rel=tol, scale=size)
            # columns are independent: one column alone, columns in another order
            i = ck.rng.randrange(w)
            ck.expect_close(f"single column, {method}", g.quad_meridional(y[:, i:i + 1], z[:, i:i + 1], method), want[i:i + 1], rel=tol, scale=size)
            perm = ck.nprng.permutation(w)
            ck.expect_close(f"columns in another order, {method}", g.quad_meridional(y[:, perm], z[:, perm], method), want[perm], rel=tol, scale=size)
            # complement (the specification: exact unless the field vanishes along an interval)
            free = np.array([not any(p == 0 and (method == "boxcount" or q == 0) for p, q in zip(b["z"], b["z"][1:] + [1])) for b in batch])
            if free.any():
                other = g.quad_meridional(y, -z, method)
                full = g.quad_meridional(y, method=method)
                ck.expect_close(f"complement, {method}", (want + other)[free], full[free], rel=3 * tol, scale=size)
        ck.expect("inputs unchanged", np.array_equal(y, y0) and np.array_equal(z, z0))
        ck.count("columns", w)
        ck.count("sectors", w < 2 * n)
        ck.count("partial", sum(any(q["a"] != [0, 1] or q["b"] != [1, 1] for q in b["segs"]) for b in batch))
        ck.count("touching", sum(0 in b["z"] for b in batch))
        ck.sample(batch[0], 3)


def whole(ck, n, s):
    g = s.g
    full = [dict(i=i + 1, a=[0, 1], b=[1, 1]) for i in range(n)]
    for w in {2 * n, n, 1, 2 * n - 1}:
        with ck.case("without a domain", n=n, columns=w):
            y = ck.nprng.normal(size=(n + 1, w))
            keep = y.copy()
            for method, want in (("sptrapz", [s.trapz(full, y[:, i]) for i in range(w)]), ("boxcount", [s.box(range(1, n + 2), y[:, i]) for i in range(w)])):
                want = np.array(want)
                ck.expect_close(f"{method}", g.quad_meridional(y, method=method), want, rel=1e-9, scale=10 * s.r)
                ck.expect_close(f"{method}, z None", g.quad_meridional(y, None, method), want, rel=1e-9, scale=10 * s.r)
                ck.expect_close(f"{method}, z > 0 everywhere", g.quad_meridional(y, np.full(y.shape, 1e-30), method), want, rel=1e-9, scale=10 * s.r)
                ck.expect_close(f"{method}, z = 0 everywhere", g.quad_meridional(y, np.zeros(y.shape), method), want, rel=1e-9, scale=10 * s.r)
                ck.expect_close(f"{method}, z < 0 everywhere", g.quad_meridional(y, np.full(y.shape, -1e-30), method), 0 * want, rel=0, atol=1e-9 * s.r)
                area = g.quad(np.ones((n + 1, w)), method=method)
                ck.expect_close(f"area, {method}", np.asarray(area), np.asarray(4 * np.pi * s.r**2 * w / (2 * n)), rel=1e-10)
            ck.expect("input unchanged", np.array_equal(y, keep))
    with ck.case("area north of a latitude", n=n):
        for lat in (60.5, 0.3, -45.25, -89.9, 10.):
            a = g.quad(np.ones(g.shape), g.lat2 - lat)
            ck.expect_close("area", np.asarray(a), np.asarray(2 * np.pi * s.r**2 * (1 - np.sin(np.deg2rad(lat)))), rel=1e-9)


def misc(ck):
    g = bt.Grid(30.)
    y = np.ones(g.shape)
    with ck.case("refused"):
        ck.expect_raises("method", ValueError, lambda: g.quad(y, method="trapz"))
        ck.expect_raises("method", ValueError, lambda: g.quad(y, y, "Boxcount"))
        ck.expect_raises("method", ValueError, lambda: g.quad_meridional(y, None, None))
        for bad in (np.ones(g.nlat), np.ones((g.nlat - 1, g.nlon)), np.ones(g.shape[::-1]), np.ones((1, *g.shape))):
            for method in ("sptrapz", "boxcount"):
                ck.expect_raises(f"field of shape {bad.shape}", Exception, lambda: g.quad(bad, method=method))
