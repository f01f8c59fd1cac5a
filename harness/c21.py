"""C21: stationary wavenumber (specs/StatWave.tla, Derivative.tla)."""
import numpy as np
import barotropic as bt
from barotropic import diagnostics
from .core import frac


class Flow(bt.State):
    """A state whose PV and wind are set independently of each other"""
    def __init__(self, grid, q, u):
        super().__init__(grid, 0, pv=grid.fcor2)
        self._given = q, u, np.zeros(grid.shape)
    pv = property(lambda self: self._given[0])
    u = property(lambda self: self._given[1])
    v = property(lambda self: self._given[2])
    uv = property(lambda self: self._given[1:])


class Stencil:
    """Derivative matrices from the impulse responses of the specification"""
    def __init__(self, ck, ns):
        scen = [dict(order=o, prof=True, f=[int(i == j) for i in range(n + 1)]) for n in ns for o in (2, 4) for j in range(n + 1)]
        self.d = {}
        for b in ck.tlc("DerivativeScen", "DerivativeScen", scen=scen):
            if not b["refused"]:
                d = self.d.setdefault((b["n"], b["order"]), np.zeros((b["n"] + 1, b["n"] + 1)))
                d[:, b["f"].index(1)] = [-b["n"] / np.pi * frac(x) for x in b["out"]]

    def __call__(self, n, order):
        return self.d[n, order]


def convert(ks2, kind):
    """Variants of one squared wavenumber"""
    root = np.sqrt(np.abs(ks2))
    if kind == "squared":
        return ks2
    if kind == "real":
        return np.where(ks2 < 0, -root, root)
    return np.where(ks2 < 0, 0, root), np.where(ks2 < 0, root, 0)


def expect(ck, clause, got, ks2, kind, rel=1e-9, scale=None):
    want = convert(ks2, kind)
    got = np.asarray(got)
    s = None if scale is None else scale if kind == "squared" else np.sqrt(scale)
    if kind == "complex":
        ck.expect(clause + ": complex", np.iscomplexobj(got), observed=got.dtype)
        ck.expect_close(clause + ": real part", got.real, want[0], rel=rel, scale=s)
        ck.expect_close(clause + ": imaginary part", got.imag, want[1], rel=rel, scale=s)
    else:
        ck.expect(clause + ": real", not np.iscomplexobj(got), observed=got.dtype)
        ck.expect_close(clause, got, want, rel=rel, scale=s)


def top(x):
    x = np.abs(x[np.isfinite(x)])
    return max(x.max() if x.size else 0, 1e-300)


def check(ck):
    grids = {}
    def grid(n):
        if n not in grids:
            grids[n] = [bt.Grid(180. / n), bt.Grid(180. / n, rsphere=2., omega=0.5)]
        return ck.rng.choice(grids[n])
    jobs = ck.tlc("StatWave", "StatWave_" + ck.tier, workers=4)
    ck.rng.shuffle(jobs)
    scen = []
    for _ in range(ck.pick(150, 1500)):
        n = ck.rng.choice([2, 3, 4, 5, 6, 9, 12, 18])
        hi = ck.rng.choice([2, 5, 100])
        scen.append(dict(q=[ck.rng.randint(-hi, hi) for _ in range(n + 1)] if ck.rng.random() < 0.7 else [ck.rng.randint(-hi, hi)] * (n + 1),
                         u=[ck.rng.choice([0, ck.rng.randint(-hi, hi)]) for _ in range(n + 1)],
                         order=ck.rng.choice([2, 4]), thr2=ck.rng.choice([0, 1, 3, 7])))
    for b in jobs[:ck.pick(500, 4000)] + ck.tlc("StatWaveScen", "StatWaveScen", scen=scen):
        tables(ck, b, grid(b["n"]))
        ck.replayed += 1
    ns = [4, 6, 9, 12, 18, 36]
    stencil = Stencil(ck, ns)
    winds(ck, stencil, ns)
    states(ck, stencil, ns)
    misc(ck, grid)
    ck.require(**{"no threshold": 20}, infinite=50, negative=50, zero=50, fields=50, winds=10, rests=1)


def call(ck, args, grid, order, min_u, kind):
    """Ways to pass the same arguments"""
    kw = {}
    if order != 4 or ck.rng.random() < 0.5:
        kw["order"] = order
    if min_u is not None:
        kw["min_u"] = min_u
    if kind != "complex" or ck.rng.random() < 0.5:
        kw["kind"] = kind
    if ck.rng.random() < 0.2 and len(kw) == 3:
        return diagnostics.stationary_wavenumber(args, grid, kw["order"], kw["min_u"], kw["kind"])
    return diagnostics.stationary_wavenumber(args, **kw) if grid is None else diagnostics.stationary_wavenumber(args, grid, **kw)


def tables(ck, b, g):
    n, order = b["n"], b["order"]
    uu, qq = ck.rng.choice([(1., 1.), (8., 2. ** -20), (2. ** -6, 1.)])
    u, q = np.array(b["u"]) * uu, np.array(b["q"]) * qq
    lat = np.pi / 2 - np.arange(n + 1) * np.pi / n
    ks2 = np.array([{"+inf": np.inf, "-inf": -np.inf}.get(r["t"], frac(r["v"])) for r in b["rows"]])
    ks2 = ks2 * np.cos(lat) ** 2 * g.rsphere * (n / np.pi) * (qq / uu)
    two = ck.rng.random() < 0.6
    kind = ck.rng.choice(["complex", "real", "squared"])
    with ck.case("table", n=n, order=order, u=u, q=q, min_u=b["thr2"] * uu / 2, kind=kind, fields=two):
        if two:
            # fields with exact zonal means
            dev = np.tile(ck.nprng.integers(-3, 4, (n + 1, n)), (1, 2))
            dev[:, n:] *= -1
            dev = dev[:, ck.nprng.permutation(2 * n)]
            q2, u2 = q[:, None] + dev * qq, u[:, None] - dev * uu
            if uu == 1. and ck.rng.random() < 0.3:
                u2 = u2.astype(int)
            ck.count("fields")
        else:
            q2, u2 = q, u
        keep = np.array(q2), np.array(u2)
        st = Flow(g, q2, u2)
        got = call(ck, st, None, order, b["thr2"] * uu / 2, kind)
        expect(ck, "stationary wavenumber", got, ks2, kind, scale=top(ks2))
        ck.expect("inputs unchanged", np.array_equal(q2, keep[0]) and np.array_equal(u2, keep[1]))
        ck.count("no threshold", b["thr2"] == 0 and np.any(u == 0))
        ck.count("infinite", np.any(np.isinf(ks2)))
        ck.count("negative", np.any(ks2 < 0))
        ck.count("zero", np.any(ks2[1:-1] == 0))
        ck.sample(b, 2)


def closed(g, d, u, q, min_u):
    """From profiles, with the derivative matrix d"""
    n = g.nlat - 1
    lat = np.pi / 2 - np.arange(n + 1) * np.pi / n
    grad = np.cos(lat) ** 2 * g.rsphere * d.dot(q)
    small = np.abs(u) <= min_u
    with np.errstate(all="ignore"):
        return np.where(small, np.where(grad == 0, 0, np.sign(grad) * np.inf), grad / np.where(small, 1., u))


def winds(ck, stencil, ns):
    """Profiles of wind without PV"""
    for _ in range(ck.pick(40, 400)):
        n, order = ck.rng.choice(ns), ck.rng.choice([2, 4])
        g = bt.Grid(180. / n, rsphere=ck.rng.choice([6371200., 1., 300.]), omega=ck.rng.choice([0., 7.29e-5, -1e-4, 1.]))
        lat = np.pi / 2 - np.arange(n + 1) * np.pi / n
        cos = np.cos(lat)
        shape = ck.rng.choice(["solid", "jet", "polynomial", "noise", "rest"])
        amp = ck.rng.choice([10., -25., 0.3])
        if shape == "solid":
            u = amp * cos
        elif shape == "jet":
            u = amp * cos ** 2 * np.exp(-(lat - ck.rng.uniform(-1, 1)) ** 2 * 6)
        elif shape == "polynomial":
            u = amp * cos * (1 + np.sin(lat) * ck.rng.uniform(-2, 2))
        elif shape == "noise":
            u = amp * ck.nprng.normal(size=n + 1)
            u[[0, -1]] = 0
            u[ck.rng.randrange(1, n)] = 0
        else:
            u = np.zeros(n + 1)
        min_u = ck.rng.choice([None, 0.001, 0.05, 1.])
        thr = 0.001 if min_u is None else min_u
        if np.any(np.abs(np.abs(u) - thr) < 1e-6 * thr):
            continue
        d = stencil(n, order)
        with np.errstate(all="ignore"):
            rv = -d.dot(u * cos) / cos / g.rsphere
        rv[0], rv[-1] = 2 * u[1] / cos[1] / g.rsphere, -2 * u[-2] / cos[-2] / g.rsphere
        ks2 = closed(g, d, u, 2 * g.omega * np.sin(lat) + rv, thr)
        if shape == "rest" and g.omega == 0:
            ks2[:] = 0
        # gradients that vanish except for rounding have no definite sign
        scale = np.abs(2 * g.omega) + np.abs(u).max() / g.rsphere
        grad = d.dot(2 * g.omega * np.sin(lat) + rv)
        sure = (np.abs(grad) > 1e-8 * scale) | (np.abs(u) > thr) | (np.abs(lat) > 1.57) | (scale == 0)
        kind = ck.rng.choice(["complex", "real", "squared"])
        with ck.case("wind", n=n, order=order, shape=shape, u=u, omega=g.omega, rsphere=g.rsphere, min_u=min_u, kind=kind):
            # The definition at the poles is a convention of the code: rows whose
            # stencil contains a pole are compared with exact flows below
            for w, name in ((u, "profile"), (np.repeat(u[:, None], 2 * n, 1), "field"), (u.tolist(), "list")):
                if name == "field" and shape in ("noise", "jet", "polynomial"):
                    wave = amp * np.cos(np.deg2rad(g.lon * ck.rng.randint(1, n - 1)))
                    w = w + wave
                    if np.any(np.abs(np.abs(w.mean(axis=1)) - thr) < 1e-6 * thr + 1e-12):
                        continue
                got = np.asarray(call(ck, w, g, order, min_u, kind))
                ck.expect("never NaN", not np.any(np.isnan(got)), observed=got)
                ck.expect("one value per latitude", got.shape == (n + 1,), observed=got.shape)
                expect(ck, name, got[sure], ks2[sure], kind, rel=1e-6, scale=top(ks2[sure]))
            if shape == "solid":
                # Ks^2 = 2 (Omega r / amp + 1) cos^2, at small u infinite
                exact = 2 * (g.omega * g.rsphere / amp + 1) * cos ** 2
                got = np.asarray(diagnostics.stationary_wavenumber(u, g, order, kind="squared"))
                ok = np.abs(u) > 0.0011
                tol = (40 if order == 2 else 200) / n ** order
                ck.expect_close("solid-body rotation", got[ok], exact[ok], rel=tol, scale=abs(2 * (g.omega * g.rsphere / amp + 1)) + 2)
            ck.count("winds")
            ck.count("rests", shape == "rest")


def states(ck, stencil, ns):
    for i in range(ck.pick(10, 80)):
        n, order = ck.rng.choice(ns[2:]), ck.rng.choice([2, 4])
        g = bt.Grid(180. / n) if i % 3 else bt.Grid(180. / n, rsphere=1., omega=1.)
        U = g.omega * g.rsphere / ck.rng.choice([20., -30., 8.])
        lat, lon = np.deg2rad(g.lat2), np.deg2rad(g.lon2)
        u = U * np.cos(lat) ** 2 * (1 + 3 * np.exp(-(lat - 0.6) ** 2 * 8)) + U * np.cos(lat) * np.sin(3 * lon)
        st = bt.State.from_wind(g, 3, u, U * np.cos(lat) * np.cos(2 * lon))
        # amplitude for which the difference of the sides matters
        with ck.case("state", n=n, order=order, U=U, rsphere=g.rsphere):
            mu, mq = np.array(st.u, dtype=float).mean(axis=1), np.array(st.pv, dtype=float).mean(axis=1)
            min_u = ck.rng.choice([None, 0.3 * abs(U)])
            thr = 0.001 if min_u is None else min_u
            if np.any(np.abs(np.abs(mu) - thr) < 1e-3 * thr):
                continue
            ks2 = closed(g, stencil(n, order), mu, mq, thr)
            near = np.abs(mu) > 0.02 * abs(U)
            grad = stencil(n, order).dot(mq)
            sure = np.where(np.isinf(ks2), np.abs(grad) > 1e-4 * np.abs(mq).max(), near)
            for kind in ("complex", "real", "squared"):
                got = np.asarray(call(ck, st, None, order, min_u, kind))
                ck.expect("never NaN", not np.any(np.isnan(got)), observed=got)
                expect(ck, "state", got[sure], ks2[sure], kind, rel=1e-4, scale=top(ks2[sure]))
            if min_u is None:
                got = np.asarray(st.stationary_wavenumber)
                expect(ck, "property of the state", got[sure] if order == 4 else got[sure], closed(g, stencil(n, 4), mu, mq, thr)[sure], "complex", rel=1e-4, scale=top(ks2[sure]))
            # the PV implied by the wind of the state
            for w in (st.u, mu):
                got = np.asarray(diagnostics.stationary_wavenumber(w, g, order, thr, "squared"))
                ok = near & (np.abs(lat[:, 0]) < 1.3) & np.isfinite(ks2)
                if n >= 18 and order == 4:
                    ck.expect_close("wind and PV", got[ok], ks2[ok], rel=0.1 * (18. / n) ** 2, scale=top(ks2[ok]))
                    ck.count("consistent")


def misc(ck, grid):
    g = grid(12)
    with ck.case("refused"):
        for kind in ("imaginary", "", None, 3):
            ck.expect_raises("kind {!r}".format(kind), Exception, lambda: diagnostics.stationary_wavenumber(10 * np.cos(g.phi), g, kind=kind))
        ck.expect_raises("order", Exception, lambda: diagnostics.stationary_wavenumber(10 * np.cos(g.phi), g, order=3))
        ck.expect_raises("array without grid", Exception, lambda: diagnostics.stationary_wavenumber(10 * np.cos(g.phi)))
        ck.expect_raises("size", Exception, lambda: diagnostics.stationary_wavenumber(np.ones(g.nlat + 1), g))
