"""C15: local wave activity (specs/Falwa.tla)."""
import numpy as np
import barotropic as bt
from barotropic.diagnostics import falwa, fawa
from .core import frac
from . import c13, c14


class Setup(c14.Setup):
    """With line integrals of c13."""
    line = c13.Setup.line
    box = c13.Setup.box
    trapz = c13.Setup.trapz

    def cap(self, y, v):
        """Integral of v r cos(phi) north of latitude y (degrees), v linear between the latitudes."""
        out = 0.
        p = np.deg2rad(y)
        for i in range(self.n):
            d = self.phi[i] - self.phi[i + 1]
            b = min(max((self.phi[i] - p) / d, 0.), 1.)
            if b > 0:
                t = b * (c13.X + 1) / 2
                out += self.r * d * b / 2 * np.dot(c13.W, (v[i] + t * (v[i + 1] - v[i])) * np.cos(self.phi[i] - t * d))
        return out

    def cap_box(self, j, v):
        """Boxcounting: the gridpoints north of the dual latitude south of row j."""
        return self.r * float(np.dot(self.A[:j + 1], v[:j + 1]))


def check(ck):
    setups = {}
    def setup(n):
        if n not in setups:
            setups[n] = [Setup(n), Setup(n, rsphere=1., omega=0.5)]
        return ck.rng.choice(setups[n])
    for b in ck.tlc("Falwa", "Falwa_" + ck.tier):
        replay(ck, b, setup(len(b["f"][0]) - 1))
        ck.replayed += 1
    scen = []
    for _ in range(ck.pick(60, 500)):
        n = ck.rng.choice([2, 3, 4, 5, 6])
        w = ck.rng.choice([1, n, 2 * n, 2 * n])
        levels = [ck.rng.randint(-7, 7) for _ in range(ck.rng.randint(1, 5))]
        scen.append(dict(f=c14.field(ck, n, w), levels2=levels))
    for b in ck.tlc("Falwa", "Falwa_scen", scen=scen):
        replay(ck, b, setup(len(b["f"][0]) - 1))
        ck.replayed += 1
    for n in ck.pick([4, 6, 12, 18], [4, 5, 6, 9, 12, 18, 24, 36]):
        for _ in range(ck.pick(2, 4)):
            real(ck, n, setup(n))
    ck.require(rows=1000, positive=300, interpolated=50, zonal=4)


def replay(ck, b, s):
    n, g = s.n, s.g
    base = np.array(b["f"], float).T
    mult = 2 * n // base.shape[1]
    f = np.tile(base, mult)
    scale = ck.rng.choice([1., 2.**-20, 2.**10])
    levels = np.array([c["q2"] for c in b["done"]]) / 2 * scale
    f = f * scale
    keep = f.copy()
    size = s.r * max(np.abs(f).max(), np.abs(levels).max(), scale) * 10
    with ck.case("local wave activity", f=b["f"], levels2=[c["q2"] for c in b["done"]], scale=scale):
        # trapezoidal scheme: at the latitudes of the contours
        segs = lambda c: [x for col in c["cols"] for x in col["segs"]]
        fr = np.array([s.fraction(dict(segs=segs(c)), base.shape[1], "sptrapz") for c in b["done"]])
        lwa, yy = falwa(f, g, levels=levels, interpolate=False)
        c14.expect_latitudes(ck, "equivalent latitudes", yy, fr)
        ck.expect("shape", lwa.shape == f[:len(fr)].shape if len(fr) <= n + 1 else lwa.shape == (len(fr), 2 * n), observed=lwa.shape)
        want = np.full(lwa.shape, np.nan)
        for r, (c, q, y) in enumerate(zip(b["done"], levels, yy)):
            cos = np.cos(np.deg2rad(y))
            if cos < 1e-5:
                continue
            for k in range(base.shape[1]):
                v = f[:, k] - q
                want[r, k::base.shape[1]] = (s.trapz(c["cols"][k]["segs"], v) - s.cap(y, v)) / cos
            ck.expect_close("wave activity", lwa[r], want[r], rel=1e-9, scale=size / cos)
            ck.expect("never negative", bool(np.all(lwa[r] >= -1e-9 * size / cos)), observed=lwa[r])
            ck.count("rows")
            ck.count("positive", bool((want[r] > 1e-6 * size).any()))
        mean, yf = fawa(f, g, levels, False)
        ck.expect_close("latitudes of the zonal mean", np.asarray(yf), np.asarray(yy), rel=0, atol=1e-9)
        for r in range(len(fr)):
            if np.isfinite(want[r]).all():
                ck.expect_close("zonal mean", np.asarray(mean[r]), np.asarray(want[r].mean()), rel=1e-9, scale=size / np.cos(np.deg2rad(yy[r])))
        inner = np.isfinite(want).all(axis=1)
        interpolated(ck, g, f, dict(levels=levels), np.asarray(yy)[inner], want[inner], np.asarray(yy)[~inner], size)
        k = ck.rng.randrange(2 * n)
        shifted = falwa(np.roll(f, k, axis=1), g, levels=levels, interpolate=False)[0]
        cos = np.maximum(np.cos(np.deg2rad(yy)), 1e-9)[:, None]
        ck.expect_close("shift in longitude", (shifted * cos)[inner], (np.roll(lwa, k, axis=1) * cos)[inner], rel=1e-9, scale=size)
        # boxcounting: at the latitudes between the gridpoints
        box(ck, b, s, f, base.shape[1], levels, size)
        ck.expect("input unchanged", np.array_equal(f, keep))
        ck.sample(b, 2)


def interpolated(ck, g, f, kw, y, rows, polar, size):
    """Interpolation onto the grid with 0 at the poles."""
    got = falwa(f, g, **kw)
    ck.expect("interpolated: shape", got.shape == g.shape, g.shape, got.shape)
    ck.expect("interpolated: finite", bool(np.isfinite(got).all()), observed=got)
    ck.expect("interpolated: zero at the poles", bool(np.all(np.abs(got[[0, -1]]) <= 1e-9 * size)), 0, got[[0, -1]])
    ck.expect("interpolated: never negative", bool(np.all(got >= -1e-4 * size)), observed=got)
    order = np.argsort(y)
    y, rows = y[order], rows[order]
    # same latitude for different contours: only bounded by the values there
    if np.any(np.diff(y) < 1e-6) or len(polar) and np.any(np.abs(polar) < 90 - 1e-4) or np.any(np.min(np.abs(g.lat[:, None] - y), initial=90.) < 1e-6):
        return
    x = np.concatenate([[-90.], y, [90.]])
    v = np.concatenate([np.zeros((1, g.nlon)), rows, np.zeros((1, g.nlon))])
    want = np.stack([np.interp(g.lat, x, v[:, i]) for i in range(g.nlon)], axis=1)
    sel = np.abs(g.lat) < 89.9
    tol = 1e-5 if len(polar) else 1e-8
    ck.expect_close("interpolated", got[sel], want[sel], rel=tol, scale=max(np.abs(rows).max(initial=0.), size))
    ck.expect_close("interpolated zonal mean", fawa(f, g, **kw)[sel], want.mean(axis=1)[sel], rel=tol, scale=max(np.abs(rows).max(initial=0.), size))
    ck.count("interpolated")


def box(ck, b, s, f, w, levels, size):
    n, g = s.n, s.g
    count = lambda c: np.array([sum((j + 1) in col["boxes"] for col in c["cols"]) for j in range(n + 1)])
    fr = np.array([s.fraction(dict(count=count(c)), w, "boxcount") for c in b["done"]])
    lwa, yy = falwa(f, g, levels, False, "boxcount")
    dual = 90 - (np.arange(n) + 0.5) * 180 / n
    ck.expect_close("dual latitudes", np.asarray(yy), dual, rel=0, atol=1e-9)
    ck.expect("boxcount: never negative", bool(np.all(lwa >= -1e-9 * size / np.cos(np.deg2rad(dual))[:, None])), observed=lwa)
    if np.any(np.diff(levels) > 0) or len(set(fr.tolist())) < len(fr) or np.any((levels > f.max()) | (levels < f.min())):
        return
    y = c14.latitude(fr)
    if np.min(np.abs(y[:, None] - dual)) < 1e-6 or np.max(np.abs(y)) > 90 - 1e-3:
        return
    order = np.argsort(y)
    qq = np.interp(dual, [-90, *y[order], 90], [f.min(), *levels[order], f.max()])
    for j in range(n):
        if np.min(np.abs(f - qq[j])) < 1e-9 * size / s.r:
            continue
        v = f - qq[j]
        want = [(s.box([i + 1 for i in range(n + 1) if v[i, k] >= 0], v[:, k]) - s.cap_box(j, v[:, k])) / np.cos(np.deg2rad(dual[j])) for k in range(2 * n)]
        ck.expect_close("boxcount: wave activity", lwa[j], np.array(want), rel=1e-9, scale=size / np.cos(np.deg2rad(dual[j])))
        ck.count("boxcount rows")


def real(ck, n, s):
    g = s.g
    lat, lon = g.phi2, g.lam2
    amp = ck.rng.choice([0.05, 0.3, 0.8])
    f = (np.sin(lat) + amp * np.cos(lat)**2 * np.cos(ck.rng.randint(1, n - 1) * lon + 3 * lat + ck.rng.uniform(0, 6))
         + ck.rng.choice([0., 0.02]) * ck.nprng.normal(size=g.shape)) * 1e-4
    st = bt.State(g, 0., pv=f)
    size = s.r * 1e-3
    for quad in ("sptrapz", "boxcount"):
        for levels in (None, ck.rng.randint(2, 30)):
            with ck.case("wave activity of a real field", n=n, quad=quad, levels=levels):
                lwa, yy = falwa(f, g, levels, False, quad)
                cos = np.cos(np.deg2rad(yy))[:, None]
                ck.expect("never negative", bool(np.all(lwa * cos >= -1e-9 * size)), observed=lwa)
                qz, yz = g.zonalize(f, levels, False, quad)
                if quad == "sptrapz":
                    ck.expect_close("latitudes", np.asarray(yy), np.asarray(yz), rel=0, atol=1e-9)
                    qq = np.asarray(qz)
                    j = ck.rng.randrange(len(qq))
                    v = f - qq[j]
                    k = ck.rng.randrange(2 * n)
                    want = (g.quad_meridional(v, v)[k] - s.cap(yy[j], v[:, k])) / cos[j, 0]
                    ck.expect_close("definition", np.asarray(lwa[j, k]), np.asarray(want), rel=1e-8, scale=size / cos[j, 0])
                full = falwa(f, g, levels, quad=quad)
                ck.expect("shape", full.shape == g.shape, g.shape, full.shape)
                ck.expect("interpolated: never negative", bool(np.all(full >= -1e-9 * size)), observed=full)
                m = g.interpolate_meridional(np.array(lwa, float), np.asarray(yy), pole_values=(0., 0.))
                ck.expect_close("interpolated", full, m, rel=1e-7)
                ck.expect_close("zonal mean", fawa(f, g, levels, quad=quad), full.mean(axis=1), rel=1e-8, scale=np.abs(full).max())
                ck.expect_close("zonal mean, not interpolated", fawa(f, g, levels, interpolate=False, quad=quad)[0], np.asarray(lwa).mean(axis=1), rel=1e-8, scale=np.abs(lwa).max())
                ck.expect_close("State input", falwa(st, levels=levels, quad=quad), falwa(st.pv, g, levels=levels, quad=quad), rel=1e-6)
                ck.expect_close("State input, zonal mean", fawa(st, levels=levels, quad=quad), fawa(st.pv, g, levels=levels, quad=quad), rel=1e-6)
                k = ck.rng.randrange(1, 2 * n)
                ck.expect_close("shift in longitude", falwa(np.roll(f, k, axis=1), g, levels, quad=quad), np.roll(full, k, axis=1), rel=1e-6)
                # Nakamura and Zhu: area integral of PV over the contour minus that over the cap
                if quad == "sptrapz":
                    nz = np.array([(g.quad(f, f - q) - g.quad(f, g.lat2 - y)) / (2 * np.pi * s.r * np.cos(np.deg2rad(y))) for q, y in zip(qz, yz)])
                    ck.expect_close("Nakamura and Zhu", fawa(f, g, levels, False)[0], nz, rel=1e-7, scale=np.max(size / cos))
                    ck.count("positive", full.max() > 1e-9 * size)
        with ck.case("zonally symmetric PV", n=n, quad=quad):
            z = np.repeat(np.sort(ck.nprng.normal(size=n + 1))[::-1][:, None], 2 * n, 1) * 1e-4
            if quad == "boxcount":      # contours between all rows
                z = np.sin(g.phi2) * 1e-4
            for levels in (None, 3) if quad == "sptrapz" else (None,):
                ck.expect_close("vanishes", falwa(z, g, levels, quad=quad), np.zeros(g.shape), rel=0, atol=1e-7 * s.r * 1e-3)
            ck.count("zonal")
    with ck.case("defaults of the state", n=n):
        ck.expect_close("State.falwa", st.falwa, falwa(st.pv, g), rel=1e-6)
        ck.expect_close("State.fawa", st.fawa, fawa(st.pv, g), rel=1e-6)
