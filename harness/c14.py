"""C14: zonalization (specs/Zonalize.tla, ZonalizeScen.tla)."""
import numpy as np
import barotropic as bt
from .core import frac


class Setup:
    def __init__(self, n, **kw):
        self.n, self.g = n, bt.Grid(180. / n, **kw)
        self.r = float(self.g.rsphere)
        self.phi = np.deg2rad(90 - np.arange(n + 1) * 180. / n)
        edge = np.sin(np.deg2rad(np.clip(90 - (np.arange(n + 2) - 0.5) * 180 / n, -90, 90)))
        self.A = edge[:-1] - edge[1:]

    def fraction(self, c, width, quad):
        """Fraction of the sphere (0 ... 1) enclosed by a contour of the specification."""
        if quad == "boxcount":
            return float(np.dot(self.A, c["count"])) / 2 / width
        out = 0.
        for s in c["segs"]:
            i = s["i"] - 1
            d = self.phi[i] - self.phi[i + 1]
            out += np.sin(self.phi[i] - frac(s["a"]) * d) - np.sin(self.phi[i] - frac(s["b"]) * d)
        return out / 2 / width

    def fraction_of(self, f, q, quad):
        """The same for fields with real values (the domain as in QuadDomain)."""
        z = f - q
        if quad == "boxcount":
            return float(np.dot(self.A, (z >= 0).sum(axis=1))) / 2 / f.shape[1]
        out = 0.
        for i in range(self.n):
            p, s = z[i], z[i + 1]
            with np.errstate(all="ignore"):
                t = np.where((p >= 0) != (s >= 0), p / (p - s), 0.)
            a = np.where(p >= 0, 0., np.where(s >= 0, t, 1.))
            b = np.where(s >= 0, 1., np.where(p >= 0, t, 1.))
            d = self.phi[i] - self.phi[i + 1]
            out += (np.sin(self.phi[i] - a * d) - np.sin(self.phi[i] - b * d)).sum()
        return out / 2 / f.shape[1]


def latitude(fraction):
    return np.rad2deg(np.arcsin(np.clip(1 - 2 * np.asarray(fraction), -1, 1)))


def expect_latitudes(ck, what, got, fractions, tol=1e-10):
    """Latitudes enclosing the given fractions (compared by area: insensitive at the poles)."""
    got = np.asarray(got)
    ck.expect(f"{what}: shape", got.shape == np.shape(fractions), np.shape(fractions), got.shape)
    ck.expect(f"{what}: range", bool(np.all(np.abs(got) <= 90)), observed=got)
    ck.expect_close(what, (1 - np.sin(np.deg2rad(got))) / 2, fractions, rel=0, atol=tol)


def expect_profile(ck, what, got, lat, q, fractions, q_max, q_min, tol=1e-9):
    """Linear interpolation between contours, jumps and poles bracketed."""
    span = max(q_max - q_min, abs(q_max) * 1e-6, 1e-300)
    order = np.argsort(q, kind="stable")
    q, fr = np.clip(np.asarray(q, float), q_min, q_max)[order], np.asarray(fractions)[order]
    def prof(shift, dlat):
        y = latitude(np.clip(fr + shift, 0, 1))
        return np.interp(np.clip(lat + dlat, -90, 90), [-90, *y, 90], [q_min, *q, q_max])
    eps = 1e-11
    lower = prof(-eps, -1e-8)     # contours further north: lower values
    upper = prof(eps, 1e-8)
    # at the poles the extreme values
    ck.expect(f"{what}: shape", got.shape == lat.shape, lat.shape, got.shape)
    ck.expect(f"{what}: finite", bool(np.isfinite(got).all()), observed=got)
    ck.expect(f"{what}: maximum at the north pole", abs(got[0] - q_max) <= tol * span, q_max, got[0])
    ck.expect(f"{what}: minimum at the south pole", abs(got[-1] - q_min) <= tol * span, q_min, got[-1])
    ck.expect(f"{what}: never increases southward", bool(np.all(np.diff(got) <= tol * span)), observed=got)
    ok = (got >= lower - tol * span) & (got <= upper + tol * span)
    ok[[0, -1]] = True
    ck.expect(f"{what}: linear between the contours", bool(ok.all()), [lower, upper], got)


def check(ck):
    setups = {}
    def setup(n):
        if n not in setups:
            setups[n] = [Setup(n), Setup(n, rsphere=1., omega=0.5)]
        return ck.rng.choice(setups[n])
    for b in ck.tlc("Zonalize", "Zonalize_" + ck.tier):
        # all meridians of the grid, half of them or each one twice
        replay(ck, b, setup(len(b["f"][0]) - 1))
        ck.replayed += 1
    scen = []
    for _ in range(ck.pick(200, 2000)):
        n = ck.rng.choice([2, 3, 4, 5, 6])
        w = ck.rng.choice([1, 2, n, 2 * n, 2 * n, 2 * n - 1])
        levels = [ck.rng.randint(-8, 8) for _ in range(ck.rng.randint(1, 6))]
        scen.append(dict(f=field(ck, n, w), levels2=levels))
    for b in ck.tlc("ZonalizeScen", "ZonalizeScen", scen=scen):
        replay(ck, b, setup(len(b["f"][0]) - 1))
        ck.replayed += 1
    for n in ck.pick([2, 3, 6, 12, 36], [2, 3, 5, 6, 9, 12, 18, 24, 36, 60, 72]):
        for _ in range(ck.pick(3, 8)):
            real(ck, n, setup(n))
    equivalent(ck, setup)
    ck.require(contours=3000, sectors=200, plateaus=100, outside=300, unordered=100)


def field(ck, n, w):
    if ck.rng.random() < 0.3:
        return [[ck.rng.randint(-3, 3)] * (n + 1) for _ in range(w)]
    if ck.rng.random() < 0.3:      # decreasing southward, with a wave
        return [[max(-3, min(3, round(3 - 6 * j / n) + ck.rng.choice([0, 0, 1, -1]))) for j in range(n + 1)] for _ in range(w)]
    hi = ck.rng.choice([0, 1, 3])
    return [[ck.rng.randint(-hi, hi) for _ in range(n + 1)] for _ in range(w)]


def replay(ck, b, s):
    n, g = s.n, s.g
    f = np.array(b["f"], float).T
    w = f.shape[1]
    if 2 * w <= 2 * n and ck.rng.random() < 0.5:
        f = np.tile(f, 2)          # the same areas relative to the sphere
        mult = 2
    else:
        mult = 1
    scale = ck.rng.choice([1., 2.**-20, 2.**30, 2.**-3])
    offset = ck.rng.choice([0, 0, 4, -1])
    levels = (np.array([c["q2"] for c in b["done"]]) / 2 + offset) * scale
    f = (f + offset) * scale
    kind = ck.rng.choice(["float", "float", "int", "list", "fortran"])
    if kind == "int":
        f = (f / scale).astype(int)
        levels, scale = levels / scale, 1.
    if kind == "fortran":
        f = np.asfortranarray(f)
    given = levels.tolist() if kind == "list" else levels
    keep, keep_levels = f.copy(), levels.copy()
    with ck.case("zonalization", f=b["f"], levels2=[c["q2"] for c in b["done"]], kind=kind, mult=mult, scale=scale, offset=offset):
        for quad in ("sptrapz", "boxcount"):
            fr = np.array([s.fraction(c, w, quad) for c in b["done"]])
            q, y = g.zonalize(f, levels=given, interpolate=False, quad=quad)
            ck.expect_close(f"contour values, {quad}", np.asarray(q), levels, rel=1e-12)
            expect_latitudes(ck, f"equivalent latitudes, {quad}", y, fr)
            zl = g.zonalize(f, levels=given, quad=quad)
            expect_profile(ck, f"profile, {quad}", zl, g.lat, levels, fr, f.max(), f.min())
            # order of longitudes
            perm = ck.nprng.permutation(f.shape[1])
            y2 = g.zonalize(f[:, perm], levels=given, interpolate=False, quad=quad)[1]
            expect_latitudes(ck, f"longitudes in another order, {quad}", y2, fr)
            if quad == "sptrapz":
                q3, y3 = g.zonalize(f, given, False)
                expect_latitudes(ck, "default quadrature", y3, fr)
            ck.count("contours", len(fr))
            ck.count("outside", sum((levels > f.max()) | (levels < f.min())))
        ck.expect("inputs unchanged", np.array_equal(f, keep) and np.array_equal(levels, keep_levels))
        ck.count("sectors", f.shape[1] < 2 * n)
        ck.count("plateaus", len(set(fr)) < len(fr))
        ck.count("unordered", bool(np.any(np.diff(levels) < 0)))
        ck.sample(b, 2)


def real(ck, n, s):
    """Real-valued fields and numbers of contours."""
    g = s.g
    w = ck.rng.choice([2 * n, 2 * n, n, 1, 3])
    lat, lon = s.phi[:, None], np.deg2rad(np.arange(w) * 180. / n)
    f = {"planetary": lambda: 1e-4 * np.sin(lat) + 2e-5 * np.cos(lat)**2 * np.cos(3 * lon + 1),
         "noise": lambda: ck.nprng.normal(size=(n + 1, w)),
         "zonal": lambda: 1e-4 * np.sin(lat) + 0 * lon,
         "meridional": lambda: 0 * lat + np.cos(lon),
         "offset": lambda: 1e5 + np.cos(lat) * np.sin(lon),
         "southern": lambda: -np.sin(lat) + 0.1 * np.cos(lat) * np.cos(lon)}
    name = ck.rng.choice(sorted(f))
    f = f[name]()
    for quad in ("sptrapz", "boxcount"):
        for levels in (None, 1, 2, ck.rng.randint(3, 40), ck.nprng.uniform(f.min(), f.max(), 7)):
            with ck.case("zonalization of a real field", n=n, name=name, columns=w, quad=quad, levels=levels):
                q, y = g.zonalize(f, levels=levels, interpolate=False, quad=quad)
                count = {True: n + 1 if quad == "sptrapz" else 2 * (n + 1)}.get(levels is None, levels if isinstance(levels, int) else 7)
                ck.expect("number of contours", len(q) == len(y) == count, count, (len(q), len(y)))
                q = np.asarray(q)
                span = f.max() - f.min()
                if isinstance(levels, np.ndarray):
                    ck.expect_close("contours as given", q, levels, rel=1e-12)
                elif span > 0 and count * 1e-9 < 1:
                    ck.expect("contours strictly between the extreme values", bool(np.all((q > f.min()) & (q < f.max()))), observed=q)
                    ck.expect("distinct contours", len(set(q.tolist())) == count, observed=q)
                # contours that touch a gridpoint value can be on either side
                if quad == "boxcount" and np.min(np.abs(f[:, :, None] - q)) < 1e-12 * np.abs(f).max():
                    continue
                fr = np.array([s.fraction_of(f, v, quad) for v in q])
                # columns without a meridional gradient are sensitive to rounding of the contour
                expect_latitudes(ck, "equivalent latitudes", y, fr, tol=1e-7 if name in ("offset", "meridional") else 1e-9)
                zl = g.zonalize(f, levels=levels, quad=quad)
                expect_profile(ck, "profile", zl, g.lat, q, fr, f.max(), f.min(), tol=1e-4 if name in ("offset", "meridional") else 1e-6)
                perm = ck.nprng.permutation(w)
                other = g.zonalize(f[:, perm], levels=levels, quad=quad)
                tol = 1e-4 if name in ("offset", "meridional") else 1e-6
                expect_profile(ck, "longitudes in another order", other, g.lat, q, fr, f.max(), f.min(), tol=tol)
                if quad == "sptrapz" and levels is None:
                    expect_profile(ck, "default arguments", g.zonalize(f), g.lat, q, fr, f.max(), f.min(), tol=tol)
    with ck.case("constant field", n=n):
        for value in (3., 0., -1e-4):
            for quad in ("sptrapz", "boxcount"):
                for levels in (None, 5):
                    ck.expect_close("profile", g.zonalize(np.full((n + 1, w), value), levels=levels, quad=quad), np.full(n + 1, value), rel=1e-9)


def equivalent(ck, setup):
    for n in (4, 9):
        s = setup(n)
        total = 4 * np.pi * s.r**2
        with ck.case("equivalent latitude of an area", n=n):
            fr = np.array([0, 0.25, 0.5, 0.75, 1, 0.1, 1e-3, 0.999])
            expect_latitudes(ck, "array", s.g.equivalent_latitude(fr * total), fr)
            ck.expect_close("known latitudes", s.g.equivalent_latitude(np.array([0., 0.25, 0.5, 0.75]) * total), np.array([90., 30, 0, -30]), rel=0, atol=1e-9)
            for x in fr:
                y = s.g.equivalent_latitude(float(x) * total)
                ck.expect("number", np.ndim(y) == 0)
                expect_latitudes(ck, "number", y, x)
            expect_latitudes(ck, "2D", s.g.equivalent_latitude(fr.reshape(2, 4) * total), fr.reshape(2, 4))
            ck.expect_close("rounding errors", s.g.equivalent_latitude(np.array([-1e-9, 1 + 1e-9]) * total), np.array([90., -90.]), rel=1e-9)
            # the sphere north of the latitude has the area
            for lat in (80., 10.5, -33., 0.):
                a = 2 * np.pi * s.r**2 * (1 - np.sin(np.deg2rad(lat)))
                ck.expect_close("inverse", np.asarray(s.g.equivalent_latitude(a)), np.asarray(lat), rel=0, atol=1e-7)
