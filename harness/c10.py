"""C10: region selection (specs/Region.tla, RegionScen.tla)."""
import numpy as np
import barotropic as bt

NONE = 9999
BAD_LON = [slice(0, 90, 10), "N", "S", "0", None, Ellipsis, [0, 90], (0, 90), slice("N", None), slice(None, "x"), slice(0, [90]), slice(None, None, 1), slice(0, 90, 0), slice(0, 90, 1), slice(30, 60, "x"), {}]
BAD_LAT = [slice(0, 90, 10), "n", "north", "NS", "", None, Ellipsis, [0, 90], (0, 90), slice("N", None), slice(None, "S"), slice(0, [90]), slice(None, None, -1), slice(0, 90, 0), slice(0, 90, 1), slice(30, 60, "x"), {}]


class Setup:
    def __init__(self, n, **kw):
        self.n, self.kw = n, kw
        self.g = bt.Grid(180. / n, **kw)
        nlat, nlon = self.g.shape
        self.f2 = np.arange(nlat * nlon).reshape(nlat, nlon) * 1.5
        self.flat = np.arange(nlat) - 0.25
        self.flon = np.arange(nlon) + 0.5
        w = np.sin(np.deg2rad(np.clip(90 - (np.arange(nlat) - 0.5) * 180 / n, -90, 90))) - \
            np.sin(np.deg2rad(np.clip(90 - (np.arange(nlat) + 0.5) * 180 / n, -90, 90)))
        self.area = w * 2 * np.pi / nlon * self.g.rsphere**2

    def degrees(self, h, offset, rng, point, coord):
        """Half steps to degrees (offset: position between gridpoints).

        Only coordinates that are no whole number of degrees need the value of
        the grid itself (the last bits depend on how it was calculated).
        """
        res = 180. / self.n
        x = h * res / 2 if point else h * res / 2 + offset * res
        form = rng.randint(0, 5)
        if point and x != np.rint(x * 4) / 4:
            near = np.abs(coord - x)
            if near.min() < 1e-6:
                x = float(coord[near.argmin()])
        if form == 3:
            return np.float64(x)
        if x == int(x) and form in (0, 4):
            return int(x) if form == 0 else np.int64(x)
        return x


def check(ck):
    jobs = ck.tlc("Region", "Region_" + ck.tier)
    setups = {n: [Setup(n), Setup(n, rsphere=1.)] for n in (3, 4, 5, 6, 9, 11, 12, 13, 18, 36, 72)}
    if not ck.thorough:
        ck.rng.shuffle(jobs)
        jobs = jobs[:3000]
    scen = []
    for _ in range(ck.pick(400, 4000)):
        n = ck.rng.choice([11, 12, 13, 18, 36, 72] if not ck.rng.random() < 0.7 else [11, 12, 13])
        def sel(lo, hi):
            b = lambda: NONE if ck.rng.random() < 0.1 else ck.rng.randint(lo, hi)
            return dict(kind="range", a=b(), b=b())
        la, lo = sel(-n - 2, n + 2), sel(0, 4 * n - 1)
        for x in (la, lo):
            if x["a"] == x["b"] == NONE:
                x["kind"] = "open"
        scen.append(dict(n=n, lat=la, lon=lo))
    jobs += ck.tlc("RegionScen", "RegionScen", scen=scen)
    for j, b in enumerate(jobs):
        replay(ck, b, setups[b["n"]][j % 2])
        ck.replayed += 1
    misc(ck)
    ck.require(refused=100, wrap=100, empty=20, single=50, hemisphere=50, beyond=20)


def selection(s, deg, bad, rng):
    if s["kind"] == "open":
        return slice(None, None)
    if s["kind"] == "north":
        return "N"
    if s["kind"] == "south":
        return "S"
    if s["kind"] == "single":
        return deg(s["a"])
    if s["kind"] == "bad":
        return rng.choice(bad)
    return slice(None if s["a"] == NONE else deg(s["a"]), None if s["b"] == NONE else deg(s["b"]))


def replay(ck, b, s):
    g, n, res = s.g, b["n"], b["res"]
    offset = ck.rng.choice([0., 0., 0.49, -0.49, 0.2, -0.3])
    lat = selection(b["lat"], lambda h: s.degrees(h, offset, ck.rng, (h - n) % 2 == 0, g.lat), BAD_LAT, ck.rng)
    lon = selection(b["lon"], lambda h: s.degrees(h, offset, ck.rng, h % 2 == 0, g.lon), BAD_LON, ck.rng)
    with ck.case(f"region[{lon}, {lat}] of the {180 / n} degree grid", **b):
        if res["refused"]:
            ck.expect_raises("selection", IndexError, lambda: g.region[lon, lat])
            ck.count("refused")
            ck.count("beyond", b["lon"]["kind"] == "single" and not 0 <= b["lon"]["a"] < 4 * n or b["lat"]["kind"] == "single" and abs(b["lat"]["a"]) > n + 1)
            return
        if b["lat"]["kind"] == "open" and ck.rng.random() < 0.5:
            r = g.region[lon]
        else:
            r = g.region[lon, lat]
        js, is_ = np.array(res["lat"], int), np.array(res["lon"], int)
        mono = np.array(res["mono"], float) * 180. / n
        ck.expect("shape", tuple(r.shape) == (js.size, is_.size), (js.size, is_.size), r.shape)
        ck.expect_close("lat", r.lat, 90. - js * 180. / n, rel=0, atol=1e-9)
        ck.expect_close("lon", r.lon, is_ * 180. / n, rel=0, atol=1e-9)
        ck.expect_close("lon_mono", r.lon_mono, mono, rel=0, atol=1e-9)
        ck.expect_close("lon after lon_mono", r.lon, is_ * 180. / n, rel=0, atol=1e-9)
        mask = np.zeros(g.shape, bool)
        mask[np.ix_(js, is_)] = True
        ck.expect("mask", r.mask.dtype == bool and np.array_equal(r.mask, mask), mask, r.mask)
        ck.expect_close("field", r.extract(s.f2), s.f2[np.ix_(js, is_)], rel=0)
        ck.expect_close("meridional profile", r.extract(s.flat), s.flat[js], rel=0)
        ck.expect_close("zonal profile", r.extract(s.flon), s.flon[is_], rel=0)
        many = r.extract(s.flon, s.f2, s.flat, s.f2 + 1)
        ck.expect("several fields", isinstance(many, tuple) and len(many) == 4)
        for x, want in zip(many, (s.flon[is_], s.f2[np.ix_(js, is_)], s.flat[js], s.f2[np.ix_(js, is_)] + 1)):
            ck.expect("order of several fields", np.array_equal(x, want), want, x)
        ck.expect_close("coordinates of the extracted field", r.extract(g.lat2), np.repeat((90. - js * 180. / n)[:, None], is_.size, 1), rel=0, atol=1e-9)
        ck.expect_close("gridpoint area", r.gridpoint_area, s.area[js], rel=1e-9)
        if js.size and is_.size:
            want = (s.f2[np.ix_(js, is_)] * s.area[js][:, None]).sum() / s.area[js].sum() / is_.size
            ck.expect_close("mean", np.asarray(r.mean(s.f2)), np.asarray(want), rel=1e-9)
            ck.expect_close("mean of extracted field", np.asarray(r.mean(r.extract(s.f2))), np.asarray(want), rel=1e-9)
        # the extraction is independent of the input field
        x = r.extract(s.f2)
        keep = s.f2.copy()
        x[...] = -1
        ck.expect("input field unchanged", np.array_equal(s.f2, keep))
        text = repr(r)
        ck.expect("representation", f"nlat = {js.size}" in text and f"nlon = {is_.size}" in text if js.size and is_.size else True, observed=text)
        ck.count("wrap", (np.diff(mono) > 0).all() and mono.size > 0 and mono[0] < 0)
        ck.count("empty", js.size == 0 or is_.size == 0)
        ck.count("single", "single" in (b["lat"]["kind"], b["lon"]["kind"]))
        ck.count("hemisphere", b["lat"]["kind"] in ("north", "south"))
        ck.sample(b, 3)


def misc(ck):
    g = bt.Grid(30.)
    with ck.case("malformed selections"):
        for sel in ((slice(0, 90), slice(0, 90), slice(0, 90)), (slice(0, 90),), ()):
            ck.expect_raises(f"selection {sel}", IndexError, lambda: g.region[sel])
        for sel in BAD_LON:
            if not isinstance(sel, tuple):
                ck.expect_raises(f"longitude {sel}", IndexError, lambda: g.region[sel])
                ck.expect_raises(f"longitude {sel}", IndexError, lambda: g.region[sel, 0])
        for sel in BAD_LAT:
            ck.expect_raises(f"latitude {sel}", IndexError, lambda: g.region[:, sel])
        for arr in (np.array([0., 30.]), np.array([30.])):
            ck.expect_raises("array", IndexError, lambda: g.region[arr])
            ck.expect_raises("array", IndexError, lambda: g.region[0, arr])
    with ck.case("fields that do not belong to the grid"):
        r = g.region[0:90, :]
        for shape in ((6, 12), (7, 11), (12, 7), (5,), (13,), (7, 12, 1), ()):
            ck.expect_raises(f"extract from shape {shape}", Exception, lambda: r.extract(np.zeros(shape)))
        ck.expect_raises("extract nothing", Exception, lambda: r.extract())
        ck.expect_raises("extract wrong second field", Exception, lambda: r.extract(g.lon, np.zeros((3, 3))))
    with ck.case("regions of equal grids are alike, of different grids not mixed up"):
        h = bt.Grid(15.)
        a, b = g.region[330:60, -30:30], h.region[330:60, -30:30]
        ck.expect("shapes", a.shape == (3, 4) and b.shape == (5, 7), observed=(a.shape, b.shape))
        ck.expect_close("lon", b.lon_mono, np.arange(-30, 61, 15.), rel=0, atol=1e-9)
