"""C06: orographic forcing (specs/OrogShape.tla, Orography.tla)."""
import numpy as np
import barotropic as bt
from .core import frac
from .modes import Basis

ORO = {"h1": {(2, 1, 0): 800., (3, 0, 0): 200., (0, 0, 0): 50.}, "h2": {(4, 3, 1): -500., (1, 0, 0): 300.},
       "h3": {(3, 2, 0): 400., (2, 2, 1): 700.}, "h4": {(4, 4, 0): 1000., (1, 1, 1): 100.}}
FLOW = [{(2, 1, 0): 3e-5, (3, 0, 0): 1.5e-5, (1, 0, 0): 2e-5}, {(1, 0, 0): -1e-5, (4, 2, 1): 2e-5}, {(3, 3, 0): 4e-5, (2, 0, 0): 2e-5}]


class Harmonics(bt.rhs.Orography):
    """User-defined orography."""
    def __init__(self, coefs, **kw):
        super().__init__(None, None, None, **kw)
        self.coefs = coefs
    def orography(self, grid):
        return Basis(grid.lat, grid.lon, 4).field(self.coefs)


def array_input():
    lon, lat = np.linspace(0, 360, 13), np.linspace(90, -90, 10)
    h = np.add.outer(np.cos(np.deg2rad(lat))**2 * 500, 0 * lon) * (1 + np.sin(np.deg2rad(lon)))[None, :]
    return lon, lat, h


def shared(_cache=[]):
    if not _cache:
        make = lambda: {1: bt.Grid(22.5), 2: bt.Grid(15.), 3: bt.Grid(22.5), 4: bt.Grid(22.5, rsphere=3e6), 5: bt.Grid(22.5, omega=2e-4)}
        grids = make()
        _cache.extend([grids, {k: Basis(g.lat, g.lon, 4) for k, g in grids.items()}, make()])
    return _cache


class World:

    def __init__(self, ck, terms):
        r = ck.rng
        self.grids, self.basis, self.plain = shared()
        self.fconst = [r.choice([1e-4, -5e-5, 0.]) for _ in terms]
        self.terms, self.specs = [], terms
        self.inputs = array_input()
        self.copies = [a.copy() for a in self.inputs]
        for t, fc in zip(terms, self.fconst):
            kw = dict(scale_height=frac(t["H"]), wind=(t["wind"], frac(t["fact"])), fcor_ref=None if t["fcor"] == "grid" else fc)
            if kw["scale_height"] == 10000. and r.random() < 0.5:
                del kw["scale_height"]
            if kw["wind"] == ("act", 1.) and r.random() < 0.5:
                del kw["wind"]
            if kw["fcor_ref"] is None and r.random() < 0.5:
                del kw["fcor_ref"]
            if t["h"] in ORO:
                term = Harmonics(ORO[t["h"]], **kw)
            elif t["h"] == "gauss":
                term = bt.rhs.GaussianMountain(**kw)
            elif t["h"] == "gauss2":
                term = bt.rhs.GaussianMountain(700., (250., -40.), 20., **kw)
            elif t["h"] == "sine":
                term = bt.rhs.ZonalSineMountains(height=900., center_lat=20., stdev_lat=15., wavenumber=3, **kw)
            else:
                term = bt.rhs.Orography(*self.inputs, **kw)
            self.terms.append(term)
        self.states, self.flows = [], []
        for k, g in enumerate([1, 2, 3, 4, 5, 1]):
            rel = FLOW[k % 3]
            G, b = self.grids[g], self.basis[g]
            self.states.append(bt.State(G, 100. * k, pv=G.fcor2 + b.field(rel)))
            self.flows.append((g, b.wind({m: -a * G.rsphere**2 / (m[0] * (m[0] + 1)) for m, a in rel.items()}, {}, G.rsphere)))

    def height(self, h, g):
        lon, lat = g.lon2, g.lat2
        if h == "gauss":
            return 1500. * np.exp(-0.5 * (((lon - 30. + 180) % 360 - 180) / 7.5)**2 - 0.5 * ((lat - 45.) / 20.)**2)
        if h == "gauss2":
            return 700. * np.exp(-0.5 * (((lon - 250. + 180) % 360 - 180) / 20.)**2 - 0.5 * ((lat + 40.) / 20.)**2)
        if h == "sine":
            return 450. * (1 + np.cos(np.deg2rad(3 * lon))) * np.exp(-0.5 * ((lat - 20.) / 15.)**2)
        x, y, z = self.copies
        z = np.array([np.interp(g.lon, x, row) for row in z])
        return np.array([np.interp(g.lat, y[::-1], col[::-1]) for col in z.T]).T

    def expected(self, h):
        gi, (u, v) = self.flows[h["s"] - 1]
        g, b = self.grids[gi], self.basis[gi]
        gx, gy = b.grad(ORO[h["h"]], g.rsphere) if h["h"] in ORO else self.plain[gi].gradient(self.height(h["h"], g))
        f = 2 * g.omega * np.sin(np.deg2rad(g.lat2)) if h["fcor"] == "grid" else self.fconst[h["t"] - 1]
        if h["wind"] == "zon":
            u, v = u.mean(axis=1)[:, None], 0.
        elif h["wind"] == "sbr":
            u, v = np.cos(np.deg2rad(g.lat))[:, None], 0.
        mag = max(np.max(np.abs(u)), np.max(np.abs(v))) * max(np.max(np.abs(gx)), np.max(np.abs(gy)))
        return frac(h["factor"]) * f * (u * gx + v * gy), abs(frac(h["factor"])) * np.max(np.abs(f)) * mag


def check(ck):
    shapes(ck)
    terms = TERMS
    few = [terms[i] for i in (0, 1, 2, 7, 10, 14)]
    jobs = [(b, few) for b in ck.tlc("Orography", "Orography_" + ck.tier)]
    if ck.thorough:
        ck.rng.shuffle(jobs)
        jobs = jobs[:1200]
    sim = ck.tlc("Orography", "Orography_sim", args=["-simulate", f"num={ck.pick(3, 20)}", "-depth", "25", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    jobs += [(b, terms) for b in sim[:ck.pick(25, 300)]]
    for b, ts in jobs:
        replay(ck, b, ts)
        ck.replayed += 1
    with ck.case("invalid wind option"):
        ck.expect_raises("wind option", Exception, bt.rhs.GaussianMountain, wind=("foo", 1.))
    ck.require(act=100, zon=100, sbr=100, const=50, array=20, gauss=20, long=10, shape_array=5, shape_mountain=10)


def _t(h, w, f, s, c):
    return dict(h=h, wind=w, fact=f, H=s, fcor=c)

# the terms of the specification (AllTerms)
TERMS = [_t("h1", "act", [1, 1], [10000, 1], "grid"), _t("h1", "zon", [1, 2], [8000, 1], "grid"), _t("h2", "sbr", [15, 1], [10000, 1], "grid"),
         _t("h2", "act", [-3, 4], [5000, 1], "const"), _t("h3", "zon", [1, 1], [10000, 1], "const"), _t("h3", "sbr", [-20, 1], [12000, 1], "const"),
         _t("h4", "act", [2, 1], [10000, 1], "grid"), _t("gauss", "act", [1, 1], [10000, 1], "grid"), _t("gauss", "zon", [9, 10], [7500, 1], "const"),
         _t("gauss2", "sbr", [30, 1], [10000, 1], "grid"), _t("sine", "sbr", [10, 1], [10000, 1], "const"), _t("sine", "act", [1, 1], [10000, 1], "grid"),
         _t("array", "act", [1, 1], [9000, 1], "grid"), _t("array", "zon", [3, 1], [10000, 1], "grid"),
         _t("h1", "zon", [0, 1], [10000, 1], "grid"), _t("h2", "sbr", [0, 1], [8000, 1], "grid"), _t("array", "act", [0, 1], [10000, 1], "const")]


def replay(ck, b, terms):
    hist = b["hist"]
    with ck.case(f"evaluations {[(h['t'], h['s']) for h in hist]}", terms=terms):
        w = World(ck, terms)
        for i, h in enumerate(hist):
            exp, scale = w.expected(h)
            got = w.terms[h["t"] - 1](w.states[h["s"] - 1])
            ck.expect_close(f"forcing of term {h['t']} ({h['h']}, {h['wind']}) on state {h['s']} in evaluation {i + 1}", got, exp,
                            rel=0, atol=5e-5 * scale)
            ck.count(h["wind"])
            ck.count("const", h["fcor"] == "const")
            ck.count(h["h"])
        ck.count("long", len(hist) > 8)
        ck.expect("orography arrays unchanged", all(np.array_equal(x, y) for x, y in zip(w.inputs, w.copies)))
        ck.sample(hist[:3], 2)


def shapes(ck):
    for b in ck.tlc("OrogShape", "OrogShape_" + ck.tier, workers=4):
        n, c = b["n"], b["conf"]
        with ck.case(f"orography {b['kind']} on {180 / n} degrees", conf=c):
            g = bt.Grid(180. / n, rsphere=ck.rng.choice([6371200., 1.]))
            h = np.array([[frac(x) for x in row] for row in b["h"]])
            if b["kind"] == "array":
                lat, lon = np.array([frac(x) for x in c["lat"]]), np.array([frac(x) for x in c["lon"]])
                val = np.array([[frac(x) for x in row] for row in c["val"]])
                if ck.rng.random() < 0.3:
                    val = val.astype(int)
                copies = [a.copy() for a in (lon, lat, val)]
                got = bt.rhs.Orography(lon, lat, val).orography(g)
                ck.expect_close("interpolated orography", got, h, rel=1e-9)
                # and the other way round
                got = bt.rhs.Orography(lon, lat[::-1].copy(), val[::-1].copy()).orography(g)
                ck.expect_close("interpolated orography, reversed latitudes", got, h, rel=1e-9)
                ck.expect("arrays unchanged", all(np.array_equal(x, y) for x, y in zip((lon, lat, val), copies)))
            else:
                height, kw = ck.rng.choice([(1500, {}), (-20., dict(height=-20.)), (3000., dict(height=3000.))])
                stdev = (frac(c["slon"]), frac(c["slat"]))
                stdev = stdev[0] if stdev[0] == stdev[1] else stdev
                center = (frac(c["lon"]), frac(c["lat"]))
                if center == (30., 45.) and stdev == (7.5, 20.):
                    m = bt.rhs.GaussianMountain(**kw)
                else:
                    m = bt.rhs.GaussianMountain(center=center, stdev=stdev, **kw)
                ck.expect_close("height of the mountain", m.orography(g), height * np.exp(-0.5 * h), rel=1e-9)
            ck.count("shape_" + b["kind"])
            ck.replayed += 1
            ck.sample({k: b[k] for k in ("kind", "conf", "n")}, 1)
    for res in (22.5, 10.):
        g = bt.Grid(res)
        for k, lat0, s, hmax in ((4, 45., 10., 1500), (1, -20., 25., 800.), (6, 0., 5., 100.)):
            with ck.case(f"sine mountains {k} {lat0} {s} {hmax} on {res}"):
                exp = hmax * 0.5 * (1 + np.cos(np.deg2rad(k * g.lon2))) * np.exp(-0.5 * ((g.lat2 - lat0) / s)**2)
                m = bt.rhs.ZonalSineMountains(hmax, lat0, s, k) if k > 1 else bt.rhs.ZonalSineMountains(wavenumber=k, stdev_lat=s, center_lat=lat0, height=hmax)
                ck.expect_close("height of the mountains", m.orography(g), exp, rel=1e-9)
                if k == 4:
                    ck.expect_close("default mountains", bt.rhs.ZonalSineMountains().orography(g), exp, rel=1e-9)
