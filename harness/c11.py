"""C11: grid coordinates, metrics and identity (specs/GridGeom.tla, GridIdentity.tla)."""
import copy, pickle
import numpy as np
import barotropic as bt
from .core import frac

RADII = {1: 6371.2e3, 2: 6371.2e3 * 1.01, 3: 1.}
ROTATIONS = {1: 7.292e-5, 2: -7.292e-5, 3: 0.}


def check(ck):
    for b in ck.tlc("GridGeom", "GridGeom_" + ck.tier):
        geometry(ck, b)
        ck.replayed += 1
    pool = {}
    for b in ck.tlc("GridIdentity", "GridIdentity_pairs"):
        identity(ck, b, pool)
        ck.replayed += 1
    ops = ck.tlc("GridIdentity", "GridIdentity_ops")
    if not ck.thorough:
        ck.rng.shuffle(ops)
        ops = ops[:2500]
    sim = ck.tlc("GridIdentity", "GridIdentity_sim", args=["-simulate", f"num={ck.pick(20, 150)}", "-depth", "13", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    for b in ops + sim[:ck.pick(200, 2000)]:
        identity(ck, b, pool)
        ck.replayed += 1
    sizes(ck, pool)
    nearly(ck)
    others(ck)
    ck.require(grids=30, equal_pairs=50, unequal_pairs=500, lookups=500)


def geometry(ck, b):
    n = b["n"]
    res = frac(b["res"])
    deg = lambda seq: np.array([frac(x) for x in seq])
    lat, lon = deg(r["lat"] for r in b["rows"]), deg(b["lon"])
    north, south = (deg(r[k] for r in b["rows"]) for k in ("north", "south"))
    zone = np.sin(np.deg2rad(north)) - np.sin(np.deg2rad(south))
    variants = [dict(), dict(rsphere=1., omega=0.5), dict(rsphere=3.4e6, omega=-2e-4, ntrunc=max(n - 2, 1)), dict(legfunc="computed"), dict(omega=0., rsphere=2)]
    for kw in variants if n <= 72 else variants[:2]:
        # also as computed from coordinates, with rounding errors
        resolutions = [res, np.float64(180) / n, 180 / n, 90. - (90. - 180. / n), np.nextafter(180. / n, 400.), np.nextafter(180. / n, 0.)]
        if res == int(res):
            resolutions += [int(res), np.int64(res)]
        r = ck.rng.choice(resolutions)
        with ck.case(f"Grid({r!r}, {kw})", n=n):
            g = bt.Grid(r, **kw) if ck.rng.random() < 0.7 else bt.Grid(resolution=r, **kw)
            radius, omega = kw.get("rsphere", 6371.2e3), kw.get("omega", 7.292e-5)
            ck.count("grids")
            ck.expect("nlat, nlon", (g.nlat, g.nlon) == (n + 1, 2 * n), (n + 1, 2 * n), (g.nlat, g.nlon))
            ck.expect("shape", g.shape == (n + 1, 2 * n), (n + 1, 2 * n), g.shape)
            close = lambda what, got, exp, atol=0.: ck.expect_close(what, got, exp, rel=1e-11, atol=atol)
            close("lat", g.lat, lat)
            close("lon", g.lon, lon)
            close("lat at the poles and 0 east", np.array([g.lat[0], g.lat[-1], g.lon[0]]), np.array([90., -90., 0.]))
            close("dlon", np.asarray(float(g.dlon)), np.asarray(res))
            close("dlat", np.asarray(float(g.dlat)), np.asarray(-res))
            close("dlam", np.asarray(g.dlam), np.deg2rad(res))
            close("dphi", np.asarray(g.dphi), -np.deg2rad(res))
            close("phi", g.phi, np.deg2rad(lat))
            close("lam", g.lam, np.deg2rad(lon))
            one = np.ones((n + 1, 2 * n))
            close("lat2", g.lat2, lat[:, None] * one)
            close("lon2", g.lon2, lon[None, :] * one)
            close("phi2", g.phi2, np.deg2rad(lat)[:, None] * one)
            close("lam2", g.lam2, np.deg2rad(lon)[None, :] * one)
            f = 2 * omega * np.sin(np.deg2rad(lat))
            close("fcor", g.fcor, f, atol=1e-15 * abs(omega))
            close("fcor2", g.fcor2, f[:, None] * one, atol=1e-15 * abs(omega))
            close("coriolis(lat)", g.coriolis(lat), f, atol=1e-15 * abs(omega))
            close("coriolis(number)", np.asarray(g.coriolis(30)), np.asarray(omega), atol=1e-15 * abs(omega))
            close("coriolis(2D)", g.coriolis(g.lat2), g.fcor2)
            c = 2 * np.pi * radius * np.cos(np.deg2rad(lat))
            close("circumference(lat)", g.circumference(g.lat), c, atol=1e-14 * radius)
            close("circumference(number)", np.asarray(g.circumference(-60.)), np.pi * radius * np.asarray(1.))
            close("rsphere, omega", np.array([float(g.rsphere), float(g.omega)]), np.array([radius, omega]))
            area = radius**2 * zone * 2 * np.pi / (2 * n)
            close("gridpoint area", g.gridpoint_area, area)
            close("total area", np.asarray(g.gridpoint_area.sum() * g.nlon), np.asarray(4 * np.pi * radius**2))
            close("total area as an integral", np.asarray(g.quad(np.ones(g.shape), method="boxcount")), np.asarray(4 * np.pi * radius**2))
            # the planetary vorticity of the grid in spectral space is the same
            ck.expect_close("fcor2_spectral", g.to_grid(g.fcor2_spectral), g.fcor2, rel=1e-5)
            text = repr(g)
            ck.expect("representation", str(g.shape) in text, g.shape, text)
            # the metrics belong to the grid, changing results does not affect it
            x = g.gridpoint_area
            x[...] = 0
            g.coriolis(g.lat)[...] = 1
            close("gridpoint area again", g.gridpoint_area, area)
            close("fcor again", g.fcor, f, atol=1e-15 * abs(omega))
    if n in (4, 7):
        ck.sample(b, 2)


def make(p):
    t = {0: None, 1: p["n"], 2: p["n"] - 1}[p["t"]]
    kw = {} if t is None else dict(ntrunc=t)
    return bt.Grid(180. / p["n"], rsphere=RADII[p["r"]], omega=ROTATIONS[p["w"]], **kw)


def objects(ck, made, pool):
    """Grid objects for the descriptions, usually not the same object twice."""
    out = []
    for p in made:
        key = (p["n"], p["r"], p["w"], p["t"])
        objs = pool.setdefault(key, [])
        if len(objs) < 3:
            how = ck.rng.choice(["new", "new", "copy", "deepcopy", "pickle"]) if objs else "new"
            objs.append(make(p) if how == "new" else copy.copy(objs[0]) if how == "copy" else
                        copy.deepcopy(objs[0]) if how == "deepcopy" else pickle.loads(pickle.dumps(objs[0])))
        out.append(ck.rng.choice(objs))
    return out


def identity(ck, b, pool):
    with ck.case("grid identity", **b):
        gs = objects(ck, b["made"], pool)
        for i, g in enumerate(gs):
            for k, h in enumerate(gs):
                same = b["cls"][i] == b["cls"][k]
                ck.expect("equality", bool(g == h) is same, same, (b["made"][i], b["made"][k]))
                ck.expect("inequality", bool(g != h) is not same, not same, (b["made"][i], b["made"][k]))
                if same:
                    ck.expect("equal grids have the same hash", hash(g) == hash(h), observed=(b["made"][i], b["made"][k]))
                ck.count("equal_pairs" if same else "unequal_pairs")
        ck.expect("set of grids", len(set(gs)) == len(set(b["cls"])), len(set(b["cls"])), len(set(gs)))
        d = {}
        for op in b["log"]:
            g = gs[op["i"] - 1]
            if op["op"] == "put":
                d[g] = op["got"]
            elif op["op"] == "get":
                ck.expect("value of the grid", d.get(g, 0) == op["got"], op["got"], d.get(g, 0))
                ck.expect("grid in the mapping", (g in d) == (op["got"] != 0))
                ck.count("lookups")
            else:
                ck.expect("removed value", d.pop(g, 0) == op["got"], op["got"])
            ck.expect("size of the mapping", len(d) == op["size"], op["size"], len(d))


def sizes(ck, pool):
    """Grids of nearly the same resolution are different."""
    for b in ck.tlc("GridIdentity", "GridIdentity_sizes"):
        identity(ck, b, pool)
        ck.replayed += 1
        ck.count("sizes")
    for k in ck.pick((9, 36, 71, 72, 180), range(8, 200)):
        with ck.case(f"grids with {k} and {k + 1} longitudes"):
            g, h = bt.Grid(360. / k, ntrunc=3), bt.Grid(360. / (k + 1), ntrunc=3)
            ck.expect("different grids are unequal", not (g == h) and g != h, False, (g.shape, h.shape))
            ck.expect("grids of the same size are equal", g == bt.Grid(360. / k, ntrunc=3))


def nearly(ck):
    """Whatever the tolerance of the comparison: equal grids have equal hashes."""
    for _ in range(ck.pick(60, 400)):
        eps = 10. ** ck.rng.uniform(-17, -2) * ck.rng.choice([-1, 1])
        delta = 10. ** ck.rng.uniform(-17, -2) * ck.rng.choice([-1, 1, 0])
        with ck.case("nearly equal grids", eps=eps, delta=delta):
            g = bt.Grid(45., rsphere=6371.2e3, omega=7.292e-5)
            h = bt.Grid(45., rsphere=6371.2e3 * (1 + eps), omega=7.292e-5 * (1 + delta))
            ck.expect("== and != agree", (g == h) is not (g != h) or bool(g == h) != bool(g != h))
            if g == h:
                ck.expect("equal grids have the same hash", hash(g) == hash(h))
                ck.expect("one entry for equal grids", len({g, h}) == 1)
            big = abs(eps) > 1e-3 or abs(delta) > 1e-3
            if big:
                ck.expect("different grids are unequal", not (g == h) and g != h)
            if abs(eps) < 1e-15 and abs(delta) < 1e-15:
                ck.expect("grids that differ by rounding errors are equal", bool(g == h))


def others(ck):
    g = bt.Grid(45.)
    s = bt.State(g, 0., pv=g.fcor2)
    class Odd:
        shape, rsphere = g.shape, g.rsphere
    for x in (None, 0, 45., "grid", (5, 8), [g], {"g": g}, s, bt.StateList([s]), bt.Grid, g.region, g.region[:, "N"], object(), Odd(), np.float64(1), float("nan"), g.shape, Ellipsis):
        with ck.case(f"comparing a grid with {type(x).__name__}"):
            ck.expect("not equal", not (g == x) and not (x == g), False, (g == x, x == g))
            ck.expect("unequal", (g != x) and (x != g))
            if not isinstance(x, (list, dict)):
                ck.expect("in", x not in [g] and g not in (x,))
    with ck.case("comparing a grid with an array"):
        r = g == np.zeros(3)
        ck.expect("not equal", not np.any(r), observed=r)
    with ck.case("hash is stable"):
        h = hash(g)
        s.u, s.energy, g.region[0:90, :].mean(g.lat2), g.zonalize(g.fcor2)
        ck.expect("hash", hash(g) == h and g == bt.Grid(45.))
