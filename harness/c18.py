"""C18: meridional interpolation (specs/MeridInterp.tla)."""
import numpy as np
import barotropic as bt
from .core import frac


def check(ck):
    grids = {}
    def grid(n):
        if n not in grids:
            grids[n] = [bt.Grid(180. / n), bt.Grid(180. / n, rsphere=1., omega=0.)]
        return ck.rng.choice(grids[n])
    jobs = ck.tlc("MeridInterp", "MeridInterp_" + ck.tier)
    scen = []
    for _ in range(ck.pick(60, 500)):
        m = ck.rng.choice([1, 2, 3, 6, 10, 15])
        d = ck.rng.choice([1, 2, 4])
        lats = ck.rng.sample(range(-90 * d + 1, 90 * d), m)
        order = ck.rng.choice(["any", "north first", "south first"])
        if order != "any":
            lats.sort(reverse=order == "north first")
        g = lambda x: [x // np.gcd(x, d), d // np.gcd(x, d)]
        scen.append(dict(n=ck.rng.choice([2, 3, 6, 9, 12, 18]), data=[[int(y) for y in g(x)] for x in lats]))
    for b in jobs + ck.tlc("MeridInterpScen", "MeridInterpScen", scen=scen):
        replay(ck, b, grid(b["n"]))
        ck.replayed += 1
    misc(ck, grid(6))
    ck.require(unordered=50, at_pole=50, fields=50, integers=30)


def replay(ck, b, g):
    n, m = b["n"], len(b["data"])
    lat = np.array([frac(x) for x in b["data"]])
    x = np.array([frac(t["x"]) for t in b["table"]])
    for w in (None, ck.rng.choice([1, 2, 2 * n, 2 * n])):
        kind = ck.rng.choice(["float", "float", "int", "float32", "fortran", "complex"])
        values = ck.nprng.integers(-1000, 1000, (m,) if w is None else (m, w)).astype(float)
        if kind == "int":
            f = values.astype(int)
        elif kind == "float32":
            f = values.astype(np.float32)
        else:
            values = values * 1e-3 + (1j * values[::-1] if kind == "complex" else 0)
            f = np.asfortranarray(values) if kind == "fortran" else values.copy()
        poles = (ck.rng.choice([0., 1.5, -3, 1000.25]), ck.rng.choice([0., 2.25, -7, 1e4]))
        given = ck.rng.choice([poles, list(poles), np.array(poles)])
        given_lat = ck.rng.choice([lat, lat, lat.astype(int) if np.all(lat == lat.astype(int)) else lat, lat.astype(np.float32)])
        keep, keep_lat = f.copy(), given_lat.copy()
        value = lambda k: poles[0] if k == 0 else poles[1] if k == -1 else values[k - 1]
        shape = () if w is None else (w,)
        want = np.array([np.broadcast_to((1 - frac(t["w"])) * value(t["a"]) + frac(t["w"]) * value(t["b"]), shape) for t in b["table"]])
        tol = dict(rel=1e-5 if kind == "float32" else 1e-9, scale=1e4 if kind in ("float32", "int") else max(1., np.abs(values).max(), *map(abs, poles)))
        with ck.case("interpolation", n=n, lat=lat, poles=poles, kind=kind, columns=w):
            func = g.interp1d_meridional(f, given_lat, given)
            ck.expect_close("function", np.asarray(func(x)), want, **tol)
            i = ck.rng.randrange(len(x))
            ck.expect_close("function of a number", np.asarray(func(x[i])), want[i], **tol)
            ck.expect_close("function of the grid latitudes", func(g.lat), want[:n + 1], **tol)
            got = g.interpolate_meridional(f, given_lat, pole_values=given) if ck.rng.random() < 0.5 else g.interpolate_meridional(f, given_lat, given, kind="linear")
            ck.expect_close("interpolation onto the grid", got, want[:n + 1], **tol)
            ck.expect_close("data reproduced, poles replaced", np.asarray(func(given_lat)), want[-m:], **tol)
            perm = ck.nprng.permutation(m)
            ck.expect_close("data in another order", g.interpolate_meridional(f[perm], given_lat[perm], given), want[:n + 1], **tol)
            ck.expect("inputs unchanged", np.array_equal(f, keep) and np.array_equal(given_lat, keep_lat))
            # the function does not depend on what happens to its output
            got[...] = 0
            ck.expect_close("again", func(g.lat), want[:n + 1], **tol)
            ck.count("unordered", m > 2 and not (np.all(np.diff(lat) > 0) or np.all(np.diff(lat) < 0)))
            ck.count("at_pole", bool(np.any(np.abs(lat) == 90)))
            ck.count("fields", w is not None)
            ck.count("integers", kind == "int")
            ck.sample(b, 2)


def misc(ck, g):
    with ck.case("refused"):
        ck.expect_raises("3D field", Exception, lambda: g.interp1d_meridional(np.zeros((2, 3, 4)), np.array([0., 10.]), (0., 0.)))
        ck.expect_raises("one pole value", Exception, lambda: g.interp1d_meridional(np.zeros(2), np.array([0., 10.]), (0.,)))
        ck.expect_raises("missing pole values", Exception, lambda: g.interp1d_meridional(np.zeros(2), np.array([0., 10.])))
        ck.expect_raises("sizes", Exception, lambda: g.interp1d_meridional(np.zeros(3), np.array([0., 10.]), (0., 0.)))
        ck.expect_raises("beyond the pole", Exception, lambda: g.interp1d_meridional(np.zeros(2), np.array([0., 10.]), (0., 0.))(91.))
    with ck.case("profiles on the grid itself"):
        f = ck.nprng.normal(size=g.shape)
        got = g.interpolate_meridional(f[1:-1], g.lat[1:-1], (7., 8.))
        ck.expect_close("inner rows", got[1:-1], f[1:-1], rel=1e-12)
        ck.expect("poles", np.all(got[0] == 7) and np.all(got[-1] == 8), observed=got[[0, -1]])
        got = g.interpolate_meridional(f, g.lat, (7., 8.))
        ck.expect_close("all rows", got[1:-1], f[1:-1], rel=1e-12)
        ck.expect("poles", np.all(got[0] == 7) and np.all(got[-1] == 8), observed=got[[0, -1]])
