"""C17: meridional finite differences (specs/Derivative.tla)."""
import numpy as np
import barotropic as bt
from .core import frac


def check(ck):
    grids = {}
    def grid(n):
        if n not in grids:
            grids[n] = [bt.Grid(180. / n), bt.Grid(180. / n, rsphere=1., omega=0., ntrunc=n - 1)]
        return ck.rng.choice(grids[n])
    for b in ck.tlc("Derivative", "Derivative_" + ck.tier):
        one(ck, b, grid(b["n"]))
        ck.replayed += 1
    scen = []
    for _ in range(ck.pick(300, 3000)):
        n = ck.rng.choice([2, 3, 4, 4, 5, 6, 7, 8, 9, 12, 18])
        hi = ck.rng.choice([1, 10, 1000, 100000])
        scen.append(dict(order=ck.rng.choice([2, 4]), prof=ck.rng.random() < 0.4, f=[ck.rng.randint(-hi, hi) for _ in range(n + 1)]))
    found = ck.tlc("DerivativeScen", "DerivativeScen", scen=scen)
    for b in found:
        one(ck, b, grid(b["n"]))
        ck.replayed += 1
    # fields: columns with different profiles
    for n in sorted({b["n"] for b in found}):
        for order in (2, 4):
            cols = [b for b in found if b["n"] == n and b["order"] == order and not b["prof"] and not b["refused"]]
            for k in range(0, len(cols), 2 * n):
                field(ck, cols[k:k + 2 * n], grid(n), order)
    misc(ck, grid)
    ck.require(profiles=50, fields=10, refused=5, integers=30)


def variant(ck, f):
    kinds = ["float", "float", "int64", "int32", "float32", "list", "negative stride", "complex"]
    kind = ck.rng.choice(kinds)
    if kind == "list":
        return kind, f.tolist()
    if kind == "negative stride":
        return kind, np.ascontiguousarray(f[::-1])[::-1]
    return kind, f.astype(kind)


def call(ck, g, f, order):
    how = ck.rng.randint(0, 3)
    if order == 4 and how == 0:
        return g.derivative_meridional(f)
    if how == 1:
        return g.derivative_meridional(f, order)
    if how == 2:
        return g.derivative_meridional(f, order=np.int64(order))
    return g.derivative_meridional(f, order=order)


def one(ck, b, g):
    n, order = b["n"], b["order"]
    exact = np.array(b["f"], float)
    want = np.array([frac(x) for x in b["out"]]) * (-n / np.pi)
    scale = ck.rng.choice([1., 1., 1e-5, 1e10])
    kind, f = variant(ck, exact)
    if kind in ("float", "complex"):
        f, want = f * scale, want * scale
    with ck.case("derivative", n=n, order=order, prof=b["prof"], f=b["f"], kind=kind, scale=scale):
        if not b["prof"]:      # a field with equal columns or a single one
            w = ck.rng.choice([2 * n, 1, 3])
            f = np.repeat(np.asarray(f)[:, None], w, 1) if kind != "list" else [[x] * w for x in f]
            want = np.repeat(want[:, None], w, 1)
        if b["refused"]:
            ck.expect_raises("too few latitudes", Exception, lambda: g.derivative_meridional(f, order))
            ck.count("refused")
            return
        keep = np.array(f)
        got = call(ck, g, f, order)
        ck.expect_close("derivative", got, want, rel=1e-5 if kind == "float32" else 1e-10, scale=n * max(np.abs(keep).max(), 1e-30))
        ck.expect("input unchanged", np.array_equal(np.asarray(f), keep))
        ck.expect("new array", not np.shares_memory(got, np.asarray(f)))
        ck.count("profiles" if b["prof"] else "fields")
        ck.count("integers", kind in ("int64", "int32", "list"))
        ck.sample(b, 3)


def field(ck, cols, g, order):
    if not cols:
        return
    n = cols[0]["n"]
    f = np.array([b["f"] for b in cols], float).T
    want = np.array([[frac(x) for x in b["out"]] for b in cols]).T * (-n / np.pi)
    with ck.case("derivative of a field", n=n, order=order, columns=len(cols), f=f):
        keep = f.copy()
        ck.expect_close("derivative", call(ck, g, f, order), want, rel=1e-10, scale=n * np.abs(f).max())
        ck.expect_close("integers", call(ck, g, f.astype(int), order), want, rel=1e-10, scale=n * np.abs(f).max())
        ck.expect_close("transposed memory", call(ck, g, np.asfortranarray(f), order), want, rel=1e-10, scale=n * np.abs(f).max())
        ck.expect("input unchanged", np.array_equal(f, keep))
        ck.count("fields")


def misc(ck, grid):
    for n in (4, 6, 18, 36):
        g = grid(n)
        x = np.deg2rad(90 - np.arange(n + 1) * 180. / n)
        for order in (2, 4):
            with ck.case("polynomials in latitude", n=n, order=order):
                for k in range(order + 1):
                    c = ck.nprng.normal(size=2 * n)
                    f, d = x**k, k * x**max(k - 1, 0)
                    ck.expect_close(f"degree {k}", g.derivative_meridional(f[:, None] * c, order), d[:, None] * c, rel=1e-9, scale=10. * n)
                    e = d.copy()
                    e[[0, -1]] = 0
                    ck.expect_close(f"degree {k}, profile", g.derivative_meridional(f, order), e, rel=1e-9, scale=10. * n)
        with ck.case("refused", n=n):
            f = g.lat2
            for order in (0, 1, 3, 5, 6, -2, "2", "4", 2.5):
                ck.expect_raises(f"order {order!r}", Exception, lambda: g.derivative_meridional(f, order=order))
                ck.expect_raises(f"order {order!r}, profile", Exception, lambda: g.derivative_meridional(g.lat, order=order))
            for order in (2, 4):
                ck.expect_raises("3D", Exception, lambda: g.derivative_meridional(f[None], order=order))
            ck.count("refused")
