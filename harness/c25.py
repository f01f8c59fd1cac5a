"""C25: round trips of states (specs/RoundTrip.tla)."""
import datetime as D
import numbers
import numpy as np
import barotropic as bt
from .core import frac

OMEGA, RADIUS = 7.292e-5, 6371200.
PLANETS = {1: (1., 1.), 2: (2., 1.), 3: (0.5, 0.5), 4: (0., 3.), 5: (1., 2.5)}
US = D.timedelta(microseconds=1)
TIMES = {
    "int": lambda k: 3600 * k - 7200,
    "large int": lambda k: 2**53 + 2 * k + 1,
    "float": lambda k: 0.1 * k + 1e-3,
    "large float": lambda k: 1.7e9 + 1. / k,
    "numpy": lambda k: np.float64(1e6) / k,
    "numpy int": lambda k: np.int64(86400 * k),
    "datetime": lambda k: D.datetime(2021, 12, 31, 23, 59, 59, 999998) + k * US,
    "datetime before 1970": lambda k: D.datetime(1969, 12, 31, 23, 59, 59, 999997) + k * US,
    "old datetime": lambda k: D.datetime(1650, 2, 28, 6, 30, 0, 1) + k * (D.timedelta(days=1) + US),
    "far datetime": lambda k: D.datetime(2300, 1, 1, 0, 0, 0, 123457) + k * D.timedelta(hours=7, microseconds=3),
    "very far datetime": lambda k: D.datetime(9990, 1, 1, 0, 0, 0, 7) + k * D.timedelta(hours=13, microseconds=3),
    "centuries": lambda k: D.datetime(1501 + 250 * k, 3, 1, 12, 0, 0, 123451 + k),
    "not ordered": lambda k: D.datetime(2000, 1, 1) + D.timedelta(hours=7 * k % 4),
    "all the same": lambda k: 7,
}
FIELDS = {"uv": ["u", "v"], "vo": ["vo"], "avo": ["avo"], "pv": ["pv"], "uv vo": ["u", "v", "vo"], "uv avo": ["u", "avo", "v"],
          "vo avo": ["avo", "vo"], "all": ["avo", "vo", "u", "v"]}
GETTERS = {"vo": ["vo", "vorticity", lambda s: s.vorticity], "avo": ["avo", "pv", lambda s: s.pv], "pv": ["pv"], "u": ["u", lambda s: s.u], "v": ["v", lambda s: s.v]}
DOCUMENTED = {"u": ["u", "ugrd", "eastward_wind"], "v": ["v", "vgrd", "northward_wind"], "vo": ["vo", "relv", "vorticity", "relative_vorticity"],
              "avo": ["avo", "absv", "absolute_vorticity", "pv"], "pv": ["pv"]}


class World:
    def __init__(self, res, **kw):
        self.res, self.kw, self.cache = res, kw, {}

    def kwargs(self, planet):
        w, r = PLANETS[planet]
        return dict(self.kw, omega=w * OMEGA, rsphere=r * RADIUS)

    def grid(self, planet):
        if planet not in self.cache:
            self.cache[planet] = bt.Grid(self.res, **self.kwargs(planet))
        return self.cache[planet]

    def pv(self, c, a, m, k):
        g = self.grid(1)
        f = np.cos(g.phi2) ** 2 * np.cos(2 * g.lam2 + k) + 0.5 * k * np.sin(2 * g.phi2) * np.sin(g.lam2 + 0.3 * k) + 0.3 * np.sin(g.phi2)
        return c * 2 * OMEGA * np.sin(g.phi2) + a * 2e-5 * f + m * 1e-5


def check(ck):
    try:
        import xarray
    except ImportError:
        return
    worlds = [World(r, **kw) for r, kw in [(30., {}), (22.5, {}), (180. / 7, {}), (36., {}), (20., {}), (18., {"ntrunc": 5}), (15., {"legfunc": "computed"}), (180. / 11, {})]]
    if ck.thorough:
        worlds += [World(180. / 73), World(2.5), World(180. / 49, ntrunc=20), World(5.), World(180. / 23)]
    try:
        from falwa.barotropic_field import BarotropicField
        stub = False
    except ImportError:
        stub = install_stub()
    jobs = ck.tlc("RoundTrip", "RoundTrip_" + ck.tier)
    ck.rng.shuffle(jobs)
    sim = ck.tlc("RoundTrip", "RoundTrip_sim", args=["-simulate", f"num={ck.pick(60, 600)}", "-depth", "8", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    for b in jobs[:ck.pick(600, 4000)] + sim[:ck.pick(500, 5000)]:
        replay(ck, b, ck.rng.choice(worlds), xarray)
        ck.replayed += 1
    for n in sorted(set(range(4, ck.pick(40, 180))) | {45, 60, 65, 72, 73, 75, 84, 90, 96, 100}):
        # (derived grids) for all resolutions
        with ck.case("resolution", n=n):
            g = bt.Grid(180. / n)
            s = bt.State(g, 12.5, pv=g.fcor2 + 1e-5 * np.cos(g.phi2) * np.cos(g.lam2))
            other = bt.State.from_hn2016(None, s.time, s.as_hn2016())
            same(ck, other, g, s.time, s.pv, "falwa")
            field = ck.rng.choice(["vo", "avo"])
            ds = bt.io.as_dataset([s], fields=field)
            same(ck, bt.io.from_dataset(ds)[0], g, s.time, s.pv, field)
            # coordinates as stored in many files
            single = ds.assign_coords(latitude=ds["latitude"].astype("float32"), longitude=ds["longitude"].astype("float32"))
            same(ck, bt.io.from_dataset(single)[0], g, s.time, s.pv, field)
    ck.require(datasets=500, falwa=200, integrated=200, datetimes=200, numbers=200, derived=50, other_planet=300, mismatch=100)


def install_stub():
    import sys, types
    class BarotropicField:
        def __init__(self, xlon, ylat, pv_field, **kw):
            self.xlon, self.ylat, self.pv_field, self.nlon, self.nlat = xlon, ylat, pv_field, xlon.size, ylat.size
            self.dphi = np.pi / (ylat.size - 1) * np.ones(ylat.size)
    sys.modules["falwa"] = types.ModuleType("falwa")
    sys.modules["falwa.barotropic_field"] = types.ModuleType("falwa.barotropic_field")
    sys.modules["falwa.barotropic_field"].BarotropicField = BarotropicField
    return True


def same(ck, st, g, t, pv, what, scale=None, n=1):
    # n: number of conversions in single precision, each with derivatives on the grid
    ck.expect(what + ": grid", st.grid == g, g, st.grid)
    ck.expect(what + ": radius, rotation, truncation", abs(st.grid.rsphere - g.rsphere) <= 1e-9 * g.rsphere and abs(st.grid.omega - g.omega) <= 1e-9 * OMEGA, g, st.grid)
    ck.expect_close(what + ": pv", st.pv, pv, rel=1e-4 * n * max(1, g.nlat / 30), scale=scale)
    if isinstance(t, D.datetime):
        ck.expect(what + ": datetime", isinstance(st.time, D.datetime), t, st.time)
    else:
        ck.expect(what + ": number", isinstance(st.time, numbers.Number) and not isinstance(st.time, (np.datetime64, np.timedelta64)), t, repr(st.time))
    ck.expect(what + ": time", st.time == t, t, st.time)


def through_dataset(ck, states, op, w, xr):
    names, fields = {}, {}
    ordinary = ck.rng.random() < 0.5
    for ref in FIELDS[op["form"]]:
        if ordinary:
            name = ref
        elif ck.rng.random() < 0.5:
            name = ck.rng.choice(DOCUMENTED[ref])
        else:
            name = "my_" + ref
            names["avo" if ref == "pv" else ref] = name
        fields[name] = ck.rng.choice(GETTERS[ref])
    order = list(fields.items())
    ck.rng.shuffle(order)
    arg = dict(order)
    if ordinary and ck.rng.random() < 0.5:
        arg = [n for n, _ in order]
        if len(arg) == 1 and ck.rng.random() < 0.5:
            arg = arg[0]
    given = ck.rng.choice([list, tuple, bt.StateList])(states)
    if isinstance(given, bt.StateList) and ck.rng.random() < 0.5:
        ds = given.as_dataset(fields=arg) if op["form"] != "uv" or not ordinary or ck.rng.random() < 0.5 else given.as_dataset()
    elif len(states) == 1 and ck.rng.random() < 0.5:
        ds = bt.io.as_dataset(states[0], fields=arg)
    else:
        ds = bt.io.as_dataset(given, fields=arg)
    if len(ds.data_vars) == 1 and ck.rng.random() < 0.3:
        ds = ds[list(ds.data_vars)[0]]
    kwargs = {}
    if names:
        kwargs["names"] = names
    if op["planet"] != 1 or w.kw or ck.rng.random() < 0.3:
        kwargs["grid_kwargs"] = w.kwargs(op["planet"])
    ck.count("datasets")
    return bt.io.from_dataset(ds, **kwargs)


def replay(ck, b, w, xr):
    kind = ck.rng.choice(list(TIMES))
    kinds = ["int", "float", "numpy"] if kind in ("int", "float") and ck.rng.random() < 0.3 else [kind]
    # only the derived grid loses the truncation
    if w.kw.get("ntrunc") and any(o["op"] == "falwa" and o["planet"] == 0 for o in b["prog"]):
        w = World(w.res)
    first = b["first"]
    time = {k: TIMES[kinds[k % len(kinds)]](k) for k in range(1, first["n"] + 1)}
    with ck.case("round trip", prog=b["prog"], first=first, res=w.res, kw=w.kw, kind=kinds):
        g = w.grid(first["planet"])
        states = [bt.State(g, time[k], pv=w.pv(PLANETS[first["planet"]][0], 1, float(frac(first["m"])) if k == 1 else 0., k)) for k in range(1, first["n"] + 1)]
        start = list(states)
        scale = max(np.abs(s.pv).max() for s in states)
        for op in b["prog"]:
            if op["op"] == "pick":
                states = [states[k - 1] for k in op["pick"]]
            elif op["op"] == "dataset":
                states = through_dataset(ck, states, op, w, xr)
                ck.expect("StateList", isinstance(states, bt.StateList), observed=type(states))
                ck.count("other_planet", op["planet"] != first["planet"])
            else:
                grid = w.grid(op["planet"]) if op["planet"] else None
                fields = [s.as_hn2016() for s in states]
                ck.expect("falwa: from the south", all(f.ylat[0] < f.ylat[-1] and np.array_equal(f.pv_field[0], s.pv[-1]) for f, s in zip(fields, states)))
                ck.expect("falwa: coordinates", all(np.array_equal(f.ylat[::-1], s.grid.lat) and np.array_equal(f.xlon, s.grid.lon) for f, s in zip(fields, states)))
                states = [bt.State.from_hn2016(grid, s.time, f) for f, s in zip(fields, states)]
                refuse(ck, w, fields[0], op["planet"])
                ck.count("falwa")
                ck.count("derived", grid is None)
            scale = max([scale] + [np.abs(s.pv).max() for s in states])
        g = w.grid(b["planet"])
        if not ck.expect("number of states", len(states) == len(b["states"]), len(b["states"]), len(states)):
            return
        for i, (st, x) in enumerate(zip(states, b["states"])):
            want = w.pv(*(float(frac(x[k])) for k in "cam"), x["id"])
            same(ck, st, g, time[x["time"]], want, "state {}".format(i + 1), scale=scale, n=max(1, len(b["prog"]) - 1))
            ck.expect("displayed", "State" in repr(st), observed=repr(st))
        ck.expect("originals are unchanged", all(s.time == time[k + 1] and s.grid == w.grid(first["planet"]) for k, s in enumerate(start)))
        ck.count("datetimes" if "date" in kind or kind in ("centuries", "not ordered") else "numbers")
        if ck.rng.random() < 0.7:
            integrate(ck, states[-1], g, time[b["states"][-1]["time"]], kind)
        ck.sample(dict(b, kind=kind), 2)


def refuse(ck, w, field, planet):
    """A field can only be put on a grid with the same gridpoints"""
    class Other:
        pass
    n = field.ylat.size - 1
    for k in ck.rng.sample([-3, -2, -1, 1, 2, 5], 2):
        m = n + k
        if m < 4:
            continue
        other, f = bt.Grid(180. / m, **{a: b for a, b in w.kwargs(planet or 1).items() if a in ("rsphere", "omega")}), Other()
        vars(f).update({a: b for a, b in vars(field).items()})
        ck.expect_raises("falwa: other grid", Exception, lambda: bt.State.from_hn2016(other, 0, field))
        # only the number of latitudes differs
        y, fill = np.linspace(-90, 90, m + 1), np.concatenate([field.pv_field, field.pv_field[-1:].repeat(max(k, 0), axis=0)])[:m + 1]
        f.xlon, f.ylat, f.pv_field, f.nlon, f.nlat, f.dphi = field.xlon, y, fill, field.xlon.size, m + 1, np.pi / m * np.ones(m + 1)
        ck.expect_raises("falwa: other latitudes", Exception, lambda: bt.State.from_hn2016(w.grid(planet or 1), 0, f))
        # only the number of longitudes differs
        f.xlon, f.ylat, f.nlon, f.nlat, f.dphi = other.lon, field.ylat, other.nlon, field.nlat, np.pi / n * np.ones(n + 1)
        f.pv_field = np.concatenate([field.pv_field] * 5, axis=1)[:, :other.nlon]
        ck.expect_raises("falwa: other longitudes", Exception, lambda: bt.State.from_hn2016(w.grid(planet or 1), 0, f))
        ck.count("mismatch")


def integrate(ck, st, g, t, kind):
    model = bt.BarotropicModel(rhs=None)
    fresh = bt.State(g, t, pv=np.array(st.pv))
    # numerically stable
    speed = max(np.abs(fresh.u).max(), np.abs(fresh.v).max(), 1.)
    dt = int(max(1, min(900, 0.1 * g.rsphere * np.pi / (g.nlat - 1) / speed)))
    if isinstance(t, D.datetime):
        dt = D.timedelta(seconds=dt)
    end = t + 4 * dt
    a, _ = model.run(st, dt, end)
    b, _ = model.run(fresh, dt, end)
    ck.expect("integrated to the end", a.time == b.time and isinstance(a.time, D.datetime) == isinstance(b.time, D.datetime), b.time, a.time)
    ck.expect_close("integrated", a.pv, b.pv, rel=1e-4)
    ck.expect("progress", a.time > t, observed=a.time)
    ck.expect("displayed after integration", "State" in repr(a))
    ck.count("integrated")
