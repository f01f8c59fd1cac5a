"""C23: export of states to datasets (specs/Export.tla)."""
import datetime as D
import numpy as np
import barotropic as bt

TIMES = {
    "int": lambda k: 3600 * k,
    "float": lambda k: 0.5 * k - 7.25,
    "numpy": lambda k: np.float64(1e6 + k),
    "datetime": lambda k: D.datetime(2020, 2, 29, 23, 59, 59, 123456) + D.timedelta(days=k),
    "old datetime": lambda k: D.datetime(1850, 1, 1) + D.timedelta(hours=k),
    "datetime64": lambda k: np.datetime64("2001-01-01T00:00:00") + np.timedelta64(k, "h"),
}
ZONAL, MERIDIONAL = bt.ZONAL, bt.MERIDIONAL
CALLABLES = {
    "double": lambda s: 2 * s.u,
    "zonal mean": lambda s: s.u.mean(axis=ZONAL),
    "meridional mean": lambda s: s.v.mean(axis=MERIDIONAL),
    "number": lambda s: float(s.v.max()),
    "cube": lambda s: np.stack([s.u, s.v]),
    "unknown": "no_such_attribute",
    "spectral": "pv_spectral",
}


# Values of any type are exported as they are
VARIANTS = {
    "double": [lambda s: 2 * s.u, lambda s: 2.0 * s.u.astype(float) + 1e-11, lambda s: 10**12 + (1e3 * s.u).astype(int), lambda s: s.v > 0],
    "zonal mean": [lambda s: s.u.mean(axis=ZONAL), lambda s: s.u.astype(float).mean(axis=ZONAL) + 1e-11, lambda s: 1e5 + s.u.astype(float).mean(axis=ZONAL)],
    "meridional mean": [lambda s: s.v.mean(axis=MERIDIONAL), lambda s: 1e5 + s.v.astype(float).mean(axis=MERIDIONAL)],
    "number": [lambda s: float(s.v.max()), lambda s: 10**12 + int(1e3 * s.v.max()), lambda s: 1e8 + float(s.v.max()), lambda s: bool(s.v.max() > 5), lambda s: s.u.max()],
}


def direct(s, getter, callables):
    f = callables.get(getter)
    return f(s) if callable(f) else getattr(s, getter)


class World:
    def __init__(self, res, res2):
        self.grids = {1: bt.Grid(res), 2: bt.Grid(res2)}
        self.cache = {}

    def state(self, k, pool, times, label):
        s = pool[k]
        g = self.grids[s["grid"]]
        if k not in self.cache:
            self.cache[k] = g.fcor2 + 1e-5 * k * np.cos(g.phi2) ** 2 * np.sin(2 * g.lam2 + k) + 1e-6 * k * np.sin(g.phi2)
        st = bt.State(g, times(s["time"]), pv=self.cache[k])
        st.amount = 10 * k + 0.5
        if s["label"] != "none":
            setattr(st, *label(s["label"]))
        return st


POOL = {1: dict(grid=1, time=3, label="a"), 2: dict(grid=1, time=5, label="b"),
        3: dict(grid=1, time=3, label="none"), 4: dict(grid=2, time=4, label="a")}


def check(ck):
    worlds = [World(30., 45.), World(22.5, 30.), World(36., 20.), World(180. / 7, 36.)]
    jobs = ck.tlc("Export", "Export_" + ck.tier)
    ck.rng.shuffle(jobs)
    empty = [b for b in jobs if not b["states"]][:ck.pick(20, 100)]
    jobs = [b for b in jobs if b["states"]][:ck.pick(600, 6000)]
    sim = ck.tlc("Export", "Export_sim", args=["-simulate", f"num={ck.pick(400, 4000)}", "-depth", "12", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    for b in jobs + empty + sim[:ck.pick(400, 3000)]:
        replay(ck, b, ck.rng.choice(worlds))
        ck.replayed += 1
    ck.require(refused=50, empty=10, exported=150, mappings=50, labels=20, running=50, datetimes=50)


def replay(ck, b, w):
    kind = ck.rng.choice(list(TIMES))
    attr = ck.rng.choice(["label", "member", "foobar", "number", "index", "count"])
    what = ck.rng.choice([str, {"a": 7, "b": 3}.get, {"a": 0.5, "b": -2.5}.get])
    states = [w.state(k, POOL, TIMES[kind], lambda l: (attr, what(l))) for k in b["states"]]
    # names of the dimension that are no attributes
    concat = {"time": "time", "label": attr, "member": "realization", "index": "index" if attr != "index" else "count"}[b["concat"]]
    callables = dict(CALLABLES, **{k: ck.rng.choice(v) for k, v in VARIANTS.items()})
    fields = {e["name"]: callables.get(e["getter"], e["getter"]) for e in b["spec"]}
    names = [e["getter"] for e in b["spec"]]
    form = b["form"]
    arg = {"default": None, "name": names[0] if names else None,
           "list": ck.rng.choice([list, tuple, iter])(names), "mapping": fields}[form]
    kwargs = {} if form == "default" else dict(fields=arg)
    if concat != "time" or ck.rng.random() < 0.3:
        kwargs["concat_dim"] = concat
    container = ck.rng.choice(["list", "tuple", "generator", "StateList", "method"] + ["single"] * 2 * (len(states) == 1))
    one_grid = len({POOL[k]["grid"] for k in b["states"]}) <= 1
    if container in ("StateList", "method") and not one_grid:
        container = "list"
    with ck.case("export", states=b["states"], form=form, spec=b["spec"], concat=concat, kind=kind, container=container):
        given = {"list": lambda: states, "tuple": lambda: tuple(states), "generator": lambda: (s for s in states), "single": lambda: states[0],
                 "StateList": lambda: bt.StateList(states), "method": lambda: bt.StateList(states)}[container]()
        keep, keep_fields = list(states), dict(fields)
        pvs = [np.array(s.pv) for s in states]
        export = (lambda: given.as_dataset(**kwargs)) if container == "method" else (lambda: bt.io.as_dataset(given, **kwargs))
        if b["ds"]["refused"]:
            ck.expect_raises("refused", Exception, export)
            ck.count("refused")
            return
        ds = export()
        if not states:
            ck.expect("empty", len(ds) == 0 and len(ds.coords) == 0 and len(ds.dims) == 0, observed=str(ds))
            ck.count("empty")
            return
        ck.expect("input unchanged", list(states) == keep and fields == keep_fields and all(a is c for a, c in zip(states, keep)))
        ck.expect("states unchanged", all(np.array_equal(s.pv, p) for s, p in zip(states, pvs)))
        g = w.grids[1 if POOL[b["states"][0]]["grid"] == 1 else 2]
        sizes = {"latitude": g.nlat, "longitude": g.nlon, concat: len(states)}
        ck.expect("variables", set(ds.data_vars) == {v["name"] for v in b["ds"]["vars"]}, b["ds"]["vars"], list(ds.data_vars))
        for v in b["ds"]["vars"]:
            got = ds[v["name"]]
            dims = tuple(concat if d == b["concat"] else d for d in v["dims"])
            ck.expect(v["name"] + ": dimensions", got.dims == dims, dims, got.dims)
            ck.expect(v["name"] + ": shape", got.shape == tuple(sizes[d] for d in dims), sizes, got.shape)
            for i, s in enumerate(states):
                want = np.asarray(direct(s, v["getter"], callables))
                if want.dtype.kind == "f":
                    ck.expect_close("{}[{}]".format(v["name"], i), got.values[i], want, rel=1e-15 if want.dtype.itemsize > 4 else 1e-7)
                else:
                    ck.expect("{}[{}]: not exactly the values".format(v["name"], i), np.array_equal(got.values[i], want), want, got.values[i])
        ck.expect("coordinates", set(ds.coords) == {concat if c == b["concat"] else c for c in b["ds"]["coords"]}, b["ds"]["coords"], list(ds.coords))
        ck.expect_close("latitude", ds.coords["latitude"].values, 90 - 180. / (g.nlat - 1) * np.arange(g.nlat), rel=1e-12)
        ck.expect_close("longitude", ds.coords["longitude"].values, 360. / g.nlon * np.arange(g.nlon), rel=1e-12)
        ck.expect("horizontal coordinates are dimensions", ds.coords["latitude"].dims == ("latitude",) and ds.coords["longitude"].dims == ("longitude",))
        times(ck, ds, [TIMES[kind](t) for t in b["ds"]["times"]], kind)
        index(ck, ds, b, concat, what, kind)
        ck.count("exported")
        ck.count("mappings", form == "mapping")
        ck.count("datetimes", "date" in kind)
        ck.sample(dict(b, kind=kind), 3)


def times(ck, ds, want, kind):
    got = ds.coords["time"]
    ck.expect("number of times", got.shape == (len(want),), len(want), got.shape)
    if "date" in kind:
        ck.expect("datetimes", got.dtype.kind == "M", observed=got.dtype)
        ck.expect("times", all(a == np.datetime64(t) for a, t in zip(got.values, want)), [str(t) for t in want], got.values)
        ck.expect("no unit", "units" not in got.attrs, observed=got.attrs)
    else:
        ck.expect("numeric times", got.dtype.kind in ("i" if kind == "int" else "f"), kind, got.dtype)
        ck.expect("times", got.values.tolist() == [float(t) for t in want], want, got.values)
        ck.expect("unit", got.attrs.get("units") == "s", "s", got.attrs)


def index(ck, ds, b, concat, what, kind):
    if b["concat"] == "time":
        ck.expect("time is the dimension", ds.coords["time"].dims == ("time",), observed=ds.coords["time"].dims)
        return
    got = ds.coords[concat]
    want = [what(x["v"]) if x["t"] == "label" else x["v"] for x in b["ds"]["index"]]
    ck.expect("index dimension", got.dims == (concat,), concat, got.dims)
    ck.expect("index", got.values.tolist() == want, want, got.values)
    ck.count("labels" if b["ds"]["index"][0]["t"] == "label" else "running")
