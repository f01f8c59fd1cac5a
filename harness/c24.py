"""C24: import of datasets (specs/ImportSelect.tla, ImportDims.tla, ImportGeom.tla)."""
import datetime as D
import numbers
import numpy as np
import barotropic as bt

NAMES = {
    "u": ["u", "ugrd", "eastward_wind"],
    "v": ["v", "vgrd", "northward_wind"],
    "vo": ["vo", "relv", "vorticity", "relative_vorticity"],
    "avo": ["avo", "absv", "absolute_vorticity", "pv"],
}
NONE, CUSTOM, MISSING = 99, 0, 98


class Grids:
    def __init__(self, rng):
        self.rng, self.cache = rng, {}

    def get(self, res):
        kw = self.rng.choice([None, {}, {"omega": 1e-5}, {"rsphere": 1e6, "omega": 2e-4}] + [{"ntrunc": 3}] * (res <= 45))
        key = res, tuple(sorted((kw or {}).items()))
        if key not in self.cache:
            self.cache[key] = bt.Grid(res, **(kw or {}))
        return self.cache[key], kw


def flow(g, seed, kind):
    """Distinct smooth fields"""
    a = 1 + seed % 7 + 0.1 * seed
    f = a * (np.cos(g.phi2) ** 2 * np.cos(2 * g.lam2 + seed) + 0.3 * np.sin(2 * g.phi2) * np.cos(g.lam2 + 0.5 * seed) + 0.2 * np.sin(g.phi2))
    return 5 * f if kind in ("u", "v") else 1e-5 * f


def build(ref, g, t, fields):
    if ref == "u":
        return bt.State.from_wind(g, t, *fields)
    if ref == "vo":
        return bt.State.from_vorticity(g, t, *fields)
    return bt.State(g, t, pv=fields[0])


def expect_states(ck, states, g, ref, data, times):
    ck.expect("StateList", isinstance(states, bt.StateList), observed=type(states))
    if ck.expect("number of states", len(states) == len(data), len(data), len(states)):
        for i, (st, d, t) in enumerate(zip(states, data, times)):
            want = build(ref, g, 0, d)
            ck.expect("grid", st.grid == g, g, st.grid)
            ck.expect_close("pv of state {}".format(i), st.pv, want.pv, rel=1e-5)
            if isinstance(t, D.datetime):
                ck.expect("datetime", isinstance(st.time, D.datetime), t, st.time)
            else:
                ck.expect("number", isinstance(st.time, numbers.Number) and not isinstance(st.time, np.timedelta64), t, repr(st.time))
            ck.expect("time of state {}".format(i), st.time == t, t, st.time)
            ck.expect("can be displayed", "State" in repr(st))


def check(ck):
    try:
        import xarray
    except ImportError:
        return
    grids = Grids(ck.rng)
    jobs = ck.tlc("ImportSelect", "ImportSelect_" + ck.tier)
    ck.rng.shuffle(jobs)
    sim = ck.tlc("ImportSelect", "ImportSelect_sim", args=["-simulate", f"num={ck.pick(400, 3000)}", "-depth", "16", "-seed", str(ck.seed)])
    for b in jobs[:ck.pick(700, 8000)] + sim:
        selection(ck, b, grids, xarray)
        ck.replayed += 1
    # every combination of the documented names of the variables that are used
    groups = {}
    for b in ck.tlc("ImportSelect", "ImportSelect_names"):
        used = [x["ref"] for x in b["from"] if x["ref"] != "refused"]
        groups.setdefault(tuple((r, tuple(sorted(b["has"][r]))) for r in used), []).append(b)
    for key in sorted(groups):
        for b in ck.rng.sample(groups[key], min(len(groups[key]), ck.pick(2, 20))):
            selection(ck, b, grids, xarray)
            ck.count("name sets", len(key))
            ck.replayed += 1
    jobs = ck.tlc("ImportDims", "ImportDims_" + ck.tier)
    ck.rng.shuffle(jobs)
    for b in jobs[:ck.pick(700, 6000)]:
        dimensions(ck, b, grids, xarray)
        ck.replayed += 1
    jobs = ck.tlc("ImportGeom", "ImportGeom_" + ck.tier)
    ck.rng.shuffle(jobs)
    valid = [b for b in jobs if b["valid"]]
    for b in valid * ck.pick(2, 6) + jobs[:ck.pick(700, 6000)]:
        geometry(ck, b, grids, xarray)
        ck.replayed += 1
    misc(ck, grids, xarray)
    ck.require(**{"name sets": 100})
    ck.require(winds=50, vorticities=50, pvs=20, overrides=100, refused=50, flattened=300, extracted=50, filled=100, geometries=300, valid=20)


def coordinate_names(ck):
    return ck.rng.choice(["latitude", "lat"]), ck.rng.choice(["longitude", "lon"])


def selection(ck, b, grids, xr):
    res = ck.rng.choice([45., 60., 30.])
    g, kw = grids.get(res)
    lat, lon = coordinate_names(ck)
    data, names, fields = {}, {}, {}
    for r, (ref, docs) in enumerate(NAMES.items()):
        candidates = [(i, docs[i-1]) for i in b["has"][ref]]
        if b["user"][ref] == CUSTOM:
            candidates.append((CUSTOM, "my_" + ref))
        for i, name in candidates:
            fields[ref, i] = flow(g, 5 * r + i, ref)
            data[name] = ((lat, lon), fields[ref, i])
        if b["user"][ref] != NONE:
            names[ref] = {CUSTOM: "my_" + ref, MISSING: "nowhere"}.get(b["user"][ref]) or docs[b["user"][ref]-1]
    items = list(data.items())
    ck.rng.shuffle(items)
    ds = xr.Dataset(dict(items), coords={lat: g.lat, lon: g.lon})
    kwargs = {}
    if names or ck.rng.random() < 0.2:
        kwargs["names"] = names
    if kw is not None:
        kwargs["grid_kwargs"] = kw
    with ck.case("selection", has=b["has"], user=b["user"], res=res, grid_kwargs=kw):
        if b["from"][0]["ref"] == "refused":
            ck.expect_raises("refused", Exception, lambda: bt.io.from_dataset(ds, **kwargs))
            ck.count("refused")
            return
        ref = b["from"][0]["ref"]
        source = ds
        if len(items) == 1 and not isinstance(ds, xr.DataArray) and ck.rng.random() < 0.5:
            source = ds[items[0][0]]
        before, keep_names = source.copy(deep=True), dict(names)
        got = bt.io.from_dataset(source, **kwargs)
        expect_states(ck, got, g, ref, [[fields[x["ref"], x["name"]] for x in b["from"]]], [0])
        ck.expect("dataset unchanged", source.identical(before))
        ck.expect("names unchanged", names == keep_names)
        ck.count({"u": "winds", "vo": "vorticities", "avo": "pvs"}[ref])
        ck.count("overrides", bool(names))
        ck.sample(b, 2)


def dimensions(ck, b, grids, xr):
    g, kw = grids.get(ck.rng.choice([45., 60.]))
    lat, lon = coordinate_names(ck)
    how, on, known = b["time"]["how"], sorted(b["time"]["on"]), b["time"]["known"]
    custom = not known or ck.rng.random() < 0.4
    tname = "valid_time" if custom else "time"
    # names of dimensions; not the one recognized as time unless intended
    dnames = ck.rng.sample(["level", "member", "z", "number", "step"], len(b["dims"]))
    if how in ("own", "bare"):
        dnames[on[0]-1] = tname
    sizes = [d["size"] for d in b["dims"]]
    kind = ck.rng.choice(["int", "float", "datetime"])
    def stamp(idx):
        k = sum((1 if kind == "datetime" else 100) * i * 7 ** p for p, i in enumerate(idx))
        return {"int": 60 * k, "float": 0.25 * k + 0.1, "datetime": D.datetime(2021, 12, 31, 21, 30, 0, 250000) + D.timedelta(hours=k, microseconds=k)}[kind]
    def array(values):
        return np.array(values, dtype="datetime64[{}]".format(ck.rng.choice(["us", "ns"])) if kind == "datetime" else None)
    repeated = how == "own" and b["dims"][on[0]-1]["coord"] == "repeated"
    coords = {lat: g.lat, lon: g.lon}
    for p, d in enumerate(b["dims"]):
        if dnames[p] != tname and d["coord"] != "none":
            n = d["size"]
            coords[dnames[p]] = (dnames[p], ck.rng.choice([np.arange(n)[::-1] * 10, np.array(list("cab"))[:n]]) if d["coord"] == "unique" else ck.rng.choice([np.zeros(n), np.array(["x"] * n)]))
    full = lambda c: tuple(c[p-1] if p in on else 1 for p in range(1, len(sizes) + 1))
    value = lambda c: stamp((1,) * len(sizes)) if repeated else stamp(full(c))
    extra = {}
    if how in ("own", "along", "variable"):
        shape = tuple(sizes[p-1] for p in on)
        flat = []
        for c in np.ndindex(*shape):
            cell = [1] * len(sizes)
            for p, i in zip(on, c):
                cell[p-1] = i + 1
            flat.append(value(cell))
        var = (tuple(dnames[p-1] for p in on), array(flat).reshape(shape))
        if how == "variable":
            extra[tname] = var
        else:
            coords[tname] = var
    ref = ck.rng.choice(["u", "vo", "avo"])
    refs = ["u", "v"] if ref == "u" else [ref]
    total = len(b["cells"])
    blocks = {r: np.array([flow(g, 3 * i + j, r) for i in range(total)]) for j, r in enumerate(refs)}
    ds = xr.Dataset({**{r: (tuple(dnames) + (lat, lon), blocks[r].reshape(tuple(sizes) + g.shape)) for r in refs}, **extra}, coords=coords)
    fill = ck.rng.choice([None, 42, -1.5, D.datetime(1999, 1, 1)])
    kwargs = {} if fill is None else dict(time_fill=fill)
    if kw is not None:
        kwargs["grid_kwargs"] = kw
    if custom and known:
        kwargs["names"] = {"time": tname}
    with ck.case("dimensions", dims=b["dims"], time=b["time"], kind=kind, ref=ref, names=dnames, custom=custom):
        before = ds.copy(deep=True)
        got = bt.io.from_dataset(ds, **kwargs)
        times = [(0 if fill is None else fill) if c["time"]["t"] == "fill" else stamp((1,) * len(sizes)) if repeated else stamp(tuple(c["time"]["idx"])) for c in b["cells"]]
        expect_states(ck, got, g, ref, [[blocks[r][i] for r in refs] for i in range(total)], times)
        ck.expect("dataset unchanged", ds.identical(before))
        ck.count("flattened")
        ck.count("extracted" if b["cells"][0]["time"]["t"] == "at" else "filled")
        ck.sample(b, 2)
        if ref == "u" and len(sizes) == 2 and min(sizes) > 1:
            # components with other dimensions or another order of dimensions
            other = ds.assign(v=ds["v"].transpose(dnames[1], dnames[0], lat, lon))
            ck.expect_raises("order of the dimensions of u and v", Exception, lambda: bt.io.from_dataset(other, **kwargs))
            other = ds.assign(v=ds["v"].isel({dnames[0]: 0}, drop=True))
            ck.expect_raises("dimensions of u and v", Exception, lambda: bt.io.from_dataset(other, **kwargs))


def geometry(ck, b, grids, xr):
    unit = 360. / b["circle"]
    lon, lat = np.array(b["lon"]) * unit, np.array(b["lat"]) * unit
    names = ck.rng.choice([("latitude", "longitude"), ("lat", "lon"), ("y", "x")])
    dtype = ck.rng.choice([float, np.float32, "decimals"])
    if dtype == "decimals":
        lon, lat = lon.round(3), lat.round(3)
    else:
        lon, lat = lon.astype(dtype), lat.astype(dtype)
    if ck.rng.random() < 0.2 and np.all(lon == lon.astype(int)):
        lon, lat = lon.astype(int), lat.astype(int)
    dims = tuple({"time": "time", "lat": names[0], "lon": names[1]}[d] for d in b["order"])
    sizes = {"time": 2, names[0]: len(lat), names[1]: len(lon)}
    kwargs = dict(names={"lat": names[0], "lon": names[1]}) if names[0] == "y" else {}
    with ck.case("geometry", edits=b["edits"], lon=lon, lat=lat, order=b["order"], names=names):
        if b["valid"]:
            g, kw = grids.get(360. / len(lon))
            if kw is not None:
                kwargs["grid_kwargs"] = kw
            data = [[flow(g, i, "avo")] for i in range(2)]
            field = np.array([d[0] for d in data])
        else:
            field = ck.nprng.normal(size=[sizes[d] for d in dims])
        ds = xr.Dataset({"avo": (dims, field)}, coords={names[0]: lat, names[1]: lon, "time": [10, 20]})
        if b["valid"]:
            expect_states(ck, bt.io.from_dataset(ds, **kwargs), g, "avo", data, [10, 20])
            if names[0] == "y":
                ck.expect_raises("unknown coordinates", Exception, lambda: bt.io.from_dataset(ds))
                ck.expect_raises("unknown latitude", Exception, lambda: bt.io.from_dataset(ds, names={"lon": "x"}))
            ck.count("valid")
        else:
            ck.expect_raises("refused", Exception, lambda: bt.io.from_dataset(ds, **kwargs))
        ck.count("geometries")


def misc(ck, grids, xr):
    g = bt.Grid(30.)
    coords = {"latitude": g.lat, "longitude": g.lon}
    with ck.case("refused"):
        bad = [xr.Dataset(), xr.Dataset(coords=coords), xr.Dataset({"t": (("latitude", "longitude"), g.lat2)}, coords=coords),
               xr.Dataset({"avo": (("latitude", "longitude"), g.fcor2)}, coords={"latitude": g.lat}),
               xr.Dataset({"avo": (("latitude", "longitude"), g.fcor2)}, coords={"longitude": g.lon}),
               xr.Dataset({"avo": (("latitude",), g.fcor)}, coords=coords),
               xr.Dataset({"avo": (("y", "x"), g.fcor2), }, coords={"latitude": (("y", "x"), g.lat2), "longitude": (("y", "x"), g.lon2)}),
               xr.Dataset({"avo": (("y", "x"), g.fcor2), "latitude": g.lat, "longitude": g.lon})]
        for i, ds in enumerate(bad):
            ck.expect_raises("dataset {}".format(i), Exception, lambda: bt.io.from_dataset(ds))
