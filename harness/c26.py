"""C26: plots (specs/MapDrawing.tla, Hovmoeller.tla)."""
import datetime as D
import re
import warnings
import numpy as np
import barotropic as bt
from .core import frac

TIMES = {"int": lambda k: 3600 * k, "float": lambda k: 0.25 * k, "datetime": lambda k: D.datetime(2020, 2, 28, 21) + D.timedelta(hours=3 * k)}


def check(ck):
    try:
        import matplotlib
    except ImportError:
        return
    import matplotlib.pyplot as plt
    for b in ck.tlc("MapDrawing", "MapDrawing_" + ck.tier):
        rolling(ck, b, plt)
        ck.replayed += 1
    for b in ck.tlc("MapDrawing", "MapDrawing_vectors"):
        thinning(ck, b)
        ck.replayed += 1
    grids = {}
    for b in ck.tlc("Hovmoeller", "Hovmoeller_" + ck.tier):
        (levels if b["out"]["what"] == "levels" else hovmoeller)(ck, b)
        ck.replayed += 1
    jobs = ck.tlc("MapDrawing", "MapDrawing_figures")
    ck.rng.shuffle(jobs)
    for preset, number in [("summary", ck.pick(14, 120)), ("wave_activity", ck.pick(14, 120)), ("rwp_diagnostics", ck.pick(12, 120)), ("waveguides", ck.pick(40, 300))]:
        for b in [b for b in jobs if b["figures"][0]["preset"] == preset][:number]:
            figure(ck, b, grids, plt)
            ck.replayed += 1
    ck.require(rolled=500, thinned=300, diagrams=50, refused=50, levels=100, maps=30, arrows=100, profiles=60, labels=500, guides=3)


def labels_of(ax):
    """Ticks and the numbers of their labels"""
    out = []
    for x, t in zip(ax.get_xticks(), ax.get_xticklabels()):
        number = re.search(r"[-−]?\d+(\.\d+)?", t.get_text())
        if number:
            out.append((float(x), float(number.group().replace("−", "-"))))
    return out


def apart(a, b):
    return abs((a - b + 180) % 360 - 180)


def read_longitudes(ck, ax, xs, what):
    """Longitudes of positions according to all tick labels (rounded to whole degrees)"""
    ticks = labels_of(ax)
    ck.expect(what + ": ticks", len(ticks) >= 4, "tick labels", ticks)
    ck.count("labels", len(ticks))
    return [[label + (x - tick) for tick, label in ticks] for x in xs]


def rolling(ck, b, plt):
    n, step = b["n"], 360. / b["n"]
    lon = np.linspace(0, 360, n, endpoint=False)
    center = b["center"] * step / 4
    if center == int(center) and ck.rng.random() < 0.5:
        center = int(center)
    tie = len(b["nearest"]) > 1
    if tie and b["mid"] != b["nearest"][0]:
        return   # either is right, checked with the first
    with ck.case("roll_lon", n=n, center=center):
        keep = lon.copy()
        roll, configure = bt.plot.roll_lon(lon, center) if center != 180 or ck.rng.random() < 0.5 else bt.plot.roll_lon(lon)
        field = np.arange(n) + 1000 * np.arange(n // 2 + 1)[:, None]
        before = field.copy()
        got = np.asarray(roll(field))
        ck.expect("shape", got.shape == field.shape, field.shape, got.shape)
        ck.expect("rows stay", np.array_equal(got // 1000, field // 1000))
        columns = got[0] % 1000
        allowed = [[(p - n // 2 + j) % n for p in range(n)] for j in b["nearest"]]
        ck.expect("the spec agrees", b["columns"] in allowed)
        ck.expect("columns", columns.tolist() in allowed, allowed, columns)
        ck.expect("all rows alike", np.array_equal(got - 1000 * np.arange(n // 2 + 1)[:, None], np.broadcast_to(columns, got.shape)))
        ck.expect("another field", np.array_equal(roll(field * 2.5), got * 2.5))
        ck.expect("inputs unchanged", np.array_equal(lon, keep) and np.array_equal(field, before))
        ck.count("rolled")
        # labels on actual axes
        if ck.rng.random() > (0.1 if n > 40 else 0.4):
            return
        fig = plt.figure()
        try:
            ax = fig.add_subplot()
            configure(ax)
            for p, values in enumerate(read_longitudes(ck, ax, lon, "labels")):
                ck.expect("label at position {}".format(p), all(apart(x, lon[columns[p]]) <= 0.51 for x in values), lon[columns[p]], values)
        finally:
            plt.close(fig)
        ck.sample(dict(n=n, center=center, columns=columns.tolist()), 2)


def thinning(ck, b):
    v = b["vectors"][0]
    shape = v["rows"], v["columns"]
    with ck.case("vectors", **{k: v[k] for k in ("rows", "columns", "ny")}):
        x = np.broadcast_to(np.arange(shape[1]) * 10., shape).copy()
        y = np.broadcast_to(90. - np.arange(shape[0])[:, None], shape).copy()
        u, w = x + 1000 * y, -x * y - 1e5
        keep = [a.copy() for a in (x, y, u, w)]
        got = bt.plot.reduce_vectors(x, y, u, w, v["ny"])
        ck.expect("four arrays", len(got) == 4, 4, len(got))
        rows, columns = v["keep"]["rows"], v["keep"]["columns"]
        for name, g, a in zip(("x", "y", "u", "v"), got, keep):
            ck.expect(name, np.array_equal(g, a[np.ix_(rows, columns)]), a[np.ix_(rows, columns)], g)
        ck.expect("inputs unchanged", all(np.array_equal(a, k) for a, k in zip((x, y, u, w), keep)))
        ck.count("thinned")


_world = {}
def world():
    if not _world:
        for res in (45., 30., 22.5):
            _world[res] = bt.Grid(res)
    return _world


def hovmoeller(ck, b):
    g = ck.rng.choice(list(world().values()))
    out = b["out"]
    kind = ck.rng.choice(list(TIMES))
    offset = {1: 3, 2: 5, 3: 4, 4: 3}
    states = []
    for k in b["states"]:
        states.append(bt.State(g, TIMES[kind](offset[k]), pv=g.fcor2 + 1e-5 * np.cos(g.phi2) * np.cos(g.lam2 + k)))
        states[-1].number = k
    # lengths of the specification stand for those of the grid
    length = {5: g.nlat, 8: g.nlon, 4: g.nlat - 1, 9: g.nlon + 1}.get(out["length"], out["length"])
    calls = []
    def profile(state):
        calls.append(state)
        return 100. * state.number + np.arange(length)
    container = ck.rng.choice([list, tuple, bt.StateList])
    with ck.case("hovmoeller", states=b["states"], length=length, grid=g.shape, kind=kind):
        if out["what"] == "refused":
            ck.expect_raises("refused", Exception, lambda: bt.plot.hovmoellerify(container(states), profile))
            ck.count("refused")
            return
        given = container(states)
        x, y, field = bt.plot.hovmoellerify(given, profile)
        ck.expect("states unchanged", len(given) == len(states) and all(a is c for a, c in zip(given, states)))
        axes = {"longitude": 360. / g.nlon * np.arange(g.nlon), "latitude": 90 - 180. / (g.nlat - 1) * np.arange(g.nlat)}
        size = {"time": len(states), "longitude": g.nlon, "latitude": g.nlat}
        ck.expect("shape", np.shape(field) == (size[out["y"]], size[out["x"]]), size, np.shape(field))
        for name, values in ((out["x"], x), (out["y"], y)):
            if name == "time":
                ck.expect("times", list(values) == [s.time for s in states], [s.time for s in states], values)
            else:
                ck.expect_close(name, np.asarray(values), axes[name], rel=1e-12)
        # along the time axis as specified, the other axis has the length of the grid
        along = [c[0] for c in out["field"][0]] if out["x"] == "time" else [r[0][0] for r in out["field"]]
        want = np.array([100. * states[i - 1].number + np.arange(length) for i in along])
        ck.expect("field", np.array_equal(np.asarray(field), want.T if out["x"] == "time" else want), want, field)
        ck.count("diagrams")
        ck.sample(dict(states=b["states"], x=out["x"], y=out["y"]), 2)


def levels(ck, b):
    o = b["out"]
    with ck.case("levels", **{k: o[k] for k in ("lo", "hi", "ext", "n")}):
        scale = ck.rng.choice([1., 1e-4, 1234.5])
        x = scale * np.array([[o["lo"], o["hi"]], [(o["lo"] + o["hi"]) / 2, o["hi"]]], dtype=float)
        keep = x.copy()
        kw = {"ext": o["ext"] * scale} if o["ext"] else {}
        got = bt.plot.symmetric_levels(x, o["n"], **kw) if o["n"] != 10 or ck.rng.random() < 0.5 else bt.plot.symmetric_levels(x, **kw)
        want = np.array([float(frac(k)) for k in o["levels"]])
        if o["lo"] or o["hi"] or o["ext"]:
            want = want * scale
        ck.expect_close("levels", np.asarray(got), want, rel=1e-12, scale=np.abs(want).max())
        ck.expect("symmetric", np.allclose(got, -np.asarray(got)[::-1], rtol=1e-12, atol=1e-12 * np.abs(want).max()))
        ck.expect("unchanged", np.array_equal(x, keep))
        ck.count("levels")


class Recorder:
    """Records what the axes receive"""
    METHODS = ("contourf", "contour", "quiver", "plot", "pcolormesh")

    def __init__(self):
        from matplotlib.axes import Axes
        self.Axes, self.calls, self.original = Axes, [], {}

    def __enter__(self):
        for m in self.METHODS:
            self.original[m] = getattr(self.Axes, m)
            setattr(self.Axes, m, self.wrap(m, self.original[m]))
        return self

    def wrap(self, name, method):
        def wrapper(ax, *args, **kwargs):
            result = method(ax, *args, **kwargs)
            self.calls.append((name, ax, [np.array(a, dtype=float) if not isinstance(a, str) else a for a in args], kwargs, result))
            return result
        return wrapper

    def __exit__(self, *exc):
        for m, f in self.original.items():
            setattr(self.Axes, m, f)


def some_state(ck, g, t):
    """No symmetries, not even of the zonal mean; westerlies, easterlies and waves"""
    r = lambda: ck.rng.uniform(-1, 1)
    vo = 1e-5 * (1.5 * np.sin(g.phi2) + r() * np.sin(3 * g.phi2) + ck.rng.choice([-1, 1]) * (1 - 3 * np.sin(g.phi2) ** 2)
                 + np.cos(g.phi2) ** 2 * (1 + r() * np.sin(g.phi2)) * (np.cos(2 * g.lam2 + r()) + r() * np.sin(3 * g.lam2) * np.cos(g.phi2) + r() * np.cos(g.lam2) * np.sin(g.phi2))
                 + 2 * np.cos(g.phi2) ** 4 * np.sin(4 * g.lam2 + 3 * r()) * np.exp(2 * np.sin(g.phi2)) / np.e ** 2)
    return bt.State.from_vorticity(g, t, vo)


def sources(st):
    g = st.grid
    mean = lambda f: np.mean(f, axis=1)
    zonalized = np.asarray(st.pv_zonalized)
    wavenumber = bt.diagnostics.dominant_wavenumber_wavelet(st.v, g)
    maps = {"pv": [st.pv, 1e4 * st.pv], "v": [st.v], "u": [st.u], "streamfunction": [st.streamfunction], "deviation": [1e4 * (st.pv - zonalized[:, None])],
            "falwa": [st.falwa], "wavenumber": [wavenumber], "envelope": [st.v_envelope_hilbert],
            "filtered": [bt.diagnostics.filter_by_wavenumber(st.falwa, 2 * wavenumber)]}
    ks = st.stationary_wavenumber
    lines = {"planetary": 1e4 * 2 * g.omega * np.sin(g.phi), "vorticity": 1e4 * mean(st.vorticity), "pv": 1e4 * mean(st.pv), "u": mean(st.u), "zonalized": 1e4 * zonalized,
             "fawa": st.fawa, "stationary": np.real(ks) - np.imag(ks)}
    return maps, lines, ks


def figure(ck, b, grids, plt):
    f = b["figures"][0]
    n = b["n"]
    if n not in grids:
        grids[n] = bt.Grid(360. / n)
    g = grids[n]
    preset, center, hemisphere = f["preset"], f["center"] * 90. / n, f["hemisphere"]
    t = ck.rng.choice([0, 7200., 1e6, D.datetime(2021, 3, 4, 5, 6)])
    st = some_state(ck, g, t)
    if preset == "waveguides" and ck.rng.random() < 0.7:
        # large and infinite stationary wavenumbers
        st = bt.init.held_1985(g, t, A=ck.rng.choice([-15, 5, 10, 15, 25]))
    kw = {} if hemisphere == "both" and ck.rng.random() < 0.5 else {"hemisphere": hemisphere}
    override = {}
    if preset != "waveguides":
        if not (center == 180 and ck.rng.random() < 0.5):
            kw["center_lon"] = int(center) if center == int(center) and ck.rng.random() < 0.5 else center
        for key, names in (("pv_max", ["summary"]), ("v_max", ["summary", "rwp_diagnostics"]), ("rwp_max", ["rwp_diagnostics"])):
            if preset in names and ck.rng.random() < 0.3:
                override[key] = {"pv_max": 1.3e-4, "v_max": 17.5, "rwp_max": 12.}[key]
    else:
        ks = ck.rng.choice([None, 2, 3.5, [1, 2, 4], (6,)])
        if ks is not None:
            kw["k_waveguides"] = ks
        if ck.rng.random() < 0.4:
            kw["legend_loc"] = "upper right"
        if ck.rng.random() < 0.6:
            kw["klim_bounds"] = ck.rng.choice([(-10, 20), (-8, 17), (-7, 7), (-11, 30), (-4.5, 22)])
    with ck.case("figure", preset=preset, n=n, center=center, hemisphere=hemisphere, override=override):
        pv = np.array(st.pv)
        maps, lines, kstat = sources(st)
        plotter = ck.rng.random() < 0.3
        with Recorder() as rec, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if plotter:
                getattr(st.plot, preset)(**kw, **override)
                fig = plt.gcf()
            else:
                fig = getattr(bt.plot, preset)(st, **kw, **override)
        try:
            inspect(ck, b, f, g, st, rec, maps, lines, kstat, kw, override, fig)
        finally:
            plt.close("all")
        ck.expect("state unchanged", np.array_equal(st.pv, pv) and st.time == t)
        ck.sample(dict(preset=preset, center=center, hemisphere=hemisphere, draws=len(rec.calls)), 4)


def inspect(ck, b, f, g, st, rec, maps, lines, kstat, kw, override, fig):
    axes = []
    for call in rec.calls:
        if call[1] not in axes and call[1].get_label() != "<colorbar>":
            axes.append(call[1])
    # order of panels as on the page
    axes.sort(key=lambda ax: (-round(ax.get_position().y0, 2), round(ax.get_position().x0, 2)))
    if not ck.expect("panels", len(axes) == len(f["panels"]), len(f["panels"]), len(axes)):
        return
    ylim = {"both": (-90, 90), "N": (0, 90), "S": (-90, 0)}[f["hemisphere"]]
    for ax, panel in zip(axes, f["panels"]):
        calls = [c for c in rec.calls if c[1] is ax]
        ck.expect("latitudes", tuple(ax.get_ylim()) == ylim, ylim, ax.get_ylim())
        if panel["kind"] == "map":
            a_map(ck, b, g, st, ax, panel, calls, maps, override, f)
        else:
            a_profile(ck, g, ax, panel, calls, lines, kstat, kw)


def a_map(ck, b, g, st, ax, panel, calls, maps, override, f):
    title = ax.get_title(loc="right")
    ck.expect("time of the map", title == expected_time(st.time), expected_time(st.time), title)
    found, columns_of = [], []
    for name, _, args, kwargs, result in calls:
        if name in ("contourf", "contour", "pcolormesh"):
            x, y, z = (args[0], args[1], args[2])
            x = x[0] if x.ndim == 2 else x
            y = y[:, 0] if y.ndim == 2 else y
            readings = read_longitudes(ck, ax, x, "map")
            columns = [[j for j in range(g.nlon) if all(apart(r, 360. / g.nlon * j) <= 0.51 for r in rs)] for rs in readings]
            if not ck.expect("labelled longitudes are those of the grid", all(len(c) == 1 for c in columns), "gridpoints", readings):
                return
            columns = [c[0] for c in columns]
            ck.expect("all longitudes are shown", sorted(columns) == list(range(g.nlon)), observed=columns)
            ck.expect("from west to east", np.all(np.diff(x) > 0) and all((q - p) % g.nlon == 1 for p, q in zip(columns, columns[1:])), observed=columns)
            nearest = b["nearest"]
            ck.expect("meridian in the middle", columns[g.nlon // 2] in nearest, nearest, columns[g.nlon // 2])
            ck.expect("in the middle of the axis", abs(x[g.nlon // 2] - (x[0] + x[-1] + x[1] - x[0]) / 2) < 1e-6)
            rows = [int(np.argmin(np.abs(g.lat - v))) for v in y]
            ck.expect_close("latitudes of the map", np.asarray(y), g.lat[rows], rel=1e-9, scale=90)
            match = [k for k, fields in maps.items() if any(z.shape == a[np.ix_(rows, columns)].shape and np.allclose(z, a[np.ix_(rows, columns)], rtol=1e-5, atol=1e-6 * np.abs(a).max()) for a in fields)]
            if not ck.expect("field at its position", len(match) == 1, sorted(panel["fields"]), match):
                continue
            found.append(match[0])
            columns_of.append(columns)
            the_levels(ck, name, match[0], kwargs, z, override, result)
        elif name == "quiver":
            x, y, u, v = args[:4]
            ck.expect("arrows", panel["arrows"])
            readings = read_longitudes(ck, ax, x.ravel(), "arrows")
            good, rows, cols = True, set(), set()
            for xx, yy, uu, vv, rs in zip(x.ravel(), y.ravel(), u.ravel(), v.ravel(), readings):
                js = [j for j in range(g.nlon) if all(apart(r, 360. / g.nlon * j) <= 0.51 for r in rs)]
                i = int(np.argmin(np.abs(g.lat - yy)))
                scale = np.abs(st.u).max()
                good = good and len(js) == 1 and abs(g.lat[i] - yy) < 1e-6 and abs(st.u[i, js[0]] - uu) <= 1e-5 * scale and abs(st.v[i, js[0]] - vv) <= 1e-5 * scale
                rows.add(i)
                cols.update(js)
                ck.count("arrows")
            ck.expect("arrows at their position", good)
            ck.expect("arrows everywhere", len(rows) >= 4 and len(cols) >= 4 and max(rows) - min(rows) > 0.6 * g.nlat, observed=(sorted(rows), sorted(cols)))
            found.append("arrows")
    want = sorted(panel["fields"]) + ["arrows"] * panel["arrows"]
    ck.expect("overlays", sorted(found) == sorted(want), sorted(want), sorted(found))
    ck.expect("overlays shifted alike", all(c == columns_of[0] for c in columns_of))
    ck.count("maps")


def the_levels(ck, name, field, kwargs, z, override, result):
    given = np.asarray(result.levels, dtype=float) if name in ("contourf", "contour") else None
    if given is None or name != "contourf":
        return
    if field in ("pv", "v", "deviation"):
        top = np.abs(given).max()
        ck.expect(field + ": symmetric levels", np.allclose(given, -given[::-1], rtol=0, atol=1e-5 * top), observed=given)
        limit = {"pv": override.get("pv_max", 0) * 1e4, "v": override.get("v_max", 0)}.get(field, 0) or np.abs(z).max()
        ck.expect(field + ": range of levels", abs(top - limit) <= 1e-6 * limit, limit, given)
    if field in ("envelope", "filtered") and "rwp_max" in override:
        ck.expect(field + ": range of levels", abs(given.max() - override["rwp_max"]) <= 1e-5 and given.min() == 0, override, given)


def a_profile(ck, g, ax, panel, calls, lines, kstat, kw):
    found, guides = [], []
    labels = {"pla": "planetary", "rel": "vorticity", "pot": "pv", "equiv": "zonalized", "mean": "pv"}
    for name, _, args, kwargs, _ in calls:
        if name != "plot":
            continue
        x, y = args[0], args[1]
        if "guides" in panel["fields"] and not (y.size == g.nlat and np.allclose(y, g.lat)):
            guides.append((x, y, kwargs.get("label")))
            continue
        ck.expect_close("latitudes of the profile", y, g.lat, rel=1e-9, scale=90)
        match = [k for k in panel["fields"] if k in lines and np.allclose(x, lines[k], rtol=1e-5, atol=1e-6 * np.nanmax(np.abs(np.where(np.isfinite(lines[k]), lines[k], 0))), equal_nan=True)]
        if ck.expect("profile", len(match) == 1, sorted(panel["fields"]), match):
            found.append(match[0])
            for key, k in labels.items():
                if str(kwargs.get("label", "")).startswith(key):
                    ck.expect("label of the profile", k == match[0], k, match[0])
    ck.expect("profiles", sorted(found) == sorted(set(panel["fields"]) - {"guides"}), sorted(panel["fields"]), sorted(found))
    ck.count("profiles")
    if "guides" in panel["fields"]:
        ticks, limits = np.asarray(ax.get_xticks(), dtype=float), ax.get_xlim()
        ck.expect("wavenumbers of the ticks are integers", np.all(ticks == np.round(ticks)), observed=ticks)
        ck.expect("0 is ticked", 0 in ticks or not limits[0] < 0 < limits[1] - 1, limits, ticks)
        ks = kw.get("k_waveguides")
        ks = [] if ks is None else [ks] if np.isscalar(ks) else list(ks)
        want = {k: [tuple(map(float, w)) for w in bt.diagnostics.extract_ks_waveguides(kstat, k, grid=g)] for k in ks}
        got = {}
        for x, y, label in guides:
            if label is None:
                continue
            number = float(re.search(r"[\d.]+", label).group())
            ck.expect("waveguide at its wavenumber", np.all(x == number), number, x)
            parts, now = [], []
            for v in list(y) + [np.nan]:
                if np.isnan(v):
                    if now:
                        parts.append(tuple(now))
                    now = []
                else:
                    now.append(v)
            got[number] = parts
        ck.expect("waveguides", got == {float(k): w for k, w in want.items()}, want, got)
        ck.count("guides", sum(len(w) for w in want.values()))


def expected_time(t):
    """Titles of maps: time as displayed with states"""
    return repr(bt.State(bt.Grid(45.), t, pv=np.zeros((5, 8)))).split(" ", 1)[1].rstrip(">")
