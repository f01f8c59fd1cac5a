"""C31: objects and results do not influence each other (specs/Independence.tla).

Every call of a behaviour has a symbol: the method and the parameters of its
own objects. What a symbol stands for is evaluated in a process of its own,
on objects made for this purpose. All behaviours are replayed in one process,
together, where every call has to give the value of its symbol: whichever
other objects were made, used, changed or deleted before, and although the
results of earlier calls were overwritten."""
import gc, multiprocessing, pickle
import numpy as np
import barotropic as bt
from .core import MachineryError

# Similar, but not equal
GRIDS = [dict(), dict(rsphere=6371200. * 1.002), dict(rsphere=1.), dict(omega=7.293e-5), dict(omega=0.), dict(omega=-7.292e-5),
         dict(ntrunc=3), dict(legfunc="computed"), dict(), dict(resolution=22.5), dict(resolution=180 / 7), dict(rsphere=6371200. * 0.5, omega=7.292e-5 * 2),
         dict(resolution=36.), dict(omega=7.292e-5 * 3)]
# [longitude, latitude]
REGIONS = {1: (slice(None), slice(None)), 2: (slice(None), slice(0, 90)), 3: (slice(300, 90), slice(90, 0)), 4: (slice(60, 180), slice(-90, 0)),
           5: (slice(0, 180), slice(-65, 65)), 6: (slice(180, 330), slice(None)), 7: (slice(240, 30), slice(10, 90))}


def grid(p):
    kw = dict(GRIDS[p])
    return bt.Grid(kw.pop("resolution", 30.), **kw)

def field(g, k=0):
    lam, phi = np.deg2rad(np.arange(g.nlon) * 360. / g.nlon), np.deg2rad(np.linspace(90, -90, g.nlat))[:, None]
    return np.sin(phi) + 0.4 * np.cos(phi)**2 * np.cos(2 * lam + 0.7 + k) + 0.3 * np.cos(phi) * np.sin(phi) * np.sin(lam - k)

def wind(g, k=0):
    lam, phi = np.deg2rad(np.arange(g.nlon) * 360. / g.nlon), np.deg2rad(np.linspace(90, -90, g.nlat))[:, None]
    u = 20. * np.cos(phi) + 4. * np.cos(phi)**2 * np.cos(lam + k) + 0. * lam
    return u, 5. * np.cos(phi)**2 * np.sin(2 * lam - k)

def state(g, p, t=0):
    i = bt.init
    if p == 1: s = i.motionless(g, t)
    if p == 2: s = i.solid_body_rotation(g, t)
    if p == 3: s = i.solid_body_rotation(g, t, amplitude=15.1)
    if p == 4: s = i.gaussian_jet(g, t, amplitude=20., stdev_lat=15.)
    if p == 5: s = i.gaussian_jet(g, t, amplitude=20., center_lat=40., stdev_lat=15.)
    if p == 6: s = i.held_1985(g, t)
    if p == 7: s = bt.State.from_wind(g, t, *wind(g))
    if p == 8: s = bt.State.from_wind(g, t, *wind(g, 1))
    if p == 9: s = bt.State.from_vorticity(g, t, 2e-5 * (field(g) - field(g).mean()))
    return s

def term(p):
    r, o = bt.rhs, dict(stdev=(30., 40.), center=(60., 45.))
    if p == 1: return r.GaussianMountain(**o)
    if p == 2: return r.GaussianMountain(height=1503., **o)
    if p == 3: return r.GaussianMountain(stdev=(30., 40.), center=(90., 45.))
    if p == 4: return r.GaussianMountain(scale_height=9000., **o)
    if p == 5: return r.GaussianMountain(wind=("zon", 1.), **o)
    if p == 6: return r.GaussianMountain(wind=("sbr", 15.), **o)
    if p == 7: return r.GaussianMountain(fcor_ref=1e-4, **o)
    if p == 8: return r.ZonalSineMountains(stdev_lat=25.)
    if p == 9: return r.ZonalSineMountains(stdev_lat=25., wavenumber=3)
    if p == 10: return r.TimedOffSwitch(1) * r.GaussianMountain(**o)
    if p == 11:
        lon, lat = np.arange(0, 361, 30.), np.linspace(90, -90, 7)
        return r.Orography(lon, lat, 1000. * np.cos(np.deg2rad(lat))[:, None]**2 * (1.5 + np.cos(np.deg2rad(lon))))


GRID = {
    "attributes": lambda g: [g.nlat, g.nlon, g.rsphere, g.omega, np.array(g.lat), np.array(g.lon), np.array(g.phi), np.array(g.lam), np.array(g.lat2), np.array(g.lon2),
                             np.array(g.fcor), np.array(g.fcor2), np.array(g.phi2), np.array(g.lam2), g.dphi, g.dlam, g.dlat, g.dlon, list(g.shape)],
    "repr": repr,
    "eq": lambda g: [g == grid(k) for k in (0, 1, 5, 9)],
    "area": lambda g: g.gridpoint_area,
    "circumference": lambda g: g.circumference(g.lat[1:-1].copy()),
    "coriolis": lambda g: g.coriolis(np.linspace(-80, 80, 9)),
    "to_spectral": lambda g: g.to_spectral(field(g)),
    "to_grid": lambda g: g.to_grid(g.to_spectral(field(g))),
    "wind": lambda g: g.wind(*(g.to_spectral(1e-5 * field(g, k)) for k in (0, 1))),
    "vorticity": lambda g: g.vorticity(*wind(g)),
    "divergence": lambda g: g.divergence(*wind(g)),
    "gradient": lambda g: g.gradient(field(g)),
    "derivative 2": lambda g: g.derivative_meridional(field(g), order=2),
    "derivative 4": lambda g: g.derivative_meridional(field(g), order=4),
    "laplace": lambda g: g.laplace(field(g)),
    "poisson": lambda g: g.solve_poisson(field(g)),
    "helmholtz": lambda g: g.solve_poisson(field(g), op_add=-1e-12),
    "diffusion 1": lambda g: g.solve_diffusion(field(g), 1e6, 1e5),
    "diffusion 2": lambda g: g.solve_diffusion(field(g), 1e6, 1e5, order=2),
    "diffusion dt": lambda g: g.solve_diffusion(field(g), 1e6, 2e5),
    "diffusion coeff": lambda g: g.solve_diffusion(field(g), 4e6, 1e5),
    "mean": lambda g: g.mean(field(g)),
    "mean zonal": lambda g: g.mean(field(g), axis="zonal"),
    "mean meridional": lambda g: g.mean(field(g), axis="meridional"),
    "quad": lambda g: g.quad(field(g) + 2.),
    "quad zero": lambda g: g.quad(field(g) + 2., z=field(g, 1)),
    "quad meridional sum": lambda g: [g.quad_meridional(field(g)), g.quad_meridional(field(g), z=field(g, 1), method="boxcount")],
    "zonalize": lambda g: g.zonalize(field(g)),
    "zonalize levels": lambda g: list(g.zonalize(field(g), levels=9, interpolate=False)),
    "zonalize boxcount": lambda g: g.zonalize(field(g), quad="boxcount"),
    "equivalent latitude": lambda g: g.equivalent_latitude(np.linspace(0.01, 0.99, 7) * 4 * np.pi * g.rsphere**2),
    "interpolate": lambda g: g.interpolate_meridional(np.linspace(3., -2., 5), np.linspace(70., -60., 5), pole_values=(5., -4.)),
    "window hann 40": lambda g: g.get_filter_window("hann", 120.),
    "window hann 60": lambda g: g.get_filter_window("hann", 180.),
    "window boxcar 40": lambda g: g.get_filter_window("boxcar", 120.),
    "window boxcar 60": lambda g: g.get_filter_window("boxcar", 180.),
    "filter meridional": lambda g: g.filter_meridional(field(g), "hann", 120.),
    "filter zonal": lambda g: g.filter_zonal(field(g), "hann", 120.),
    "filter width": lambda g: g.filter_zonal(field(g), "boxcar", 180.),
    "wavenumber fourier": lambda g: bt.diagnostics.dominant_wavenumber_fourier(field(g), g, smooth=("boxcar", 100)),
    "wavenumber range": lambda g: bt.diagnostics.dominant_wavenumber_fourier(field(g), g, smooth=("boxcar", 100), wavenumber_range=(2, 4)),
    "wavenumber wavelet": lambda g: bt.diagnostics.dominant_wavenumber_wavelet(field(g), g, smooth=("hann", 120, 100)),
    "filter by wavenumber": lambda g: bt.diagnostics.filter_by_wavenumber(field(g), np.full(g.shape, 2.)),
    "envelope": lambda g: bt.diagnostics.envelope_hilbert(field(g)),
    "envelope range": lambda g: bt.diagnostics.envelope_hilbert(field(g), (1, 3)),
    "stationary": lambda g: bt.diagnostics.stationary_wavenumber(wind(g)[0] + 10., g),
    "stationary real": lambda g: bt.diagnostics.stationary_wavenumber(wind(g)[0] + 10., g, kind="real", order=2),
    "waveguides": lambda g: bt.diagnostics.extract_ks_waveguides(4. + 2. * np.sin(3. * np.deg2rad(np.linspace(90, -90, g.nlat))), 4., g),
    "falwa": lambda g: bt.diagnostics.falwa(field(g), g),
    "falwa levels": lambda g: bt.diagnostics.falwa(field(g), g, levels=11, quad="boxcount"),
    "fawa": lambda g: bt.diagnostics.fawa(field(g), g),
    "motionless": lambda g: fields(bt.init.motionless(g)),
    "solid": lambda g: fields(bt.init.solid_body_rotation(g)),
    "solid amplitude": lambda g: fields(bt.init.solid_body_rotation(g, 1., amplitude=16.)),
    "jet": lambda g: fields(bt.init.gaussian_jet(g, stdev_lat=20.)),
    "jet center": lambda g: fields(bt.init.gaussian_jet(g, center_lat=-30., stdev_lat=20.)),
    "held": lambda g: fields(bt.init.held_1985(g)),
    "held C": lambda g: fields(bt.init.held_1985(g, C=310.)),
    "symmetric": lambda g: fields(bt.init.zonally_symmetric(g, u=20. * np.sin(np.linspace(0, np.pi, g.nlat)))),
    "symmetric pv": lambda g: fields(bt.init.zonally_symmetric(g, pv=np.linspace(1e-4, -1e-4, g.nlat))),
    "region": lambda g: [g.region[0:90, 90:270].shape, g.region[30:90].lat, g.region[:, 300:60].lon],
    "laplace spectral": lambda g: g.laplace_spectral(g.to_spectral(field(g))),
    "poisson spectral": lambda g: g.solve_poisson_spectral(g.to_spectral(field(g))),
    "meridional boxcount": lambda g: g.quad_meridional(field(g, 2), method="boxcount"),
    "states": lambda g: bt.StateList([state(g, 7), state(g, 8, 1)]).u,
}

def fields(s):
    return [float(s.time), np.array(s.u), np.array(s.v), np.array(s.pv)]

REGION = {
    "coordinates": lambda g, r: [r.lat, r.lon],
    "mono": lambda g, r: r.lon_mono,
    "mask": lambda g, r: r.mask,
    "area": lambda g, r: r.gridpoint_area,
    "extract": lambda g, r: r.extract(field(g), field(g, 1)),
    "extract lat": lambda g, r: r.extract(np.linspace(3., 4., g.nlat)),
    "mean": lambda g, r: [r.mean(field(g)), g.mean(field(g), region=r)],
    "mean axis": lambda g, r: [g.mean(field(g), axis=a, region=r) for a in ("zonal", "meridional")],
    "repr": lambda g, r: repr(r),
    "shape": lambda g, r: list(r.shape),
}

def model(**kw):
    kw.setdefault("diffusion_coeff", 1e15)
    return bt.BarotropicModel(**kw)

def other(s):
    return state(s.grid, 8, s.time)

def later(s, **kw):
    out = model(**kw).euler(s, 600)
    return [out, np.array(out.pv)]

def leapfrog(s):
    m = model()
    new = m.euler(s, 600)
    out = m.leapfrog(s, new)
    return [x for y in (out if isinstance(out, tuple) else (out,)) for x in (y, np.array(y.pv))]

def run(s, dt=600):
    last, saved = s.run(model(), dt, 3 * dt, save_every=dt)
    return [last, np.array(last.pv), len(saved), np.array(saved[1].u)]

def list_run(s):
    last, saved = bt.StateList([s, other(s)]).run(model(), 600, 1200, save_every=600)
    return [last, saved, np.array(last[0].pv)]

def added(s):
    return [s, np.array(s.u), np.array(s.pv)]

def dataset(s, **kw):
    d = bt.StateList([s, other(s)]).as_dataset(**kw)
    return [d[k].values for k in sorted(d.data_vars)]

STATE = {
    "pv": lambda s: np.array(s.pv),
    "wind": lambda s: [np.array(s.u), np.array(s.v)],
    "streamfunction": lambda s: np.array(s.streamfunction),
    "spectral": lambda s: np.array(s.pv_spectral),
    "vorticity": lambda s: [s.vorticity, s.vo],
    "vorticity spectral": lambda s: s.vorticity_spectral,
    "flux": lambda s: s.pv_flux_spectral,
    "enstrophy": lambda s: s.enstrophy,
    "energy": lambda s: s.energy,
    "eddy": lambda s: s.eddy_enstrophy,
    "falwa": lambda s: np.array(s.falwa),
    "fawa": lambda s: s.fawa,
    "zonalized": lambda s: np.array(s.pv_zonalized),
    "filtered": lambda s: s.falwa_filtered,
    "envelope": lambda s: s.v_envelope_hilbert,
    "stationary": lambda s: s.stationary_wavenumber,
    "waveguides": lambda s: [np.array(x) for x in s.extract_ks_waveguides(2.)],
    "repr": repr,
    "time": lambda s: s.time,
    "euler": later,
    "euler order": lambda s: later(s, diffusion_order=1, diffusion_coeff=1e6),
    "euler coeff": lambda s: later(s, diffusion_coeff=3e17),
    "leapfrog": leapfrog,
    "run": run,
    "run dt": lambda s: run(s, 900),
    "add wind": lambda s: added(s.add_wind(other(s))),
    "add vorticity": lambda s: added(s.add_vorticity(1e-6 * field(s.grid))),
    "list": lambda s: [bt.StateList([s, other(s)]).v, list(bt.StateList([s, s]).time)],
    "dataset": lambda s: dataset(s, fields=("u", "v", "pv", "streamfunction")),
    "dataset region": lambda s: dataset(s, fields={"umean": lambda x: x.grid.mean(x.u), "f": "falwa"}),
    "hovmoeller": lambda s: bt.plot.hovmoellerify([s, other(s)], lambda x: x.grid.mean(x.v, axis="meridional"))[2],
    "list run": list_run,
    "background": lambda s: later(s, diffusion_coeff=1e17, diffusion_bg=1. * s.grid.fcor2),
    "other background": lambda s: later(s, diffusion_coeff=1e17, diffusion_bg=1e-5 * field(s.grid)),
    "avo": lambda s: np.array(s.avo),
    "pickle": lambda s: fields(pickle.loads(pickle.dumps(s))),
}
TERM = {
    "value": lambda t, s: t(s),
    "repr": lambda t, s: [type(t).__name__],
    "euler": lambda t, s: later(s, rhs=t),
    "sum": lambda t, s: (t + t)(s),
    "product": lambda t, s: (t * bt.rhs.TimedOffSwitch(1))(s),
    "orography": lambda t, s: t.orography(s.grid) if isinstance(t, bt.rhs.Orography) else None,
}


def call(sym, j, x, of):
    """The result of a call (as the caller gets it)."""
    kind, m = sym["kind"], sym["m"]
    if kind == "term":
        return TERM[m](j, x)
    return {"grid": lambda: GRID[m](x), "region": lambda: REGION[m](of, x), "state": lambda: STATE[m](x)}[kind]()

def plain(x):
    """What a result says, independent of the result."""
    if isinstance(x, bt.State):
        return [float(x.time), np.array(x.pv)]
    if isinstance(x, bt.StateList):     # outputs of runs: the first is the start, whose time may be set
        return plain(list(x)[1:])
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (str, bool, np.bool_)) or x is None:
        return x if not isinstance(x, np.bool_) else bool(x)
    return np.array(x)

def overwrite(x):
    if isinstance(x, bt.State):
        x.time = -99.
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = {"b": True, "i": -7, "u": 7, "f": 1e20, "c": 1e20 - 1e20j}.get(x.dtype.kind, 0)
    elif isinstance(x, (list, tuple)):
        for y in x:
            overwrite(y)
        if isinstance(x, list):
            x.clear()

def alone(key):
    """The value of a symbol, in a process of its own."""
    kind, m, g, p, q, t = key
    sym = dict(kind=kind, m=m)
    try:
        of = grid(g)
        if kind == "grid":
            return plain(call(sym, None, of, None))
        if kind == "region":
            return plain(call(sym, None, of.region[REGIONS[p]], of))
        return plain(call(sym, term(q) if kind == "term" else None, state(of, p, t), of))
    except Exception as exc:
        return exc.__class__.__name__, str(exc)[:200]

def key_of(b, act):
    kind = "term" if act["j"] else act["kind"]
    s = act["sym"]
    return kind, s["m"], s["g"], s["p"], s["q"], s["t"]


def components(x):
    """The numeric results within a value, with their position."""
    if isinstance(x, list):
        return [(f".{k}{i}", z) for k, y in enumerate(x) for i, z in components(y)]
    return [("", x)] if isinstance(x, np.ndarray) and x.dtype.kind in "fcui" else []

def size_class(key):
    return key[0], key[1], GRIDS[key[2]].get("rsphere", 6e6) < 2., GRIDS[key[2]].get("resolution", 30.)

def same(ck, what, got, exp, scales=None, at=""):
    if isinstance(exp, (list, tuple)):
        ck.expect(f"{what}: number of results", isinstance(got, list) and len(got) == len(exp), len(exp), got)
        for k, (x, y) in enumerate(zip(got, exp)):
            same(ck, what, x, y, scales, f"{at}.{k}")
    elif isinstance(exp, np.ndarray) and exp.dtype.kind in "fcui":
        ck.expect(f"{what}: array", isinstance(got, np.ndarray) and got.shape == exp.shape, exp.shape, getattr(got, "shape", got))
        nan = np.isnan(exp)
        ck.expect(f"{what}: undefined values", np.array_equal(np.isnan(got), nan), exp, got)
        ck.expect_close(what, np.where(nan, 0, got), np.where(nan, 0, exp), rel=2e-5, scale=scales.get(at) if scales else None)
    else:
        ck.expect(what, np.array_equal(got, exp) if isinstance(exp, np.ndarray) else got == exp, exp, got)


def check(ck):
    ck.tlc("Independence", "Independence_" + ck.tier)
    progs = ck.tlc("Independence", "Independence_sim", args=["-simulate", f"num={ck.pick(700, 3000)}", "-depth", "60", "-seed", str(ck.seed)])
    keys = sorted({key_of(b, a) for b in progs for a in b["prog"] if a["a"] == "call"})
    with multiprocessing.get_context("fork").Pool(6, maxtasksperchild=1) as pool:
        values = pool.map_async(alone, keys, chunksize=1).get(timeout=ck.pick(400, 2000))
    values = dict(zip(keys, values))
    ck.count("symbols", len(values))
    # What is zero up to rounding in one flow is compared on the scale of others
    scales = {}
    for key, value in values.items():
        for at, x in components(value):
            x = np.abs(x[np.isfinite(x)])
            d = scales.setdefault(size_class(key), {})
            d[at] = max(d.get(at, 0.), float(x.max()) if x.size else 0.)
    kept = []
    gc.collect()
    gc.freeze()
    for n, b in enumerate(progs):
        replay(ck, n, b, values, scales, kept)
        ck.replayed += 1
        if n % 20 == 19 or n == len(progs) - 1:
            with ck.case(f"results of programs up to {n}"):
                for key, result, got in kept:
                    same(ck, f"{key[0]} {key[1]}: the result of an earlier call stays as it was", plain(result), got)
                    ck.count("kept")
            kept.clear()
    ck.require(call=2000, symbols=1200, overwrite=500, delete=150, make=1000, time=100, kept=500, replace=300)


def replaced(objs, params, i):
    """Delete one, return the number of the next."""
    n = max(params) + 1
    del objs[i]
    return n

def replay(ck, n, b, values, scales, kept):
    objs, params, last = {}, {}, None
    steps = []
    for act in b["prog"]:
        a, i, j = act["a"], act["i"], act["j"]
        ck.count(a)
        if a == "replace":
            i, last = replaced(objs, params, i), None
        if a in ("make", "replace"):
            steps.append(f"{i}={act['kind']} {act['p']}" + (f" on {j}" if j else ""))
            with ck.case(f"program {n}: " + "; ".join(steps[-8:]), prog=b["prog"]):
                objs[i] = {"grid": lambda: grid(act["p"]), "region": lambda: objs[j].region[REGIONS[act["p"]]],
                           "state": lambda: state(objs[j], act["p"]), "term": lambda: term(act["p"])}[act["kind"]]()
                params[i] = j
        elif a == "call":
            key = key_of(b, act)
            steps.append(f"{key[1]} of {i}" + (f" by term {j}" if j else ""))
            with ck.case(f"program {n}: " + "; ".join(steps[-8:]), prog=b["prog"], grid=GRIDS[key[2]], symbol=key):
                exp = values[key]
                ck.expect(f"{key[0]} {key[1]}: the call succeeds", not isinstance(exp, tuple), observed=exp)
                last = call(dict(kind=key[0], m=key[1]), objs.get(j), objs[i], objs.get(params.get(i)))
                got = plain(last)
                same(ck, f"{key[0]} {key[1]}: as on objects of its own", got, exp, scales.get(size_class(key)))
                kept.append((key, last, got))
        elif a == "overwrite":
            steps.append("overwrite")
            if kept:
                kept.pop()
            overwrite(last)
        elif a == "time":
            steps.append(f"{i}.time={act['p']}")
            objs[i].time = act["p"]
        elif a == "delete":
            steps.append(f"delete {i}")
            del objs[i]
            last = None
            gc.collect()
