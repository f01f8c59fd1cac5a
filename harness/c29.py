"""C29: fields in any array layout and number format (specs/Layout.tla)."""
import warnings
import numpy as np
import xarray as xr
import barotropic as bt
from barotropic import diagnostics as dg

RES = 15.
SHAPE = 13, 24
JUNK = 77
REL = 2e-5


class Sub(np.ndarray):
    pass


DTYPES = {"u1": "u1", "i1": "i1", "u2": "u2", "i2": "<i2", "i2be": ">i2", "i4": "<i4", "i8": "<i8", "f4": "<f4", "f4be": ">f4", "f8": "<f8", "f8be": ">f8"}


def values(rng, field, fmt):
    """Integer-valued field in the range of the number format."""
    unsigned = fmt[0] == "u"
    large = 32767 if fmt[0] not in "iu" or fmt in ("i4", "i8") else np.iinfo(DTYPES[fmt]).max
    lo = 0 if unsigned else -1
    if field == "small":
        return rng.integers(40 * lo, 41, SHAPE)
    if field == "limit":
        x = rng.integers(lo * large, large + 1, SHAPE)
        # limits next to each other, in both directions
        j, i = rng.integers(1, SHAPE[0] - 2), rng.integers(0, SHAPE[1] - 1)
        x[j:j+2, i:i+2] = [[large, lo * large], [lo * large, large]]
        # largest values at a pole and along one meridian
        if rng.integers(2):
            x[:2] = large
        if rng.integers(2):
            x[:, 0] = large
        return x
    return np.repeat(rng.integers((40 if rng.integers(2) else large) * lo, (40 if rng.integers(2) else large) + 1, (SHAPE[0], 1)), SHAPE[1], 1)


class Array:
    """A field in a buffer."""

    def __init__(self, layout, fmt, val):
        R, C = SHAPE
        dt = np.dtype(DTYPES[fmt])
        self.layout, self.fmt = layout, fmt
        off, sr, sc = {"F": (0, 1, R), "strided": (1, 4 * C, 2), "reversed": (R * C - 1, -C, -1), "window": (C + 3, C + 2, 1),
                       "broadcast": (0, 1, 0)}.get(layout, (0, C, 1))
        self.buffer = np.full(1 + 1 + (R + 1) * 4 * C, JUNK, dt)
        self.view = np.lib.stride_tricks.as_strided(self.buffer[off:], SHAPE, (sr * dt.itemsize, sc * dt.itemsize))
        self.fill(val)
        if layout == "readonly":
            self.view.flags.writeable = False
        elif layout == "subclass":
            self.view = self.view.view(Sub)

    def fill(self, val):
        self.val = val.astype(float)
        if self.layout == "broadcast":
            self.view[:, 0] = val[:, 0]
        else:
            self.view[...] = val
        self.keep = self.buffer.tobytes()
        assert np.array_equal(self.view, val)

    def plain(self):
        return self.val.copy()

    def intact(self):
        return self.buffer.tobytes() == self.keep


class Ops:

    def __init__(self, rng):
        self.g = g = bt.Grid(RES)
        lat, lon = np.deg2rad(g.lat)[:, None], np.deg2rad(g.lon)[None, :]
        self.base = g.fcor2 + 3e-5 * np.cos(lat)**2 * np.cos(3 * lon + rng.uniform(0, 6)) + 1e-5 * np.sin(2 * lat + lon)
        self.state = bt.State(g, 0., pv=self.base)
        self.region = g.region[300.:45., -20.:70.]

    def __call__(self, op, *x):
        return np.array(getattr(self, "op_" + op)(*x), dtype=float)

    # states

    def op_state(self, a):
        s = bt.State(self.g, 0., pv=a)
        return [s.pv, s.vorticity * 1., s.u / self.g.rsphere, s.v / self.g.rsphere, s.streamfunction / self.g.rsphere**2]

    def op_state_run(self, a):
        # (step so that the flow changes by some percent)
        dt = 0.05 / (1. + np.max(np.abs(np.asarray(a, float))))
        s = bt.State(self.g, 0., pv=a)
        s, _ = s.run(bt.BarotropicModel(), dt, 3 * dt)
        return s.pv

    def op_state_falwa(self, a):
        return bt.State(self.g, 0., pv=a).falwa

    def op_from_wind(self, a, b):
        s = bt.State.from_wind(self.g, 0., a, b)
        return (s.pv - self.g.fcor2) * self.g.rsphere

    def op_from_vorticity(self, a):
        return bt.State.from_vorticity(self.g, 0., a).pv

    def op_add_wind(self, a, b):
        return (self.state.add_wind((a, b)).pv - self.state.pv) * self.g.rsphere

    def op_add_vorticity(self, a):
        return self.state.add_vorticity(a).pv

    def op_profile_u(self, a):
        return bt.init.zonally_symmetric(self.g, u=a[:, 0]).vorticity * self.g.rsphere

    def op_profile_pv(self, a):
        return bt.init.zonally_symmetric(self.g, pv=a[:, 0]).pv

    def op_dataset(self, a, b):
        dims = ("time", "latitude", "longitude")
        ds = xr.Dataset({"u": (dims, a[None]), "v": (dims, b[None])}, coords={"time": [0.], "latitude": self.g.lat, "longitude": self.g.lon})
        s = bt.io.from_dataset(ds)[0]
        return (s.pv - self.g.fcor2) * self.g.rsphere

    # forcing

    def op_orography(self, a):
        # (not on the grid of the state; all heights on another one)
        lon, lat = np.linspace(0., 360., SHAPE[1]), np.linspace(88., -86., SHAPE[0])
        o = bt.rhs.Orography(lon, lat, a)
        return np.stack([o(self.state) * 1e9, o.orography(self.g)])

    def op_relaxation(self, a):
        return bt.rhs.LinearRelaxation(0.5, a)(self.state)

    def op_background(self, a):
        # (the flow approaches the background by some percent)
        dt = 0.05 / (1. + np.max(np.abs(np.asarray(a, float))))
        m = bt.BarotropicModel(diffusion_order=1, diffusion_coeff=1e-3 * self.g.rsphere**2 / dt, diffusion_bg=a)
        s, _ = self.state.run(m, dt, 3 * dt)
        return s.pv

    # spectral operators

    def op_laplace(self, a):
        return self.g.laplace(a) * self.g.rsphere**2

    def op_poisson(self, a):
        return self.g.solve_poisson(a) / self.g.rsphere**2

    def op_diffusion(self, a):
        return self.g.solve_diffusion(a, 1e16, 6e3, 2)

    def op_gradient(self, a):
        return np.stack(self.g.gradient(a)) * self.g.rsphere

    def op_vorticity(self, a, b):
        return self.g.vorticity(a, b) * self.g.rsphere

    def op_divergence(self, a, b):
        return self.g.divergence(a, b) * self.g.rsphere

    def op_wind(self, a, b):
        return np.stack(self.g.wind(a, b)) / self.g.rsphere

    # grid

    def op_derivative2(self, a):
        return self.g.derivative_meridional(a, order=2)

    def op_derivative4(self, a):
        return self.g.derivative_meridional(a)

    def op_derivative_profile(self, a):
        return self.g.derivative_meridional(a[:, 0])

    def op_filter_zonal(self, a):
        return self.g.filter_zonal(a, "hann", 75.)

    def op_filter_meridional(self, a):
        return self.g.filter_meridional(a, "boxcar", 45.)

    def op_filter_profile(self, a):
        return self.g.filter_meridional(a[:, 0], "hann", 75.)

    def op_window_zonal(self, a, b):
        return self.g.filter_zonal(a, b[3, :5])

    def op_window_meridional(self, a, b):
        return self.g.filter_meridional(a, b[3:6, 2])

    def op_mean(self, a):
        return self.g.mean(a)

    def op_mean_zonal(self, a):
        return self.g.mean(a, axis="zonal")

    def op_mean_meridional(self, a):
        return self.g.mean(a, axis="meridional")

    def op_mean_region(self, a):
        return [self.g.mean(a, region=self.region), self.region.mean(a)]

    def op_quad(self, a, b):
        return self.g.quad(a, b) / self.g.rsphere**2

    def op_quad_boxcount(self, a, b):
        return self.g.quad(a, b, method="boxcount") / self.g.rsphere**2

    def op_quad_meridional(self, a, b):
        return self.g.quad_meridional(a, b) / self.g.rsphere

    def op_zonalize(self, a):
        return self.g.zonalize(a)

    def op_zonalize_boxcount(self, a):
        return self.g.zonalize(a, quad="boxcount")

    def op_levels(self, a):
        return self.g.zonalize(self.base * 1e5, levels=np.asanyarray(a)[1:9, 0], interpolate=False)[1]

    def op_region(self, a):
        return self.region.extract(a)

    def op_interpolate(self, a):
        return self.g.interpolate_meridional(a, self.g.lat, (1., 2.))

    # diagnostics

    def op_falwa(self, a):
        return dg.falwa(a, self.g) / self.g.rsphere

    def op_falwa_boxcount(self, a):
        return dg.falwa(a, self.g, quad="boxcount") / self.g.rsphere

    def op_falwa_levels(self, a, b):
        lwa, lat = dg.falwa(a, self.g, levels=b[1:12:2, 0], interpolate=False)
        # (contours that do not exist)
        ok = (np.abs(lat) < 89.)[:, None]
        return [np.where(ok, np.asarray(lwa, float) / self.g.rsphere, 0.), lat[:, None] + 0. * np.asarray(lwa, float)]

    def op_fawa(self, a):
        return dg.fawa(a, self.g) / self.g.rsphere

    def op_envelope(self, a):
        return dg.envelope_hilbert(a, (1, 6))

    def op_wavenumber(self, a):
        return dg.dominant_wavenumber_fourier(a, self.g, smooth=None, wavenumber_range=(1, 11))[1:-1]

    def op_by_wavenumber(self, a):
        return dg.filter_by_wavenumber(self.base * 1e5, a[:, 0])

    def op_by_wavenumber_of(self, a):
        return dg.filter_by_wavenumber(a, np.linspace(1., 8., SHAPE[0]))

    def op_by_both(self, a, b):
        return dg.filter_by_wavenumber(a, b)

    def op_ks(self, a):
        ks = np.asarray(dg.stationary_wavenumber(a, self.g, kind="squared", min_u=0.25))
        return np.clip(ks, -1e5, 1e5)


SCALAR = ("mean", "quad", "quad_boxcount")


def check(ck):
    jobs = ck.tlc("Layout", "Layout_" + ck.tier)
    ck.rng.shuffle(jobs)
    jobs = jobs[:ck.pick(4000, len(jobs))]
    sim = ck.tlc("Layout", "Layout_sim", args=["-simulate", f"num={ck.pick(500, 5000)}", "-depth", "12", "-seed", str(ck.seed)])
    ops = Ops(ck.nprng)
    warnings.simplefilter("ignore")
    for b in jobs + sim:
        replay(ck, b["hist"], ops)
        ck.replayed += 1
    ck.require(use=2500, fill=150, wrapping=500, pair=80, F=200, strided=200, reversed=200, window=200, broadcast=100, readonly=200, subclass=200, i2be=150, f4be=150)


def replay(ck, hist, ops):
    arrays, results = [], []
    rng = ck.nprng
    text = " ".join("%s%s %s%s" % (h["do"], h["name"] or "", h["op"], h["args"] or "") for h in hist)
    formats = [h["vals"][0] for h in hist if h["do"] == "new"]
    with ck.case(text, arrays=[(f["layout"], f["format"], f["field"]) for f in formats]):
        for n, h in enumerate(hist, 1):
            if h["do"] == "new":
                f = h["vals"][0]
                arrays.append(Array(f["layout"], f["format"], values(rng, f["field"], f["format"])))
                continue
            if h["do"] == "fill":
                a = arrays[h["name"] - 1]
                a.fill(values(rng, h["field"], a.fmt))
                ck.count("fill")
                continue
            xs = [arrays[i - 1] for i in h["args"]]
            got = ops(h["op"], *[x.view for x in xs])
            want = ops(h["op"], *[x.plain() for x in xs])
            what = f"action {n} ({h['op']} {h['args']})"
            ck.expect(what + ": shape", got.shape == want.shape, want.shape, got.shape)
            size = max(np.max(np.abs(x.val)) for x in xs[:1])
            # what the rounding errors are relative to: the size of the field
            ck.expect_close(what, got, want, rel=REL, scale=float(np.max(np.abs(want))) + float(size))
            for x, i in zip(arrays, range(1, 9)):
                ck.expect(what + f": memory of array {i} unchanged", x.intact(), "as before", "changed")
            results.append((what, got, got.copy()))
            ck.count("use")
            ck.count("pair", len(xs) == 2 and xs[0] is not xs[1])
            ck.count("wrapping", any(v["overflows"] for v in h["vals"]))
            for x in xs:
                ck.count(x.layout)
                ck.count(x.fmt)
        for what, got, keep in results:
            ck.expect(what + ": result unaffected by what followed", np.array_equal(got, keep, equal_nan=True), keep, got)
        ck.sample(dict(hist=hist), 2)
