"""C28: symmetries of the sphere and of units (specs/Symmetry.tla).

Every program is executed in the code twice, in a world and in the world moved
by the group element, and the values are compared step by step.
"""
import copy
import numpy as np
import barotropic as bt
from barotropic import diagnostics as dg

N = 12                  # intervals from pole to pole
R, OMEGA = 6.4e6, 7e-5
REL = 2e-3


class User(bt.rhs.RHS):
    def __init__(self, field):
        self.field = field

    def __call__(self, state):
        return self.field


class World:
    """The world moved by a group element."""

    def __init__(self, g, seed):
        self.g = g
        self.L, self.T = 2.**g["len"], 2.**g["tim"]
        self.flip, self.roll = g["flip"] == 1, g["roll"]
        self.t0 = 43200. * g["shift"] * self.T
        self.grid = bt.Grid(180. / N, rsphere=R * self.L, omega=OMEGA / self.T)
        rng = np.random.default_rng(seed)
        lat, lon = np.deg2rad(90. - np.arange(N + 1) * 180. / N), np.deg2rad(np.arange(2 * N) * 180. / N)
        # base fields, the same in all worlds
        def flow(scale):
            f = np.zeros((N + 1, 2 * N))
            for m in (1, 2, 3, 4):
                a, b, c, d = rng.uniform(-1, 1, 4)
                f += (np.cos(lat)**m * (0.6 + 0.5 * a + 0.8 * b * np.sin(lat) + 0.4 * c * np.sin(lat)**2))[:, None] * np.cos(m * lon + 3 * d)[None, :] * (1.6 if m == 1 else 1.)
            return scale * f
        self.wave = self.field(flow(1.5e-5), 0, -1, 1)
        self.jet = self.field(np.repeat((2e-5 * np.sin(2 * lat) * (1 + rng.uniform(-.5, .5) * np.sin(lat)))[:, None], 2 * N, 1), 0, -1, 1)
        self.wind = [self.field(flow(12.), 1, -1, 0), self.field(flow(9.), 1, -1, 1)]
        self.reference = self.field(2 * OMEGA * np.sin(lat)[:, None] + flow(5e-6), 0, -1, 1)
        self.source = self.field(flow(2e-10), 0, -2, 1)
        self.background = self.field(np.repeat(2 * OMEGA * np.sin(lat)[:, None], 2 * N, 1) + flow(3e-6), 0, -1, 1)
        # orography on a finer grid, 7.5 degrees in longitude
        olat, olon = 90. - np.arange(19) * 10., np.arange(49) * 7.5
        h = 1500. * np.cos(np.deg2rad(olat))[:, None]**2 * (1.2 + np.sin(np.deg2rad(2 * olon) + rng.uniform(0, 6)) * np.sin(np.deg2rad(olat) + 0.3)[:, None])
        h = np.roll(h[:, :-1], 2 * self.roll, axis=1)
        # the reflected orography is given from south to north
        self.orography = olon, olat * (-1 if self.flip else 1), self.L * np.concatenate([h, h[:, :1]], axis=1)
        self.center = (37. + 15. * self.roll) % 360., self.lat(42.)
        self.jet_center = self.lat(33.)
        self.window = np.array([0.2, 0.5, 0.2, 0.07, 0.03])

    # -- action of the group element ------------------------------------------

    def scale(self, t):
        return self.L**t["len"] * self.T**t["tim"]

    def lat(self, x):
        return -x if self.flip else x

    def field(self, x, length, tim, odd):
        return self.act(dict(kind="field", len=length, tim=tim, odd=odd), x)

    def act(self, t, x):
        kind, s = t["kind"], self.scale(t)
        sign = -1. if self.flip and t["odd"] else 1.
        if kind == "vector":
            return [self.act(dict(t, kind="field"), x[0]), self.act(dict(t, kind="field", odd=1 - t["odd"]), x[1])]
        if kind == "number":
            return np.asarray(x) * s * sign
        if kind == "bands":
            b = [(self.lat(y), self.lat(z)) for y, z in x]
            return [(z, y) for y, z in reversed(b)] if self.flip else b
        x = np.asarray(x)
        if kind == "around":
            return np.roll(x, self.roll) * s * sign
        if self.flip:
            x = x[::-1] * sign
        if kind == "field":
            x = np.roll(x, self.roll, axis=1)
        return x * s

    def time(self, t):
        return t * self.T + self.t0

    # -- operations ---------------------------------------------------------------

    def start(self, k):
        g, t = self.grid, self.time(0.)
        u = self.L / self.T
        if k == "pv":
            return bt.State(g, t, pv=g.fcor2 + self.wave)
        if k == "spectral":
            return bt.State(g, t, pv_spectral=g.to_spectral(g.fcor2 + self.wave))
        if k == "vorticity":
            return bt.State.from_vorticity(g, t, self.wave)
        if k == "wind":
            return bt.State.from_wind(g, t, *self.wind)
        if k == "jet":
            return bt.init.gaussian_jet(g, t, amplitude=25. * u, center_lat=self.jet_center, stdev_lat=14.)
        if k == "jetwave":
            return bt.init.gaussian_jet(g, t, amplitude=25. * u, center_lat=self.jet_center, stdev_lat=14.).add_vorticity(self.wave)
        if k == "held":
            return bt.init.held_1985(g, t, A=25. * u, B=30. * u, C=300. * u)
        if k == "sbr":
            return bt.init.solid_body_rotation(g, t, amplitude=12. * u)
        return bt.init.motionless(g, t)

    def model(self, k):
        L, T = self.L, self.T
        rhs, kw = None, dict(diffusion_order=2, diffusion_coeff=1e16 * L**4 / T)
        H = dict(scale_height=9000. * L)
        mountain = dict(height=1200. * L, center=self.center, stdev=(25., 20.), **H)
        if k == "plain":
            kw = dict(diffusion_order=1, diffusion_coeff=3e5 * L**2 / T)
        elif k == "mountain":
            rhs = bt.rhs.GaussianMountain(wind=("act", 0.8), **mountain)
        elif k == "array":
            rhs = bt.rhs.Orography(*self.orography, wind=("act", 1.), **H)
        elif k == "sine":
            rhs = bt.rhs.ZonalSineMountains(height=900. * L, center_lat=self.lat(35.), stdev_lat=18., wavenumber=4, **H)
        elif k == "zonal":
            rhs = bt.rhs.GaussianMountain(wind=("zon", 1.), **mountain)
        elif k == "sbr":
            rhs = bt.rhs.Orography(*self.orography, wind=("sbr", 14. * L / T), **H)
        elif k == "refcor":
            rhs = bt.rhs.Orography(*self.orography, fcor_ref=self.lat(1e-4) / T, **H)
        elif k == "switched":
            rhs = bt.rhs.TimedOffSwitch(self.time(2500.)) * bt.rhs.GaussianMountain(**mountain)
        elif k == "relax":
            rhs = bt.rhs.LinearRelaxation(2e-5 / T, self.reference)
        elif k == "source":
            rhs = User(self.source) + User(self.source) * bt.rhs.TimedOffSwitch(self.time(1000.))
        elif k == "background":
            kw = dict(diffusion_order=3, diffusion_coeff=1e28 * L**6 / T, diffusion_bg=self.background)
        return bt.BarotropicModel(rhs=rhs, **kw)

    def run(self, s, k):
        dt = 900. * self.T
        final, saved = s.run(self.model(k), dt, s.time + 3600. * self.T, save_every=1500. * self.T)
        return final, saved

    def copy(self, s, k):
        ds = bt.io.as_dataset([s], fields=["u", "v"])
        if k == "avo":
            ds = ds.assign(avo=(ds["u"].dims, s.pv[None])).drop_vars(["u", "v"])
        new = bt.io.from_dataset(ds, grid_kwargs=dict(rsphere=self.grid.rsphere, omega=self.grid.omega))[0]
        return bt.State(self.grid, new.time, pv=new.pv)

    def get(self, s, a):
        min_u = 0.3 * self.L / self.T
        if a == "pv_flux":
            return s.grid.to_grid(s.pv_flux_spectral)
        if a == "envelope":
            return s.v_envelope_hilbert
        if a == "wind":
            return [s.u, s.v]
        if a == "ks2":
            return dg.stationary_wavenumber(s, min_u=min_u, kind="squared")
        if a == "waveguides":
            return dg.extract_ks_waveguides(dg.stationary_wavenumber(s, min_u=min_u, kind="real"), 3.3, s.grid)
        if a == "wavenumber":
            return dg.dominant_wavenumber_fourier(s.v, s.grid, smooth=("boxcar", 30.))
        if a == "falwa_boxcount":
            return dg.falwa(s.pv, s.grid, levels=17, quad="boxcount")
        return getattr(s, a)

    def do(self, s, x, o):
        g, L, T = self.grid, self.L, self.T
        if o == "laplace":
            return g.laplace(x)
        if o == "poisson":
            return g.solve_poisson(x)
        if o == "poisson_add":
            return g.solve_poisson(x, op_add=3e-13 / L**2)
        if o == "diffuse":
            return g.solve_diffusion(x, coeff=1e17 * L**4 / T, dt=3600. * T, order=2)
        if o in ("derivative2", "derivative4"):
            return g.derivative_meridional(x, order=int(o[-1]))
        if o == "gradient":
            return list(g.gradient(x))
        if o == "hann_zonal":
            return g.filter_zonal(x, "hann", 75.)
        if o == "boxcar_meridional":
            return g.filter_meridional(x, "boxcar", 45.)
        if o == "window_meridional":
            return g.filter_meridional(x, self.window[::-1] if self.flip else self.window)
        if o == "window_zonal":
            return g.filter_zonal(x, self.window)
        if o == "by_wavenumber":
            k = np.array([1., 2., 3., 4., 5., 6., 7., 3., 2., 12., 1., 4., 3.])
            return dg.filter_by_wavenumber(x, k[::-1] if self.flip else k)
        if o == "envelope_of":
            return dg.envelope_hilbert(x, (1, 5))
        if o == "times_u":
            return x * s.u
        if o == "times_v":
            return x * s.v
        if o == "times_pv":
            return x * s.pv
        if o == "zonal_mean":
            return g.mean(x, axis="zonal")
        if o == "meridional_mean":
            return g.mean(x, axis="meridional")
        if o == "mean":
            return g.mean(x)
        if o in ("region_mean", "region"):
            lo, hi = self.lat(62.), self.lat(-18.)
            w, e = (300. + 15. * self.roll) % 360., (90. + 15. * self.roll) % 360.
            r = g.region[w:e, lo:hi]
            return r.extract(x) if o == "region" else g.mean(x, region=r)
        if o == "quad":
            return g.quad(x)
        if o == "quad_domain":
            return g.quad(x, s.u + 3. * L / T)
        if o == "quad_meridional":
            return g.quad_meridional(x)
        if o == "zonalize":
            return g.zonalize(x)
        if o == "roundtrip_spectral":
            return g.to_grid(g.to_spectral(x))
        if o == "curl":
            return g.vorticity(*x)
        if o == "divergence":
            return g.divergence(*x)
        if o == "recombine":
            return list(g.wind(*g.vorticity_divergence(*x)))
        if o == "first":
            return x[0]
        if o == "derivative_profile":
            return g.derivative_meridional(x)
        if o == "smooth_profile":
            return g.filter_meridional(x, "hann", 60.)
        if o == "interpolate":
            i = np.array([1, 3, 2, 5, 7, 6, 11])
            if self.flip:
                i = N - i
            return g.interpolate_meridional(x[i], g.lat[i], (x[0], x[-1]))
        if o == "as_field":
            return np.repeat(x[:, None], 2 * N, axis=1)
        raise NotImplementedError(o)

    def state(self, s, x, o):
        g, t = self.grid, s.time
        if o == "as_vorticity":
            return bt.State.from_vorticity(g, t, x)
        if o == "as_pv":
            return bt.State(g, t, pv=x)
        if o == "plus_vorticity":
            return s.add_vorticity(x)
        if o == "as_wind":
            return bt.State.from_wind(g, t, *x)
        if o == "plus_wind":
            return s.add_wind(tuple(x))
        if o == "as_u_profile":
            return bt.init.zonally_symmetric(g, t, u=x)
        if o == "as_pv_profile":
            return bt.init.zonally_symmetric(g, t, pv=x)
        raise NotImplementedError(o)


# how much operations amplify rounding errors (single precision)
GAIN = {"laplace": lambda w: 200. / w.grid.rsphere**2, "poisson": lambda w: w.grid.rsphere**2, "poisson_add": lambda w: w.grid.rsphere**2,
        "gradient": lambda w: 15. / w.grid.rsphere, "curl": lambda w: 15. / w.grid.rsphere, "divergence": lambda w: 15. / w.grid.rsphere,
        "times_u": lambda w: 2e-3 * OMEGA * R * w.L / w.T, "times_v": lambda w: 2e-3 * OMEGA * R * w.L / w.T, "times_pv": lambda w: 2e-3 * OMEGA / w.T, "quad": lambda w: 12. * w.grid.rsphere**2,
        "quad_domain": lambda w: 12. * w.grid.rsphere**2, "quad_meridional": lambda w: 3. * w.grid.rsphere}

PV = dict(kind="field", len=0, tim=-1, odd=1)


def check(ck):
    jobs = ck.tlc("Symmetry", "Symmetry_" + ck.tier)
    ck.rng.shuffle(jobs)
    jobs = jobs[:ck.pick(1200, 12000)]
    sim = ck.tlc("Symmetry", "Symmetry_sim", args=["-simulate", f"num={ck.pick(30, 400)}", "-depth", "7", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    jobs += sim[:ck.pick(500, 6000)]
    worlds, starts = {}, {}
    seeds = [ck.seed * 10 + i for i in range(ck.pick(2, 4))]
    jobs.sort(key=lambda b: str(b["g"]))
    for i, b in enumerate(jobs):
        seed = seeds[i % len(seeds)]
        pair = []
        for g in (dict(roll=0, flip=0, len=0, tim=0, shift=0), b["g"]):
            k = str((sorted(g.items()), seed))
            if k not in worlds:
                with ck.case("setup of a world", **g):
                    worlds[k] = World(g, seed)
            pair.append((k, worlds[k]))
        replay(ck, b, pair, starts)
        ck.replayed += 1
    ck.require(compared=1000, run=100, flip=150, roll=300, scaled=300, shift=300, epoch=100, negative=100, region=10, bands=10)


def replay(ck, b, pair, starts):
    prog = b["prog"]
    text = " ".join(p["op"] + ":" + p["arg"] for p in prog)
    with ck.case(f"{text} moved by {b['g']}"):
        moved = pair[1][1]
        ctx = []
        for k, w in pair:
            key = (k, prog[0]["arg"])
            if key not in starts:
                starts[key] = w.start(prog[0]["arg"])
            # (fields of the starting state are not calculated again for every program)
            ctx.append([copy.copy(starts[key]), None])
        same_state(ck, "start", ctx, pair)
        for n, p in enumerate(prog[1:], 1):
            what = f"operation {n + 1} ({p['op']} {p['arg']})"
            t = p["typ"]
            if p["op"] == "run":
                saved, before = [], [c[0] for c in ctx]
                for c, (_, w) in zip(ctx, pair):
                    c[0], sv = w.run(c[0], p["arg"])
                    saved.append(sv)
                ck.expect(what + ": number of saved states", len(saved[0]) == len(saved[1]), len(saved[0]), len(saved[1]))
                for x, y in zip(*saved):
                    same_state(ck, what + ": saved state", [[x], [y]], pair)
                # the changes are small
                change = moved.act(PV, ctx[0][0].pv - before[0].pv)
                ck.expect_close(what + ": change of PV", ctx[1][0].pv - before[1].pv, change, rel=0.02, scale=np.max(np.abs(change)) + 1e-4 * OMEGA / moved.T)
                same_state(ck, what, ctx, pair)
                ck.count("run")
            elif p["op"] == "copy":
                for c, (_, w) in zip(ctx, pair):
                    c[0] = w.copy(c[0], p["arg"])
                same_state(ck, what, ctx, pair)
            elif p["op"] == "get":
                for c, (_, w) in zip(ctx, pair):
                    c[1] = w.get(c[0], p["arg"])
                same(ck, what, t, ctx, pair, p["arg"])
            elif t["kind"] == "none":
                for c, (_, w) in zip(ctx, pair):
                    c[0], c[1] = w.state(c[0], c[1], p["arg"]), None
                same_state(ck, what, ctx, pair)
            else:
                operand = np.max(np.abs(ctx[1][1]))
                for c, (_, w) in zip(ctx, pair):
                    c[1] = w.do(c[0], c[1], p["arg"])
                same(ck, what, t, ctx, pair, p["arg"], operand * GAIN.get(p["arg"], lambda w: 1.)(moved))
            ck.count("compared")
            # (rounding errors must not grow over many steps: continue from the same values)
            if t["kind"] in ("field", "profile", "around", "number", "vector") and p["op"] != "run":
                ctx[1][1] = moved.act(t, ctx[0][1])
        ck.count("flip", moved.flip)
        ck.count("roll", moved.roll > 0)
        ck.count("scaled", moved.L != 1 or moved.T != 1)
        ck.count("shift", moved.t0 != 0)
        ck.count("epoch", abs(moved.t0) > 1e10 * moved.T)
        ck.count("negative", moved.t0 < 0)
        ck.sample(b, 3)


def same_state(ck, what, ctx, pair):
    (s, *_), (z, *_) = ctx
    w = pair[1][1]
    ck.expect(what + ": time", z.time == w.time(s.time), w.time(s.time), z.time)
    want = w.act(PV, s.pv)
    ck.expect_close(what + ": PV", z.pv, want, rel=5e-4, scale=2 * OMEGA / w.T)


def same(ck, what, t, ctx, pair, arg, rounding=None):
    x, z = ctx[0][1], ctx[1][1]
    w = pair[1][1]
    if t["kind"] == "bands":
        want = w.act(t, x)
        ck.expect(what + ": number of waveguides", len(want) == len(z), want, z)
        ck.expect_close(what, np.asarray(z, float).reshape(-1, 2), np.asarray(want, float).reshape(-1, 2), rel=0, atol=0.5)
        ck.count("bands")
        return
    if t["kind"] == "patch":
        want = w.act(dict(t, kind="profile"), x)
        ck.count("region")
        ck.expect_close(what, z, want, rel=REL)
        return
    want = w.act(t, x)
    if arg == "ks2":
        got, want = np.asarray(z), np.asarray(want)
        ck.expect(what + ": infinite values", np.array_equal(np.isinf(got), np.isinf(want)) and np.array_equal(got[np.isinf(got)], want[np.isinf(got)]), want, got)
        fin = np.isfinite(want)
        ck.expect(what, np.all(np.abs(got[fin] - want[fin]) <= 0.02 * np.abs(want[fin]) + 0.05), want, got)
        return
    # if a quantity happens to vanish: the scale of what it is made of
    nat = 1e-3 * w.scale(t) * R**t["len"] * OMEGA**(-t["tim"]) if rounding is None else rounding
    if arg == "pv_flux":
        nat *= 30.
    # (counting of boxes is discontinuous in the field)
    rel = 10 * REL if arg == "falwa_boxcount" else REL
    parts = zip(z, want) if t["kind"] == "vector" else [(z, want)]
    size = max(float(np.max(np.abs(y))) for y in (want if t["kind"] == "vector" else [want]))
    for a, y in parts:
        ck.expect_close(what, a, y, rel=rel, scale=size + nat)
