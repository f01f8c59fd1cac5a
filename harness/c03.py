"""C03: the filtered leapfrog scheme (specs/Scheme.tla)."""
import datetime as D
import numpy as np
import barotropic as bt
from .core import frac
from .modes import Basis

TOL = 2e-5    # single precision transforms

# (start time, time step, seconds)
AXES = [(0, 900, 900.), (-7200., 0.5, 0.5), (1.7e9, 3600., 3600.), (0, 86400, 86400.), (1000., 0.03125, 0.03125),
        (D.datetime(2020, 2, 28, 18), D.timedelta(hours=6), 21600.),
        (D.datetime(1969, 12, 31), D.timedelta(days=1, hours=3), 97200.),
        (D.datetime(2021, 6, 1), D.timedelta(milliseconds=250), 0.25),
        (D.datetime(2021, 6, 1, 23, 59, 59), D.timedelta(days=3), 259200.)]

GRIDS = [dict(resolution=15.), dict(resolution=12., rsphere=1.), dict(resolution=10., rsphere=3.4e6, legfunc="computed"),
         dict(resolution=15., rsphere=2.e7, ntrunc=11), dict(resolution=180. / 14)]


class Term(bt.rhs.RHS):
    def __init__(self, f):
        self.f = f
    def __call__(self, state):
        return self.f


class World:
    """The units of a behaviour: grid, time axis."""

    def __init__(self, kw, axis, conf):
        self.t0, self.dt, self.sec = axis
        self.conf = conf
        self.grid = g = bt.Grid(omega=frac(conf["omega"]) / self.sec, **kw)
        self.b = Basis(g.lat, g.lon, 4)
        n, (m1, m2) = conf["n"], conf["orders"]
        # mean is 1, degree 1 is sin(lat)
        self.shapes = [np.ones(g.shape), np.sin(np.deg2rad(g.lat))[:, None] * np.ones((1, g.nlon))]
        self.shapes += [self.b.y((n, m, k)) for m in (m1, m2) for k in (0, 1)]
        self.omega_vort = 2 * abs(g.omega)

    def field(self, v, power=1):
        return sum(frac(a) * s for a, s in zip(v, self.shapes)) / self.sec**power

    def time(self, k):
        return self.t0 + k * self.dt

    def model(self, rng):
        c, kw = self.conf, {}
        f = self.field(c["field"], 2)
        if c["forcing"] == "none":
            rhs = None
        elif c["forcing"] == "const":
            rhs = rng.choice([Term(f), lambda state: f, Term(0.25 * f) + Term(0.75 * f), Term(f) * (lambda state: 1.)])
        elif c["forcing"] == "timed":
            rhs = bt.rhs.TimedOffSwitch(self.time(c["toff"])) * Term(f)
        else:
            rhs = bt.rhs.LinearRelaxation(frac(c["rate"]) / self.sec, self.field(c["field"]))
        if any(x[0] for x in c["bg"]):
            kw["diffusion_bg"] = self.field(c["bg"])
        coeff = frac(c["diff"]) * self.grid.rsphere**(2. * c["order"]) / self.sec
        self.inputs = [(f, f.copy())] + ([(kw["diffusion_bg"], kw["diffusion_bg"].copy())] if kw else [])
        return bt.BarotropicModel(rhs=rhs, diffusion_order=c["order"], diffusion_coeff=coeff, **kw)


def compare(ck, w, what, st, v, k, scale):
    ck.expect(f"{what}: State", isinstance(st, bt.State))
    ck.expect(f"{what}: time", st.time == w.time(k), w.time(k), st.time)
    ck.expect(f"{what}: grid", st.grid is w.grid or st.grid == w.grid)
    ck.expect_close(what, st.pv, w.field(v), rel=TOL, scale=scale)


def check(ck):
    jobs = ck.tlc("Scheme", "Scheme_" + ck.tier)
    if not ck.thorough:
        # every configuration is kept
        seen, head, rest = set(), [], []
        for b in jobs:
            key = (repr(b["conf"]), b["hist"][0]["op"])
            (rest if key in seen else head).append(b)
            seen.add(key)
        ck.rng.shuffle(rest)
        jobs = head + rest[:600]
    for j, b in enumerate(jobs):
        replay(ck, b, GRIDS[j % len(GRIDS)], AXES[(j // len(GRIDS)) % len(AXES)])
        ck.replayed += 1
    long_runs(ck)
    defaults(ck)
    ck.require(euler=50, pair=100, run=50, relax=20, timed=20, background=20, default_filter=50, long=2)


def replay(ck, b, kw, axis):
    c, hist = b["conf"], b["hist"]
    with ck.case(f"{hist[0]['op']} then {len(hist) - 1} leapfrog, forcing {c['forcing']} on {kw}, dt = {axis[1]}", **b):
        w = World(kw, axis, c)
        model = w.model(ck.rng)
        g = frac(c["g"])
        def make(v, k):
            f = w.field(v)
            w.inputs.append((f, f.copy()))
            return bt.State(w.grid, w.time(k), pv=f) if ck.rng.random() < 0.6 else \
                bt.State(w.grid, w.time(k), pv_spectral=w.grid.to_spectral(f))
        fields = [w.field(h[x]) for h in hist for x in ("old", "now")] + [w.field(c["field"]), w.field(c["bg"])]
        scale = max(np.max(np.abs(f)) for f in fields) + w.omega_vort
        old = start = make(hist[0]["old"], 0)
        if hist[0]["op"] == "euler":
            now = model.euler(old, w.dt)
            compare(ck, w, "Euler step", now, hist[0]["now"], 1, scale)
            ck.count("euler")
        else:
            now = make(hist[0]["now"], 1)
            ck.count("pair")
        for k, h in enumerate(hist[1:], start=1):
            before = old, now
            if g == 0.2 and ck.rng.random() < 0.7:
                old, now = model.leapfrog(old, now)
                ck.count("default_filter")
            else:
                old, now = model.leapfrog(old, now, filter_parameter=g)
            compare(ck, w, "new state of leapfrog step", now, h["now"], k + 1, scale)
            compare(ck, w, "filtered state of leapfrog step", old, h["old"], k, scale)
            compare(ck, w, "old state after the step", before[0], hist[k - 1]["old"], k - 1, scale)
            compare(ck, w, "current state after the step", before[1], hist[k - 1]["now"], k, scale)
        if hist[0]["op"] == "euler" and g == 0.2:
            n = len(hist) - 1
            final, _ = model.run(start, w.dt, w.time(n))
            compare(ck, w, "final state of run", final, hist[-1]["old"], n, scale)
            final, _ = start.run(model, w.dt, w.time(n))
            compare(ck, w, "final state of State.run", final, hist[-1]["old"], n, scale)
            ck.count("run")
        for a, copy in w.inputs:
            ck.expect("input arrays unchanged", np.array_equal(a, copy))
        ck.count(c["forcing"])
        ck.count("background", any(x[0] for x in c["bg"]))
        ck.sample({"conf": c, "hist": hist}, 2)


def tendency(b, g, rel, pl_mean, force):
    """Exact tendency of a general flow (relative vorticity coefficients) in grid space."""
    r = g.rsphere
    psi = {m: -a * r**2 / (m[0] * (m[0] + 1)) for m, a in rel.items()}
    u, v = b.wind(psi, {}, r)
    qx, qy = b.grad(rel, r)
    return -(u * qx + v * (qy + 2 * g.omega * np.cos(np.deg2rad(g.lat))[:, None] / r)) + force


def long_runs(ck):
    """A run is the composition of the steps, for flows with all interactions."""
    for i in range(ck.pick(8, 60)):
        kw = dict(GRIDS[i % len(GRIDS)])
        t0, dt, sec = AXES[(3 * i + ck.seed) % len(AXES)]
        g = bt.Grid(omega=ck.rng.choice([0.05, 0., -0.05]) / sec, **kw)
        b = Basis(g.lat, g.lon, 4)
        modes = [(n, m, k) for n in range(1, 5) for m in range(n + 1) for k in (0, 1) if k == 0 or m > 0]
        rel = {m: ck.nprng.normal() * 0.006 / sec for m in modes}
        f = 0.0005 / sec**2 * np.cos(g.phi2)**2 * np.sin(2 * g.lam2)
        n = ck.rng.randint(2, 25)
        with ck.case(f"run of {n} steps of a general flow on {kw}, dt = {dt}", t0=str(t0)):
            coeff = ck.rng.choice([0., 1e-4]) * g.rsphere**4 / sec
            model = bt.BarotropicModel(rhs=ck.rng.choice([None, Term(f)]), diffusion_coeff=coeff)
            pv = b.field(rel) + g.fcor2
            start = bt.State(g, t0, pv=pv)
            # one step of the general flow without diffusion
            plain = bt.BarotropicModel(rhs=Term(f), diffusion_coeff=0., diffusion_order=ck.rng.choice([1, 2]))
            exp = pv + sec * tendency(b, g, rel, 0., f)
            scale = np.max(np.abs(pv)) + 2 * abs(g.omega)
            got = plain.euler(start, dt)
            ck.expect_close("Euler step of a general flow", got.pv, exp, rel=TOL, scale=scale)
            pv2 = 1.1 * b.field(rel) + g.fcor2
            rel2 = {m: 1.1 * a for m, a in rel.items()}
            exp2 = pv + 2 * sec * tendency(b, g, rel2, 0., f)
            filt, new = plain.leapfrog(start, bt.State(g, t0 + dt, pv=pv2))
            ck.expect_close("leapfrog step of a general flow", new.pv, exp2, rel=TOL, scale=scale)
            ck.expect_close("filter for a general flow", filt.pv, 0.6 * pv2 + 0.2 * (pv + exp2), rel=TOL, scale=scale)
            # composition
            old, now = start, model.euler(start, dt)
            for _ in range(n):
                old, now = model.leapfrog(old, now)
            final, _ = model.run(start, dt, t0 + n * dt)
            ck.expect("final time", final.time == old.time, old.time, final.time)
            ck.expect_close("final state of the run", final.pv, old.pv, rel=1e-6, scale=scale)
            # and of runs of the parts is not the same as a run in one go, but
            # the pair (filtered, new) continues it
            ck.count("long")


def defaults(ck):
    """Default diffusion and filter parameters."""
    g = bt.Grid(15.)
    b = Basis(g.lat, g.lon, 4)
    with ck.case("default diffusion: second order, 1e15"):
        f = 1e-5 * b.y((4, 0, 0))
        lam = 20. / g.rsphere**2
        for dt in (3600., 86400. * 4):
            q = bt.BarotropicModel().euler(bt.State(g, 0, pv=g.fcor2 + f), dt).pv
            pl = g.fcor2 / (1 + dt * 1e15 * (2. / g.rsphere**2)**2)
            ck.expect_close("PV", q, pl + f / (1 + dt * 1e15 * lam**2), rel=TOL)
    with ck.case("constructor order and keyword arguments"):
        st = bt.State(g, 0, pv=g.fcor2 + 1e-5 * b.y((3, 2, 0)))
        c = 1e6
        m1, m2 = bt.BarotropicModel(None, 1, c), bt.BarotropicModel(diffusion_coeff=c, diffusion_order=1)
        ck.expect_close("same model", m1.euler(st, 60.).pv, m2.euler(st, 60.).pv, rel=1e-7)
