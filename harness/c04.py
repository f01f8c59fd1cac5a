"""C04: operations on shared objects do not interfere (specs/History.tla, HistoryTrace.tla)."""
import copy, pickle, subprocess, sys, os
import numpy as np
import barotropic as bt
from .core import MachineryError

DT = 1800.


class Term(bt.rhs.RHS):
    """User-defined forcing."""
    def __call__(self, state):
        return 1e-11 * np.cos(state.grid.phi2)**2 * np.sin(3 * state.grid.lam2) * (1 + state.time / 1e5)


class World:
    """Fresh objects."""

    def __init__(self):
        G = {"g1": bt.Grid(22.5), "g2": bt.Grid(30.), "g1b": bt.Grid(22.5), "g1r": bt.Grid(22.5, rsphere=4e6, omega=1e-4), "g1t": bt.Grid(22.5, ntrunc=4)}
        self.G = G
        self.inputs = {}
        def pv(name, g, a, k):
            f = G[g].fcor2 + 2e-5 * (a * np.cos(G[g].phi2)**2 * np.cos(k * G[g].lam2 + a) + 0.4 * np.sin(2 * G[g].phi2))
            self.inputs["pv " + name] = f
            return f
        self.S = {"s1": bt.State(G["g1"], 0., pv=pv("s1", "g1", 1., 2)), "s2": bt.State(G["g1"], 5400., pv=pv("s2", "g1", 0.7, 3)),
                  "s3": bt.State(G["g2"], 0., pv=pv("s3", "g2", 1., 2)), "s5": bt.State(G["g1r"], 900., pv=pv("s5", "g1r", 1., 2)),
                  "s6": bt.State(G["g1t"], 3600., pv=pv("s6", "g1t", 1., 2))}
        self.S["s4"] = bt.State(G["g1b"], 0., pv_spectral=G["g1b"].to_spectral(pv("s4", "g1b", -1., 2)))
        lon, lat = np.linspace(0., 360., 25), np.linspace(90., -90., 13)
        h = 1000. * np.cos(np.deg2rad(lat))[:, None]**2 * (1.5 + np.sin(2 * np.deg2rad(lon)))[None, :]
        self.inputs.update(lon=lon, lat=lat, h=h)
        self.T = {"oro1": bt.rhs.Orography(lon, lat, h),
                  "oro2": bt.rhs.GaussianMountain(height=800, center=(70., 30.), stdev=(30., 25.), wind=("zon", 0.9)),
                  "oro3": bt.rhs.ZonalSineMountains(wavenumber=3, center_lat=-30., stdev_lat=20., wind=("sbr", 10.), fcor_ref=1e-4)}
        ref = G["g1"].fcor2 * 0.9
        bg = G["g1"].fcor2.copy()
        self.inputs.update(ref=ref, bg=bg)
        T = self.T
        self.M = {"m0": bt.BarotropicModel(), "m1": bt.BarotropicModel(rhs=T["oro1"], diffusion_coeff=1e16),
                  "m2": bt.BarotropicModel(rhs=bt.rhs.TimedOffSwitch(3000.) * (T["oro1"] + T["oro2"])),
                  "m3": bt.BarotropicModel(rhs=T["oro3"] + Term(), diffusion_order=1, diffusion_coeff=1e5),
                  "m4": bt.BarotropicModel(rhs=bt.rhs.LinearRelaxation(1e-5, ref) + T["oro1"], diffusion_bg=bg)}
        term = Term()
        self.alt = {"m0": (1, 1e4, T["oro3"]), "m1": (2, 1e17, term), "m2": (2, 0., T["oro1"]), "m3": (3, 1e28, T["oro2"] + term), "m4": (2, 1e18, None)}
        self.copies = {k: v.copy() for k, v in self.inputs.items()}
        self.grids0 = {k: grid_data(g) for k, g in G.items()}
        self.models0 = {k: (m.diffusion_order, m.diffusion_coeff, m.rhs) for k, m in self.M.items()}
        self.conf = {k: "" for k in self.M}

    def configure(self, m, f):
        self.conf[m] = f
        x = self.alt[m] if f == "alt" else self.models0[m]
        self.M[m].diffusion_order, self.M[m].diffusion_coeff, self.M[m].rhs = x

    def works(self, m, s):
        return m != "m4" or s != "s3"

    # -- operations -----------------------------------------------------------

    def do(self, h):
        op, s = h["op"], self.S.get(h["s"])
        if op == "configure":
            self.configure(h["m"], h["f"])
            return []
        if op in ("run", "runlist", "step") and self.conf[h["m"]] != h["f"]:
            self.configure(h["m"], h["f"])
        if op == "access":
            return [np.asarray(getattr(s, h["f"]))]
        if op == "evaluate":
            return [np.asarray(self.T[h["m"]](s))]
        if op == "run":
            return self._run(self.M[h["m"]].run(s, DT, s.time + h["n"] * DT, **({"save_every": 2 * DT} if h["n"] > 1 else {})))
        if op == "runlist":
            # relative end times differ: the two states of the list may have different times
            sl = bt.StateList([s, self.S[h["s2"]]])
            tend = max(x.time for x in sl) + h["n"] * DT
            last, steps = sl.run(self.M[h["m"]], DT, tend)
            if not isinstance(last, bt.StateList) or len(last) != 2 or len(steps) != 2:
                raise AssertionError("wrong result of StateList.run")
            return [r for x in zip(last, steps) for r in self._run(x)]
        if op == "step":
            # single steps: s2 is later than s
            m, s2 = self.M[h["m"]], self.S[h["s2"]]
            first = m.euler(s, DT)
            return [r for x in (first, *m.leapfrog(s, first), *m.leapfrog(s, s2)) for r in (np.asarray(float(x.time)), x.pv)]
        if op == "dataset":
            ds = bt.io.as_dataset([s])
            return [ds[k].values.squeeze() for k in sorted(map(str, ds.data_vars))]
        if op == "region":
            r = s.grid.region[300:60, -50:50]
            return [r.extract(s.pv), r.lat, r.lon, np.asarray(r.mean(s.pv)), np.asarray(s.grid.mean(s.u))]
        if op == "add":
            return [s.add_wind(s).pv, s.add_vorticity(s).pv]
        # operations of the recorded histories
        if op == "plot":
            getattr(bt.plot, h["f"])(s, **({} if h["f"] == "waveguides" else {"figsize": (4, 3)}))
            import matplotlib.pyplot as plt
            plt.close("all")
            return []
        if op == "diag":
            d = bt.diagnostics
            if h["f"] == "fawa":
                return list(d.fawa(s))
            if h["f"] == "falwa_boxcount":
                return [d.falwa(s, quad="boxcount")]
            if h["f"] == "zonalize":
                return [s.grid.zonalize(s.pv, levels=7, quad="boxcount")]
            if h["f"] == "ks":
                return [np.nan_to_num(d.stationary_wavenumber(s, kind="squared"), posinf=1e30, neginf=-1e30)]
            if h["f"] == "envelope":
                return [d.envelope_hilbert(s.v, (1, 4))]
            if h["f"] == "filter":
                return [s.grid.filter_zonal(s.v, "hann", 70.), s.grid.filter_meridional(s.v, "boxcar", 60.),
                        d.filter_by_wavenumber(s.v, np.full(s.grid.nlat, 3.))]
            if h["f"] == "spectral":
                g = s.grid
                return [g.laplace(s.u), g.solve_poisson(s.v, 1e-13), g.solve_diffusion(s.pv, 1e5, 600.), *g.gradient(s.pv), *g.vorticity_divergence(s.u, s.v)]
            if h["f"] == "derivative":
                return [s.grid.derivative_meridional(s.pv), s.grid.derivative_meridional(s.u.mean(axis=1), order=2)]
        if op == "init":
            g, i = s.grid, bt.init
            return [getattr(st, "pv") for st in (i.motionless(g), i.solid_body_rotation(g, amplitude=12.),
                                                 i.gaussian_jet(g, amplitude=15., center_lat=40., stdev_lat=12.))]
        if op == "copy":
            return [copy.deepcopy(s).pv, pickle.loads(pickle.dumps(s)).u]
        if op == "roundtrip":
            ds = bt.io.as_dataset([s], fields=["u", "v"])
            return [bt.io.from_dataset(ds)[0].u]
        raise MachineryError("unknown operation " + op)

    def _run(self, pair):
        final, saved = pair
        return [np.asarray(float(final.time)), final.pv, np.array([float(x.time) for x in saved]), saved.pv]

    # -- inputs -----------------------------------------------------------------

    def check_inputs(self, ck, pvs, pvs_spectral={}):
        for k, v in self.inputs.items():
            ck.expect(f"input array {k} unchanged", np.array_equal(v, self.copies[k]))
        for k, g in self.G.items():
            for name, x in grid_data(g).items():
                ck.expect(f"{name} of grid {k} unchanged", np.array_equal(x, self.grids0[k][name]), self.grids0[k][name], x)
        times = {"s1": 0., "s2": 5400., "s3": 0., "s4": 0., "s5": 900., "s6": 3600.}
        for k, s in self.S.items():
            ck.expect(f"time of state {k} unchanged", s.time == times[k])
            ck.expect(f"grid of state {k} unchanged", s.grid is self.G[{"s1": "g1", "s2": "g1", "s3": "g2", "s4": "g1b", "s5": "g1r", "s6": "g1t"}[k]])
            ck.expect(f"state {k} unchanged", same(s.pv, pvs[k]), pvs[k], s.pv)
            if k in pvs_spectral:
                ck.expect(f"spectral PV of state {k} unchanged", same(s.pv_spectral, pvs_spectral[k]), pvs_spectral[k], s.pv_spectral)
        for k, m in self.M.items():
            ck.expect(f"model {k} unchanged", (m.diffusion_order, m.diffusion_coeff, m.rhs) == (self.alt[k] if self.conf[k] == "alt" else self.models0[k]))


def grid_data(g):
    out = {k: np.array(getattr(g, k)) for k in ("lon", "lat", "lon2", "lat2", "lam", "phi", "lam2", "phi2", "fcor", "fcor2", "fcor2_spectral",
                                               "gridpoint_area", "rsphere", "omega", "nlat", "nlon", "dlon", "dlat", "dlam", "dphi", "shape")}
    return out


def same(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    if not (np.isfinite(x).all() and np.isfinite(y).all()):
        return np.array_equal(x, y, equal_nan=True)
    return bool(np.max(np.abs(x - y)) <= 1e-6 * np.max(np.abs(y)) + 1e-300)


def key_of(h):
    return " ".join(str(h[k]) for k in ("op", "m", "s", "s2", "f", "n"))


def all_same(x, y):
    return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))


FIELDS = ["pv", "u", "v", "vorticity", "falwa", "energy", "streamfunction", "pv_flux_spectral", "pv_zonalized", "enstrophy"]

def universe():
    w = World()
    out = []
    E = lambda op, m="", s="", s2="", f="", n=0: out.append(dict(op=op, m=m, s=s, s2=s2, f=f, n=n))
    for s in w.S:
        for f in FIELDS:
            E("access", s=s, f=f)
        for t in w.T:
            E("evaluate", m=t, s=s)
        for m in w.M:
            if w.works(m, s):
                for f in ("", "alt"):
                    for n in (0, 1, 2, 3):
                        E("run", m=m, s=s, f=f, n=n)
                    for s2 in w.S:
                        if w.S[s2].grid is w.S[s].grid:
                            E("runlist", m=m, s=s, s2=s2, f=f, n=1)
                        if w.S[s2].grid is w.S[s].grid and w.S[s].time < w.S[s2].time:
                            E("step", m=m, s=s, s2=s2, f=f, n=1)
        for op in ("dataset", "region", "add"):
            E(op, s=s)
    return out


def isolated(ops):
    return {key_of(h): World().do(h) for h in ops}


def check(ck):
    ops = universe()
    base = isolated(ops)
    # the same in another process, in the opposite order
    path = os.path.join(ck.tmp, "base.pickle")
    proc = subprocess.run([sys.executable, "-m", "harness.c04", path], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    with ck.case("all operations in isolation, in opposite order in another process"):
        ck.expect("operations succeed", proc.returncode == 0, observed=proc.stderr[-1500:])
        with open(path, "rb") as f:
            other = pickle.load(f)
        for k, v in base.items():
            ck.expect(f"result of {k}", all_same(other[k], v), v, other[k])
            ck.count("isolated")
    pvs = {k: np.array(s.pv) for k, s in World().S.items()}
    pvs_spectral = {k: np.array(s.pv_spectral) for k, s in World().S.items()}
    jobs = ck.tlc("History", "History_" + ck.tier)
    ck.rng.shuffle(jobs)
    jobs = jobs[:ck.pick(300, 4000)]
    sim = ck.tlc("History", "History_sim", args=["-simulate", f"num={ck.pick(20, 100)}", "-depth", "13", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    # (stable: first those that reconfigure models)
    sim.sort(key=lambda b: -sum(h["op"] == "configure" for h in b["hist"]))
    k = ck.pick(30, 300)
    rest = sim[k:]
    ck.rng.shuffle(rest)
    jobs += sim[:k] + rest[:ck.pick(90, 1200)]
    for b in jobs:
        replay(ck, b["hist"], base, pvs, pvs_spectral)
        ck.replayed += 1
    churn(ck, base)
    recorded(ck, pvs, pvs_spectral)
    with ck.case("all operations in isolation, again"):
        for h in ops:
            ck.expect(f"result of {key_of(h)} in the end", all_same(World().do(h), base[key_of(h)]))
    ck.require(isolated=100, access=200, run=100, runlist=50, evaluate=100, trace=5, after_run=50, step=12, configure=15)


def replay(ck, hist, base, pvs, pvs_spectral):
    with ck.case("; ".join(" ".join(str(h[k]) for k in ("op", "m", "s", "s2", "f", "n") if h[k] != "") for h in hist)):
        w = World()
        results = []
        for i, h in enumerate(hist):
            got = w.do(h)
            if h["op"] == "configure":
                ck.count("configure")
                continue
            ck.expect(f"result of operation {i + 1} ({key_of(h)}) is that of the isolated operation", all_same(got, base[key_of(h)]),
                      base[key_of(h)], got)
            ck.count(h["op"])
            ck.count("after_run", i > 0 and hist[i - 1]["op"].startswith("run"))
            results.append((h, got, [np.array(x) for x in got]))
        for h, got, copies in results:
            ck.expect(f"result of {key_of(h)} not modified later", all(np.array_equal(a, b, equal_nan=a.dtype.kind == "f") for a, b in zip(got, copies)))
        w.check_inputs(ck, pvs, pvs_spectral)
        ck.sample(hist, 2)


def churn(ck, base):
    """More terms and grids than any cache holds."""
    w = World()
    evals = [dict(op="evaluate", m=t, s=s, s2="", f="", n=0) for t in w.T for s in w.S]
    extra = [bt.rhs.GaussianMountain(height=100. * k, center=(40. * k, 10.), stdev=(20., 20.)) for k in range(1, 7)]
    first = {}
    for rnd in range(ck.pick(6, 40)):
        with ck.case(f"many terms and grids, round {rnd}"):
            for h in ck.rng.sample(evals, len(evals)):
                ck.expect(f"{key_of(h)}", all_same(w.do(h), base[key_of(h)]), base[key_of(h)])
                ck.count("evaluate")
                k, s = ck.rng.randrange(len(extra)), ck.rng.choice(list(w.S))
                val = np.asarray(extra[k](w.S[s]))
                first.setdefault((k, s), val)
                ck.expect("forcing of extra term", same(val, first[k, s]), first[k, s], val)
                fresh = bt.rhs.GaussianMountain(height=100. * (k + 1), center=(40. * (k + 1), 10.), stdev=(20., 20.))
                ck.expect("forcing of extra term equals that of a new one", same(val, fresh(w.S[s])))


def recorded(ck, pvs, pvs_spectral):
    """Long random histories including everything else, judged by HistoryTrace."""
    log, pools = [], []
    more = [("diag", f) for f in ("fawa", "falwa_boxcount", "zonalize", "ks", "envelope", "filter", "spectral", "derivative")]
    more += [("init", ""), ("copy", ""), ("roundtrip", "")]
    ops = universe()
    for j in range(ck.pick(12, 60)):
        w = World()
        cand = ck.rng.sample(ops, 14) + [dict(op=o, m="", s=ck.rng.choice(list(w.S)), s2="", f=f, n=0) for o, f in ck.rng.sample(more, 6)]
        if j % 4 == 0:
            cand.append(dict(op="plot", m="", s=ck.rng.choice(["s1", "s3"]), s2="", f=ck.rng.choice(["summary", "waveguides", "rwp_diagnostics", "wave_activity"]), n=0))
        results, events = {}, []
        with ck.case(f"recorded history {j} of {[key_of(h) for h in cand]}"):
            for _ in range(40):
                h = ck.rng.choice(cand)
                k = key_of(h)
                got = w.do(h)
                known = results.setdefault(k, [])
                tok = next((i for i, x in enumerate(known) if all_same(got, x)), len(known))
                if tok == len(known):
                    known.append([np.array(x) for x in got])
                events.append({"key": k, "tok": tok})
            w.check_inputs(ck, pvs, pvs_spectral)
            log.append({"events": events})
    for v in ck.tlc("HistoryTrace", "HistoryTrace", scen=log):
        ck.validated += 1
        ck.count("trace")
        if v["verdict"] != "ok":
            ck.fail(f"recorded history {v['i']}", v["verdict"], log[v["i"] - 1])


if __name__ == "__main__":
    res = isolated(list(reversed(universe())))
    with open(sys.argv[1], "wb") as f:
        pickle.dump(res, f)
