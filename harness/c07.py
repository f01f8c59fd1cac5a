"""C07: derived fields of states (specs/StateFields.tla)."""
import numpy as np
import barotropic as bt
from barotropic import diagnostics as diag
from .modes import Basis

MODES = {
    1: {(2, 1, 0): 3e-5, (3, 2, 1): -2e-5, (3, 0, 0): 1.5e-5, (2, 2, 0): 1e-5},
    2: {(3, 3, 0): 4e-5, (1, 1, 1): -1e-5, (2, 0, 0): -2e-5},
    3: {(3, 1, 1): 2.5e-5, (1, 0, 0): 1e-5, (3, 2, 0): 2e-5},
}


class Setup:

    def __init__(self, **kw):
        self.kw = kw
        self.g = bt.Grid(**kw)
        self.b = Basis(self.g.lat, self.g.lon, 4)
        self.base = {}

    def rel(self, c):
        return dict(MODES[c])

    def exact(self, c):
        """Fields with a closed form, from the coefficients."""
        g, r = self.g, self.g.rsphere
        rel = self.rel(c)
        psi = {m: -a * r**2 / (m[0] * (m[0] + 1)) for m, a in rel.items()}
        vo = self.b.field(rel)
        pl = 2 * g.omega * np.sin(np.deg2rad(g.lat))[:, None]
        q = vo + pl
        u, v = self.b.wind(psi, {}, r)
        qx, qy = self.b.grad(rel, r)
        qy = qy + 2 * g.omega * np.cos(np.deg2rad(g.lat))[:, None] / r
        return {
            "pv": q, "avo": q, "pv_spectral": q, "vorticity": vo, "vo": vo, "vorticity_spectral": vo,
            "u": u, "v": v, "streamfunction": self.b.field(psi),
            "pv_flux_spectral": u * qx + v * qy,
            "enstrophy": 0.5 * q**2, "eddy_enstrophy": 0.5 * (q - q.mean(axis=1)[:, None])**2,
            "energy": 0.5 * (u**2 + v**2)}

    def make(self, c, ctor, time=0.):
        g = self.g
        e = self.exact(c)
        if ctor == "grid":
            args = (e["pv"],)
            st = bt.State(g, time, pv=args[0])
        elif ctor == "spectral":
            args = (g.to_spectral(e["pv"]),)
            st = bt.State(g, time, pv_spectral=args[0])
        elif ctor == "wind":
            args = (e["u"], e["v"])
            st = bt.State.from_wind(g, time, *args)
        else:
            args = (e["vo"],)
            st = bt.State.from_vorticity(g, time, args[0])
        return st, args, [np.array(a) for a in args]

    def grid_arrays(self):
        g = self.g
        return [np.array(x) for x in (g.lon, g.lat, g.lon2, g.lat2, g.lam, g.phi, g.lam2, g.phi2, g.fcor, g.fcor2, g.fcor2_spectral,
                                      g.gridpoint_area)] + [g.rsphere, g.omega, g.nlat, g.nlon, g.dlon, g.dlat]


def access(st, f):
    if f == "waveguides":
        x = st.extract_ks_waveguides(2)
        return np.array([list(w) for w in x], float).reshape(-1, 2)
    return getattr(st, f)


def baseline(ck, s, c, ctor):
    """Every field accessed on a fresh state, checked against its definition."""
    key = (c, ctor)
    if key in s.base:
        return s.base[key]
    g, out = s.g, {}
    exact = s.exact(c)
    for f in ("pv", "avo", "pv_spectral", "u", "v", "streamfunction", "pv_flux_spectral", "vorticity", "vo", "vorticity_spectral",
              "enstrophy", "eddy_enstrophy", "energy", "pv_zonalized", "falwa", "fawa", "falwa_filtered",
              "v_envelope_hilbert", "stationary_wavenumber", "waveguides"):
        with ck.case(f"{f} of a fresh state ({ctor}) on {s.kw}", content=c):
            st, args, copies = s.make(c, ctor)
            got = access(st, f)
            if f in exact:
                val = g.to_grid(got) if f.endswith("spectral") else got
                scale = np.max(np.abs(exact[f])) if f not in ("vorticity", "vo", "vorticity_spectral", "eddy_enstrophy") else \
                    np.max(np.abs(exact["pv" if f[0] == "v" else "enstrophy"]))
                ck.expect_close(f"{f} follows its definition", val, exact[f], rel=2e-5 if f != "pv_flux_spectral" else 2e-4, scale=scale)
            else:
                # diagnostics of the fields of another fresh state
                o, _, _ = s.make(c, ctor)
                q, u, v = np.array(o.pv), np.array(o.u), np.array(o.v)
                if f == "pv_zonalized":
                    ref = g.zonalize(q)
                elif f == "falwa":
                    ref = diag.falwa(q, g)
                elif f == "fawa":
                    ref = diag.falwa(q, g).mean(axis=1)
                elif f == "v_envelope_hilbert":
                    ref = diag.envelope_hilbert(v, (2, 10))
                elif f == "falwa_filtered":
                    ref = diag.filter_by_wavenumber(diag.falwa(q, g), 2 * diag.dominant_wavenumber_fourier(v, g))
                else:
                    # definition with zonal means
                    um, qm = u.mean(axis=1), q.mean(axis=1)
                    ks2 = np.cos(g.phi)**2 * g.rsphere * g.derivative_meridional(qm)
                    inf = np.where(ks2 > 0, np.inf, np.where(ks2 < 0, -np.inf, 0.))
                    ks2 = np.where(np.abs(um) < 0.001, inf, ks2 / np.where(um == 0, 1, um))
                    ref = np.sqrt(ks2.astype(complex))
                    if f == "waveguides":
                        ref = np.array(diag.extract_ks_waveguides(ref, 2, g), float).reshape(-1, 2)
                if f in ("stationary_wavenumber",):
                    fin = np.isfinite(ref)
                    ck.expect("stationary wavenumber: finite values", np.array_equal(np.isfinite(got), fin), ref, got)
                    ck.expect_close("stationary wavenumber", np.asarray(got)[fin], ref[fin], rel=1e-3)
                else:
                    ck.expect_close(f"{f} follows its definition", got, ref, rel=1e-3)
            ck.expect("constructor arguments unchanged", all(np.array_equal(a, b) for a, b in zip(args, copies)))
            out[f] = np.array(got)
            ck.count("definition")
    s.base[key] = out
    return out


def same(ck, clause, got, want):
    g, w = np.asarray(got), np.asarray(want)
    ck.expect(f"{clause}: shape", g.shape == w.shape, w, g)
    fin = np.isfinite(w)
    ck.expect(f"{clause}: not finite", np.array_equal(np.isfinite(g), fin), w, g)
    if fin.any():
        s = np.max(np.abs(w[fin]))
        ck.expect(clause, np.max(np.abs(g[fin] - w[fin])) <= 2e-6 * s, w, g)


def check(ck):
    setups = [Setup(resolution=22.5), Setup(resolution=15., rsphere=3.e6, omega=3e-5)]
    arrays = [s.grid_arrays() for s in setups]
    for s in setups:
        for c in (1, 2, 3):
            for ctor in ("grid", "spectral", "wind", "vorticity"):
                baseline(ck, s, c, ctor)
    if ck.fails:
        return
    jobs = ck.tlc("StateFields", "StateFields_" + ck.tier)
    if ck.thorough:
        ck.rng.shuffle(jobs)
        jobs = jobs[:6000]
    sim = ck.tlc("StateFields", "StateFields_sim", args=["-simulate", f"num={ck.pick(60, 300)}", "-depth", "11", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    jobs += sim[:ck.pick(300, 2500)]
    for j, b in enumerate(jobs):
        replay(ck, b, setups[0] if j % 4 else setups[1])
        ck.replayed += 1
    for s, a in zip(setups, arrays):
        with ck.case(f"grid {s.kw} after all accesses"):
            ck.expect("grid unchanged", all(np.array_equal(x, y) for x, y in zip(a, s.grid_arrays())))
    ck.require(definition=200, access=1500, memoized=100, several_states=100)


def replay(ck, b, s):
    with ck.case(f"{' '.join(str(h['s']) + '.' + h['f'] for h in b['hist'])} ({','.join(b['ctor'])}) on {s.kw}", content=b["content"]):
        made = [s.make(c, k, time=i) for i, (c, k) in enumerate(zip(b["content"], b["ctor"]))]
        got, copies = [], []
        for h in b["hist"]:
            i = h["s"] - 1
            x = access(made[i][0], h["f"])
            base = baseline(ck, s, b["content"][i], b["ctor"][i])
            same(ck, f"{h['f']} after {[k['f'] for k in b['hist'][:len(got)] if k['s'] == h['s']]}", x, base[h["f"]])
            got.append(x)
            copies.append(np.array(x))
            ck.count("access")
        for h, x, c in zip(b["hist"], got, copies):
            ck.expect(f"array returned for {h['f']} is not modified by later accesses", np.array_equal(x, c, equal_nan=True), c, x)
        for i, (st, args, copy) in enumerate(made):
            ck.expect("constructor arguments unchanged", all(np.array_equal(a, c) for a, c in zip(args, copy)))
            ck.expect("time and grid unchanged", st.time == i and st.grid is s.g)
            same(ck, "pv in the end", st.pv, baseline(ck, s, b["content"][i], b["ctor"][i])["pv"])
        fs = [(h["s"], h["f"]) for h in b["hist"]]
        ck.count("memoized", len(set(fs)) < len(fs))
        ck.count("several_states", len({x[0] for x in fs}) > 1)
        ck.sample(b, 2)
