"""C16: spectral operators (specs/Spectral.tla)."""
import numpy as np
import barotropic as bt
from .core import frac
from .modes import Basis

EPS = 4e-6     # single precision transforms


class Setup:

    def __init__(self, res, ntrunc, r, legfunc="stored", nmax=7, basis=None, **kw):
        self.kw = dict(resolution=res, ntrunc=ntrunc, rsphere=r, legfunc=legfunc, **kw)
        self.grid = bt.Grid(**self.kw)
        self.ntr = self.grid.nlat - 1 if ntrunc is None else ntrunc
        self.r = float(r)
        self.basis = Basis(self.grid.lat, self.grid.lon, nmax) if basis is None else basis

    def another(self, rng):
        """A grid of the same shape on another planet."""
        kw = dict(self.kw)
        kw["rsphere"] = rng.choice([1., 1.4, 0.5, 2., 6371200., 6371700., 3.4e6, 40.])
        kw["legfunc"] = rng.choice(["stored", "computed"])
        return Setup(kw.pop("resolution"), kw.pop("ntrunc"), kw.pop("rsphere"), kw.pop("legfunc"), basis=self.basis, **kw)


def check(ck):
    low = [Setup(22.5, 5, 1.), Setup(15., 5, 6371200.), Setup(20., 5, 3.4e6, "computed"), Setup(180. / 11, 5, 0.5)]
    full = [Setup(22.5, None, 1.), Setup(15., 9, 6371200., "computed"), Setup(20., None, 2.), Setup(10., None, 6371200., omega=0.)]
    if ck.thorough:
        low += [Setup(5., 5, 6371200.), Setup(12., 5, 7.)]
        full += [Setup(2.5, None, 6371200.), Setup(7.2, 20, 1.e7)]
    jobs = [(b, low) for b in ck.tlc("Spectral", "Spectral_" + ck.tier)]
    jobs += [(b, full) for b in ck.tlc("Spectral", "Spectral_full")]
    fine = [Setup(1.25, 119, 6371200., nmax=121), Setup(1.2, 119, 1., nmax=121)]
    short = ck.tlc("Spectral", "Spectral_fine")
    ck.rng.shuffle(short)
    jobs += [(b, fine) for b in short[:ck.pick(40, 200)]]
    nmax = ck.pick(1400, 12000)
    if len(jobs) > nmax:
        head = [j for j in jobs if len(j[0]["prog"]) < 3 or j[1] is not low]
        rest = [j for j in jobs if not (len(j[0]["prog"]) < 3 or j[1] is not low)]
        ck.rng.shuffle(rest)
        jobs = head + rest[:nmax - len(head)]
    for j, (b, setups) in enumerate(jobs):
        s = setups[j % len(setups)]
        if setups is not fine and ck.rng.random() < 0.5:
            s = s.another(ck.rng)
            ck.count("other planets")
        replay(ck, b, s, j)
        ck.count("short waves", setups is fine)
        ck.replayed += 1
    extra(ck, low[1], full)
    ck.require(laplace=100, poisson=100, diffusion=100, gradient=50, wind=100, vorticity=25, divergence=25,
               spectral=200, gridded=200, truncated=50, **{"other planets": 100, "short waves": 20})


def orders(deg, rng, nlon=1000):
    """Distinct modes of the given degrees."""
    out = []
    for n in deg:
        while True:
            m = rng.randint(0, min(n, (nlon - 1) // 2))
            mode = (n, m, rng.randint(0, 1) if m > 0 else 0)
            if mode not in out:
                out.append(mode)
                break
    return out


def replay(ck, b, s, j):
    modes = orders(b["deg"], ck.rng, s.grid.nlon)
    g, r = s.grid, s.r
    names = [o["op"] for o in b["prog"]]
    with ck.case(f"{'/'.join(names)} on {s.kw}", modes=modes, **{k: b[k] for k in ("start", "prog", "ntr")}):
        # keep all fields of the program in the range of single precision
        ps = [w["p"] for w in b["steps"]] + [0]
        amp = r**(-1. * (max(ps) + min(ps)))
        start = {m: amp * frac(c) for m, c in zip(modes, b["start"])}
        f = s.basis.field(start)
        if j % 4 == 1:
            f = f.astype(np.float32)
        elif j % 4 == 2:
            f = np.asfortranarray(f)
        cur, rep = f, "grid"            # current representation in the code
        err = 0.                        # bound of the rounding error so far
        scale = np.max(np.abs(f))
        for o, want in zip(b["prog"], b["steps"]):
            spectral = ck.rng.random() < 0.5 and o["op"] != "gradient"
            coefs = {m: amp * frac(c) * r**(2. * want["p"]) for m, c in zip(modes, want["f"])}
            coefg = {m: amp * frac(c) * r**(2. * want["p"]) for m, c in zip(modes, want["g"])}
            k = o["op"]
            eig = np.arange(s.ntr + 1) * np.arange(1., s.ntr + 2) / r**2
            a = frac(o["a"])
            keep = np.array(cur, copy=True) if not isinstance(cur, tuple) else tuple(np.array(c, copy=True) for c in cur)
            src = cur
            ck.count("spectral" if spectral else "gridded")
            if k in ("laplace", "poisson", "diffusion", "transform"):
                if spectral and rep == "grid":
                    src = g.to_spectral(src)
                if not spectral and rep == "spec":
                    src = g.to_grid(src)
                if k == "transform":
                    got, gain = (src if spectral else g.to_grid(g.to_spectral(src))), 1.
                elif k == "laplace":
                    got, gain = (g.laplace_spectral(src) if spectral else g.laplace(src)), eig[-1]
                elif k == "poisson":
                    func = g.solve_poisson_spectral if spectral else g.solve_poisson
                    if a == 0. and ck.rng.random() < 0.5:
                        got = func(src)
                    else:
                        got = func(src, a / r**2) if ck.rng.random() < 0.5 else func(src, op_add=a / r**2)
                    e = eig + a / r**2
                    gain = 1. / np.min(np.abs(e[1:] if a == 0 else e))
                else:
                    dt = ck.rng.choice([1., 600, 0.25, 86400.])
                    coeff = a * r**(2. * o["k"]) / dt
                    func = g.solve_diffusion_spectral if spectral else g.solve_diffusion
                    got = func(src, coeff, dt) if o["k"] == 1 and ck.rng.random() < 0.5 else func(src, coeff=coeff, dt=dt, order=o["k"])
                    gain = 1.
            elif k == "gradient":
                src = src if rep == "grid" else g.to_grid(src)
                got, gain = g.gradient(src), np.sqrt(eig[-1]) * 2
            elif k == "wind":
                sp = src if rep == "spec" else g.to_spectral(src)
                gr = src if rep == "grid" else g.to_grid(src)
                kk = o["k"]
                vort = (sp if ck.rng.random() < 0.5 else gr) * kk
                div = (sp if ck.rng.random() < 0.5 else gr) * a
                got, gain = g.wind(vort, div), r * max(abs(kk), abs(a))
            else:
                u, v = cur
                i = ("vorticity", "divergence").index(k)
                both = ck.rng.random() < 0.4
                if both:
                    got = (g.vorticity_divergence_spectral if spectral else g.vorticity_divergence)(u, v)
                    ck.expect("vorticity_divergence returns two fields", len(got) == 2)
                    got = got[i]
                else:
                    got = getattr(g, k + ("_spectral" if spectral else ""))(u, v)
                gain = np.sqrt(eig[-1]) * 4
            for c0, c1 in zip(keep if isinstance(keep, tuple) else (keep,), cur if isinstance(cur, tuple) else (cur,)):
                ck.expect(f"{k} does not modify its input", np.array_equal(c0, c1))
            # compare with the specification
            if want["kind"] == "scalar":
                ref = s.basis.field(coefs)
                rep = "spec" if spectral else "grid"
                val = g.to_grid(got) if spectral else got
                err = err * gain + EPS * max(np.max(np.abs(ref)), scale * gain)
                ck.expect_close(f"result of {k}{'_spectral' if spectral else ''}", np.asarray(val, float), ref, rel=0., atol=err)
                scale = np.max(np.abs(ref))
                cur = got
            else:
                ru, rv = s.basis.wind(coefs, coefg, r)
                ck.expect(f"{k} returns two components", len(got) == 2)
                mag = max(np.max(np.abs(ru)), np.max(np.abs(rv)))
                err = err * gain + EPS * max(mag, scale * gain)
                ck.expect_close(f"zonal component of {k}", got[0], ru, rel=0., atol=err)
                ck.expect_close(f"meridional component of {k}", got[1], rv, rel=0., atol=err)
                scale = mag
                cur, rep = tuple(got), "vec"
            ck.count(k)
            ck.count("truncated", any(m[0] > s.ntr and c != 0 for m, c in start.items()))
        ck.sample({"setup": s.kw, "prog": b["prog"], "expected": b["steps"][-1]}, 3)


def extra(ck, s, full):
    """Parameters at the boundary of the operator table."""
    g, r = s.grid, s.r
    for order in (1, 2, 3, 4, 5, 6):
        with ck.case(f"diffusion of order {order} with Earth's radius"):
            n = 4
            f = s.basis.y((n, 2, 1))
            lam = n * (n + 1) / r**2
            for a in (0.5, 1e-3):
                got = g.solve_diffusion(f, a / lam**order / 1200., 1200., order)
                ck.expect_close("damping factor", got, f / (1. + a), rel=1e-5)
    for s in full:
        with ck.case(f"highest resolved degrees on {s.kw}"):
            n = min(s.ntr, 7)
            for m in (0, 1, n - 1):
                f = s.basis.y((n, m, 0))
                ck.expect_close("laplace", s.grid.laplace(f), -n * (n + 1) / s.r**2 * f, rel=1e-4)
                ck.expect_close("transform", s.grid.to_grid(s.grid.to_spectral(f)), f, rel=1e-5)
                gx, gy = s.grid.gradient(f)
                ex, ey = s.basis.grad({(n, m, 0): 1.}, s.r)
                mag = max(np.max(np.abs(ex)), np.max(np.abs(ey)))
                ck.expect_close("zonal gradient", gx, ex, rel=1e-4, scale=mag)
                ck.expect_close("meridional gradient", gy, ey, rel=1e-4, scale=mag)
