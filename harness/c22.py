"""C22: waveguides (specs/Waveguide.tla)."""
import numpy as np
import barotropic as bt
from barotropic import diagnostics
from .core import frac

INF = 1000000


def check(ck):
    grids = {}
    def grid(n):
        if n not in grids:
            grids[n] = bt.Grid(180. / n, rsphere=ck.rng.choice([6371200., 1.]), omega=ck.rng.choice([7.292e-5, 1.]))
        return grids[n]
    jobs = ck.tlc("Waveguide", "Waveguide_" + ck.tier)
    if ck.thorough:
        ck.rng.shuffle(jobs)
        jobs = jobs[:60000]
    scen = []
    for _ in range(ck.pick(400, 4000)):
        n = ck.rng.choice([2, 3, 6, 9, 12, 18, 36, 72, 7, 25])
        hi = ck.rng.choice([3, 10, 200])
        inf = ck.rng.choice([0, 0.1, 0.4])
        ks = [ck.rng.choice([INF, -INF]) if ck.rng.random() < inf else ck.rng.randint(-hi, hi) for _ in range(n + 1)]
        if ck.rng.random() < 0.3:   # like a real profile: infinite or zero at the poles
            ks[0], ks[-1] = ck.rng.choice([0, INF]), ck.rng.choice([0, INF, -INF])
        scen.append(dict(ks=ks, k=ck.rng.choice([0, 1, 2, 7, ck.rng.randint(-hi, hi)])))
    for b in jobs + ck.tlc("WaveguideScen", "WaveguideScen", scen=scen):
        replay(ck, b, grid(len(b["ks"]) - 1))
        ck.replayed += 1
    states(ck)
    misc(ck, grid(12))
    ck.require(strict=500, ties=500, several=100, infinite=500, state_guides=5)


def profile(values, variant, unit):
    x = np.array([np.inf if v == INF else -np.inf if v == -INF else v * unit for v in values], dtype=float)
    if variant == "real":
        return x
    if variant == "complex":
        out = np.zeros(len(x), dtype=complex)
        out.real = np.where(x >= 0, x, 0)
        out.imag = np.where(x < 0, -x, 0)
        return out
    return x.tolist()


def number(k, variant):
    if variant == "complex" and k < 0:
        return complex(0, -k)
    return complex(k) if variant == "complex" else k


def replay(ck, b, g):
    n = len(b["ks"]) - 1
    unit = ck.rng.choice([1, 1, 1, 0.25, 2. ** 10])
    variant = ck.rng.choice(["complex", "complex", "real", "list"])
    ks = profile(b["ks"], variant, unit)
    k = b["k"] * unit
    k = number(k, "complex") if k < 0 or ck.rng.random() < 0.2 else int(k) if k == int(k) and ck.rng.random() < 0.7 else k
    dlat = 180. / n
    with ck.case("waveguides", n=n, ks=b["ks"], k=b["k"], unit=unit, variant=variant):
        got = diagnostics.extract_ks_waveguides(ks, k, g) if ck.rng.random() < 0.5 else diagnostics.extract_ks_waveguides(ks, k=k, grid=g)
        got = [tuple(float(x) for x in w) for w in got]
        ck.expect("pairs", all(len(w) == 2 for w in got), observed=got)
        ck.expect("never NaN", not np.any(np.isnan(np.array(got, dtype=float))), observed=got)
        pos = [((90 - a) / dlat, (90 - c) / dlat) for a, c in got]
        want = [(frac(a), frac(c)) for a, c in b["guides"]]
        if b["strict"]:
            if ck.expect("number of waveguides", len(got) == len(want), b["guides"], got) and want:
                ck.expect_close("boundaries", np.array(pos), np.array(want), rel=1e-9, scale=n)
            ck.count("strict")
        else:
            bands(ck, b, pos, n)
            ck.count("ties")
        ck.count("several", len(want) > 1)
        ck.count("infinite", any(abs(v) == INF for v in b["ks"]))
        ck.sample(b, 2)


def bands(ck, b, pos, n):
    """Where values equal k or opposite infinities are next to each other"""
    eps = 1e-9 * n
    for i, (a, c) in enumerate(pos):
        ck.expect("within the sphere", -eps <= a and c <= n + eps, observed=pos)
        ck.expect("from north to south", a <= c + eps, observed=pos)
        if i > 0:
            touch = round(a)
            ck.expect("disjoint", pos[i-1][1] < a - eps or (abs(pos[i-1][1] - a) <= eps and abs(a - touch) <= eps and b["ks"][touch] < b["k"]), observed=pos)
    for p in b["above"]:
        if p:
            a, c = frac(p[0]), frac(p[1])
            ck.expect("latitudes with Ks > k", any(x <= a + eps and c <= y + eps for x, y in pos), (a, c), pos)
    for a, c in pos:
        for j, p in enumerate(b["notbelow"]):
            x, y = max(a, j), min(c, j + 1)
            if y - x > 2 * eps:
                ck.expect("no latitudes with Ks < k", p and frac(p[0]) - eps <= x and y <= frac(p[1]) + eps, p, (x, y))


def states(ck):
    for _ in range(ck.pick(12, 80)):
        n = ck.rng.choice([12, 18, 36])
        g = bt.Grid(180. / n)
        phi = g.phi
        amp, center, width = ck.rng.uniform(15, 40), ck.rng.uniform(-50, 50), ck.rng.uniform(8, 20)
        u = 12 * np.cos(phi) + amp * np.cos(phi) * np.exp(-0.5 * (np.rad2deg(phi) - center) ** 2 / width ** 2)
        st = bt.State.from_wind(g, 0, np.repeat(u[:, None], g.nlon, 1), np.zeros(g.shape))
        k = ck.rng.choice([2, 3, 4, 5, 4.5])
        with ck.case("state", n=n, amp=amp, center=center, width=width, k=k):
            ks = np.asarray(st.stationary_wavenumber)
            x = np.where(ks.imag > 0, -ks.imag, ks.real)
            if np.any(np.abs(x - k) < 1e-6):
                continue
            want = []
            inside = x > k
            for j in range(n + 1):
                if inside[j] and (j == 0 or not inside[j-1]):
                    want.append([0. if j == 0 else float(j - 1) if np.isinf(x[j]) else float(j) if np.isinf(x[j-1]) else j - 1 + (k - x[j-1]) / (x[j] - x[j-1])])
                if inside[j] and (j == n or not inside[j+1]):
                    want[-1].append(float(n) if j == n else float(j + 1) if np.isinf(x[j]) else float(j) if np.isinf(x[j+1]) else j + (k - x[j]) / (x[j+1] - x[j]))
            for got in (st.extract_ks_waveguides(k), st.extract_ks_waveguides(k=k), diagnostics.extract_ks_waveguides(st, k), diagnostics.extract_ks_waveguides(ks, k, g), diagnostics.extract_ks_waveguides(x, k, grid=g)):
                if ck.expect("number", len(got) == len(want), want, got) and want:
                    ck.expect_close("boundaries", (90 - np.array(got, dtype=float)) * n / 180, np.array(want), rel=1e-9, scale=n)
            ck.count("state_guides", len(want))


def misc(ck, g):
    with ck.case("refused"):
        ck.expect_raises("no grid", Exception, lambda: diagnostics.extract_ks_waveguides(np.ones(g.nlat), 3))
        ck.expect_raises("no wavenumber", Exception, lambda: diagnostics.extract_ks_waveguides(np.ones(g.nlat), grid=g))
