"""C20: Fourier diagnostics (specs/Fourier.tla)."""
import numpy as np
import barotropic as bt
from barotropic import diagnostics
from .c19 import window, direct


def synth(n, q, a, p):
    """Superposition of the waves of one latitude"""
    j = np.arange(n)
    return sum((ak * np.cos(2 * np.pi * (k * j / n + pk / q)) for k, (ak, pk) in enumerate(zip(a, p)) if ak), np.zeros(n))


def envelope(q, table):
    """Evaluate squared envelopes given as elements of the group ring"""
    return np.sqrt(np.maximum(np.dot(np.array(table, dtype=float), np.cos(2 * np.pi * np.arange(q) / q)), 0))


def check(ck):
    grids = {n: bt.Grid(180. / n) for n in (3, 4, 6, 7, 9, 11, 12, 13, 18, 36, 72)}
    small(ck, grids)
    scenarios(ck, grids)
    states(ck, grids)
    wavelet(ck, grids)
    ck.require(envelopes=100, dominants=100, bounds=20, smoothed=10, filtered=20, wavelet=5, shortest=4)


def as_kind(ck, f):
    kind = ck.rng.choice(["float", "float", "float32", "fortran"])
    return ({"float": f, "float32": f.astype(np.float32), "fortran": np.asfortranarray(f)}[kind], 1e-5 if kind == "float32" else 1e-9)


def expect_envelope(ck, clause, got, want, rel, scale):
    # compare the squares: the root amplifies rounding at zeros
    got = np.asarray(got)
    ck.expect(clause + " not negative", np.all(got >= 0), observed=got.min())
    ck.expect_close(clause, got ** 2, np.asarray(want) ** 2, rel=rel, scale=max(scale, 1e-300) ** 2)


def small(ck, grids):
    groups = {}
    for b in ck.tlc("Fourier", "Fourier_" + ck.tier, workers=4):
        groups.setdefault((b["n"], b["lo"], b["hi"]), []).append(b)
        ck.replayed += 1
    for (n, lo, hi), bs in sorted(groups.items()):
        ck.rng.shuffle(bs)
        g = grids[n // 2]
        for s in range(0, len(bs), 40):
            part = bs[s:s + 40]
            f, rel = as_kind(ck, np.array([synth(n, b["q"], b["a"], b["p"]) for b in part]))
            want = np.array([envelope(b["q"], b["env2"]) for b in part])
            rng = ck.rng.choice([(lo, hi), [lo, hi], (np.int64(lo), np.int64(hi)), np.array([lo, hi])])
            with ck.case("small", n=n, range=(lo, hi)):
                keep = f.copy()
                expect_envelope(ck, "envelope", diagnostics.envelope_hilbert(f, rng), want, rel, 10.)
                k = diagnostics.dominant_wavenumber_fourier(f, g, smooth=None, wavenumber_range=rng)
                if ck.expect("one wavenumber per row", np.shape(k) == (len(part),), len(part), np.shape(k)):
                    for b, kk in zip(part, k):
                        if b["decided"]:
                            ck.expect("dominant wavenumber", kk == b["dom"], b["dom"], kk)
                            ck.count("dominants")
                            ck.count("bounds", b["dom"] in (lo, hi))
                ck.expect("field unchanged", np.array_equal(f, keep))
                s = ck.rng.randrange(1, n)
                expect_envelope(ck, "shifted", diagnostics.envelope_hilbert(np.roll(f, s, axis=1), wavenumber_range=rng), np.roll(want, s, axis=1), rel, 10.)
                ck.count("envelopes", len(part))
                ck.sample(part[0], 2)


def boxcar(width, dlon):
    w = int(width / dlon + 0.5)
    return w + 1 - w % 2


def scenarios(ck, grids):
    scen, setups = [], []
    for i in range(ck.pick(40, 250)):
        m = ck.rng.choice([4, 6, 7, 9, 11, 12, 13, 18] if i % 4 or not ck.thorough else [36])
        g = grids[m]
        n = g.nlon
        # with the wave of two gridpoints?
        shortest = ck.rng.random() < 0.45
        top = n // 2 if shortest else n // 2 - 1
        default = n >= 18 and ck.rng.random() < 0.3
        if default:
            lo, hi = 1, 20
        else:
            lo = ck.rng.randint(0, top - 1)
            hi = ck.rng.randint(lo, ck.rng.choice([top, top + 4]))
        rows_a, rows_p = [], []
        for _ in range(m + 1):
            a, p = [0] * (top + 1), [0] * (top + 1)
            inside = ck.rng.sample(range(lo, min(hi, top) + 1), min(ck.rng.randint(1, 3), min(hi, top) + 1 - lo))
            if ck.rng.random() < 0.3:
                inside = list({*inside, lo, min(hi, top)})
            for k, amp in zip(inside, ck.rng.sample(range(1, 9), len(inside))):
                a[k] = amp
            outside = [k for k in range(top + 1) if not lo <= k <= hi]
            for k in ck.rng.sample(outside, min(2, len(outside))):
                a[k] = ck.rng.randint(0, 12)
            if shortest and lo <= top <= hi and a[top]:
                a[top] = 30 if ck.rng.random() < 0.5 else 1 if max(a[max(lo, 1):top], default=0) > 2 else 0
                ck.count("shortest", a[top] == 30)
            if lo == 0:
                a[0] = 5 if hi == 0 else 1 if max(a[1:min(hi, top) + 1], default=0) > 2 else 0
            p = [(ck.rng.choice([0, n // 2]) if k == 0 or 2 * k == n else ck.rng.randrange(n)) if x else 0 for k, x in enumerate(a)]
            if all(x == 0 for x in a[lo:hi + 1]):
                a[max(lo, 1)] = 5
            rows_a.append(a); rows_p.append(p)
        if default:
            kind, width = "boxcar", 10
        else:
            kind, width = "boxcar", ck.rng.choice([1, 3, 5, 2 * m + 3]) * g.dlon
        w = [1] * boxcar(width, g.dlon)
        scen.append(dict(id=i, n=n, q=n, a=rows_a, p=rows_p, lo=lo, hi=hi, w=w, look=ck.rng.sample(range(m + 1), 2 if shortest else 1)))
        setups.append((g, default, width))
    out = {b["id"]: b for b in ck.tlc("FourierScen", "FourierScen", scen=scen)}
    for job, (g, default, width) in zip(scen, setups):
        b = out[job["id"]]
        ck.replayed += 1
        f, rel = as_kind(ck, np.array([synth(job["n"], job["q"], a, p) for a, p in zip(job["a"], job["p"])]))
        rng = (job["lo"], job["hi"])
        total = float(sum(job["w"]))
        with ck.case("scenario", n=job["n"], range=rng, width=width, default=default, a=job["a"], p=job["p"]):
            smooth = np.array(b["smooth"]) / total
            if default:
                ck.expect_close("smoothed (defaults)", diagnostics.dominant_wavenumber_fourier(f, g), smooth, rel=1e-10)
                ck.count("defaults")
            k = diagnostics.dominant_wavenumber_fourier(f, g, smooth=None, wavenumber_range=rng)
            ck.expect("dominant wavenumbers", np.array_equal(k, b["dom"]), b["dom"], k)
            ck.expect_close("smoothed", diagnostics.dominant_wavenumber_fourier(f, g, ("boxcar", width), rng), smooth, rel=1e-10)
            ck.count("smoothed")
            kind = ck.rng.choice(["hann", "triang", ("gaussian", 2.)])
            odd = ck.rng.choice([3, 5, 9])
            w = window(kind, odd)
            ck.expect_close("smoothed by another window", diagnostics.dominant_wavenumber_fourier(f, g, smooth=(kind, odd * g.dlon), wavenumber_range=rng),
                            direct(np.array(b["dom"], dtype=float), w / w.sum(), False), rel=1e-10)
            s = ck.rng.randrange(job["n"])
            ck.expect("phase", np.array_equal(diagnostics.dominant_wavenumber_fourier(np.roll(f, s, axis=1), g, None, rng), b["dom"]))
            for r in job["look"]:
                want = envelope(job["q"], b["env2"][r])
                expect_envelope(ck, "envelope", diagnostics.envelope_hilbert(f, rng)[r], want, rel, 40.)
                expect_envelope(ck, "envelope of one row", diagnostics.envelope_hilbert(f[r:r+1], rng)[0], want, rel, 40.)
                ck.count("envelopes")


def coefficients(f, k):
    n = f.shape[1]
    e = np.exp(-2j * np.pi * k * np.arange(n) / n)
    return np.dot(f, e) * (1 if k == 0 else 2) / n


def hann_filter(f, k):
    """One wavenumber per row; second output: rows without rounding ties"""
    n = f.shape[1]
    out = []
    for x, kk in zip(f, k):
        l = int(n / np.clip(kk, 1, n / 2))
        h = 0.5 * (1 + np.cos(np.pi * np.arange(-l, l + 1) / l))
        out.append(direct(x, h / h.sum(), True))
    ratio = n / np.clip(k, 1, n / 2)
    return np.array(out), (np.abs(ratio - np.round(ratio)) > 1e-6) | (k < 1 - 1e-6) | (k > n / 2 + 1e-6)


def states(ck, grids):
    for i in range(ck.pick(7, 30)):
        # (smoothing of the wavenumber matters on the finer grids only)
        n = (36, 72, 36)[i] if i < 3 else ck.rng.choice([9, 12, 18, 36])
        g = grids[n]
        # waves on a jet, dominated by different wavenumbers north and south
        top = min(n - 2, 12)
        k1, k2, k3 = ck.rng.sample(range(1, top), 3)
        lon, lat = np.deg2rad(g.lon2), np.deg2rad(g.lat2)
        pv = g.fcor2 + 1e-5 * np.cos(lat) ** 2 * (2 * np.cos(k1 * lon + 1) * np.exp(-(lat - .7) ** 2 * 4)
                + 3 * np.sin(k2 * lon) * np.exp(-(lat + .7) ** 2 * 4) + np.cos(k3 * lon + 2) * np.exp(-lat ** 2 * 4))
        st = bt.State(g, 0, pv=pv)
        with ck.case("state", limit=120, n=n, waves=(k1, k2, k3)):
            v = np.array(st.v)
            c = {k: coefficients(v, k) for k in range(0, g.nlon // 2)}
            want = np.abs(sum(c[k][:,None] * np.exp(1j * k * lon) for k in range(2, 11) if k < g.nlon // 2))
            expect_envelope(ck, "envelope of v", st.v_envelope_hilbert, want, 1e-5, np.abs(v).max())
            amp = np.array([np.abs(c[k]) for k in range(1, min(21, g.nlon // 2))])
            order = np.sort(amp, axis=0)
            clear = order[-1] > order[-2] * (1 + 1e-6)
            # the latitudes that contribute to the smoothed profile
            w = boxcar(10, g.dlon)
            fuzzy = direct(1. * ~clear, np.ones(w), False) > 0
            kdom = direct(1. + np.argmax(amp, axis=0), np.ones(w) / w, False)
            filtered, clear = hann_filter(np.array(st.falwa), 2 * kdom)
            clear = (clear | (w == 1)) & ~fuzzy
            ck.expect_close("filtered FALWA", np.asarray(st.falwa_filtered)[clear], filtered[clear], rel=1e-9, scale=np.abs(st.falwa).max())
            ck.count("filtered", np.sum(clear))


def wavelet(ck, grids):
    try:
        import pywt
    except ImportError:
        return
    for i in range(ck.pick(12, 80)):
        n = ck.rng.choice([12, 18, 36] + [72] * ck.thorough)
        if i < 3 or ck.thorough and i < 10:
            # the longest waves on fine grids
            n = (72, 120, 36)[i] if i < 3 else (72, 90, 144, 180)[i % 4]
        if n not in grids:
            grids[n] = bt.Grid(180. / n)
        g = grids[n]
        k = ck.rng.randint(1, min(20, g.nlon // 4)) if i >= 3 else 1 + i // 2
        f = ck.rng.choice([1e-3, 1., 40.]) * np.cos(np.deg2rad(k * g.lon2) + ck.rng.uniform(0, 6))
        f = f * (1 + 0.5 * np.cos(np.deg2rad(g.lat2)))
        if g.nlon // 2 - 1 > 24:
            f = f + ck.rng.choice([0., 3.]) * np.abs(f).max() * np.cos(np.deg2rad(ck.rng.randint(21, g.nlon // 2 - 1) * g.lon2))
        with ck.case("wavelet", n=n, k=k):
            got = diagnostics.dominant_wavenumber_wavelet(f, g, smooth=None)
            ck.expect_close("wave train", got, np.full(g.shape, float(k)), rel=0.1)
            win = ck.rng.choice([None, ("boxcar", 5 * g.dlon, 3 * g.dlon)])
            got = diagnostics.dominant_wavenumber_wavelet(f, g) if win is None else diagnostics.dominant_wavenumber_wavelet(f, g, win)
            ck.expect_close("smoothed wave train", got, np.full(g.shape, float(k)), rel=0.1)
            ck.count("wavelet")
    # different wave trains in different places
    for i in range(ck.pick(4, 20)):
        g = grids[36]
        k1, k2 = ck.rng.choice([(5, 15), (14, 6), (6, 12)])
        k3 = ck.rng.choice([4, 8, 16])
        cut = ck.rng.randrange(g.nlon)
        row = np.where(np.arange(g.nlon) < g.nlon // 2, np.cos(np.deg2rad(k1 * g.lon)), np.cos(np.deg2rad(k2 * g.lon)))
        f = np.tile(np.roll(row, cut), (g.nlat, 1))
        south = g.nlat // 2
        f[south:] = np.cos(np.deg2rad(k3 * g.lon))
        with ck.case("wave trains", k=(k1, k2, k3), cut=cut):
            got = np.roll(diagnostics.dominant_wavenumber_wavelet(f, g, None), -cut, axis=1)
            # centers of the wave trains
            ck.expect_close("west", got[:south,15:22], np.full((south, 7), float(k1)), rel=0.15)
            ck.expect_close("east", got[:south,51:58], np.full((south, 7), float(k2)), rel=0.15)
            ck.expect_close("south", got[south:], np.full((g.nlat - south, g.nlon), float(k3)), rel=0.1)
            # smoothing acts in longitude with the first and in latitude with the second width
            wlon, wlat = 9, 5
            raw = diagnostics.dominant_wavenumber_wavelet(f, g, None)
            want = direct(direct(raw, np.ones(wlat) / wlat, False).T, np.ones(wlon) / wlon, True).T
            ck.expect_close("smoothing", diagnostics.dominant_wavenumber_wavelet(f, g, ("boxcar", wlon * g.dlon, wlat * g.dlon)), want, rel=1e-9)
            ck.count("wave_trains")
