"""C27: initial conditions (specs/Presets.tla)."""
import datetime as D
from fractions import Fraction
import numpy as np
import barotropic as bt
from .core import frac

TIMES = [
    {1: 3600, 2: -7}, {1: 0.25, 2: 1e9 + 0.5}, {1: np.float64(1e5), 2: np.int64(3)},
    {1: D.datetime(2021, 12, 31, 23, 30), 2: D.datetime(1950, 1, 1, 0, 0, 0, 5)},
]


class World:
    def __init__(self, n, **kw):
        self.n, self.grid, self.full = n, bt.Grid(180. / n, **kw), "ntrunc" not in kw
        g = self.grid
        self.c, self.s = np.cos(np.deg2rad(g.lat)), np.sin(np.deg2rad(g.lat))
        self.c[[0, -1]] = 0.
        self.rows = None

    def poly(self, P):
        return sum((float(frac(t["k"])) * self.c ** t["p"] * self.s ** t["q"] for t in P), np.zeros(self.n + 1))

    def jet(self, j, rows):
        g = self.grid
        a, center, width = (float(frac(j[k])) for k in ("amplitude", "center", "width"))
        bell = a * np.exp(-0.5 * ((g.lat - center) / width) ** 2)
        w = {k: np.array([float(frac(r[k])) for r in rows]) for k in ("bell", "north", "south")}
        u = w["bell"] * bell + w["north"] * bell[0] + w["south"] * bell[-1]
        # derivative by latitude (radians); weights are linear
        slope = -(g.lat - center) / width ** 2 * bell + (w["north"][0] - w["north"][-1]) / 180 * bell[0] + (w["south"][0] - w["south"][-1]) / 180 * bell[-1]
        slope = np.rad2deg(slope)
        metric = np.empty_like(u)
        metric[1:-1] = u[1:-1] * (self.s / np.where(self.c == 0, 1, self.c))[1:-1]
        metric[[0, -1]] = -slope[[0, -1]]
        return u, (metric - slope) / g.rsphere

    def flow(self, f, rows):
        """Closed forms of u and PV"""
        g = self.grid
        w = float(frac(f["w"]))
        u = self.poly(f["poly"]) + w * g.omega * g.rsphere * self.c
        pv = 2 * g.omega * self.s * (1 + w) + self.poly(f["vorticity"]) / g.rsphere + float(frac(f["mean"])) * 1e-5
        for j in f["jets"]:
            du, dpv = self.jet(j, rows)
            u, pv = u + du, pv + dpv
        return u, pv


def smooth(calls):
    return not any(c["name"] == "gaussian_jet" for c in calls)


def check(ck):
    kws = [{}, {"omega": 1e-5, "rsphere": 1e6}, {"legfunc": "computed"}, {"omega": 0.}, {"rsphere": 7e7}]
    ns = {"quick": [36], "thorough": [60]}[ck.tier]
    worlds = {n: [World(n, **kw) for kw in kws[:3] + [{"ntrunc": n // 2}]] for n in ns}
    worlds[24] = [World(24, **kw) for kw in kws]
    jobs = ck.tlc("Presets", "Presets_" + ck.tier)
    ck.rng.shuffle(jobs)
    sim = ck.tlc("Presets", "Presets_sim", args=["-simulate", f"num={ck.pick(20, 200)}", "-depth", "8", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    for b in strata(jobs, ck.pick(15, 100))[:ck.pick(800, 6000)] + strata(sim, 3)[:ck.pick(400, 4000)]:
        replay(ck, b, ck.rng.choice(worlds[b["n"]]))
        ck.replayed += 1
    for n in ck.pick([4, 5, 9, 31, 72], [3, 4, 5, 6, 7, 9, 11, 18, 31, 72, 90]):
        defaults(ck, n)
    ck.require(refused=75, jets=50, held=100, solid=50, rest=30, given_u=30, given_pv=30, profiles=400)


def strata(jobs, n):
    """At most n behaviours with the same sequence of presets"""
    seen, out = {}, []
    for b in jobs:
        key = tuple(c["name"] for c in b["calls"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= n:
            out.append(b)
    return out


def replay(ck, b, w):
    g = w.grid
    times = ck.rng.choice(TIMES)
    states = []
    with ck.case("presets", calls=b["calls"], n=b["n"], grid=repr(g)):
        closed = [w.flow(f, b["rows"]) for f in b["flows"]]
        k = 0
        for call in b["calls"]:
            name, args = call["name"], call["args"]
            a, bb, c = (convert(ck, args[x]) for x in "abc")
            if name == "refused":
                refuse(ck, w, args["why"])
                continue
            kw = {} if call["time"] == 0 else {"time": times[call["time"]]}
            t = kw.get("time", 0.)
            profile = keep = None
            # positional and keyword arguments
            pos = ck.rng.random() < 0.3
            args3 = lambda *xs: ((g, t) + tuple(v for _, v in xs), {}) if pos else ((g,), dict(kw, **dict(xs)))
            if name == "motionless":
                p, q = args3()
                st = bt.init.motionless(*p, **q)
                ck.count("rest")
            elif name == "solid_body_rotation":
                p, q = args3(("amplitude", a))
                st = bt.init.solid_body_rotation(*p, **q)
                ck.count("solid")
            elif name == "gaussian_jet":
                p, q = args3(("amplitude", a), ("center_lat", bb), ("stdev_lat", c))
                st = bt.init.gaussian_jet(*p, **q)
                ck.count("jets")
            elif name == "held_1985":
                p, q = args3(("A", a), ("B", bb), ("C", c))
                st = bt.init.held_1985(*p, **q)
                ck.count("held")
            else:
                key = "pv" if "pv" in name or name == "planetary" else "u"
                if name == "planetary":
                    profile = float(frac(args["a"])) * 2 * g.omega * w.s
                elif key == "pv":
                    profile = closed[k][1].copy()
                elif name.endswith("sum"):
                    profile = closed[args["i"] - 1][0] + closed[args["j"] - 1][0]
                else:
                    profile = closed[args["i"] - 1][0].copy()
                if np.all(profile == profile.astype(int)) and ck.rng.random() < 0.5:
                    profile = profile.astype(int)
                elif ck.rng.random() < 0.3:
                    profile = profile.astype(np.float32)
                keep = profile.copy()
                st = bt.init.zonally_symmetric(g, **{key: profile}, **kw)
                ck.count("given_" + key)
            inspect(ck, st, w, closed[k], t, call, smooth(b["calls"]))
            if profile is not None:
                ck.expect("profile unchanged", np.array_equal(profile, keep))
            states.append((st, np.array(st.pv), np.array(st.u), t))
            k += 1
        for st, pv, u, t in states:
            ck.expect("later calls change nothing", np.array_equal(st.pv, pv) and np.array_equal(st.u, u) and st.time == t)
        ck.sample(b["calls"], 3)


def convert(ck, x):
    f = frac(x)
    if f == int(f) and ck.rng.random() < 0.5:
        return int(f)
    return ck.rng.choice([float, np.float64])(float(f))


def inspect(ck, st, w, closed, t, call, smooth):
    g = w.grid
    name = call["name"]
    u, pv = closed
    ck.expect(name + ": state", isinstance(st, bt.State), observed=type(st))
    ck.expect(name + ": grid", st.grid is g or st.grid == g, g, st.grid)
    ck.expect(name + ": time", st.time == t and isinstance(st.time, D.datetime) == isinstance(t, D.datetime), t, st.time)
    ck.expect(name + ": shape", st.pv.shape == g.shape and st.u.shape == g.shape and st.v.shape == g.shape, g.shape, st.pv.shape)
    # scales that take the rounding of planetary vorticity into account
    speed = max(np.abs(u).max(), g.omega * g.rsphere, 0.1 * np.abs(pv).max() * g.rsphere, 1e-3)
    rotation = max(np.abs(pv).max(), speed / g.rsphere, 2 * g.omega)
    ck.expect_close(name + ": no meridional wind", st.v, np.zeros(g.shape), atol=1e-4 * speed, rel=0)
    ck.expect_close(name + ": zonally symmetric u", st.u, np.broadcast_to(st.u[:, :1], g.shape), rel=1e-5, scale=speed)
    ck.expect_close(name + ": zonally symmetric pv", st.pv, np.broadcast_to(st.pv[:, :1], g.shape), rel=1e-5, scale=rotation)
    ck.expect_close(name + ": no wind at the poles", st.u[[0, -1]], np.zeros((2, g.nlon)), atol=1e-4 * speed, rel=0)
    ck.count("profiles")
    if name.startswith("zonally_symmetric pv") or name in ("planetary", "motionless"):
        if w.full and smooth:
            ck.expect_close(name + ": pv", st.pv, np.broadcast_to(pv[:, None], g.shape), rel=2e-5, scale=rotation)
        same = bt.State(g, 0, pv=np.repeat(pv[:, None], g.nlon, axis=1))
        ck.expect_close(name + ": pv as given", st.pv, same.pv, rel=2e-5, scale=rotation)
    else:
        # exactly the transform of the documented wind
        same = bt.State.from_wind(g, 0, np.repeat(u[:, None], g.nlon, axis=1), np.zeros(g.shape))
        ck.expect_close(name + ": pv as made from wind", st.pv, same.pv, rel=1e-4, scale=rotation)
    ck.expect_close(name + ": wind as expected", st.u, same.u, rel=1e-4, scale=speed)
    if w.full and smooth:
        ck.expect_close(name + ": wind", st.u, np.broadcast_to(u[:, None], g.shape), rel=2e-3, scale=speed)
        ck.expect_close(name + ": absolute vorticity", st.pv[2:-2], np.broadcast_to(pv[2:-2, None], st.pv[2:-2].shape), rel=1e-2, scale=rotation)
    elif w.full and not name.startswith("zonally_symmetric pv"):
        ck.expect_close(name + ": jet", st.u, np.broadcast_to(u[:, None], g.shape), rel=2e-2, scale=speed)


def refuse(ck, w, why):
    g = w.grid
    u = 10 * w.c
    pv = 2 * g.omega * w.s
    f = bt.init.zonally_symmetric
    if why == "both":
        ck.expect_raises("both", Exception, lambda: f(g, u=u, pv=pv))
        ck.expect_raises("both", Exception, lambda: f(g, 3, u, pv))
    elif why == "none":
        ck.expect_raises("none", Exception, lambda: f(g))
        ck.expect_raises("none", Exception, lambda: f(g, time=5))
    else:
        change = {"too long": lambda x: np.append(x, 0.), "too short": lambda x: x[1:], "field": lambda x: np.repeat(x[:, None], g.nlon, axis=1),
                  "column": lambda x: x[:, None], "row": lambda x: x[None, :], "number": lambda x: x[1], "empty": lambda x: x[:0],
                  "longitudes": lambda x: np.resize(x, g.nlon)}[why]
        ck.expect_raises("u: " + why, Exception, lambda: f(g, u=change(u)))
        ck.expect_raises("pv: " + why, Exception, lambda: f(g, pv=change(pv)))
    ck.count("refused")


def defaults(ck, n):
    """Documented default arguments, any resolution"""
    g = bt.Grid(180. / n)
    c, s = np.cos(g.phi2), np.sin(g.phi2)
    bell = np.exp(-0.5 * ((g.lat2 - 45) / 5) ** 2)
    cases = {"motionless": 0 * c, "solid_body_rotation": 15 * c, "held_1985": 25 * c - 30 * c ** 3 + 300 * c ** 6 * s ** 2}
    # jet: linear function through the values at the poles
    cases["gaussian_jet"] = 20 * (bell - bell[0, 0] * (90 + g.lat2) / 180 - bell[-1, 0] * (90 - g.lat2) / 180)
    for name, u in cases.items():
        with ck.case("defaults", preset=name, n=n):
            st = getattr(bt.init, name)(g)
            want = bt.State.from_wind(g, 0, u, 0 * u)
            ck.expect("time", st.time == 0, 0, st.time)
            ck.expect("grid", st.grid == g)
            ck.expect_close("pv", st.pv, want.pv, rel=1e-5)
            ck.expect_close("u", st.u, want.u, rel=1e-5, scale=100)
            ck.expect_close("v", st.v, 0 * u, rel=0, atol=1e-3)
