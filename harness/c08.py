"""C08: construction and addition of states (specs/FlowAlgebra.tla)."""
import datetime as D
import numpy as np
import barotropic as bt
from .modes import Basis

# modes of the coefficients of the specification, the first one is the global mean
MODES = [(0, 0, 0), (1, 0, 0), (2, 1, 0), (3, 2, 1), (4, 0, 0), (5, 3, 0), (6, 6, 1)]
UNIT = 1e-6


class Setup:
    def __init__(self, **kw):
        self.kw = kw
        self.grid = bt.Grid(**kw)
        self.basis = Basis(self.grid.lat, self.grid.lon, 7)
        self.planet = 2 * self.grid.omega * np.sin(np.deg2rad(self.grid.lat))[:, None] * np.ones((1, self.grid.nlon))

    def vorticity(self, c):
        return self.basis.field({m: UNIT * a for m, a in zip(MODES, c)})

    def wind(self, rel, div):
        r = self.grid.rsphere
        inv = lambda c: {m: -UNIT * a * r**2 / (m[0] * (m[0] + 1)) for m, a in zip(MODES, c) if m[0] > 0}
        return self.basis.wind(inv(rel), inv(div), r)


TIMES = [lambda k: k, lambda k: 3600. * k - 7200., lambda k: D.datetime(2021, 12, 31) + k * D.timedelta(hours=5)]


def check(ck):
    setups = [Setup(resolution=22.5), Setup(resolution=15., omega=0., rsphere=1.e6), Setup(resolution=20., omega=-3e-5, ntrunc=7),
              Setup(resolution=180. / 11, rsphere=3389500., omega=7.09e-5, legfunc="computed"), Setup(resolution=10., omega=2e-4)]
    jobs = ck.tlc("FlowAlgebra", "FlowAlgebra_" + ck.tier)
    sim = ck.tlc("FlowAlgebra", "FlowAlgebra_sim", args=["-simulate", f"num={ck.pick(6, 60)}", "-depth", "8", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    jobs += sim[:ck.pick(600, 5000)]
    for j, b in enumerate(jobs):
        replay(ck, b, setups[j % len(setups)], TIMES[(j // 5) % len(TIMES)])
        ck.replayed += 1
    ck.require(from_wind=100, from_vorticity=100, from_pv=100, add_wind_field=100, add_wind_state=100,
               add_vorticity_field=100, add_vorticity_state=100)


def replay(ck, b, s, time):
    g = s.grid
    names = [o["op"] for o in b["prog"]]
    with ck.case(f"{' '.join(names)} on {s.kw}", prog=b["prog"]):
        reg, inputs = [], []
        for o, want in zip(b["prog"], b["reg"]):
            k, t = o["op"], time(o["t"])
            if k in ("from_wind", "add_wind_field"):
                arrs = s.wind(o["rel"], o["div"])
            elif k in ("from_vorticity", "add_vorticity_field"):
                arrs = (s.vorticity(o["rel"]),)
            elif k == "from_pv":
                arrs = (s.planet + s.vorticity(o["rel"]),)
            else:
                arrs = ()
            if ck.rng.random() < 0.2:
                arrs = tuple(a.astype(np.float32) for a in arrs)
            inputs.append((arrs, [a.copy() for a in arrs]))
            # access fields of the operands beforehand at random
            for i in (o["i"], o["j"]):
                if i and ck.rng.random() < 0.5:
                    getattr(reg[i - 1], ck.rng.choice(["u", "v", "pv", "vorticity", "streamfunction", "pv_spectral"]))
            if k == "from_wind":
                st = bt.State.from_wind(g, t, *arrs)
            elif k == "from_vorticity":
                st = bt.State.from_vorticity(g, t, arrs[0])
            elif k == "from_pv":
                st = bt.State(g, t, pv=arrs[0]) if ck.rng.random() < 0.6 else bt.State(g, t, pv_spectral=g.to_spectral(arrs[0]))
            elif k == "add_wind_field":
                st = reg[o["i"] - 1].add_wind(arrs)
            elif k == "add_vorticity_field":
                st = reg[o["i"] - 1].add_vorticity(arrs[0])
            elif k == "add_wind_state":
                st = reg[o["i"] - 1].add_wind(reg[o["j"] - 1])
            else:
                st = reg[o["i"] - 1].add_vorticity(reg[o["j"] - 1])
            ck.count(k)
            ck.expect(f"{k} returns a State", isinstance(st, bt.State))
            ck.expect(f"{k} keeps the grid", st.grid is g or st.grid == g)
            ck.expect(f"{k}: time", st.time == time(want["time"]), time(want["time"]), st.time)
            reg.append(st)
            compare(ck, s, k, st, want)
        # nothing that was made or passed in before has changed
        for k, st, want in zip(names, reg, b["reg"]):
            ck.expect(f"time of earlier state ({k}) unchanged", st.time == time(want["time"]))
            compare(ck, s, "earlier state made by " + k, st, want)
        for arrs, copies in inputs:
            ck.expect("input arrays unchanged", all(np.array_equal(a, c) for a, c in zip(arrs, copies)))
        ck.sample({"prog": b["prog"], "reg": b["reg"]}, 2)


def compare(ck, s, what, st, want):
    vo = s.vorticity(want["rel"])
    pv = want["planet"] * s.planet + vo
    mag = np.max(np.abs(pv)) + 2 * s.grid.omega.__abs__() + 1e-6
    ck.expect_close(f"{what}: pv", st.pv, pv, rel=1e-5, scale=mag)
    ck.expect_close(f"{what}: vorticity", st.vorticity, vo, rel=1e-5, scale=mag)
    ck.expect_close(f"{what}: vo", st.vo, vo, rel=1e-5, scale=mag)
    ck.expect_close(f"{what}: avo", st.avo, pv, rel=1e-5, scale=mag)
    u, v = s.wind(want["rel"], [0] * len(MODES))
    wmag = mag * s.grid.rsphere
    ck.expect_close(f"{what}: u", st.u, u, rel=1e-5, scale=wmag)
    ck.expect_close(f"{what}: v", st.v, v, rel=1e-5, scale=wmag)
