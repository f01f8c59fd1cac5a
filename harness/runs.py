"""Execution of model runs described by integer ticks (shared by C01, C02, C03, C04)."""
import datetime as D
import numpy as np
from .core import Mismatch
import barotropic as bt


class Embedding:
    """Maps the integer time axis of the specification to real times."""

    def __init__(self, name, base, tick, seconds, saves=True):
        self.name, self.base, self.tick, self.seconds, self.saves = name, base, tick, seconds, saves

    def time(self, k):
        return self.base + k * self.tick

    def step(self, k):
        return k * self.tick

    def ticks(self, t):
        """Back to ticks (exact for the embeddings used, except drift which is rounded)."""
        d = (t - self.base) / self.tick
        return int(round(d)) if abs(d - round(d)) < 1e-6 else None


DT0 = D.datetime(2020, 2, 28, 18, 30)
EMBEDDINGS = [
    Embedding("int seconds", 0, 1, 1),
    Embedding("int hours, offset", 7200, 3600, 3600),
    Embedding("float quarter seconds", 0., 0.25, 0.25),
    Embedding("float, negative offset", -1.5e6, 1800., 1800.),
    Embedding("unix time", 1.7e9, 0.5, 0.5),
    Embedding("milliseconds", 0., 2.**-10, 2.**-10),
    Embedding("numpy float", np.float64(1e5), np.float64(900.), 900.),
    Embedding("datetime/half day", DT0, D.timedelta(hours=12), 43200., saves=False),
    Embedding("datetime/days", DT0, D.timedelta(days=2, hours=1), 49 * 3600., saves=False),
    Embedding("datetime/subsecond", DT0, D.timedelta(milliseconds=250), 0.25, saves=False),
    Embedding("datetime before 1970", D.datetime(1960, 12, 31, 23, 0), D.timedelta(minutes=20), 1200., saves=False),
]

_grids = {}
def grid(res=45., **kw):
    kw.setdefault("omega", OMEGA)
    key = (res, tuple(sorted(kw.items())))
    if key not in _grids:
        _grids[key] = bt.Grid(res, **kw)
    return _grids[key]


OMEGA = 1e-8   # slow rotation: even time steps of days are numerically stable

def start_pv(g, k, dts):
    """A smooth PV field without symmetries, scaled such that runs with steps of dts seconds are stable."""
    return g.fcor2 + 0.04 / dts * (np.cos(g.phi2)**2 * np.cos(2 * g.lam2 + 0.3 + k)
                                   + 0.6 * np.cos(g.phi2) * np.sin(g.phi2) * np.sin(g.lam2 + 2 * k))


class Forcing:
    """User-defined forcing (plain callable): changes the PV at a given rate, records evaluations."""

    def __init__(self, g, per_step, dts):
        self.field = per_step / dts * np.cos(g.phi2) * np.cos(g.lam2 + 0.1)
        self.times = []

    def __call__(self, state):
        self.times.append(state.time)
        return self.field


def model_for(g, dts):
    f = Forcing(g, 0.006 / dts, dts)
    return bt.BarotropicModel(rhs=f, diffusion_order=2, diffusion_coeff=0.), f


def reference(model, state, dt, n):
    """States 0..n of the trajectory by composing single steps."""
    old, new = state, model.euler(state, dt)
    out = [old]
    for _ in range(n):
        old, new = model.leapfrog(old, new)
        out.append(old)
    return out


def check_pair(ck, res):
    ck.expect("run returns a pair", isinstance(res, tuple) and len(res) == 2, observed=res)
    ck.expect("final state is a State", isinstance(res[0], bt.State), observed=res[0])
    ck.expect("saved states are a StateList", isinstance(res[1], bt.StateList), observed=res[1])
    return res
