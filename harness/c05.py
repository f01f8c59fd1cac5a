"""C05: composite forcing terms (specs/Forcing.tla)."""
import functools
import numpy as np
import barotropic as bt
from . import runs

AXES = [e for e in runs.EMBEDDINGS if e.name in ("int hours, offset", "float quarter seconds", "unix time", "datetime/half day", "datetime/subsecond",
                                                 "datetime before 1970", "numpy float")]


class Field(bt.rhs.RHS):
    def __init__(self, f):
        self.f = f
        self.evaluated = 0
    def __call__(self, state):
        self.evaluated += 1
        return self.f

class OfPV(bt.rhs.RHS):
    def __init__(self, a, b):
        self.a, self.b = a, b
    def __call__(self, state):
        return self.a * state.pv + self.b

class Obj:
    """Callable without the base class."""
    def __init__(self, f):
        self.f = f
    def __call__(self, state):
        return self.f
    def method(self, state):
        return self.f


class Setup:
    def __init__(self, g, emb, kind):
        self.g, self.emb = g, emb
        j, i = np.indices(g.shape)
        # two classes of points: distinguished by both, by latitude, or by longitude only
        self.kind = kind
        self.first = {"both": i + j, "lat": j, "lon": i}[kind] % 2 == 0

    def points(self, a, b):
        return np.where(self.first, float(a), float(b))

    def leaf(self, l, rng):
        k, a, b, emb = l["kind"], l["a"], l["b"], self.emb
        if k == "field":
            return Field(self.points(a, b))
        if k == "callable":
            f = self.points(a, b)
            return rng.choice([lambda state: f, Obj(f), Obj(f).method, functools.partial(lambda x, state: x, f)])
        if k == "pv":
            return OfPV(a, b)
        if k == "time":
            return lambda state: a * emb.ticks(state.time) + b
        if k == "switch":
            return bt.rhs.TimedOffSwitch(emb.time(a))
        ref = self.points(b, -b)
        # anything that can be broadcast to the field
        if self.kind == "lat" and rng.random() < 0.7:
            ref = ref[:, :1]
        if self.kind == "lon" and rng.random() < 0.7:
            ref = ref[0] if rng.random() < 0.5 else ref[:1]
        return bt.rhs.LinearRelaxation(a, ref) if rng.random() < 0.5 else bt.rhs.LinearRelaxation(rate=float(a), reference_pv=ref)

    def state(self, s):
        return bt.State(self.g, self.emb.time(s["time"]), pv=np.full(self.g.shape, float(s["pv"])))


def check(ck):
    setups = [Setup(runs.grid(30. if i % 2 else 20.), e, kind) for kind in ("both", "lat", "lon") for i, e in enumerate(AXES)]
    jobs = ck.tlc("Forcing", "Forcing_" + ck.tier)
    if ck.thorough:
        ck.rng.shuffle(jobs)
        jobs = jobs[:6000]
    sim = ck.tlc("Forcing", "Forcing_sim", args=["-simulate", f"num={ck.pick(12, 60)}", "-depth", "10", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    jobs += sim[:ck.pick(700, 5000)]
    for j, b in enumerate(jobs):
        replay(ck, b, setups[j % len(setups)])
        ck.replayed += 1
    switches(ck)
    ck.require(sum=500, product=500, switch=100, relax=100, callable=25, shared=100, model=50)


def text(prog, k):
    o = prog[k - 1]
    if o["op"] == "leaf":
        l = o["leaf"]
        return f"{l['kind']}({l['a']},{l['b']})"
    return f"({text(prog, o['i'])} {o['op']} {text(prog, o['j'])})"


def replay(ck, b, s):
    prog, val = b["prog"], b["val"]
    with ck.case(f"{text(prog, len(prog))} [{s.emb.name}]", **b):
        reg = []
        field = []    # is the value a field or one number?
        for o in prog:
            if o["op"] == "leaf":
                field.append(o["leaf"]["kind"] not in ("time", "switch"))
                reg.append(s.leaf(o["leaf"], ck.rng))
                ck.count(o["leaf"]["kind"])
            else:
                x, y = reg[o["i"] - 1], reg[o["j"] - 1]
                field.append(field[o["i"] - 1] or field[o["j"] - 1])
                reg.append(x + y if o["op"] == "+" else x * y)
                ck.expect("combination is a forcing term", isinstance(reg[-1], bt.rhs.RHS), observed=type(reg[-1]))
                ck.count("sum" if o["op"] == "+" else "product")
                ck.count("shared", o["i"] == o["j"])
        states = [s.state(st) for st in b["states"]]
        todo = [(k, i) for k in range(len(prog)) if prog[k]["op"] != "leaf" or prog[k]["term"] for i in range(len(states))]
        for rnd in range(2):
            ck.rng.shuffle(todo)
            for k, i in (todo if rnd == 0 else todo[:6]):
                exp = s.points(*val[k][i])
                got = reg[k](states[i])
                mag = max([1.] + [abs(x) for v in val[:k + 1] for x in v[i]])
                ck.expect(f"shape of {text(prog, k + 1)} at state {i + 1}", np.shape(got) == s.g.shape or not field[k], s.g.shape, np.shape(got))
                ck.expect_close(f"value of {text(prog, k + 1)} at state {i + 1}", np.broadcast_to(got, s.g.shape), exp, rel=0, atol=2e-5 * mag**1.0 * 4)
        ck.sample(b, 2)
        # the same in a model
        if ck.rng.random() < 0.2:
            i = ck.rng.randrange(len(states))
            f = s.points(*val[-1][i])
            dt = s.emb.tick
            kw = dict(diffusion_coeff=0.)
            if not field[-1]:
                return
            got = bt.BarotropicModel(rhs=reg[-1], **kw).euler(states[i], dt)
            exp = bt.BarotropicModel(rhs=lambda state: f, **kw).euler(states[i], dt)
            mag = max([1.] + [abs(x) for v in val for x in v[i]])
            ck.expect_close("PV after a step with the term", got.pv, exp.pv, rel=0, atol=2e-4 * mag * max(1., s.emb.seconds))
            ck.count("model")


def switches(ck):
    """Exact switch-off time: on every axis, one unit of resolution around it."""
    import datetime as D
    g = runs.grid(30.)
    cases = [(10, [9, 10, 11]), (0.1, [0., 0.1, np.nextafter(0.1, 1.)]), (-5., [-6., -5., -4.999]), (0, [-1, 0, 1]), (1.7e9, [1.7e9 - 0.5, 1.7e9, 1.7e9 + 0.25]),
             (D.datetime(2020, 1, 1), [D.datetime(2020, 1, 1) + k * D.timedelta(microseconds=1) for k in (-1, 0, 1)]),
             (D.datetime(1950, 1, 1, 6), [D.datetime(1950, 1, 1, 6) + k * D.timedelta(days=1) for k in (-1, 0, 1)]),
             (np.float64(3.), [2.5, 3, 3.5])]
    pv = np.zeros(g.shape)
    for tend, times in cases:
        for t, want in zip(times, (1, 1, 0)):
            with ck.case(f"switch until {tend} at {t}"):
                for sw in (bt.rhs.TimedOffSwitch(tend), bt.rhs.TimedOffSwitch(tend=tend)):
                    ck.expect("value", sw(bt.State(g, t, pv=pv)) == want, want, sw(bt.State(g, t, pv=pv)))
                    for term in (sw * Field(np.full(g.shape, 3.)), Field(np.full(g.shape, 3.)) * sw):
                        f = term(bt.State(g, t, pv=pv))
                        ck.expect("switched term", np.shape(f) == g.shape and np.all(np.asarray(f) == 3. * want), want, f)
