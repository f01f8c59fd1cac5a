"""C09: the StateList container (specs/Container.tla)."""
import copy, pickle
import numpy as np
import barotropic as bt
from . import runs


# Grids that are not equal to the 30 degree grid of the other states
OTHER = [dict(resolution=45.), dict(resolution=30., rsphere=1e6), dict(resolution=30., omega=1e-3), dict(resolution=30., ntrunc=3)]


class World:
    def __init__(self, rng, other=0):
        kw = dict(OTHER[other])
        kw.setdefault("omega", runs.OMEGA)
        a, a2, b = runs.grid(30.), bt.Grid(30., omega=runs.OMEGA), bt.Grid(**kw)
        self.grids = {1: a, 2: a, 5: a, 3: a2, 4: b}
        self.obj = {}
        for k, g in self.grids.items():
            pv = g.fcor2 + 1e-5 * k * np.cos(g.phi2)**2 * np.sin(2 * g.lam2 + k) + 1e-6 * np.sin(g.phi2)
            self.obj[k] = bt.State(g, 100. * k, pv=pv)
        self.pv = {k: np.array(s.pv) for k, s in self.obj.items()}

    def get(self, k, rng):
        if k == 0:
            s = self.obj[1]
            return rng.choice([None, 3.5, "state", s.pv, [s], (s, s), bt.StateList([s]), s.grid, {"pv": s.pv}, bt.State])
        return self.obj[k]


def same_state(ck, what, x, s):
    """An equal state (not necessarily the same object)."""
    ck.expect(f"{what}: State", isinstance(x, bt.State), observed=type(x))
    ck.expect(f"{what}: time", x.time == s.time, s.time, x.time)
    ck.expect(f"{what}: grid", x.grid == s.grid)
    ck.expect_close(f"{what}: pv", x.pv, s.pv, rel=1e-7)


def check_list(ck, w, what, sl, seq, identical=True):
    ck.expect(f"{what}: StateList", isinstance(sl, bt.StateList), observed=type(sl))
    ck.expect(f"{what}: length", len(sl) == len(seq), len(seq), len(sl))
    items = list(sl)
    ck.expect(f"{what}: iteration", len(items) == len(seq))
    for x, k in zip(items, seq):
        if identical:
            ck.expect(f"{what}: states in order", x is w.obj[k], k, x)
        else:
            same_state(ck, what, x, w.obj[k])


def check(ck):
    jobs = [b for b in ck.tlc("Container", "Container_" + ck.tier)]
    table = [b for b in jobs if "table" in b]
    jobs = [b for b in jobs if "table" not in b]
    sim = ck.tlc("Container", "Container_sim", args=["-simulate", f"num={ck.pick(4, 20)}", "-depth", "9", "-seed", str(ck.seed)])
    ck.rng.shuffle(sim)
    sim = sim[:ck.pick(300, 1500)]
    if ck.thorough:
        ck.rng.shuffle(jobs)
        jobs = jobs[:6000]
    worlds = [World(ck.rng, i) for i in range(len(OTHER))]
    w = worlds[0]
    for j, b in enumerate(jobs + sim):
        replay(ck, worlds[j % len(worlds)] if j % 2 else ck.rng.choice(worlds), b, full=j % ck.pick(5, 5) == 0)
        ck.replayed += 1
    seen = set()
    for b in table:
        key = tuple(b["kinds"])
        if key not in seen:
            seen.add(key)
            collect(ck, w, b)
            ck.replayed += 1
    broadcast(ck, w)
    ck.require(make=100, concat=50, extend=50, copy=10, deepcopy=10, pickle=5, refused=100, kinds=500, broadcast=50)


def replay(ck, w, b, full):
    with ck.case("; ".join(f"{o['op']}({o['i'] or ''},{o['j'] or ''},{o['seq']})" for o in b["prog"]), prog=b["prog"]):
        reg = []
        exact = []
        for o in b["prog"]:
            args = [w.get(k, ck.rng) for k in o["seq"]]
            given = list(args)
            form = ck.rng.choice([lambda: args, lambda: tuple(args), lambda: iter(args), lambda: (x for x in args)])
            op = o["op"]
            def run():
                if op == "make":
                    return bt.StateList(form())
                x = reg[o["i"] - 1]
                if op == "concat":
                    return x + reg[o["j"] - 1]
                if op == "extend":
                    return x + form()
                if op == "copy":
                    return copy.copy(x)
                if op == "deepcopy":
                    return copy.deepcopy(x)
                if op == "list":
                    return bt.StateList(list(x))
                return pickle.loads(pickle.dumps(x, protocol=ck.rng.randint(2, pickle.HIGHEST_PROTOCOL)))
            if o["out"] == 0:
                ck.expect_raises(f"{op} with {o['seq']}", Exception, run)
                ck.count("refused")
            else:
                reg.append(run())
                ok = op not in ("deepcopy", "pickle")
                for k in ("i", "j"):
                    if o[k]:
                        ok = ok and exact[o[k] - 1]
                exact.append(ok)
                seq = b["reg"][len(reg) - 1]
                check_list(ck, w, f"result of {op}", reg[-1], seq, ok)
                # changing the sequence it was made of afterwards has no effect
                args.append(None)
                if len(args) > 1:
                    args[0] = None
            ck.count(op)
            del given
        for i, (sl, seq, ok) in enumerate(zip(reg, b["reg"], exact)):
            check_list(ck, w, f"list {i + 1} in the end", sl, seq, ok)
        if b["last"] and full:
            observe(ck, w, reg[-1], b["last"][0], exact[-1])
        ck.sample(b, 2)


def observe(ck, w, sl, o, exact):
    def eq(what, x, k):
        if exact:
            ck.expect(what, x is w.obj[k], k, x)
        else:
            same_state(ck, what, x, w.obj[k])
    n = o["len"]
    for k, name in o["index"]:
        eq(f"index {k}", sl[k], name)
        eq(f"numpy index {k}", sl[np.int64(k)], name)
    for k in (n, -n - 1, n + 5):
        ck.expect_raises(f"index {k}", IndexError, lambda: sl[k])
    for a, b, d, names in o["slices"]:
        got = sl[a:b:d]
        ck.expect(f"length of slice {a}:{b}:{d}", len(got) == len(names), names, got)
        for x, name in zip(got, names):
            eq(f"slice {a}:{b}:{d}", x, name)
    for x, name in zip(reversed(sl), o["reversed"]):
        eq("reversed", x, name)
    ck.expect("truth value", bool(sl) == (n > 0))
    if n:
        g = w.grids[o["seq"][0]]
        ck.expect("grid", sl.grid == g)
        ck.expect_raises("item assignment", Exception, lambda: sl.__setitem__(0, w.obj[1]))
        ck.expect_raises("item deletion", Exception, lambda: sl.__delitem__(0))
        if exact:
            ck.expect("membership", all(w.obj[k] in sl for k in o["seq"]) and object() not in sl)
            ck.expect("index of first state", sl.index(w.obj[o["seq"][0]]) == 0 and sl.count(w.obj[o["seq"][-1]]) == o["seq"].count(o["seq"][-1]))
        alias = sl
        alias += sl
        ck.expect("augmented addition does not change the list", len(sl) == n and len(alias) == 2 * n)
        # attributes
        pvs = np.array([w.pv[k] for k in o["seq"]])
        got = sl.pv
        ck.expect("attribute is an array", isinstance(got, np.ndarray))
        ck.expect_close("pv", got, pvs, rel=1e-6)
        ck.expect_close("time", sl.time, np.array([100. * k for k in o["seq"]]), rel=0)
        ck.expect_close("u", sl.u, np.array([w.obj[k].u for k in o["seq"]]), rel=1e-5)


KIND = {"array": lambda s: s.pv[0] * 2, "int": lambda s: int(s.time), "float": lambda s: np.float64(s.time), "complex": lambda s: s.time + 1.5j,
        "big": lambda s: 2**53 + 1 + int(s.time), "state": lambda s: s.add_vorticity(s),
        "str": lambda s: f"t{s.time}", "none": lambda s: None, "tuple": lambda s: (s.time, "x"), "list": lambda s: [s.time], "dict": lambda s: {"t": s.time}}


def collect(ck, w, b):
    kinds = b["kinds"]
    sl = bt.StateList([w.obj[k] for k in (2, 1, 5)[:len(kinds)]])
    with ck.case(f"results of kinds {kinds}"):
        calls = []
        def func(state, *args, **kwargs):
            calls.append((state, args, kwargs))
            return KIND[kinds[len(calls) - 1]](state)
        got = sl.map(func, 1, key="x")
        ck.expect("function is called once per state, in order, with the arguments",
                  len(calls) == len(sl) and all(c[0] is s and c[1] == (1,) and c[2] == {"key": "x"} for c, s in zip(calls, sl)))
        if not kinds:
            # an empty container of any type
            ck.expect("empty", len(got) == 0 and list(got) == [], observed=got)
            return
        typ = {"array": np.ndarray, "statelist": bt.StateList, "list": list}[b["container"]]
        ck.expect("container", type(got) is typ, typ, type(got))
        ck.expect("number of results", len(got) == len(sl))
        numbers = kinds and set(kinds) <= {"int", "float", "complex", "big"}
        if numbers and set(kinds) <= {"int", "big"}:
            ck.expect("integers remain integers", got.dtype.kind == "i", "i", got.dtype)
        for x, k, s in zip(got, kinds, sl):
            want = KIND[k](s)
            if numbers and "big" in kinds and not set(kinds) <= {"int", "big"}:
                # one dtype for all: large integers are rounded to float
                want = complex(want)
            if k == "state":
                same_state(ck, "result", x, want)
            elif k == "array":
                ck.expect("result", np.array_equal(x, want), want, x)
            else:
                ck.expect("result", (x is None) == (want is None) and np.all(x == want), want, x)
        ck.count("kinds")


def broadcast(ck, w):
    """Attributes and methods of State on a list."""
    sl = bt.StateList([w.obj[k] for k in (5, 1, 2)])
    before = list(sl)
    attrs = ["pv", "avo", "pv_spectral", "u", "v", "streamfunction", "vorticity", "vo", "vorticity_spectral", "enstrophy", "eddy_enstrophy",
             "energy", "pv_flux_spectral", "pv_zonalized", "falwa", "fawa", "falwa_filtered", "v_envelope_hilbert", "stationary_wavenumber", "time"]
    for a in attrs:
        with ck.case(f"attribute {a} of a list"):
            got = getattr(sl, a)
            ck.expect("array", isinstance(got, np.ndarray), observed=type(got))
            want = np.array([getattr(s, a) for s in before])
            ck.expect("values of the states in order", got.shape == want.shape and np.array_equal(got, want, equal_nan=True), want, got)
            ck.count("broadcast")
    f = w.obj[2].pv * 0.1
    uv = (w.obj[2].u * 0.5, w.obj[2].v * 0.5)
    for name, args, kw in (("add_vorticity", (f,), {}), ("add_wind", (uv,), {}), ("add_vorticity", (), {"other": w.obj[5]}), ("add_wind", (w.obj[1],), {})):
        with ck.case(f"method {name} of a list"):
            got = getattr(sl, name)(*args, **kw)
            ck.expect("StateList", isinstance(got, bt.StateList) and len(got) == 3, observed=got)
            for x, s in zip(got, before):
                same_state(ck, name, x, getattr(s, name)(*args, **kw))
            ck.count("broadcast", 10)
    model = bt.BarotropicModel(diffusion_coeff=1e13)
    for kw in (dict(dt=40., tend=650.), dict(dt=40., tend=650., save_every=100.), dict(dt=50., tend=600., save_every=60.), dict(dt=200., tend=100.), dict(dt=50., tend=250.)):
        with ck.case("running a list", **kw):
            last, steps = sl.run(model, **kw)
            ck.expect("final states", isinstance(last, bt.StateList) and len(last) == len(before) and len(steps) == len(before), observed=(last, steps))
            for s, x, st in zip(before, last, steps):
                want, saved = s.run(model, **kw)
                same_state(ck, "final state", x, want)
                ck.expect("saved states", isinstance(st, bt.StateList) and len(st) == len(saved), len(saved), st)
                for a, b in zip(st, saved):
                    same_state(ck, "saved state", a, b)
            ck.count("broadcast", 10)
    with ck.case("method with results that are neither arrays nor numbers nor states"):
        got = sl.extract_ks_waveguides(2)
        ck.expect("list", type(got) is list and got == [s.extract_ks_waveguides(2) for s in before], observed=got)
        ck.count("broadcast", 10)
    with ck.case("unknown attribute"):
        ck.expect_raises("unknown attribute", AttributeError, lambda: sl.no_such_field)
        ck.expect("hasattr", not hasattr(sl, "no_such_field") and hasattr(sl, "pv"))
    with ck.case("user-defined attributes of different kinds"):
        for i, s in enumerate(before):
            s.member = i
            s.label = "m%d" % i
        ck.expect("numbers", np.array_equal(sl.member, [0, 1, 2]) and isinstance(sl.member, np.ndarray))
        ck.expect("strings", sl.label == ["m0", "m1", "m2"])
        for s in before:
            del s.member, s.label
    with ck.case("empty list"):
        e = bt.StateList([])
        ck.expect("length", len(e) == 0 and list(e) == [] and not e and e.grid is None)
        ck.expect("results", len(e.pv) == 0 and len(e.map(lambda s: s)) == 0)
        for name, args in (("add_vorticity", (f,)), ("add_wind", (uv,)), ("extract_ks_waveguides", (2,))):
            ck.expect(f"method {name}", list(getattr(e, name)(*args)) == [])
        for kw in (dict(dt=40., tend=650.), dict(dt=40., tend=650., save_every=100.)):
            last, steps = e.run(model, **kw)
            ck.expect("run", list(last) == [] and list(steps) == [], observed=(last, steps))
        ck.expect("concatenation", list(e + sl) == before and list(sl + e) == before)
    ck.expect("list unchanged", list(sl) == before)
