"""C30: texts that describe objects (specs/Display.tla, DisplayTime.tla, DisplayMap.tla)."""
import datetime as D
import re
import numpy as np
import barotropic as bt

COEFFS = [1e15, 0., 33333.333, 1.23456789e-7, 7, np.float64(2.5e26)]
SUP = str.maketrans("⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻", "0123456789+-")


class Leaf(bt.rhs.RHS):
    def __init__(self, name):
        self.name = name

    def __call__(self, state):
        return 0. * state.pv

    def __repr__(self):
        return self.name


class Plain:
    """No forcing term, but callable"""
    __init__, __call__, __repr__ = Leaf.__init__, Leaf.__call__, Leaf.__repr__


# names as displayed
LEAVES = {"A": (Leaf, "Sponge"), "B": (Leaf, "Wave[k=5]"), "C": (Leaf, "C"), "b": (Plain, "mask"), "c": (Plain, "<lambda>")}


def check(ck):
    jobs = ck.tlc("Display", "Display_" + ck.tier)
    ck.rng.shuffle(jobs)
    jobs = jobs[:ck.pick(350, 4000)]
    jobs += ck.tlc("Display", "Display_sim", args=["-simulate", f"num={ck.pick(150, 1500)}", "-depth", "15", "-seed", str(ck.seed)])
    for b in jobs:
        program(ck, b)
        ck.replayed += 1
    for b in ck.tlc("DisplayTime", "DisplayTime_" + ck.tier):
        time(ck, b)
        ck.replayed += 1
    datetimes(ck)
    grids = {}
    jobs = ck.tlc("DisplayMap", "DisplayMap_" + ck.tier)
    ck.rng.shuffle(jobs)
    jobs = jobs[:ck.pick(800, 8000)]
    some = ck.tlc("DisplayMap", "DisplayMap_some_" + ck.tier)
    ck.rng.shuffle(some)
    for b in jobs + some[:ck.pick(800, 8000)]:
        region(ck, b, grids)
        ck.replayed += 1
    descriptions(ck)
    ck.require(terms=50, models=100, times=500, datetimes=50, regions=500, empty=20, wrap=50, grids=30)


# -- terms and models ---------------------------------------------------------

def squeeze(text):
    return re.sub(r"\s+", "", text)


def program(ck, b):
    with ck.case("program", prog=b["prog"]):
        terms, models, settings = [], [], []
        tokens = {n: t for n, (_, t) in LEAVES.items()}
        text = lambda k: squeeze("".join(tokens.get(t, t) for t in b["texts"][k - 1]))
        for o in b["prog"]:
            op = o["op"]
            if op == "leaf":
                cls, name = LEAVES[o["name"]]
                terms.append(cls(name))
            elif op in "+*":
                x, y = terms[o["i"] - 1], terms[o["j"] - 1]
                terms.append(x + y if op == "+" else x * y)
            elif op == "make":
                rhs = terms[o["j"] - 1] if o["j"] else None
                s = dict(order=o["k"], coeff=COEFFS[o["i"] - 1], rhs=o["j"])
                kw = {} if rhs is None and ck.rng.random() < 0.5 else {"rhs": rhs}
                models.append(bt.BarotropicModel(diffusion_order=s["order"], diffusion_coeff=s["coeff"], **kw))
                settings.append(s)
            elif op == "order":
                models[o["k"] - 1].diffusion_order = settings[o["k"] - 1]["order"] = o["i"]
            elif op == "coeff":
                models[o["k"] - 1].diffusion_coeff = settings[o["k"] - 1]["coeff"] = COEFFS[o["i"] - 1]
            elif op == "rhs":
                models[o["k"] - 1].rhs = terms[o["i"] - 1] if o["i"] else None
                settings[o["k"] - 1]["rhs"] = o["i"]
            elif op == "show term":
                got = squeeze(show(ck, terms[o["k"] - 1]))
                ck.expect("term", got == text(o["k"]), text(o["k"]), got)
                ck.count("terms")
            else:
                s = settings[o["k"] - 1]
                m = models[o["k"] - 1]
                got = show(ck, m)
                ck.expect("settings are still the same", m.diffusion_order == s["order"] and m.diffusion_coeff == s["coeff"] and m.rhs is (terms[s["rhs"] - 1] if s["rhs"] else None))
                model(ck, got, s, text(s["rhs"]) if s["rhs"] else None)
        ck.sample(b["texts"], 2)


def show(ck, x):
    ways = [repr, str, "{}".format, "{!r}".format]
    got = ck.rng.choice(ways)(x)
    ck.expect("text", type(got) is str, str, type(got))
    ck.expect("displaying changes nothing", ck.rng.choice(ways)(x) == got, observed=got)
    return got


def model(ck, got, s, rhs):
    exponents = [int(e.translate(SUP)) for e in re.findall("[⁰¹²³⁴⁵⁶⁷⁸⁹]+", re.sub("s⁻¹", "", got))]
    ck.expect("order of the diffusion", len(exponents) == 2 and all(e == 2 * s["order"] for e in exponents), 2 * s["order"], got)
    number = re.search(r"κ\s*=\s*(\S+)", got)
    ck.expect("coefficient", bool(number) and abs(float(number.group(1)) - s["coeff"]) <= 5.1e-6 * abs(s["coeff"]), s["coeff"], got)
    forcing = re.search(r"and\s+RHS\s*=(.*)", got, re.S)
    ck.expect("forcing", bool(forcing) and squeeze(forcing.group(1)) == (rhs or "None"), rhs, got)
    ck.count("models")


# -- times ----------------------------------------------------------------------

GRID = bt.Grid(45.)
SECONDS = {"s": 1, "min": 60, "h": 3600, "d": 86400}


def time_of(ck, t):
    s = bt.State(GRID, t, pv=np.zeros(GRID.shape))
    got = show(ck, s)
    ck.expect("time is still the same", type(s.time) is type(t) and s.time == t, t, s.time)
    m = re.fullmatch(r"<barotropic\.State (.*)>", got)
    ck.expect("state", bool(m), observed=got)
    return m.group(1)


def time(ck, b):
    x = b["t"] / 20.
    forms = [float, np.float64] + ([int, np.int64] if x == int(x) else [])
    with ck.case("time", t=x):
        got = time_of(ck, ck.rng.choice(forms)(x))
        m = re.fullmatch(r"t = (-?\d+)\.(\d) (s|min|h|d)", got)
        ck.expect("number and unit", bool(m), "t = number unit", got)
        tenths = int(m.group(1) + m.group(2))
        ck.expect("unit", m.group(3) == b["unit"], b["unit"], got)
        ck.expect("value", tenths in b["tenths"], b["tenths"], got)
        ck.count("times")
        ck.sample(dict(b, shown=got), 4)


def datetimes(ck):
    for i in range(ck.pick(100, 1000)):
        t = D.datetime(ck.rng.randint(1, 9999), ck.rng.randint(1, 12), ck.rng.randint(1, 28), ck.rng.choice([0, 12, 23]), ck.rng.choice([0, 59]), ck.rng.choice([0, 1, 59]),
                       ck.rng.choice([0, 0, 1, 500000, 999999]))
        if i % 4 == 0:
            t = t.replace(tzinfo=D.timezone(D.timedelta(minutes=ck.rng.choice([0, 90, -300]))))
        with ck.case("datetime", t=repr(t)):
            got = time_of(ck, t)
            ck.expect("reads back", D.datetime.fromisoformat(got) == t and D.datetime.fromisoformat(got).tzinfo == t.tzinfo, repr(t), got)
            ck.count("datetimes")


# -- grids and regions ------------------------------------------------------------

def grid_lines(ck, got, n, kw):
    value = dict(re.findall(r"^\s*(.+?)\s*=\s*(.+?)\s*$", got, re.M))
    ck.expect("shape", squeeze(value["(nlat, nlon)"]) == f"({n + 1},{2 * n})", (n + 1, 2 * n), got)
    ck.expect("resolution", abs(float(value["resolution"].rstrip("°")) - 180. / n) < 1e-9, 180. / n, got)
    ck.expect("radius", value["rsphere"].endswith(" m") and float(value["rsphere"][:-2]) == kw.get("rsphere", 6371200.), kw, got)
    ck.expect("rotation", value["omega"].endswith(" s⁻¹") and float(value["omega"][:-4]) == kw.get("omega", 7.292e-5), kw, got)
    ck.expect("truncation", int(value["ntrunc"]) == kw.get("ntrunc", n), kw, got)
    ck.expect("Legendre functions", value["legfunc"] == kw.get("legfunc", "stored"), kw, got)
    ck.count("grids")


def some_kwargs(ck, n):
    kw = {}
    if ck.rng.random() < 0.6:
        kw["rsphere"] = ck.rng.choice([1., 6.371e6, 3389500, 71492000., 0.1])
    if ck.rng.random() < 0.6:
        kw["omega"] = ck.rng.choice([0., 1.75865e-4, -3e-7, 1])
    if ck.rng.random() < 0.5:
        kw["ntrunc"] = ck.rng.randint(1, n)
    if ck.rng.random() < 0.5:
        kw["legfunc"] = ck.rng.choice(["stored", "computed"])
    return kw


def descriptions(ck):
    for _ in range(ck.pick(50, 400)):
        n = ck.rng.choice([3, 4, 6, 7, 10, 11, 18, 36, 73])
        kw = some_kwargs(ck, n)
        with ck.case("grid", n=n, **kw):
            g = bt.Grid(180. / n, **kw)
            grid_lines(ck, show(ck, g), n, kw)
            ck.expect("region of the grid", show(ck, g) in show(ck, g.region[:, :]))
        with ck.case("list of states"):
            m = ck.rng.randint(0, 12)
            got = show(ck, bt.StateList([bt.State(GRID, i, pv=np.zeros(GRID.shape)) for i in range(m)]))
            ck.expect("number of states", re.findall(r"\d+", got) == [str(m)], m, got)


def region(ck, b, grids):
    n = b["n"]
    if n not in grids:
        kw = some_kwargs(ck, n)
        grids[n] = bt.Grid(180. / n, **kw), kw
    g, kw = grids[n]
    step = 180. / n
    with ck.case("region", n=n, lat=b["lat"], lon=b["lon"]):
        lat = slice(0.3 * step, 0.4 * step) if n % 2 == 0 else slice(0.8 * step, 0.9 * step)
        if b["lat"]:
            lat = slice(g.lat[b["lat"][-1]], g.lat[b["lat"][0]])
        lon = slice(0.3 * step, 0.4 * step)
        if b["lon"]:
            lon = slice(g.lon[b["lon"][0]], g.lon[b["lon"][-1]])
        got = show(ck, g.region[lon, lat])
        lines = got.split("\n")
        for line, unit, name, bounds, size in [(lines[0], "N", "nlat", b["bounds"], len(b["lat"])), (lines[1], "E", "nlon", b["boundsLon"], len(b["lon"]))]:
            m = re.fullmatch(r"(?:Region)?\s*(-?[\d.]+|nan) to\s+(-?[\d.]+|nan) °" + unit + r" \(" + name + r" = (\d+)\)", line)
            ck.expect("bounds and size", bool(m), observed=line)
            ck.expect("number of " + name, int(m.group(3)) == size, size, line)
            if not bounds:
                ck.expect("no bounds", m.group(1) == m.group(2) == "nan", observed=line)
                ck.count("empty")
            for k, allowed in enumerate(bounds):
                ck.expect("bounds", re.fullmatch(r"-?\d+\.\d\d", m.group(k + 1)) and int(m.group(k + 1).replace(".", "")) in allowed, allowed, line)
        cells = [x.strip() for x in lines if re.match(r"\s+[X·]{36}", x)]
        ck.expect("map", len(cells) == 9, 9, got)
        ck.expect("labels", cells[0].endswith("90°N") and cells[4].endswith("EQ") and cells[8].endswith("90°S"), observed=cells)
        marked = np.array([[c == "X" for c in x[:36]] for x in cells])
        rows, cols = marked.any(axis=1), marked.any(axis=0)
        ck.expect("a box", np.array_equal(marked, rows[:, None] & cols[None, :]), observed=cells)
        if b["lat"] and b["lon"]:
            for name, x, want in (("rows", rows, b["rows"]), ("columns", cols, b["cols"])):
                on = set(np.flatnonzero(x).tolist())
                ck.expect(name, set(want["must"]) <= on <= set(want["may"]) and all(on & set(e) for e in want["each"]), want, sorted(on))
        else:
            ck.expect("blank", not marked.any(), observed=cells)
        axis = [x for x in lines if "180°E" in x]
        ck.expect("meridians", len(axis) == 1 and axis[0].index("0°E") == 4 and axis[0].index("180°E") - 4 <= 18 <= axis[0].index("180°E") + 1, observed=axis)
        below = got[got.index("of "):] if "\nof " in got else ""
        grid_lines(ck, below, n, kw)
        ck.count("regions")
        ck.count("wrap", bool(b["lon"]) and b["lon"][0] > b["lon"][-1])
        ck.sample(dict(n=n, text=got), 3)
