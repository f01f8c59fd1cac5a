"""C01: horizon and time axis of integrations (specs/ModelRun.tla, ModelRunTrace.tla)."""
import datetime as D
import numpy as np
import barotropic as bt
from . import runs


def check(ck):
    g = runs.grid()
    behaviours = ck.tlc("ModelRun", "ModelRun_" + ck.tier)
    ck.rng.shuffle(behaviours)
    # the save interval is irrelevant for the horizon, but must not influence it: keep all (t0, dt, tend)
    # and at least some save intervals for each of them
    seen, jobs = {}, []
    for b in behaviours:
        key = (b["t0"], b["dt"], b["tend"])
        if seen.setdefault(key, 0) < ck.pick(3, 6):
            seen[key] += 1
            jobs.append(b)
    for j, b in enumerate(jobs):
        emb = runs.EMBEDDINGS[j % len(runs.EMBEDDINGS)]
        if b["s"] > 0 and not emb.saves:
            b = dict(b, s=0)
        replay(ck, g, emb, b, j)
    ck.replayed += len(jobs)
    single_steps(ck, g)
    state_lists(ck, g, behaviours)
    traces(ck, g)
    ck.require(run=150, returns_start=20, several_steps=50, single_step=5, statelist_run=10, trace=50)


def replay(ck, g, emb, b, j):
    dt = emb.step(b["dt"])
    with ck.case(f"{emb.name}: run(t0={b['t0']}, dt={b['dt']}, tend={b['tend']}, save={b['s']}) ticks", **b):
        model, f = runs.model_for(g, b["dt"] * emb.seconds)
        if j % 5 == 0:
            model.rhs = None
        st = bt.State(g, emb.time(b["t0"]), pv=runs.start_pv(g, j % 3, b["dt"] * emb.seconds))
        kw = {"save_every": b["s"] * emb.tick} if b["s"] > 0 else {}
        if j % 3 == 0:
            res = st.run(model, dt, emb.time(b["tend"]), **kw)
        elif j % 3 == 1:
            res = model.run(st, dt, emb.time(b["tend"]), **kw)
        else:
            res = model.run(state_init=st, dt=dt, tend=emb.time(b["tend"]), **kw)
        final, saved = runs.check_pair(ck, res)
        want = emb.time(b["t0"] + b["n"] * b["dt"])
        ck.expect("time of the final state", final.time == want and isinstance(final.time, D.datetime) == isinstance(want, D.datetime),
                  want, final.time)
        ck.expect("grid of the final state", final.grid == g)
        ref = runs.reference(model, bt.State(g, emb.time(b["t0"]), pv=runs.start_pv(g, j % 3, b["dt"] * emb.seconds)), dt, b["n"])
        ck.expect_close("final state is the one at its time", final.pv, ref[-1].pv, rel=1e-5)
        if b["n"] == 0:
            ck.expect_close("start state is returned", final.pv, st.pv, rel=1e-6)
        for s in f.times:
            k = emb.ticks(s)
            ck.expect("time steps are start + n*dt", k is not None and k >= b["t0"] and (k - b["t0"]) % b["dt"] == 0, observed=s)
        ck.count("run")
        ck.count("returns_start", b["n"] == 0)
        ck.count("several_steps", b["n"] > 2)
        ck.count("emb:" + emb.name)
        ck.sample(b)


def single_steps(ck, g):
    for emb in runs.EMBEDDINGS:
        for t0, d in ((0, 1), (-4, 3), (11, 2)):
            with ck.case(f"{emb.name}: single steps from {t0} with dt {d}"):
                model, _ = runs.model_for(g, d * emb.seconds)
                s0 = bt.State(g, emb.time(t0), pv=runs.start_pv(g, 0, d * emb.seconds))
                s1 = model.euler(s0, emb.step(d))
                ck.expect("euler time stamp", s1.time == emb.time(t0 + d), emb.time(t0 + d), s1.time)
                now, new = model.leapfrog(s0, s1)
                ck.expect("leapfrog time stamps", (now.time, new.time) == (emb.time(t0 + d), emb.time(t0 + 2 * d)),
                          observed=(now.time, new.time))
                now, new = model.leapfrog(now, new, filter_parameter=0.)
                ck.expect("leapfrog time stamps", (now.time, new.time) == (emb.time(t0 + 2 * d), emb.time(t0 + 3 * d)),
                          observed=(now.time, new.time))
                ck.expect("start time unchanged", s0.time == emb.time(t0))
                ck.count("single_step")


def state_lists(ck, g, behaviours):
    """StateList.run: every state ends according to its own start time."""
    groups = {}
    for b in behaviours:
        groups.setdefault((b["dt"], b["tend"], b["s"]), []).append(b)
    keys = sorted(k for k, v in groups.items())
    ck.rng.shuffle(keys)
    for j, key in enumerate(keys[:ck.pick(25, 150)]):
        emb = runs.EMBEDDINGS[j % len(runs.EMBEDDINGS)]
        dt, tend, s = key
        if not emb.saves:
            s = 0
        bs = groups[key]
        bs = (bs + bs)[:3]
        with ck.case(f"{emb.name}: StateList.run(dt={dt}, tend={tend}, save={s})", starts=[b["t0"] for b in bs]):
            model, _ = runs.model_for(g, dt * emb.seconds)
            sl = bt.StateList([bt.State(g, emb.time(b["t0"]), pv=runs.start_pv(g, i, dt * emb.seconds)) for i, b in enumerate(bs)])
            last, steps = sl.run(model, emb.step(dt), emb.time(tend), **({"save_every": s * emb.tick} if s else {}))
            ck.expect("final states are a StateList of the same length", isinstance(last, bt.StateList) and len(last) == len(bs))
            ck.expect("one list of saved states per start state", len(steps) == len(bs) and all(isinstance(x, bt.StateList) for x in steps))
            for b, f in zip(bs, last):
                ck.expect("time of final state", f.time == emb.time(b["t0"] + b["n"] * b["dt"]), b, f.time)
            ck.count("statelist_run")
            ck.replayed += len(bs)


def traces(ck, g):
    """Record random runs and let the specification judge them."""
    log, names = [], []
    for j in range(ck.pick(120, 600)):
        emb = runs.EMBEDDINGS[j % len(runs.EMBEDDINGS)]
        drift = j % 10 == 9
        if drift:
            # step sizes that are not representable: avoid ties, only the lattice is exact
            emb = runs.Embedding("float tenths", 0.3, 0.1, 0.1, saves=False)
        dt = ck.rng.randint(1, 60)
        n = ck.rng.randint(0, 25)
        span = ck.rng.choice([n * dt, n * dt + 1, n * dt - 1, ck.rng.randint(-40, 25 * dt)])
        if drift:
            dt, span = 2 * dt, 2 * abs(span) + 1
            span = min(span, 41 * dt - 1 if (41 * dt - 1) % 2 else 41 * dt)
            if span % dt == 0:
                span += 1
        t0 = ck.rng.randint(-50000, 50000) if emb.name != "datetime/days" else ck.rng.randint(-500, 500)
        s = ck.rng.choice([0, dt, 2 * dt, ck.rng.randint(1, 4 * dt), ck.rng.randint(1, 30 * dt)]) if emb.saves else 0
        with ck.case(f"recorded {emb.name}: t0={t0} dt={dt} span={span} save={s}"):
            model, f = runs.model_for(g, dt * emb.seconds)
            st = bt.State(g, emb.time(t0), pv=runs.start_pv(g, j, dt * emb.seconds))
            final, saved = runs.check_pair(ck, model.run(st, emb.step(dt), emb.time(t0 + span), **({"save_every": s * emb.tick} if s else {})))
            rec = dict(t0=t0, dt=dt, span=span, s=s, final=emb.ticks(final.time),
                       saved=[emb.ticks(x.time) for x in saved], visited=[emb.ticks(t) for t in f.times])
            ck.expect("all times are on the time axis of the run", None not in [rec["final"], *rec["saved"], *rec["visited"]], observed=rec)
            log.append(rec)
            names.append((emb.name, rec))
    for v in ck.tlc("ModelRunTrace", "ModelRunTrace", scen=log):
        if v["verdict"] != "ok":
            name, rec = names[v["i"] - 1]
            if v["verdict"] in ("number of saved states", "times of saved states"):
                continue    # property C02
            ck.fail(f"recorded run ({name})", v["verdict"], rec, observed=v)
        ck.validated += 1
        ck.count("trace")
