"""C02: save schedule of integrations (specs/ModelRun.tla, ModelRunTrace.tla)."""
import numpy as np
import barotropic as bt
from . import runs


def check(ck):
    g = runs.grid()
    embs = [e for e in runs.EMBEDDINGS if e.saves]
    dts = [e for e in runs.EMBEDDINGS if not e.saves]
    behaviours = ck.tlc("ModelRun", "ModelRun_" + ck.tier)
    ck.rng.shuffle(behaviours)
    for j, b in enumerate(behaviours[:ck.pick(900, 6000)]):
        emb = embs[j % len(embs)] if b["s"] > 0 or j % 2 else dts[j % len(dts)]
        replay(ck, g, emb, b, j)
        ck.replayed += 1
    traces(ck, g, embs)
    ck.require(run=250, saves=150, s_less_dt=20, s_not_multiple=25, s_longer=20, nothing_saved=20, stopped=15, trace=50)


def replay(ck, g, emb, b, j):
    dt, s = emb.step(b["dt"]), b["s"]
    with ck.case(f"{emb.name}: run(t0={b['t0']}, dt={b['dt']}, tend={b['tend']}, save_every={s}) ticks", **b):
        model, f = runs.model_for(g, b["dt"] * emb.seconds)
        pv = runs.start_pv(g, j % 3, b["dt"] * emb.seconds)
        st = bt.State(g, emb.time(b["t0"]), pv=pv)
        if s == 0 and j % 2:
            res = model.run(st, dt, emb.time(b["tend"]))
        elif s == 0:
            res = model.run(st, dt, emb.time(b["tend"]), save_every=0)
        elif j % 4 == 0:
            res = st.run(model, dt, emb.time(b["tend"]), s * emb.tick)
        else:
            res = model.run(st, dt, emb.time(b["tend"]), save_every=s * emb.tick)
        final, saved = runs.check_pair(ck, res)
        want = [emb.time(b["t0"] + m * b["dt"]) for m in b["saved"]]
        got = [x.time for x in saved]
        ck.expect("times of the saved states", got == want, want, got)
        # every listed state is the state of the trajectory at that time
        ref = runs.reference(model, bt.State(g, emb.time(b["t0"]), pv=pv), dt, b["n"])
        for m, x in zip(b["saved"], saved):
            ck.expect_close(f"saved state {m} of the trajectory", x.pv, ref[m].pv, rel=1e-5)
        ck.expect_close("first saved state is the start state", saved[0].pv, bt.State(g, 0, pv=pv).pv, rel=1e-6)
        ck.expect_close("start state unchanged", st.pv, bt.State(g, 0, pv=pv).pv, rel=1e-6)
        # ... and the final state of a run that is stopped there
        if len(b["saved"]) > 1 and j % 8 == 0:
            k = ck.rng.randrange(1, len(b["saved"]))
            fin, _ = model.run(bt.State(g, emb.time(b["t0"]), pv=pv), dt, got[k])
            ck.expect("run stopped at a save time", fin.time == got[k], got[k], fin.time)
            ck.expect_close("saved state equals the final state of a stopped run", saved[k].pv, fin.pv, rel=1e-5)
            ck.count("stopped")
        ck.count("run")
        ck.count("saves", len(saved) > 1)
        ck.count("s_less_dt", 0 < s < b["dt"] and b["n"] > 1)
        ck.count("s_not_multiple", s > b["dt"] and s % b["dt"] != 0 and len(saved) > 1)
        ck.count("s_longer", s > b["n"] * b["dt"] > 0)
        ck.count("nothing_saved", s == 0 and b["n"] > 1)
        ck.sample(b)


def traces(ck, g, embs):
    log, names = [], []
    for j in range(ck.pick(120, 800)):
        emb = embs[j % len(embs)]
        dt = ck.rng.randint(1, 60)
        span = ck.rng.randint(1, 40 * dt)
        t0 = ck.rng.randint(-50000, 50000)
        s = ck.rng.choice([ck.rng.randint(1, dt), ck.rng.randint(1, 3 * dt), ck.rng.randint(1, 30 * dt), 5 * dt])
        with ck.case(f"recorded {emb.name}: t0={t0} dt={dt} span={span} save={s}"):
            model, f = runs.model_for(g, dt * emb.seconds)
            st = bt.State(g, emb.time(t0), pv=runs.start_pv(g, j, dt * emb.seconds))
            final, saved = runs.check_pair(ck, model.run(st, emb.step(dt), emb.time(t0 + span), s * emb.tick))
            rec = dict(t0=t0, dt=dt, span=span, s=s, final=emb.ticks(final.time),
                       saved=[emb.ticks(x.time) for x in saved], visited=[])
            ck.expect("all times are on the time axis of the run", None not in [rec["final"], *rec["saved"]], observed=rec)
            log.append(rec)
            names.append((emb.name, rec))
    for v in ck.tlc("ModelRunTrace", "ModelRunTrace", scen=log):
        if v["verdict"] in ("number of saved states", "times of saved states"):
            ck.fail(f"recorded run ({names[v['i'] - 1][0]})", v["verdict"], names[v["i"] - 1][1], observed=v)
        ck.validated += 1
        ck.count("trace")
