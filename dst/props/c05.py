"""C05: optimisation stops at its limits, neither before nor after"""

import numpy as np

from .. import gen, obs
from ..kernel import Violation

ID = "C05"
QUICK, THOROUGH = 400, 8000
MODELS = ()
RULE = ("one optimisation per evaluation with generated iteration, acceptance and convergence limits, directly and through McHat, with "
        "non-finite data fits, interrupts in mid-iteration followed by continuing (in the same process or restored from the file), and raised "
        "limits; the limits are checked at every random draw and at the end; non-trivial = at least one iteration, or a limit met at the start")


def make(rng, idx, tier):
    spec = gen.model_spec(rng, ("mcsas_sphere", "mcsas_sphere", "sim"), auto=False)
    n = rng.choice([1, 2, 3, 5])
    mi = rng.choice([0, 1, 2, 5, 13, 30, 60])
    long = rng.random() < 0.08
    if long:
        mi = rng.choice([260, 1003, 1500, 2100])
    opt = {"maxIter": mi, "convCrit": rng.choice([1e-9, 1e-9, 0.3, 1.0, 3.0, 50.0, 1e9, 0])}
    r = rng.random()
    if long and rng.random() < 0.7:
        opt["convCrit"] = 1e-9
    elif r < 0.5:
        opt["maxAccept"] = rng.choice([0, 1, 2, 3, 5, 9])
    if rng.random() < 0.2:
        opt["maxIter"] = float(mi)
    faults = []
    if rng.random() < 0.55:
        faults.append({"ev": "rng", "n": rng.randrange(1, max(40, mi) if rng.random() < 0.3 else max(3, mi)), "do": "interrupt"})
    return {"spec": spec, "data": gen.data_spec(rng), "nContrib": n, "opt": opt, "faults": faults, "seedarg": rng.randrange(10**6),
            "mode": rng.choice(["core", "core", "core", "hat"]), "exact": rng.choice([None, None, 0, 1, 2, 4, 1000]), "resume": rng.choice(["same", "file"]),
            "raise": rng.choice([None, None, 5, 20]), "raisefile": rng.random() < 0.5, "nanpick": rng.random() < 0.15, "nRep": rng.choice([1, 2, 3]),
            "nCores": rng.choice([1, 2]), "policy": rng.choice(gen.POLICIES)}


def may_go(o):
    return (o.accepted < o.maxAccept) and (o.step < o.maxIter) and (o.gof > o.convCrit)


def run(plan, ctx):
    if plan["mode"] == "hat":
        return run_hat(plan, ctx)
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    spec, n = plan["spec"], plan["nContrib"]
    data = gen.meas_data(plan["data"], spec)
    out = ctx.path("c.h5")
    if plan.get("exact") is not None and not plan["nanpick"]:
        # the criterion is a goodness of fit this very optimisation reaches, to the last bit
        with ctx.boot("fifo", max_steps=80000):
            m0 = McModel(seed=plan["seedarg"], nContrib=n, modelName=spec["modelName"], staticParameters=dict(spec["staticParameters"]),
                         fitParameterLimits={k: list(v) for k, v in spec["fitParameterLimits"].items()})
            c0 = McCore(data, model=m0, opt=McOpt(**dict(plan["opt"], convCrit=0)))
            c0.optimize()
        g = [float(x) for x in c0._opt.acceptedGofs]
        k = min(plan["exact"], len(g) - 1)
        plan = dict(plan, opt=dict(plan["opt"], convCrit=g[k]))
        ctx.probe("criterion_met_exactly")
    st = {"mc": None, "seen": {}, "acc": None}

    def watch(sim, kind, info):
        mc = st["mc"]
        if kind != "rng" or mc is None:
            return
        o = mc._opt
        k = int(o.step)
        if k not in st["seen"]:
            if st["seen"] and k != max(st["seen"]) + 1:
                raise Violation("step", f"iteration {max(st['seen'])} was followed by {k}")
            if not may_go(o):
                raise Violation("too-long", f"iteration {k} started with accepted {o.accepted}/{o.maxAccept}, step {o.step}/{o.maxIter}, "
                                            f"goodness of fit {o.gof} (criterion {o.convCrit})")
        st["seen"][k] = st["seen"].get(k, 0) + 1
        now = np.array(mc._model.parameterSet.values, float)
        if st["acc"] is not None:
            changed = not np.array_equal(st["acc"][0], now)
            if changed and o.accepted != st["acc"][1] + 1:
                raise Violation("counter", f"a contribution was replaced while accepted went from {st['acc'][1]} to {o.accepted}")
        st["acc"] = (now, int(o.accepted))

    with ctx.boot("fifo", max_steps=80000) as sim:
        sim.observers.append(watch)
        if plan["nanpick"]:
            sim.adversary = lambda s, lo, hi: None if st["mc"] is None else float("nan")
        model = McModel(seed=plan["seedarg"], nContrib=n, modelName=spec["modelName"], staticParameters=dict(spec["staticParameters"]),
                        fitParameterLimits={k: list(v) for k, v in spec["fitParameterLimits"].items()})
        mc = McCore(data, model=model, opt=McOpt(**plan["opt"]))
        st["mc"] = mc
        start = int(mc._opt.step)
        if start != 0 or mc._opt.accepted != 0:
            raise Violation("counter", f"a new optimisation starts at step {start} with {mc._opt.accepted} accepted")
        interrupted = False
        sim.faults.extend(dict(f) for f in plan["faults"])
        try:
            mc.optimize()
        except KeyboardInterrupt:
            interrupted = True
            ctx.probe("interrupted")
        if interrupted:
            # interrupted inside an iteration: that one draws again
            last = int(mc._opt.step)
            st["seen"].pop(last, None)
            if plan["resume"] == "file":
                st["mc"] = None
                mc.store(out)
                a0 = (int(mc._opt.accepted), int(mc._opt.step), float(mc._opt.gof))
                mc = McCore(data, loadFromFile=out, loadFromRepetition=0)
                if (int(mc._opt.accepted), int(mc._opt.step)) != a0[:2]:
                    raise Violation("resume", f"continued at accepted, step = {mc._opt.accepted}, {mc._opt.step}; stored {a0[:2]}")
                ctx.probe("continued_from_file")
                st["mc"] = mc
                st["acc"] = None
            mc.optimize()
        finish(mc, st, plan, ctx)
        if plan["raise"]:
            # a later continuation with a raised iteration limit
            if plan["raisefile"]:
                st["mc"] = None
                mc.store(out)
                a0 = (int(mc._opt.accepted), int(mc._opt.step))
                mc = McCore(data, loadFromFile=out, loadFromRepetition=0)
                if (int(mc._opt.accepted), int(mc._opt.step)) != a0:
                    raise Violation("resume", f"continued at accepted, step = {mc._opt.accepted}, {mc._opt.step}; stored {a0}")
                ctx.probe("raised_from_file")
                st["mc"], st["acc"] = mc, None
            mc._opt.maxIter = mc._opt.step + plan["raise"]
            before = int(mc._opt.step)
            st["seen"] = {}
            try:
                mc.optimize()
            except KeyboardInterrupt:
                ctx.probe("interrupted")
                st["seen"].pop(int(mc._opt.step), None)
                mc.optimize()
            finish(mc, st, plan, ctx, before)
            ctx.probe("limit_raised")
        o = mc._opt
        ctx.mix(o.step, o.accepted, float(o.gof))
        if int(o.accepted) != len(o.acceptedSteps) - 1 or len(o.acceptedGofs) != len(o.acceptedSteps):
            raise Violation("counter", f"{o.accepted} accepted, trace of {len(o.acceptedSteps)}")
        for k, name in ((float(o.maxIter) <= o.step, "maxIter"), (o.accepted >= o.maxAccept, "maxAccept"), (not o.gof > o.convCrit, "convCrit")):
            if k:
                ctx.probe("stopped_by_" + name)
    ctx.nontrivial = True


def finish(mc, st, plan, ctx, first=0):
    o = mc._opt
    if may_go(o):
        raise Violation("too-short", f"stopped at accepted {o.accepted}/{o.maxAccept}, step {o.step}/{o.maxIter}, goodness of fit {o.gof} (criterion {o.convCrit})")
    if o.step > plan["opt"]["maxIter"] and not plan["raise"]:
        raise Violation("too-long", f"{o.step} iterations, limit {plan['opt']['maxIter']}")
    if "maxAccept" in plan["opt"] and o.accepted > plan["opt"]["maxAccept"]:
        raise Violation("too-long", f"{o.accepted} accepted, limit {plan['opt']['maxAccept']}")
    seen = st["seen"]
    if set(seen) - set(range(int(o.step))) or (set(range(first, int(o.step))) - set(seen)):
        raise Violation("counter", f"{int(o.step)} iterations counted, random numbers were drawn in iterations {sorted(seen)[:5]}..{sorted(seen)[-3:]}")
    if len(set(seen.values())) > 1:
        raise Violation("counter", f"iterations differ in the number of draws: {seen}")


def run_hat(plan, ctx):
    from mcsas3.mc_hat import McHat

    spec = plan["spec"]
    data = gen.meas_data(plan["data"], spec)
    out = ctx.path("h.h5")
    with ctx.boot(plan["policy"], cpu=2, max_steps=60000) as sim:
        McHat(**gen.hat_args(spec, plan["opt"], plan["nContrib"], plan["nRep"], plan["nCores"], seed=plan["seedarg"])).run(data, out)
    obs.need_reps(out, 1, range(plan["nRep"]))
    for n in range(plan["nRep"]):
        r = obs.load_rep(out, 1, n)
        lim = plan["opt"].get("maxAccept", np.inf)
        if r.step > plan["opt"]["maxIter"] or r.accepted > lim:
            raise Violation("too-long", f"repetition {n}: step {r.step}, accepted {r.accepted} with {plan['opt']}")
        if r.step < plan["opt"]["maxIter"] and r.accepted < lim and r.gof > plan["opt"]["convCrit"]:
            raise Violation("too-short", f"repetition {n}: step {r.step}, accepted {r.accepted}, goodness of fit {r.gof} with {plan['opt']}")
        if float(r.maxIter) != float(plan["opt"]["maxIter"]) or float(r.maxAccept) != float(lim) or float(r.convCrit) != float(plan["opt"]["convCrit"]):
            raise Violation("settings", f"repetition {n} stores limits {r.maxIter}, {r.maxAccept}, {r.convCrit}; configured {plan['opt']}")
    ctx.probe("through_hat")
    ctx.nontrivial = True
