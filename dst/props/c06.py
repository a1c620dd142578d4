"""C06: contributions stay inside their fit limits; automatic limits follow the data"""

import copy

import numpy as np

from .. import gen, obs
from ..kernel import Violation

ID = "C06"
QUICK, THOROUGH = 400, 8000
MODELS = ("sphere", "cylinder")
RULE = ("either one optimisation watched draw by draw, or a sequence of runs of one or several hats over one or several data sets sharing one "
        "configuration, with extreme values (exactly the ends of the range) supplied by the simulated generator; non-trivial = an extreme value "
        "was drawn, or two runs used different data with automatic limits")


def make(rng, idx, tier):
    kinds = ("mcsas_sphere",) * 5 + ("sim", "cylinder", "cylinder", "sphere")
    spec = gen.model_spec(rng, kinds)
    mode = rng.choice(["watch", "hat", "hat"])
    log = rng.random() < 0.5
    par = sorted(spec["fitParameterLimits"])[0]
    if mode == "hat" and spec["modelName"] == "cylinder" and rng.random() < 0.7:
        # automatic limits for one or both parameters
        for k in rng.choice([["radius"], ["length"], ["radius", "length"], ["radius", "length"]]):
            spec["fitParameterLimits"][k] = "auto"
        if rng.random() < 0.5:
            spec["fitParameterLimits"] = dict(reversed(list(spec["fitParameterLimits"].items())))
    if mode == "watch" and isinstance(spec["fitParameterLimits"][par], str):
        spec["fitParameterLimits"][par] = [2.0, 60.0]
    shape = rng.choice(["plain", "plain", "reversed", "narrow", "wide", "negative", "int"])
    v = spec["fitParameterLimits"][par]
    if not isinstance(v, str) and spec["modelName"] == "mcsas_sphere":
        if shape == "reversed" and log:
            spec["fitParameterLimits"][par] = [v[1], v[0]]
        elif shape == "narrow":
            spec["fitParameterLimits"][par] = [v[0], v[0] * (1 + 1e-9)]
        elif shape == "wide":
            spec["fitParameterLimits"][par] = [0.001, 3e4]
        elif shape == "negative" and not log:
            spec["fitParameterLimits"][par] = [-v[1], v[0]]
        elif shape == "int":
            spec["fitParameterLimits"][par] = [int(v[0]), int(v[1])]
    return {"spec": spec, "mode": mode, "log": log, "datas": [gen.data_spec(rng) for _ in range(rng.choice([1, 2, 2, 3]))],
            "same_hat": rng.random() < 0.6, "nContrib": rng.choice([1, 2, 4]), "opt": {"maxIter": rng.choice([3, 10, 25]), "convCrit": 1e-9},
            "nRep": rng.choice([1, 2, 3]), "nCores": rng.choice([0, 1, 1, 2]), "policy": rng.choice(gen.POLICIES),
            "adv": rng.choice([0.0, 0.5, 0.9]), "seedarg": rng.randrange(10**6), "tuple": rng.random() < 0.3,
            "order": rng.choice(["sorted", "sorted", "reversed", "shuffled"])}


def inside(v, lim, what):
    lo, hi = sorted(float(x) for x in lim)
    v = np.asarray(v, float)
    e = 1e-12
    bad = ~((v >= lo - abs(lo) * e) & (v <= hi + abs(hi) * e))
    if np.any(bad):
        raise Violation("outside-limits", f"{what}: {np.ravel(v)[np.ravel(bad)][0]!r} outside [{lo!r}, {hi!r}]")


def adversary(plan, ctx):
    import random

    r = random.Random(plan["seedarg"])

    def adv(s, lo, hi):
        if r.random() >= plan["adv"]:
            return None
        ctx.probe("extreme_draw")
        return r.choice([lo, hi, float(np.nextafter(lo, hi)), float(np.nextafter(hi, lo))])

    return adv


def freeze(o):
    if isinstance(o, dict):
        return {k: freeze(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [freeze(v) for v in o])
    if isinstance(o, np.ndarray):
        return ("nd", o.dtype.str, o.shape, o.tobytes())
    return (type(o).__name__, repr(o))


def run(plan, ctx):
    base = copy.deepcopy(plan["spec"])
    pos = {k: ([abs(float(x)) + 0.01 for x in v] if not isinstance(v, str) else v) for k, v in base["fitParameterLimits"].items()}
    datas = [gen.meas_data(d, dict(base, fitParameterLimits={k: (sorted(v) if not isinstance(v, str) else v) for k, v in pos.items()})) for d in plan["datas"]]
    for d in datas:
        if plan.get("order", "sorted") != "sorted":  # measurement points in another order
            p = np.arange(len(d["I"]))[::-1] if plan["order"] == "reversed" else np.random.RandomState(plan["seedarg"] % 2**31).permutation(len(d["I"]))
            d["Q"], d["I"], d["ISigma"] = [d["Q"][0][p]], d["I"][p], d["ISigma"][p]
    if plan["tuple"]:
        base["fitParameterLimits"] = {k: (tuple(v) if isinstance(v, list) else v) for k, v in base["fitParameterLimits"].items()}
    if plan["mode"] == "watch":
        watch(plan, ctx, base, datas[0])
    else:
        hats(plan, ctx, base, datas)


def watch(plan, ctx, spec, data):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    out = ctx.path("w.h5")
    lim = {k: list(v) for k, v in spec["fitParameterLimits"].items()}
    cfg = {k: spec[k] for k in ("fitParameterLimits", "staticParameters", "modelName")}
    f0, d0 = freeze(cfg), freeze(data)
    st = {"mc": None}

    def see(sim, kind, info):
        mc = st["mc"]
        if kind != "rng" or mc is None:
            return
        for k, v in (mc._model.pickParameters or {}).items():
            inside(v, lim[k], f"pick of {k}")
        for k in lim:
            inside(mc._model.parameterSet[k].values.astype(float), lim[k], f"contributions' {k}")

    with ctx.boot("fifo", max_steps=40000) as sim:
        sim.adversary = adversary(plan, ctx)
        sim.observers.append(see)
        with np.errstate(all="ignore"):
            model = McModel(seed=plan["seedarg"], nContrib=plan["nContrib"], logRandom=plan["log"], **cfg)
            st["mc"] = mc = McCore(data, model=model, opt=McOpt(**plan["opt"]))
            see(sim, "rng", None)
            mc.optimize()
        see(sim, "rng", None)
        mc.store(out)
    r = obs.load_rep(out, 1, 0)
    ctx.mix(r.gof, r.data.tolist())
    for k in lim:
        inside(r.data[:, r.columns.index(k)], lim[k], f"stored {k}")
        if not obs.isclose(r.limits[k], lim[k], 1e-12):
            raise Violation("limits", f"limits of {k} stored as {r.limits[k]}, configured {lim[k]}")
    if freeze(cfg) != f0:
        raise Violation("config-modified", f"configuration became {cfg}")
    if freeze(data) != d0:
        raise Violation("data-modified", "the measurement data handed in were modified")
    ctx.nontrivial = True


def hats(plan, ctx, spec, datas):
    from mcsas3.mc_hat import McHat

    args = gen.hat_args(spec, plan["opt"], plan["nContrib"], plan["nRep"], plan["nCores"], seed=plan["seedarg"], logRandom=plan["log"])
    if plan["tuple"]:
        args["fitParameterLimits"] = {k: (tuple(v) if isinstance(v, list) else v) for k, v in args["fitParameterLimits"].items()}
    a0 = freeze(args)
    d0 = [freeze(d) for d in datas]
    with ctx.boot(plan["policy"], cpu=2, max_steps=80000) as sim:
        sim.adversary = adversary(plan, ctx)
        hat = None
        with np.errstate(all="ignore"):
            for k, data in enumerate(datas):
                if hat is None or not plan["same_hat"]:
                    hat = McHat(**args)
                hat.run(data, ctx.path(f"h{k}.h5"))
                if freeze(args) != a0:
                    raise Violation("config-modified", f"after run {k} the caller's configuration is {args['fitParameterLimits']}, {args['staticParameters'].keys()}")
                if [freeze(d) for d in datas] != d0:
                    raise Violation("data-modified", f"run {k} modified the measurement data")
    for k, data in enumerate(datas):
        out = ctx.path(f"h{k}.h5")
        lim = gen.limits_for(spec, data["Q"][0])
        obs.need_reps(out, 1, range(plan["nRep"]))
        for n in range(plan["nRep"]):
            r = obs.load_rep(out, 1, n)
            ctx.mix(r.gof)
            if sorted(r.limits) != sorted(lim):
                raise Violation("limits", f"run {k} stored limits for {sorted(r.limits)}")
            for p in lim:
                if not obs.isclose(r.limits[p], lim[p], 1e-12):
                    raise Violation("limits", f"run {k}: limits of {p} stored as {r.limits[p]}; configured or from the data: {lim[p]}")
                inside(r.data[:, r.columns.index(p)], lim[p], f"run {k}, repetition {n}: stored {p}")
    auto = any(isinstance(v, str) for v in spec["fitParameterLimits"].values())
    if auto:
        ctx.probe("automatic_limits", len(datas))
    ctx.nontrivial = (auto and len(datas) > 1) or plan["adv"] > 0
