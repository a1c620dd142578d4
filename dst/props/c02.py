"""C02: a stored repetition is one self-consistent optimisation result"""

from .. import gen, obs

ID = "C02"
QUICK, THOROUGH = 400, 6000
MODELS = ("sphere", "cylinder", "sphere@hardsphere")
RULE = ("one or two runs of McHat (internal sphere, simulation, and compiled library models) under a seeded schedule; every stored repetition is "
        "recomputed from its stored contributions with independent formulas; non-trivial = at least one accepted move and a context switch or serial run with two repetitions")


def one_run(rng, tier, kinds):
    spec = gen.model_spec(rng, kinds)
    nrep = rng.choice([1, 2, 3, 4, 6])
    big = rng.random() < 0.04
    if big:
        spec, nrep = gen.model_spec(rng, ("mcsas_sphere",)), rng.choice([1, 2])
    d = {
        "spec": spec, "data": gen.data_spec(rng), "opt": gen.opt_spec(rng, maxiter=(5, 15, 30, 60), conv=(1e-3, 1e-3, 1.0, 5.0)),
        "nContrib": rng.choice([1, 2, 3, 5, 8]), "nRep": nrep, "nCores": rng.choice([0, 1, 2, 3]),
        "seedarg": rng.choice(["default", None, rng.randrange(1000)]), "index": rng.choice([1, 2]),
        "log": rng.random() < 0.3,
    }
    if big:
        d["nContrib"], d["opt"]["maxIter"] = rng.choice([(1, 1500), (3, 1500), (260, 300), (300, 900)])
    return d


def make(rng, idx, tier):
    kinds = ("mcsas_sphere",) * 6 + ("sim",) * 3 + ("sphere", "sphere", "cylinder", "sphere@hardsphere", "image")
    ops = [one_run(rng, tier, kinds) for _ in range(rng.choice([1, 1, 1, 2]))]
    return {"ops": ops, "cpu": rng.choice([2, 3, 4]), "policy": rng.choice(gen.POLICIES), "shared_hat": rng.random() < 0.3}


def hat_for(op):
    from mcsas3.mc_hat import McHat

    kw = {} if op["seedarg"] == "default" else {"seed": op["seedarg"]}
    if op["log"]:
        kw["logRandom"] = True
    return McHat(resultIndex=op["index"], **gen.hat_args(op["spec"], op["opt"], op["nContrib"], op["nRep"], op["nCores"], **kw))


def run(plan, ctx):
    done = []
    with ctx.boot(plan["policy"], cpu=plan["cpu"], max_steps=300000) as sim:
        for k, op in enumerate(plan["ops"]):
            data = gen.meas_data(op["data"], op["spec"])
            out = ctx.path(f"r{k}.h5")
            hat_for(op).run(data, out, resultIndex=op["index"])
            done.append((op, data, out))
    acc = 0
    for op, data, out in done:
        obs.need_reps(out, op["index"], range(op["nRep"]))
        lim = gen.limits_for(op["spec"], obs.qs(data))
        for n in range(op["nRep"]):
            r = obs.load_rep(out, op["index"], n)
            obs.check_rep(r, data, op["spec"], op["nContrib"], op["opt"], lim)
            acc += int(r.accepted)
            if int(r.accepted) and float(r.gof) <= op["opt"]["convCrit"]:
                ctx.probe("converged")
            if int(r.accepted) == 0:
                ctx.probe("nothing_accepted")
    ctx.probe("accepted_moves", acc)
    ctx.nontrivial = acc > 0 and (ctx.switches > 0 or any(o["nRep"] > 1 for o in plan["ops"]))
