"""C01: every repetition of a run is stored exactly once, under any interleaving"""

import numpy as np

from .. import gen, obs
from ..kernel import Violation

ID = "C01"
QUICK, THOROUGH = 320, 6000
MODELS = ("sphere",)
RULE = ("one run of McHat per evaluation with generated data, model, stop criteria, repetition number, worker number (auto, serial, "
        "fewer/equal/more than repetitions, below/above core count; up to 140 repetitions; repetitions that stall for seconds up to weeks) under one seeded schedule of all file, lock and pool events; "
        "non-trivial = at least two workers and at least one preemption, or a repetition that did not converge")


def make(rng, idx, tier):
    kinds = ("mcsas_sphere",) * 6 + ("sim", "sphere")
    spec = gen.model_spec(rng, kinds)
    nrep = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 12] if tier == "quick" else [1, 2, 3, 4, 5, 7, 9, 12, 16, 33])
    cpu = rng.choice([1, 2, 3, 4, 8])
    big = rng.random() < 0.04
    if big:
        nrep, cpu = rng.choice([33, 50, 65, 100, 129, 140]), rng.choice([1, 2, 3, 8])
    stalls = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        stalls.append({"ev": rng.choice(["rng", "rng", "h5.open", "lock.acquire"]), "n": rng.randrange(1, 12 * nrep), "do": "stall",
                       "s": rng.choice([30, 700, 4000, 9e4, 3e6])})
    plan = {
        "spec": spec, "data": gen.data_spec(rng), "opt": gen.opt_spec(rng, maxiter=(0, 1, 3, 8, 15)),
        "nContrib": rng.choice([1, 2, 4]), "nRep": nrep, "nCores": rng.choice([0, 0, 1, 2, 3, nrep, nrep + 2]), "cpu": cpu,
        "policy": rng.choice(gen.POLICIES), "seedarg": rng.choice(["default", None, rng.randrange(1000)]),
        "index": rng.choice([1, 1, 2, 10]), "pre": rng.random() < 0.3, "clock": rng.random() < 0.3, "stalls": stalls,
    }
    if big:
        plan["spec"] = gen.model_spec(rng, ("mcsas_sphere",))
        plan["opt"]["maxIter"], plan["nContrib"] = rng.choice([0, 1]), 1
    return plan


def run(plan, ctx):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_hat import McHat

    data = gen.meas_data(plan["data"], plan["spec"])
    out = ctx.path("result.h5")
    kw = {} if plan["seedarg"] == "default" else {"seed": plan["seedarg"]}
    args = gen.hat_args(plan["spec"], plan["opt"], plan["nContrib"], plan["nRep"], plan["nCores"], **kw)
    n = plan["nRep"]
    with ctx.boot(plan["policy"], cpu=plan["cpu"], clock_faults=plan["clock"], faults=plan["stalls"], max_steps=20000 + n * 6000) as sim:
        hat = McHat(resultIndex=plan["index"], **args)
        hat.run(data, out, resultIndex=plan["index"])
        text = sim.out.getvalue()
        conflicts = sim.probes.get("h5_lock_conflict", 0)
    obs.need_reps(out, plan["index"], range(n))
    for k in range(n):
        r = obs.load_rep(out, plan["index"], k)
        if len(r.rows) != plan["nContrib"] or int(r.repetition) != k:
            raise Violation("incomplete", f"repetition {k}: {len(r.rows)} contributions, says repetition {r.repetition}")
        if r.step > plan["opt"]["maxIter"]:
            raise Violation("iterations", f"repetition {k} ran {r.step} iterations")
        # one start and one end message per repetition reaches the caller
        c = text.count(f"repetition {k} started")
        if c != 1:
            raise Violation("log", f"log of repetition {k} appears {c} times in the output of the run")
    ends = text.count("Final chiSqr")
    if ends != n:
        raise Violation("log", f"{ends} final messages for {n} repetitions")
    # loadable by the program itself after a restart
    with ctx.boot("fifo") as sim:
        for k in {0, n - 1}:
            core = McCore(data, loadFromFile=out, loadFromRepetition=k, resultIndex=plan["index"])
            if len(core._model.parameterSet) != plan["nContrib"]:
                raise Violation("load", f"repetition {k} loads with {len(core._model.parameterSet)} contributions")
    conv = [float(obs.load_rep(out, plan["index"], k).gof) <= plan["opt"]["convCrit"] for k in range(n)]
    if not all(conv):
        ctx.probe("rep_not_converged")
    if plan["nCores"] > plan["cpu"]:
        ctx.probe("more_threads_than_cores_asked")
    if ctx.max_workers > n:
        ctx.probe("more_workers_than_repetitions")
    if ctx.preemptions:
        ctx.probe("run_with_preemption")
    ctx.nontrivial = (ctx.max_workers >= 2 and ctx.preemptions > 0) or not all(conv)
