"""C03: repetitions are independent and do not depend on the schedule"""

import numpy as np

from .. import gen, obs
from ..kernel import Violation

ID = "C03"
QUICK, THOROUGH = 500, 6000
MODELS = ("sphere", "cylinder")
RULE = ("each evaluation runs one configuration (a) under a seeded schedule with several workers, looking for random numbers shared between "
        "repetitions, and, with a seed given or by default, (b) again serially or with other workers, cores, schedule and number of "
        "repetitions, comparing everything stored per repetition; non-trivial = at least two repetitions in (a) and two workers or a second execution")


def make(rng, idx, tier):
    spec = gen.model_spec(rng, ("mcsas_sphere",) * 6 + ("sim", "sphere", "image"))
    nrep = rng.choice([2, 3, 4, 5, 8])
    many = rng.random() < 0.06  # repetition numbers of more than one digit
    if many:
        spec, nrep = gen.model_spec(rng, ("mcsas_sphere",)), rng.choice([11, 12, 17, 33, 65, 130])
    d = {
        "spec": spec, "data": gen.data_spec(rng), "opt": gen.opt_spec(rng, maxiter=(0, 3, 10, 25), conv=(1e-3, 1e-3, 1.0)),
        "nContrib": rng.choice([1, 2, 4, 6]), "nRep": nrep, "nCores": rng.choice([0, 1, 2, 3, 4]), "cpu": rng.choice([1, 2, 3, 4]),
        "policy": rng.choice(gen.POLICIES), "seedarg": rng.choice(["default", "default", None, 0, rng.randrange(1000), 2**32 - 1]),
        "again": {"nCores": rng.choice([0, 1, 1, 2, 3, 5]), "cpu": rng.choice([1, 2, 4, 8]), "policy": rng.choice(gen.POLICIES),
                  "nRep": rng.choice([nrep, nrep, nrep + 2, max(1, nrep - 1)])},
        "log": rng.random() < 0.3, "earlier": rng.choice([None, None, "a", "b", "ab"]),
    }
    if many:
        d["nContrib"], d["opt"]["maxIter"] = rng.choice([1, 1, 2]), rng.choice([0, 1, 2])
        d["again"]["nRep"] = rng.choice([nrep, nrep - 1])
    return d


def segments(sim):
    """random numbers drawn by a process between two of its store operations"""
    segs, cur = [], {}
    draws = sorted(sim.drawn)
    opens = sorted((e[0], e[1]) for e in sim.log if e[2] == "h5.open" and e[3][0] != "r")
    ev = sorted([(d[0], 0, d[1], d[2]) for d in draws] + [(o[0], 1, o[1], None) for o in opens], key=lambda e: (e[0], e[1]))
    for seq, kind, pid, vals in ev:
        if kind == 0:
            cur.setdefault(pid, set()).update(vals)
        elif cur.get(pid):
            segs.append((pid, cur.pop(pid)))
    return segs


def go(ctx, plan, data, out, v, check_draws):
    from mcsas3.mc_hat import McHat

    kw = {} if plan["seedarg"] == "default" else {"seed": plan["seedarg"]}
    if plan["log"]:
        kw["logRandom"] = True
    args = gen.hat_args(plan["spec"], plan["opt"], plan["nContrib"], v["nRep"], v["nCores"], **kw)
    with ctx.boot(v["policy"], cpu=v["cpu"], max_steps=20000 + v["nRep"] * 6000) as sim:
        if plan.get("earlier") and out.name[0] in plan["earlier"]:  # the program did such a run before, in its own process
            McHat(**dict(args, nRep=1, nCores=1, maxIter=2)).run(data, ctx.path("earlier.h5"))
            ctx.probe("earlier_runs")
        sim.drawn = []
        McHat(**args).run(data, out)
        segs = segments(sim)
        workers = len({p for p, _ in segs})
    obs.need_reps(out, 1, range(v["nRep"]))
    return segs, workers


def run(plan, ctx):
    data = gen.meas_data(plan["data"], plan["spec"])
    a = ctx.path("a.h5")
    segs, workers = go(ctx, plan, data, a, plan, True)
    reps = [obs.load_rep(a, 1, n) for n in range(plan["nRep"])]
    seen = {}
    for r in reps:
        for val in np.unique(r.data):
            if float(val) in seen:
                raise Violation("shared-values", f"repetitions {seen[float(val)]} and {r.n} both hold the drawn value {val!r}")
        for val in np.unique(r.data):
            seen[float(val)] = r.n
    # draws of different repetitions (a worker storing = end of a repetition)
    par = any(p != 0 for p, _ in segs)
    owner = {}
    for k, (pid, vals) in enumerate(segs):
        if par and pid == 0:
            continue
        dup = [x for x in vals if x in owner]
        if dup:
            raise Violation("shared-draws", f"{len(dup)} of {len(vals)} random numbers of one repetition were also drawn for another one, e.g. {dup[0]!r}")
        for x in vals:
            owner[x] = k
    if workers > 1:
        ctx.probe("several_drawing_processes")
    second = plan["seedarg"] is not None
    if second:
        b = ctx.path("b.h5")
        go(ctx, plan, data, b, plan["again"], False)
        for n in range(min(plan["nRep"], plan["again"]["nRep"])):
            d = obs.diff(obs.rep_tree(a, 1, n), obs.rep_tree(b, 1, n))
            if d:
                raise Violation("schedule-dependent", f"repetition {n} of the same seeded run differs with {plan['again']}: {d[:8]}")
        ctx.probe("compared_executions")
    elif plan["again"]["nRep"] == plan["nRep"]:
        # without a seed two runs are different optimisations
        b = ctx.path("b.h5")
        go(ctx, plan, data, b, plan["again"], False)
        for n in range(plan["nRep"]):
            both = set(obs.load_rep(b, 1, n).data.ravel().tolist()) & set(seen)
            if both:
                raise Violation("shared-values", f"two runs without seed both hold {sorted(both)[:3]}")
        ctx.probe("unseeded_pairs")
    ctx.nontrivial = plan["nRep"] > 1 and (workers > 1 or second)
