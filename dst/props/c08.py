"""C08: a failed store stays contained and is reported"""

import numpy as np

from .. import gen, obs, ref
from ..kernel import SimCrash, Violation
from ..seams import RealFile
from . import c07

ID = "C08"
QUICK, THOROUGH = 240, 8000
MODELS = ()
RULE = ("each evaluation runs a configuration once without faults, then again with failing opens of the result file (lock held by another program, "
        "no permission, I/O error, no descriptors, full disk, failing allocation) and failing computations at generated events under a seeded "
        "schedule, then analyses the file and completes it by another run; non-trivial = at least one fault fired")

KINDS = ("EAGAIN", "EAGAIN", "EACCES", "EIO", "EMFILE", "ENOSPC", "memory")


def make(rng, idx, tier):
    spec = gen.model_spec(rng, ("mcsas_sphere", "mcsas_sphere", "sim"))
    mode = rng.choice(["open", "open", "open", "lock", "lock", "compute", "interrupt"])
    nrep = rng.choice([1, 2, 3, 4, 5, 6])
    faults = []
    if mode == "open":
        for k in range(rng.choice([1, 1, 2, 3])):
            faults.append({"at": rng.random(), "times": rng.choice([1, 1, 1, 2, 4]), "do": rng.choice(KINDS)})
    elif mode == "lock":
        for k in range(rng.choice([1, 2])):
            faults.append({"at": rng.random(), "len": rng.choice([1, 2, 5, 20, 60]), "mode": rng.choice(["r", "r", "w"])})
    else:
        faults.append({"at": rng.random()})
    return {
        "spec": spec, "data": gen.data_spec(rng), "opt": {"maxIter": rng.choice([1, 4, 10]), "convCrit": 1e-9}, "nContrib": rng.choice([1, 2]),
        "nRep": nrep, "nCores": rng.choice([0, 1, 2, 2, 3]), "cpu": rng.choice([2, 3, 4]), "policy": rng.choice(gen.POLICIES),
        "seedarg": rng.choice(["default", rng.randrange(1000)]), "index": rng.choice([1, 1, 2]), "mode": mode, "faults": faults, "stall": rng.choice([None, None, None, 100, 8000, 2e6]), "stallat": rng.random(),
        "old": rng.random() < 0.25,
    }


def run(plan, ctx):
    from mcsas3.mc_hat import McHat

    data = gen.meas_data(plan["data"], plan["spec"])
    idx, n, mode = plan["index"], plan["nRep"], plan["mode"]
    kw = {} if plan["seedarg"] == "default" else {"seed": plan["seedarg"]}
    args = gen.hat_args(plan["spec"], plan["opt"], plan["nContrib"], n, plan["nCores"], **kw)
    st = {}

    def optimise(out, faults=(), hook=None, seed="s0", **over):
        with ctx.boot(plan["policy"], cpu=plan["cpu"], faults=faults, max_steps=30000 + n * 6000, seed=seed) as sim:
            st["sim"] = sim
            if hook:
                sim.observers.append(hook)
            err = None
            try:
                McHat(resultIndex=idx, **{**args, **over}).run(data, out, resultIndex=idx)
            except (Exception, KeyboardInterrupt) as e:
                err = e
            st["text"] = sim.out.getvalue() + ("" if err is None else f"{type(err).__name__}: {err}")
            return err

    ref_file = ctx.path("ref.h5")
    err = optimise(ref_file)
    if err is not None:
        raise err
    opens = st["sim"].counts["h5.open"]
    draws = st["sim"].counts["rng"]
    refs = {k: obs.rep_tree(ref_file, idx, k) for k in range(n)}

    out = ctx.path("result.h5")
    if plan["old"]:
        # results of an earlier run with other settings at the same place
        old_args = dict(args)
        old_args["seed"] = 4321
        with ctx.boot("fifo", cpu=2, seed="old"):
            McHat(resultIndex=idx, **old_args).run(data, out, resultIndex=idx)
        old = {k: obs.rep_tree(out, idx, k) for k in range(n)}
    else:
        old = {}
    faults, hook, windows = [], None, []
    if mode == "open":
        for k, f in enumerate(plan["faults"]):
            faults.append({"ev": "h5.open", "n": 1 + int(f["at"] * (opens - 1)), "times": f["times"], "do": f["do"], "id": f"{k}-tok"})
        if plan["stall"]:
            # a slow or stalled repetition is no failure
            faults.append({"ev": "rng", "n": 1 + int(plan["stallat"] * (draws - 1)), "do": "stall", "s": plan["stall"]})
    elif mode == "lock":
        for f in plan["faults"]:
            a = 1 + int(f["at"] * (opens - 1))
            windows.append((a, a + f["len"], f["mode"]))

        def hook(sim, kind, info):
            if kind != "h5.open":
                return
            c = sim.counts["h5.open"]
            held = [w[2] for w in windows if w[0] <= c < w[1]]
            if held and out.exists():
                sim.disk.external[str(out)] = held[0]
                sim.fire("file_locked_by_other_program")
            else:
                sim.disk.external.pop(str(out), None)
    elif mode == "compute":
        faults.append({"ev": "rng", "n": 1 + int(plan["faults"][0]["at"] * (draws - 1)), "do": "memory"})
    else:
        faults.append({"ev": "rng" if plan["nCores"] == 1 or n == 1 else "pool.wait", "n": 1 + int(plan["faults"][0]["at"] * (draws - 1)) if plan["nCores"] == 1 or n == 1 else 1, "do": "interrupt"})

    err = optimise(out, faults, hook)
    sim, text = st["sim"], st["text"]
    fired = [f for f in sim.fault_log if f[3] != "stall"]
    conflicts = sim.probes.get("h5_lock_external", 0)
    inner = sim.probes.get("h5_lock_conflict", 0)
    failed_opens = len(fired) + conflicts if mode in ("open", "lock") else 0
    if mode in ("compute", "interrupt") and fired and err is None:
        raise Violation("silent", f"{fired[0][3]} during the computation of a repetition, but the run returned normally")
    # repeated accesses may have made up for all failed ones: everything is there, nothing is left to report
    recovered = (mode in ("open", "lock") and err is None and out.exists() and obs.readable(out) is None
                 and not obs.diff(obs.tree(ref_file, obs.entry(idx)), obs.tree(out, obs.entry(idx))))
    if recovered and (fired or conflicts):
        ctx.probe("recovered")
    if mode in ("open", "lock") and err is None and not recovered:
        # reported
        for f in fired:
            if f[4] and f[3] != "memory" and f"[fault-{f[4]}]" not in text:
                raise Violation("silent", f"failed store ({f[3]}) neither raised nor in the output of the run: {text[-600:]}")
            if f[3] == "memory" and "simulated allocation failure" not in text:
                raise Violation("silent", f"failed store (memory) neither raised nor in the output of the run: {text[-600:]}")
        if conflicts and "unable to lock file" not in text:
            raise Violation("silent", f"store failed because the file was locked, neither raised nor in the output: {text[-600:]}")
    if inner:
        raise Violation("conflict", f"{inner} opens failed because another process of the same run had the file open")
    have = c07.inventory(out, idx, n)
    good = {k for k in have if have[k] == refs[k]}
    for k in have:
        if k in good or (old and have[k] == old[k]):
            continue
        d = [x for x in obs.diff(refs[k], have[k]) if not x.startswith("-")]
        if d:
            raise Violation("altered", f"repetition {k} can be loaded but differs from its result: {d[:6]}")
        good.add(k) if not [x for x in obs.diff(refs[k], have[k]) if any(x.endswith(m) for m in c07.NEED_OPT)] else None
    if mode in ("open", "lock"):
        bad = n - len(good)
        if bad > failed_opens:
            raise Violation("not-contained", f"{bad} of {n} repetitions are not stored after {failed_opens} failed accesses"
                                             f"{'' if err is None else f' ({type(err).__name__}: {err})'}: {sorted(set(range(n)) - good)}")
        if bad:
            ctx.probe("repetitions_affected", bad)
    if mode == "open" and not fired or mode == "lock" and not conflicts:
        if len(good) != n:
            raise Violation("not-contained", f"no access failed, stored repetitions: {sorted(good)}")
    # analysis
    if out.exists() and obs.readable(out) is None:
        used, info = c07.analyse(ctx, out, idx, data, plan)
        if used is None:
            if good:
                raise Violation("analysis", f"repetitions {sorted(good)} are complete, analysing fails: {info}")
        elif not good <= used or not used <= set(have):
            raise Violation("analysis", f"analysis used repetitions {sorted(used)}, complete are {sorted(have)}")
        elif used:
            gofs = [float(obs.load_rep(out, idx, k).gof) for k in sorted(used)]
            # the analysis may scale the stored intensity a little better than the optimisation did
            rs = [obs.load_rep(out, idx, k) for k in sorted(used)]
            best = [ref.best_chi2(np.asarray(data["I"], float), np.asarray(data["ISigma"], float), np.asarray(r.modelI, float)) for r in rs]
            if not np.mean(best) * 0.8 - 1e-9 <= info <= np.mean(gofs) * 1.2 + 1e-9:
                raise Violation("analysis", f"analysis averages goodness of fit to {info}, the repetitions have {gofs}")
            if used != set(range(n)):
                ctx.probe("analysis_partial")
    # once the faults are over, another run completes everything
    err = optimise(out, seed="again")
    if err is not None:
        raise Violation("not-repaired", f"the next run without faults raised {type(err).__name__}: {err}")
    obs.need_reps(out, idx, range(n))
    for k in range(n):
        d = obs.diff(refs[k], obs.rep_tree(out, idx, k))
        if d:
            raise Violation("not-repaired", f"after the next run repetition {k} differs: {d[:6]}")
    ctx.nontrivial = bool(fired) or conflicts > 0
