"""C15: a stored repetition loads as it was and can be continued"""

import numpy as np

from .. import gen, obs, ref
from ..kernel import SimCrash, Violation

ID = "C15"
QUICK, THOROUGH = 400, 8000
MODELS = ("sphere", "cylinder", "sphere@hardsphere")
RULE = ("an optimisation (directly, or one of several repetitions run by simulated workers) ends at a limit or is interrupted at a generated random draw "
        "and is stored; then for one to four generations the program restarts, loads it, is compared with the file, continues with raised limits, is "
        "interrupted again or not, and stores into the same or another file, sometimes killed while storing; non-trivial = at least one continuation")


def make(rng, idx, tier):
    spec = gen.model_spec(rng, ("mcsas_sphere", "mcsas_sphere", "sim", "sphere", "cylinder", "sphere@hardsphere", "image"), auto=rng.random() < 0.5)
    n = rng.choice([1, 2, 3, 5, 8])
    log = rng.random() < 0.2
    if log:
        gen.reverse(rng, spec, 1.0)
    gens = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        gens.append({"more": rng.choice([0, 1, 5, 20, 40]), "conv": rng.choice([None, None, 1e-9, 0.5]), "accept": rng.choice([None, None, 1, 3]),
                     "stop": rng.randrange(1, 60) if rng.random() < 0.4 else None,
                     "alone": rng.choice([None, None, {}, {"maxIter": rng.randrange(100)}, {"convCrit": 0.25, "maxAccept": 7}]),
                     "to": rng.choice(["same", "same", "other"]), "kill": rng.random() if rng.random() < 0.12 else None})
    return {"spec": spec, "data": gen.data_spec(rng), "nContrib": n, "opt": gen.opt_spec(rng, (0, 1, 10, 25), (1e-9, 1e-3, 1.0, 50.0)), "first": rng.choice(["core", "hat", "hat"]),
            "stop": rng.randrange(1, 40) if rng.random() < 0.5 else None, "nRep": rng.choice([1, 2, 3, 12]), "nCores": rng.choice([1, 2, 3]),
            "seedarg": rng.choice([None, rng.randrange(10**6)]), "rep": rng.random(), "index": rng.choice([1, 1, 0, 2, 12]), "log": log,
            "dtype": rng.choice([None, "fast", "default", "single", "double"]) if spec["modelName"] in ("mcsas_sphere", "sim") else None,
            "gens": gens, "policy": rng.choice(gen.POLICIES)}


def arm(sim, n):
    """interrupt at the n-th random draw from now on"""
    sim.faults[:] = [f for f in sim.faults if f["do"] != "interrupt"]
    if n:
        sim.faults.append({"ev": "rng", "n": n, "do": "interrupt"})


def slack(model):
    return (1e-3, 1e-4) if model not in ("mcsas_sphere", "sim") else (1e-7, 1e-9)


def compare_model(m, s, who):
    cols = list(m.parameterSet.columns)
    if sorted(cols) != sorted(s.columns):
        raise Violation("load-parameters", f"{who}: loaded parameters {cols}, stored {s.columns}")
    for k, c in enumerate(s.columns):
        if not np.array_equal(np.asarray(m.parameterSet[c].values, float), s.data[:, k]):
            raise Violation("load-parameters", f"{who}: loaded values of {c} are {np.asarray(m.parameterSet[c].values, float).tolist()[:5]}, stored {s.data[:5, k].tolist()}")
    if m.nContrib != len(s.rows):
        raise Violation("load-parameters", f"{who}: loaded as {m.nContrib} contributions, {len(s.rows)} are stored")
    if str(m.modelName) != s.modelName:
        raise Violation("load-settings", f"{who}: loaded model {m.modelName!r}, stored {s.modelName!r}")
    if str(m.modelDType) != s.modelDType:
        raise Violation("load-settings", f"{who}: loaded number type {m.modelDType!r}, stored {s.modelDType!r}")
    if bool(m.logRandom) != s.log:
        raise Violation("load-settings", f"{who}: the model draws {'logarithmically' if m.logRandom else 'uniformly'}, stored was a run drawing {'logarithmically' if s.log else 'uniformly'}")
    if sorted(m.fitParameterLimits) != sorted(s.limits):
        raise Violation("load-settings", f"{who}: loaded limits of {sorted(m.fitParameterLimits)}, stored {sorted(s.limits)}")
    for k, v in s.limits.items():
        if not np.array_equal(np.asarray(m.fitParameterLimits[k], float), v):
            raise Violation("load-settings", f"{who}: loaded limits of {k} are {m.fitParameterLimits[k]}, stored {v.tolist()}")
    for k, v in s.static.items():
        if k not in m.staticParameters:
            raise Violation("load-settings", f"{who}: static parameter {k} was not loaded")
        w = m.staticParameters[k]
        if not (isinstance(w, np.ndarray) or np.isscalar(w) or isinstance(w, (list, tuple))) or not obs.isclose(w, v, 0):
            raise Violation("load-settings", f"{who}: static parameter {k} loaded as {w}, stored {v}")
    for k, v in m.staticParameters.items():
        if k not in s.static and v is not None:
            raise Violation("load-settings", f"{who}: static parameter {k}={v} appeared")


def compare_opt(o, s, who, given=()):
    for k in ("accepted", "step", "maxIter", "maxAccept", "convCrit"):
        v = given[k] if k in given else getattr(s, k)
        if float(getattr(o, k)) != float(v):
            raise Violation("load-counters", f"{who}: {k} loaded as {getattr(o, k)}, {'given' if k in given else 'stored'} {v}")
    if int(o.repetition) != s.n:
        raise Violation("load-counters", f"{who}: loaded as repetition {o.repetition}")
    for k in ("acceptedSteps", "acceptedGofs"):
        a, b = np.asarray(getattr(o, k), float).ravel(), np.atleast_1d(np.asarray(getattr(s, k), float))
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
            raise Violation("load-trace", f"{who}: {k} loaded as {a.tolist()[:8]}, stored {b.tolist()[:8]}")


def compare_loaded(mc, s, data, who):
    """the loaded objects against what the file says"""
    m, o = mc._model, mc._opt
    compare_model(m, s, who)
    compare_opt(o, s, who)
    tot, vols = ref.total(s.modelName, obs.qs(data), s.rows, s.static)
    rtol, atol = obs.tol_for(s.modelName, obs.qs(data), s.limits, s.static, int(s.step) + len(s.rows))
    if not obs.isclose(o.modelI, np.asarray(s.modelI, float), rtol, 2 * atol):
        raise Violation("reevaluate", f"{who}: the re-evaluated intensity is not the stored one")
    if not obs.isclose(o.modelI, tot, rtol, atol):
        raise Violation("reevaluate", f"{who}: the re-evaluated intensity is not that of the stored contributions")
    if not obs.isclose(m.volumes, np.asarray(s.volumes, float), max(rtol, 1e-9)):
        raise Violation("reevaluate", f"{who}: the re-evaluated volumes are not the stored ones")
    g = ref.chi2(data["I"], data["ISigma"], np.asarray(o.modelI, float), np.asarray(o.x0, float))
    if not obs.isclose(o.gof, g, 1e-8, 1e-12):
        raise Violation("reevaluate", f"{who}: goodness of fit {o.gof} does not belong to intensity and scaling ({g})")
    # single-precision models give a slightly different intensity each way they are summed
    start = max(float(s.gof), ref.chi2(data["I"], data["ISigma"], np.asarray(o.modelI, float), np.asarray(s.x0, float)))
    if not o.gof <= start * (1 + 1e-7) + 1e-9:
        raise Violation("reevaluate-worse", f"{who}: re-evaluated goodness of fit {o.gof} is worse than the stored {float(s.gof)}")


def run(plan, ctx):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    spec, idx, nc = plan["spec"], plan["index"], plan["nContrib"]
    data = gen.meas_data(plan["data"], spec)
    lim = gen.limits_for(spec, obs.qs(data))
    cur, rep = ctx.path("g0.h5"), 0
    if plan["first"] == "hat":
        with ctx.boot(plan["policy"], cpu=3, max_steps=20000 + 8000 * plan["nRep"]):
            kw = {}
            if plan["dtype"]:
                kw["modelDType"] = plan["dtype"]
            McHat(resultIndex=idx, **gen.hat_args(spec, plan["opt"], nc, plan["nRep"], plan["nCores"], seed=plan["seedarg"], **kw)).run(dict(data), cur)
        rep = int(plan["rep"] * plan["nRep"])
    else:
        with ctx.boot("fifo", max_steps=40000) as sim:
            model = McModel(seed=plan["seedarg"], nContrib=nc, modelName=spec["modelName"], staticParameters=dict(spec["staticParameters"]),
                            fitParameterLimits={k: list(v) for k, v in lim.items()}, logRandom=plan["log"], resultIndex=idx,
                            **({"modelDType": plan["dtype"]} if plan["dtype"] else {}))
            mc = McCore(dict(data), model=model, opt=McOpt(resultIndex=idx, **plan["opt"]), resultIndex=idx)
            arm(sim, plan["stop"])
            try:
                mc.optimize()
            except KeyboardInterrupt:
                ctx.probe("interrupted")
            arm(sim, None)
            mc.store(cur)
    others = obs.rep_numbers(cur, idx)[0] - {rep}
    went = 0
    for gi, g in enumerate(plan["gens"]):
        who = f"generation {gi + 1} of repetition {rep}"
        s = obs.load_rep(cur, idx, rep)
        s.log = plan["log"]
        if s.modelDType != (plan["dtype"] or "fast"):
            raise Violation("settings", f"{who}: number type stored as {s.modelDType!r}, configured {plan['dtype']}")
        keep = {k: obs.rep_tree(cur, idx, k) for k in others} if cur.exists() else {}
        dest = cur if g["to"] == "same" else ctx.path(f"g{gi + 1}.h5")
        dest_new = not dest.exists()
        faults = []
        if g["kill"] is not None:
            faults.append({"ev": "h5.closed", "n": 15 + int(g["kill"] * 45), "do": "crash"})
        lo_hi = {k: (min(v), max(v)) for k, v in s.limits.items()}
        st = {"mc": None}

        def watch(sim, kind, info):
            if kind != "rng" or st["mc"] is None:
                return
            o = st["mc"]._opt
            if not ((o.accepted < o.maxAccept) and (o.step < o.maxIter) and (o.gof > o.convCrit)):
                raise Violation("limits", f"{who}: iterating at accepted {o.accepted}/{o.maxAccept}, step {o.step}/{o.maxIter}, goodness of fit {o.gof}/{o.convCrit}")

        killed = False
        start = None
        try:
            with ctx.boot("fifo", faults=faults, max_steps=60000) as sim:
                sim.observers.append(watch)
                if g.get("alone") is not None:  # the parts by themselves, settings given replace loaded ones
                    compare_opt(McOpt(loadFromFile=cur, loadFromRepetition=rep, resultIndex=idx, **g["alone"]), s, f"{who}, settings alone", g["alone"])
                    compare_model(McModel(loadFromFile=cur, loadFromRepetition=rep, resultIndex=idx), s, f"{who}, model alone")
                    if gi == 0 and plan["first"] == "hat":
                        hat = McHat(loadFromFile=cur, resultIndex=idx, **({"nCores": 2} if g["alone"] else {}))
                        if hat.nRep != plan["nRep"] or hat.nCores != (2 if g["alone"] else plan["nCores"]):
                            raise Violation("load-settings", f"{who}: {hat.nRep} repetitions with {hat.nCores} workers loaded, {plan['nRep']} with {plan['nCores']} were run")
                    ctx.probe("loaded_alone")
                mc = McCore(dict(data), loadFromFile=cur, loadFromRepetition=rep, resultIndex=idx)
                compare_loaded(mc, s, data, who)
                o = mc._opt
                start = float(o.gof)
                o.maxIter = int(o.step) + g["more"] if g["more"] else o.maxIter
                if g["conv"] is not None:
                    o.convCrit = g["conv"]
                if g["accept"] is not None:
                    o.maxAccept = int(o.accepted) + g["accept"]
                elif g["more"]:
                    o.maxAccept = np.inf
                want = {k: float(getattr(o, k)) for k in ("maxIter", "maxAccept", "convCrit")}
                st["mc"] = mc
                arm(sim, g["stop"])
                try:
                    mc.optimize()
                except KeyboardInterrupt:
                    ctx.probe("interrupted")
                arm(sim, None)
                st["mc"] = None
                mc.store(dest)
        except SimCrash:
            killed = True
            ctx.probe("killed")
        if killed:
            # the other repetitions do not suffer; this one is as before, gone in part, or complete and new
            for k, t in keep.items():
                if obs.rep_tree(cur, idx, k) != t:
                    raise Violation("others", f"{who}: killed while storing, repetition {k} changed")
            break
        t = obs.load_rep(dest, idx, rep)
        grown = int(t.step) - int(s.step)
        who += f" ({int(s.step)}->{int(t.step)} iterations)"
        if t.step < s.step or t.accepted < s.accepted:
            raise Violation("counters", f"{who}: step {s.step}->{t.step}, accepted {s.accepted}->{t.accepted}")
        if t.accepted - s.accepted > grown:
            raise Violation("counters", f"{who}: {t.accepted - s.accepted} accepted in {grown} iterations")
        for k in ("acceptedSteps", "acceptedGofs"):
            a, b = np.atleast_1d(getattr(s, k)), np.atleast_1d(getattr(t, k))
            if len(b) != len(a) + int(t.accepted - s.accepted) or not np.array_equal(np.asarray(b[: len(a)], float), np.asarray(a, float)):
                raise Violation("trace", f"{who}: {k} was {a.tolist()[:8]} and became {b.tolist()[:8]} with {s.accepted}->{t.accepted} accepted")
        ns, ng = np.atleast_1d(t.acceptedSteps), np.atleast_1d(t.acceptedGofs)
        k0 = int(s.accepted) + 1
        new_steps, new_gofs = ns[k0:], ng[k0:]
        if len(new_steps):
            if np.any(np.diff(new_steps) <= 0) or new_steps[0] < s.step or new_steps[-1] >= t.step:
                raise Violation("trace", f"{who}: new acceptance steps {new_steps.tolist()[:8]}")
            if np.any(np.diff(new_gofs) >= 0) or not new_gofs[0] < start:
                raise Violation("trace", f"{who}: new accepted goodness of fit {start} -> {new_gofs.tolist()[:8]}")
            if not obs.isclose(new_gofs[-1], t.gof, 1e-12):
                raise Violation("trace", f"{who}: trace ends at {new_gofs[-1]}, goodness of fit is {t.gof}")
        elif float(t.gof) != start:
            raise Violation("trace", f"{who}: nothing accepted but goodness of fit went {start} -> {float(t.gof)}")
        a, b = slack(spec["modelName"])
        if not float(t.gof) <= max(float(s.gof) * (1 + a) + b, start if spec["modelName"] not in ("mcsas_sphere", "sim") else 0):
            raise Violation("worse", f"{who}: ends with goodness of fit {float(t.gof)}, stored was {float(s.gof)}")
        if t.step > max(want["maxIter"], s.step) or t.accepted > max(want["maxAccept"], s.accepted):
            raise Violation("limits", f"{who}: step {t.step} accepted {t.accepted} with limits {want}")
        for k, v in want.items():
            if float(getattr(t, k)) != v:
                raise Violation("settings", f"{who}: {k} stored as {getattr(t, k)}, was {v}")
        for k, v in s.limits.items():
            if not np.array_equal(t.limits.get(k), v):
                raise Violation("settings", f"{who}: limits of {k} stored as {t.limits.get(k)}, were {v}")
        for row in t.rows:
            for k, v in row.items():
                eps = 1e-9 * abs(lo_hi[k][1])
                if not lo_hi[k][0] - eps <= v <= lo_hi[k][1] + eps:
                    raise Violation("outside", f"{who}: contribution with {k}={v} outside {lo_hi[k]}")
        same = sum(1 for x, y in zip(s.rows, t.rows) if x == y)
        if len(s.rows) != len(t.rows) or len(s.rows) - same > t.accepted - s.accepted:
            raise Violation("contributions", f"{who}: {len(s.rows) - same} contributions changed by {t.accepted - s.accepted} accepted moves")
        obs.check_rep(t, data, spec, trace=False)
        if dest == cur:
            for k, v in keep.items():
                if obs.rep_tree(cur, idx, k) != v:
                    raise Violation("others", f"{who}: storing it changed repetition {k}")
            if obs.rep_numbers(cur, idx) != (others | {rep}, others | {rep}):
                raise Violation("others", f"{who}: repetitions stored now {obs.rep_numbers(cur, idx)}")
        elif dest_new and obs.rep_numbers(dest, idx) != ({rep}, {rep}):
            raise Violation("others", f"{who}: stored into a new file as {obs.rep_numbers(dest, idx)}")
        else:
            others = set()
        if dest != cur:
            others = set()
        cur = dest
        went += grown > 0
        ctx.probe("continued" if grown else "nothing_to_do")
        ctx.probe("iterations", grown)
        ctx.mix(gi, int(t.step), int(t.accepted), float(t.gof))
    ctx.nontrivial = went > 0
