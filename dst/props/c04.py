"""C04: the optimiser accepts exactly the picks that improve the fit"""

import numpy as np

from .. import gen, obs, ref
from ..kernel import HarnessError, Violation
from ..seams import quiet

ID = "C04"
QUICK, THOROUGH = 240, 8000
MODELS = ("sphere", "cylinder")
RULE = ("one optimisation per evaluation, driven pick by pick: the simulator supplies ordinary and adversarial random values (limits, the value "
        "already present, tiny changes, values with non-finite intensity) and lets model evaluations fail or the user interrupt; the complete state "
        "is compared before and after every iteration; non-trivial = at least one accepted and one rejected pick")
ASSUMPTIONS = ["the optimiser's state is read from McCore/McModel/McOpt attributes at the moment the random generator is asked for the next value"]


def make(rng, idx, tier):
    spec = gen.model_spec(rng, ("mcsas_sphere",) * 5 + ("sim", "sim", "sphere", "cylinder", "cylinder", "image"), auto=False)
    if spec["modelName"] == "mcsas_sphere" and rng.random() < 0.5:
        k = "radius"
        spec["fitParameterLimits"][k] = [0.0, spec["fitParameterLimits"][k][1]]  # radius 0: 0/0 intensity
    n = rng.choice([1, 2, 3, 4, 6])
    iters = rng.choice([10, 20, 40, 60])
    faults = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        faults.append({"ev": rng.choice(["rng", "kernel", "kernel"]), "n": rng.randrange(n * 3, n * 3 + iters * 2),
                       "do": rng.choice(["memory", "interrupt"])})
    every = 1
    if rng.random() < 0.04:
        # long optimisations, and many contributions
        spec = gen.model_spec(rng, ("mcsas_sphere",), auto=False)
        n, iters, every = rng.choice([(1, 1100, 1), (2, 900, 1), (1, 2100, 1), (260, 330, 25), (300, 520, 40)])
        for f in faults:
            f["n"] = rng.randrange(n * 3, n * 3 + iters * 2)
    long = iters > 60
    return {"spec": spec, "data": gen.data_spec(rng), "nContrib": n, "every": every,
            "opt": {"maxIter": iters, "convCrit": 1e-9 if long else rng.choice([1e-9, 1e-9, 1e-9, 0.5, 2.0])},
            "adv": rng.choice([0.0, 0.3, 0.6, 0.9] if not long else [0.0, 0.0, 0.6]), "seedarg": rng.randrange(10**6), "faults": faults, "log": rng.random() < 0.25}


class Proxy:
    """the compiled or pure-python kernel behind a seam"""

    def __init__(self, kernel, sim):
        self._k, self._s = kernel, sim

    def __call__(self, *a, **k):
        self._s.point("kernel", None, sched=False)
        return self._k(*a, **k)


def state(mc):
    m, o = mc._model, mc._opt
    return {
        "params": np.array(m.parameterSet.values, float), "volumes": np.array(m.volumes, float), "modelI": np.array(o.modelI, float),
        "x0": np.array(o.x0, float), "gof": float(o.gof), "accepted": int(o.accepted), "step": int(o.step),
        "steps": list(o.acceptedSteps), "gofs": list(o.acceptedGofs),
    }


KEYS = ("params", "volumes", "modelI", "x0", "gof", "accepted", "steps", "gofs")


def same(a, b, keys):
    for k in keys:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
                return k
        elif x != y and not (x != x and y != y):
            return k
    return None


def run(plan, ctx):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    import random

    spec, n = plan["spec"], plan["nContrib"]
    data = gen.meas_data(plan["data"], dict(spec, fitParameterLimits={k: [max(v[0], 1.0) if k == "radius" else v[0], v[1]] for k, v in spec["fitParameterLimits"].items()}))
    q = obs.qs(data)
    name = spec["modelName"]
    st = {"mc": None, "prev": None, "acc": 0, "rej": 0, "nan": 0, "iters": 0, "dirty": False}
    adv_rng = random.Random(plan["seedarg"])
    cols = sorted(spec["fitParameterLimits"])

    with ctx.boot("fifo", faults=plan["faults"], max_steps=200000) as sim:

        def adversary(s, low, high):
            mc = st["mc"]
            if mc is None or adv_rng.random() >= plan["adv"]:
                return None
            kind = adv_rng.choice(["low", "high", "same", "near", "near", "mid", "other"])
            if kind == "low":
                return low
            if kind == "high":
                return high
            if kind == "mid":
                return low + (high - low) * 0.5
            par = list(mc._model.parameterSet.columns)
            row = int(mc._opt.step) % n
            if kind == "other":
                row = adv_rng.randrange(n)
            vs = [float(x) for x in mc._model.parameterSet.iloc[row]]
            if plan["log"]:
                vs = [np.log10(x) if x > 0 else low for x in vs]
            # the simulator does not know which parameter is being drawn: one that fits the limits asked for
            fit = [x for x in vs if low <= x <= high] or vs
            v = adv_rng.choice(fit)
            if kind == "near":
                v *= 1 + adv_rng.choice([-1, 1]) * adv_rng.choice([1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-9, 1e-15])
            return float(min(max(v, low), high))

        def check_move(a, b, pick):
            """a, b: state before and after one iteration"""
            it = a["step"]
            if b["step"] != it + 1:
                raise Violation("step", f"iteration {it} was followed by step {b['step']}")
            i0 = it % n
            accepted = b["accepted"] - a["accepted"]
            if accepted not in (0, 1):
                raise Violation("counter", f"accepted moves went from {a['accepted']} to {b['accepted']} in one iteration")
            pick = np.array([pick[c] for c in st["mc"]._model.parameterSet.columns], float)
            # what the replacement would give, evaluated as the optimiser's own building blocks do it
            with quiet(sim), np.errstate(all="ignore"):
                m = st["mc"]._model
                kern, m.kernel = m.kernel, st["kernel"]
                try:
                    cs = list(m.parameterSet.columns)
                    io, _ = m.calcModelIV(dict(zip(cs, a["params"][i0])))
                    ip, vp = m.calcModelIV(dict(zip(cs, pick)))
                    # the same sum in different orders: what rounding alone can change is not judged
                    cands = [st["mc"]._OSB.match(ci, np.array(a["x0"]))[1]
                             for ci in (a["modelI"] + (ip - io), (a["modelI"] + ip) - io, (a["modelI"] - io) + ip)]
                    cand = cands[0]
                finally:
                    m.kernel = kern
            if not np.isfinite(cand):
                st["nan"] += 1
            if accepted:
                st["acc"] += 1
                if not b["gof"] < a["gof"]:
                    raise Violation("accepted-worse", f"iteration {it}: accepted although goodness of fit went from {a['gof']} to {b['gof']}")
                if not np.isfinite(cand) or min(cands) > a["gof"] * (1 + 1e-9) + 1e-20:
                    raise Violation("accepted-worse", f"iteration {it}: accepted a pick of goodness of fit {cand} over {a['gof']}")
                want = a["params"].copy()
                want[i0] = pick
                ch = np.argwhere((a["params"] != b["params"]).any(axis=1)).ravel().tolist()
                if any(c != i0 for c in ch):
                    raise Violation("replaced", f"iteration {it}: contributions {ch} changed, only {i0} was to be replaced")
                if not np.array_equal(want, b["params"]):
                    raise Violation("replaced", f"iteration {it}: contribution {i0} became {b['params'][i0]}, the pick was {pick}")
                vol = a["volumes"].copy()
                vol[i0] = vp
                if not np.allclose(vol, b["volumes"], rtol=1e-12, atol=0):
                    raise Violation("volumes", f"iteration {it}: volumes {b['volumes']} after accepting contribution {i0}, expected {vol}")
                if b["steps"] != a["steps"] + [it] or b["gofs"] != a["gofs"] + [b["gof"]]:
                    raise Violation("trace", f"iteration {it}: acceptance trace ends {b['steps'][-2:]}, {b['gofs'][-2:]} at goodness of fit {b['gof']}")
                g = ref.chi2(data["I"], data["ISigma"], b["modelI"], b["x0"])
                if not np.isclose(g, b["gof"], rtol=1e-8):
                    raise Violation("gof", f"iteration {it}: goodness of fit {b['gof']}, intensity and scaling after acceptance give {g}")
            else:
                st["rej"] += 1
                if max(cands) < a["gof"] * (1 - 1e-9) - 1e-20:
                    raise Violation("rejected-better", f"iteration {it}: a pick of goodness of fit {cand} was rejected at {a['gof']}")
                k = same(a, b, KEYS)
                if k:
                    raise Violation("rejected-changed", f"iteration {it}: {k} changed although the pick was rejected")

        def check_sum(b):
            if b["step"] % plan["every"]:
                return
            fin = b["params"]
            rows = [dict(zip(cols_of(), r)) for r in fin]
            with quiet(sim), np.errstate(all="ignore"):
                tot, vols = ref.total(name, q, rows, spec["staticParameters"])
                rtol, atol = obs.tol_for(name, q, {k: [max(v[0], 1e-3), v[1]] for k, v in spec["fitParameterLimits"].items()},
                                         spec["staticParameters"], b["step"] + n)
            if not obs.isclose(b["modelI"], tot, rtol, atol):
                raise Violation("intensity", f"after step {b['step']} the total intensity is not the sum over the current contributions")
            if not obs.isclose(b["volumes"], vols, 1e-5):
                raise Violation("volumes", f"after step {b['step']} the volumes are not those of the current contributions")

        def cols_of():
            return list(st["mc"]._model.parameterSet.columns)

        def at_draw():
            """called whenever the generator is asked for a value"""
            mc = st["mc"]
            if mc is None:
                return
            b = state(mc)
            a = st["prev"]
            if a is not None and a["step"] != b["step"]:
                check_move(a, b, st["pick"]())
                check_sum(b)
                st["iters"] += 1
            elif a is not None:
                k = same(a, b, KEYS)
                if k:
                    raise Violation("changed-outside", f"{k} changed in the middle of iteration {b['step']}")
            st["prev"] = b

        sim.adversary = adversary
        sim.observers.append(lambda s, kind, info: at_draw() if kind == "rng" else None)

        model = McModel(seed=plan["seedarg"], nContrib=n, modelName=name, staticParameters=dict(spec["staticParameters"]),
                        fitParameterLimits={k: [max(v[0], 1.0) if k == "radius" else v[0], v[1]] for k, v in spec["fitParameterLimits"].items()},
                        logRandom=plan["log"])
        model.fitParameterLimits = {k: list(v) for k, v in spec["fitParameterLimits"].items()}
        if plan["log"]:
            model.fitParameterLimits = {k: [max(v[0], 1e-3), v[1]] for k, v in model.fitParameterLimits.items()}
        opt = McOpt(**plan["opt"])
        try:
            mc = McCore(data, model=model, opt=opt)
        except MemoryError:
            ctx.probe("failed_before_start")
            return
        st["kernel"] = model.kernel
        if name in ("mcsas_sphere", "sim"):
            model.kernel = Proxy(model.kernel, sim)
        s0 = state(mc)
        st["mc"] = mc
        st["pick"] = lambda: dict(mc._model.pickParameters)
        check_sum(s0)
        left = len(plan["faults"]) + 1
        while left:
            left -= 1
            before = st["prev"]
            try:
                with np.errstate(all="ignore"):
                    mc.optimize()
                break
            except (MemoryError, KeyboardInterrupt) as e:
                # whatever was interrupted: the state is that of the last completed iteration
                ctx.probe("interrupted_" + type(e).__name__)
                b = state(mc)
                if st["prev"] is not None:
                    if b["step"] != st["prev"]["step"]:
                        raise Violation("interrupted", "the step counter moved although the iteration was interrupted")
                    k = same(st["prev"], b, KEYS)
                    if k:
                        raise Violation("interrupted", f"{k} changed by an iteration that failed ({type(e).__name__})")
        end = state(mc)
        if st["prev"] is not None and end["step"] != st["prev"]["step"]:
            check_move(st["prev"], end, st["pick"]())
            check_sum(end)
        if end["gof"] > s0["gof"]:
            raise Violation("accepted-worse", f"goodness of fit rose from {s0['gof']} to {end['gof']} over the optimisation")
    ctx.mix(end["accepted"], end["gof"], st["nan"])
    if st["nan"]:
        ctx.probe("non_finite_pick", st["nan"])
    ctx.probe("accepted", st["acc"])
    ctx.probe("rejected", st["rej"])
    ctx.nontrivial = st["acc"] > 0 and st["rej"] > 0
