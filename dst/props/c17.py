"""C17: a run is unaffected by what the process did before"""

import copy

import numpy as np
import pandas

from .. import gen, obs
from ..kernel import Violation

ID = "C17"
QUICK, THOROUGH = 480, 8000
MODELS = ("sphere", "cylinder", "sphere@hardsphere")
RULE = ("a seeded run is executed in a freshly started program and again at the end of a generated history of runs (same or other object, model, "
        "parameters, data, worker count), loads, continuations, analyses, reads, failing and interrupted runs in one process, under another schedule; the complete "
        "stored results are compared value for value; non-trivial = at least one earlier run in the process")


def spec_for(rng, kinds):
    s = gen.model_spec(rng, kinds)
    # leave some settings to the model's defaults
    st = s["staticParameters"]
    if s["modelName"] != "sim" and rng.random() < 0.6:
        for k in rng.sample(sorted(st), rng.randrange(1, len(st) + 1)):
            del st[k]
    return s


def job(rng, kinds=("mcsas_sphere", "mcsas_sphere", "sim", "sphere", "sphere", "cylinder", "sphere@hardsphere", "image")):
    s = spec_for(rng, kinds)
    j = {"spec": s, "data": gen.data_spec(rng), "nContrib": rng.choice([1, 2, 4]), "nRep": rng.choice([1, 2, 3, 4]), "nCores": rng.choice([0, 1, 1, 2, 3]),
         "opt": gen.opt_spec(rng, (0, 3, 10, 25)), "seedarg": rng.choice([None, 0, 7, rng.randrange(10**6)]), "log": rng.random() < 0.25}
    if rng.random() < 0.3:
        j["opt"].pop("convCrit", None)
    j["omit"] = [k for k in ("nCores",) if rng.random() < 0.3]
    return j


OPS = ("hat", "hat", "hat", "used", "used", "same", "load", "analysis", "fail", "interrupt", "shared", "shared", "read", "legacy", "baddata")


def make(rng, idx, tier):
    t = job(rng)
    t["seedarg"] = rng.choice(["default", 0, 7, rng.randrange(10**6)])
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        o = {"op": rng.choice(OPS)}
        j = job(rng)
        k = rng.random()
        if k < 0.65:  # the same model with other settings
            other = job(rng, (t["spec"]["modelName"],))
            j["spec"] = other["spec"]
        if k < 0.15:
            j["spec"] = copy.deepcopy(t["spec"])
        o["job"], o["rngfault"] = j, rng.randrange(1, 12)
        ops.append(o)
    return {"target": t, "ops": ops, "hat": rng.choice(["new", "new", "old", "used"]), "cpu": rng.choice([1, 2, 4]), "policy": rng.choice(gen.POLICIES), "policy2": rng.choice(gen.POLICIES),
            "twice": rng.random() < 0.3, "held": rng.random() < 0.4, "index": rng.choice([1, 1, 3])}


def mkdata(j):
    spec = copy.deepcopy(j["spec"])
    full = {"scale": 1.0, "background": 0.0, "sld": 33.4, "sld_solvent": 0.0}
    if spec["modelName"] != "sim":
        if spec["modelName"] == "sphere@hardsphere":
            full.update({"volfraction": 0.1, "radius_effective": 20.0})
        spec["staticParameters"] = {**full, **spec["staticParameters"]}
    return gen.meas_data(j["data"], spec)


def args_for(j):
    kw = {} if j["seedarg"] == "default" else {"seed": j["seedarg"]}
    if j["log"]:
        kw["logRandom"] = True
    d = gen.hat_args(j["spec"], j["opt"], j["nContrib"], j["nRep"], j["nCores"], **kw)
    for k in j.get("omit", ()):
        d.pop(k, None)
    return d


def run(plan, ctx):
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_core import McCore
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    t, idx = plan["target"], plan["index"]
    data = mkdata(t)
    a = ctx.path("a.h5")
    steps = 20000 + 8000 * t["nRep"]
    with ctx.boot(plan["policy"], cpu=plan["cpu"], max_steps=steps):
        McHat(resultIndex=idx, **args_for(t)).run(copy.deepcopy(data), a, resultIndex=idx)
    want = obs.tree(a)

    def single():
        """one optimisation built from its parts"""
        c = args_for(t)
        settings = {k: c.pop(k) for k in McOpt.storeKeys if k in c}
        c["fitParameterLimits"] = gen.limits_for(t["spec"], obs.qs(data))
        model = McModel(resultIndex=idx, **{k: v for k, v in c.items() if k in McModel.settables})
        return McCore(copy.deepcopy(data), model=model, opt=McOpt(resultIndex=idx, **settings), resultIndex=idx)

    if plan["held"]:
        with ctx.boot("fifo", max_steps=steps):
            mc = single()
            mc.optimize()
            mc.store(ctx.path("single.h5"))
    earlier = 0
    done = []
    with ctx.boot(plan["policy2"], cpu=plan["cpu"], max_steps=400000) as sim:
        conf = args_for(t)
        mine = copy.deepcopy(data)
        hat = McHat(resultIndex=idx, **conf) if plan["hat"] != "new" else None
        results = []
        held = single() if plan["held"] else None
        for k, o in enumerate(plan["ops"]):
            j, op = o["job"], o["op"]
            out = ctx.path(f"h{k}.h5")
            od = mkdata(j)
            tag = op
            if op == "hat":
                McHat(**args_for(j)).run(od, out)
                results.append((out, od, 1, j))
            elif op == "used" and hat is not None:
                # the very object, with other data
                od = mkdata({**t, "data": j["data"]})
                hat.run(od, out, resultIndex=idx if k % 2 else None)
                results.append((out, od, idx, t))
            elif op in ("same", "used"):
                McHat(resultIndex=idx, **conf).run(mine, out, resultIndex=idx)
                compare(want, out, "an identical run", done)
                results.append((out, mine, idx, t))
            elif op == "shared":
                # another configuration sharing the caller's parameter dictionaries
                sh = dict(conf)
                if len(od["Q"]) != len(data["Q"]):
                    od = mkdata({**t, "data": j["data"]})
                sh.update({"nRep": j["nRep"], "nContrib": j["nContrib"], "nCores": j["nCores"], "seed": j["seedarg"], **j["opt"]})
                McHat(**sh).run(od, out)
                results.append((out, od, 1, {**t, "nRep": j["nRep"]}))
            elif op == "fail":
                bad = args_for(j)
                bad["staticParameters"] = {"nosuch": 3} if j["spec"]["modelName"] in ("mcsas_sphere", "sim") else {}
                bad["modelName"] = j["spec"]["modelName"] if bad["staticParameters"] else "no_such_model"
                try:
                    McHat(**bad).run(od, out)
                except Exception as e:
                    ctx.probe("failed " + type(e).__name__)
            elif op == "baddata":
                try:
                    McHat(**args_for(j)).run({"Q": [np.array([1.0, 2.0])], "I": np.array([np.nan, 1.0]), "ISigma": np.ones(2)}, out)
                except Exception as e:
                    ctx.probe("failed " + type(e).__name__)
            elif op == "interrupt":
                sim.faults.append({"ev": "rng", "n": o["rngfault"], "do": "interrupt", "pid": 0})
                try:
                    McHat(**{**args_for(j), "nCores": 1}).run(od, out)
                except KeyboardInterrupt:
                    ctx.probe("interrupted")
                sim.faults.clear()
            elif op == "load" and results:
                f, d, i, jj = results[k % len(results)]
                c = McCore(d, loadFromFile=f, loadFromRepetition=jj["nRep"] - 1, resultIndex=i)
                c._opt.maxIter = c._opt.step + 4
                c.optimize()
                c.store(out)
            elif op == "analysis" and results:
                f, d, i, jj = results[k % len(results)]
                with np.errstate(all="ignore"):
                    McAnalysis(f, dict(d), gen.hist_frame([{"parameter": sorted(jj["spec"]["fitParameterLimits"])[0], "nBin": 3, "binScale": "linear", "presetRangeMin": 1.0,
                                                            "presetRangeMax": 50.0, "binWeighting": "vol", "autoRange": False}]), store=True, resultIndex=i)
            elif op == "read":
                df = pandas.DataFrame({"Q": od["Q"][0], "I": od["I"], "ISigma": od["ISigma"]})
                McData1D(df=df, nbins=3, dataRange=[0.0, 1.0]).store(out)
                McData1D(loadFromFile=out)
            elif op == "legacy":
                np.random.seed(j["nContrib"])
                np.random.random(7)
            else:
                tag = "nothing"
            done.append(tag + ":" + j["spec"]["modelName"])
            earlier += tag not in ("nothing", "legacy", "read")
            ctx.probe("op_" + tag)
        if plan["hat"] == "new" or hat is None:
            hat = McHat(resultIndex=idx, **conf)
        b = ctx.path("b.h5")
        if plan["hat"] == "used":
            hat.run(mkdata(plan["ops"][0]["job"] | {"spec": t["spec"]}), ctx.path("used.h5"), resultIndex=idx)
            earlier += 1
        hat.run(mine, b, resultIndex=idx)
        if plan["twice"]:
            hat.run(mine, ctx.path("c.h5"), resultIndex=idx)
        if held is not None:
            held.optimize()
            held.store(ctx.path("held.h5"))
            ctx.probe("prepared_before")
    if plan["held"]:
        compare(obs.tree(ctx.path("single.h5")), ctx.path("held.h5"), f"an optimisation prepared before and run after {done}", done)
    compare(want, b, f"the run after {done} ({plan['hat']} object)", done)
    if plan["twice"]:
        compare(want, ctx.path("c.h5"), f"the second of two runs after {done} ({plan['hat']} object)", done)
    for key in ("Q", "I", "ISigma"):
        x, y = np.asarray(data[key], float), np.asarray(mine[key], float)
        if x.shape != y.shape or not np.array_equal(x, y):
            raise Violation("data", f"running changed {key} of the data handed in")
    ctx.nontrivial = earlier > 0


def compare(want, path, what, done):
    got = obs.tree(path)
    d = obs.diff(want, got)
    if d:
        raise Violation("history-dependent", f"{what} stores other results than in a fresh process: {d[:8]}")
