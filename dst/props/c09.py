"""C09: result indices and foreign content of the file are isolated"""

import shutil

import numpy as np
import pandas

from .. import gen, obs
from ..kernel import SimCrash, Violation
from ..seams import RealFile

ID = "C09"
QUICK, THOROUGH = 120, 6000
MODELS = ()
RULE = ("a generated sequence of store, optimise and histogram operations under several result indices on one file with foreign content, some of "
        "them killed, interrupted or meeting failing opens; the complete file tree outside the index worked on is compared around every operation, "
        "and at the end what each index yields is compared with a file that holds only that index; non-trivial = at least two indices used")

INDICES = (1, 0, 2, 10, 11, 100)


def make(rng, idx, tier):
    inds = rng.sample(INDICES, rng.choice([2, 2, 3]))
    if rng.random() < 0.5 and 1 not in inds:
        inds[0] = 1
    runs = {}
    for i in inds:
        runs[str(i)] = {"spec": gen.model_spec(rng, ("mcsas_sphere", "mcsas_sphere", "sim")), "data": gen.data_spec(rng), "nRep": rng.choice([1, 2, 3]),
                        "nContrib": rng.choice([1, 2, 3]), "nCores": rng.choice([1, 1, 2]), "seedarg": rng.randrange(1000),
                        "opt": {"maxIter": rng.choice([2, 6]), "convCrit": 1e-9}, "how": rng.choice(["both", "run", "ctor"])}
        runs[str(i)]["ranges"] = gen.hist_ranges(rng, runs[str(i)]["spec"], np.array([0.05, 2.0]), rng.choice([1, 2]))
    ops = []
    for i in inds:
        for what in ("data", "opt", "hist"):
            ops.append([what, i])
    # interleave the indices, each index keeps its order; then more of anything
    seqs = {i: ["data", "opt", "hist"] for i in inds}
    ops = []
    while any(seqs.values()):
        i = rng.choice([k for k in inds if seqs[k]])
        ops.append({"what": seqs[i].pop(0), "idx": i})
    for _ in range(rng.choice([0, 1, 2])):
        ops.append({"what": rng.choice(["data", "opt", "hist"]), "idx": rng.choice(inds)})
    for o in ops:
        if rng.random() < 0.3:
            o["fault"] = {"do": rng.choice(["crash", "crash", "interrupt", "EIO", "EAGAIN"]), "at": rng.random()}
    return {"runs": runs, "ops": ops, "policy": rng.choice(gen.POLICIES), "foreign": rng.random() < 0.8,
            "free": rng.choice([i for i in INDICES if i not in inds])}


def do(op, cfg, out, data, sim=None):
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat

    i = op["idx"]
    if op["what"] == "data":
        df = pandas.DataFrame({"Q": data["Q"][0], "I": data["I"], "ISigma": data["ISigma"]})
        McData1D(df=df, nbins=0, resultIndex=i).store(out)
    elif op["what"] == "opt":
        args = gen.hat_args(cfg["spec"], cfg["opt"], cfg["nContrib"], cfg["nRep"], cfg["nCores"], seed=cfg["seedarg"])
        ctor = {"resultIndex": i} if cfg["how"] in ("both", "ctor") else {}
        call = {"resultIndex": i} if cfg["how"] in ("both", "run") else {}
        McHat(**ctor, **args).run(data, out, **call)
    else:
        with np.errstate(all="ignore"):
            md = McData1D(loadFromFile=out, resultIndex=i).measData.copy()
            return McAnalysis(out, md, gen.hist_frame(cfg["ranges"]), store=True, resultIndex=i)


def outside(tree, i):
    root = obs.entry(i)
    return {k: v for k, v in tree.items() if not obs.under(k, root) and k not in ("/", "/analyses")}


def run(plan, ctx):
    out = ctx.path("f.h5")
    runs = plan["runs"]
    datas = {k: gen.meas_data(c["data"], c["spec"]) for k, c in runs.items()}
    if plan["foreign"]:
        with RealFile(out, "w") as f:
            f.attrs["default"] = "entry"
            f["entry/data/I"] = np.arange(7.0)
            f["entry/data"].attrs["signal"] = "I"
            f["entry/data/I"].attrs["units"] = "1/m"
            f["analyses/notes"] = "written by hand"
            f["MCResult1/model/modelName"] = "not ours"
            f["mcdata/rawData/Q"] = np.ones(3)
            f["analyses/other/model"] = 1
            f["analyses/MCResult"] = 5.0
            f["entry/link"] = __import__("h5py").SoftLink("/entry/data/I")
            f["optimization/nRep"] = 3
    attrs0 = None
    clean = {}  # last operation on the index ended without a fault
    solo = {}
    done = {}
    for k, op in enumerate(plan["ops"]):
        i = op["idx"]
        cfg, data = runs[str(i)], datas[str(i)]
        before = obs.tree(out) if out.exists() else {}
        if op["what"] == "hist" and not {"data", "opt"} <= done.get(i, set()):
            continue
        faults = []
        if "fault" in op:
            n = {"data": 10, "opt": 40 * cfg["nRep"], "hist": 100}[op["what"]]
            faults = [{"ev": "h5.open" if op["fault"]["do"] in ("EIO", "EAGAIN") else "h5.closed", "n": 1 + int(op["fault"]["at"] * n), "do": op["fault"]["do"]}]
            if op["fault"]["do"] == "interrupt":
                faults[0].update(ev="h5.open", pid=0)
        failed = None
        with ctx.boot(plan["policy"], cpu=2, faults=faults, max_steps=80000) as sim:
            try:
                do(op, cfg, out, data)
            except (Exception, KeyboardInterrupt, SimCrash) as e:
                if not sim.fault_log:
                    raise
                failed = e
            fired = list(sim.fault_log)
        after = obs.tree(out) if out.exists() else {}
        d = obs.diff(outside(before, i), outside(after, i))
        if d:
            raise Violation("isolation", f"{op['what']} under index {i}{' (interrupted)' if fired else ''} changed {d[:8]}")
        # attributes of the groups shared with others
        for g in ("/", "/analyses"):
            if g in before and before[g] != after.get(g):
                raise Violation("isolation", f"{op['what']} under index {i} changed attributes of {g}")
        if fired:
            clean[i] = False
            ctx.probe("operation_with_fault")
            # repair it: the same operation once more, now without fault
            with ctx.boot(plan["policy"], cpu=2, max_steps=80000) as sim:
                do(op, cfg, out, data)
            d = obs.diff(outside(before, i), outside(obs.tree(out), i))
            if d:
                raise Violation("isolation", f"{op['what']} under index {i} changed {d[:8]}")
        done.setdefault(i, set()).add(op["what"])
        t = obs.tree(out, obs.entry(i))
        need = {"data": ["mcdata/rawData/Q", "mcdata/nbins", "mcdata/measDataLink"],
                "opt": ["model/modelName", "optimization/nRep", "optimization/nCores"] + [f"model/repetition{r}/volumes" for r in range(cfg["nRep"])]
                + [f"optimization/repetition{r}/gof" for r in range(cfg["nRep"])],
                "hist": ["optimization/average/gof/valMean"] + [f"histograms/histRange{h}/average/yMean" for h in range(len(cfg["ranges"]))]
                + [f"histograms/histRange{h}/repetition{r}/hist" for h in range(len(cfg["ranges"])) for r in range(cfg["nRep"])]}[op["what"]]
        miss = [x for x in need if obs.entry(i) + "/" + x not in t]
        if miss:
            raise Violation("misplaced", f"{op['what']} for index {i} did not store {miss[:6]} there")
    # every index yields what a file with only that index yields
    for key, cfg in runs.items():
        i = int(key)
        one = ctx.path(f"solo{i}.h5")
        sub = [o for o in plan["ops"] if o["idx"] == i]
        with ctx.boot("fifo", cpu=2, max_steps=200000) as sim:
            seen = set()
            for o in sub:
                if o["what"] == "hist" and not {"data", "opt"} <= seen:
                    continue
                do(o, cfg, one, datas[key])
                seen.add(o["what"])
        a, b = obs.tree(out, obs.entry(i)), obs.tree(one, obs.entry(i))
        d = [x for x in obs.diff(b, a) if not x.endswith("/nCores")]
        if d:
            raise Violation("mixed-up", f"index {i} holds something else than without the other indices: {d[:8]}")
        # reading
        from mcsas3.mc_data_1d import McData1D

        res = []
        for f in (out, one):
            with ctx.boot("fifo", cpu=2, max_steps=60000) as sim:
                md = McData1D(loadFromFile=f, resultIndex=i)
                an = do({"what": "hist", "idx": i}, cfg, f, None) if "opt" in seen else None
                res.append((md.measData, None if an is None else (an.optParAvg, an.modelIAvg, an._averagedModes)))
        (m1, a1), (m2, a2) = res
        for x in ("I", "ISigma"):
            if not np.array_equal(m1[x], m2[x]):
                raise Violation("mixed-up", f"data read for index {i} differ")
        if not np.array_equal(m1["Q"][0], m2["Q"][0]):
            raise Violation("mixed-up", f"data read for index {i} differ")
        if a1 is not None:
            for x, y in zip(a1, a2):
                if not np.array_equal(np.array(x, float), np.array(y, float), equal_nan=True):
                    raise Violation("mixed-up", f"analysis of index {i} depends on the other indices")
    # nothing has been stored under this one: it yields nothing of the others
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    free = plan["free"]
    root = obs.entry(free)
    if any(obs.under(k, root) for k in obs.tree(out)):
        raise Violation("isolation", f"something has been stored under index {free}, which nobody used")
    some = next(iter(datas.values()))
    for what, fn in (("data", lambda: McData1D(loadFromFile=out, resultIndex=free).rawData), ("optimisation", lambda: McOpt(loadFromFile=out, resultIndex=free)),
                     ("model", lambda: McModel(loadFromFile=out, loadFromRepetition=0, resultIndex=free)),
                     ("analysis", lambda: McAnalysis(out, some, gen.hist_frame(next(iter(runs.values()))["ranges"]), store=False, resultIndex=free))):
        with ctx.boot("fifo", cpu=2, max_steps=60000):
            try:
                got = fn()
            except Exception:
                continue
        if what in ("data", "analysis") and got is not None:
            raise Violation("mixed-up", f"{what} found under index {free}, under which nothing has been stored")
    ctx.nontrivial = len(runs) > 1
