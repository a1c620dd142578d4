"""C13: analysis results are the statistics over exactly the stored repetitions"""

import numpy as np
import pandas

from .. import gen, obs, ref
from ..kernel import Violation
from ..seams import RealFile

ID = "C13"
QUICK, THOROUGH = 400, 8000
MODELS = ("sphere", "cylinder")
RULE = ("a file with one to fourteen repetitions of one or two result indices, stored in schedule order by one or several simulated workers, some lost "
        "by failing stores or removed, is analysed; per-repetition and averaged histograms, modes, optimisation figures and intensities are recomputed "
        "independently from the stored contributions and compared; non-trivial = at least two repetitions")


def make(rng, idx, tier):
    runs = []
    for i in rng.sample([0, 1, 2, 10], rng.choice([1, 1, 2])):
        spec = gen.reverse(rng, gen.model_spec(rng, ("mcsas_sphere", "mcsas_sphere", "sim", "sphere", "cylinder", "image")))
        data = gen.data_spec(rng)
        q = obs.qs(gen.meas_data(data, spec))
        nrep = rng.choice([1, 2, 3, 3, 5, 11, 12, 14])
        rows = gen.hist_ranges(rng, spec, q)
        for r in rows:
            k = rng.random()
            if k < 0.15:  # few or no contributions inside
                r["presetRangeMin"] = r["presetRangeMax"] * rng.choice([0.5, 0.8])
            elif k < 0.3:
                r["presetRangeMin"], r["presetRangeMax"] = int(max(1, r["presetRangeMin"])), int(r["presetRangeMax"]) + 2
        edges = [[rng.choice(["max", "max", "min"]), rng.random()] if rng.random() < 0.5 else None for _ in rows]
        runs.append({"index": i, "edges": edges, "spec": spec, "data": data, "nRep": nrep, "nCores": rng.choice([1, 1, 2, 3]), "nContrib": rng.choice([1, 2, 5, 10]),
                     "seedarg": rng.randrange(1000), "opt": {"maxIter": rng.choice([0, 3, 8]), "convCrit": rng.choice([1e-9, 5.0])}, "ranges": rows,
                     "start": rng.choice([0, 0, 0, 5, 9]), "lost": sorted(rng.sample(range(nrep), rng.randrange(0, nrep))) if nrep > 1 and rng.random() < 0.5 else [],
                     "fail": rng.random() if rng.random() < 0.2 else None, "boundary": rng.random() < 0.2, "autobin": rng.random() < 0.5, "again": rng.randrange(1, nrep) if nrep > 1 and rng.random() < 0.25 else None, "labels": gen.row_labels(rng, len(rows))})
    if rng.random() < 0.04 and len(runs) == 1:  # a great many small repetitions
        runs[0].update(nRep=rng.randrange(64, 135), nContrib=1, nCores=1, lost=rng.choice([[], [0, 5, 60]]), opt={"maxIter": 0, "convCrit": 1e-9})
        for row in rows:
            row["nBin"] = min(row["nBin"], 5)
    return {"runs": runs, "policy": rng.choice(gen.POLICIES)}


def stats(values, ddof):
    """mean and standard deviation, leaving out what is undefined"""
    v = np.array([x for x in values if not np.isnan(x)], float)
    if len(v) == 0:
        return np.nan, np.nan
    return v.mean(), (v.std(ddof=ddof) if len(v) > ddof else np.nan)


def close(a, b, rtol=1e-9, atol=0.0):
    return obs.isclose(a, b, rtol, atol)


def run(plan, ctx):
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_core import McCore
    from mcsas3.mc_hat import McHat

    out = ctx.path("f.h5")
    datas = []
    for r in plan["runs"]:
        data = gen.meas_data(r["data"], r["spec"])
        datas.append(data)
        n, idx = r["nRep"], r["index"]
        faults = []
        if r["fail"] is not None and r["nCores"] > 1:
            faults = [{"ev": "h5.open", "n": 1 + int(r["fail"] * 30 * n), "do": "EIO"}]
        with ctx.boot(plan["policy"], cpu=3, faults=faults, max_steps=40000 + 8000 * n) as sim:
            if r["boundary"]:
                sim.adversary = lambda s, lo, hi: [lo, None, None][s.counts["rng"] % 3]
            args = gen.hat_args(r["spec"], r["opt"], r["nContrib"], n, r["nCores"], seed=r["seedarg"])
            try:
                McHat(resultIndex=idx, **args).run(data, out, resultIndex=idx)
            except Exception:
                if not sim.fault_log:
                    raise
        if r.get("again"):  # some of them once more, the others stay
            with ctx.boot(plan["policy"], cpu=3, max_steps=40000 + 8000 * n):
                McHat(resultIndex=idx, **dict(args, nRep=r["again"], seed=r["seedarg"] + 1000)).run(data, out, resultIndex=idx)
            ctx.probe("partly_run_again")
    for r, data in zip(plan["runs"], datas):
        idx, root = r["index"], obs.entry(r["index"])
        r = dict(r, ranges=[dict(row) for row in r["ranges"]])
        if not out.exists():  # the very first store failed
            continue
        with RealFile(out, "r") as f:
            at_edges(f, root, r)
        # lose some, move the others up to other numbers
        with RealFile(out, "a") as f:
            if f"{root}/optimization" not in f or f"{root}/model" not in f:
                continue
            for sub in ("model", "optimization"):
                g = f[f"{root}/{sub}"]
                for k in sorted((k for k in g if k.startswith("repetition")), key=lambda k: -int(k[10:])):
                    x = int(k[10:])
                    if x in r["lost"]:
                        del g[k]
                    elif r["start"]:
                        g.move(k, f"repetition{x + r['start']}")
        m, o = obs.rep_numbers(out, idx)
        reps = sorted(x for x in m & o if complete(out, root, x))
        if not reps:
            continue
        if m != o or len(reps) != len(m):
            ctx.probe("incomplete_repetitions")
        with ctx.boot("fifo", max_steps=300000), np.errstate(all="ignore"):
            per = {}
            for k in reps:
                c = McCore(measData=data, loadFromFile=out, loadFromRepetition=k, resultIndex=idx)
                per[k] = {"x0": np.array(c._opt.x0, float), "gof": float(c._opt.gof), "I": np.array(c._opt.modelI, float)}
            if r.get("autobin") and len(reps) == 1:  # bins chosen from the contributions
                r = dict(r, ranges=[dict(row, binScale="auto") for row in r["ranges"]])
                ctx.probe("automatic_bins")
            frame = gen.hist_frame(r["ranges"], r["labels"])
            an = McAnalysis(out, dict(data), frame, store=True, resultIndex=idx)
        check(out, r, data, reps, per, an)
        ctx.probe("repetitions", len(reps))
        if len(reps) > 10:
            ctx.probe("more_than_ten")
        if reps != list(range(len(reps))):
            ctx.probe("gaps")
        ctx.nontrivial = ctx.nontrivial or len(reps) > 1
    ctx.nontrivial = bool(ctx.nontrivial)


def at_edges(f, root, r):
    """move limits of the ranges onto contributions"""
    vals = sorted(v for k in f.get(f"{root}/model", ()) if f"{root}/model/{k}/parameterSet/data" in f for v in f[f"{root}/model/{k}/parameterSet/data"][()][:, 0])
    if not vals or len(r["spec"]["fitParameterLimits"]) > 1:
        return
    for row, edge in zip(r["ranges"], r["edges"]):
        if edge is None or row["autoRange"]:
            continue
        lo, hi = float(row["presetRangeMin"]), float(row["presetRangeMax"])
        v = float(vals[min(len(vals) - 1, int(edge[1] * len(vals)))])
        if edge[0] == "max" and v > lo:
            row["presetRangeMax"] = v
        elif edge[0] == "min" and v < hi:
            row["presetRangeMin"] = v


def complete(path, root, k):
    from .c07 import NEED_MODEL, NEED_OPT

    with RealFile(path, "r") as f:
        return all(f"{root}/model/repetition{k}/{x}" in f for x in NEED_MODEL) and all(f"{root}/optimization/repetition{k}/{x}" in f for x in NEED_OPT)


def check(out, r, data, reps, per, an=None):
    idx, root = r["index"], obs.entry(r["index"])
    q = obs.qs(data)
    stored = {k: obs.load_rep(out, idx, k) for k in reps}
    for k in reps:
        s, p = stored[k], per[k]
        tot, _ = ref.total(s.modelName, q, s.rows, s.static)
        rtol, atol = obs.tol_for(s.modelName, q, s.limits, s.static, len(s.rows))
        if not close(p["I"], tot, rtol, atol):
            raise Violation("load", f"repetition {k}: re-evaluated intensity is not that of the stored contributions")
        if not close(ref.chi2(data["I"], data["ISigma"], p["I"], p["x0"]), p["gof"], 1e-8, 1e-12):
            raise Violation("load", f"repetition {k}: re-evaluated goodness of fit does not belong to its scaling")
        # single-precision models give a slightly different intensity each way they are summed
        start = max(float(s.gof), ref.chi2(data["I"], data["ISigma"], p["I"], np.asarray(s.x0, float)))
        if p["gof"] > start * (1 + 1e-7) + 1e-9:
            raise Violation("load", f"repetition {k}: re-evaluated goodness of fit {p['gof']} is worse than the stored {s.gof}")
    lim = gen.limits_for(r["spec"], q)
    with RealFile(out, "r") as f:
        def get(p):
            if f"{root}/{p}" not in f:
                raise Violation("missing", f"{root}/{p} is not stored")
            return np.asarray(f[f"{root}/{p}"][()], float)

        for h, row in zip(r.get("labels") or range(len(r["ranges"])), r["ranges"]):
            g = f"histograms/histRange{h}"
            lo, hi = sorted(lim[row["parameter"]]) if row["autoRange"] else (float(row["presetRangeMin"]), float(row["presetRangeMax"]))
            have = {k for k in f.get(f"{root}/{g}", ()) if k.startswith("repetition")}
            if have != {f"repetition{k}" for k in reps}:
                raise Violation("repetitions", f"range {h}: histograms stored for {sorted(have)}, complete repetitions are {reps}")
            n = row["nBin"]
            if row["binScale"] == "auto":
                n = len(get(f"{g}/repetition{reps[0]}/hist"))
            edges = np.linspace(lo, hi, n + 1) if row["binScale"] != "log" else np.logspace(np.log10(lo), np.log10(hi), n + 1)
            hists, modes = [], []
            for k in reps:
                vals = [x[row["parameter"]] for x in stored[k].rows]
                e = get(f"{g}/repetition{k}/binEdges")
                if not close(e, edges, 1e-10, 1e-12 * abs(hi)):
                    raise Violation("edges", f"range {h} repetition {k}: bin edges {e[:4]}... instead of {edges[:4]}...")
                scale = per[k]["x0"][0] * 1e-5
                want = ref.histogram(vals, e) * scale
                got = get(f"{g}/repetition{k}/hist")
                if not close(got, want, 1e-9, 1e-300):
                    raise Violation("histogram", f"range {h} repetition {k}: histogram {got.tolist()[:8]} instead of {want.tolist()[:8]}")
                hists.append(want)
                mo = ref.modes(vals, lo, hi)
                mo["totalValue"] *= scale
                for name, w in mo.items():
                    v = get(f"{g}/repetition{k}/{name}")
                    slack = 0.0
                    if name in ("variance", "skew", "kurtosis"):
                        if mo["variance"] < 1e-12 * mo["mean"] ** 2 or np.isnan(mo["variance"]):
                            if name != "variance":
                                mo[name] = float(v)
                                continue
                            slack = 1e-10 * mo["mean"] ** 2
                        else:
                            slack = 1e-7
                    if not close(v, w, 1e-7, slack):
                        raise Violation("modes", f"range {h} repetition {k}: {name} is {v}, the contributions give {w}")
                    mo[name] = float(v)
                modes.append(mo)
            ha = np.array(hists)
            want = {"yMean": ha.mean(axis=0), "yStd": ha.std(axis=0, ddof=1 if len(reps) > 1 else 0), "xWidth": np.diff(edges), "xMean": edges[:-1] + np.diff(edges) / 2}
            for name, w in want.items():
                v = get(f"{g}/average/{name}")
                if not close(v, w, 1e-8, 1e-10 * (abs(ha).max() if name[0] == "y" else abs(hi)) + 1e-300):
                    raise Violation("average", f"range {h}: average {name} is {v.tolist()[:8]} instead of {w.tolist()[:8]} over repetitions {reps}")
                mem = v if an is None else np.asarray(an._averagedHistograms[h][name], float)
                if not np.array_equal(mem, v, equal_nan=True):
                    raise Violation("average", f"range {h}: average {name} in memory and file differ")
            for name in ("totalValue", "mean", "variance", "skew", "kurtosis"):
                vals = [m[name] for m in modes]
                w = stats(vals, 1)
                for x, sub in zip(w, ("valMean", "valStd")):
                    v = get(f"{g}/average/{name}/{sub}")
                    big = np.nanmax(np.abs(vals)) if not np.all(np.isnan(vals)) else 0.0
                    if not close(v, x, 1e-8, 1e-8 * big):
                        raise Violation("average", f"range {h}: {sub} of {name} is {v} instead of {x} over repetitions {reps}: {vals}")
        figures = {"scaling": [per[k]["x0"][0] for k in reps], "background": [per[k]["x0"][1] for k in reps], "gof": [per[k]["gof"] for k in reps],
                   "accepted": [float(stored[k].accepted) for k in reps], "step": [float(stored[k].step) for k in reps]}
        for name, vals in figures.items():
            for x, sub in zip(stats(vals, 1), ("valMean", "valStd")):
                v = get(f"optimization/average/{name}/{sub}")
                if not close(v, x, 1e-9, 1e-9 * max(np.abs(vals)) + 1e-300):
                    raise Violation("figures", f"{sub} of {name} is {v} instead of {x} over repetitions {reps}: {vals}")
                if an is not None and not close(float(an.optParAvg[sub][name]), v, 1e-12):
                    raise Violation("figures", f"{sub} of {name} in memory and file differ")
        ia = np.array([per[k]["I"] * per[k]["x0"][0] + per[k]["x0"][1] for k in reps])
        for name, w in (("modelIMean", ia.mean(axis=0)), ("modelIStd", ia.std(axis=0))):
            v = get(f"optimization/average/{name}")
            if not close(v, w, 1e-8, 1e-9 * np.abs(ia).max()):
                raise Violation("intensity", f"{name} is not that of repetitions {reps}")
            if an is not None and not np.array_equal(np.asarray(an.modelIAvg[name], float), v):
                raise Violation("intensity", f"{name} in memory and file differ")
