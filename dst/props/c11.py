"""C11: re-histogramming replaces the histograms and nothing else"""

import shutil

import numpy as np
import pandas

from .. import gen, obs
from ..kernel import SimCrash, Violation

ID = "C11"
QUICK, THOROUGH = 110, 8000
MODELS = ()
RULE = ("a stored optimisation is histogrammed by a generated sequence of settings (ranges, bins, scales, limits of any numeric type, storing or not), "
        "some analyses killed, interrupted or meeting failing opens, with re-optimisations in between; after every analysis the complete file is compared "
        "with what the same analysis stores into a never-histogrammed copy, and everything else with the copy itself; non-trivial = at least two "
        "analyses of the same file")


def ranges(rng, spec, q):
    rows = gen.hist_ranges(rng, spec, q)
    for r in rows:
        k = rng.random()
        if k < 0.2:
            r["presetRangeMin"], r["presetRangeMax"] = int(max(1, r["presetRangeMin"])), int(r["presetRangeMax"]) + 2
        elif k < 0.3:
            # nothing or almost nothing in the range
            r["presetRangeMin"], r["presetRangeMax"] = r["presetRangeMax"] * 1.01, r["presetRangeMax"] * 3
        if rng.random() < 0.1:
            r["binScale"] = "linear"
            r["presetRangeMin"] = 0 if rng.random() < 0.5 else 0.0
        if r["autoRange"] and rng.random() < 0.5:
            r["presetRangeMin"] = r["presetRangeMax"] = None  # not needed
    return rows


def make(rng, idx, tier):
    spec = gen.reverse(rng, gen.model_spec(rng, ("mcsas_sphere", "mcsas_sphere", "sim")))
    data = gen.data_spec(rng)
    q = gen.meas_data(data, spec)["Q"][0]
    nrep = rng.choice([1, 2, 2, 3, 4])
    menu = [ranges(rng, spec, q) for _ in range(rng.choice([2, 3]))]
    if rng.random() < 0.6:
        # same shape, other values: what an in-place update can get away with
        m = [dict(r) for r in menu[0]]
        for r in m:
            r["presetRangeMax"] = r["presetRangeMax"] and r["presetRangeMax"] * rng.choice([0.8, 1.3])
            r["binScale"] = rng.choice(["linear", "log"])
            if r["presetRangeMin"] is not None and r["presetRangeMin"] <= 0:
                r["binScale"] = "linear"
        menu.append(m)
    ops = []
    for _ in range(rng.choice([2, 3, 4])):
        o = {"op": "hist", "menu": rng.randrange(len(menu)), "store": rng.random() < 0.85, "frame": rng.choice(["own", "kept"])}
        o["elsewhere"] = rng.random() < 0.5
        o["same"] = rng.random() < 0.6  # in the same program
        o["edit"] = rng.choice([0.7, 1.4]) if rng.random() < 0.5 else None
        if rng.random() < 0.4:
            o["fault"] = {"do": rng.choice(["crash", "crash", "EIO", "EAGAIN", "interrupt", "EMFILE", "torn"]), "at": rng.random()}
            if o["fault"]["do"] == "torn" and rng.random() < 0.6:
                o["fault"]["do"] = "crash"
        ops.append(o)
        if rng.random() < 0.12:
            ops.append({"op": "reopt", "seed": rng.randrange(100), "more": rng.choice([0, 0, 1])})
    ops.append({"op": "hist", "menu": rng.randrange(len(menu)), "store": True, "frame": "own"})
    if nrep == 1 and not any(o.get("more") for o in ops):
        for r in menu[0]:
            if rng.random() < 0.4:
                r["binScale"] = "auto"
    return {"spec": spec, "data": data, "opt": {"maxIter": rng.choice([2, 8]), "convCrit": 1e-9}, "nContrib": rng.choice([1, 2, 4]), "nRep": nrep,
            "lost": rng.choice([None, None, rng.randrange(nrep)]) if nrep > 1 else None, "index": rng.choice([1, 1, 2, 0]), "menu": menu, "ops": ops,
            "labels": [gen.row_labels(rng, len(m)) for m in menu],
            "seedarg": rng.randrange(100), "other": rng.choice([0.5, 2.0]), "other_index": rng.choice([0, 1]), "int_frame": rng.random() < 0.5}


def run(plan, ctx):
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat

    spec, idx = plan["spec"], plan["index"]
    data = gen.meas_data(plan["data"], spec)
    root = obs.entry(idx)
    f, pristine, scratch = ctx.path("f.h5"), ctx.path("pristine.h5"), ctx.path("clean.h5")

    def optimise(path, seed, nrep):
        with ctx.boot("fifo", cpu=1, max_steps=200000, seed=f"o{seed}"):
            df = pandas.DataFrame({"Q": data["Q"][0], "I": data["I"], "ISigma": data["ISigma"]})
            McData1D(df=df, nbins=0, resultIndex=idx).store(path)
            McHat(resultIndex=idx, **gen.hat_args(spec, plan["opt"], plan["nContrib"], nrep, 1, seed=seed)).run(data, path, resultIndex=idx)

    def lose(path, n):
        from ..seams import RealFile

        with RealFile(path, "a") as h:
            for sub in ("model", "optimization"):
                del h[f"{root}/{sub}/repetition{n}"]

    nrep = plan["nRep"]
    optimise(pristine, plan["seedarg"], nrep)
    if plan["lost"] is not None:
        lose(pristine, plan["lost"])
    shutil.copy(pristine, f)

    def analyse(path, rows, store, frame):
        md = McData1D(loadFromFile=path, resultIndex=idx).measData.copy()
        hr = frame
        with np.errstate(all="ignore"):
            an = McAnalysis(path, md, hr, store=store, resultIndex=idx)
        return an

    def summary(an):
        out = {"opt": np.array(an.optParAvg, float), "I": np.array(an.modelIAvg, float), "modes": np.array(an._averagedModes, float)}
        for k, h in an._averagedHistograms.items():
            out[f"h{k}"] = np.array(h, float)
        return out

    def rest(tree):
        """everything the analysis must not touch"""
        return {k: v for k, v in tree.items() if not obs.under(k, root + "/histograms") and not obs.under(k, root + "/optimization/average")}

    def elsewhere(rows, frame, later):
        """the same table of ranges used for a result with other limits and data"""
        g = ctx.path("elsewhere.h5")
        k = plan["other"]
        sp = dict(spec, fitParameterLimits={p: ([v[0] * k, v[1] * k] if isinstance(v, (list, tuple)) else v) for p, v in spec["fitParameterLimits"].items()})
        with ctx.boot("fifo", cpu=1, max_steps=200000, seed="elsewhere"):
            i2 = plan["index"] + plan["other_index"]
            df = pandas.DataFrame({"Q": data["Q"][0] / k, "I": data["I"], "ISigma": data["ISigma"]})
            md = McData1D(df=df, nbins=0, resultIndex=i2)
            md.store(g)
            McHat(resultIndex=i2, **gen.hat_args(sp, plan["opt"], plan["nContrib"], 1, 1, seed=3)).run(md.measData.copy(), g, resultIndex=i2)
            with np.errstate(all="ignore"):
                if not later:
                    McAnalysis(g, md.measData.copy(), frame, store=True, resultIndex=i2)
        return lambda: McAnalysis(g, md.measData.copy(), frame, store=True, resultIndex=i2)

    frames = {}
    kept = None  # tree below histograms and averages as it was after the last finished operation
    done = 0
    for n, o in enumerate(plan["ops"]):
        base = rest(obs.tree(pristine))
        if o["op"] == "reopt":
            nrep += o["more"]
            optimise(f, o["seed"], nrep)
            if f.exists():
                pristine.unlink()
            optimise(pristine, o["seed"], nrep)
            d = obs.diff(rest(obs.tree(pristine)), rest(obs.tree(f)))
            if d:
                raise Violation("reoptimise", f"optimising again over the histogrammed result stored something else: {d[:6]}")
            continue
        rows = plan["menu"][o["menu"]]
        before = obs.tree(f)
        labels = plan["labels"][o["menu"]]
        names = labels or list(range(len(rows)))
        frame = gen.hist_frame(rows, labels)
        if o["frame"] == "kept":
            known = o["menu"] in frames
            frame, rows = frames.setdefault(o["menu"], (frame, rows))
            if known and o.get("edit"):  # the caller changes the table for this analysis
                rows = [dict(r) for r in rows]
                for h, r in zip(names, rows):
                    if r["presetRangeMax"] and r["presetRangeMax"] * o["edit"] > r["presetRangeMin"] * 1.01:
                        frame["presetRangeMax"] = frame["presetRangeMax"].astype(float)
                        frame.loc[h, "presetRangeMax"] = r["presetRangeMax"] = float(r["presetRangeMax"] * o["edit"])
                frames[o["menu"]] = frame, rows
                ctx.probe("table_edited")
        before_it = None
        if o.get("elsewhere"):
            if o["frame"] == "kept":
                before_it = elsewhere(rows, frame, o["same"])
                ctx.probe("table_shared")
            elif o["same"]:
                before_it = elsewhere(rows, gen.hist_frame(rows, labels), True)
            if not o["same"]:
                before_it = None
        fl = o.get("fault")
        if fl:
            per = (35 + 15 * len(rows)) * nrep + 30 * len(rows)
            with ctx.boot("fifo", cpu=1, max_steps=200000, seed=f"h{n}",
                          faults=[] if fl["do"] == "torn" else [{"ev": "h5.closed" if fl["do"] == "crash" else "h5.open", "n": 1 + int(fl["at"] * per), "do": fl["do"]}]) as sim:
                if fl["do"] == "torn":
                    sim.disk.torn = [1 + int(fl["at"] * per * 3), 0.5]
                err = None
                try:
                    analyse(f, rows, o["store"], frame)
                except (Exception, KeyboardInterrupt, SimCrash) as e:
                    if not sim.fault_log and not sim.crashed:
                        raise
                    err = e
                hit = bool(sim.fault_log) or sim.crashed
                if hit and err is None and fl["do"] != "crash":
                    raise Violation("silent", f"the analysis met {fl['do']} and returned normally")
            if hit and fl["do"] == "torn":
                # the whole file may be gone: a known finding (see DESIGN.md)
                if obs.readable(f) is not None or obs.diff(base, rest(obs.tree(f))):
                    raise Violation("torn-session", "killed in the middle of a write of an analysis: the optimisation results are lost")
            elif hit:
                d = obs.diff(base, rest(obs.tree(f)))
                if d:
                    raise Violation("collateral", f"an analysis ended by {fl['do']} changed {d[:6]}")
                ctx.probe("interrupted_analyses")
        with ctx.boot("fifo", cpu=1, max_steps=200000, seed=f"h{n}") as sim:
            if before_it is not None:
                with np.errstate(all="ignore"):
                    before_it()
                ctx.probe("another_result_before")
            got = summary(analyse(f, rows, o["store"], frame))
        after = obs.tree(f)
        d = obs.diff(base, rest(after))
        if d:
            raise Violation("collateral", f"operation {n}: the analysis changed {d[:6]}")
        shutil.copy(pristine, scratch)
        with ctx.boot("fifo", cpu=1, max_steps=200000, seed=f"h{n}") as sim:
            want = summary(analyse(scratch, rows, True, gen.hist_frame(rows, labels)))
        for k in want:
            if k not in got or got[k].shape != want[k].shape or not np.array_equal(got[k], want[k], equal_nan=True):
                raise Violation("result", f"operation {n}: {k} differs from the analysis of a never-histogrammed copy")
        if not o["store"]:
            if not fl:
                d = obs.diff(before, after)
                if d:
                    raise Violation("stored", f"operation {n}: an analysis which is not to be stored changed {d[:6]}")
            continue
        done += 1
        clean = obs.tree(scratch)
        d = obs.diff(base, rest(clean))
        if d:
            raise Violation("collateral", f"operation {n}: the analysis changed {d[:6]}")
        for h, row in zip(names, rows):
            sub = f"{root}/histograms/histRange{h}"
            a = {k: v for k, v in after.items() if obs.under(k, sub)}
            b = {k: v for k, v in clean.items() if obs.under(k, sub)}
            if not any(k.endswith("/hist") for k in b) or f"{sub}/average/yMean" not in b:
                raise Violation("missing", f"operation {n}: nothing stored for range {h}")
            d = [x for x in obs.diff(b, a) if not (x.startswith("+") and x.count("/") == sub.count("/") + 1 and a[x[1:]][0] is not None and x.split("/")[-1] not in row)]
            if d:
                raise Violation("histogram", f"operation {n}: range {h} is stored differently than in a never-histogrammed copy: {d[:6]}")
            for k, v in row.items():
                if v is not None and f"{sub}/{k}" not in a:
                    raise Violation("settings", f"operation {n}: setting {k} of range {h} is not stored")
        sub = f"{root}/optimization/average"
        d = obs.diff({k: v for k, v in clean.items() if obs.under(k, sub)}, {k: v for k, v in after.items() if obs.under(k, sub)})
        if d:
            raise Violation("average", f"operation {n}: stored averages differ from those of a never-histogrammed copy: {d[:6]}")
        # ranges not asked for this time stay as they were
        if not fl:
            left = [k for k in before if obs.under(k, root + "/histograms") and k.split("/histograms/")[-1].startswith("histRange")
                    and int(k.split("/histRange")[1].split("/")[0]) not in names]
            miss = [k for k in left if after.get(k) not in (None, before[k])]
            if miss:
                raise Violation("collateral", f"operation {n}: ranges not analysed were changed: {miss[:6]}")
    ctx.nontrivial = done > 1
