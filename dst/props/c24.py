"""C24: the report and the result plot show the analysed result"""

import json
import os
import re

import numpy as np

from .. import cli, gen, obs
from ..kernel import Sim, Violation
from ..seams import RealFile

ID = "C24"
QUICK, THOROUGH = 500, 4000
MODELS = ()
RULE = ("one program analyses, reports and plots several stored results in a generated order, through the library and the command-line histogrammer, with figures "
        "of its own left open and saves of the plot that fail or are interrupted in between; every figure that is drawn or reaches the canvas for saving is taken apart and "
        "compared with the averages stored by that analysis; non-trivial = at least two plots, or a failed save")
MODES = ("totalValue", "mean", "variance", "skew", "kurtosis")
FIGURES = ("scaling", "background", "gof", "accepted", "step")


def warm():
    import matplotlib
    import matplotlib.pyplot as plt

    matplotlib.use("Agg")
    from mcsas3.mc_plot import McPlot  # noqa

    f, a = plt.subplots(2, 2)
    a[0, 0].text(0, 0, "± ≤", fontname="DejaVu Sans Mono")
    plt.tight_layout()
    plt.close("all")


def make(rng, idx, tier):
    res = []
    for k in range(rng.choice([1, 2, 2, 3])):
        spec = gen.reverse(rng, gen.model_spec(rng, ("mcsas_sphere", "mcsas_sphere", "sim")))
        data = gen.data_spec(rng)
        q = gen.meas_data(data, spec)["Q"][0]
        tables = []
        for _ in range(2):
            rows = gen.hist_ranges(rng, spec, q, rng.choice([1, 1, 2, 2, 3, 4]))
            if rng.random() < 0.2:  # nothing inside
                rows[0]["presetRangeMin"] = rows[0]["presetRangeMax"] * 0.999
            tables.append({"rows": rows, "labels": gen.row_labels(rng, len(rows))})
        nrep = rng.choice([1, 2, 3, 5, 11])
        if nrep == 1:
            for row in [x for t in tables for x in t["rows"]]:
                row["binScale"] = rng.choice([row["binScale"], "auto"])
        res.append({"spec": spec, "data": data, "nRep": nrep, "nContrib": rng.choice([1, 3, 8]), "index": rng.choice([1, 1, 2, 10]), "file": rng.choice(["a.h5", "b.nxs", "d.result.h5"]),
                    "seedarg": rng.randrange(1000), "opt": {"maxIter": rng.choice([0, 4]), "convCrit": 1e-9}, "tables": tables,
                    "lost": sorted(rng.sample(range(nrep), rng.randrange(0, nrep))) if rng.random() < 0.3 else []})
    used = set()
    for r in res:
        while (r["file"], r["index"]) in used:
            r["index"] += 1
        used.add((r["file"], r["index"]))
    ops = []
    for _ in range(rng.choice([3, 5, 7])):
        o = {"op": rng.choice(["analyse", "analyse", "plot", "plot", "plot", "report", "foreign", "debugplot", "cli", "close"]), "res": rng.randrange(len(res)), "an": rng.randrange(8), "shared": rng.random() < 0.6, "edit": rng.random() < 0.2, "target": rng.randrange(3),
             "table": rng.randrange(2), "save": rng.random() < 0.75, "card": rng.choice(["new", "kept"])}
        if o["op"] in ("plot", "cli") and rng.random() < 0.3:
            o["fault"] = rng.choice(["ENOSPC", "EIO", "EACCES", "interrupt", "memory"])
        ops.append(o)
    return {"res": res, "ops": [{"op": "analyse", "res": 0, "an": 0, "table": 0}] + ops, "real": rng.random() < 0.04}


def average(path, idx, labels):
    """what the analysis stored"""
    out = {"ranges": [], "figures": {}}
    root = obs.entry(idx)
    with RealFile(path, "r") as f:
        get = lambda p: np.asarray(f[f"{root}/{p}"][()], float)  # noqa
        for h in labels:
            g = f"histograms/histRange{h}/average"
            d = {k: get(f"{g}/{k}") for k in ("xMean", "xWidth", "yMean", "yStd")}
            d["modes"] = {m: (get(f"{g}/{m}/valMean"), get(f"{g}/{m}/valStd")) for m in MODES}
            out["ranges"].append(d)
        for n in FIGURES:
            out["figures"][n] = (get(f"optimization/average/{n}/valMean"), get(f"optimization/average/{n}/valStd"))
        out["I"] = get("optimization/average/modelIMean")
        g = f[f"{root}/histograms/histRange{labels[0]}"]
        out["n"] = sum(k.startswith("repetition") for k in g)
    return out


NUM = r"\s*([-+]?(?:nan|inf|[0-9.]+(?:e[-+]?[0-9]+)?))\s*"


def near(text, v, digits=2):
    """a number written with two decimals of its leading digit"""
    x, v = float(text), float(v)
    if np.isnan(v) or np.isnan(x):
        return np.isnan(v) and np.isnan(x)
    return abs(x - v) <= 0.0052 * max(abs(v), 1e-300) if np.isfinite(v) else x == v


def lines(text, want, where):
    for name, (mean, std) in want.items():
        m = re.findall(r"^" + name + r"\s*:" + NUM + "±" + NUM + r"(?:\(±" + NUM + r"%\s*\))?\s*$", text, re.M)
        if len(m) != 1:
            raise Violation("report", f"{where}: {name} is given {len(m)} times in {text!r}")
        a, b, c = m[0]
        if not near(a, mean) or not near(b, std):
            raise Violation("report", f"{where}: {name} is given as {a} ± {b}, the analysis has {float(mean)!r} ± {float(std)!r}")
        if c and float(mean) != 0:
            p = float(std) / float(mean) * 100
            if not (np.isnan(p) and np.isnan(float(c))) and not abs(float(c) - p) <= 0.0052 + 1e-9 * abs(p):
                raise Violation("report", f"{where}: the relative uncertainty of {name} is given as {c} %, it is {p}")
        if not c and float(mean) != 0:
            raise Violation("report", f"{where}: no relative uncertainty of {name} in {text!r}")


def bounds(text, word, lo, hi, where):
    m = re.findall(r"For" + NUM + "≤" + r"([^≤]*)" + "≤" + NUM, text)
    if len(m) != 1 or word not in m[0][1] or not near(m[0][0], lo) or not near(m[0][2], hi):
        raise Violation("report", f"{where}: limits {m}, expected {lo} ≤ {word} ≤ {hi}")


def check_hist_text(text, a, k, where):
    row = a["rows"][k]
    lo, hi = sorted(a["lim"][row["parameter"]]) if row["autoRange"] else (row["presetRangeMin"], row["presetRangeMax"])
    bounds(text, row["parameter"], lo, hi, where)
    lines(text, a["avg"]["ranges"][k]["modes"], where)


def check_run_text(text, a, where):
    bounds(text, "Q", np.min(a["data"]["Q"][0]), np.max(a["data"]["Q"][0]), where)
    lines(text, a["avg"]["figures"], where)


def eq(x, y, rtol=1e-9):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and bool(np.all((np.abs(x - y) <= rtol * np.maximum(np.abs(y), 1e-300)) | (np.isnan(x) & np.isnan(y)) | (x == y)))


def bars(ax):
    """(centres, widths, heights, half error lengths) of the bars of axes"""
    from matplotlib.container import BarContainer, ErrorbarContainer

    out = []
    for c in ax.containers:
        if isinstance(c, BarContainer):
            x = [p.get_x() + p.get_width() / 2 for p in c.patches]
            err = None
            drawn = [c.errorbar] if c.errorbar is not None else [b for b in ax.containers if isinstance(b, ErrorbarContainer)]
            if len(drawn) == 1:
                seg = [s for col in drawn[0].lines[2] for s in col.get_segments()]
                err = [(s[1][1] - s[0][1]) / 2 if len(s) == 2 else np.nan for s in seg]
            out.append((x, [p.get_width() for p in c.patches], [p.get_height() for p in c.patches], err))
    return out


def check_bars(b, want, where):
    x, w, h, e = b
    for name, g, k in (("centres", x, "xMean"), ("widths", w, "xWidth"), ("heights", h, "yMean")):
        if not eq(g, want[k], 1e-7):
            raise Violation("bars", f"{where}: {name} of the bars {np.asarray(g)[:6]}, the averaged histogram has {want[k][:6]}")
    if e is None or len(e) != len(h):
        raise Violation("bars", f"{where}: {0 if e is None else len(e)} error bars for {len(h)} bars")
    tol = 1e-6 * np.nanmax(np.abs(want["yMean"]) + np.nan_to_num(want["yStd"]), initial=0)
    e, s = np.asarray(e, float), want["yStd"]
    if not np.all((np.abs(e - s) <= tol) | np.isnan(s)):
        raise Violation("bars", f"{where}: error bars {e[:6]}, standard deviations are {s[:6]}")


def check_figure(fig, a, where):
    from matplotlib.container import ErrorbarContainer

    left = lambda ax: ax.get_subplotspec().colspan.start if ax.get_subplotspec() is not None else ax.get_position().x0  # noqa
    axes = sorted(fig.axes, key=left)
    hist = [ax for ax in axes if bars(ax)]
    if len(hist) != len(a["rows"]) or any(len(bars(ax)) != 1 for ax in hist):
        raise Violation("plot", f"{where}: {[len(bars(ax)) for ax in axes]} histograms drawn, {len(a['rows'])} ranges")
    for k, ax in enumerate(hist):
        row, w = a["rows"][k], f"{where}, range {k}"
        check_bars(bars(ax)[0], a["avg"]["ranges"][k], w)
        if ax.get_xscale() != ("log" if row["binScale"] == "log" else "linear"):
            raise Violation("plot", f"{w}: axis is {ax.get_xscale()}, the bins {row['binScale']}")
        if row["parameter"] not in ax.get_xlabel():
            raise Violation("plot", f"{w}: axis says {ax.get_xlabel()!r}, the parameter is {row['parameter']}")
    texts = [t.get_text() for ax in axes for t in ax.texts]
    reports = [t for t in texts if "totalValue" in t]
    if len(reports) != len(a["rows"]):
        raise Violation("plot", f"{where}: {len(reports)} reports for {len(a['rows'])} ranges")
    for k, t in enumerate(reports):
        check_hist_text(t, a, k, f"{where}, report {k}")
    runs = [t for t in texts if "scaling" in t]
    if len(runs) != 1:
        raise Violation("plot", f"{where}: {len(runs)} reports of the optimisation")
    check_run_text(runs[0], a, where)
    q = a["data"]["Q"][0]
    drawn = [(ax, c) for ax in axes for c in ax.containers if isinstance(c, ErrorbarContainer) and ax not in hist]
    if len(drawn) != 1:
        raise Violation("plot", f"{where}: measured data drawn {len(drawn)} times")
    ax, c = drawn[0]
    x, y = c.lines[0].get_data()
    if not eq(x, q) or not eq(y, a["data"]["I"]):
        raise Violation("data", f"{where}: the data drawn is not the measured data: {np.asarray(y)[:4]} and {a['data']['I'][:4]}")
    seg = [s for col in c.lines[2] for s in col.get_segments()]
    want = np.stack([a["data"]["I"] - a["data"]["ISigma"], a["data"]["I"] + a["data"]["ISigma"]], axis=1)
    if len(seg) != len(q) or not eq([[s[0][1], s[1][1]] for s in seg], want, 1e-7):
        raise Violation("data", f"{where}: the error bars drawn are not the uncertainties of the data")
    fits = [ln for ln in ax.lines if ln is not c.lines[0] and len(ln.get_xdata()) == len(q) and eq(ln.get_xdata(), q)]
    fits = [ln for ln in fits if not str(ln.get_label()).startswith("_")]
    if len(fits) != 1:
        raise Violation("fit", f"{where}: {len(fits)} fits drawn")
    if not eq(fits[0].get_ydata(), a["avg"]["I"]):
        raise Violation("fit", f"{where}: the fit drawn {np.asarray(fits[0].get_ydata())[:4]} is not the averaged model intensity {a['avg']['I'][:4]}")
    if (ax.get_xscale(), ax.get_yscale()) != ("log", "log"):
        raise Violation("plot", f"{where}: data axes are {ax.get_xscale()}, {ax.get_yscale()}")


class Canvas:
    """the seam between a figure and the file it is saved to"""

    def __init__(self, real):
        self.real, self.saved = real, []

    def __enter__(self):
        from matplotlib.backend_bases import FigureCanvasBase

        self.cls, self.old, me = FigureCanvasBase, FigureCanvasBase.print_figure, self

        def print_figure(canvas, filename, *args, **kw):
            s = Sim.current_sim
            if s is not None and s.active:
                s.point("figure.save", os.path.basename(str(filename)), sched=False)
            me.saved.append((canvas.figure, str(filename)))
            if me.check:
                me.check(canvas.figure)
            if me.real:
                return me.old(canvas, filename, *args, **kw)
            with open(filename, "wb") as f:
                f.write(b"%PDF stand-in")

        FigureCanvasBase.print_figure = print_figure
        return self

    check = None

    def __exit__(self, *e):
        self.cls.print_figure = self.old


def run(plan, ctx):
    import matplotlib
    import matplotlib.pyplot as plt

    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat

    matplotlib.use("Agg")
    plt.close("all")
    datas = []
    plan = dict(plan, res=[dict(r, lost=[k for k in r["lost"] if k < r["nRep"]][: r["nRep"] - 1]) for r in plan["res"]])
    for r in plan["res"]:
        data = gen.meas_data(r["data"], r["spec"])
        import pandas

        f = ctx.path(r["file"])
        with ctx.boot("fifo", cpu=2, max_steps=60000):
            md = McData1D(df=pandas.DataFrame({"Q": data["Q"][0], "I": data["I"], "ISigma": data["ISigma"]}), nbins=0, resultIndex=r["index"])
            md.store(f)
            data = {k: md.measData[k] for k in ("Q", "I", "ISigma")}
            McHat(resultIndex=r["index"], **gen.hat_args(r["spec"], r["opt"], r["nContrib"], r["nRep"], 1, seed=r["seedarg"])).run(dict(data), f, resultIndex=r["index"])
        datas.append({"Q": [np.array(data["Q"][0], float)], "I": np.array(data["I"], float), "ISigma": np.array(data["ISigma"], float)})
        with RealFile(f, "a") as h:
            for k in r["lost"]:
                for sub in ("model", "optimization"):
                    del h[f"{obs.entry(r['index'])}/{sub}/repetition{k}"]
    st = {"plots": 0, "failed": 0}
    with Canvas(plan["real"]) as canvas, ctx.boot("fifo", max_steps=400000) as sim, np.errstate(all="ignore"):
        try:
            session(plan, ctx, sim, canvas, datas, st)
        finally:
            plt.close("all")
    ctx.probe("plots", st["plots"])
    ctx.nontrivial = st["plots"] > 1 or st["failed"] > 0


def session(plan, ctx, sim, canvas, datas, st):
    import matplotlib.pyplot as plt

    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_plot import McPlot

    done, foreign, kept, frames = [], [], None, {}

    def expected(k, table, labels):
        r = plan["res"][k]
        f = ctx.path(r["file"])
        return {"rows": table["rows"], "labels": labels, "data": datas[k], "lim": gen.limits_for(r["spec"], datas[k]["Q"][0]), "avg": average(f, r["index"], labels), "reps": r["nRep"] - len(r["lost"])}

    for n, o in enumerate(plan["ops"]):
        where = f"operation {n} ({o['op']})"
        r = plan["res"][o["res"]]
        a = done[o["an"] % len(done)] if done else None
        if o["op"] == "analyse":
            t = r["tables"][o["table"]]
            if o.get("shared"):  # one table of the caller for several analyses
                t = plan["res"][0]["tables"][o["table"]]
                one = r["nRep"] - len(r["lost"]) == 1
                if any(row["parameter"] not in r["spec"]["fitParameterLimits"] or (row["binScale"] == "auto" and not one) for row in t["rows"]):
                    t = r["tables"][o["table"]]
                else:
                    ctx.probe("table_shared")
            key = json.dumps(t, sort_keys=True)
            frame = gen.hist_frame(t["rows"], t["labels"])
            if o.get("shared"):
                if o.get("edit") and key in frames:  # edited in place for the next analysis
                    frame, t = frames[key]
                    t = dict(t, rows=[dict(row, nBin=row["nBin"] + 1) for row in t["rows"]])
                    for h, row in zip(frame.index, t["rows"]):
                        frame.loc[h, "nBin"] = row["nBin"]
                    frames[key] = frame, t
                    ctx.probe("table_edited")
                frame, t = frames.setdefault(key, (frame, t))
            labels = t["labels"] or list(range(len(t["rows"])))
            an = McAnalysis(ctx.path(r["file"]), {k: ([v[0].copy()] if k == "Q" else v.copy()) for k, v in datas[o["res"]].items()}, frame, store=True, resultIndex=r["index"])
            a = expected(o["res"], t, labels)
            a["an"] = an
            if a["avg"]["n"] != a["reps"]:
                raise Violation("repetitions", f"{where}: analysed {a['avg']['n']} repetitions, {a['reps']} are stored")
            done.append(a)
        elif o["op"] == "report":
            for k, h in enumerate(a["labels"]):
                check_hist_text(a["an"].debugReport(h), a, k, f"{where} of range {h}")
            text = a["an"].debugRunReport()
            check_run_text(text, a, where)
            if not re.search(rf"\b{a['reps']}\b repetitions", text):
                raise Violation("report", f"{where}: averaged over {a['reps']} repetitions, the report says {text[:90]!r}")
        elif o["op"] == "foreign":
            f, ax = plt.subplots(1, 2)
            ax[0].plot([1, 2, 3], [n, 5, 6], label="mine")
            ax[1].text(0.5, 0.5, "mine")
            foreign.append(f)
        elif o["op"] == "close":
            plt.close("all")
        elif o["op"] == "debugplot":
            f = plt.figure()
            for k, h in enumerate(a["labels"][:1]):
                a["an"].debugPlot(h)
                check_bars(bars(plt.gca())[0], a["avg"]["ranges"][k], f"{where} of range {h}")
            foreign.append(f)
        elif o["op"] in ("plot", "cli"):
            canvas.saved.clear()
            canvas.check = None
            fault = o.get("fault")
            before = len(sim.fault_log)
            sim.faults[:] = [{"ev": "figure.save", "n": 1, "do": fault}] if fault else []
            state = [describe(f) for f in foreign]
            target, call = None, None
            if o["op"] == "plot":
                if o["card"] == "new" or kept is None:
                    kept = McPlot()
                target = ctx.path(f"card{o.get('target', n)}.pdf") if o["save"] else None

                def call():
                    kept.resultCard(a["an"], **({"saveHistFile": target} if target is not None else {}))
            else:
                t = r["tables"][o["table"]]
                cli.write_hist(ctx.path("h.yaml"), t["rows"])
                target = ctx.path(r["file"]).with_suffix(".pdf")

                def call():
                    cli.invoke("histogram", {"resultFile": r["file"], "histConfigFile": "h.yaml", "resultIndex": r["index"], "long": True}, close=False)
            err = None
            try:
                call()
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                err = e
                if len(sim.fault_log) == before:
                    raise
            sim.faults.clear()
            if err is not None:
                st["failed"] += 1
                ctx.probe("failed_saves")
                canvas.saved.clear()
                call()  # the fault is over
            if o["op"] == "cli":
                t = r["tables"][o["table"]]
                a = expected(o["res"], t, list(range(len(t["rows"]))))
            if target is not None:
                mine = [f for f, name in canvas.saved if os.path.realpath(name) == os.path.realpath(target)]
                if not mine:
                    raise Violation("silent", f"{where}: returned normally and nothing was saved as {target.name} ({[x[1] for x in canvas.saved]})")
                if len(canvas.saved) != len(mine):
                    raise Violation("saved", f"{where}: saved {[x[1] for x in canvas.saved]}")
                if not target.is_file():
                    raise Violation("silent", f"{where}: {target.name} is not there")
                fig = mine[-1]
            else:
                if canvas.saved:
                    raise Violation("saved", f"{where}: saved {canvas.saved} without having been asked")
                fig = plt.gcf()
            check_figure(fig, a, where)
            st["plots"] += 1
            for f, s in zip(foreign, state):
                if describe(f) != s:
                    raise Violation("foreign", f"{where}: a figure of the caller was changed")
        ctx.mix(n, o["op"])


def describe(f):
    from matplotlib._pylab_helpers import Gcf

    return [any(m.canvas.figure is f for m in Gcf.get_all_fig_managers())] + [(len(ax.lines), len(ax.texts), len(ax.containers), len(ax.patches), ax.get_xlabel(), ax.get_xscale()) for ax in f.axes]
