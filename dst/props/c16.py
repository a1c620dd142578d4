"""C16: the command line delivers optimisation and histograms end to end"""

import os

import numpy as np

from .. import cli, gen, obs
from ..kernel import SimCrash, Violation
from ..seams import RealFile
from . import c13

ID = "C16"
QUICK, THOROUGH = 320, 6000
MODELS = ("sphere",)
RULE = ("generated read, run and histogram configurations, thread and core counts, result indices and invocation styles (combined command, optimise then "
        "histogram command, the two classes), with simulated workers under a random schedule, a histogram step killed or repeated, or an optimisation "
        "made to fail by its configuration, by failing accesses or by failing worker computations; stored data, repetitions, histograms, averages and "
        "plot are compared with independent recomputation; non-trivial = several workers or a failing step")

BAD = ("runkey", "readkey", "range", "model", "nodata", "yaml", "limits", "noreadconf", "norunconf", "missing-arg")
FAULTS = ({"ev": "rng", "do": "memory"}, {"ev": "rng", "do": "memory"}, {"ev": "h5.open", "do": "EIO", "pid": 0}, {"ev": "h5.open", "do": "EACCES", "pid": 0}, {"ev": "open.r", "do": "EIO"})


def warm():
    import matplotlib.pyplot as plt

    plt.close(plt.figure())


def make(rng, idx, tier):
    kind = rng.choice(["csv", "csv", "nexus"])
    spec = gen.reverse(rng, gen.model_spec(rng, ("mcsas_sphere", "mcsas_sphere", "mcsas_sphere", "sim", "sphere")))
    data = gen.data_spec(rng)
    md = gen.meas_data(data, spec)
    q = md["Q"][0]
    lo, hi = float(q[1]), float(q[-2])
    read = {"nbins": rng.choice([0, 0, 5, 100])}
    if rng.random() < 0.5:
        read["dataRange"] = [lo, rng.choice([hi, float("inf")])]
    if rng.random() < 0.25:
        read["omitQRanges"] = [[float(q[3]), float(q[4])]]
    if rng.random() < 0.2:
        read["IEmin"] = 0.2
    p = {"kind": kind, "spec": spec, "data": data, "read": read, "nRep": rng.choice([1, 2, 3, 4, 5, 12]), "nCores": rng.choice([None, 0, 1, 2, 3, 9]),
         "threads": rng.choice([None, None, 1, 2, 4, 20]), "cpu": rng.choice([1, 2, 3, 8]), "index": rng.choice([1, 1, 1, 0, 2, 13]), "nContrib": rng.choice([1, 2, 5, 10]),
         "opt": {"maxIter": rng.choice([0, 3, 10]), "convCrit": rng.choice([1e-9, 5.0, 1.0])}, "style": rng.choice(["combined", "combined", "split", "classes"]),
         "long": rng.random() < 0.5, "delete": rng.random() < 0.4, "old": rng.choice([None, None, "other", "same"]), "result": rng.choice(["out.nxs", "out.h5", "sub.dir/out.nxs", None, "data"]),
         "ranges": gen.hist_ranges(rng, spec, q, rng.choice([1, 2, 2, 3])), "policy": rng.choice(gen.POLICIES), "again": rng.random() < 0.25, "dtype": rng.choice([None, None, "default"]), "ahead": rng.random() < 0.4}
    if p["old"] == "same":
        p["delete"] = True
    if p["result"] == "data" and kind == "csv":
        p["result"] = "out.nxs"
    r = rng.random()
    if r < 0.2:
        p["bad"] = rng.choice(BAD)
    elif r < 0.35:
        f = dict(rng.choice(FAULTS))
        f["n"] = {"rng": 1 + rng.randrange(p["nContrib"] * min(p["nRep"], 3)), "h5.open": 1, "open.r": rng.randrange(1, 3)}[f["ev"]]
        p["fault"] = f
    elif r < 0.5:
        p["histfault"] = rng.choice([{"do": "crash", "ev": "h5.closed", "n": rng.randrange(1, 80), "pid": 0}, {"do": "EIO", "ev": "h5.open", "n": rng.randrange(1, 60), "pid": 0}, {"bad": 1}])
        p["style"] = "split"
    return p


def old_plot(pdf, plan):
    """a plot made before; the clock of who made it may be ahead"""
    pdf.write_bytes(b"old plot")
    if plan.get("ahead"):
        os.utime(pdf, (4e9, 4e9))


def plot_ok(path):
    with open(path, "rb") as f:
        d = f.read()
    return d.startswith(b"%PDF-") and d.rstrip().endswith(b"%%EOF") and len(d) > 2000


def hist_state(path, idx):
    if not path.exists():
        return {}
    e = obs.entry(idx)
    return {k: v for k, v in obs.tree(path).items() if obs.under(k, e + "/histograms") or obs.under(k, e + "/optimization/average")}


def run(plan, ctx):
    from mcsas3.cli_tools import McSAS3_cli_histogram, McSAS3_cli_optimize
    from mcsas3.mc_core import McCore
    from mcsas3.mc_data_1d import McData1D

    kind, spec, idx = plan["kind"], plan["spec"], plan["index"]
    raw = gen.meas_data(plan["data"], spec)
    src = ctx.path("data.csv" if kind == "csv" else "data.nxs")
    cli.write_data(src, kind, raw)
    ctx.path("sub.dir").mkdir()
    rname = {"data": src.name}.get(plan["result"], plan["result"])
    res = ctx.path(rname or "output.nxs")
    if plan["style"] != "combined" and rname is None:
        rname, res = "out.nxs", ctx.path("out.nxs")
    is_data = rname == src.name
    pdf = res.with_suffix(".pdf")
    pre = {}
    if plan["old"] and not is_data:
        with RealFile(res, "w") as f:
            f["entry/title"] = "older"
            f[f"{obs.entry(idx + 5)[1:]}/mcdata/nbins"] = 3
            f[f"{obs.entry(idx + 5)[1:]}/optimization/repetition0/gof"] = 3.0
            if plan["old"] == "same":
                for n in range(plan["nRep"] + 3):
                    f[f"{obs.entry(idx)[1:]}/optimization/repetition{n}/gof"] = 3.0
                    f[f"{obs.entry(idx)[1:]}/model/repetition{n}/volumes"] = np.ones(2)
        old_plot(pdf, plan)
    if res.exists():
        pre = obs.tree(res)
    bad = plan.get("bad")
    conf = cli.read_config(kind)
    conf.update(plan["read"])
    cli.write_yaml(ctx.path("read.yaml"), {**conf, **({"nosuch": 1} if bad == "readkey" else {"dataRange": [1e8, 1e9]} if bad == "range" else {})})
    rc = gen.hat_args(spec, plan["opt"], plan["nContrib"], plan["nRep"], plan["nCores"])
    if plan["nCores"] is None:
        rc.pop("nCores")
    if plan["dtype"]:
        rc["modelDType"] = plan["dtype"]
    if bad == "limits":
        rc["fitParameterLimits"] = {k: "automatic" for k in rc["fitParameterLimits"]}
    cli.write_yaml(ctx.path("run.yaml"), {**rc, **({"nosuch": 1} if bad == "runkey" else {"modelName": "no_such_model"} if bad == "model" else {})})
    if bad == "yaml":
        ctx.path("run.yaml").write_text("a: [1,\n b: {")
    cli.write_hist(ctx.path("hist.yaml"), plan["ranges"])
    cli.write_hist(ctx.path("hist_bad.yaml"), [{**r, "parameter": "nosuch"} for r in plan["ranges"]])
    a = {"dataFile": "nothing.csv" if bad == "nodata" else src.name, "resultFile": rname, "resultIndex": idx if idx != 1 or plan["long"] else None, "nThreads": plan["threads"],
         "delete": plan["delete"], "long": plan["long"], "readConfigFile": "nothing.yaml" if bad == "noreadconf" else "read.yaml",
         "runConfigFile": "nothing.yaml" if bad == "norunconf" else "run.yaml", "histConfigFile": "hist.yaml"}
    if bad == "missing-arg":
        a["runConfigFile"] = None
        if plan["style"] != "combined":
            a["runConfigFile"] = "nothing.yaml"
    fails = bool(bad or "fault" in plan)
    h0 = hist_state(res, idx)
    p0 = pdf.read_bytes() if pdf.exists() else None
    style = plan["style"]

    def classes(step):
        if step == "optimize":
            McSAS3_cli_optimize(dataFile=ctx.path(a["dataFile"]), readConfigFile=ctx.path(a["readConfigFile"]), resultFile=res, runConfigFile=ctx.path(a["runConfigFile"]),
                                resultIndex=idx, deleteIfExists=plan["delete"], nThreads=plan["threads"] or 0)
        else:
            McSAS3_cli_histogram(resultFile=res, histConfigFile=ctx.path(a["histConfigFile"]), resultIndex=idx)

    def start(step, faults=()):
        """one program start; returns error, output"""
        err = None
        try:
            with ctx.boot(plan["policy"], cpu=plan["cpu"], faults=faults, max_steps=60000 + 12000 * plan["nRep"]) as sim, np.errstate(all="ignore"):
                if style == "classes":
                    classes(step)
                else:
                    cli.invoke(step, a)
        except (Exception, SystemExit, KeyboardInterrupt, SimCrash) as e:
            err = e
            if isinstance(e, SystemExit) and e.code in (0, None):
                err = None
        return err, sim.out.getvalue(), sim

    # ---- the optimisation (and the histograms, if combined)
    err, text, sim = start("combined" if style == "combined" else "optimize", [dict(plan["fault"])] if "fault" in plan else [])
    workers = sim.max_workers
    if fails and ("fault" not in plan or sim.fault_log):
        ctx.probe("failed: " + (bad or plan["fault"]["do"] + " at " + plan["fault"]["ev"]))
        visible = err is not None or "Error" in text or "error" in text or "usage:" in text
        if not visible:
            raise Violation("silent", f"the optimisation failed ({bad or plan['fault']}) and nothing says so; output: {text[-300:]!r}")
        if style == "combined" or style == "classes":
            now = hist_state(res, idx)
            if [k for k in now if h0.get(k) != now[k]]:
                raise Violation("histogram-after-failure", f"the optimisation failed ({bad or plan['fault']}), but histograms were stored: {sorted(now)[:4]}")
            p1 = pdf.read_bytes() if pdf.exists() else None
            if p1 is not None and p1 != p0:
                raise Violation("histogram-after-failure", f"the optimisation failed ({bad or plan['fault']}), but a plot was made")
        ctx.nontrivial = True
        return
    if err is not None:
        failed(err, text)
    bound = min(plan["cpu"], plan["threads"] or (plan["nCores"] if plan["nCores"] else plan["cpu"]))
    if workers > bound:
        raise Violation("workers", f"{workers} workers with -t {plan['threads']}, nCores {plan['nCores']} and {plan['cpu']} cores")
    # ---- the histograms
    if style != "combined":
        if obs_has_hist(res, idx):
            raise Violation("histograms", "the optimise command stored histograms")
        reps0 = {n: obs.rep_tree(res, idx, n) for n in range(plan["nRep"])}
        hf = plan.get("histfault")
        if hf:
            if "bad" in hf:
                a["histConfigFile"] = "hist_bad.yaml"
            err, text, sim = start("histogram", [] if "bad" in hf else [dict(hf)])
            if ("bad" in hf or sim.fault_log) and err is None and "rror" not in text:
                raise Violation("silent", f"histogramming failed ({hf}) and nothing says so; output: {text[-300:]!r}")
            a["histConfigFile"] = "hist.yaml"
            ctx.probe("histogramming failed" if err is not None else "histogramming passed")
        if plan.get("ahead"):
            old_plot(pdf, plan)
        err, text, sim = start("histogram")
        if err is not None:
            failed(err, text)
        for n, t in reps0.items():
            if obs.rep_tree(res, idx, n) != t:
                raise Violation("reps-changed", f"histogramming changed repetition {n}")
    elif plan["again"]:
        before = hist_state(res, idx)
        a["resultFile"] = str(res)
        if plan.get("ahead"):
            old_plot(pdf, plan)
        err, text, sim = start("histogram")
        if err is not None:
            failed(err, text)
        if {k for k in before} != {k for k in hist_state(res, idx)}:
            raise Violation("histograms", "the histogram command stores other things than the combined command")
        ctx.probe("histogrammed_again")
    # ---- what is there now
    with ctx.boot("fifo", max_steps=300000), np.errstate(all="ignore"):
        want = McData1D(filename=src, resultIndex=idx, **cli_read(ctx)).measData
        got = McData1D(loadFromFile=res, resultIndex=idx).measData
        for name, x, y in (("Q", want["Q"][0], got["Q"][0]), ("I", want["I"], got["I"]), ("ISigma", want["ISigma"], got["ISigma"])):
            x, y = np.asarray(x, float), np.asarray(y, float)
            if x.shape != y.shape or not np.array_equal(x, y):
                raise Violation("data", f"the file holds {len(y)} data points with {name} = {y.tolist()[:6]}, read were {len(x)}: {x.tolist()[:6]}")
        data = {"Q": [np.asarray(want["Q"][0], float)], "I": np.asarray(want["I"], float), "ISigma": np.asarray(want["ISigma"], float)}
        per = {}
        for k in range(plan["nRep"]):
            obs_need(res, idx, plan["nRep"])
            c = McCore(measData={"Q": [data["Q"][0]], "I": data["I"], "ISigma": data["ISigma"]}, loadFromFile=res, loadFromRepetition=k, resultIndex=idx)
            per[k] = {"x0": np.array(c._opt.x0, float), "gof": float(c._opt.gof), "I": np.array(c._opt.modelI, float)}
    check_data(plan, raw, data)
    lim = gen.limits_for(spec, data["Q"][0])
    drawn = {}
    for n in range(plan["nRep"]):
        r = obs.load_rep(res, idx, n)
        obs.check_rep(r, data, spec, plan["nContrib"], plan["opt"], lim)
        for v in r.data.ravel():
            if drawn.setdefault(float(v), n) != n:
                raise Violation("same-values", f"repetitions {drawn[float(v)]} and {n} hold the same value {v}")
    c13.check(res, {"index": idx, "spec": spec, "ranges": plan["ranges"]}, data, list(range(plan["nRep"])), per)
    t = obs.tree(res)
    extra = sorted({k.split("/")[2] for k in t if k.startswith("/analyses/MCResult")} - {k.split("/")[2] for k in pre if k.startswith("/analyses/MCResult")} - {f"MCResult{idx}"})
    if extra:
        raise Violation("index", f"results for index {idx} were also stored under {extra}")
    hr = {k.split("/")[4] for k in t if k.startswith(obs.entry(idx) + "/histograms/") and len(k.split("/")) > 4}
    if hr != {f"histRange{i}" for i in range(len(plan["ranges"]))}:
        raise Violation("histograms", f"{len(plan['ranges'])} ranges configured, stored {sorted(hr)}")
    if not pdf.exists():
        raise Violation("plot", f"no {pdf.name} beside {res.name}: {sorted(os.listdir(res.parent))}")
    if not plot_ok(pdf):
        raise Violation("plot", f"{pdf.name} is not a new plot")
    if workers > 1:
        ctx.probe("parallel")
    ctx.nontrivial = workers > 1 or "histfault" in plan


def failed(err, text):
    if isinstance(err, (SystemExit, KeyboardInterrupt, SimCrash)):
        raise Violation("refused", f"{type(err).__name__} {err}: {text[-500:]}")
    raise err


def obs_has_hist(res, idx):
    return any(obs.under(k, obs.entry(idx) + "/histograms") for k in obs.tree(res))


def obs_need(res, idx, n):
    obs.need_reps(res, idx, range(n))


def cli_read(ctx):
    import yaml

    with open(ctx.path("read.yaml")) as f:
        return yaml.safe_load(f)


def check_data(plan, raw, data):
    """without binning: exactly the points of the requested range"""
    rd = plan["read"]
    if rd["nbins"] != 0 or "omitQRanges" in rd:
        return
    q = raw["Q"][0]
    lo, hi = rd.get("dataRange", [0.0, np.inf])
    m = (q >= lo) & (q < hi)
    if not np.allclose(data["Q"][0], q[m], rtol=1e-12, atol=0) or not np.allclose(data["I"], raw["I"][m], rtol=1e-12, atol=0):
        raise Violation("data", f"{m.sum()} of the points in the file are in the range, used were {data['Q'][0].tolist()[:5]}... ({len(data['I'])})")
