"""C14: command-line runs never destroy the input or results not meant to go"""

import os
import shutil

import numpy as np

from .. import cli, gen, obs
from ..kernel import SimCrash, Violation
from ..seams import RealFile

ID = "C14"
QUICK, THOROUGH = 300, 8000
MODELS = ()
RULE = ("a generated sequence of optimise, histogram and combined commands with the result directed at the data file (as is, relative, with '..', through "
        "symbolic links to the file or its directory, by hard link) or at new or existing result files, with and without deletion, valid and invalid "
        "configurations, some killed or meeting failing file accesses; all files are compared before and after; non-trivial = a fault, an alias or a deletion")


def warm():
    import matplotlib.pyplot as plt

    plt.close(plt.figure())


ALIASES = ("same", "relative", "dotdot", "symlink", "hardlink", "dirlink", "symlink2")


def make(rng, idx, tier):
    kind = rng.choice(["nexus", "nexus", "csv"])
    spec = gen.model_spec(rng, ("mcsas_sphere",))
    data = gen.data_spec(rng)
    q = gen.meas_data(data, spec)["Q"][0]
    calls = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        target = rng.choice(["alias", "alias", "alias", "new", "old", "old", "oldlink"]) if kind == "nexus" else rng.choice(["alias", "alias", "new", "old", "oldlink"])
        c = {"style": rng.choice(["optimize", "optimize", "combined", "histogram"]), "target": target, "alias": rng.choice(ALIASES),
             "data": rng.choice(["plain", "plain", "plain", "relative", "symlink", "hardlink"]), "delete": rng.random() < 0.5, "index": rng.choice([1, 1, 2, 7]),
             "threads": rng.choice([None, 1, 2]), "long": rng.random() < 0.5,
             "bad": rng.choice(["runkey", "readkey", "range", "histkey", "model", "nodata", "yaml"]) if rng.random() < 0.25 else None}
        if rng.random() < 0.15:
            c["target"] = "pdf"  # named like a plot
        if calls and rng.random() < 0.6:
            c.update({k: calls[-1][k] for k in ("target", "alias")})
            if rng.random() < 0.5:
                c["index"] = calls[-1]["index"]
        elif kind == "csv" and c["target"] == "alias" and rng.random() < 0.5:
            c["target"] = "new"
        if not calls and c["style"] == "histogram":
            c["style"] = "combined"
        if rng.random() < 0.4:
            c["fault"] = {"ev": rng.choice(["h5.closed", "h5.open", "h5.open", "any-file", "os.unlink", "open.r", "open.w"]), "at": rng.random(),
                          "do": rng.choice(["crash", "crash", "EIO", "EACCES", "ENOSPC", "EAGAIN"])}
            if c["fault"]["do"] == "crash" and c["fault"]["ev"] == "h5.open":
                c["fault"]["ev"] = "h5.closed"
        elif rng.random() < 0.08:
            c["fault"] = {"ev": "torn", "at": rng.random(), "do": "torn"}
        calls.append(c)
    return {"kind": kind, "spec": spec, "data": data, "calls": calls, "ranges": gen.hist_ranges(rng, spec, q, rng.choice([1, 2])), "nRep": rng.choice([1, 2, 2]),
            "nCores": rng.choice([1, 1, 2]), "seedless": True, "policy": rng.choice(gen.POLICIES), "suffix": rng.choice([".nxs", ".h5"])}


def run(plan, ctx):
    kind, spec = plan["kind"], plan["spec"]
    data = gen.meas_data(plan["data"], spec)
    d = ctx.path("measured")
    d.mkdir()
    ctx.path("other").mkdir()
    src = d / ("data.csv" if kind == "csv" else "data" + plan["suffix"])
    cli.write_data(src, kind, data)
    os.symlink(src, ctx.path("other") / ("link" + src.suffix))
    os.symlink("link" + src.suffix, ctx.path("other") / ("link2" + src.suffix))
    os.link(src, ctx.path("other") / ("hard" + src.suffix))
    os.symlink(d, ctx.path("dirlink"))
    alias = {"same": str(src), "relative": os.path.join("measured", src.name), "dotdot": os.path.join("other", "..", "measured", src.name),
             "symlink": "other/link" + src.suffix, "symlink2": "other/link2" + src.suffix, "hardlink": "other/hard" + src.suffix, "dirlink": os.path.join("dirlink", src.name)}
    # an older result file with results under several indices and foreign content
    old = ctx.path("old.nxs")
    with RealFile(old, "w") as f:
        f["entry/data/I"] = np.arange(9.0)
        f["entry/data"].attrs["signal"] = "I"
        for i in (2, 3, 7, 11):
            f[f"analyses/MCResult{i}/mcdata/nbins"] = i
            f[f"analyses/MCResult{i}/histograms/histRange0/average/yMean"] = np.ones(i)
        f["analyses/notes"] = "mine"
    os.symlink("old.nxs", ctx.path("oldlink.nxs"))
    # bystanders
    for name in ("notes.txt", "data.pdf.txt", "measured/data.dat.bak", "other/keep.nxs", "measured/data.nxs.orig"):
        ctx.path(name).write_text(name * 3)
    conf = {"read": cli.read_config(kind), "run": gen.hat_args(spec, {"maxIter": 3, "convCrit": 1e-9}, 2, plan["nRep"], plan["nCores"]), "hist": plan["ranges"]}
    cli.write_yaml(ctx.path("read.yaml"), conf["read"])
    cli.write_yaml(ctx.path("run.yaml"), conf["run"])
    cli.write_hist(ctx.path("hist.yaml"), conf["hist"])
    cli.write_yaml(ctx.path("read_readkey.yaml"), {**conf["read"], "nosuch": 1})
    cli.write_yaml(ctx.path("read_range.yaml"), {**conf["read"], "dataRange": [1e8, 1e9]})
    cli.write_yaml(ctx.path("run_runkey.yaml"), {**conf["run"], "nosuch": 1})
    cli.write_yaml(ctx.path("run_model.yaml"), {**conf["run"], "modelName": "no_such_model"})
    cli.write_hist(ctx.path("hist_histkey.yaml"), [{**r, "parameter": "nosuch"} for r in conf["hist"]])
    ctx.path("run_yaml.yaml").write_text("a: [1,\n b: {")
    orig = obs.tree(src) if kind == "nexus" else None
    orig_bytes = src.read_bytes()
    allsteps = 0
    special = False
    for n, c in enumerate(plan["calls"]):
        target = {"alias": alias[c["alias"]], "new": "new.nxs", "old": "old.nxs", "oldlink": "oldlink.nxs", "pdf": "result.pdf"}[c["target"]]
        bad = c["bad"]
        a = {"dataFile": alias[{"plain": "same"}.get(c["data"], c["data"])], "resultFile": target, "resultIndex": c["index"], "nThreads": c["threads"], "delete": c["delete"],
             "long": c["long"], "readConfigFile": {"readkey": "read_readkey.yaml", "range": "read_range.yaml"}.get(bad, "read.yaml"),
             "runConfigFile": {"runkey": "run_runkey.yaml", "model": "run_model.yaml", "yaml": "run_yaml.yaml"}.get(bad, "run.yaml"),
             "histConfigFile": {"histkey": "hist_histkey.yaml"}.get(bad, "hist.yaml")}
        if bad == "nodata":
            a["dataFile"] = "measured/nothing.csv"
        tpath = ctx.path(target)
        is_data = c["target"] == "alias"
        before = snapshot(ctx)
        real = os.path.realpath(tpath)
        tbefore = obs.tree(real) if os.path.exists(real) and h5(real) else None
        faults = []
        torn = None
        fl = c.get("fault")
        if fl:
            est = {"h5.closed": 60 + 45 * plan["nRep"], "h5.open": 60 + 45 * plan["nRep"], "os.unlink": 2, "open.r": 4, "open.w": 1, "any-file": 300}.get(fl["ev"], 1)
            at = 1 + int(fl["at"] ** 2 * est)
            if fl["ev"] == "torn":
                torn = [1 + int(fl["at"] * 300), 0.5]
            elif fl["ev"] == "any-file":
                faults = [{"ev": "h5.open" if fl["do"] != "crash" else "h5.closed", "n": 1 + int(fl["at"] ** 4 * est), "do": fl["do"]}]
            else:
                faults = [{"ev": fl["ev"], "n": at, "do": fl["do"]}]
        style = c["style"]
        err = None
        with ctx.boot(plan["policy"], cpu=2, faults=faults, max_steps=120000) as sim:
            sim.disk.torn = torn
            try:
                with np.errstate(all="ignore"):
                    cli.invoke(style, a)
            except (Exception, SystemExit, KeyboardInterrupt, SimCrash) as e:
                err = e
            hit = bool(sim.fault_log) or sim.crashed
        what = f"call {n} ({style} -r {target}{' -d' if c['delete'] else ''}{', ' + str(bad) if bad else ''}{', ' + fl['do'] + ' at ' + fl['ev'] if hit else ''})"
        special = special or hit or is_data or c["delete"]
        # the measurement data
        if not src.exists() or src.is_symlink():
            raise Violation("data-gone", f"{what}: the data file is gone")
        if kind == "csv":
            if src.read_bytes() != orig_bytes:
                raise Violation("data-changed", f"{what}: the data file was changed")
        else:
            try:
                now = obs.tree(src)
            except Exception as e:
                raise Violation("torn-session" if torn and hit else "data-damaged", f"{what}: the data file cannot be read: {e}")
            df = [x for x in obs.diff(orig, now) if not (x[0] == "+" and (x[1:] == "/analyses" or x.startswith("+/analyses/MCResult")))]
            if df:
                raise Violation("torn-session" if torn and hit else "data-changed", f"{what}: the data file lost or changed {df[:6]}")
        # everything else
        after = snapshot(ctx)
        pdf = os.path.relpath(tpath.with_suffix(".pdf"), ctx.root)
        mine = {os.path.relpath(real, ctx.root), os.path.relpath(src, ctx.root), "other/hard" + src.suffix, pdf, os.path.normpath(pdf), os.path.relpath(os.path.realpath(tpath.with_suffix(".pdf")), ctx.root)}
        if c["target"] == "pdf":
            mine |= {x for x in before if x.startswith(target) and x.endswith(".pdf") and x != target}
        if c["delete"] and style != "histogram":
            mine.add(target)  # a link to a result file is a result file
        for name, h in before.items():
            if name in mine:
                continue
            if name not in after:
                raise Violation("deleted", f"{what}: {name} is gone")
            if after[name] != h:
                raise Violation("changed", f"{what}: {name} was changed")
        # the result file
        removable = c["delete"] and not is_data and style != "histogram"
        if tbefore is not None and not removable:
            if not os.path.exists(real):
                raise Violation("result-gone", f"{what}: the result file is gone without deletion having been requested")
            try:
                now = obs.tree(real)
            except Exception as e:
                raise Violation("torn-session" if torn and hit else "result-damaged", f"{what}: the result file cannot be read: {e}")
            keep = [k for k in tbefore if not obs.under(k, obs.entry(c["index"])) and k not in ("/", "/analyses")]
            if style == "histogram":
                e = obs.entry(c["index"])
                keep += [k for k in tbefore if obs.under(k, e) and not obs.under(k, e + "/histograms") and not obs.under(k, e + "/optimization/average") and k not in (e, e + "/optimization")]
            lost = [k for k in keep if now.get(k) != tbefore[k]]
            if lost:
                raise Violation("torn-session" if torn and hit else "results-lost", f"{what}: the result file lost or changed {lost[:6]}")
        if torn and hit and any(os.path.exists(x) and not readable(x) for x in (real, tpath)):
            return
        ctx.mix(n, style, err is None)
        ctx.probe("succeeded" if err is None else "failed: " + type(err).__name__ + " " + str(err).split("/")[0][:40])
    ctx.nontrivial = special


def readable(p):
    try:
        obs.tree(p)
        return True
    except Exception:
        return False


def h5(p):
    import h5py

    return h5py.is_hdf5(p)


def snapshot(ctx):
    """files and links: what each name holds"""
    out = {}
    for base, dirs, files in os.walk(ctx.root):
        for n in sorted(files) + sorted(x for x in dirs if os.path.islink(os.path.join(base, x))):
            p = os.path.join(base, n)
            r = os.path.relpath(p, ctx.root)
            if "matplotlib" in r or r.startswith("."):
                continue
            out[r] = ("link", os.readlink(p)) if os.path.islink(p) else ("file", obs.file_hash(p))
    return out
