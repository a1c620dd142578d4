"""C10: a restored data state is the stored one, whatever happened to the source"""

import copy
import os
import shutil

import numpy as np
import pandas

from .. import gen, obs
from ..kernel import SimCrash, Violation
from ..seams import RealFile

ID = "C10"
QUICK, THOROUGH = 600, 20000
MODELS = ()
RULE = ("a generated sequence of reading (frame, text, PDH, NeXus by default or explicit paths), changing read settings, storing to and restoring "
        "from several files and result indices over program restarts, with the source modified, moved or deleted in between and some stores killed or "
        "failing; every restored object is compared with a model that remembers the data in use at each store; non-trivial = at least one restore")

LINKS = ("rawData", "clippedData", "binnedData")


def source_spec(rng):
    return {"kind": rng.choice(["df", "df", "csv", "csv", "pdh", "nexus", "paths"]), "n": rng.choice([12, 30, 60, 140]), "seed": rng.randrange(10**6),
            "qmin": rng.choice([0.01, 0.05, 0.3]), "span": rng.choice([20, 100]), "qsigma": rng.random() < 0.3, "nan": rng.random() < 0.25,
            "dup": rng.random() < 0.25, "index": rng.choice(["range", "range", "shifted", "duplicate", "shuffled"]),
            "sep": rng.choice([None, None, ";", ","]), "head": rng.choice([0, 0, 2]), "unc": rng.choice(["attr", "axis", "none"]),
            "mix": rng.random() < 0.2}


def settings(rng, s):
    lo, hi = s["qmin"], s["qmin"] * s["span"]
    d = {}
    if rng.random() < 0.7:
        d["nbins"] = rng.choice([0, 0, 3, 5, 20, 100])
    if rng.random() < 0.5:
        d["dataRange"] = rng.choice([[lo * 1.5, hi * 0.7], [0.0, hi * 0.5], [-np.inf, hi * 0.8], [lo * 2, np.inf], [0, 1000]])
    if rng.random() < 0.4:
        m = (lo * hi) ** 0.5
        d["omitQRanges"] = rng.choice([[], [[m * 0.7, m]], [[lo * 1.2, lo * 1.6], [m, m * 1.3]], [[0, lo * 1.1]]])
    if rng.random() < 0.4:
        d["qNudge"] = rng.choice([0, 0.001, lo * 0.3, -lo * 0.1, 1])
    if rng.random() < 0.4:
        d["IEmin"] = rng.choice([0.001, 0.05, 0.3])
    if rng.random() < 0.3:
        d["measDataLink"] = rng.choice(LINKS)
    return d


def make(rng, idx, tier):
    nsrc = rng.choice([1, 1, 2, 3])
    srcs = [source_spec(rng) for _ in range(nsrc)]
    ops = [{"op": "new", "src": 0, "set": settings(rng, srcs[0])}]
    slots = [[f, i] for f in range(rng.choice([1, 2])) for i in rng.sample([0, 1, 2, 11], rng.choice([1, 2]))]
    for _ in range(rng.choice([4, 6, 8, 12])):
        o = rng.choice(["store", "store", "store", "restore", "restore", "restore", "link", "set", "new", "damage", "restart"])
        k = rng.randrange(nsrc)
        d = {"op": o}
        if o in ("store", "restore"):
            d["slot"] = rng.randrange(len(slots))
            if o == "store" and rng.random() < 0.2:
                d["fault"] = {"do": rng.choice(["crash", "EIO", "interrupt", "EAGAIN"]), "at": rng.randrange(1, 30)}
        elif o == "link":
            d["link"] = rng.choice(LINKS)
        elif o == "set":
            d["set"] = settings(rng, srcs[k])
            d["set"].pop("measDataLink", None)
        elif o == "new":
            d.update(src=k, set=settings(rng, srcs[k]))
        elif o == "damage":
            d.update(src=k, how=rng.choice(["change", "move", "delete"]))
        ops.append(d)
    ops += [{"op": "store", "slot": 0}, {"op": "restore", "slot": 0}] + [{"op": "restore", "slot": k} for k in range(1, len(slots))]
    return {"srcs": srcs, "ops": ops, "slots": slots}


def columns(s, salt=0):
    r = np.random.RandomState(s["seed"] + salt)
    q = np.logspace(np.log10(s["qmin"]), np.log10(s["qmin"] * s["span"]), s["n"]) * (1 + 1e-3 * r.standard_normal(s["n"]))
    q = np.sort(q)
    if s["dup"]:
        q[1::4] = q[0::4][: len(q[1::4])]
    i = 10.0 / (1 + (q / s["qmin"] / 3) ** 2) * (1 + 0.03 * r.standard_normal(len(q))) + 0.01
    sg = 0.02 * i * (1 + r.rand(len(q)))
    c = {"Q": q, "I": i, "ISigma": sg}
    if s["qsigma"]:
        c["QSigma"] = 0.01 * q * (1 + r.rand(len(q)))
    if s["nan"]:
        for k in r.randint(0, len(q), 3):
            c["ISigma"][k] = np.nan
    return c


def write_source(s, path, salt=0):
    c = columns(s, salt)
    if s["kind"] in ("csv", "pdh"):
        sep = (s["sep"] or " ") if s["kind"] == "csv" else " "
        cols = [c["Q"], c["I"], c["ISigma"]] + ([c["QSigma"]] if s["qsigma"] and s["kind"] == "csv" else [])
        lines = [sep.join("NaN" if np.isnan(v) else repr(float(v)) for v in row) for row in zip(*cols)]
        head = [f"comment {k}" for k in range(s["head"])] if s["kind"] == "csv" else ["title"] + ["x y"] * 4
        tail = ["<?xml version='1.0'?>", "<a/>"] if s["kind"] == "pdh" else []
        with open(path, "w") as f:
            f.write("\n".join(head + lines + tail) + "\n")
    else:
        with RealFile(path, "w") as f:
            g = f.create_group("entry/data")
            g["I"], g["Q"], g["Isd"] = c["I"], c["Q"][None, :] if s["mix"] else c["Q"], c["ISigma"]
            if s["kind"] == "nexus":
                f.attrs["default"] = "entry"
                f["entry"].attrs["default"] = "data"
                g.attrs["signal"] = "I"
                g.attrs["axes"] = np.array(["Q"], dtype="S") if s["mix"] else ["Q"]
                if s["unc"] == "attr":
                    g.attrs["I_uncertainty"] = "Isd"
                elif s["unc"] == "axis":
                    g["I"].attrs["uncertainties"] = "Isd"


def frame(s):
    c = columns(s)
    df = pandas.DataFrame(c)
    n = len(df)
    if s["index"] == "shifted":
        df.index = np.arange(n) + 7
    elif s["index"] == "duplicate":
        df.index = np.arange(n) % max(2, n // 2)
    elif s["index"] == "shuffled":
        df = df.sample(frac=1.0, random_state=s["seed"] % 1000)
    return df


def plain(d):
    """a dictionary of arguments, without the type a number or text comes in; nothing is the same as not given"""
    if isinstance(d, dict):
        return {str(k): plain(v) for k, v in d.items() if v is not None} or None
    if isinstance(d, (list, tuple, np.ndarray)):
        return [plain(v) for v in d]
    return d.item() if isinstance(d, np.generic) else d


def snap(md):
    """what the object hands to a fit, for every choice of data set, and its settings"""
    def cp(m):
        return {k: [np.array(x, float) for x in m[k]] if k == "Q" else np.array(m[k], float) for k in ("Q", "I", "ISigma")}

    out = {"use": cp(md.measData), "settings": {
        "dataRange": [float(x) for x in md.dataRange], "nbins": int(md.nbins), "IEmin": float(md.IEmin), "qNudge": float(md.qNudge),
        "measDataLink": str(md.measDataLink), "filename": None if md.filename is None else str(md.filename), "loader": md.loader,
        "binning": md.binning, "csvargs": plain(md.csvargs), "pathDict": plain(md.pathDict), "omitQRanges": [[float(y) for y in x] for x in (md.omitQRanges if md.omitQRanges is not None else [])]}}
    for link in LINKS:
        c = copy.copy(md)
        c.linkMeasData(link)
        out[link] = cp(c.measData)
    return out


def same(a, b):
    if len(a["Q"]) != len(b["Q"]):
        return "number of Q vectors"
    for k in ("I", "ISigma"):
        if a[k].shape != b[k].shape:
            return f"{b[k].shape[0]} points instead of {a[k].shape[0]}"
        if not obs.isclose(b[k], a[k], 1e-12):
            j = int(np.nanargmax(np.abs(b[k] - a[k])))
            return f"{k}[{j}] is {b[k][j]} instead of {a[k][j]}"
    for x, y in zip(a["Q"], b["Q"]):
        if x.shape != y.shape or not obs.isclose(y, x, 1e-12):
            return f"Q differs: {y[:4]} instead of {x[:4]}"
    return None


def compare(want, got, where):
    d = same(want["use"], got["use"])
    if d:
        raise Violation("data", f"{where}: data to fit: {d}")
    for k, v in want["settings"].items():
        if got["settings"][k] != v:
            raise Violation("settings", f"{where}: {k} is {got['settings'][k]!r} instead of {v!r}")
    for link in LINKS:
        d = same(want[link], got[link])
        if d:
            raise Violation("data", f"{where}: {link}: {d}")


def run(plan, ctx):
    from mcsas3.mc_data_1d import McData1D

    os.makedirs(ctx.path("src"), exist_ok=True)
    ext = {"csv": "dat", "pdh": "pdh", "nexus": "nxs", "paths": "h5"}
    paths = []
    for k, s in enumerate(plan["srcs"]):
        p = ctx.path(f"src/s{k}.{ext.get(s['kind'], 'none')}")
        paths.append(p)
        if s["kind"] != "df":
            write_source(s, p)

    def new(o):
        s, p = plan["srcs"][o["src"]], paths[o["src"]]
        kw = copy.deepcopy(o["set"])
        if s["kind"] == "df":
            return McData1D(df=frame(s), resultIndex=1, **kw)
        if not p.exists():
            write_source(s, p)
        if s["kind"] == "csv" and (s["sep"] or s["head"] or s["qsigma"]):
            kw["csvargs"] = {"sep": s["sep"] or r"\s+", "header": None, "names": ["Q", "I", "ISigma"] + (["QSigma"] if s["qsigma"] else []), "skiprows": s["head"]}
        if s["kind"] == "paths":
            kw["pathDict"] = {"Q": "/entry/data/Q", "I": "/entry/data/I", "ISigma": "entry/data/Isd"}
        return McData1D(filename=p, **kw)

    model, md, restores = {}, None, 0
    ops = list(plan["ops"])
    boot, sim = None, None

    def down():
        nonlocal boot
        if boot is not None:
            b, boot = boot, None
            b.__exit__(None, None, None)

    def up(faults=()):
        nonlocal boot, sim
        down()
        boot = ctx.boot("fifo", faults=faults, max_steps=60000, fresh=True)
        sim = boot.__enter__()

    up()
    for n, o in enumerate(ops):
        what = o["op"]
        if md is None and what in ("store", "link", "set"):
            continue
        if what == "new":
            try:
                md = new(o)
            except AssertionError as e:
                if "too small" not in str(e):
                    raise
                md = None
                continue
        elif what == "restart":
            up()
            md = None  # nothing but files survives
        elif what == "link":
            md.linkMeasData(o["link"])
        elif what == "set":
            old = copy.deepcopy({k: getattr(md, k) for k in o["set"]})
            try:
                for k, v in copy.deepcopy(o["set"]).items():
                    setattr(md, k, v)
                md.prepare()
            except (AssertionError, ValueError) as e:
                for k, v in old.items():
                    setattr(md, k, v)
                md.prepare()
        elif what == "damage":
            p = paths[o["src"]]
            if p.exists():
                if o["how"] == "delete":
                    os.unlink(p)
                elif o["how"] == "move":
                    os.rename(p, str(p) + ".away")
                else:
                    write_source(plan["srcs"][o["src"]], p, salt=1 + n)
        elif what == "store":
            f, i = plan["slots"][o["slot"]]
            out = ctx.path(f"out{f}.h5")
            want = snap(md)
            md.resultIndex = type(md.resultIndex)(i)
            if "fault" in o:
                # a store that does not finish; then the program (restarted or not) stores again
                keep = md
                fl = o["fault"]
                up([{"ev": "h5.closed" if fl["do"] == "crash" else "h5.open", "n": fl["at"], "do": fl["do"]}])
                failed = False
                try:
                    md.store(out)
                except (Exception, KeyboardInterrupt, SimCrash):
                    if not sim.fault_log:
                        raise
                    failed = True
                if sim.fault_log and not failed and fl["do"] != "crash":
                    raise Violation("silent", f"store met {fl['do']} but returned normally")
                up()
                md = keep
                md.store(out)
            else:
                md.store(out)
            model[o["slot"]] = want
            compare(want, snap(md), "object after storing it")
        elif what == "restore":
            if o["slot"] not in model:
                continue
            f, i = plan["slots"][o["slot"]]
            before = {str(p): obs.file_hash(p) for p in paths if p.exists()}
            md = McData1D(loadFromFile=ctx.path(f"out{f}.h5"), resultIndex=i)
            compare(model[o["slot"]], snap(md), f"operation {n}: restored from file {f} index {i}")
            restores += 1
            for p, h in before.items():
                if obs.file_hash(p) != h:
                    raise Violation("source", f"restoring changed the source {p}")
        ctx.mix(n, what)
    down()
    ctx.probe("restores", restores)
    ctx.nontrivial = restores > 0
