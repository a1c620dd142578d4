"""Histories of reading and preparing measurement data, shared by C18, C19, C22 and C23.

Several data objects live in one program. They read, re-read, change settings, are stored and
restored, meet failing file accesses, and their sources are replaced underneath. A model keeps
what the source held when it was last read successfully, and the settings in use."""

import copy
import os

import numpy as np
import pandas

from ..kernel import Violation
from ..seams import RealFile

LINKS = ("rawData", "clippedData", "binnedData")
EXT = {"csv": ("dat", "csv", "txt"), "pdh": ("pdh",), "nexus": ("nxs", "h5", "hdf5", "nx"), "paths": ("h5", "nxs")}


# ---------------------------------------------------------------- sources
def source(rng, kinds=("df", "csv", "csv", "pdh", "nexus", "nexus", "paths")):
    d = {"kind": rng.choice(kinds), "ext": rng.randrange(4), "n": rng.choice([1, 2, 5, 12, 12, 30, 60, 140]), "seed": rng.randrange(10**6),
            "qmin": rng.choice([0.003, 0.01, 0.05, 0.3]), "span": rng.choice([1.5, 20, 100, 1000]), "qsigma": rng.random() < 0.3, "nan": rng.random() < 0.3,
            "dup": rng.random() < 0.25, "neg": rng.random() < 0.15, "order": rng.choice(["up", "up", "up", "down", "mixed"]),
            "clusters": rng.random() < 0.3, "index": rng.choice(["range", "range", "shifted", "duplicate", "shuffled"]),
            "sep": rng.choice([None, None, ";", ",", "\t"]), "head": rng.choice([0, 0, 2]), "colorder": rng.random() < 0.2,
            "unc": rng.choice(["attr", "axis", "none"]), "qname": rng.choice(["Q", "Q", "q"]), "axes": rng.choice(["axes", "axes", "I_axes"]),
            "bytes": rng.random() < 0.3, "lead": rng.choice([0, 0, 1]), "depth": rng.choice([1, 2, 3]), "signal": rng.choice(["I", "I", "data"]), "axstr": rng.random() < 0.2, "tail": rng.choice([0, 0, 1, 2, 3]),
            "ints": rng.choice([None, None, None, None, "I", "ISigma", "both"]), "odd": rng.random() < 0.15}
    if rng.random() < 0.2:  # points exactly where the edges of bins are
        d.update(grid=True, n=rng.choice([7, 13, 21, 41, 61]), clusters=False, nan=False, ints=None)
    return d


def odd(s):
    """the loader has to be given, the file name does not tell it"""
    return {"csv": "from_csv", "pdh": "from_pdh", "nexus": "from_nexus", "paths": "from_nexus"}.get(s["kind"]) if s["odd"] else None


def suffix(s):
    if s["odd"] and s["kind"] != "df":
        return {"csv": "grad", "pdh": "dat", "nexus": "out", "paths": "hdf"}[s["kind"]]
    e = EXT.get(s["kind"], ("none",))
    return e[s["ext"] % len(e)]


def count(s):
    return max(s["n"], 2) if s["kind"] in ("nexus", "paths") else s["n"]


def columns(s, salt=0):
    r = np.random.RandomState((s["seed"] + 7919 * salt) % 2**32)
    n = count(s)
    q = np.logspace(np.log10(s["qmin"]), np.log10(s["qmin"] * s["span"]), n) * (1 + (0 if s.get("grid") else 1e-3) * r.standard_normal(n))
    if s["clusters"] and n > 4:
        q = np.sort(np.concatenate([q[: n // 2], q[0] * (1 + 0.02 * r.rand(n - n // 2))]))
    q = np.sort(q)
    if s["dup"]:
        q[1::4] = q[0::4][: len(q[1::4])]
    i = 10.0 / (1 + (q / s["qmin"] / 3) ** 2) * (1 + 0.03 * r.standard_normal(n)) + 0.01
    if s["neg"]:
        i = i - 2.0
    sg = 0.02 * np.abs(i) * (0.1 + r.rand(n)) + 1e-6
    c = {"Q": q, "I": i, "ISigma": sg}
    if s["qsigma"]:
        c["QSigma"] = 0.01 * q * (1 + r.rand(n))
    if s["nan"] and n > 5:
        for k in r.randint(0, n, 3):
            c[["I", "ISigma", "Q"][r.randint(0, 3 if s["kind"] != "pdh" else 2)]][k] = np.nan
    for k in ("I", "ISigma"):
        if s["ints"] in (k, "both") and not np.isnan(c[k]).any():
            c[k] = (np.round(c[k] * 50) + 1 if not s["neg"] else np.round(c[k] * 50) - 1).astype(int) if k == "I" else np.ceil(c[k] * 50).astype(int)
    o = {"up": np.arange(n), "down": np.arange(n)[::-1], "mixed": r.permutation(n)}[s["order"]]
    return {k: v[o] for k, v in c.items()}


def names(s):
    n = ["Q", "I", "ISigma"] + (["QSigma"] if s["qsigma"] else [])
    return n[::-1] if s["colorder"] and s["kind"] == "csv" else n


def write(s, path, salt=0):
    """the source as a file; returns what reading it has to give"""
    c = columns(s, salt)
    if s["kind"] in ("csv", "pdh"):
        cols = names(s) if s["kind"] == "csv" else ["Q", "I", "ISigma"]
        sep = (s["sep"] or " ") if s["kind"] == "csv" else "  "
        lines = [sep.join("NaN" if np.isnan(v) else repr(v.item()) for v in row) for row in zip(*[c[k] for k in cols])]
        head = [f"comment {k}" for k in range(s["head"])] if s["kind"] == "csv" else ["title", "x y"] + ["  1  2  3"] * 3
        tail = [["<?xml version='1.0'?>", "<a/>", "<b>1 2 3</b>"], ["<?xml?>"], ["<?xml version='1.0'?>", "1 2 3", "<?xml version='1.0'?>", "<b/>"],
                ["<?xml version='1.0'?>", "0.1 2 3", "", "0.2 3 4"]][s["tail"]] if s["kind"] == "pdh" else []
        with open(path, "w") as f:
            f.write("\n".join(head + lines + tail) + "\n")
        return {k: c[k] for k in cols}
    t = (lambda x: x.encode()) if s["bytes"] else (lambda x: x)
    sig = s["signal"]
    with RealFile(path, "w") as f:
        where, at = f, ""
        if s["kind"] == "nexus":
            for k in range(s["depth"]):
                name = f"entry{k}" if k % 2 == 0 else "data"
                where.attrs["default"] = t(name)
                where = where.create_group(name)
        else:
            for k in range(s["depth"]):
                where = where.create_group(f"g{k}")
        sh = (lambda v: v[None, :]) if s["lead"] else (lambda v: v)
        where[sig], where[s["qname"]], where["Isd"] = sh(c["I"]), sh(c["Q"]), sh(c["ISigma"])
        where["decoy"] = c["I"][::-1] * 2 + 1
        if s["kind"] == "nexus":
            where.attrs["signal"] = t(sig)
            where.attrs[s["axes"]] = t(s["qname"]) if s["axstr"] else (np.array([s["qname"]], dtype="S") if s["bytes"] else [s["qname"]])
            if s["unc"] == "attr":
                where.attrs[f"{sig}_uncertainty"] = t("Isd")
            elif s["unc"] == "axis":
                where[sig].attrs["uncertainties"] = t("Isd")
            else:
                c["ISigma"] = None  # not given: any positive default
        at = where.name
    return {"Q": c["Q"], "I": c["I"], "ISigma": c["ISigma"], "_at": at}


def kwargs(s, content):
    kw = {}
    if s["kind"] == "csv":
        kw["csvargs"] = {"sep": s["sep"] or r"\s+", "header": None, "names": names(s), "skiprows": s["head"]}
    if s["kind"] == "paths":
        at = content["_at"]
        kw["pathDict"] = {"Q": f"{at}/{s['qname']}", "I": f"{at}/{s['signal']}", "ISigma": f"{at}/Isd"}
    if odd(s):
        kw["loader"] = odd(s)
    return kw


def frame(s, salt=0):
    c = columns(s, salt)
    df = pandas.DataFrame(c)
    n = len(df)
    if s["index"] == "shifted":
        df.index = np.arange(n) + 7
    elif s["index"] == "duplicate":
        df.index = np.arange(n) % max(2, n // 2)
    elif s["index"] == "shuffled":
        df = df.sample(frac=1.0, random_state=s["seed"] % 1000)
    return df, {k: df[k].to_numpy().copy() for k in c}


# ---------------------------------------------------------------- settings
def settings(rng, s, salt=0):
    d = {}
    q = columns(s, salt)["Q"]
    q = np.sort(q[np.isfinite(q)])
    lo, hi = float(q[0]), float(q[-1])
    m = (lo * hi) ** 0.5

    def edge():
        """a limit: on a data point, or between them, or outside"""
        r = rng.random()
        if r < 0.4:
            return float(rng.choice(list(q)))
        if r < 0.5:
            return float(np.nextafter(rng.choice(list(q)), rng.choice([0, 1e9])))
        return rng.choice([lo * 0.9, lo * 1.2, m * 0.8, m, m * 1.4, hi * 0.7, hi * 1.1])

    if rng.random() < 0.7:
        d["nbins"] = rng.choice([0, 0, 1, 2, 3, 5, 20, 100])
        if s.get("grid") and rng.random() < 0.7:
            d["nbins"] = rng.choice([k for k in (2, 3, 4, 5, 6, 10, 12, 20, 30) if (s["n"] - 1) % k == 0])
            return d if rng.random() < 0.5 else dict(d, qNudge=0.001)
    if rng.random() < 0.6:
        a, b = sorted([edge(), edge()])
        d["dataRange"] = rng.choice([[a, b], [a, b], [-np.inf, b], [a, np.inf], [0, 1000], [0.0, b]])
    if rng.random() < 0.5:
        d["omitQRanges"] = [sorted([edge(), edge()]) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
    if rng.random() < 0.3:
        d["qNudge"] = rng.choice([0, 0.001, lo * 0.3, -lo * 0.1])
    if rng.random() < 0.4:
        d["IEmin"] = rng.choice([0.001, 0.05, 0.3, 1.0])
    if rng.random() < 0.3:
        d["measDataLink"] = rng.choice(LINKS)
    return d


DEFAULTS = {"nbins": 100, "dataRange": [-np.inf, np.inf], "omitQRanges": [], "qNudge": 0, "IEmin": 0.01, "measDataLink": "binnedData"}


# ---------------------------------------------------------------- reference
EDGE = "edge"  # compared, with points on the edges of bins


def ref_clip(raw, st):
    keep = np.ones(len(raw["Q"]), bool)
    for v in raw.values():
        keep &= ~np.isnan(v)
    q = raw["Q"]
    keep &= (q >= st["dataRange"][0]) & (q < st["dataRange"][1])
    for a, b in st["omitQRanges"]:
        keep &= ~((q >= a) & (q < b))
    return {k: v[keep] for k, v in raw.items()}


def ref_bins(clip, nbins):
    """(first, last) possible bin of every point: two only for a point on an inner edge, whose side is a matter of rounding;
    None if the range is too narrow to tell"""
    q = clip["Q"]
    lo, hi = q.min(), q.max()
    if not hi > lo * (1 + 1e-12):
        return np.zeros(len(q), int), np.zeros(len(q), int)
    edges = 10 ** np.linspace(np.log10(lo), np.log10(hi), nbins + 1)
    inner = edges[1:-1]
    if len(inner) and np.min(edges[1:] / edges[:-1] - 1) < 1e-8:
        return None
    return np.searchsorted(inner, q * (1 - 1e-9), side="right"), np.searchsorted(inner, q * (1 + 1e-9), side="right")


def partition(opts, ok, m):
    """a way to give every point to one of its bins so that the m non-empty ones satisfy ok(j, indices), or None"""
    first, last = opts
    order = np.lexsort((last, first))
    f, l = first[order], last[order]
    n, dead = len(order), set()

    def go(j, s, used):
        if j == m:
            return [] if s == n else None
        if s == n or (j, s, used) in dead:
            return None
        for b in range(max(f[s], used + 1), l[s] + 1):
            e = s
            while e < n and f[e] <= b <= l[e]:
                e += 1
                if e < n and l[e] <= b:  # belongs here as well
                    continue
                if ok(j, np.sort(order[s:e])):
                    r = go(j + 1, e, b)
                    if r is not None:
                        return [np.sort(order[s:e])] + r
        dead.add((j, s, used))
        return None

    return go(0, 0, -1)


def check_points(md, raw, st, where):
    """C19"""
    want = ref_clip(raw, st)
    got = md.clippedData
    for k in ("Q", "I", "ISigma"):
        g = np.asarray(got[k], float)
        if g.shape != want[k].shape:
            raise Violation("points", f"{where}: {len(g)} points in the range {st['dataRange']} without {st['omitQRanges']}, expected {len(want[k])}")
        if not np.array_equal(g, want[k]):
            j = int(np.flatnonzero(g != want[k])[0])
            raise Violation("points", f"{where}: point {j} has {k}={g[j]!r}, expected {want[k][j]!r}")
    if st["nbins"] == 0 and st["measDataLink"] != "rawData":
        m = md.measData
        for k, w in (("Q", want["Q"] + st["qNudge"]), ("I", want["I"]), ("ISigma", want["ISigma"])):
            g = np.asarray(m["Q"][0] if k == "Q" else m[k], float)
            if g.shape != w.shape or not np.array_equal(g, w):
                raise Violation("used", f"{where}: {k} of the data to fit is {g[:5]} ({g.size}), expected {w[:5]} ({w.size})")


def check_bins(md, raw, st, where, nbins=None, iemin=None, linked=True):
    """C18; returns False if it could not be decided"""
    nbins = st["nbins"] if nbins is None else nbins
    iemin = st["IEmin"] if iemin is None else iemin
    clip = ref_clip(raw, st)
    if nbins == 0:
        return None
    opts = ref_bins(clip, nbins)
    if opts is None:
        return False
    b = md.binnedData
    Q, I, S = (np.asarray(b[k], float) for k in ("Q", "I", "ISigma"))
    edge = not np.array_equal(*opts)
    if not edge:
        bins = [np.flatnonzero(opts[0] == k) for k in range(nbins) if np.any(opts[0] == k)]
    else:
        bins = partition(opts, lambda j, idx: np.isclose(Q[j], clip["Q"][idx].mean(), rtol=1e-9, atol=0), len(Q))
        if bins is None:
            raise Violation("bins", f"{where}: no way to give each of the {clip['Q'].size} points to one of {nbins} bins has the means Q={Q.tolist()[:8]}")
    if len(Q) != len(bins):
        raise Violation("bins", f"{where}: {len(Q)} rebinned points, {len(bins)} of the {nbins} bins hold data ({clip['Q'].size} points)")
    for j, idx in enumerate(bins):
        q, i, s = clip["Q"][idx], clip["I"][idx], clip["ISigma"][idx]
        if not abs(Q[j] - q.mean()) <= 1e-9 * abs(q.mean()):
            raise Violation("mean-Q", f"{where}: rebinned point {j} at Q={Q[j]!r}, mean of its {len(idx)} points is {q.mean()!r}")
        if not abs(I[j] - i.mean()) <= 1e-9 * np.abs(i).mean():
            raise Violation("mean-I", f"{where}: rebinned point {j} has I={I[j]!r}, mean of its {len(idx)} points is {i.mean()!r}")
        need = {"minimum relative": abs(i.mean()) * iemin}
        if (s > 0).all():
            need["propagated"] = np.sqrt((s**2).sum()) / len(s)
        if len(idx) > 1:
            need["statistical"] = i.std(ddof=1) / np.sqrt(len(i))
        for k, v in need.items():
            if not S[j] >= v * (1 - 1e-9) - 1e-15:
                raise Violation("understated", f"{where}: rebinned point {j} of {len(idx)} points has uncertainty {S[j]!r}, {k} is {v!r}")
    if linked and st["measDataLink"] == "binnedData":
        m = md.measData
        for k, w in (("Q", Q + st["qNudge"]), ("I", I), ("ISigma", S)):
            g = np.asarray(m["Q"][0] if k == "Q" else m[k], float)
            if g.shape != w.shape or not np.allclose(g, w, rtol=1e-12, atol=0):
                raise Violation("used", f"{where}: {k} of the data to fit is not the rebinned one: {g[:4]} and {w[:4]}")
    return EDGE if edge else True


def check_read(md, content, where):
    """C23"""
    r = md.rawData
    for k in ("Q", "I", "ISigma", "QSigma"):
        w = content.get(k)
        if w is None:
            if k == "ISigma":
                g = np.asarray(r[k], float)
                if g.shape != content["I"].shape or not np.all(g[~np.isnan(content["I"]) & (content["I"] > 0)] > 0):
                    raise Violation("default-sigma", f"{where}: no usable default uncertainty: {g[:5]}")
            continue
        if k not in r.keys():
            raise Violation("column", f"{where}: column {k} is missing")
        g = np.asarray(r[k], float)
        if g.shape != w.shape:
            raise Violation("rows", f"{where}: {g.shape} values of {k} read, the source has {w.shape}")
        bad = ~((g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= 1e-14 * np.abs(w)))
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            raise Violation("value", f"{where}: {k}[{j}] read as {g[j]!r}, the source has {w[j]!r}")


# ---------------------------------------------------------------- plan
FAULTS = ("EIO", "EACCES", "EMFILE", "EAGAIN", "interrupt")


def make(rng, idx, tier):
    nobj = rng.choice([1, 2, 2, 3])
    srcs = [source(rng) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.5:  # the same measurement in another format
        s = dict(srcs[0], kind=rng.choice(["csv", "pdh", "nexus", "paths", "df"]))
        srcs.append(s)
    ops = [{"op": "new", "obj": k, "src": rng.randrange(len(srcs))} for k in range(nobj)]
    for _ in range(rng.choice([3, 6, 9])):
        o = rng.choice(["new", "reread", "reread", "other", "set", "set", "set", "rebin", "link", "prepare", "change", "frame", "restore", "restart", "once", "once"])
        d = {"op": o, "obj": rng.randrange(nobj), "src": rng.randrange(len(srcs))}
        ops.append(d)
        if o == "once" and rng.random() < 0.7:  # then with its own settings again
            ops.append({"op": "reread", "obj": d["obj"], "src": rng.randrange(len(srcs))})
    for d in ops:
        if d["op"] in ("new", "set", "frame"):
            d["set"] = settings(rng, srcs[d["src"]])
        if d["op"] == "rebin":
            d.update(nbins=rng.choice([None, 1, 4, 30]), IEmin=rng.choice([None, None, 0.2]))
        if d["op"] == "link":
            d["link"] = rng.choice(LINKS)
        if d["op"] in ("new", "reread", "restore", "other", "once") and rng.random() < 0.25:
            d["fault"] = {"do": rng.choice(FAULTS), "at": rng.choice([1, 1, 2, 3, 5])}
    return {"srcs": srcs, "ops": ops}


class Obj:
    def __init__(self, md, src, content, raw, st):
        self.md, self.src, self.content, self.raw, self.st = md, src, content, raw, st
        self.file = None  # the source file it reads
        self.odd = None  # the loader given explicitly


def run(plan, ctx, what):
    """what: function (md, raw, content, settings, where, **) called after each preparation"""
    from mcsas3.mc_data_1d import McData1D

    os.makedirs(ctx.path("src"), exist_ok=True)
    paths, contents, salts = [], [], []
    for k, s in enumerate(plan["srcs"]):
        p = ctx.path(f"src/s{k}.{suffix(s)}")
        paths.append(p)
        salts.append(0)
        contents.append(write(s, p) if s["kind"] != "df" else None)
    objs = {}
    st = {"sim": None, "boot": None, "n": 0}

    def up():
        if st["boot"] is not None:
            b, st["boot"] = st["boot"], None
            b.__exit__(None, None, None)
        objs.clear()
        st["boot"] = ctx.boot("fifo", max_steps=60000, fresh=True)
        st["sim"] = st["boot"].__enter__()

    def usable(raw, s):
        c = ref_clip(raw, s)
        return len(c["Q"]) > 0 and c["Q"].min() > 0

    def rawof(content, md):
        """the columns the object works on (a default uncertainty is the program's choice)"""
        raw = {k: v for k, v in content.items() if not k.startswith("_")}
        if raw.get("ISigma", 0) is None:
            raw["ISigma"] = np.asarray(md.rawData["ISigma"], float)
        return raw

    def verify(o, n, kind, **kw):
        st["n"] += 1
        what(o.md, o.raw, o.content, o.st, f"operation {n} ({kind}, {plan['srcs'][o.src]['kind']})", **kw)

    def attempt(f, fault):
        """runs f, maybe with a failing file access: True if it finished"""
        sim = st["sim"]
        before = len(sim.fault_log)
        if fault is not None:
            for ev in ("h5.open", "open.r"):
                sim.faults.append({"ev": ev, "n": fault["at"], "do": fault["do"]})
        try:
            r = f()
        except (Exception, KeyboardInterrupt):
            if len(sim.fault_log) == before:
                raise
            ctx.probe("failed_reads")
            return False, None
        finally:
            if fault is not None:
                sim.faults.clear()
        if len(sim.fault_log) > before and fault["do"] != "interrupt":
            ctx.probe("survived_faults")
        return True, r

    up()
    for n, d in enumerate(plan["ops"]):
        op, k = d["op"], d["src"]
        o = objs.get(d["obj"])
        s = plan["srcs"][k]
        if op == "restart":
            up()
        elif op == "change":
            if s["kind"] != "df":
                salts[k] = n + 1
                contents[k] = write(s, paths[k], salts[k])
        elif op in ("new", "frame"):
            sett = copy.deepcopy(d["set"])
            if op == "frame" or s["kind"] == "df":
                df, content = frame(s, salts[k])
                keep = df.copy(deep=True)
            else:
                df, content = None, contents[k]
            full = dict(copy.deepcopy(DEFAULTS), **copy.deepcopy(d["set"]))
            if op == "frame" and o is not None:
                full = o.st
            probe = dict(content)
            if probe.get("ISigma", 0) is None:
                probe["ISigma"] = np.where(np.isnan(probe["I"]), np.nan, 1.0)
            if not usable({a: b for a, b in probe.items() if not a.startswith("_")}, full):
                continue
            if op == "frame":
                if o is None:
                    continue
                o.md.from_pandas(df)
                o.src, o.content, o.raw = k, content, content
            elif df is not None:
                o = Obj(McData1D(df=df, **sett), k, content, content, full)
            else:
                sett.update(kwargs(s, content))
                ok, md = attempt(lambda: McData1D(filename=paths[k], **sett), d.get("fault"))
                if not ok:
                    objs.pop(d["obj"], None)
                    continue
                o = Obj(md, k, content, rawof(content, md), full)
                o.file, o.odd = k, odd(s)
            objs[d["obj"]] = o
            verify(o, n, op)
            if df is not None and not df.equals(keep):
                raise Violation("caller", f"operation {n}: the caller's frame was modified")
        elif o is None:
            continue
        elif op == "reread":
            if o.file is None:
                continue
            new = contents[o.file]
            probe = dict(new)
            if probe.get("ISigma", 0) is None:
                probe["ISigma"] = np.where(np.isnan(probe["I"]), np.nan, 1.0)
            if not usable({a: b for a, b in probe.items() if not a.startswith("_")}, o.st):
                continue
            ok, _ = attempt(lambda: o.md.from_file(*([paths[o.file]] if d["src"] % 2 else [])), d.get("fault"))
            if not ok:
                o.md.from_file(paths[o.file])
            o.src, o.content, o.raw = o.file, new, rawof(new, o.md)
            verify(o, n, op)
        elif op == "other":
            # the same object reads another source, of any format
            new = contents[k]
            if s["kind"] == "df":
                continue
            probe = dict(new)
            if probe.get("ISigma", 0) is None:
                probe["ISigma"] = np.where(np.isnan(probe["I"]), np.nan, 1.0)
            if not usable({a: b for a, b in probe.items() if not a.startswith("_")}, o.st):
                continue
            kw = kwargs(s, new)
            o.md.csvargs = kw.get("csvargs", {"sep": r"\s+", "header": None, "names": ["Q", "I", "ISigma"]})
            o.md.pathDict = kw.get("pathDict")
            if odd(s) or o.odd:
                o.md.loader = odd(s)
            ok, _ = attempt(lambda: o.md.from_file(paths[k]), d.get("fault"))
            if not ok:
                o.md.from_file(paths[k])
            o.src, o.content, o.raw, o.file, o.odd = k, new, rawof(new, o.md), k, odd(s)
            verify(o, n, op)
        elif op == "once":
            # a single reading with settings given for this call only
            if s["kind"] != "csv" or not usable({a: b for a, b in contents[k].items() if not a.startswith("_")}, o.st):
                continue
            given = kwargs(s, contents[k])["csvargs"]
            keep = copy.deepcopy(given)
            ok, _ = attempt(lambda: o.md.from_csv(paths[k], given), d.get("fault"))
            if not ok:
                o.md.from_csv(paths[k], given)
            if given != keep:
                raise Violation("caller", f"operation {n}: the caller's settings for reading were modified")
            o.src, o.content, o.raw = k, contents[k], contents[k]
            verify(o, n, op)
        elif op == "set":
            full = dict(o.st, **copy.deepcopy(d["set"]))
            for a, b in copy.deepcopy(d["set"]).items():
                setattr(o.md, a, b)
            if usable(o.raw, full):
                o.st = full
                o.md.prepare()
                verify(o, n, op)
            else:
                # a range without data: must be refused or give no data; then back
                try:
                    o.md.prepare()
                except (Exception,):
                    ctx.probe("refused_ranges")
                for a in d["set"]:
                    setattr(o.md, a, copy.deepcopy(o.st[a]))
                o.md.prepare()
                verify(o, n, "set back")
        elif op == "prepare":
            o.md.prepare()
            verify(o, n, op)
        elif op == "link":
            o.md.linkMeasData(d["link"])
            o.st = dict(o.st, measDataLink=d["link"])
            verify(o, n, op)
        elif op == "rebin":
            o.md.reBin(d["nbins"] or (o.st["nbins"] or 7), d["IEmin"])
            verify(o, n, op, nbins=d["nbins"] or (o.st["nbins"] or 7), iemin=d["IEmin"], linked=False)
            o.md.prepare()
            verify(o, n, "prepare after rebin")
        elif op == "restore":
            out = ctx.path(f"o{n}.h5")
            o.md.store(out)
            ok, md = attempt(lambda: McData1D(loadFromFile=out), d.get("fault"))
            if not ok:
                md = McData1D(loadFromFile=out)
            o.md = md
            verify(o, n, op)
    b, st["boot"] = st["boot"], None
    b.__exit__(None, None, None)
    ctx.probe("checked_preparations", st["n"])
    ctx.nontrivial = st["n"] > 1
