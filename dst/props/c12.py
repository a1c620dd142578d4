"""C12: a stored value reads back as last stored"""

import random
from pathlib import Path, PurePosixPath

import numpy as np
import pandas

from .. import obs
from ..kernel import SimCrash, Violation
from ..seams import RealFile

ID = "C12"
QUICK, THOROUGH = 900, 40000
MODELS = ()
RULE = ("a generated sequence of stores of scalars, texts, paths, arrays, lists, frames, nested dictionaries, quantities, nothing and values that cannot "
        "be stored, over few shared paths of one or two files, some killed, interrupted or meeting failing opens; after every operation each path is "
        "read back by all applicable ways and compared with a dictionary that was updated alongside; non-trivial = a path was stored twice")

SCALARS = ("int", "float", "bool", "str", "path", "np", "nan", "complex", "bytes", "stamp", "bigint")
ARRAYS = ("ia", "fa", "ba", "sa", "la", "ls", "tuple", "2d", "2ds", "empty", "f32", "u8", "series", "sseries", "nanarr")
BAD = ("object", "set", "ragged", "nul", "huge", "mixednone")
KEYS = ("a", "b", "c")


def vspec(rng, depth=0):
    r = rng.random()
    if r < 0.28:
        k = rng.choice(SCALARS)
    elif r < 0.6:
        k = rng.choice(ARRAYS)
    elif r < 0.68:
        k = "none"
    elif r < 0.76:
        k = rng.choice(["quantity", "qarray"])
    elif r < 0.82:
        k = rng.choice(BAD)
    elif r < 0.88:
        return {"k": "frame", "s": rng.randrange(1000), "text": rng.random() < 0.4}
    elif depth < 2:
        if rng.random() < 0.06:  # many entries
            return {"k": "dict", "v": {n: {"k": rng.choice(["int", "float", "str", "fa", "none"]), "s": rng.randrange(1000)} for n in KEYS + tuple(f"k{i}" for i in range(rng.choice([9, 20, 40])))}}
        return {"k": "dict", "v": {n: vspec(rng, depth + 1) for n in rng.sample(KEYS, rng.choice([0, 1, 2, 3]))}}
    else:
        k = "int"
    return {"k": k, "s": rng.randrange(1000)}


def value(v):
    import pint

    k = v["k"]
    if k == "dict":
        return {n: value(x) for n, x in v["v"].items()}
    r = random.Random(v["s"])
    if k == "typed":
        x = [r.choice([0, 1, 2, 1.5, 2.75, 0.1, 1e12, -3]) for _ in range(v["n"] or 1)]
        t = r.choice(["i8", "f8", "f8", "f4", "i2", "u1", "?", "list", "quantity"])
        if t not in ("list", "quantity"):
            x = np.array([abs(y) if t == "u1" else y for y in x]).clip(-9, 9).astype(t)
            return x if v["n"] else x[0]
        x = x if v["n"] else x[0]
        return x if t == "list" else pint.get_application_registry().Quantity(np.array(x) if v["n"] else x, "nm")
    n = r.choice([1, 1, 2, 3, 5]) if r.random() > 0.04 else r.choice([260, 1100, 5000, 70000])
    f = lambda: r.choice([0.0, 1.5, -2.25, 1e-300, 3e22, r.random()])
    w = lambda: r.choice(["", "a", "Q", "long text with spaces", "größe", "1/(cm sr)", "x" * 70])
    if k == "frame":
        d = {"a": [f() for _ in range(n)], "b": [r.randrange(9) for _ in range(n)]}
        if v["text"]:
            d["c"] = [w() for _ in range(n)]
        if r.random() < 0.5:
            d.pop(r.choice(["a", "b"]))
        return pandas.DataFrame(d, index=range(3, 3 + n))
    if k in ("quantity", "qarray"):
        u = pint.get_application_registry()
        return u.Quantity(f() if k == "quantity" else np.array([f() for _ in range(n)]), r.choice(["nm", "m", "1/m", "dimensionless", "1/(m sr)"]))
    return {
        "int": lambda: r.choice([0, 1, -5, 2**40]), "float": f, "bool": lambda: r.random() < 0.5, "str": w, "path": lambda: Path(r.choice(["a/b.c", "/x/ö", "."])),
        "np": lambda: r.choice([np.float32(1.25), np.int16(-3), np.uint8(200), np.float64(f()), np.bool_(True)]), "nan": lambda: float("nan"),
        "complex": lambda: complex(f(), f()), "bytes": lambda: r.choice([b"", b"abc"]), "stamp": lambda: pandas.Timestamp(1.7e9 + r.randrange(10**6) + r.choice([0, 0.25, 0.0625]), unit="s"),
        "bigint": lambda: r.choice([2**62, -(2**63), 2**63 - 1]),
        "ia": lambda: np.array([r.randrange(99) for _ in range(n)]), "fa": lambda: np.array([f() for _ in range(n)]),
        "ba": lambda: np.array([r.random() < 0.5 for _ in range(n)]), "sa": lambda: np.array([w() for _ in range(n)]), "la": lambda: [f() for _ in range(n)],
        "ls": lambda: [w() for _ in range(n)], "tuple": lambda: tuple(r.randrange(9) for _ in range(n)), "2d": lambda: np.arange(6.0).reshape(r.choice([(2, 3), (3, 2), (1, 6)])),
        "2ds": lambda: [[w(), w()] for _ in range(n)], "empty": lambda: r.choice([[], np.array([], dtype=int), np.zeros((0, 2)), ()]),
        "f32": lambda: np.array([f() for _ in range(n)], dtype="f4"), "u8": lambda: np.arange(n, dtype="u1"),
        "series": lambda: pandas.Series([f() for _ in range(n)], index=r.choice([lambda: range(5, 5 + n), lambda: range(n, 0, -1), lambda: [r.randrange(9) for _ in range(n)]])()), "sseries": lambda: pandas.Series([w() for _ in range(n)]),
        "nanarr": lambda: np.array([f(), float("nan"), float("inf"), -float("inf")]), "none": lambda: None,
        "object": lambda: object(), "set": lambda: {1, 2}, "ragged": lambda: [[1], [1, 2]], "nul": lambda: "a\0b", "huge": lambda: 2**70,
        "mixednone": lambda: [None, "a"],
    }[k]()


def make(rng, idx, tier):
    ops = []
    tops = ["/g/x", "/g/y", "/analyses/MCResult1/z", "/g/x/a", "/g/x/a/b"][: rng.choice([2, 3, 5])]
    size = rng.choice([0, 1, 3, 4])
    for _ in range(rng.choice([4, 8, 12, 16])):
        d = {"op": rng.choice(["kv", "kv", "kv", "pairs", "split"]), "path": rng.choice(tops), "file": rng.choice([0, 0, 0, 1])}
        if d["op"] == "kv" and rng.random() < 0.3:  # one layout, many types of number
            d["v"] = {"k": "typed", "n": size, "s": rng.randrange(1000)}
            d["path"] = tops[0] if rng.random() < 0.7 else d["path"]
        elif d["op"] == "kv":
            d["v"] = vspec(rng)
        elif d["op"] == "pairs":
            d["v"] = {"k": "dict", "v": {n: vspec(rng, 1) for n in rng.sample(KEYS, rng.choice([1, 2, 3]))}}
        else:
            d["v"] = {"k": "frame", "s": rng.randrange(1000), "text": False}
        if rng.random() < 0.25:
            d["fault"] = {"do": rng.choice(["crash", "crash", "EIO", "EAGAIN", "ENOSPC", "interrupt", "memory"]), "at": rng.randrange(1, 8)}
        ops.append(d)
    return {"ops": ops}


class Leaf:
    def __init__(self, v):
        self.v = v


def tree_of(v):
    """what storing v puts there: None, Leaf or dict"""
    if v is None:
        return None
    if isinstance(v, dict):
        return {k: t for k, t in ((k, tree_of(x)) for k, x in v.items()) if t is not None}
    if isinstance(v, pandas.DataFrame):
        return {k: Leaf(v[k]) for k in v.columns}
    return Leaf(v)


def flat(t, path, out):
    """{path: Leaf or {} (a group)}"""
    if isinstance(t, dict):
        out[path or "/"] = {}
        for k, x in t.items():
            flat(x, f"{path}/{k}", out)
    elif t is not None:
        out[path] = t
    return out


def put(m, path, t):
    """store tree t at path in flat map m; raises KeyError if a parent is a value"""
    parts = path.strip("/").split("/")
    for k in range(1, len(parts)):
        p = "/" + "/".join(parts[:k])
        if isinstance(m.get(p), Leaf):
            raise KeyError(p)
    m = {k: v for k, v in m.items() if not obs.under(k, path)}
    for k in range(1, len(parts)):
        m.setdefault("/" + "/".join(parts[:k]), {})
    flat(t, path, m)
    return m


def txt(x):
    return x.decode() if isinstance(x, (bytes, np.bytes_)) else str(x)


def eq(got, leaf):
    """None if the value read is the one stored"""
    import pint

    v = leaf.v
    if isinstance(v, pint.Quantity):
        v = v.m
    if isinstance(v, Path):
        v = v.as_posix()
    if isinstance(v, pandas.Timestamp):
        v = v.timestamp()
    if isinstance(v, pandas.Series):
        v = v.to_numpy()
    if isinstance(v, (str, bytes)):
        return None if isinstance(got, (str, bytes, np.bytes_)) and txt(got) == txt(v) else f"{got!r} instead of {v!r}"
    try:
        a = np.asarray(v)
    except ValueError:
        return "something for a value that cannot be stored"
    g = np.asarray(got)
    if a.shape != g.shape:
        return f"shape {g.shape} instead of {a.shape}"
    if a.dtype.kind in "OUS" and a.size:
        ok = [txt(x) for x in a.ravel()] == [txt(x) for x in g.ravel()]
    elif a.size == 0:
        ok = True
    else:
        ok = a.dtype == g.dtype and np.array_equal(a, g, equal_nan=a.dtype.kind in "fc")
    return None if ok else f"{got!r} instead of {v!r}"


def unit(leaf):
    import pint

    return str(leaf.v.u) if isinstance(leaf.v, pint.Quantity) else None


def raw(path):
    """flat content of a file: {path: (value, unit) or {}}"""
    out = {}
    if path.exists():
        with RealFile(path, "r") as f:
            f.visititems(lambda n, o: out.__setitem__("/" + n, (o[()], o.attrs.get("unit")) if hasattr(o, "shape") else {}))
    return out


def matches(actual, want):
    if want is None:
        return actual is None
    if isinstance(want, dict):
        return actual == {} and isinstance(actual, dict)
    return isinstance(actual, tuple) and eq(actual[0], want) is None and actual[1] == unit(want)


def storable(v):
    return not (v["k"] in BAD or v["k"] == "dict" and not all(storable(x) for x in v["v"].values()))


def run(plan, ctx):
    from mcsas3 import mc_hdf

    files = [ctx.path("a.h5"), ctx.path("b.h5")]
    model = [{}, {}]
    seen, twice = set(), 0
    for n, o in enumerate(plan["ops"]):
        fi = o["file"]
        f, m, path = files[fi], model[fi], o["path"]
        v = value(o["v"])
        if o["op"] == "split":
            v = v.to_dict(orient="split")
        p = PurePosixPath(path)
        new, legal = m, storable(o["v"])
        try:
            if o["op"] == "pairs":
                for k, x in v.items():
                    new = put(new, f"{path}/{k}", tree_of(x) if storable(o["v"]["v"][k]) else None)
                    if tree_of(x) is None:
                        # storing nothing still makes the group
                        parts = path.strip("/").split("/")
                        for j in range(len(parts)):
                            new.setdefault("/" + "/".join(parts[: j + 1]), {})
            else:
                t = tree_of(v)
                new = put(m, path, t)
        except KeyError:
            legal = False
        other = raw(files[1 - fi])
        fl = o.get("fault")
        faults = [] if not fl else [{"ev": "h5.closed" if fl["do"] == "crash" else "h5.open", "n": fl["at"], "do": fl["do"]}]
        err = None
        with ctx.boot("fifo", faults=faults, max_steps=5000) as sim:
            try:
                if o["op"] == "pairs":
                    mc_hdf.storeKVPairs(f, p, v.items())
                else:
                    mc_hdf.storeKV(f, p, v)
            except (Exception, KeyboardInterrupt, SimCrash) as e:
                err = e
            hit = bool(sim.fault_log)
        if err is None and hit and fl["do"] != "crash":
            raise Violation("silent", f"operation {n}: storing met {fl['do']} and returned normally")
        if err is None and not legal:
            raise Violation("silent", f"operation {n}: a value that cannot be stored at {path} was accepted: {v!r}")
        if err is not None and legal and not hit:
            raise Violation("refused", f"operation {n}: storing {v!r} at {path} raised {type(err).__name__}: {err}")
        act = raw(f)
        if err is None:
            want = new
            for q in sorted(set(act) | set(want)):
                if not matches(act.get(q), want.get(q)):
                    # groups made on the way to nothing do not count
                    if q not in want and act.get(q) == {} and not any(obs.under(z, q) and z != q and act[z] != {} for z in act):
                        continue
                    w = want.get(q)
                    what = "there is a value" if w is None else f"it should be {w.v if isinstance(w, Leaf) else 'a group'!r}"
                    got = act.get(q)
                    raise Violation("lost" if got is None else "wrong", f"operation {n} ({o['op']} at {path}): path {q} reads {got!r}, {what}")
        else:
            # each path holds its old or its new value
            try:
                full = put(m, path, tree_of(v)) if o["op"] != "pairs" else {**m, **new}
            except (KeyError, AttributeError):
                full = m
            if o["op"] == "pairs":
                full = m
                for k, x in v.items():
                    try:
                        full = put(full, f"{path}/{k}", tree_of(x))
                    except KeyError:
                        pass
            for q in sorted(set(act) | set(m) | set(full)):
                a = act.get(q)
                if matches(a, m.get(q)) or matches(a, full.get(q)):
                    continue
                if a == {} and obs.under(path, q):
                    continue  # the way there
                if a == {} and obs.under(q, path):
                    continue
                if a is None and isinstance(m.get(q), dict) or a is None and isinstance(full.get(q), dict):
                    continue
                raise Violation("mixed", f"operation {n} ({o['op']} at {path}) failed with {type(err).__name__}: path {q} reads {a!r}, neither the old nor the new value")
            want = {}
            for q, a in act.items():
                if a == {}:
                    want[q] = {}
                elif matches(a, full.get(q)):
                    want[q] = full[q]
                else:
                    want[q] = m[q]
            ctx.probe("failed_stores")
        model[fi] = want
        if repr(raw(files[1 - fi])) != repr(other):
            raise Violation("other-file", f"operation {n} changed another file")
        # reading by the functions of the system
        with ctx.boot("fifo", max_steps=20000) as sim:
            def check_dict(got, q, depth=0):
                sub = {z[len(q) + 1:]: w for z, w in want.items() if z.startswith(q + "/")}
                names = {z.split("/")[0] for z in sub}
                if set(got) != names:
                    raise Violation("read", f"operation {n}: dictionary at {q} has {sorted(got)}, stored are {sorted(names)}")
                for k in names:
                    w = want[f"{q}/{k}"]
                    if isinstance(w, Leaf):
                        d = eq(got[k], w)
                        if d:
                            raise Violation("read", f"operation {n}: {k} in the dictionary at {q} reads {d}")
                        v = w.v
                        if isinstance(v, (str, Path)) and not isinstance(got[k], str):
                            raise Violation("read", f"operation {n}: {k} in the dictionary at {q} reads {got[k]!r} instead of the text {str(v)!r}")
                        if isinstance(v, bytes) and not isinstance(got[k], bytes):
                            raise Violation("read", f"operation {n}: {k} in the dictionary at {q} reads {got[k]!r} instead of the bytes {v!r}")
                        if depth == 0 and isinstance(v, (list, np.ndarray)) and len(v) and all(isinstance(x, str) for x in v) and any(not isinstance(x, str) for x in got[k]):
                            raise Violation("read", f"operation {n}: {k} in the dictionary at {q} reads {got[k]!r} instead of the texts {v!r}")
                    elif not isinstance(got[k], dict):
                        raise Violation("read", f"operation {n}: {k} in the dictionary at {q} reads {got[k]!r}")
                    else:
                        check_dict(got[k], f"{q}/{k}", depth + 1)

            for q, w in want.items():
                if isinstance(w, dict):
                    if obs.under(q, path) or n == len(plan["ops"]) - 1:
                        check_dict(mc_hdf.loadKV(f, PurePosixPath(q), datatype="dict"), q)
                    continue
                if not (obs.under(q, path) or n == len(plan["ops"]) - 1):
                    continue
                d = eq(mc_hdf.loadKV(f, PurePosixPath(q), default="dflt"), w)
                if d:
                    raise Violation("read", f"operation {n}: {q} reads {d}")
                g = dict(mc_hdf.loadKVPairs(f, PurePosixPath(q).parent, [PurePosixPath(q).name]))
                d = eq(g[PurePosixPath(q).name], w)
                if d:
                    raise Violation("read", f"operation {n}: pair {q} reads {d}")
                if isinstance(w.v, (str, Path)):
                    if mc_hdf.loadKV(f, PurePosixPath(q), datatype="str") != str(w.v):
                        raise Violation("read", f"operation {n}: text at {q} differs")
                    if w.v != "" and mc_hdf.loadKV(f, PurePosixPath(q), datatype=Path) != Path(w.v):
                        raise Violation("read", f"operation {n}: path at {q} differs")
                if isinstance(w.v, (int, float)) and not isinstance(w.v, bool):
                    x = mc_hdf.loadKV(f, PurePosixPath(q), datatype=type(w.v))
                    if type(x) is not type(w.v) or (x != w.v and x == x):
                        raise Violation("read", f"operation {n}: number at {q} reads {x!r}")
                if isinstance(w.v, list) and len(w.v):
                    x = mc_hdf.loadKV(f, PurePosixPath(q), datatype=list)
                    if not isinstance(x, list) or eq(np.array(x) if not isinstance(x[0], bytes) else np.array(x, dtype=object), w):
                        raise Violation("read", f"operation {n}: list at {q} reads {x!r}")
            gone = [q for q in set(m) | set(new) if q not in want]
            for q in sorted(gone)[:6]:
                if f.exists() and mc_hdf.loadKV(f, PurePosixPath(q), default="dflt") != "dflt":
                    raise Violation("read", f"operation {n}: {q} can still be loaded")
            if o["op"] == "split" and err is None:
                df = mc_hdf.loadKV(f, p, datatype="dictToPandas")
                ok = list(df.columns) == list(v["columns"]) and list(df.index) == list(v["index"]) and np.array_equal(df.to_numpy(float), np.array(v["data"], float))
                if not ok:
                    raise Violation("read", f"operation {n}: frame at {path} reads {df!r}")
        twice += path in seen
        seen.add(path)
        ctx.mix(n, err is None)
    ctx.nontrivial = twice > 0
