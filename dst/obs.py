"""Observation of result files and oracles over a stored repetition"""

import hashlib

import h5py
import numpy as np

from . import ref
from .kernel import Violation
from .seams import RealFile

PARAM_KEYS = ("data", "columns", "index")
OPT_KEYS = ("accepted", "convCrit", "gof", "maxIter", "maxAccept", "modelI", "repetition", "step", "x0", "acceptedSteps", "acceptedGofs")


def _dig(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("a", v.shape, tuple(x if isinstance(x, (bytes, str)) else repr(x) for x in v.ravel()))
        return ("a", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, np.generic):
        return ("s", v.dtype.str, v.tobytes())
    return ("p", repr(v))


def tree(path, root="/"):
    """everything below root: {path: digestable content}; groups as None"""
    out = {}
    with RealFile(path, "r") as f:
        if root not in f:
            return out

        def visit(name, o):
            key = (root.rstrip("/") + "/" + name) if name else root
            attrs = tuple(sorted((k, _dig(v)) for k, v in o.attrs.items()))
            if isinstance(o, h5py.Dataset):
                out[key] = (_dig(o[()]), attrs)
            else:
                out[key] = (None, attrs)

        visit("", f[root])
        f[root].visititems(lambda n, o: visit(n, o))
    return out


def readable(path):
    try:
        tree(path)
        return None
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def diff(a, b, only_in_b=True):
    """human-readable differences between two trees"""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out.append(f"-{k}")
        elif k not in a:
            if only_in_b:
                out.append(f"+{k}")
        elif a[k] != b[k]:
            out.append(f"~{k}")
    return out


def entry(idx):
    return f"/analyses/MCResult{idx}"


def under(k, root):
    return k == root or k.startswith(root + "/")


def rep_numbers(path, idx):
    """repetition numbers with anything stored: (in model, in optimization)"""
    m, o = set(), set()
    with RealFile(path, "r") as f:
        for sub, s in (("model", m), ("optimization", o)):
            g = f.get(f"{entry(idx)}/{sub}")
            if g is None:
                continue
            for k in g:
                if k.startswith("repetition"):
                    s.add(int(k[len("repetition"):]))
    return m, o


def rep_tree(path, idx, n):
    e = entry(idx)
    out = {}
    for sub in ("model", "optimization"):
        for k, v in tree(path, f"{e}/{sub}/repetition{n}").items():
            out[k[len(e):]] = v
    return out


def text(v):
    return v.decode() if isinstance(v, bytes) else v


class Rep:
    """one stored repetition, as any reader of the file sees it"""


def load_rep(path, idx, n):
    r = Rep()
    r.n = n
    with RealFile(path, "r") as f:
        e = f[entry(idx)]

        def get(p):
            if p not in e:
                raise Violation("missing-value", f"{path.name}: {entry(idx)}/{p} is not stored")
            return e[p][()]

        m = f"model/repetition{n}"
        r.columns = [text(c) for c in get(f"{m}/parameterSet/columns")]
        r.index = list(get(f"{m}/parameterSet/index"))
        r.data = np.array(get(f"{m}/parameterSet/data"), dtype=float)
        r.volumes = get(f"{m}/volumes")
        r.seed = get(f"{m}/seed") if f"{m}/seed" in e else None
        r.modelDType = text(get(f"{m}/modelDType")) if f"{m}/modelDType" in e else None
        o = f"optimization/repetition{n}"
        for k in OPT_KEYS:
            setattr(r, k, get(f"{o}/{k}"))
        r.modelName = text(get("model/modelName"))
        r.limits = {k: np.array(v[()], float) for k, v in e["model/fitParameterLimits"].items()}
        r.static = {}
        if "model/staticParameters" in e:
            r.static = {k: v[()] for k, v in e["model/staticParameters"].items()}
    r.rows = [dict(zip(r.columns, row)) for row in r.data]
    return r


def need_reps(path, idx, expect):
    """exactly the repetitions of expect are there, in both groups"""
    m, o = rep_numbers(path, idx)
    if m != set(expect) or o != set(expect):
        raise Violation("repetition-set", f"stored repetitions: model {sorted(m)}, optimization {sorted(o)}; expected {sorted(expect)}")


def isclose(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def qs(data):
    """Q of data: one row, or two for an image"""
    q = [np.asarray(x, float) for x in data["Q"]]
    return q[0] if len(q) == 1 else np.stack(q)


def tol_for(model, q, limits, static, n):
    """floating-point slack of the incrementally updated total intensity"""
    single = model not in ("mcsas_sphere", "sim")
    big = np.zeros(np.shape(q)[-1])
    for t in (0.0, 0.5, 1.0):
        p = {k: float(v[0] + t * (v[1] - v[0])) for k, v in limits.items()}
        big = np.maximum(big, np.abs(ref.iv(model, q, p, static)[0]))
    big = np.maximum(big, big.max() * (1e-3 if np.ndim(q) == 1 else 0.1))
    return (1e-5, 2e-6 * big) if single else (1e-8, 1e-11 * big * max(10, n))


def check_rep(r, data, spec=None, n_contrib=None, opt=None, limits=None, nan_ok=False, trace=True):
    """C02: everything stored for one repetition describes one final state"""
    q, i, s = qs(data), np.asarray(data["I"], float), np.asarray(data["ISigma"], float)
    who = f"repetition {r.n}"
    if int(r.repetition) != r.n:
        raise Violation("rep-number", f"{who} says it is repetition {r.repetition}")
    if n_contrib is not None and len(r.rows) != n_contrib:
        raise Violation("contributions", f"{who} has {len(r.rows)} contributions instead of {n_contrib}")
    if len(r.index) != len(r.rows) or len(set(r.index)) != len(r.rows):
        raise Violation("contributions", f"{who}: bad parameter index {r.index}")
    if np.shape(r.volumes) != (len(r.rows),):
        raise Violation("volumes", f"{who}: {np.shape(r.volumes)} volumes for {len(r.rows)} contributions")
    static = r.static
    if spec is not None:
        static = spec["staticParameters"]
        if r.modelName != spec["modelName"]:
            raise Violation("settings", f"stored model {r.modelName!r} instead of {spec['modelName']!r}")
        if sorted(r.columns) != sorted(spec["fitParameterLimits"]):
            raise Violation("settings", f"stored parameters {r.columns}")
        for k, v in static.items():
            if k not in r.static:
                if v is None:
                    continue
                raise Violation("settings", f"static parameter {k} not stored")
            if not isclose(r.static[k], v, 1e-12):
                raise Violation("settings", f"static parameter {k} stored as {r.static[k]}, was {v}")
        for k in r.static:
            if k not in static:
                raise Violation("settings", f"static parameter {k}={r.static[k]} stored but never set")
    if limits is not None:
        if sorted(r.limits) != sorted(limits):
            raise Violation("settings", f"limits stored for {sorted(r.limits)}, configured {sorted(limits)}")
        for k, v in limits.items():
            if not isclose(r.limits[k], v, 1e-12):
                raise Violation("settings", f"limits of {k} stored as {r.limits[k]}, configured {v}")
    if opt:
        for k in ("maxIter", "maxAccept", "convCrit"):
            if k in opt and float(getattr(r, k)) != float(opt[k]):
                raise Violation("settings", f"{k} stored as {getattr(r, k)}, was {opt[k]}")
    tot, vols = ref.total(r.modelName, q, r.rows, static)
    rtol, atol = tol_for(r.modelName, q, r.limits, static, int(r.step) + len(r.rows))
    if not isclose(r.volumes, vols, max(rtol, 1e-9)):
        bad = int(np.argmax(np.abs(np.asarray(r.volumes, float) / vols - 1)))
        raise Violation("volumes", f"{who}: stored volume of contribution {bad} is {r.volumes[bad]}, its parameters give {vols[bad]}")
    if not isclose(r.modelI, tot, rtol, atol):
        k = int(np.argmax(np.abs(np.asarray(r.modelI) - tot) / (atol + rtol * np.abs(tot)))) if np.shape(r.modelI) == tot.shape else -1
        raise Violation("intensity", f"{who}: stored intensity differs from the sum over stored contributions, e.g. point {k}: {np.ravel(r.modelI)[k]} != {tot[k]}")
    x0 = np.asarray(r.x0, float)
    if x0.shape != (2,):
        raise Violation("scaling", f"{who}: scaling/background stored as {r.x0}")
    g = ref.chi2(i, s, np.asarray(r.modelI, float), x0)
    if not (nan_ok and np.isnan(r.gof)) and not isclose(r.gof, g, 1e-8, 1e-12):
        raise Violation("gof", f"{who}: stored goodness of fit {r.gof}, stored intensity/scaling give {g}")
    if trace:
        check_trace(r, who)


def check_trace(r, who, first=0):
    st, gf = np.atleast_1d(r.acceptedSteps), np.atleast_1d(r.acceptedGofs)
    if len(st) != len(gf) or len(st) == 0:
        raise Violation("trace", f"{who}: acceptance trace of lengths {len(st)}, {len(gf)}")
    if len(st) != int(r.accepted) + 1:
        raise Violation("trace", f"{who}: {int(r.accepted)} accepted moves but {len(st)} trace entries (initial state included)")
    if st[0] != 0 or np.any(np.diff(st[1:]) <= 0) or (len(st) > 1 and (st[-1] >= r.step or st[1] < 0)):
        raise Violation("trace", f"{who}: acceptance steps {st.tolist()} with {r.step} iterations")
    if np.any(np.diff(gf) >= 0):
        raise Violation("trace", f"{who}: goodness of fit does not fall along the trace: {gf.tolist()}")
    if not (isclose(gf[-1], r.gof, 1e-12)):
        raise Violation("trace", f"{who}: trace ends at {gf[-1]}, goodness of fit is {r.gof}")
    if r.accepted > r.step:
        raise Violation("trace", f"{who}: {r.accepted} accepted in {r.step} iterations")


def file_hash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()
