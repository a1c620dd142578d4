"""Independent references: what a correct McSAS3 result has to satisfy.
Nothing here imports mcsas3."""

import numpy as np


def sphere_iv(q, p, static):
    r = float(p["radius"])
    x = q * r
    f = 3.0 * (np.sin(x) - x * np.cos(x)) / x**3
    v = 4.0 / 3.0 * np.pi * r**3
    sld = static.get("sld", 1)
    solv = static.get("sld_solvent", 0)
    return v * ((sld - solv) / 1e2) ** 2 * f**2, v


def sim_iv(q, p, static):
    s = float(p["factor"])
    qs = q * s
    x, y = np.asarray(static["simDataQ0"], float), np.asarray(static["simDataI"], float)
    out = np.interp(qs, x, y, left=y[0])
    hi = qs > x[-1]
    out = np.where(hi, static["extrapY0"] + static["extrapScaling"] * np.where(hi, qs, 1.0) ** (-4.0), out)
    return out * s**6 / s**3, s**3


_kernels = {}


def sas_iv(name, q, p, static, dtype="fast"):
    import sasmodels.core
    import sasmodels.direct_model
    import sasmodels.mixture
    import sasmodels.product

    key = (name, dtype, q.ndim, q.tobytes())
    if key not in _kernels:
        _kernels[key] = sasmodels.core.load_model(name, dtype=dtype).make_kernel([q] if q.ndim == 1 else list(q))
    k = _kernels[key]
    pars = {**{"scale": 1.0, "background": 0.0}, **static, **p}
    if isinstance(k, (sasmodels.product.ProductKernel, sasmodels.mixture.MixtureKernel)):
        i = sasmodels.direct_model.call_kernel(k, pars)
        return np.array(i, float), k.results()["volume"]
    _, fsq, _, v, _ = sasmodels.direct_model.call_Fq(k, pars)
    return np.array(fsq, float) / v, v


def iv(model, q, p, static):
    """volume-normalised intensity and volume of one contribution; q has two rows for an image"""
    q = np.asarray(q, float)
    if model == "mcsas_sphere":
        return sphere_iv(q, p, static)
    if model == "sim":
        return sim_iv(q, p, static)
    return sas_iv(model, q, p, static)


def total(model, q, rows, static):
    """rows: list of parameter dicts -> summed intensity, volumes, sum of |I|"""
    tot, vols = np.zeros(np.shape(q)[-1]), []
    for p in rows:
        i, v = iv(model, q, p, static)
        tot = tot + i
        vols.append(v)
    return tot, np.array(vols)


def chi2(data_i, data_s, model_i, x0):
    return float(np.sum(((data_i - (model_i * x0[0] + x0[1])) / data_s) ** 2) / data_i.size)


def best_chi2(data_i, data_s, model_i):
    """exact least-squares optimum over scaling >= 0 and background within +-mean(I)"""
    a = np.stack([model_i / data_s, 1.0 / data_s], axis=1)
    b = data_i / data_s
    from scipy.optimize import lsq_linear

    m = abs(data_i.mean())
    r = lsq_linear(a, b, bounds=([0, -m], [np.inf, m]), tol=1e-14)
    return float(np.sum((a @ r.x - b) ** 2) / data_i.size)


def histogram(values, edges):
    n = np.zeros(len(edges) - 1)
    for v in values:
        if v < edges[0] or v > edges[-1]:
            continue
        k = int(np.searchsorted(edges, v, side="right")) - 1
        n[min(k, len(n) - 1)] += 1
    return n


def modes(values, lo, hi):
    v = np.array([x for x in values if lo <= x <= hi], float)
    if v.size == 0:
        return dict(totalValue=np.nan, mean=np.nan, variance=np.nan, skew=np.nan, kurtosis=np.nan)
    mu = v.mean()
    var = ((v - mu) ** 2).mean()
    sg = np.sqrt(var)
    with np.errstate(all="ignore"):
        return dict(totalValue=float(v.size), mean=mu, variance=var, skew=((v - mu) ** 3).mean() / sg**3,
                    kurtosis=((v - mu) ** 4).mean() / sg**4)
