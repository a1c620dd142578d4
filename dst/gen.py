"""Generators of configurations and data (pure functions of a random.Random)"""

import numpy as np

from . import ref

SIMQ = [float(x) for x in np.logspace(-2.5, 1.5, 60)]


def sim_template(r=2.0, n=60):
    q = np.array(SIMQ) if n == len(SIMQ) else np.logspace(-2.5, 1.5, n)
    x = q * r
    f = 3.0 * (np.sin(x) - x * np.cos(x)) / x**3
    i = f**2 + 1e-6
    return {
        "extrapY0": float(1e-7), "extrapScaling": float(i[-1] * q[-1] ** 4),
        "simDataQ0": q.tolist(), "simDataI": i.tolist(), "simDataISigma": (0.01 * i).tolist(),
    }


def model_spec(rng, kinds=("mcsas_sphere", "sim", "sphere", "cylinder", "sphere@hardsphere"), auto=True):
    """a model configuration as a user would write it"""
    m = rng.choice(kinds)
    lo = rng.choice([1.0, 3.14, 5.0, 2.5])
    hi = lo * rng.choice([10.0, 30.0, 100.0])
    if m == "mcsas_sphere":
        d = {"modelName": m, "fitParameterLimits": {"radius": [lo, hi]},
             "staticParameters": {"sld": rng.choice([33.4, 77.93, 1.5]), "sld_solvent": rng.choice([0, 9.47, 0.5])}}
        if d["staticParameters"]["sld"] == 9.47:
            d["staticParameters"]["sld_solvent"] = 0
        if auto and rng.random() < 0.4:
            d["fitParameterLimits"]["radius"] = "auto"
    elif m == "sim":
        d = {"modelName": m, "fitParameterLimits": {"factor": [0.2, rng.choice([5.0, 20.0])]}, "staticParameters": sim_template(rng.choice([2.0, 2.0, 1.1, 3.7]), rng.choice([60, 60, 45]))}
    elif m == "sphere":
        d = {"modelName": m, "fitParameterLimits": {"radius": [lo, hi]},
             "staticParameters": {"scale": 1.0, "background": 0.0, "sld": rng.choice([33.4, 6.0]), "sld_solvent": rng.choice([0.0, 1.0])}}
        if auto and rng.random() < 0.4:
            d["fitParameterLimits"]["radius"] = "auto"
    elif m == "cylinder":
        d = {"modelName": m, "fitParameterLimits": {"radius": [lo, lo * 20], "length": [lo * 30, lo * 300]},
             "staticParameters": {"scale": 1.0, "background": 0.0, "sld": 4.0, "sld_solvent": 1.0}}
    elif m == "image":  # oriented cylinders, for two-dimensional data
        d = {"modelName": "cylinder", "fitParameterLimits": {"radius": [lo, lo * 20], "length": [lo * 30, lo * 300], "phi": [1.0, 180.0]}, "image": True,
             "staticParameters": {"scale": 1.0, "background": 0.0, "sld": 6.3, "sld_solvent": 1.0, "theta": 90.0}}
        if rng.random() < 0.3:
            del d["fitParameterLimits"]["length"]
            d["staticParameters"]["length"] = lo * 100
    else:
        d = {"modelName": m, "fitParameterLimits": {"radius": [lo, hi]},
             "staticParameters": {"scale": 1.0, "background": 0.0, "sld": 33.4, "sld_solvent": 0.0, "volfraction": 0.1, "radius_effective": 20.0}}
    return d


def reverse(rng, spec, prob=0.12):
    """sometimes: logarithmic drawing, with limits in either order"""
    if rng.random() < prob:
        spec["logRandom"] = True
        for k, v in spec["fitParameterLimits"].items():
            if isinstance(v, list) and rng.random() < 0.7:
                spec["fitParameterLimits"][k] = v[::-1]
    return spec


SAS = ("sphere", "cylinder", "sphere@hardsphere")
_warm = False


def warm_models(names=()):
    """load compiled library models once, before runs are forked off"""
    for n in names:
        if n in SAS:
            import sasmodels.core

            k = sasmodels.core.load_model(n, dtype="fast")
            k.make_kernel([np.array([0.1, 0.2])])
            p = {"radius": 10.0}
            if n == "cylinder":
                p["length"] = 100.0
                ref.iv(n, np.array([[0.1, 0.2], [0.1, -0.2]]), p, {"sld": 4.0, "sld_solvent": 1.0})
            ref.iv(n, np.array([0.1, 0.2]), p, {"sld": 4.0, "sld_solvent": 1.0})


def limits_for(spec, q):
    out = {}
    for k, v in spec["fitParameterLimits"].items():
        out[k] = [float(np.pi / np.max(q)), float(np.pi / np.min(q))] if isinstance(v, str) else list(v)
    return out


def data_spec(rng):
    qmin = rng.choice([0.01, 0.02, 0.05, 0.1])
    return {"nQ": rng.randrange(8, 17), "qmin": qmin, "qmax": qmin * rng.choice([20, 50, 100]),
            "noise": rng.choice([0.0, 0.01, 0.03]), "esd": rng.choice([0.01, 0.03, 0.1]), "bg": rng.choice([0.0, 0.1, 0.5]),
            "dseed": rng.randrange(10**6), "shape": rng.choice(["flat", "rising"]) if rng.random() < 0.06 else "model"}


def meas_data(ds, spec):
    """data dictionary from three contributions of the model, background and noise"""
    r = np.random.RandomState(ds["dseed"])
    q = np.logspace(np.log10(ds["qmin"]), np.log10(ds["qmax"]), ds["nQ"])
    if spec.get("image"):
        side = np.linspace(-ds["qmin"] * 10, ds["qmin"] * 9.3, 5)
        q = np.stack([x.ravel() for x in np.meshgrid(side, side)])[:, 2:]
    n = q.shape[-1]
    lim = limits_for(spec, q)
    tot = np.zeros(n)
    for t in (0.2, 0.5, 0.7):
        p = {k: float(v[0] * (v[1] / v[0]) ** t) if v[0] > 0 and v[1] > 0 else v[0] + t * (v[1] - v[0]) for k, v in lim.items()}
        i, v = ref.iv(spec["modelName"], q, p, spec["staticParameters"])
        tot = tot + i / max(i.max(), 1e-300)
    tot = tot / tot.max() + 1e-4
    tot = tot * 100.0
    if ds.get("shape") == "flat":  # nothing but background
        tot = np.full(n, 10.0)
    elif ds.get("shape") == "rising":  # nothing a model could describe
        tot = 100.0 * np.arange(1, n + 1) / n
    i = tot * (1 + ds["noise"] * r.standard_normal(n)) + ds["bg"]
    return {"Q": [q] if q.ndim == 1 else list(q), "I": i, "ISigma": np.maximum(ds["esd"] * i, 1e-6)}


def opt_spec(rng, maxiter=(10, 25, 40), conv=(1.0, 1e-3, 5.0, 50.0)):
    d = {"maxIter": rng.choice(maxiter), "convCrit": rng.choice(conv)}
    if rng.random() < 0.3:
        d["maxAccept"] = rng.choice([3, 8, 1000])
    return d


def hat_args(spec, opt, n_contrib, n_rep, n_cores, **kw):
    import copy

    d = copy.deepcopy({k: spec[k] for k in ("modelName", "fitParameterLimits", "staticParameters")})
    if spec.get("logRandom"):
        d["logRandom"] = True
    d.update(opt)
    d.update({"nContrib": n_contrib, "nRep": n_rep, "nCores": n_cores})
    d.update(kw)
    return d


POLICIES = ("random", "sticky", "pct", "starve", "rr", "random", "swarm")


def hist_ranges(rng, spec, q, n=None):
    """histogram configuration rows (list of dicts)"""
    lim = limits_for(spec, q)
    rows = []
    for _ in range(n or rng.randrange(1, 4)):
        par = rng.choice(sorted(lim))
        lo, hi = sorted(lim[par])
        auto = rng.random() < 0.4
        cut = rng.choice([0.0, 0.1, 0.3])
        plo, phi = lo * (hi / lo) ** cut, hi * (lo / hi) ** cut
        rows.append({"parameter": par, "nBin": rng.choice([1, 2, 5, 8, 50]), "binScale": rng.choice(["linear", "log"]),
                     "presetRangeMin": rng.choice([plo, float(max(1, int(plo)))]) if not auto else plo,
                     "presetRangeMax": phi, "binWeighting": "vol", "autoRange": auto})
    return rows


def hist_frame(rows, labels=None):
    import pandas

    return pandas.DataFrame([dict(r) for r in rows], index=labels)


def row_labels(rng, n):
    """row labels of a table of ranges: numbered, or what is left after choosing or sorting rows of a larger one"""
    return rng.choice([None, None, rng.sample(range(8), n)])
