"""C22: two-dimensional data, masked pixels never enter the fit"""

import copy
import os

import numpy as np

from ..kernel import Violation
from ..seams import RealFile

ID = "C22"
QUICK, THOROUGH = 1200, 20000
MODELS = ()
RULE = ("several two-dimensional data objects in one program reading detector images from NeXus files with failing accesses, changing limits, refused limits and files without image, "
        "replaced sources; after every preparation each fitted value is looked up in the source image, and values mapped back are compared pixel by pixel; "
        "non-trivial = more than one preparation compared")
FAULTS = ("EIO", "EACCES", "EMFILE", "EAGAIN", "interrupt")


def source(rng):
    return {"ny": rng.choice([6, 9, 14]), "nx": rng.choice([6, 7, 15]), "seed": rng.randrange(10**6), "mask": rng.choice(["none", "few", "rows", "half"]),
            "bad": rng.choice(["none", "inf", "zero", "both", "nan", "all"]), "badsig": rng.choice(["none", "none", "nan", "inf", "-inf"]), "dims": rng.choice([2, 3]), "qz": rng.choice([2, 2, 0, 1]), "unc": rng.choice(["attr", "axis"]),
            "masktype": rng.choice(["bool", "int", "flags", "uint8"]), "center": [rng.choice([0.0, 0.2, -0.3]), rng.choice([0.0, 0.1])]}


def image(s, salt=0):
    r = np.random.RandomState((s["seed"] + 7919 * salt) % 2**32)
    ny, nx = s["ny"], s["nx"]
    y = np.linspace(-1.0, 1.0, ny) + s["center"][0] + 1e-3
    x = np.linspace(-0.8, 0.8, nx) + s["center"][1] + 1e-3
    qy, qx = np.meshgrid(y, x, indexing="ij")
    qy, qx = qy + 1e-4 * r.rand(ny, nx), qx + 1e-4 * r.rand(ny, nx)
    i = 10 / (1 + qy**2 + qx**2) * (1 + 0.05 * r.standard_normal((ny, nx)))
    sg = 0.02 * i * (0.5 + r.rand(ny, nx))
    mask = np.zeros((ny, nx), bool)
    if s["mask"] == "few":
        mask[r.rand(ny, nx) < 0.1] = True
    elif s["mask"] == "rows":
        mask[: ny // 4], mask[:, nx - 2 :] = True, True
    elif s["mask"] == "half":
        mask[:, : nx // 3] = True
    for kind, put in (("inf", np.inf), ("zero", 0.0), ("nan", np.nan)):
        if s["bad"] in (kind, "all") or (s["bad"] == "both" and kind != "nan"):
            k = r.rand(ny, nx) < 0.06
            if kind == "zero":
                sg[k] = 0.0
            else:
                i[k] = put
    if s["badsig"] != "none":
        sg[r.rand(ny, nx) < 0.06] = float(s["badsig"])
    return {"Q0": qy, "Q1": qx, "I": i, "ISigma": sg, "mask": mask, "hasmask": s["mask"] != "none"}


def write(s, path, salt=0):
    m = image(s, salt)
    q = [m["Q0"], m["Q1"]]
    if s["dims"] == 3:  # the component along the beam, anywhere
        q.insert(s["qz"], np.zeros_like(m["Q0"]))
    q = np.stack(q)
    with RealFile(path, "w") as f:
        g = f.create_group("entry/data")
        f.attrs["default"], f["entry"].attrs["default"] = "entry", "data"
        g["I"], g["Q"], g["Isd"] = m["I"], q, m["ISigma"]
        g.attrs["signal"], g.attrs["axes"] = "I", ["Q"]
        if s["unc"] == "attr":
            g.attrs["I_uncertainty"] = "Isd"
        else:
            g["I"].attrs["uncertainties"] = "Isd"
        if m["hasmask"]:
            flags = np.random.RandomState(s["seed"] + 1).choice([1, 2, 4, 6, 255], size=m["mask"].shape)
            g["msk"] = {"bool": m["mask"], "int": m["mask"].astype(int), "flags": m["mask"] * flags, "uint8": (m["mask"] * flags).astype(np.uint8)}[s["masktype"]]
            g.attrs["mask"] = "msk"
    return m


DEFAULTS = {"dataRange": [0, np.inf], "orthoQ0Range": [0, np.inf], "orthoQ1Range": [0, np.inf], "qNudge": [0, 0]}


def settings(rng):
    d = {}
    if rng.random() < 0.6:
        d["dataRange"] = rng.choice([[0.2, 0.9], [0.35, np.inf], [0, 0.7], [0.5, 1.1], [50.0, 60.0]])
    if rng.random() < 0.3:
        d["orthoQ0Range"] = rng.choice([[0, 0.6], [0.2, np.inf]])
    if rng.random() < 0.3:
        d["orthoQ1Range"] = rng.choice([[0, 0.5], [0.15, 0.7]])
    if rng.random() < 0.3:
        d["qNudge"] = [rng.choice([0, 0.01]), rng.choice([0, -0.02])]
    return d


def make(rng, idx, tier):
    srcs = [source(rng) for _ in range(rng.choice([1, 2, 2]))]
    nobj = rng.choice([1, 2])
    ops = [{"op": "new", "obj": k, "src": rng.randrange(len(srcs))} for k in range(nobj)]
    for _ in range(rng.choice([2, 5, 8])):
        ops.append({"op": rng.choice(["new", "read", "read", "set", "set", "set", "prepare", "change", "curve"]), "obj": rng.randrange(nobj), "src": rng.randrange(len(srcs))})
    for d in ops:
        if d["op"] == "set":
            d["set"] = settings(rng)
        if d["op"] == "new":
            d["set"] = {k: v for k, v in settings(rng).items() if k in ("dataRange", "qNudge")}
        if d["op"] in ("new", "read") and rng.random() < 0.25:
            d["fault"] = {"do": rng.choice(FAULTS), "at": 1}
    return {"srcs": srcs, "ops": ops}


def allowed(m, st):
    a0, a1, r = np.abs(m["Q0"]), np.abs(m["Q1"]), np.sqrt(m["Q0"] ** 2 + m["Q1"] ** 2)
    ok = ~m["mask"]
    for v, k in ((r, "dataRange"), (a0, "orthoQ0Range"), (a1, "orthoQ1Range")):
        ok = ok & (v > st[k][0]) & (v < st[k][1])
    fit = ok & np.isfinite(m["I"]) & np.isfinite(m["ISigma"]) & (m["ISigma"] != 0)
    return ok, fit


def large_enough(m, st):
    """the limits leave an area, and not only on its outermost row and column"""
    ok, fit = allowed(m, st)
    ys, xs = np.flatnonzero(ok.any(axis=1)), np.flatnonzero(ok.any(axis=0))
    return len(ys) > 1 and len(xs) > 1 and fit[ys[0] : ys[-1], xs[0] : xs[-1]].any(), (ys, xs)


def check(md, m, st, where):
    ok, fit = allowed(m, st)
    _, (ys, xs) = large_enough(m, st)
    use = md.measData
    q0, q1 = (np.asarray(use["Q"][k], float) - st["qNudge"][k] for k in (0, 1))
    I, S = np.asarray(use["I"], float), np.asarray(use["ISigma"], float)
    if not (q0.shape == q1.shape == I.shape == S.shape) or I.ndim != 1:
        raise Violation("shape", f"{where}: shapes {q0.shape} {q1.shape} {I.shape} {S.shape}")
    where_of = {}
    for y, x in np.ndindex(m["I"].shape):
        where_of[(round(float(m["Q0"][y, x]), 11), round(float(m["Q1"][y, x]), 11))] = (y, x)
    seen = []
    for k in range(len(I)):
        p = where_of.get((round(float(q0[k]), 11), round(float(q1[k]), 11)))
        if p is None:
            raise Violation("pixel", f"{where}: fitted value {k} has Q=({q0[k]}, {q1[k]}), no pixel is there")
        if not fit[p]:
            why = ("masked" if m["mask"][p] else "outside the limits" if not ok[p] else f"I={m['I'][p]} ISigma={m['ISigma'][p]}")
            raise Violation("not-allowed", f"{where}: pixel {p} is fitted, it is {why} (limits {st})")
        if I[k] != m["I"][p] or S[k] != m["ISigma"][p]:
            raise Violation("value", f"{where}: pixel {p} has I={I[k]} ISigma={S[k]}, the source {m['I'][p]} {m['ISigma'][p]}")
        seen.append(p)
    if len(set(seen)) != len(seen):
        raise Violation("twice", f"{where}: a pixel is fitted twice")
    inner = np.zeros_like(fit)
    inner[ys[0] : ys[-1], xs[0] : xs[-1]] = True
    missing = set(zip(*np.nonzero(fit & inner))) - set(seen)
    if missing:
        raise Violation("missing", f"{where}: {len(missing)} usable pixels inside the limits are not fitted, e.g. {sorted(missing)[0]}")
    # and back
    for name, v in (("I", I), ("Q0", m["Q0"][tuple(np.array(seen).T)])):
        back = np.asarray(md.reconstruct2D(v), float)
        n = 0
        for y, x in np.ndindex(back.shape):
            p = where_of.get((round(float(md.clippedData["Q0Crop2D"][y, x]), 11), round(float(md.clippedData["Q1Crop2D"][y, x]), 11)))
            if np.isnan(back[y, x]):
                continue
            n += 1
            if p not in seen or back[y, x] != m[name][p]:
                raise Violation("back", f"{where}: {name} mapped back to pixel {p} is {back[y, x]}")
        if n != len(v):
            raise Violation("back", f"{where}: {n} of {len(v)} values appear in the image")


def run(plan, ctx):
    from mcsas3.mc_data_2d import McData2D

    os.makedirs(ctx.path("src"), exist_ok=True)
    paths = [ctx.path(f"src/s{k}.{['h5', 'nxs'][k % 2]}") for k in range(len(plan["srcs"]))]
    imgs = [write(s, p) for s, p in zip(plan["srcs"], paths)]
    curve = ctx.path("src/curve.nxs")
    with RealFile(curve, "w") as f:
        g = f.create_group("entry/data")
        f.attrs["default"], f["entry"].attrs["default"] = "entry", "data"
        g["I"], g["Q"], g["Isd"] = np.linspace(5.0, 1.0, 9), np.linspace(0.1, 0.9, 9), np.full(9, 0.1)
        g.attrs["signal"], g.attrs["axes"], g.attrs["I_uncertainty"] = "I", ["Q"], "Isd"
    objs, n_checked = {}, 0
    with ctx.boot("fifo", max_steps=60000) as sim:
        def attempt(f, fault):
            before = len(sim.fault_log)
            if fault is not None:
                sim.faults.append({"ev": "h5.open", "n": fault["at"], "do": fault["do"]})
            try:
                return True, f()
            except (Exception, KeyboardInterrupt):
                if len(sim.fault_log) == before:
                    raise
                ctx.probe("failed_reads")
                return False, None
            finally:
                sim.faults.clear()

        for n, d in enumerate(plan["ops"]):
            op, k = d["op"], d["src"]
            o = objs.get(d["obj"])
            at = f"operation {n} ({op})"
            if op == "change":
                imgs[k] = write(plan["srcs"][k], paths[k], salt=n + 1)
                continue
            if op == "new":
                st = dict(copy.deepcopy(DEFAULTS), **copy.deepcopy(d["set"]))
                if not large_enough(imgs[k], st)[0]:
                    continue
                ok, md = attempt(lambda: McData2D(filename=paths[k], **copy.deepcopy(d["set"])), d.get("fault"))
                if not ok:
                    objs.pop(d["obj"], None)
                    continue
                o = objs[d["obj"]] = {"md": md, "img": imgs[k], "st": st}
            elif o is None or (o["img"] is None and op != "read"):
                continue
            elif op == "curve":
                # a file without an image is refused, what was read before is not used in its place
                try:
                    o["md"].from_nexus(curve)
                except Exception:
                    ctx.probe("refused_curves")
                else:
                    raise Violation("curve", f"{at}: a file holding a curve was read without complaint, {len(o['md'].measData['I'])} values are to be fitted")
                o["img"] = None
                continue
            elif op == "read":
                if not large_enough(imgs[k], o["st"])[0]:
                    continue
                ok, _ = attempt(lambda: o["md"].from_nexus(paths[k]), d.get("fault"))
                if not ok:
                    o["md"].from_nexus(paths[k])
                o["img"] = imgs[k]
            elif op == "set":
                st = dict(o["st"], **copy.deepcopy(d["set"]))
                for a, b in copy.deepcopy(d["set"]).items():
                    setattr(o["md"], a, b)
                if large_enough(o["img"], st)[0]:
                    o["st"] = st
                    o["md"].prepare()
                else:
                    try:
                        o["md"].prepare()
                    except Exception:
                        ctx.probe("refused_limits")
                    for a in d["set"]:
                        setattr(o["md"], a, copy.deepcopy(o["st"][a]))
                    o["md"].prepare()
            else:
                o["md"].prepare()
            check(o["md"], o["img"], o["st"], at)
            n_checked += 1
            for other in objs.values():
                if other is not o and other["img"] is not None:
                    check(other["md"], other["img"], other["st"], at + ", another object")
    ctx.probe("checked_preparations", n_checked)
    ctx.nontrivial = n_checked > 1
