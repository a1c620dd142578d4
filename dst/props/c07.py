"""C07: a crash costs only the repetitions not yet completely stored"""

import shutil

import numpy as np

from .. import gen, obs
from ..kernel import DONE, SimCrash, Violation
from ..seams import RealFile, quiet

ID = "C07"
QUICK, THOROUGH = 300, 8000
MODELS = ()
RULE = ("each evaluation runs a configuration once without faults, then again killed at a generated event (any seam event; a share of them inside "
        "the file library's flush), restarts, checks the file, analyses it, and runs into it again, possibly killed once more; non-trivial = the "
        "kill happened after the first and before the last write access to the file")
ASSUMPTIONS = ["a kill ends all processes of the program at the same instant; what the file library had handed to the operating system by then stays"]

NEED_MODEL = ("parameterSet/columns", "parameterSet/index", "parameterSet/data", "volumes", "modelDType")
NEED_OPT = ("accepted", "convCrit", "gof", "maxIter", "maxAccept", "modelI", "step", "x0", "acceptedSteps", "acceptedGofs")


def crash_spec(rng):
    if rng.random() < 0.2:
        return {"torn": rng.random(), "part": rng.choice([0.0, 0.3, 0.5, 1.0])}
    return {"ev": rng.choice(["h5.open", "h5.open", "h5.closed", "h5.closed", "h5.opened", "h5.close", "any", "rng", "lock.*", "task.*"]), "at": rng.random()}


def make(rng, idx, tier):
    spec = gen.model_spec(rng, ("mcsas_sphere", "mcsas_sphere", "sim"))
    return {
        "spec": spec, "data": gen.data_spec(rng), "opt": {"maxIter": rng.choice([2, 5, 12]), "convCrit": 1e-9}, "nContrib": rng.choice([1, 2, 3]),
        "nRep": rng.choice([1, 2, 3, 4, 5]), "nCores": rng.choice([0, 1, 1, 2, 3]), "cpu": rng.choice([2, 3, 4]),
        "policy": rng.choice(gen.POLICIES), "seedarg": rng.choice(["default", rng.randrange(1000), None]), "index": rng.choice([1, 1, 2]),
        "faults": [crash_spec(rng) for _ in range(rng.choice([1, 1, 2, 3]))], "data_first": rng.random() < 0.6, "foreign": rng.random() < 0.4,
        "prior": rng.random() < 0.35,
    }


def keys_of(f, idx, n):
    e = obs.entry(idx)
    return all(f"{e}/model/repetition{n}/{k}" in f for k in NEED_MODEL) and all(f"{e}/optimization/repetition{n}/{k}" in f for k in NEED_OPT)


def inventory(path, idx, nrep):
    """{n: tree} of the repetitions with everything needed to load them"""
    if not path.exists():
        return {}
    with RealFile(path, "r") as f:
        have = [n for n in range(nrep) if keys_of(f, idx, n)]
    return {n: obs.rep_tree(path, idx, n) for n in have}


def analyse(ctx, path, idx, data, plan):
    """analysis of (a copy of) path after a program start -> (numbers used or None, its tree)"""
    from mcsas3.mc_analysis import McAnalysis

    cp = ctx.path("copy.h5")
    shutil.copyfile(path, cp)
    par = sorted(plan["spec"]["fitParameterLimits"])[0]
    rows = [{"parameter": par, "nBin": 4, "binScale": "log", "presetRangeMin": 1.0, "presetRangeMax": 9.0, "binWeighting": "vol", "autoRange": True}]
    with ctx.boot("fifo") as sim, np.errstate(all="ignore"):
        try:
            McAnalysis(cp, data, gen.hist_frame(rows), store=True, resultIndex=idx)
        except Exception as e:
            return None, f"{type(e).__name__}: {e}"
    with RealFile(cp, "r") as f:
        h = f[obs.entry(idx) + "/histograms/histRange0"]
        used = {int(k[len("repetition"):]) for k in h if k.startswith("repetition")}
        gof = float(f[obs.entry(idx) + "/optimization/average/gof/valMean"][()])
    return used, gof


def check_image(ctx, plan, path, data, want, refs, lenient):
    """want: repetitions (trees) that have to be there unchanged"""
    idx = plan["index"]
    if not path.exists():
        if want:
            raise Violation("lost", "the result file is gone")
        return {}
    err = obs.readable(path)
    if err:
        raise Violation("unreadable", f"after the kill the result file cannot be read: {err}")
    have = inventory(path, idx, plan["nRep"])
    for n, t in want.items():
        if n not in have:
            raise Violation("lost", f"repetition {n} had been stored completely before the kill and is no longer complete")
        d = obs.diff(t, have[n])
        if d:
            raise Violation("changed", f"repetition {n} had been stored before the kill and differs now: {d[:6]}")
    whole = set()
    for n in have:
        r = obs.load_rep(path, idx, n)
        obs.check_rep(r, data, plan["spec"], plan["nContrib"], plan["opt"])
        if refs is None or obs.rep_tree(path, idx, n) == refs[n]:
            whole.add(n)
        else:
            missing = [k for k in obs.diff(refs[n], have[n]) if not k.startswith("-")]
            if missing:
                raise Violation("mixed", f"repetition {n} can be loaded but differs from its result: {missing[:6]}")
    if path.exists():
        used, info = analyse(ctx, path, idx, data, plan)
        if used is None:
            if whole:
                raise Violation("analysis", f"repetitions {sorted(whole)} are complete, analysing fails: {info}")
            ctx.probe("analysis_refused")
        else:
            if not whole <= used or not used <= set(have):
                raise Violation("analysis", f"analysis used repetitions {sorted(used)}, complete are {sorted(have)}")
            gofs = [float(obs.load_rep(path, idx, n).gof) for n in sorted(used)]
            # loading fits scaling and background again, which may only get better
            if gofs and info > np.mean(gofs) * (1 + 1e-3) + 1e-4:
                raise Violation("analysis", f"analysis averages goodness of fit to {info}, the repetitions have {gofs}")
            ctx.probe("analysis_partial" if len(used) < plan["nRep"] else "analysis_full")
    return have


def run(plan, ctx):
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat

    import pandas

    data = gen.meas_data(plan["data"], plan["spec"])
    df = pandas.DataFrame({"Q": data["Q"][0], "I": data["I"], "ISigma": data["ISigma"]})
    idx, n = plan["index"], plan["nRep"]
    kw = {} if plan["seedarg"] == "default" else {"seed": plan["seedarg"]}
    args = gen.hat_args(plan["spec"], plan["opt"], plan["nContrib"], n, plan["nCores"], **kw)

    def prepare(out):
        if plan["foreign"]:
            with RealFile(out, "w") as f:
                f["entry/data/I"] = np.arange(5.0)
                f.attrs["default"] = "entry"
        if plan["data_first"]:
            with ctx.boot("fifo"):
                McData1D(df=df.copy(), nbins=0, resultIndex=idx).store(out)

    def optimise(out, hook=None, faults=(), torn=None, seed="x"):
        """one program start; True if it was killed"""
        with ctx.boot(plan["policy"], cpu=plan["cpu"], faults=faults, max_steps=30000 + n * 6000, seed=seed) as sim:
            if hook:
                sim.observers.append(hook)
            if torn:
                sim.disk.torn = torn
            sim.drawn = []
            st["sim"] = sim
            try:
                McHat(resultIndex=idx, **args).run(data, out, resultIndex=idx)
            except SimCrash:
                # what the dead program had in the middle of writing
                st["open"] = [f for f in sim.disk.open_h5 if f._writing and (f._io.nwrites or f._io.created)]
                # a session in which repetitions are computed is not a moment of writing
                st["spans"] = any(pid == f._proc.pid and seq > f._opened for f in st["open"] for seq, pid, _ in sim.drawn)
                return True
            return False

    st = {}
    st["before"], st["flux"], st["spans"], excused = set(), None, False, False
    ref_file = ctx.path("ref.h5")
    prepare(ref_file)
    optimise(ref_file, seed="s0")
    ref_counts, ref_writes = dict(st["sim"].counts), st["sim"].disk.nwrites
    ref_draws = len(st["sim"].drawn)
    obs.need_reps(ref_file, idx, range(n))
    refs = {k: obs.rep_tree(ref_file, idx, k) for k in range(n)} if plan["seedarg"] is not None else None

    out = ctx.path("result.h5")
    prepare(out)
    if plan["prior"]:
        optimise(out, seed="prior")
        ctx.probe("prior_run")
    rest0 = {k: v for k, v in obs.tree(out).items() if "/mcdata" in k or k.startswith("/entry")} if out.exists() else {}
    st["have"] = inventory(out, idx, n)

    def boundary(sim, kind, info):
        if kind == "h5.closed" and info == "w":
            with quiet(sim):
                st["have"] = inventory(out, idx, n)
                # complete before: only those being stored again at this moment may be missing
                gone = st["before"] - set(st["have"])
                procs = sum(1 for p in sim.procs if p.state != DONE)
                if len(gone) > procs:
                    st["flux"] = f"{len(gone)} repetitions {sorted(gone)} stored completely before the run were missing at once, with {procs} processes storing"

    for k, c in enumerate(plan["faults"]):
        faults, torn = (), None
        if "torn" in c:
            torn = [1 + int(c["torn"] * max(1, ref_writes - 1)), c["part"]]
        else:
            ev = c["ev"]
            total = sum(ref_counts.values()) if ev == "any" else sum(v for kk, v in ref_counts.items() if kk == ev or (ev.endswith("*") and kk.startswith(ev[:-1])))
            if not total:
                ev, total = "h5.open", ref_counts["h5.open"]
            faults = ({"ev": ev, "n": 1 + int(c["at"] * max(1, total - 1)), "do": "crash"},)
        st["before"] = set(st["have"])
        killed = optimise(out, boundary, faults, torn, seed=f"s{k}" if k else "s0")
        if st["flux"]:
            raise Violation("lost", st["flux"])
        if not killed:
            ctx.probe("finished_before_kill")
            break
        sim = st["sim"]
        inside = bool(st["open"]) or torn is not None
        excused = excused or inside and not st["spans"]
        ctx.probe("killed_inside_flush" if torn else ("killed_in_session" if inside else "killed_between_sessions"))
        try:
            check_image(ctx, plan, out, data, st["have"], refs, inside)
            if out.exists():
                now = {k2: v for k2, v in obs.tree(out).items() if k2 in rest0}
                if obs.diff(rest0, now):
                    raise Violation("other-content", f"the kill changed {obs.diff(rest0, now)[:5]}")
            # finished optimisations which are not in the file: at most one per process that computes
            if k == 0 and ref_draws % n == 0 and not inside:
                per = {}
                for _, pid, v in sim.drawn:
                    per[pid] = per.get(pid, 0) + 1
                fin = sum(v // (ref_draws // n) for v in per.values())
                if fin - len(inventory(out, idx, n)) > len(per):
                    raise Violation("not-stored", f"{fin} optimisations were finished, {len(per)} processes computing, only {len(inventory(out, idx, n))} in the file")
        except Violation as v:
            if inside and not st["spans"]:
                raise Violation("torn-session", f"killed while a file session was being written: {v.tag}: {v.msg}")
            raise
        st["have"] = inventory(out, idx, n) if out.exists() else {}
    # a new run completes the file
    try:
        st["before"] = set(st["have"])
        optimise(out, boundary, seed="last")
        if st["flux"]:
            raise Violation("lost", st["flux"])
        text = st["sim"].out.getvalue()
        obs.need_reps(out, idx, range(n))
        for k in range(n):
            r = obs.load_rep(out, idx, k)
            obs.check_rep(r, data, plan["spec"], plan["nContrib"], plan["opt"])
            if refs is not None:
                d = obs.diff(refs[k], obs.rep_tree(out, idx, k))
                if d:
                    raise Violation("not-completed", f"after the new run repetition {k} differs: {d[:6]}")
        used, info = analyse(ctx, out, idx, data, plan)
        if used != set(range(n)):
            raise Violation("analysis", f"after the new run the analysis uses {used} ({info})")
    except (Violation, Exception) as v:
        if isinstance(v, Violation) and v.tag == "torn-session":
            raise
        if excused:
            raise Violation("torn-session", f"killed while a file session was being written, a new run does not complete it: {v}")
        if isinstance(v, Violation) and v.tag == "repetition-set":
            raise Violation("not-completed", f"{v.msg}; output: {text[-800:]}")
        raise
    ctx.nontrivial = any(ctx.probes.get(p) for p in ("killed_inside_flush", "killed_in_session", "killed_between_sessions"))
