"""Runs the simulated executions of one property over all cores, minimises and
reports violations, writes the evidence file."""

import contextlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALTIME = time.time  # bound before the seams are installed
REALSLEEP = time.sleep

ENV = {
    "HOME": os.environ.get("HOME", "/root"),
    "MPLBACKEND": "Agg", "SAS_OPENCL": "none", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1",
}


def load_sut():
    """seams first, then the code under test from the repository's working tree"""
    os.environ.update(ENV)
    from . import seams, world

    seams.install()
    sys.dont_write_bytecode = True
    sys.path.insert(0, world.SRC)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.WARNING)
    import attrs, h5py, matplotlib.pyplot, numpy, pandas, pint, sasmodels.core, sasmodels.direct_model, scipy.optimize  # noqa
    import scipy.interpolate, yaml  # noqa

    # the code under test is always compiled from the working tree
    prefix, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent-dst"
    import mcsas3

    assert os.path.realpath(mcsas3.__file__).startswith(os.path.realpath(world.SRC)), mcsas3.__file__
    import mcsas3.cli_tools  # noqa
    import mcsas3.mc_analysis  # noqa
    import mcsas3.mc_core  # noqa
    import mcsas3.mc_data_1d  # noqa
    import mcsas3.mc_data_2d  # noqa
    import mcsas3.mc_hat  # noqa
    import mcsas3.mc_plot  # noqa
    import mcsas3.mcsas3_cli_histogrammer  # noqa
    import mcsas3.mcsas3_cli_runner  # noqa

    sys.pycache_prefix = prefix


def scratch_base():
    d = os.environ.get("DST_SCRATCH") or ("/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp")
    return d


def run_in_fork(fn, timeout):
    """fn() in a forked child, in a scratch directory of its own -> result dict"""
    r, w = os.pipe()
    root = tempfile.mkdtemp(prefix="dst.", dir=scratch_base())
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            devnull = os.open("/dev/null", os.O_RDWR)
            for k in (0, 1, 2):
                os.dup2(devnull, k)
            os.environ["TMPDIR"] = root
            tempfile.tempdir = root
            res = fn(root)
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack(">Q", len(data)) + data)
        except BaseException as e:  # noqa
            code = 3
            with contextlib.suppress(BaseException):
                import traceback

                data = json.dumps({"status": "harness", "msg": traceback.format_exc()[-2000:]}).encode()
                os.write(w, struct.pack(">Q", len(data)) + data)
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = REALTIME() + timeout
    timed_out = False
    while True:
        left = end - REALTIME()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    if timed_out:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(pid, signal.SIGKILL)
        with contextlib.suppress(ProcessLookupError):
            os.kill(pid, signal.SIGKILL)
    _, st, ru = os.wait4(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    if timed_out:
        return {"status": "timeout", "msg": f"run exceeded {timeout}s of wall time", "cpu": ru.ru_utime + ru.ru_stime}
    if len(buf) < 8:
        return {"status": "died", "msg": f"run ended with wait status {st}"}
    (n,) = struct.unpack(">Q", buf[:8])
    return json.loads(buf[8 : 8 + n])


def plan_for(mod, seed, idx, tier):
    rng = random.Random(f"{seed}/{mod.ID}/{idx}")
    plan = mod.make(rng, idx, tier)
    plan.setdefault("seed", rng.getrandbits(40))
    return json.loads(json.dumps(plan))


def one(mod, plan, timeout, recorded=None):
    from . import world

    return run_in_fork(lambda root: world.execute(mod, plan, root, recorded), timeout)


def worker(mod, w, nw, n, seed, tier, out, deadline, stopfile, run_timeout):
    """forked: runs w, w+nw, ... ; one JSON line per run"""
    with os.fdopen(out, "w") as f:
        for idx in range(w, n, nw):
            if REALTIME() > deadline or os.path.exists(stopfile):
                break
            plan = plan_for(mod, seed, idx, tier)
            t = REALTIME()
            res = one(mod, plan, run_timeout)
            res["idx"], res["wall"] = idx, round(REALTIME() - t, 3)
            if res["status"] == "ok":
                res.pop("choices", None)
            f.write(json.dumps(res) + "\n")
            f.flush()
    os._exit(0)


def sweep(mod, seed, tier, n, jobs, budget, run_timeout):
    tmp = tempfile.mkdtemp(prefix="dst-ctl.", dir=scratch_base())
    stopfile = os.path.join(tmp, "stop")
    deadline = REALTIME() + budget
    pids, fds = [], {}
    results = []
    try:
        for w in range(jobs):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 4
                try:
                    os.close(r)
                    for fd in fds:
                        os.close(fd)
                    worker(mod, w, jobs, n, seed, tier, wr, deadline, stopfile, run_timeout)
                    code = 0
                except BaseException:
                    import traceback

                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wr)
            pids.append(pid)
            fds[r] = b""
        bad = slow = 0
        while fds:
            rd, _, _ = select.select(list(fds), [], [], 10)
            for fd in rd:
                b = os.read(fd, 1 << 20)
                if not b:
                    os.close(fd)
                    del fds[fd]
                    continue
                fds[fd] += b
                while b"\n" in fds[fd]:
                    line, fds[fd] = fds[fd].split(b"\n", 1)
                    res = json.loads(line)
                    results.append(res)
                    if res["status"] == "violation" and not known(mod.ID, res):
                        bad += 1
                    slow += res["status"] == "timeout"
                    if bad >= 3 or slow >= 8:
                        open(stopfile, "w").close()
    finally:
        for pid in pids:
            with contextlib.suppress(ChildProcessError):
                os.waitpid(pid, 0)
        shutil.rmtree(tmp, ignore_errors=True)
    results.sort(key=lambda r: r["idx"])
    return results


def again(mod, a, results, run_timeout, budget):
    """runs that took too long or were ended from outside, once more with nothing else going on"""
    end = REALTIME() + budget
    for k, r in enumerate(results):
        left = end - REALTIME()
        if r["status"] not in ("timeout", "died") or left < run_timeout:
            continue
        limit = min(2 * run_timeout, left)
        res = one(mod, plan_for(mod, a.seed, r["idx"], a.tier), limit)
        if res["status"] == "timeout" and res["cpu"] > 0.6 * limit:
            # computing all the time, alone, many times longer than any run takes
            res = {"status": "violation", "tag": "no-termination", "msg": f"the run does not come to an end within {limit:.0f}s", "choices": [], "trace": None,
                   "fired": {}, "switches": 0, "notes": []}
        res["idx"], res["wall"] = r["idx"], 0
        results[k] = res


# ---------------------------------------------------------------- known findings
_KF = None


def known_findings():
    global _KF
    if _KF is None:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            _KF = json.load(f)
    return _KF


def known(pid, res):
    for k in known_findings()["findings"]:
        if k["property"] == pid and k["tag"] == res.get("tag"):
            return k
    return None


# ---------------------------------------------------------------- minimising
def minimise(mod, plan, res, run_timeout, budget):
    from . import shrink

    end = REALTIME() + budget
    tag = res["tag"]
    best, bres = plan, res
    tried = 0
    # the schedule: try the simplest one first
    progress = True
    while progress and REALTIME() < end:
        progress = False
        for cand in shrink.candidates(mod, best):
            if REALTIME() > end:
                break
            tried += 1
            r = one(mod, cand, run_timeout)
            if r["status"] == "violation" and r["tag"] == tag:
                best, bres = cand, r
                progress = True
                break
    # then fewer context switches: replace recorded choices by "stay" (0)
    ch = bres["choices"]
    if any(any(c) for c in ch) and REALTIME() < end:
        for b in range(len(ch)):
            size = max(1, len(ch[b]) // 2)
            while size >= 1 and REALTIME() < end:
                i = 0
                while i < len(ch[b]) and REALTIME() < end:
                    if any(ch[b][i : i + size]):
                        c2 = [list(x) for x in ch]
                        c2[b][i : i + size] = [0] * len(c2[b][i : i + size])
                        tried += 1
                        r = one(mod, best, run_timeout, c2)
                        if r["status"] == "violation" and r["tag"] == tag:
                            ch, bres = r["choices"], r
                    i += size
                size //= 2
                if tried > 400:
                    break
    return best, bres, tried


def write_replay(mod, plan, res, seed, tier, idx):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{mod.ID}-{seed}-{idx}.json")
    with open(p, "w") as f:
        json.dump(
            {"property": mod.ID, "seed": seed, "tier": tier, "index": idx, "plan": plan, "choices": res["choices"],
             "violation": {"tag": res["tag"], "msg": res["msg"]}, "trace": res["trace"],
             "faults_fired": res["fired"], "context_switches": res["switches"], "notes": res["notes"],
             "output": res.get("output", "")},
            f, indent=1)
    return p


def replay(path, run_timeout=300):
    with open(path) as f:
        rp = json.load(f)
    mod = importlib.import_module(f"dst.props.{rp['property'].lower()}")
    load_sut()
    warm(mod)
    if rp["violation"]["tag"] == "no-termination":
        res = one(mod, rp["plan"], run_timeout)
        print(res["status"], res.get("msg"))
        return 1 if res["status"] in ("timeout", "violation") else (0 if res["status"] == "ok" else 2)
    res = one(mod, rp["plan"], run_timeout, rp["choices"])
    same = res["status"] == "violation" and res["tag"] == rp["violation"]["tag"] and res["trace"] == rp["trace"]
    print(json.dumps({k: res.get(k) for k in ("status", "tag", "msg", "trace", "fired", "notes")}, indent=1))
    print("replay reproduces the recorded violation exactly" if same else "replay DIFFERS from the record")
    return 1 if res["status"] == "violation" else (0 if res["status"] == "ok" else 2)


def warm(mod):
    from . import gen

    gen.warm_models(getattr(mod, "MODELS", ()))
    if hasattr(mod, "warm"):
        mod.warm()


# ---------------------------------------------------------------- main
def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DST_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--index", type=int, help="run just this one and show everything")
    ap.add_argument("--replay")
    ap.add_argument("--traces", help="write idx -> trace hash to this file (determinism test)")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    t0 = REALTIME()
    mod = importlib.import_module(f"dst.props.{a.property.lower()}")
    load_sut()
    warm(mod)
    run_timeout = getattr(mod, "RUN_TIMEOUT", 60 if a.tier == "quick" else 120)
    if a.index is not None:
        plan = plan_for(mod, a.seed, a.index, a.tier)
        print(json.dumps(plan, indent=1))
        res = one(mod, plan, run_timeout)
        res.pop("choices", None)
        msg, out = res.pop("msg", ""), res.pop("output", "")
        print(json.dumps(res, indent=1))
        print(msg)
        print(out)
        return {"ok": 0, "violation": 1}.get(res["status"], 2)
    n = a.runs or (mod.QUICK if a.tier == "quick" else mod.THOROUGH)
    budget = float(os.environ.get("DST_BUDGET", 560 if a.tier == "quick" else 3 * 3600))
    results = sweep(mod, a.seed, a.tier, n, a.jobs, budget, run_timeout)
    again(mod, a, results, run_timeout, 130 if a.tier == "quick" else 3600)
    wall = REALTIME() - t0
    if a.traces:
        with open(a.traces, "w") as f:
            json.dump({r["idx"]: [r["status"], r.get("trace"), r.get("steps")] for r in results}, f)
    viol = [r for r in results if r["status"] == "violation"]
    kf = {}
    new = []
    for r in viol:
        k = known(mod.ID, r)
        if k:
            kf.setdefault(k["id"], [k, 0])[1] += 1
        else:
            new.append(r)
    broken = [r for r in results if r["status"] not in ("ok", "violation")]
    evidence(mod, a, n, results, wall, len(new), kf, broken)
    for k, c in kf.values():
        print(f"KNOWN-FINDING: property={mod.ID} {k['what']} [{c} runs]")
    ok = len([r for r in results if r["status"] == "ok"])
    print(f"{mod.ID} {a.tier} seed={a.seed}: {len(results)}/{n} runs, {ok} ok, {len(viol)} violations "
          f"({len(new)} new), {len(broken)} undecided, {wall:.0f}s")
    if new:
        r = new[0]
        by = {}
        for x in new:
            by.setdefault(x["tag"], []).append(x["idx"])
        print("violation classes:", {k: v[:5] for k, v in by.items()})
        plan = plan_for(mod, a.seed, r["idx"], a.tier)
        best, bres, tried = plan, r, 0
        endless = r["tag"] == "no-termination"
        if not os.environ.get("DST_NOSHRINK") and not endless:
            best, bres, tried = minimise(mod, plan, r, run_timeout, 150 if a.tier == "quick" else 600)
        # the minimised file must fail the same way again, in a fresh process
        if endless:
            same = True  # seen twice
        else:
            rerun = one(mod, best, run_timeout, bres["choices"])
            same = rerun["status"] == "violation" and rerun["tag"] == bres["tag"] and rerun["trace"] == bres["trace"]
        path = write_replay(mod, best, bres, a.seed, a.tier, r["idx"])
        print(f"seed {a.seed} run {r['idx']} minimised in {tried} runs; replay {'reproduces' if same else 'DOES NOT REPRODUCE'}")
        print(json.dumps(best)[:1500])
        print(f"{bres['tag']}: {bres['msg'][:1500]}")
        print(f"VIOLATION property={mod.ID} replay={path}", flush=True)
        return 1
    if broken:
        for r in broken[:3]:
            print(f"undecided run {r['idx']}: {r['status']} {r.get('msg', '')[:2500]}")
        return 2
    if len(results) < n * 0.4:
        print(f"only {len(results)} of {n} runs fitted into the time budget")
        return 2
    return 0


def evidence(mod, a, n, results, wall, nviol, kf, broken):
    def total(key):
        out = {}
        for r in results:
            for k, v in (r.get(key) or {}).items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))

    traces = {}
    for r in results:
        if r.get("trace"):
            traces.setdefault(r["trace"], r)
    nontriv = [r for r in traces.values() if (r["nontrivial"] if r.get("nontrivial") is not None else r.get("switches", 0) > 0 or r.get("fired"))]
    samples = []
    for r in nontriv[:: max(1, len(nontriv) // 3)][:3]:
        samples.append({"index": r["idx"], "plan": plan_for(mod, a.seed, r["idx"], a.tier), "events": r.get("steps"),
                        "context_switches": r.get("switches"), "faults_fired": r.get("fired"), "trace": r["trace"],
                        "notes": r.get("notes", [])[:5]})
    ev = {
        "property": mod.ID, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(nontriv), "rule": mod.RULE, "samples": samples,
            "runs_planned": n, "runs_per_hour": round(len(results) / max(wall, 1e-9) * 3600),
            "seeds": f"one PRNG seed per run, derived from VERIF_SEED={a.seed}, the property and the run index 0..{n - 1}",
            "simulated_seconds": round(sum(r.get("simtime", 0) for r in results), 1),
            "simulated_boots": sum(r.get("boots", 0) for r in results),
            "seam_events": sum(r.get("steps", 0) for r in results),
            "events_by_kind": total("counts"), "faults_fired": total("fired"), "probes": total("probes"),
            "context_switches": sum(r.get("switches", 0) for r in results),
            "preemptions": sum(r.get("preemptions", 0) for r in results),
            "distinct_event_traces": len(traces),
            "interleaving_measure": "distinct SHA-256 over the numbered sequence of (process, seam event, argument)",
            "max_workers_seen": max([r.get("max_workers", 0) for r in results] or [0]),
            "undecided_runs": len(broken),
            "known_findings_hit": {k: v[1] for k, v in kf.items()},
            "real_components": getattr(mod, "REAL", "all of src/mcsas3, numpy, pandas, scipy, sasmodels, HDF5 library and file format"),
            "simulated_components": "multiprocessing pool/locks (fork semantics, per-process module state), file locks, opens and durability of the disk, OS entropy, clock, core count",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 1), "violations": nviol,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{mod.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{mod.ID}.json"))
