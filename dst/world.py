"""One simulated run: scratch directory, boots of the simulated machine, statistics"""

import copy
import gc
import hashlib
import os
import sys
import traceback
from pathlib import Path

import numpy as np
import pandas

from . import kernel, seams
from .kernel import (HarnessError, LegacyRng, ModuleVars, Sim, SimCrash, SimDeadlock, SimKilled, SimStepLimit,
                     Violation)

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def _cp(v, memo):
    if isinstance(v, (dict, list, set, np.ndarray, pandas.DataFrame, bytearray)):
        try:
            return copy.deepcopy(v, memo)
        except Exception:
            return v
    return v


class PristineVars(ModuleVars):
    """module state of a freshly started program"""

    def copy(self, snap):
        memo = {}
        return [{k: _cp(v, memo) for k, v in d.items()} for d in snap]

    def fork(self, snap):
        return self.copy(snap)


class Ctx:
    def __init__(self, root, plan, prop, recorded=None):
        self.root = os.path.realpath(root)
        self.plan, self.prop = plan, prop
        self.recorded = recorded  # list of choice lists, one per boot
        self.boots = 0
        self.choices = []
        self.counts, self.fired, self.probes = {}, {}, {}
        self.steps = self.switches = self.preemptions = 0
        self.simtime = 0.0
        self.hash = hashlib.sha256()
        self.max_workers = 0
        self.pools = 0
        self.mv = PristineVars()
        self.pristine = self.mv.copy(self.mv.get())
        self.legacy = LegacyRng()
        self.notes = []
        self.last = None
        self.nontrivial = None
        os.chdir(self.root)

    def path(self, name):
        return Path(self.root) / name

    def note(self, *a):
        self.notes.append(" ".join(str(x) for x in a))

    def probe(self, n, k=1):
        self.probes[n] = self.probes.get(n, 0) + k

    def mix(self, *a):
        self.hash.update(repr(a).encode())

    def boot(self, policy="fifo", seed=None, faults=(), cpu=4, max_steps=60000, journal=False, clock_faults=False,
             fresh=True):
        return Boot(self, policy, seed, faults, cpu, max_steps, journal, clock_faults, fresh)


class Boot:
    """a program start on the simulated machine; ends normally, by exception or by a crash"""

    def __init__(self, ctx, policy, seed, faults, cpu, max_steps, journal, clock_faults, fresh):
        self.ctx = ctx
        n = ctx.boots
        ctx.boots += 1
        rec = None
        if ctx.recorded is not None:
            rec = ctx.recorded[n] if n < len(ctx.recorded) else []
        if seed is None:
            seed = f"{ctx.plan.get('seed', 0)}-{n}"
        if fresh:
            ctx.mv.set(ctx.mv.copy(ctx.pristine))
        sim = self.sim = Sim(seed=_int(seed), policy=policy, recorded=rec, max_steps=max_steps, faults=faults)
        sim.cpu_count = cpu
        sim.max_workers = 0
        sim.pools = 0
        sim.clock_faults = clock_faults
        sim.tracked = [ctx.mv, ctx.legacy]
        disk = seams.Disk(sim, ctx.root)
        if journal:
            disk.journal = []

    def __enter__(self):
        s = np.random.RandomState(_int(self.sim.seed) % 2**32)
        self.ctx.legacy.set((s.get_state(), __import__("random").Random(self.sim.seed).getstate()))
        self.sim.__enter__()
        return self.sim

    def __exit__(self, et, ev, tb):
        s, c = self.sim, self.ctx
        s.__exit__(et, ev, tb)
        c.choices.append(s.choices.log)
        for k, v in s.counts.items():
            c.counts[k] = c.counts.get(k, 0) + v
        for k, v in s.fired.items():
            c.fired[k] = c.fired.get(k, 0) + v
        for k, v in s.probes.items():
            c.probes[k] = c.probes.get(k, 0) + v
        c.steps += s.seq
        c.switches += s.switches
        c.preemptions += s.preemptions
        c.simtime += s.now - s.t0
        c.max_workers = max(c.max_workers, s.max_workers)
        c.pools += s.pools
        c.hash.update(s.trace_hash().encode())
        c.last = s
        if s.disk.escapes and not isinstance(ev, (Violation, HarnessError)):
            raise Violation("escape", f"touched paths outside the working directory: {s.disk.escapes[:5]}")
        return False


def _int(seed):
    if isinstance(seed, int):
        return seed
    return int.from_bytes(hashlib.sha256(str(seed).encode()).digest()[:6], "big")


def repo_frames(tb):
    out = []
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(SRC):
            out.append(f"{os.path.basename(f)}:{tb.tb_frame.f_code.co_name}")
        tb = tb.tb_next
    return out


def execute(mod, plan, root, recorded=None):
    """one run of a property's workload; returns a JSON-able dict"""
    gc.disable()
    ctx = Ctx(root, plan, mod.ID, recorded)
    res = {"status": "ok"}
    try:
        mod.run(plan, ctx)
    except Violation as v:
        res.update(status="violation", tag=v.tag, msg=v.msg[:3000])
    except HarnessError as e:
        res.update(status="harness", msg="".join(traceback.format_exception(e))[-3000:])
    except SimStepLimit as e:
        res.update(status="violation", tag="no-termination", msg=f"more than {ctx.steps} events")
    except SimDeadlock as e:
        res.update(status="violation", tag="deadlock", msg=f"no process can continue: {e}")
    except (SimCrash, SimKilled) as e:
        res.update(status="harness", msg="simulated crash escaped: " + "".join(traceback.format_exception(e))[-3000:])
    except Exception as e:
        fr = repo_frames(e.__traceback__)
        text = "".join(traceback.format_exception(e))[-3000:]
        if fr:
            # the code under test raised on a plan it has to accept
            res.update(status="violation", tag="exception:" + type(e).__name__, msg=text)
        else:
            res.update(status="harness", msg=text)
    except BaseException as e:
        res.update(status="harness", msg="".join(traceback.format_exception(e))[-3000:])
    if Sim.current_sim is not None:
        Sim.current_sim.active = False
        Sim.current_sim = None
    if ctx.last is not None and res["status"] != "ok":
        res["output"] = ctx.last.out.getvalue()[-1500:]
    res.update(
        choices=ctx.choices, counts=ctx.counts, fired=ctx.fired, probes=ctx.probes, steps=ctx.steps,
        switches=ctx.switches, preemptions=ctx.preemptions, simtime=round(ctx.simtime, 3), trace=ctx.hash.hexdigest()[:20],
        notes=ctx.notes[:40], boots=ctx.boots, max_workers=ctx.max_workers, nontrivial=ctx.nontrivial,
    )
    return res
