"""Generic plan minimiser: plans are JSON; a property may add its own candidates"""

import copy


def _lists(plan, keys=("ops", "faults", "ranges")):
    for k in keys:
        if isinstance(plan.get(k), list):
            yield k


SMALL = {"nRep": (1, 2, 3), "nContrib": (1, 2, 4), "maxIter": (0, 1, 5, 20), "nCores": (1, 2), "cpu": (1, 2), "nQ": (8,)}


def candidates(mod, plan):
    if hasattr(mod, "shrink"):
        yield from mod.shrink(copy.deepcopy(plan))
    for k in _lists(plan):
        n = len(plan[k])
        if n > 1:
            for half in (plan[k][: n // 2], plan[k][n // 2 :]):
                p = copy.deepcopy(plan)
                p[k] = copy.deepcopy(half)
                yield p
        for i in range(n):
            p = copy.deepcopy(plan)
            del p[k][i]
            yield p
    if plan.get("policy") not in (None, "fifo"):
        p = copy.deepcopy(plan)
        p["policy"] = "fifo"
        yield p

    def walk(o, path):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in SMALL and isinstance(v, int) and not isinstance(v, bool):
                    for s in SMALL[k]:
                        if s < v:
                            yield path + [k], s
                yield from walk(v, path + [k])
        elif isinstance(o, list):
            for i, v in enumerate(o):
                yield from walk(v, path + [i])

    for path, s in list(walk(plan, [])):
        p = copy.deepcopy(plan)
        o = p
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] = s
        yield p
