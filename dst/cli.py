"""Command-line invocations inside the simulation"""

import os
import runpy
import sys

import numpy as np
import yaml

from . import gen
from .seams import RealFile


def write_data(path, kind, data, qsep=None):
    """measurement data as a text or a NeXus file"""
    q, i, s = data["Q"][0], data["I"], data["ISigma"]
    if kind == "csv":
        sep = qsep or " "
        with open(path, "w") as f:
            for row in zip(q, i, s):
                f.write(sep.join(repr(float(v)) for v in row) + "\n")
    else:
        with RealFile(path, "w") as f:
            g = f.create_group("entry/data")
            g["I"], g["Q"], g["Isd"] = i, q, s
            f.attrs["default"] = "entry"
            f["entry"].attrs["default"] = "data"
            g.attrs["signal"] = "I"
            g.attrs["axes"] = ["Q"]
            g.attrs["I_uncertainty"] = "Isd"
            g["I"].attrs["units"] = "1/(m sr)"
            f["entry/sample/name"] = "latex 42"
            f["entry/raw"] = np.arange(2000.0).reshape(40, 50)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def write_yaml(path, doc):
    with open(path, "w") as f:
        yaml.safe_dump(plain(doc), f)


def write_hist(path, rows):
    with open(path, "w") as f:
        yaml.safe_dump_all([plain(r) for r in rows], f)


def read_config(kind, sep=None, extra=None):
    d = {"nbins": 0, "dataRange": [0.0, float("inf")]}
    if kind == "csv":
        d["csvargs"] = {"sep": sep or r"\s+", "header": None, "names": ["Q", "I", "ISigma"]}
    d.update(extra or {})
    return d


def argv(style, a):
    """command-line arguments; a: dataFile, resultFile, ... (None = not given)"""
    names = {"dataFile": ("-f", "--dataFile"), "readConfigFile": ("-F", "--readConfigFile"), "resultFile": ("-r", "--resultFile"),
             "runConfigFile": ("-R", "--runConfigFile"), "histConfigFile": ("-H", "--histConfigFile"), "resultIndex": ("-i", "--resultIndex"),
             "nThreads": ("-t", "--nThreads")}
    use = {"optimize": ("dataFile", "readConfigFile", "resultFile", "runConfigFile", "resultIndex", "nThreads"),
           "histogram": ("resultFile", "histConfigFile", "resultIndex")}.get(style, tuple(names))
    out = [style]
    for k in use:
        if a.get(k) is not None:
            out += [names[k][1 if a.get("long") else 0], str(a[k])]
    if a.get("delete") and style != "histogram":
        out.append("--deleteIfExists" if a.get("long") else "-d")
    return out


def invoke(style, a, close=True):
    """runs the command as a program start would; exceptions and exits come through"""
    import mcsas3.mcsas3_cli_histogrammer as ch
    import mcsas3.mcsas3_cli_runner as cr

    saved = sys.argv
    sys.argv = argv(style, a)
    try:
        if style == "optimize":
            return cr.main()
        if style == "histogram":
            return ch.main()
        runpy.run_module("mcsas3", run_name="__main__")
        return 0
    finally:
        sys.argv = saved
        try:
            import matplotlib.pyplot as plt

            if close:
                plt.close("all")
        except Exception:
            pass
