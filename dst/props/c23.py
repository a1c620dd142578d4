"""C23: all supported file formats read to the same data"""

from . import _meas

ID = "C23"
QUICK, THOROUGH = 1200, 20000
MODELS = ()
RULE = ("histories of data objects as for C18; the source files are written in all formats and variants of their attributes and replaced underneath, reads "
        "meet failing accesses; after every read the raw data are compared with the numbers written; non-trivial = more than one preparation compared")


def make(rng, idx, tier):
    p = _meas.make(rng, idx, tier)
    for d in p["ops"]:
        if d["op"] in ("rebin", "link") or (d["op"] == "set" and rng.random() < 0.5):
            d.clear()
            d.update(op=rng.choice(["new", "reread", "other", "other", "change"]), obj=0, src=rng.randrange(len(p["srcs"])))
            if d["op"] == "new":
                d["set"] = {}
    return p


def run(plan, ctx):
    def what(md, raw, content, st, where, **kw):
        _meas.check_read(md, content, where)

    _meas.run(plan, ctx, what)
