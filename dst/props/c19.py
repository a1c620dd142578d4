"""C19: clipping and omitting keep exactly the requested Q range"""

from . import _meas

ID = "C19"
QUICK, THOROUGH = 1200, 20000
MODELS = ()
RULE = ("histories of data objects as for C18, with limits placed on, next to, between and outside of data points; after every preparation the points in use "
        "are compared, value by value and in order, with those of the source inside the ranges; non-trivial = more than one preparation compared")
make = _meas.make


def run(plan, ctx):
    def what(md, raw, content, st, where, linked=True, **kw):
        _meas.check_points(md, raw, st, where)

    _meas.run(plan, ctx, what)
