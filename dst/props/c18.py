"""C18: rebinning preserves the data's means and never understates uncertainty"""

from . import _meas

ID = "C18"
QUICK, THOROUGH = 1200, 20000
MODELS = ()
RULE = ("several data objects in one program reading frames, text, PDH, NeXus and HDF5 files with failing accesses, changing settings, refused ranges, "
        "explicit rebinning with other arguments, replaced sources, store, restore and restart; after every preparation the rebinned data are compared with "
        "an independent binning of the source; non-trivial = more than one preparation compared")
make = _meas.make


def run(plan, ctx):
    def what(md, raw, content, st, where, **kw):
        r = _meas.check_bins(md, raw, st, where, **kw)
        ctx.probe({None: "unbinned", False: "range_too_narrow", True: "binnings_compared", _meas.EDGE: "binnings_with_points_on_edges"}[r])

    _meas.run(plan, ctx, what)
