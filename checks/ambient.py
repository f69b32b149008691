"""Process-wide settings of riptable and Python, read through their public getters, as one comparable value."""
import gc
import logging
import os
import random as _random
import sys
import warnings


def ambient():
    import numpy as np
    import riptable as rt
    from riptable import rt_sds

    d = {}
    d["cwd"] = os.getcwd()
    d["stdout"] = (id(sys.stdout), id(sys.stderr), id(sys.displayhook))
    d["npy"] = tuple(sorted(np.geterr().items()))
    st = np.random.get_state()
    d["nprandom"] = (st[1].tobytes(), st[2], st[3], st[4])
    d["pyrandom"] = _random.getstate()
    d["warnings"] = [repr(f) for f in warnings.filters]
    d["sds"] = (rt_sds.SDSVerbose, rt_sds.SDSRebuildRoot, rt_sds.SDSMakeDirs)
    d["display"] = display_options()
    FA = rt.FastArray
    d["fastarray"] = tuple((k, repr(getattr(FA, k))) for k in ("MAX_DISPLAY_LEN", "Verbose", "Recycle", "SafeConversions", "FasterUFunc", "NEW_ARRAY_FUNCTION_ENABLED",
                                                               "WarningLevel", "NoTolerance", "CompressPickle") if hasattr(FA, k))
    d["ledger"] = ledger_state()
    d["native"] = native_modes()
    d["struct"] = tuple((c.__name__, k, repr(v)) for c in (rt.Struct, rt.Dataset, rt.Categorical, rt.GroupBy)
                        for k, v in sorted(vars(c).items()) if isinstance(v, (bool, int, float, str)) and not k.startswith(("__", "_last")))
    d["np_printoptions"] = repr(sorted(np.get_printoptions().items(), key=lambda kv: kv[0]))
    d["recursion"] = sys.getrecursionlimit()
    d["trace"] = id(sys.getprofile())
    d["process"] = (gc.isenabled(), gc.get_threshold(), id(sys.excepthook), tuple(sys.path), hash(tuple(sorted(os.environ.items()))), _umask(), logging.getLogger().level, logging.root.manager.disable)
    return d


# computed on first use from the precision settings
_DERIVED = ("E_MIN", "E_MAX", "P_THRESHOLD")


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def open_files():
    """Open descriptors of this process, by what they refer to."""
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + f))
        except OSError:
            pass
    return sorted(x for x in out if not x.endswith("/fd"))


def display_options():
    from riptable.Utils.display_options import DisplayOptions

    return tuple((k, repr(v)) for k, v in sorted(vars(DisplayOptions).items()) 
                 if not k.startswith("_") and k not in _DERIVED and isinstance(v, (bool, int, float, str, list, tuple, dict)))


def ledger_state():
    from riptable.rt_ledger import MathLedger as L

    return (L.Verbose, L.VerboseConversion, L.DOCRC, L.DebugUFunc)


def native_modes():
    """Native modes: read back by setting and restoring (they have no getter), or through riptable's own flag."""
    import riptable as rt
    import riptide_cpp as rc

    t = rc.ThreadingMode(1)
    rc.ThreadingMode(t)
    g = rc.RecycleSetGarbageCollectTimeout(100)
    rc.RecycleSetGarbageCollectTimeout(g)
    return ("threading", t), ("wakeup", rc.GetThreadWakeUp()), ("gc-timeout", g), ("recycle", rt.FastArray.Recycle), ("native-recycle", _recycle[0])


_recycle = [None]


def watch_recycle():
    """Record what the native recycling mode was last set to (the native setter does not say)."""
    import riptide_cpp as rc

    if getattr(rc.SetRecycleMode, "_watched", False):
        return
    real = rc.SetRecycleMode

    def SetRecycleMode(mode):
        r = real(mode)
        _recycle[0] = mode
        return r

    SetRecycleMode._watched = True
    rc.SetRecycleMode = SetRecycleMode
    real(0)
    _recycle[0] = 0


def diff_ambient(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                xs = [(p, q) for p, q in zip(x, y) if p != q]
                out.append("%s: %s" % (k, repr(xs)[:300]))
            else:
                out.append("%s: %s -> %s" % (k, repr(x)[:200], repr(y)[:200]))
    return out
