"""Seam between riptable's Python code and what it calls into: the native engine, numpy allocation, user functions.

Every call that crosses the seam is a numbered step; the simulator can make the step fail instead of running it
(or fail after it ran), with MemoryError, a ValueError from the engine, or an interrupt.  The numbering depends
only on the program, so (program, step number) names a fault exactly.
"""
import os
import sys

from .core import REPO

# calls that set or read a mode, or cannot fail: never a fault point
SAFE = {"SetThreadWakeUp", "GetThreadWakeUp", "SetRecycleMode", "RecycleGarbageCollectNow", "RecycleSetGarbageCollectTimeout", "RecycleDump",
        "ThreadingMode", "DisableLogging", "EnableLogging", "GetNanoTime", "GetTSC", "SetFastArrayType", "BasicMathHook", "LogClear", "MBGet", "CompareNumpyMemAddress",
        "TestNumpy", "SetRustExec", "LedgerFunction", "AsFastArray", "AsAnyArray", "LedgerDump"}
NPY = ["empty", "zeros", "ones", "full", "arange", "empty_like", "zeros_like", "full_like", "concatenate", "hstack", "vstack", "array", "asarray", "unique",
       "where", "searchsorted", "bincount", "cumsum", "argsort", "lexsort"]
EXC = {"memory": lambda: MemoryError("simulated: out of memory"), "value": lambda: ValueError("simulated: error in the native engine"),
       "interrupt": lambda: KeyboardInterrupt("simulated interrupt")}


class Seam:
    def __init__(self):
        self.on = False
        self.n = 0
        self.fail = {}  # step -> (when, exception kind)
        self.hit = []
        self.log = []
        self.depth = 0

    def start(self, fail=None):
        self.n, self.fail, self.hit, self.log, self.on = 0, dict(fail or {}), [], [], True

    def stop(self):
        self.on = False
        return self.n

    def step(self, name, call):
        """One numbered step: run call() unless the plan says it fails."""
        if not self.on:
            return call()
        k = self.n
        self.n += 1
        self.log.append(name)
        f = self.fail.get(k)
        if f is None:
            return call()
        self.hit.append((k, name) + tuple(f))
        if os.environ.get("RTSIM_CALLS"):
            import traceback
            traceback.print_stack(limit=14)
        if f[0] == "after":
            call()
        raise EXC[f[1]]()


SEAM = Seam()
_PATCHED = False


def install():
    """Wrap riptide_cpp's functions and numpy's allocators (calls made by riptable code only)."""
    global _PATCHED
    if _PATCHED:
        return
    _PATCHED = True
    import numpy as np
    import riptable  # noqa
    import riptide_cpp as rc

    own = os.path.join(os.path.realpath(REPO), "riptable") + os.sep

    def ours(frame):
        fn = frame.f_code.co_filename
        return fn.startswith(own) or fn.startswith(REPO)

    def wrap(name, real):
        def call(*a, **k):
            if not SEAM.on or not ours(sys._getframe(1)):
                return real(*a, **k)
            return SEAM.step(name, lambda: real(*a, **k))
        call.__name__ = getattr(real, "__name__", name)
        call.__doc__ = getattr(real, "__doc__", None)
        call._real = real
        return call

    for n in sorted(dir(rc)):
        f = getattr(rc, n)
        if n.startswith("_") or n in SAFE or not callable(f) or isinstance(f, type) or hasattr(f, "_real"):
            continue
        setattr(rc, n, wrap("rc." + n, f))
    for n in NPY:
        setattr(np, n, wrap("np." + n, getattr(np, n)))


def user(fn, name="user"):
    """A user function: every call of it is a step."""
    def f(*a, **k):
        return SEAM.step(name, lambda: fn(*a, **k))
    f.__name__ = getattr(fn, "__name__", name)
    return f


# ---------------------------------------------------------------------------------------- internal calls
# entering one of these is never a fault point: they put a setting back or run while an object is torn down
NOFAIL = {"__del__", "__exit__", "_TON", "_TOFF", "_RON", "_ROFF", "_FASTER_UFUNC_ON", "_FASTER_UFUNC_OFF", "_GCNOW", "_GCSET", "_LON", "_LOFF",
          "__array_finalize__", "<genexpr>", "<listcomp>", "<dictcomp>", "<setcomp>", "<lambda>"}


class Calls:
    """Numbers the calls of riptable functions made while it is on; entering call number k can fail."""

    def __init__(self, fail=None, kind="memory"):
        self.own = os.path.join(os.path.realpath(REPO), "riptable") + os.sep
        self.n, self.fail, self.kind, self.hit = 0, fail, kind, None
        self.names = []

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def _trace(self, frame, ev, arg):
        if ev != "call":
            return None
        co = frame.f_code
        if not co.co_filename.startswith(self.own) or co.co_name in NOFAIL:
            return None
        b = frame.f_back
        if b is not None and (b.f_code.co_name in NOFAIL or b.f_code.co_filename == __file__) or sys.exc_info()[0] is not None:
            return None
        k = self.n
        self.n += 1
        if os.environ.get("RTSIM_CALLS"):
            print(k, co.co_qualname, b and b.f_code.co_qualname, b and b.f_code.co_filename)
        if k == self.fail:
            self.hit = "%s:%s" % (os.path.basename(co.co_filename), co.co_qualname)
            sys.settrace(None)
            raise EXC[self.kind]()
        return None
