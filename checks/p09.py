"""P09: an operation that fails midway (a native call, an allocation, a user function, an internal call) leaves its
inputs as they were and can be repeated."""
import gc
import random
import re

import numpy as np

from sim import native
from sim.core import Check, Violation
from sim.values import diff, snap

from . import ops
from .ambient import ambient, diff_ambient, watch_recycle


def freeze(v):
    return snap(v) if isinstance(v, (list, tuple)) else ops.state(v)


DOCUMENTED_FALSE = {"ds.equals", "st.s_equals"}  # "If any comparison fails (exception) the value will be False."


def same_answer(a, b):
    """Equal up to what a documented fallback path may change: array class, integer width and byte/unicode strings
    (some internal steps fall back to numpy, and what they produced may be cached)."""
    def norm(x):
        if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], str) and x[0][1:] in ("i1", "i2", "i4", "i8") and isinstance(x[2], bytes):
            return ["int", list(x[1]), np.frombuffer(x[2], dtype=x[0]).tolist()]
        if isinstance(x, (tuple, list)):
            x = [norm(y) for y in x]
            if x and x[0] in ("FastArray", "ndarray"):
                return ["array"] + [y for y in x[1:]]
            return x
        if isinstance(x, bytes):
            return x.decode("latin1")
        if isinstance(x, str):
            return {"U": "S"}.get(x, re.sub("total bytes: [0-9.]+ [KMG]?B", "", x))
        return x
    return norm(a) == norm(b)


def well_formed(o, what):
    """Every Dataset reachable from o has columns of one length and consistent names."""
    import riptable as rt

    if isinstance(o, rt.Dataset):
        n = o.get_nrows()
        names = list(o.keys())
        if len(set(names)) != len(names) or o.get_ncols() != len(names) or o.shape != (n if names or n else n, len(names)):
            raise Violation("malformed", "%s: names %r shape %r" % (what, names, o.shape))
        for k in names:
            c = o[k]
            if len(c) != n:
                raise Violation("malformed", "%s: column %s has %d rows, the Dataset %r" % (what, k, len(c), n))
    if isinstance(o, rt.Struct):
        for k in o.keys():
            if isinstance(o[k], rt.Struct):
                well_formed(o[k], what + "." + k)
    if isinstance(o, rt.GroupBy):
        well_formed(o._dataset, what)


class P09(Check):
    id = "P09"
    title = "A call that fails midway leaves its inputs intact and can be retried"
    configs = {"native": 0.45, "call": 0.35, "history": 0.2}
    isolate = True
    quick_runs = 4000
    thorough_runs = 200000
    quick_wall = 150
    rule = "distinct (operation, kind of step that failed, its position in the operation) of runs in which a fault was delivered"
    components_real = ["all of riptable's Python code", "riptide_cpp (native worker threads off)", "numpy"]
    components_stub = ["outcome of native calls, numpy allocations, user functions and entries of internal functions: the seeded fault plan"]
    assumptions = ["a native call that fails raises before changing its arguments (its internals are not simulated)",
                   "functions that restore a setting and object finalisers do not fail",
                   "an operation that edits its target may leave whole columns done when it fails; it must stay well formed"]
    list_fields = ("ops",)

    def setup(self):
        watch_recycle()
        native.install()
        for nm, op in ops.OPS.items():
            for sd in range(3):
                try:
                    op.fn(ops.make(op.kind, sd), random.Random(sd))
                except Exception:
                    pass

    def gen(self, rng, cfg):
        kind = rng.choice(ops.KINDS)
        names = [n for n, o in ops.OPS.items() if o.kind == kind]
        t = {"obj": [kind, rng.randrange(1 << 20)]}
        k = 1 if cfg != "history" else rng.randint(2, 5)
        steps = []
        for i in range(k):
            nm = rng.choice(names)
            f = None
            if cfg != "history" or rng.random() < 0.6:
                f = {"on": "call" if cfg == "call" or (cfg == "history" and rng.random() < 0.4) else "step", "at": rng.random(),
                     "exc": rng.choice(["memory", "memory", "value", "interrupt"]), "when": "after" if rng.random() < 0.2 else "before"}
            steps.append([nm, rng.randrange(1000), f])
        t["ops"] = steps
        return t

    # ------------------------------------------------------------------------------------------------ run
    def run(self, t, env):
        kind, oseed = t["obj"]
        o = ops.make(kind, oseed)       # the object the faults hit
        ref = ops.make(kind, oseed)     # goes through the same history without faults
        held = []                       # earlier results: must not change afterwards
        before = ambient()
        for i, (nm, sd, f) in enumerate(t["ops"]):
            op = ops.OPS[nm]
            state0 = ops.state(o)
            if state0 != ops.state(ref):
                raise Violation("harness-diverged", nm)
            at = None
            if f:
                at = self._locate(op, kind, oseed, t["ops"][:i], nm, sd, f)
            try:
                want = ("ok", freeze(op.fn(ref, random.Random(sd))))
            except Exception as e:
                want = ("exc", type(e).__name__)
            got, err, hit = self._attempt(op, o, sd, f, at)
            env.event(nm, sd, hit, got if got is None else got[0])
            if hit:
                env.fault("%s/%s" % (hit[0], f["exc"]))
                env.key(nm, hit)
            what = "%s with %s" % (nm, hit)
            d = diff_ambient(before, ambient())
            if d:
                raise Violation("settings", "%s: %s" % (what, "; ".join(d)))
            if got is not None:
                # returned although (maybe) a step failed inside: a fallback must give the same answer
                env.probe("fallback" if hit else "no-fault")
                if hit and hit[0] == "step" and f["exc"] != "value" and not op.mut and got != want and "text" not in nm and nm not in DOCUMENTED_FALSE and not same_answer(got, want):
                    raise Violation("wrong-after-fallback", "%s: %s" % (what, diff(want, got)))
                if not hit and not same_answer(got, want):
                    raise Violation("retry", "%s after earlier failures: %s" % (what, diff(want, got)))
            else:
                env.probe("raised")
                gc.collect()
                if hit:
                    if not op.mut:
                        if ops.state(o) != state0:
                            raise Violation("input-changed", "%s: %s" % (what, diff(state0, ops.state(o))))
                        got, err, _ = self._attempt(op, o, sd, None, None)
                        if got is None:
                            got = ("exc", type(err).__name__)
                        if not same_answer(got, want):
                            raise Violation("retry", "%s, then repeated: %s %s" % (what, diff(want, got), err or ""))
                    else:
                        if hit[0] == "call" and not t.get("kf"):
                            return  # between two statements of an edit nothing is promised
                        try:
                            well_formed(o, what)
                        except Violation as v:
                            raise Violation(t.get("kf") or v.kind, v.detail)
                        return  # the target of a failed edit is in one of several allowed states: the history ends here
                elif want != ("exc", type(err).__name__):
                    raise Violation("retry", "%s after earlier failures raised %r" % (what, err))
            if not op.mut and ops.state(o) != ops.state(ref):
                raise Violation("input-changed", "%s: %s" % (what, diff(ops.state(ref), ops.state(o))))
            well_formed(o, what)

    def _locate(self, op, kind, oseed, earlier, nm, sd, f):
        """How many fault points the operation has at this place of the history -> the chosen one."""
        o = ops.make(kind, oseed)
        for n2, s2, f2 in earlier:
            try:
                ops.OPS[n2].fn(o, random.Random(s2))
            except Exception:
                pass
        try:
            if f["on"] == "call":
                with native.Calls() as c:
                    op.fn(o, random.Random(sd))
            else:
                native.SEAM.start()
                op.fn(o, random.Random(sd))
        except Exception:
            pass
        n = c.n if f["on"] == "call" else native.SEAM.stop()
        return int(f["at"] * n) if n else None

    def _attempt(self, op, o, sd, f, at):
        hit = None
        got = err = None
        try:
            if f and at is not None and f["on"] == "call":
                c = native.Calls(at, f["exc"])
                try:
                    with c:
                        v = op.fn(o, random.Random(sd))
                finally:
                    hit = c.hit and ("call", c.hit, at)
            elif f and at is not None:
                native.SEAM.start({at: (f["when"], f["exc"])})
                try:
                    v = op.fn(o, random.Random(sd))
                finally:
                    native.SEAM.stop()
                    hit = native.SEAM.hit and ("step",) + native.SEAM.hit[0][1:2] + (at,)
            else:
                v = op.fn(o, random.Random(sd))
            got = ("ok", freeze(v))
        except (Exception, KeyboardInterrupt) as e:
            err = e
        return got, err, hit or None


CHECK = P09()
