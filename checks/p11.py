"""P11: process-wide settings are changed by the calls that set them and by nothing else."""
import contextlib
import gc
import io
import os
import random
import warnings

import numpy as np

from sim import native
from sim import disk as D
from sim import values as V
from sim.core import Check, Violation, fork_call

from . import ops
from . import storage as S
from .ambient import ambient, diff_ambient, open_files, watch_recycle
from .p09 import P09

DISPLAY = {"ROW_ALL": [True, False], "COL_ALL": [True, False], "MAX_ROWS": [4, 10, 30], "HEAD_ROWS": [4, 15], "TAIL_ROWS": [4, 15], "COL_MAX": [2, 10, 50],
           "MAX_HEADER_WIDTH": [3, 15, 40], "MAX_FOOTER_WIDTH": [3, 15], "MAX_STRING_WIDTH": [2, 15, 40], "PRECISION": [1, 2, 4, 6], "E_PRECISION": [1, 3, 5],
           "E_THRESHOLD": [2, 6, 9], "NUMBER_SEPARATOR": [True, False], "NUMBER_SEPARATOR_CHAR": [",", "_"], "X_PADDING": [1, 4], "CONSOLE_X": [80, 150, 300],
           "GB_PREFIX": ["*", "@"], "COL_T": [3, 8]}
FLAGS = {"fa.WarningLevel": [0, 1, 2], "fa.NoTolerance": [True, False], "fa.CompressPickle": [True, False], "fa.Verbose": [0],
         "struct.WarnOnInvalidNames": [True, False], "struct.AllowAnyName": [True, False]}
_MODE = [1]


def stub_threading():
    """The native worker threads stay off (a forked process has none); the mode itself is simulated."""
    import riptide_cpp as rc

    def ThreadingMode(m):
        old, _MODE[0] = _MODE[0], int(m)
        return old

    rc.ThreadingMode = ThreadingMode


def clamp(n):
    return max(1, min(31, n))


class Settings:
    """The documented settings: how to set each, and what it then reads back as."""

    @staticmethod
    def gen(rng):
        k = rng.choice(["recycle", "recycle", "threading", "wakeup", "gc", "ufunc", "ledger", "sdsverbose", "makedirs", "rebuild", "display", "display", "display", "flag", "nperr", "warn", "seed", "print"])
        if k in ("recycle", "threading", "ufunc", "ledger", "sdsverbose", "makedirs", "rebuild"):
            v = rng.random() < 0.5
        elif k == "wakeup":
            v = rng.choice([-1, 0, 1, 2, 5, 11, 31, 32, 100])
        elif k == "gc":
            v = rng.choice([1, 10, 100, 150])
        elif k == "display":
            n = rng.choice(sorted(DISPLAY))
            return ["display." + n, rng.choice(DISPLAY[n])]
        elif k == "flag":
            n = rng.choice(sorted(FLAGS))
            return [n, rng.choice(FLAGS[n])]
        elif k == "nperr":
            v = rng.choice(["ignore", "warn"])
        elif k == "warn":
            v = rng.choice(["ignore", "default"])
        else:
            v = rng.randrange(1000)
        return [k, v]

    @staticmethod
    def get(k):
        import riptable as rt
        import riptide_cpp as rc
        from riptable import rt_sds
        from riptable.Utils.display_options import DisplayOptions as DO

        FA = rt.FastArray
        if k == "recycle":
            return FA.Recycle
        if k == "threading":
            return _MODE[0] == 0
        if k == "wakeup":
            return rc.GetThreadWakeUp()
        if k == "gc":
            g = rc.RecycleSetGarbageCollectTimeout(100)
            rc.RecycleSetGarbageCollectTimeout(g)
            return g
        if k == "ufunc":
            return FA.FasterUFunc
        if k == "ledger":
            return rt.TypeRegister.MathLedger.DebugUFunc
        if k == "sdsverbose":
            return rt_sds.SDSVerbose
        if k == "makedirs":
            return rt_sds.SDSMakeDirs
        if k == "rebuild":
            return rt_sds.SDSRebuildRoot
        if k == "nperr":
            return np.geterr()["divide"]
        if k.startswith("display."):
            return getattr(DO, k[8:])
        if k.startswith("fa."):
            return getattr(FA, k[3:])
        if k.startswith("struct."):
            return getattr(rt.Struct, k[7:])
        return None

    @staticmethod
    def set(k, v):
        """Change a setting through its documented call -> (expected value, expected return, actual return)."""
        import riptable as rt
        from riptable import rt_sds
        from riptable.Utils.display_options import DisplayOptions as DO

        FA = rt.FastArray
        old = Settings.get(k)
        if k == "recycle":
            return v, (bool(old),), ((rt.Recycle.on if v else rt.Recycle.off)(),)
        if k == "threading":
            (rt.Threading.on if v else rt.Threading.off)()
            return v, (), ()
        if k == "wakeup":
            return clamp(v), (old,), (rt.Threading.threads(v),)
        if k == "gc":
            return v, (old,), (rt.Recycle.timeout(v) if v % 20 else FA._GCSET(v),)
        if k == "ufunc":
            (FA._ON if v else FA._OFF)()
            return v, (), ()
        if k == "ledger":
            (FA._LON if v else FA._LOFF)()
            return v, (), ()
        if k == "sdsverbose":
            (rt_sds.SDSVerboseOn if v else rt_sds.SDSVerboseOff)()
            return v, (), ()
        if k == "makedirs":
            (rt_sds.SDSMakeDirsOn if v else rt_sds.SDSMakeDirsOff)()
            return v, (), ()
        if k == "rebuild":
            (rt_sds.SDSRebuildRootOn if v else rt_sds.SDSRebuildRootOff)()
            return v, (), ()
        if k == "nperr":
            np.seterr(divide=v, invalid=v)
            return v, (), ()
        if k == "warn":
            warnings.simplefilter(v)
            return None, (), ()
        if k == "seed":
            np.random.seed(v)
            random.seed(v)
            return None, (), ()
        if k == "print":
            np.set_printoptions(precision=3 + v % 6, threshold=5 + v)
            return None, (), ()
        if k.startswith("display."):
            setattr(DO, k[8:], v)
        elif k.startswith("fa."):
            setattr(FA, k[3:], v)
        elif k.startswith("struct."):
            setattr(rt.Struct, k[7:], v)
        return v, (), ()


GROUP = {"recycle": ("fastarray", "native"), "threading": ("native",), "wakeup": ("native",), "gc": ("native",), "ufunc": ("fastarray",), "ledger": ("ledger",),
         "sdsverbose": ("sds",), "makedirs": ("sds",), "rebuild": ("sds",), "nperr": ("npy",), "warn": ("warnings",), "seed": ("nprandom", "pyrandom"), "print": ("np_printoptions",)}


def group_of(k):
    if k.startswith("display."):
        return ("display",)
    if k.startswith("fa."):
        return ("fastarray",)
    if k.startswith("struct."):
        return ("struct",)
    return GROUP[k]


def probe_text(scratch):
    """What the settings are documented to affect, as one comparable value."""
    import riptable as rt

    n = 40
    f = rt.FA(np.array([(i * 37 % 11) * 10.0 ** (i % 9 - 4) for i in range(n)]))
    ds = rt.Dataset({"a_long_column_name": np.arange(n) * 12345, "b": f, "c": rt.FA(["word%d" % i * (i % 5 + 1) for i in range(n)])})
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        out.append(repr(ds))
        out.append(repr(rt.Dataset({"c%d" % i: [i] for i in range(30)})))
        out.append(repr(ds[:6, :].gb("c").sum()))
        out.append(ds._T.__repr__() if hasattr(ds._T, "__repr__") else "")
        p = os.path.join(scratch, "probe", "q", "r")
        try:
            ds[:3, :].save(p + "/x.sds")
            out.append("saved")
        except Exception as e:
            out.append(type(e).__name__)
    return out


def x_destroy(o, r, d):
    import riptable as rt

    a, b = ops.make("ds", r.randrange(999)), ops.make("ds", r.randrange(999))
    return (rt.Dataset.concat_rows if r.random() < 0.5 else rt.Dataset.hstack)([a, b], destroy=True)


def x_destroy_bad(o, r, d):
    import riptable as rt

    a = rt.Dataset({"x": [1, 2], "y": rt.FA([1.0, 2.0])})
    b = rt.Dataset({"x": [1, 2], "y": rt.Date(["20200101", "20200102"])})
    return rt.Dataset.concat_rows([a, b], destroy=True)


def x_save(o, r, d):
    import riptable as rt

    rt.save_sds(d + "/s%d" % r.randrange(2), o, onefile=r.random() < 0.3)


def x_load(o, r, d):
    import riptable as rt

    return rt.load_sds(d + "/in.sds", threads=r.choice([None, 1, 3, 7]), include=r.choice([None, None, ["i"]]), verbose=r.random() < 0.3)


def x_load_missing(o, r, d):
    import riptable as rt

    return rt.load_sds(d + "/nothere.sds", threads=r.choice([None, 3]), verbose=r.random() < 0.5)


def x_load_many(o, r, d):
    import riptable as rt

    return rt.load_sds([d + "/in.sds", d + "/in2.sds"], stack=r.random() < 0.7, threads=r.choice([None, 1, 3, 7]), verbose=r.random() < 0.3)


def x_concat(o, r, d):
    import riptable as rt

    rt.sds_concat([d + "/in.sds", d + "/in2.sds"], d + "/out.sds")


def x_tree(o, r, d):
    import riptable as rt

    return rt.sds_tree(d + "/in.sds"), rt.sds_info(d + "/in.sds")


def x_ldumpf(o, r, d):
    import riptable as rt

    rt.FastArray._LDUMPF(d + "/ledger.txt" if r.random() < 0.6 else d + "/no/such/ledger.txt")


def x_csv(o, r, d):
    import riptable as rt

    from riptable.rt_csv import load_csv_as_dataset

    with open(d + "/t.csv", "w") as f:
        f.write("a,b,c\n" + "\n".join("%d,%s,%s" % (i, i * 0.5, "w%d" % i) for i in range(6)) + ("\nx,y" if r.random() < 0.5 else ""))
    return load_csv_as_dataset(d + "/t.csv", None, {"a": int, "b": float, "c": str})


def x_show(o, r, d):
    return getattr(o, r.choice(["_A", "_H", "_R", "_C", "_T"])).__repr__()


def x_tic(o, r, d):
    import riptable as rt

    rt.tic()
    rt.toc()


XOPS = {"destroy": x_destroy, "destroy_bad": x_destroy_bad, "save": x_save, "load": x_load, "load_missing": x_load_missing, "load_many": x_load_many, "concat": x_concat, "tree": x_tree,
        "ldumpf": x_ldumpf, "csv": x_csv, "show": x_show, "tic": x_tic}
DISK = ("save", "load", "load_many", "concat", "tree")


class P11(P09):
    id = "P11"
    title = "Process-wide settings survive every call"
    configs = {"ops": 0.3, "extra": 0.3, "settings": 0.25, "disk": 0.15}
    quick_runs = 3000
    thorough_runs = 120000
    quick_wall = 120
    rule = "distinct (call, fault kind and place, non-default settings it ran under) and (setting, value, preceding setting) pairs"
    components_real = ["all of riptable's Python code", "riptide_cpp (native worker threads off)", "numpy"]
    components_stub = ["outcome of native calls, numpy allocations, user functions and internal calls: the seeded fault plan", "file system calls: simio.so", "the threading mode flag"]
    assumptions = ["functions that put a setting back do not themselves fail", "native code restores its own state"]
    list_fields = ("start", "ops")

    def setup(self):
        stub_threading()
        super().setup()

    def gen(self, rng, cfg):
        t = {"start": [Settings.gen(rng) for _ in range(rng.choice([0, 1, 2, 4]))], "ops": []}
        if cfg == "settings":
            t["ops"] = [["set"] + Settings.gen(rng) if rng.random() < 0.6 else self._gen_op(rng, faulty=rng.random() < 0.4) for _ in range(rng.randint(2, 7))]
        elif cfg == "ops":
            t["ops"] = [self._gen_op(rng, faulty=rng.random() < 0.85)]
        elif cfg == "extra":
            nm = rng.choice(sorted(XOPS))
            t["ops"] = [["x", nm, rng.randrange(1000), rng.randrange(1 << 20), self._gen_fault(rng)]]
        else:
            t["ops"] = [["disk", rng.choice(DISK), rng.randrange(1000), rng.randrange(1 << 20), {"at": rng.random(), "errno": rng.choice([2, 5, 13, 24, 28])}]]
        return t

    def _gen_fault(self, rng):
        if rng.random() < 0.15:
            return None
        return {"on": rng.choice(["step", "call", "call"]), "at": rng.random(), "exc": rng.choice(["memory", "value", "interrupt"]), "when": "before"}

    def _gen_op(self, rng, faulty):
        kind = rng.choice(ops.KINDS)
        nm = rng.choice([n for n, o in ops.OPS.items() if o.kind == kind])
        return ["op", nm, rng.randrange(1000), rng.randrange(1 << 20), self._gen_fault(rng) if faulty else None]

    # ------------------------------------------------------------------------------------------------ run
    def run(self, t, env):
        d = env.scratch + "/d"
        os.makedirs(d)
        ops.make("ds", 1).save(d + "/in.sds")
        ops.make("ds", 2).save(d + "/in2.sds")
        initial = ambient()
        first = {}
        st, text0 = fork_call(lambda: probe_text(env.scratch), 60)
        for k, v in t["start"]:
            first.setdefault(k, Settings.get(k))
            Settings.set(k, v)
        last = None
        for o in t["ops"]:
            if o[0] == "set":
                k, v = o[1], o[2]
                first.setdefault(k, Settings.get(k))
                before = ambient()
                with contextlib.redirect_stdout(io.StringIO()):
                    want, wret, gret = Settings.set(k, v)
                env.event("set", k, v, wret, gret)
                env.probe("settings")
                env.key("set", k, v, last)
                last = (k, v)
                if want is not None and Settings.get(k) != want:
                    raise Violation("setting-ignored", "%s set to %r reads back %r" % (k, v, Settings.get(k)))
                if tuple(map(type, wret)) and wret != gret:
                    raise Violation("setting-return", "setting %s to %r returned %r, documented to return the previous value %r" % (k, v, gret, wret))
                dd = [x for x in diff_ambient(before, ambient()) if x.split(":")[0] not in group_of(k)]
                if dd:
                    raise Violation("setting-side-effect", "setting %s to %r changed %s" % (k, v, "; ".join(dd)))
                continue
            self._one(t, o, env, d)
        if t["cfg"] == "settings":
            now = {k: Settings.get(k) for k in first}
            fresh = self._fresh_text(env, {k: v for k, v in now.items() if k not in ("warn", "seed", "print", "nperr")})
            got = probe_text(env.scratch + "/live")
            if got != fresh:
                raise Violation("setting-no-effect", "with settings %r reached through %r the output is not what a process with those settings gives: %s" % (now, t["ops"], V.diff(fresh, got)))
            with contextlib.redirect_stdout(io.StringIO()):
                for k, v in first.items():
                    if v is not None:
                        Settings.set(k, v)
            dd = [x for x in diff_ambient(initial, ambient()) if x.split(":")[0] not in ("warnings", "nprandom", "pyrandom", "np_printoptions", "npy")]
            if dd:
                raise Violation("not-restored", "after setting back: %s" % "; ".join(dd))
            st, text1 = fork_call(lambda: probe_text(env.scratch), 60)
            if text1 != text0:
                raise Violation("not-restored", "the output differs after setting back: %s" % V.diff(text0, text1))
            env.probe("round-trips")

    def _fresh_text(self, env, settings):
        """The output of a process that has had no history, with the given settings."""
        key = repr(sorted(settings.items()))

        def go():
            with contextlib.redirect_stdout(io.StringIO()):
                for k, v in settings.items():
                    if v is not None:
                        Settings.set(k, v)
            return probe_text(env.scratch + "/fresh")

        return self._pristine(go)

    def _pristine(self, go):
        # this run's process is itself forked from a process that only imported riptable and warmed up; put every
        # display option back to its class default first
        from riptable.Utils.display_options import DisplayOptions as DO

        def f():
            for k in ("E_MIN", "E_MAX", "P_THRESHOLD"):
                setattr(DO, k, None)
            return go()

        st, r = fork_call(f, 60)
        if st != "ok":
            raise Violation("harness", st)
        return r

    def _one(self, t, o, env, d):
        before = ambient()
        kind, nm, sd, oseed, f = o
        hit = None
        sink = io.StringIO()
        if kind == "disk":
            hit = self._disk(t, o, env, d, before)
            return
        if kind == "op":
            op = ops.OPS[nm]
            mk = lambda: ops.make(op.kind, oseed)
            fn = op.fn
        else:
            mk = lambda: ops.make("ds", oseed)
            fn = lambda ob, r: XOPS[nm](ob, r, d)
        with contextlib.redirect_stdout(sink):
            before["stdout"] = ambient()["stdout"]
            fds = open_files()
            at = None
            if f:
                at = self._count(fn, mk(), sd, f)
                self._same(before, nm, None, "without faults")
            got, err, hit = self._attempt(_Fn(fn), mk(), sd, f, at)
            err = repr(err)
            gc.collect()
            self._same(before, nm, hit, err)
            left = [x for x in open_files() if x not in fds]
            if left:
                raise Violation("open-files", "%s with %s (%s) leaves %s open" % (nm, hit, err[:200], [x.replace(env.scratch, "<S>") for x in left]))
        env.event(kind, nm, sd, hit, got is not None)
        if hit:
            env.fault("%s/%s" % (hit[0], f["exc"]))
        env.probe("calls")
        env.key(nm, hit, sorted(k for k, v in t["start"]))

    def _count(self, fn, o, sd, f):
        try:
            if f["on"] == "call":
                with native.Calls() as c:
                    fn(o, random.Random(sd))
            else:
                native.SEAM.start()
                fn(o, random.Random(sd))
        except Exception:
            pass
        n = c.n if f["on"] == "call" else native.SEAM.stop()
        return int(f["at"] * n) if n else None

    def _same(self, before, nm, hit, err):
        d = diff_ambient(before, ambient())
        if d:
            raise Violation("settings", "%s with %s (%s): %s" % (nm, hit, repr(err)[:200], "; ".join(d)))

    def _disk(self, t, o, env, d, before):
        _k, nm, sd, oseed, f = o
        ob = ops.make("ds", oseed)

        def call(root):
            with contextlib.redirect_stdout(io.StringIO()):
                return XOPS[nm](ob, random.Random(sd), root)

        st, dry = S.count_ops(env, call, d)
        if st != "ok" or not dry["events"]:
            return
        evs = dry["events"]
        # failing data writes and reads end inside the native engine (findings of P02 and P03)
        cand = [i for i, e in enumerate(evs) if e[0] not in ("write", "read", "close", "sync")]
        if not cand:
            return
        at = cand[int(f["at"] * len(cand))]
        env.disk.setup(d, list_seed=7)
        env.disk.arm([(at, D.ERR, f["errno"])], stat_faults=True)
        err = None
        try:
            call(d)
        except Exception as e:
            err = e
        fired = env.disk.fired()
        env.disk.disarm()
        env.event("disk", nm, evs[at][0], f["errno"], fired, type(err).__name__)
        if any(fired):
            env.fault("disk-error/%s" % evs[at][0])
        env.key(nm, evs[at][0], f["errno"], sorted(k for k, v in t["start"]))
        err = repr(err)
        gc.collect()
        self._same(before, nm, (evs[at][:2], f["errno"]), err)


class _Fn:
    mut = True

    def __init__(self, fn):
        self.fn = fn


CHECK = P11()
