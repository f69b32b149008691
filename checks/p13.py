"""P13: clock reads, timers and the operation ledger report exactly what happened, whatever the clock does and whatever fails."""
import contextlib
import datetime
import io
import logging
import os
import random
import re
import statistics

import numpy as np

from sim import native
from sim.core import Check, Violation, fork_call
from sim.values import diff, snap

from . import ops

RECORDED = ["BasicMathOneInput", "BasicMathTwoInputs", "ConvertSafe", "ConvertUnsafe", "BooleanIndex", "MBGet"]
LISTS = ["UFuncName", "USubName", "UDeltaTime", "UArgLen", "UResultLen", "UKwargs", "UCRC", "UArgs1Type", "UArgs1Len", "UArgs1", "UArgs2", "UArgs3", "UResult", "UResultType"]


class Clock:
    """The system's nanosecond clock (may stall and jump) and the cycle counter (unique, increasing)."""

    def __init__(self):
        self.now, self.tsc, self.rng, self.ns, self.cycles = 1_600_000_000_000_000_000, 10**12, None, [], []
        self.moved = 0

    def reset(self, start, seed):
        self.now, self.rng = start, random.Random(seed) if seed is not None else None
        self.ns, self.cycles = [], []

    def move(self, d):
        self.now += d
        self.tsc += abs(d) * 3
        self.moved += abs(d)

    def read_ns(self):
        if self.rng:
            self.now += self.rng.choice([0, 0, 1, 17, 1000, 250_000, 10**9, -1, -500, -10**6, -3600 * 10**9, 86400 * 10**9, 86399999999999])
        self.ns.append(self.now)
        return self.now

    def read_tsc(self):
        self.tsc += 1
        self.cycles.append(self.tsc)
        return self.tsc


CLOCK = Clock()
LOG = []  # recorded native calls, in order of completion
LEDGER_ON = [lambda: False]
_AMOUNT = [None]


def WORK(i):
    """What the timed expressions do."""
    CLOCK.move(_AMOUNT[0](i))


def FAILING(i):
    CLOCK.move(_AMOUNT[0](i))
    raise ValueError("simulated failure of timed code")


def describe(x):
    if isinstance(x, tuple):
        x = x[0]
    try:
        t = "%s" % x.dtype
    except Exception:
        t = "%s" % type(x)
    try:
        n = len(x)
    except Exception:
        n = 0
    return t, n


def install():
    import riptide_cpp as rc

    rc.GetNanoTime = CLOCK.read_ns
    rc.GetTSC = CLOCK.read_tsc

    def wrap(name, real):
        def f(*a, **k):
            on = LEDGER_ON[0]()
            r = real(*a, **k)
            if on:
                d = _AMOUNT[0](len(LOG)) if _AMOUNT[0] else 0
                CLOCK.move(d)
                LOG.append((name, int(a[1]) if name.startswith("BasicMath") else None, describe(a[0]), len(a), describe(r) if r is not None else ("", 0), d))
            return r
        f.__name__ = name
        return f
    for n in RECORDED:
        setattr(rc, n, wrap(n, getattr(rc, n)))


def fib(n):
    """A user function with a known number of calls."""
    if n > 1:
        return fib(n - 1) + fib(n - 2)
    return n


def fib_calls(n):
    return 1 if n <= 1 else 1 + fib_calls(n - 1) + fib_calls(n - 2)


def leaf(x):
    return x + 1


def user_code(k, n, op):
    s = 0
    for _ in range(k):
        s = leaf(s)
    if n is not None:
        fib(n)
    if op:
        o = ops.OPS[op[0]]
        try:
            o.fn(ops.make(o.kind, op[1]), random.Random(op[2]))
        except Exception:
            pass
    return s


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, rec):
        self.got.append(rec.getMessage())


def printed(fn, *a, **k):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        r = fn(*a, **k)
    return r, b.getvalue()


class P13(Check):
    id = "P13"
    title = "Clock reads, timers and ledgers report exactly what happened"
    configs = {"timers": 0.35, "ledger": 0.5, "profile": 0.15}
    isolate = True
    quick_runs = 7000
    thorough_runs = 250000
    quick_wall = 110
    rule = "distinct (sequence of timer or recording calls, clock behaviour, recorded operations, fault place)"
    components_real = ["riptable's timers, ledger and all operations that run while recording", "riptide_cpp", "cProfile"]
    components_stub = ["nanosecond clock and cycle counter (seeded: stalls, jumps both ways)", "time taken by recorded native calls (seeded)",
                       "outcome of native calls, allocations and internal calls: the seeded fault plan"]
    assumptions = ["the cycle counter is unique and increasing", "the clock stays between 1971 and 2200", "profiled times are not checked, only call counts"]
    list_fields = ("ops",)

    def setup(self):
        import riptable as rt  # noqa

        ops.warm()
        install()
        native.install()
        from riptable.rt_ledger import MathLedger

        LEDGER_ON[0] = lambda: bool(MathLedger.DebugUFunc)

    # ------------------------------------------------------------------------------------------ generation
    def gen(self, rng, cfg):
        t = {"start": rng.randrange(31_536_000, 7_258_000_000) * 10**9 + rng.randrange(10**9), "aseed": rng.randrange(1 << 30)}
        if rng.random() < 0.3:  # near a change of New York's offset or a midnight
            t["start"] = rng.choice([1_583_650_800, 1_604_210_400, 1_577_854_800, 1_000_000_800, 1_414_904_400]) * 10**9 - rng.randrange(3 * 10**9)

        def anyop(pure=True):
            k = rng.choice(ops.KINDS)
            return [rng.choice([n for n, o in ops.OPS.items() if o.kind == k and not (pure and o.mut)]), rng.randrange(1 << 20), rng.randrange(1000)]
        if cfg == "timers":
            t["jitter"] = rng.randrange(1 << 20) if rng.random() < 0.4 else None
            o = []
            for _ in range(rng.randint(2, 14)):
                x = rng.random()
                if x < 0.12:
                    o.append(["now"])
                elif x < 0.2:
                    o.append(["tsc"])
                elif x < 0.3:
                    o.append(["utc", rng.choice([1, 1, 2, 3, 10])])
                elif x < 0.42:
                    o.append(["tic"])
                elif x < 0.56:
                    o.append(["toc", rng.random() < 0.5])
                elif x < 0.62:
                    o.append(["ticx"])
                elif x < 0.68:
                    o.append(["tocx", rng.random() < 0.5])
                elif x < 0.72:
                    o.append(["tt", rng.choice([1, 1, 2, 3, 4]), rng.random() < 0.5, rng.random() < 0.25])
                elif x < 0.76:
                    o.append(["ttx", rng.choice([1, 1, 2, 3]), rng.random() < 0.25])
                elif x < 0.8:
                    o.append(["verbose", rng.choice([0, 1, 10**6, 10**9, 5 * 10**9, 3600 * 10**9])])
                elif x < 0.93:
                    o.append(["move", rng.choice([1, 999, 10**3, 10**6, 10**9, 61 * 10**9, 3600 * 10**9, 40 * 86400 * 10**9, -1, -10**6, -10**9, -3600 * 10**9]) * rng.randint(1, 9)])
                else:
                    o.append(["op"] + anyop() + [rng.randrange(30) if rng.random() < 0.5 else None, rng.choice(["memory", "value", "interrupt"])])
            t["ops"] = o
        elif cfg == "ledger":
            o = []
            for _ in range(rng.randint(1, 8)):
                x = rng.random()
                if x < 0.12:
                    o.append([rng.choice(["on", "on", "off", "clear", "ticf"])])
                elif x < 0.25:
                    o.append([rng.choice(["dump", "print", "file", "tocf", "tocfp"])])
                else:
                    o.append(["op"] + anyop(False) + ([None, None, None] if rng.random() < 0.7 else [rng.choice(["step", "call"]), rng.randrange(40), rng.choice(["memory", "value", "interrupt"])]))
            t["ops"] = o
            t["start_on"] = rng.random() < 0.85
        else:
            o = []
            for _ in range(rng.randint(1, 4)):
                o.append(["run", rng.randrange(6), rng.choice([None, None, 0, 2, 4, 5]), anyop() if rng.random() < 0.3 else None, rng.random() < 0.2,
                          rng.choice([["ds"], ["calls"], ["find"], ["findfile"], ["stats"], ["print"], ["print-full"], ["log"], ["sort", rng.choice(["ncalls", "cumtime", "function"])]])])
            t["ops"] = o
        return t

    # ------------------------------------------------------------------------------------------ running
    def run(self, t, env):
        r = random.Random(t["aseed"])
        base = [r.choice([0, 1, 3, 1000, 12345, 10**6, 777_777_777, 10**9, 5 * 10**9, 123_456_789_012]) for _ in range(64)]
        _AMOUNT[0] = lambda i: base[i % 64]
        CLOCK.reset(t["start"], t.get("jitter"))
        c0 = CLOCK.moved
        getattr(self, "_" + t["cfg"])(t, env)
        env.sim_ns += CLOCK.moved - c0

    def _reads(self, fn, *a, **k):
        CLOCK.ns, CLOCK.cycles = [], []
        r = fn(*a, **k)
        return r, list(CLOCK.ns), list(CLOCK.cycles)

    def _timers(self, t, env):
        import riptable as rt

        S, X = None, None
        for o in t["ops"]:
            k = o[0]
            if k == "move":
                if 10**17 < CLOCK.now + o[1] < 7 * 10**18:
                    CLOCK.move(o[1])
                    env.fault("clock-jump-back" if o[1] < 0 else "clock-advance")
                continue
            if not 10**17 < CLOCK.now < 7 * 10**18:
                break
            if k == "now":
                r, ns, _ = self._reads(rt.GetNanoTime)
                if r not in ns:
                    raise Violation("clock-read", "GetNanoTime() gives %r, the clock read %r" % (r, ns))
                env.event(k, r)
            elif k == "tsc":
                r, _, cy = self._reads(rt.GetTSC)
                if r not in cy:
                    raise Violation("clock-read", "GetTSC() gives %r, the counter read %r" % (r, cy))
                env.event(k, r)
            elif k == "utc":
                r, ns, _ = self._reads(rt.utcnow, o[1]) if o[1] > 1 else self._reads(rt.utcnow)
                got = [int(x) for x in np.asarray(r._fa)]
                env.event(k, got)
                if type(r).__name__ != "DateTimeNano" or len(got) != o[1]:
                    raise Violation("clock-read", "utcnow(%d) gives %s of %d" % (o[1], type(r).__name__, len(got)))
                it = iter(ns)
                if not all(g in it for g in got):
                    raise Violation("clock-read", "utcnow(%d) gives %r, the clock read %r" % (o[1], got, ns))
            elif k == "tic":
                r, S, _ = self._reads(rt.tic)
                env.event(k)
            elif k == "ticx":
                r, _, X = self._reads(rt.ticx)
                env.event(k)
            elif k in ("toc", "tocx"):
                if (S if k == "toc" else X) is None:
                    continue
                h = Capture()
                lg = logging.Logger("p13")
                lg.addHandler(h)
                (r, out), ns, cy = self._reads(printed, getattr(rt, k), lg) if o[1] else self._reads(printed, getattr(rt, k))
                env.event(k, out, h.got)
                text = out + "".join(h.got)
                if k == "toc":
                    want = ["Elapsed time (ns): %d" % (e - s) if o[1] else "Elapsed time %s seconds.\n" % float("%.6f" % ((e - s) / 1e9)) for e in ns for s in S]
                else:
                    want = ["Elapsed time (cycles): %d" % (e - s) if o[1] else "Elapsed time %d cycles.\n" % (e - s) for e in cy for s in X]
                if text not in want or (out and o[1]):
                    raise Violation("elapsed", "%s reports %r, the clock says %r" % (k, text, want))
            elif k in ("tt", "ttx"):
                self._tt(o, env)
            elif k == "verbose":
                self._verbose(o, env)
            elif k == "op":
                self._failing_op(o[1:4], ["step", o[4], o[5]] if o[4] is not None else [None, None, None], env)
        env.key("timers", [x[:2] for x in t["ops"]], t["jitter"] is None)

    def _tt(self, o, env):
        import riptable as rt

        saved, CLOCK.rng = CLOCK.rng, None
        n = [0]
        inner = _AMOUNT[0]
        used = []

        def amount(i):
            d = inner(n[0])
            n[0] += 1
            used.append(d)
            return d
        _AMOUNT[0] = amount
        fail = o[-1]
        text = "WORK(0);WORK(1);FAILING(2)" if fail else "WORK(0);WORK(1);WORK(2)"
        if o[0] == "tt":
            text = text.replace(";", "; ", 1)
        try:
            try:
                if o[0] == "tt":
                    r, out = printed(rt.tt, text, o[1], return_time=o[2]) if o[1] > 1 or o[2] else printed(rt.tt, text)
                else:
                    r, out = printed(rt.ttx, text, o[1])
            except ValueError as e:
                if not fail or "simulated" not in str(e):
                    raise
                env.fault("timed-code-fails")
                env.event(o[0], "failed")
                return
        finally:
            _AMOUNT[0] = inner
            CLOCK.rng = saved
        env.event(o[0], r, out)
        if fail:
            raise Violation("error-lost", "%s: an error of the timed code was not reported" % o[0])
        if len(used) != 3 * o[1]:
            raise Violation("elapsed", "%s ran its expression %g times instead of %d" % (o[0], len(used) / 3, o[1]))
        per = [sum(used[3 * i:3 * i + 3]) for i in range(o[1])]
        if o[0] == "tt":
            want = float("%.6f" % statistics.median([p / 1e9 for p in per]))
            exp = (want, "") if o[2] else (None, "Elapsed time %s seconds.\n" % want if o[1] == 1 else "Median %d runs %s seconds.\n" % (o[1], want))
            if (r, out) != exp:
                raise Violation("elapsed", "tt reports %r %r, the clock says %r" % (r, out, exp))
        else:
            m = re.match(r"(Elapsed time|Median %d runs) ([0-9.]+) cycles\.\n$" % o[1], out)
            want = statistics.median([3 * p for p in per])
            if not m or (m.group(1) == "Elapsed time") != (o[1] == 1) or not 0 <= float(m.group(2)) - want <= 16:
                raise Violation("elapsed", "ttx reports %r, the counter says %r" % (out, want))

    def _verbose(self, o, env):
        from zoneinfo import ZoneInfo

        from riptable import rt_sds

        saved, CLOCK.rng = CLOCK.rng, None
        try:
            a = CLOCK.now
            start, out1 = printed(rt_sds.VerbosePrint, "hello")
            CLOCK.move(o[1])
            b = CLOCK.now
            _, out2 = printed(rt_sds.VerbosePrintElapsed, "done", start)
        finally:
            CLOCK.rng = saved
        env.event("verbose", out1, out2)
        ny = ZoneInfo("America/New_York")

        def local(ns):
            d = datetime.datetime.fromtimestamp(ns // 10**9, ny)
            return d, ((d.hour * 60 + d.minute) * 60 + d.second) * 10**9 + ns % 10**9
        da, ta = local(a)
        db, tb = local(b)
        if da.year >= 2037 or db.year >= 2037 or da.year < 1971:
            return  # beyond the transitions riptable's time zone tables list
        if abs(int(start._fa[0]) - ta) > 1000:
            raise Violation("clock-read", "VerbosePrint at %r (New York %s) gives the time of day %r" % (a, da, start))
        m = re.search(r"elapsed time: (\S+) seconds", out2)
        if not m or abs(float(m.group(1)) - (b - a) / 1e9) > 1e-5:
            same = da.date() == db.date() and da.utcoffset() == db.utcoffset()
            raise Violation("verbose-elapsed" if same else "verbose-elapsed-midnight", "after %d ns: %r" % (b - a, out2))

    # ------------------------------------------------------------------------------------------ ledger
    def _failing_op(self, op, fault, env):
        """Run one catalogue operation -> (outcome, True if a fault was delivered)."""
        o = ops.OPS[op[0]]
        x = ops.make(o.kind, op[1])
        hit = False
        try:
            if fault[0] == "step":
                native.SEAM.start({fault[1]: ("before", fault[2])})
                try:
                    r = o.fn(x, random.Random(op[2]))
                finally:
                    native.SEAM.stop()
                    hit = bool(native.SEAM.hit)
            elif fault[0] == "call":
                c = native.Calls(fault[1], fault[2])
                try:
                    with c:
                        r = o.fn(x, random.Random(op[2]))
                finally:
                    hit = bool(c.hit)
            else:
                r = o.fn(x, random.Random(op[2]))
            out = ["ok", snap(r), ops.state(x) if o.mut else None]
        except Violation:
            raise
        except BaseException as e:
            out = ["raised", type(e).__name__]
        if hit:
            env and env.fault("%s/%s" % (fault[0], fault[2]))
        return out, hit

    def _plain(self, t):
        return [repr(self._failing_op(o[1:4], [None] * 3, None)[0]) for o in t["ops"] if o[0] == "op"]

    def _rows(self):
        from riptable.rt_ledger import MathLedger as M

        n = {k: len(getattr(M, k)) for k in LISTS}
        if len(set(n.values())) != 1 or n["UFuncName"] != M.TotalOperations:
            raise Violation("ledger-torn", "entries per list differ: %r, operations %r" % (n, M.TotalOperations))
        return [{k: getattr(M, k)[i] for k in LISTS} for i in range(n["UFuncName"])]

    def _ledger(self, t, env):
        import riptable as rt
        from riptable.rt_enum import MATH_OPERATION
        from riptable.rt_ledger import MathLedger as M

        st, plain = fork_call(lambda: self._plain(t), 60)
        if st != "ok" or isinstance(plain, dict):
            raise Violation("died", "without recording: %s %r" % (st, plain))
        amount, on = _AMOUNT[0], False
        printed(rt.FA._LCLEAR)
        if t["start_on"]:
            printed(rt.FA._LON)
            on = True
        del LOG[:]
        rows0, total0, i, seen = [], 0.0, 0, []
        for o in t["ops"]:
            k = o[0]
            if k in ("on", "off", "clear", "ticf"):
                printed({"on": rt.FA._LON, "off": rt.FA._LOFF, "clear": rt.FA._LCLEAR, "ticf": rt.ticf}[k])
                on = {"on": True, "off": False, "ticf": True}.get(k, on)
                if k in ("clear", "ticf"):
                    rows0, total0 = [], 0.0
                if self._rows() != rows0 or bool(M.DebugUFunc) != on:
                    raise Violation("ledger-rows", "after %s: %d rows instead of %d, recording %r" % (k, len(self._rows()), len(rows0), M.DebugUFunc))
                env.event(k, len(rows0))
                continue
            if k != "op":
                if k in ("tocf", "tocfp"):
                    on = False
                self._dump(k, rows0, env)
                if k == "dump" and on:  # making a Dataset of the rows is itself recorded
                    rows0, total0 = self._rows(), M.TotalTime
                if self._rows() != rows0 or bool(M.DebugUFunc) != on:
                    raise Violation("ledger-rows", "after %s: %d rows instead of %d, recording %r" % (k, len(self._rows()), len(rows0), M.DebugUFunc))
                continue
            del LOG[:]
            out, hit = self._failing_op(o[1:4], o[4:7], env)
            rows = self._rows()
            env.event(o[1], out[0], len(rows) - len(rows0), [x["UFuncName"] for x in rows[len(rows0):]])
            if not hit and repr(out) != plain[i]:
                raise Violation("ledger-result", "%s gives another result while recorded: %s" % (o[1], (plain[i][:300], repr(out)[:300])))
            i += 1
            if bool(M.DebugUFunc) != on:
                raise Violation("ledger-mode", "%s left recording switched %s" % (o[1], "on" if M.DebugUFunc else "off"))
            if rows[:len(rows0)] != rows0:
                raise Violation("ledger-rows", "%s changed earlier rows" % o[1])
            new = rows[len(rows0):]
            if not on and new:
                raise Violation("ledger-rows", "%s added rows with recording off" % o[1])
            got = [(x["UFuncName"], x["USubName"], (x["UArgs1Type"], x["UArgs1Len"]), x["UArgLen"], (x["UResultType"], x["UResultLen"]), x["UDeltaTime"]) for x in new if x["UFuncName"] in RECORDED]
            want = [(n, "" if f is None else MATH_OPERATION(f).name, a, na, r, float("%.9f" % (d / 1e9))) for n, f, a, na, r, d in LOG]
            env.probe("recorded-calls", len(want))
            seen.append(sorted({x["UFuncName"] for x in new}))
            if got != want:
                it = iter(want)
                if not hit or not all(g in it for g in got):
                    j = next((j for j in range(max(len(got), len(want))) if got[j:j + 1] != want[j:j + 1]), 0)
                    raise Violation("ledger-rows", "%s: row %d of %d is %r; call %d of %d was %r" % (o[1], j, len(got), got[j:j + 1], j, len(want), want[j:j + 1]))
            total0 += sum(x["UDeltaTime"] for x in new)
            if abs(M.TotalTime - total0) > 1e-6 * (1 + abs(total0)):
                raise Violation("ledger-time", "total %r, rows sum to %r" % (M.TotalTime, total0))
            rows0 = rows
        env.key("ledger", [x[0] if x[0] != "op" else x[1] for x in t["ops"]], [x[4:6] for x in t["ops"] if x[0] == "op"], seen)

    def _dump(self, k, rows, env):
        import riptable as rt

        env.event(k)
        p = os.path.join(env.scratch, "ledger.txt")
        fn = {"dump": lambda: rt.FA._LDUMP(), "print": lambda: rt.FA._LDUMP(dataset=False), "file": lambda: rt.FA._LDUMPF(p),
              "tocf": rt.tocf, "tocfp": lambda: rt.tocf(dataset=False)}[k]
        r, text = printed(fn)
        if k == "file":
            text = open(p).read()
        if k in ("dump", "tocf"):
            if not rows:
                return
            if r is None or r.get_nrows() != len(rows):
                raise Violation("ledger-dump", "%s gives %s rows instead of %d" % (k, r is not None and r.get_nrows(), len(rows)))
            for col, key in (("Name", "UFuncName"), ("SubName", "USubName"), ("Time", "UDeltaTime"), ("Args1Len", "UArgs1Len"), ("Args1Type", "UArgs1Type"), ("Args", "UArgLen"),
                             ("ResultLen", "UResultLen"), ("ResultType", "UResultType")):
                got = [x.decode() if isinstance(x, bytes) else x for x in np.asarray(r[col]).tolist()]
                if got != [x[key] for x in rows]:
                    raise Violation("ledger-dump", "%s: column %s is %r" % (k, col, got[:5]))
            return
        lines = [x for x in text.split("\n") if "\t-->\t" in x]
        want = ["%s\t%d\t%s\t" % (x["UFuncName"], i, x["UDeltaTime"]) for i, x in enumerate(rows)]
        if len(lines) != len(want) or not all(a.startswith(b) for a, b in zip(lines, want)):
            raise Violation("ledger-dump", "%s shows %d rows instead of %d" % (k, len(lines), len(want)))
        tot = [float(x.split()[-1]) for x in text.split("\n") if x.startswith("--- TOTAL TIME")]
        if len(tot) != 1 or abs(tot[0] - sum(x["UDeltaTime"] for x in rows)) > 1e-6 * (1 + abs(tot[0])):
            raise Violation("ledger-time", "%s shows total time %r" % (k, tot))

    # ------------------------------------------------------------------------------------------ profiler
    def _profile(self, t, env):
        import riptable as rt

        for o in t["ops"]:
            _, k, n, op, fail, how = o
            here = os.path.basename(__file__)
            want = {"user_code": 1}
            if k:
                want["leaf"] = k
            if n is not None:
                want["fib"] = fib_calls(n)
            lines = {f.__name__: "%s:%d(%s)" % (here, f.__code__.co_firstlineno, f.__name__) for f in (user_code, leaf, fib)}
            env.event(k, n, op and op[0], fail, how)
            env.key("profile", k, n, op and op[0], how)
            rt.ticp()
            try:
                user_code(k, n, op)
                if fail:
                    raise ValueError("simulated failure of profiled code")
            except ValueError:
                env.fault("profiled-code-fails")
            if how[0] in ("find", "findfile"):
                r = rt.tocp(find=here if how[0] == "findfile" else "%s:%d" % (here, fib.__code__.co_firstlineno))
                got = {}
                for a, b in zip(np.asarray(r["function"]).tolist(), np.asarray(r["ncalls"]).tolist()):
                    a = a.decode() if isinstance(a, bytes) else a
                    got.setdefault(a, []).append(b)
                exp = {}
                if n is not None:
                    exp.setdefault(lines["user_code"], []).append(1)
                    if n > 1:
                        exp.setdefault(lines["fib"], []).append(want["fib"] - 1)
                if how[0] == "findfile" and k:
                    exp.setdefault(lines["user_code"], []).append(k)
                if how[0] == "findfile" and op:  # the operation has callers and callees in this file's functions too
                    got = {a: b for a, b in got.items() if a in exp}
                if {a: sorted(b) for a, b in got.items()} != {a: sorted(b) for a, b in exp.items()}:
                    raise Violation("profile-calls", "calls of fib(%r), leaf x%d by caller: %r, expected %r" % (n, k, got, exp))
                continue
            if how[0] == "stats":
                got = {e.code.co_name: e.callcount for e in rt.tocp(stats=True) if not isinstance(e.code, str) and e.code.co_filename == __file__}
                got = {a: b for a, b in got.items() if a in lines}
            elif how[0] in ("print", "print-full"):
                _, text = printed(rt.tocp, False, strip=how[0] == "print")
                got = {}
                for l in text.split("\n"):
                    m = re.match(r"\s*(\d+)(?:/\d+)?\s.*%s:\d+\((\w+)\)\s*$" % re.escape(here), l)
                    if m and m.group(2) in lines:
                        got[m.group(2)] = int(m.group(1))
            else:
                kw = {"calls": True} if how[0] == "calls" else {"sort": how[1]} if how[0] == "sort" else {"logfile": os.path.join(env.scratch, "prof.sds")} if how[0] == "log" else {}
                r = rt.tocp(**kw)
                got = self._prof(r, lines)
                key = how[1] if how[0] == "sort" else "tottime"
                v = np.asarray(r[key]).tolist()
                if v != sorted(v, reverse=True):
                    raise Violation("profile-order", "not sorted by %s" % key)
                again = self._prof(rt.tocp(), lines)
                if again != got:
                    raise Violation("profile-calls", "asking again gives %r, first %r" % (again, got))
                if how[0] == "log":
                    back = self._prof(rt.load_sds(kw["logfile"]), lines)
                    if back != got:
                        raise Violation("profile-calls", "the saved profile has %r instead of %r" % (back, got))
            if got != want:
                raise Violation("profile-calls", "%s: calls %r, expected %r" % (how, got, want))

    def _prof(self, r, lines):
        f = [x.decode() if isinstance(x, bytes) else x for x in np.asarray(r["function"]).tolist()]
        n = np.asarray(r["ncalls"]).tolist()
        return {k: n[f.index(v)] for k, v in lines.items() if v in f}


CHECK = P13()
