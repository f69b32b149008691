"""P08: threads under a seeded scheduler get the results they would get alone."""
import os
import random

from sim.core import Check, Violation
from sim.sched import Deadlock, Sched, StepLimit
from sim.values import diff, snap

from . import ops
from .ambient import ambient, diff_ambient, watch_recycle

SHARED_KINDS = ["cat", "cat", "catm", "catn", "catb", "cate", "gb", "gb2", "acc", "grp", "ds", "pds", "st", "dtn", "date", "str", "fa", "ms", "two"]
# displaying a Struct (and the long-form display properties) switches a process-wide display option for the
# duration of the call: see KF9; these run in the dedicated known-finding trace only
STRUCT_DISPLAY = {"st.s_text", "st.s_html", "ms.ms_text", "ds.tree_text"}

# Categorical display sets numpy's process-wide print options for the duration of the call (KF10): Categorical text
# and text that numpy formats do not run in the same random run
CAT_TEXT = {n for n in ops.OPS if n.endswith(".c_text")}
NUMPY_TEXT = {n for n in ops.OPS if n.split(".")[1] in ("f_text", "t_misc", "d_text", "e_parts", "s_parts")}

SLOW = {"st.s_pickle"}  # unpickling a Struct recurses to the interpreter's limit: 1000s of steps of no interest


def result_of(o, name, seed):
    """Run one operation -> ('ok', snapshot) or ('exc', type name)."""
    try:
        v = ops.OPS[name].fn(o, random.Random(seed))
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:200])
    return ("val", v)


def freeze(res):
    if res[0] == "exc":
        return ("exc", res[1])
    v = res[1]
    return ("ok", snap(v) if isinstance(v, (list, tuple)) else ops.state(v))


class P08(Check):
    id = "P08"
    title = "Concurrent threads get the results they would get alone"
    configs = {"shared": 0.6, "own": 0.25, "files": 0.15}
    isolate = True
    quick_runs = 2200
    thorough_runs = 60000
    quick_wall = 200
    rule = "distinct (objects, programs, realised preemption list) of runs with at least one context switch inside riptable code"
    components_real = ["all of riptable's Python code", "riptide_cpp (native worker threads off)", "CPython threads, one running at a time"]
    components_stub = ["thread scheduling: seeded baton passing at line, call and return events of riptable code", "locks created by riptable: SimLock/SimRLock"]
    assumptions = ["preemption happens between Python bytecodes of riptable code, as with the GIL; native calls are atomic",
                   "the two calls are read-only for the shared object; programs that edit a shared object are not generated"]
    list_fields = ("preempt",)

    def setup(self):
        import riptable as rt

        watch_recycle()
        rt.TypeRegister.DisplayTable.FORCE_REPR = True  # html display then does not switch the detected display mode
        for nm in ("ds.merge_lookup", "str.t_case", "str.t_find", "str.t_sub", "str.t_extract", "str.t_regex", "two.j_merge2", "two.j_lookup", "ds.gb_cum", "cat.c_transform"):
            for sd in range(6):
                op = ops.OPS[nm]
                result_of(ops.make(op.kind, sd), nm, sd)

    def gen(self, rng, cfg):
        nt = rng.choice([2, 2, 2, 3])
        t = {"gran": "call" if rng.random() < 0.4 else "line", "p": rng.choice([0.003, 0.01, 0.03, 0.1, 0.3, 0.5]), "sseed": rng.randrange(1 << 30),
             "first": rng.randrange(nt)}
        if cfg == "shared":
            kind = rng.choice(SHARED_KINDS)
            t["obj"] = [kind, rng.randrange(1 << 20)]
            names = [n for n, o in ops.OPS.items() if o.kind == kind and not o.mut and n not in STRUCT_DISPLAY and n not in SLOW]
            focus = rng.random() < 0.5
            pool = rng.sample(names, min(len(names), 2)) if focus else names
            t["progs"] = [[[rng.choice(pool), rng.randrange(1000)] for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(nt)]
            if focus and rng.random() < 0.5:  # the same call in every thread
                t["progs"] = [t["progs"][0]] * nt
        elif cfg == "own":
            names = [n for n in ops.OPS if n not in STRUCT_DISPLAY and n not in SLOW]
            if rng.random() < 0.5:
                k = rng.choice(SHARED_KINDS)
                names = [n for n in names if ops.OPS[n].kind == k] or names
            drop = CAT_TEXT if rng.random() < 0.7 else NUMPY_TEXT
            names = [n for n in names if n not in drop] or names
            t["progs"] = [[[rng.choice(names), rng.randrange(1000), rng.randrange(1 << 20)] for _ in range(rng.choice([1, 2, 3]))] for _ in range(nt)]
        else:
            progs = []
            for i in range(nt):
                pr = []
                for j in range(rng.choice([1, 2])):
                    pr.append([rng.choice(["ds", "ds", "st", "pds", "cat", "fa", "two"]), rng.randrange(1 << 20), rng.choice(["save_load", "save_load", "load_info", "concat", "stack", "onefile"])])
                progs.append(pr)
            t["progs"] = progs
        return t

    def shrink(self, t):
        progs = t["progs"]
        for i in range(len(progs)):
            if len(progs) > 1:
                yield dict(t, progs=progs[:i] + progs[i + 1:])
            for j in range(len(progs[i])):
                if len(progs[i]) > 1:
                    yield dict(t, progs=progs[:i] + [progs[i][:j] + progs[i][j + 1:]] + progs[i + 1:])
        if "preempt" in t:
            yield from super().shrink(t)

    # ------------------------------------------------------------------------------------------------ run
    def run(self, t, env):
        cfg = t["cfg"]
        progs = t["progs"]
        before = ambient()
        obj = None
        if cfg == "shared":
            obj = ops.make(*t["obj"])
            expect = [[freeze(result_of(ops.make(*t["obj"]), nm, sd)) for nm, sd in pr] for pr in progs]
            want_state = ops.state(ops.make(*t["obj"]))
            fns = [self._task(pr, lambda nm, sd: result_of(obj, nm, sd)) for pr in progs]
        elif cfg == "own":
            expect = [[freeze(result_of(ops.make(ops.OPS[nm].kind, os_), nm, sd)) for nm, sd, os_ in pr] for pr in progs]
            objs = [[ops.make(ops.OPS[nm].kind, os_) for nm, sd, os_ in pr] for pr in progs]
            fns = [self._own(pr, ob) for pr, ob in zip(progs, objs)]
        else:
            expect = [[freeze(self._files(env, "e%d_%d" % (i, j), *step)) for j, step in enumerate(pr)] for i, pr in enumerate(progs)]
            fns = [self._filetask(env, i, pr) for i, pr in enumerate(progs)]
        kw = {"preempt": t["preempt"]} if "preempt" in t else {"rng": random.Random(t["sseed"]), "p": t["p"]}
        s = Sched(fns, gran=t["gran"], first=t["first"], max_steps=3000000, **kw)
        try:
            res = s.run()
        except Deadlock as e:
            raise Violation("deadlock", str(e))
        except StepLimit as e:
            raise Violation("no-progress", str(e))
        finally:
            env.realised = {"preempt": s.realised}
            env.steps += s.step
        switches = len([1 for k, _ in s.realised if 0 <= k < 10**9])
        env.fault("preemption", switches)
        env.probe("lock-waits", s.lock_waits)
        if switches:
            env.key(t.get("obj"), progs, s.realised)
        for i, (st, v) in enumerate(res):
            if st != "ok":
                raise Violation("harness-task" if st == "abort" else "task-error", repr(v))
        for i, (st, vals) in enumerate(res):
            for j, rv in enumerate(vals):
                got = freeze(rv)
                env.event("res", i, j, got)
                if got != expect[i][j]:
                    k = t.get("kf") or "thread-result"
                    raise Violation(k, "%s thread %d step %s: alone %s; %s" % (cfg, i, progs[i][j], diff(expect[i][j], got), rv[1:] if rv[0] == "exc" else ""))
        if obj is not None:
            now = ops.state(obj)
            if now != want_state:
                raise Violation("shared-object-changed", diff(want_state, now))
            for i, pr in enumerate(progs):
                for j, (nm, sd) in enumerate(pr):
                    got = freeze(result_of(obj, nm, sd))
                    if got != expect[i][j]:
                        raise Violation("shared-object-stale", "%s after the threads: %s" % (nm, diff(expect[i][j], got)))
        d = diff_ambient(before, ambient())
        if d:
            raise Violation(t.get("kf") or "settings-changed", "; ".join(d))

    def _task(self, pr, call):
        def f():
            return [call(nm, sd) for nm, sd in pr]
        return f

    def _own(self, pr, objs):
        def f():
            return [result_of(o, nm, sd) for o, (nm, sd, _) in zip(objs, pr)]
        return f

    def _filetask(self, env, i, pr):
        def f():
            return [self._files(env, "t%d_%d" % (i, j), *step) for j, step in enumerate(pr)]
        return f

    def _files(self, env, tag, kind, seed, how):
        import riptable as rt

        base = os.path.join(env.scratch, tag)
        try:
            o = ops.make(kind, seed)
            if how == "onefile" and isinstance(o, rt.Struct) and not isinstance(o, rt.Dataset):
                rt.save_sds(base, o, onefile=True)
                return ("val", rt.load_sds(base + ".sds"))
            if how in ("stack", "concat"):
                d1, d2 = ops.make("ds", seed), ops.make("ds", seed)
                rt.save_sds(base + "_1", d1)
                rt.save_sds(base + "_2", d2)
                if how == "stack":
                    r = rt.load_sds([base + "_1.sds", base + "_2.sds"], stack=True)
                    return ("val", rt.Dataset({k: r[k] for k in r}))
                rt.sds_concat([base + "_1.sds", base + "_2.sds"], base + "_o.sds")
                return ("val", rt.load_sds(base + "_o.sds"))
            rt.save_sds(base, o)
            if how == "threads":  # known finding only: the thread count is saved and restored per call, not per thread
                return ("val", rt.load_sds(base, threads=2 + seed % 5))
            if how == "load_info":
                rt.sds_info(base + ".sds" if not os.path.isdir(base) else base)
            return ("val", rt.load_sds(base))
        except Exception as e:
            return ("exc", type(e).__name__, str(e)[:200])


CHECK = P08()
