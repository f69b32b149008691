"""P01: what was saved last is what loads, after any history of saves, on any directory listing order."""
import os
import pathlib
import random

import numpy as np

from sim import values as V
from sim.core import Check, Violation, fork_call


def norm(s):
    """A nested Struct that holds only containers keeps no order of its own on disk (documented: no file is written for
    it), so its items are compared as a set."""
    if isinstance(s, tuple) and len(s) == 2 and s[0] == "Struct":
        items = [(k, norm(v)) for k, v in s[1]]
        if items and all(v[0] in ("Struct", "Dataset") for _k, v in items):
            items = sorted(items, key=lambda kv: kv[0])
            return ("Struct", "unordered", tuple(items))
        return ("Struct", tuple(items))
    return s


def norm_root(s):
    if isinstance(s, tuple) and len(s) == 2 and s[0] == "Struct":
        return ("Struct", tuple((k, norm(v)) for k, v in s[1]))
    return s


def rand_flat_struct(rng):
    """Struct whose containers are Datasets only (safe to overwrite in place)."""
    names = V.rand_names(rng, rng.randint(1, 6) if rng.random() < 0.96 else rng.randint(40, 90))
    small = len(names) > 9
    items = []
    for nm in names:
        r = rng.random()
        if small and r < 0.8:
            items.append([nm, V.rand_ds(rng, n=rng.choice([1, 2]), ncols=1)])
        elif r < 0.45:
            items.append([nm, V.rand_ds(rng)])
        elif r < 0.6:
            items.append([nm, V.rand_scalar(rng)])
        else:
            items.append([nm, V.rand_col(rng, rng.choice([0, 1, 3, 7]))])
    return {"k": "st", "items": items}


def gen_spec(rng, form):
    if form == "ds":
        return V.rand_ds(rng, ncols=None if rng.random() < 0.96 else rng.randint(30, 80))
    if form == "flat":
        return rand_flat_struct(rng)
    if form in ("deep", "one"):
        return V.rand_struct(rng, depth=2)
    if form == "arr":
        return V.rand_col(rng, rng.choice([1, 2, 5, 20]), [k for k in V.COL_KINDS if k != "mat"])
    if form == "plain":
        return V.rand_struct(rng, nested=False)
    raise KeyError(form)


class P01(Check):
    id = "P01"
    title = "Saved data loads back identical after any save history"
    configs = {"history": 0.6, "long": 0.15, "deep": 0.25}
    isolate = False
    quick_runs = 12000
    thorough_runs = 60000
    rule = ("one evaluation = one simulated history of saves/overwrites/section appends/loads on a scratch disk with seeded directory "
            "listing order; distinct = (sequence of storage forms, options and value kinds that were saved and loaded back)")
    components_real = ["riptable Python (rt_sds, rt_struct, rt_dataset, rt_categorical, rt_datetime, rt_meta)", "riptide_cpp SDS writer/reader",
                       "libc + tmpfs under the simio seam"]
    components_stub = ["directory listing order (seeded permutation)", "native worker pool (disabled: single-threaded I/O order)"]
    assumptions = ["local POSIX file system semantics", "uncompressed save of a container whose first array has zero rows: see fixed finding"]

    def gen(self, rng, cfg):
        nops = {"history": rng.randint(3, 8), "long": rng.randint(12, 24), "deep": rng.randint(2, 4)}[cfg]
        forms = {"f0": "ds", "f1": "ds", "p0": "plain", "a0": "arr", "d0": "flat", "d1": "flat", "o0": "one", "s0": "sec"}
        slots = list(forms)
        if cfg == "deep":
            slots = ["t%d" % i for i in range(3)] + ["o0", "d0"]
        rng.shuffle(slots)
        slots = slots[: rng.randint(1, 4)]
        ops = []
        used = set()
        for i in range(nops):
            s = rng.choice(slots)
            f = forms.get(s, "deep")
            if s in used and rng.random() < 0.45:
                ops.append({"op": "load", "slot": s, "form": f, "api": rng.choice(["load_sds", "cls", "noext", "path", "bytes", "threads", "list", "filter", "filter"]),
                            "inc": rng.random() < 0.2, "ls": rng.randrange(1, 1 << 30)})
                continue
            if f == "deep" and s in used:
                continue
            if f == "sec":
                base = ops and [o for o in ops if o.get("slot") == s and o["op"] == "save"]
                sp = base[0]["spec"] if base else V.rand_ds(rng, n=rng.choice([1, 2, 5]), labels=False, kinds=SEC_KINDS)
                sp = dict(sp, n=rng.choice([1, 2, 3, 7]), cols=[[nm, dict(c, s=rng.randrange(1 << 30))] for nm, c in sp["cols"]])
                ops.append({"op": "save", "slot": s, "form": f, "spec": sp, "kw": {"append": "sec%d" % i}, "api": "method"})
            else:
                kw = {}
                if rng.random() < 0.35:
                    kw["compress"] = False
                api = rng.choice(["method", "func", "path", "noext"])
                if (f == "ds" or api == "func") and rng.random() < 0.25:
                    kw["complevel"] = rng.choice([1, 3])
                if f == "one":
                    kw["onefile"] = True
                sp = gen_spec(rng, f)
                if f == "ds" and rng.random() < 0.3:
                    able = [nm for nm, c in sp["cols"] if c["k"] in SORTABLE and "st" not in c]
                    if able and sp["n"]:
                        sp = dict(sp, sv=rng.sample(able, min(len(able), rng.randint(1, 2))), asc=rng.random() < 0.7)
                ops.append({"op": "save", "slot": s, "form": f, "spec": sp, "kw": kw,
                            "api": api})
            used.add(s)
        return {"ops": ops, "dir": rng.choice(["", "", "", "arch.sds.d", "old.sdsx", "a b", "d\u00e9p\u00f4t", "v1.2"])}

    def shrink(self, t):
        yield from super().shrink(t)
        for i, o in enumerate(t["ops"]):
            if o["op"] == "save":
                sp = o["spec"]
                for key in ("cols", "items"):
                    xs = sp.get(key)
                    if xs and len(xs) > 1:
                        for j in range(len(xs)):
                            ops = list(t["ops"])
                            ops[i] = dict(o, spec=dict(sp, **{key: xs[:j] + xs[j + 1:]}))
                            yield dict(t, ops=ops)
                if o["kw"] and "append" not in o["kw"]:
                    ops = list(t["ops"])
                    ops[i] = dict(o, kw={k: v for k, v in o["kw"].items() if k == "onefile"})
                    yield dict(t, ops=ops)

    # ---------------------------------------------------------------------------------------------
    def run(self, trace, env):
        if trace.get("kf") in ("stale-nested-items", "sds-named-item"):
            try:
                self.run_(trace, env)
            except Violation as v:
                raise Violation(trace["kf"], v.detail)
        else:
            self.run_(trace, env)

    def run_(self, trace, env):
        import riptable as rt

        d = env.scratch
        if trace.get("dir"):
            d += "/" + trace["dir"]
            os.makedirs(d)
        env.disk.setup(d, list_seed=1)
        env.disk.arm()
        model, specs, secs, banded, views = {}, {}, {}, {}, {}
        sig = []

        def check(slot, form, api, inc, ls, rng):
            env.disk.lib.sim_listseed(ls)
            path = d + "/" + slot
            obj = specs[slot]
            want = model[slot]
            ext = ".sds" if form in ("ds", "plain", "arr", "one", "sec") else ""
            kw = {}
            names = filt = None
            sv = views.get(slot)
            if inc and form in ("ds", "plain", "flat") and want[-1] and (not sv or trace.get("kf")):
                names = [k for k, _ in want[-1]]
                names = names[: max(1, len(names) // 2)]
                kw["include"] = names
            try:
                if form == "sec":
                    r = rt.load_sds(path + ext, stack=True)
                    r = rt.Dataset({k: r[k] for k in r.keys()})
                elif api == "filter" and form == "ds" and not names and not any(getattr(obj[k], "ndim", 1) > 1 for k in obj.keys()) and obj.get_nrows():
                    m = np.random.RandomState(ls % 1000).rand(obj.get_nrows()) < 0.5
                    m[ls % len(m)] = True
                    r = rt.load_sds(path + ext, filter=m if ls & 1 else np.flatnonzero(m))
                    from . import storage as S

                    filt = (S.rows_snap(obj[m, :]), S.rows_snap(r))
                elif api == "cls" and form in ("ds", "flat", "deep", "plain"):
                    cls = rt.Dataset if form == "ds" else rt.Struct
                    r = cls.load(path + ext, **({"include": names} if names else {}))
                elif api == "path":
                    r = rt.load_sds(pathlib.Path(path + ext), **kw)
                elif api == "bytes":
                    r = rt.load_sds((path + ext).encode(), **kw)
                elif api == "threads":
                    r = rt.load_sds(path + ext, threads=2, **kw)
                elif api == "list" and form == "ds" and not names:
                    r = rt.load_sds([path + ext, path + ext])
                    if not isinstance(r, list) or len(r) != 2 or V.snap(r[0]) != V.snap(r[1]):
                        raise Violation("list-load-differs", "loading the same file twice in one list gave %r" % type(r))
                    r = r[1]
                elif api == "noext" and form in ("flat", "deep"):
                    r = rt.load_sds(path, **kw)
                else:
                    r = rt.load_sds(path + ext, **kw)
            except Violation:
                raise
            except Exception as e:
                raise Violation("load-raised", "load of %s (%s, api=%s) raised %s: %s" % (slot, form, api, type(e).__name__, e))
            got = V.snap(r)
            if filt is not None:
                want2, got2 = filt
            elif form == "sec":
                from . import storage as S

                want2, got2 = want, S.rows_snap(r)
            elif names is not None:
                got2 = got
                if form != "ds":  # items of a Struct that were left out appear as None
                    got2 = ("Struct", tuple(kv for kv in got[1] if kv[1][0] != "NoneType"))
                    want2 = ("Struct", tuple((k, norm(v)) for k, v in want[1] if k in names or form == "flat" and not isinstance(obj[k], rt.Struct) and k in dict(got2[1])))
                    got2 = norm_root(got2)
                else:
                    # an include list returns the named columns; labels are kept when all still present
                    want2 = (want[0], want[1], want[2] if all(x in names for x in want[2]) else got[2], tuple(kv for kv in want[3] if kv[0] in names))
            else:
                want2, got2 = norm_root(want), norm_root(got)
            df = V.diff(want2, got2)
            if df:
                raise Violation("wrong-data-banded" if banded.get(slot) else "wrong-data", "load of %s (%s, api=%s, include=%s): %s" % (slot, form, api, names, df))
            if sv and names is None and filt is None:
                # the sorted view is saved with the data
                obj.sorts_on()
                r.sorts_on()
                a, b = repr(obj), repr(r)
                if a != b:
                    raise Violation("sorted-view", "the sorted view %s of %s displays\n%s\nafter loading:\n%s" % (sv, slot, a[:600], b[:600]))
            return got

        if trace.get("kf") == "sorted-include-crash":
            check0, trace = check, dict(trace)

            def check(*a):
                st, _ = fork_call(lambda: check0(*a) and 1, 60)
                if st != "ok":
                    raise Violation("sorted-include-crash", st)
                return ()

        for i, o in enumerate(trace["ops"]):
            rng = random.Random(i)
            slot, form = o["slot"], o["form"]
            if o["op"] == "save":
                obj = V.build(o["spec"])
                before = V.snap(obj)
                path = d + "/" + slot
                ext = ".sds" if form in ("ds", "plain", "arr", "one", "sec") else ""
                kw = dict(o["kw"])
                has_nest = any(v["k"] in ("ds", "st") for _k, v in o["spec"].get("items", []))
                if form in ("flat", "deep") and not has_nest:
                    # no containers inside: riptable writes a single file
                    slot = slot + "_f"
                    path, ext, form = d + "/" + slot, ".sds", "plain"
                p = path + ext
                if o["api"] == "path":
                    p = pathlib.Path(p)
                elif o["api"] == "noext":
                    p = path
                if form == "deep" and slot in model and trace.get("kf") != "stale-nested-items":
                    continue
                try:
                    if form == "arr" or o["api"] == "func":
                        rt.save_sds(p, obj, **kw)
                    else:
                        obj.save(p, **kw)
                except Exception as e:
                    raise Violation("save-raised", "save of %s (%s %s) raised %s: %s" % (slot, form, kw, type(e).__name__, e))
                df = V.diff(before, V.snap(obj))
                if df:
                    raise Violation("save-changed-object", "saving %s changed the object in memory: %s" % (slot, df))
                specs[slot] = obj
                banded[slot] = "bandsize" in kw
                views[slot] = o["spec"].get("sv")
                if form == "sec":
                    secs.setdefault(slot, []).append(obj)
                    from . import storage as S

                    model[slot] = S.rows_concat(secs[slot])
                else:
                    model[slot] = before
                sig.append(("s", form, kw.get("compress"), kw.get("bandsize"), tuple(sorted(kinds_of(o["spec"])))[:6]))
                env.event("save", slot, form, sorted(kw))
            else:
                if form in ("flat", "deep") and slot not in model and slot + "_f" in model:
                    slot, form = slot + "_f", "plain"
                if slot not in model:
                    continue
                got = check(slot, form, o["api"], o["inc"], o["ls"], rng)
                sig.append(("l", form, o["api"]))
                env.event("load", slot, hash_snap(got))
        # at the end everything on the disk is still what was saved last, for two different listing orders
        for slot in sorted(model):
            form = ("plain" if slot.endswith("_f") else {"f": "ds", "p": "plain", "a": "arr", "d": "flat", "o": "one", "s": "sec", "t": "deep"}[slot[0]])
            g1 = check(slot, form, "load_sds", False, 12345, random.Random(0))
            g2 = check(slot, form, "load_sds", False, 777, random.Random(0))
            if g1 != g2:
                raise Violation("listing-order", "load of %s depends on the directory listing order: %s" % (slot, V.diff(g1, g2)))
            env.event("final", slot, hash_snap(g1))
            env.probe("final-loads")
        left = env.disk.open_fds()
        if left:
            raise Violation("leaked-handle", "files left open: %s" % left)
        env.disk_events()
        env.key(tuple(sig))
        env.steps += len(trace["ops"])
        if any(x[0] == "l" for x in sig):
            env.probe("mid-history-loads")
        if len({o["slot"] for o in trace["ops"] if o["op"] == "save"}) < sum(1 for o in trace["ops"] if o["op"] == "save"):
            env.probe("overwrites-or-appends")


SORTABLE = ["bool", "int8", "int16", "int32", "int64", "float64", "float32", "S", "U", "dtn", "date", "cat"]
SEC_KINDS = ["bool", "int32", "int64", "float64", "float32", "S", "cat", "dtn", "ts", "date"]


def kinds_of(spec):
    out = {spec["k"]}
    for key in ("cols", "items"):
        for _n, c in spec.get(key, []):
            out |= kinds_of(c)
    return out


def hash_snap(s):
    import hashlib

    return hashlib.md5(repr(s).encode("utf8", "replace")).hexdigest()


def _vals(o):
    import numpy as np
    import riptable as rt

    if isinstance(o, rt.Categorical):
        return [x for x in o.expand_array.tolist()]
    return V._arr(o._fa if hasattr(o, "_fa") else o)


CHECK = P01()
