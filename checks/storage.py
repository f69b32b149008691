"""Shared storage workload pieces for the disk checks."""
import os
import random
import shutil

from sim import values as V
from sim.core import Violation, fork_call

EXT = {"ds": ".sds", "plain": ".sds", "arr": ".sds", "one": ".sds", "sec": ".sds", "flat": "", "deep": ""}


def item_path(root, slot, form):
    return root + "/" + slot + EXT[form]


def gen_item(rng, form, n=None):
    from .p01 import gen_spec, SEC_KINDS

    if form == "sec":
        return V.rand_ds(rng, n=rng.choice([1, 2, 5]), labels=False, kinds=SEC_KINDS)
    sp = gen_spec(rng, form)
    if form in ("flat", "deep") and not any(v["k"] in ("ds", "st") for _n, v in sp["items"]):
        sp["items"].append(["zz", V.rand_ds(rng)])
    return sp


def reseed(rng, sp):
    """Another value with the same shape (columns and types), different rows."""
    if sp["k"] == "ds":
        return dict(sp, n=rng.choice([1, 2, 3, 7]), cols=[[nm, dict(c, s=rng.randrange(1 << 30))] for nm, c in sp["cols"]])
    return sp


def save_item(root, slot, form, spec, kw=None, obj=None):
    import riptable as rt

    o = V.build(spec) if obj is None else obj
    kw = dict(kw or {})
    if form == "one":
        kw["onefile"] = True
    p = item_path(root, slot, form)
    if form == "arr":
        rt.save_sds(p, o, **kw)
    else:
        o.save(p, **kw)
    return o


def load_item(root, slot, form):
    import riptable as rt

    p = item_path(root, slot, form)
    if form == "sec":
        return rt.load_sds(p, stack=True)
    return rt.load_sds(p)


def colvals(c):
    """A column as comparable per-row values (class, list)."""
    import numpy as np
    import riptable as rt

    if isinstance(c, rt.Categorical):
        e = c.expand_array
        if isinstance(e, tuple):
            return ("Cat", [tuple(x) for x in zip(*[list(np.asarray(a).tolist()) for a in e])])
        return ("Cat", [x.decode() if isinstance(x, bytes) else x for x in np.asarray(e).tolist()])
    if isinstance(c, rt.DateTimeNano):
        return ("DTN:" + str(c._timezone._to_tz), np.asarray(c._fa).tolist())
    if isinstance(c, (rt.Date, rt.DateSpan, rt.TimeSpan)):
        return (type(c).__name__, ["nan" if x != x else x for x in np.asarray(c._fa).tolist()])
    a = np.asarray(c)
    if a.dtype.kind == "f":
        return ("f", ["nan" if x != x else x for x in a.ravel().tolist()])
    return (a.dtype.kind, a.ravel().tolist())


def rows_snap(ds):
    """Dataset by column values, partition- and category-layout-free."""
    return tuple((k, repr(colvals(ds[k]))) for k in ds.keys())


def rows_concat(list_of):
    import itertools

    out = []
    for k in list_of[0].keys():
        kind = colvals(list_of[0][k])[0]
        out.append((k, repr((kind, list(itertools.chain(*[colvals(d[k])[1] for d in list_of]))))))
    return tuple(out)


def count_ops(env, fn, root, tag="dry"):
    """Run fn(copy_of_root) in a forked child without faults; returns (status, events)."""
    twin = env.scratch + "/" + tag
    shutil.copytree(root, twin, symlinks=True)

    def go():
        env.disk.setup(twin, shmdir=twin + "/shm" if os.path.isdir(twin + "/shm") else None, list_seed=7)
        env.disk.arm()
        try:
            fn(twin)
            ok = True
            msg = ""
        except Exception as e:
            ok = False
            msg = "%s: %s" % (type(e).__name__, e)
        ev = env.disk.events()
        env.disk.disarm()
        return {"ok": ok, "msg": msg, "events": ev}

    st, r = fork_call(go, 60)
    shutil.rmtree(twin, ignore_errors=True)
    return st, r


def count_ops_in(env, attempt, d, ls):
    """Run attempt() in a forked child and put directory d back as it was; the caller reads the calls it made."""
    bk = env.scratch + "/bk"
    shutil.copytree(d, bk)
    st, r = fork_call(attempt, 60)
    shutil.rmtree(d)
    os.rename(bk, d)
    return st, r
