"""P12: cached derived data (groupings, expanded categories, sort orders, string accessors) never goes stale.

warm   a seeded history of operations of the catalogue on one object; every reading operation must give the answer a
       fresh object gives that went through the edits only (no reads, so nothing is cached)
enum   the same for a Categorical with a code-to-name mapping
cat    a seeded history of edits and reads of a Categorical against a value model (row values, category list), every
       read also against a Categorical built from scratch from the model
view   sorted views of Datasets against freshly built ones, with colliding time-stamp counters
str    string accessors that are kept while the strings change
"""
import gc
import random
import warnings

import numpy as np

from sim import values as V
from sim.core import Check, Violation
from sim.values import diff, snap

from . import ops

WORDS = ["aa", "b", "cc", "dd", "e", "IBM", "longer name"]
# returns the mapping of the Categorical itself
LIVE = {"cate.w_enum"}


def arrays_of(o, out=None, depth=0):
    """Every numpy array reachable through riptable containers."""
    import riptable as rt

    out = [] if out is None else out
    if depth > 6:
        return out
    if isinstance(o, np.ndarray):
        out.append(o)
        if isinstance(o, rt.Categorical):
            for a in o.category_dict.values() if not o.isenum else ():
                out.append(a)
    elif isinstance(o, rt.Struct):
        for v in o.values():
            arrays_of(v, out, depth + 1)
        if isinstance(o, rt.GroupBy) and getattr(o, "_dataset", None) is not None:
            arrays_of(o._dataset, out, depth + 1)
    elif isinstance(o, (list, tuple)):
        for v in o:
            arrays_of(v, out, depth + 1)
    elif isinstance(o, dict):
        for v in o.values():
            arrays_of(v, out, depth + 1)
    elif isinstance(o, rt.Grouping):
        for nm in ("ikey",):
            a = getattr(o, nm)
            if a is not None:
                out.append(a)
    return out


def shares(res, obj):
    base = [a for a in arrays_of(obj) if a.nbytes]
    for a in arrays_of(res):
        if a.nbytes and any(np.may_share_memory(a, b) for b in base):
            return True
    return False


def has_groupby(v):
    import riptable as rt

    return isinstance(v, rt.GroupBy) or isinstance(v, (list, tuple)) and any(has_groupby(x) for x in v)


def freeze(v):
    return snap(v) if isinstance(v, (list, tuple, dict)) else ops.state(v)


def outcome(fn, o, sd):
    try:
        v = fn(o, random.Random(sd))
    except Exception as e:
        return ("raises", type(e).__name__, str(e)[:200]), None
    return ("ok", freeze(v)), v


def s_(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def lst(a):
    """Array as plain values: strings as str, floats rounded, NaN as None."""
    a = np.asarray(a)
    if a.dtype.kind in "SUO":
        return [s_(x) for x in a.tolist()]
    if a.dtype.kind == "f":
        return [None if x != x else round(x, 9) for x in a.tolist()]
    if a.dtype.kind == "i" and a.dtype.itemsize > 1 or a.dtype == np.int8:
        m = np.iinfo(a.dtype).min
        return ["inv" if x == m else x for x in a.tolist()]
    return a.tolist()


# ------------------------------------------------------------------------------------------------ reads of a Categorical
def _x(c):
    import riptable as rt

    return rt.FA((np.arange(len(c)) * 7 % 11).astype("float64"))


def _f(c, k):
    import riptable as rt

    return rt.FA((np.arange(len(c)) * 5 + k) % 3 != 0)


def _tab(ds):
    lab = ds.label_get_names() or []
    return [("label" if k in lab else k, lst(ds[k])) for k in ds.keys()]


def _vals(c):
    return lst(c.expand_array)


READS = {
    "count": lambda c, k: _tab(c.count()),
    "count_f": lambda c, k: _tab(c.count(filter=_f(c, k))),
    "sum": lambda c, k: _tab(c.sum(_x(c))),
    "sum_f": lambda c, k: _tab(c.sum(_x(c), filter=_f(c, k))),
    "mean": lambda c, k: _tab(c.nanmean(_x(c))),
    "minmax": lambda c, k: (_tab(c.min(_x(c))), _tab(c.nanmax(_x(c)))),
    "first": lambda c, k: _tab(c.first(_x(c))),
    "last_f": lambda c, k: _tab(c.last(_x(c), filter=_f(c, k))),
    "nth": lambda c, k: _tab(c.nth(_x(c), 1)),
    "median": lambda c, k: _tab(c.median(_x(c))),
    "median_f": lambda c, k: _tab(c.median(_x(c), filter=_f(c, k))),
    "cumsum": lambda c, k: _tab(c.cumsum(_x(c))),
    "cumsum_f": lambda c, k: _tab(c.cumsum(_x(c), filter=_f(c, k))),
    "rolling": lambda c, k: _tab(c.rolling_sum(_x(c), window=2)),
    "transform": lambda c, k: _tab(c.sum(_x(c), transform=True)),
    "apply": lambda c, k: _tab(c.apply_reduce(lambda v: np.asarray(v).sum(), _x(c))),
    "apply_f": lambda c, k: _tab(c.apply_reduce(lambda v: np.asarray(v).sum(), _x(c), filter=_f(c, k))),
    "applynr": lambda c, k: _tab(c.apply_nonreduce(lambda v: v * 2, _x(c))),
    "expand": lambda c, k: _vals(c),
    "cats": lambda c, k: [lst(c.category_array), c.unique_count],
    "catdict": lambda c, k: [lst(v) for v in c.category_dict.values()],
    "ikey": lambda c, k: lst(c.ikey),
    "firstkey": lambda c, k: [lst(c.ifirstkey), lst(c.ilastkey)],
    "fancy": lambda c, k: [lst(c.first_fancy), lst(c.last_fancy), lst(c.first_bool), lst(c.last_bool)],
    "groupings": lambda c, k: [(n, lst(a)) for n, a in c.get_groupings().items()],
    "groupings_f": lambda c, k: [(n, lst(a)) for n, a in c.get_groupings(filter=_f(c, k)).items()],
    "groups": lambda c, k: sorted((s_(a), lst(b)) for a, b in c.groups.items()),
    "ncount": lambda c, k: [lst(c.grouping.ncountgroup), lst(c.grouping.igroup), lst(c.grouping.ifirstgroup)],
    "nextprev": lambda c, k: [lst(c.grouping.inextkey), lst(c.grouping.iprevkey)],
    "isfiltered": lambda c, k: [lst(c.isfiltered()), lst(c.isnan())],
    "eq": lambda c, k: lst(c == WORDS[k % 4]) if WORDS[k % 4] in lst(c.category_array) else None,
    "isin": lambda c, k: lst(c.isin(WORDS[:2])),
    "upper": lambda c, k: _vals(c.str.upper),
    "strlen": lambda c, k: lst(c.str.strlen),
    "contains": lambda c, k: lst(c.str.contains("b")),
    "as_str": lambda c, k: lst(c.as_string_array),
    "items": lambda c, k: [s_(c[i]) for i in range(len(c))],
    "text": lambda c, k: str(c),
    "nunique": lambda c, k: c.nunique(),
    "gb": lambda c, k: _tab(_ds(c).gb("c").sum()),
    "gbu": lambda c, k: sorted(zip(*[v for _n, v in _tab(_ds(c).gbu("c").count())])),
    "onehot": lambda c, k: [lst(a) for a in c.one_hot_encode()[1]],
    "copycount": lambda c, k: _tab(c.copy().count()),
    "slicecount": lambda c, k: _tab(c[: len(c) // 2 + 1].count()),
    "fancycount": lambda c, k: _tab(c[np.arange(len(c))[::-1].copy()].count()),
    "hstack": lambda c, k: _vals(_hs(c)),
    "agg": lambda c, k: _tab(c.agg(["sum", "min"], _x(c))) if False else _tab(c.max(_x(c))),
    "map": lambda c, k: lst(c.map({"aa": "zz", "b": "yy"}, invalid="?")),
    "mapping": lambda c, k: sorted((s_(v), int(i)) for i, v in enumerate(lst(c.category_array))),
    "accum2": lambda c, k: _acc(c),
    "ecats": lambda c, k: [sorted(lst(c.category_array)), c.unique_count],
    "eacc": lambda c, k: sorted(zip(*[v for _n, v in _acc(c)])),
    "shift": lambda c, k: _vals(c.shift_cat(1)),
    "regroup": lambda c, k: lst(c.grouping.regroup().ikey),
    "meta": lambda c, k: [c.base_index, len(c), c.isenum, c.ismultikey],
}


def _ds(c):
    import riptable as rt

    return rt.Dataset({"c": c, "x": _x(c)})


def _hs(c):
    import riptable as rt

    return rt.hstack([c, c.copy()])


def _acc(c):
    import riptable as rt

    ds = rt.Accum2(c, rt.Cat(np.arange(len(c)) % 2)).sum(_x(c))
    return [(k if i else "label", lst(ds[k])) for i, k in enumerate(ds.keys())]


class P12(Check):
    id = "P12"
    title = "Cached derived data never goes stale"
    configs = {"warm": 0.40, "cat": 0.30, "enum": 0.12, "view": 0.11, "str": 0.07}
    isolate = True
    quick_runs = 6000
    thorough_runs = 300000
    quick_wall = 120
    rule = "distinct (object kind, pair of an operation and a later reading operation on the same object)"
    components_real = ["all of riptable's Python code", "riptide_cpp (native worker threads off)", "numpy"]
    components_stub = ["time-stamp counter that identifies containers (seeded: distinct, colliding or constant)"]
    assumptions = ["a view of an object shares its data: results that share memory with the object follow its edits",
                   "Categorical.category_remove: known finding", "the keys of a Grouping or GroupBy are not edited after it was built"]
    list_fields = ("ops",)

    def setup(self):
        for nm, op in ops.OPS.items():
            for sd in range(2):
                try:
                    op.fn(ops.make(op.kind, sd), random.Random(sd))
                except Exception:
                    pass

    # ------------------------------------------------------------------------------------------------ generate
    def gen(self, rng, cfg):
        t = {"tsc": rng.choice(["real", "same", "few"])}
        if cfg == "warm":
            kind = rng.choice(ops.KINDS + ["cat", "catm", "catn", "catb", "gb", "grp", "ds"])
            reads = [n for n, o in ops.OPS.items() if o.kind == kind and not o.mut and not o.io]
            muts = [n for n, o in ops.OPS.items() if o.kind == kind and o.mut and not o.io]
            t["obj"] = [kind, rng.randrange(1 << 20)]
            p = 0.25 if rng.random() < 0.7 else 0.0
            t["ops"] = [[rng.choice(muts) if muts and rng.random() < p else rng.choice(reads), rng.randrange(1000)] for _ in range(rng.randint(3, 9))]
            return t
        if cfg == "cat":
            n = rng.choice([1, 2, 4, 7, 12])
            m = rng.randint(1, 4)
            t["cats"] = WORDS[:m]
            t["base"] = rng.choice([1, 1, 0])
            t["u"] = rng.random() < 0.4
            t["how"] = rng.choice(["values", "codes"])
            lo = 0 if t["base"] == 0 else (0 if t["how"] == "codes" else 1)
            t["codes"] = [rng.randint(lo, m - 1 + t["base"]) for _ in range(n)]
            o = []
            for _ in range(rng.randint(3, 12)):
                if rng.random() < 0.55:
                    o.append(["read", rng.choice(sorted(set(READS) - {"ecats", "eacc"})), rng.randrange(100)])
                else:
                    o.append([rng.choice(EDITS), rng.randrange(1000), rng.randrange(1000)])
            t["ops"] = o
            return t
        if cfg == "enum":
            n = rng.choice([1, 2, 4, 7, 12])
            codes = rng.sample([1, 2, 3, 10, 20, 30, 44, -3, 0, 127], rng.randint(1, 4))
            t["map"] = [[k, w] for k, w in zip(codes, WORDS)]
            t["codes"] = [rng.choice(codes + [5]) if rng.random() < 0.2 else rng.choice(codes) for _ in range(n)]
            t["dt"] = rng.choice(["int64", "int32", "int8"])
            t["how"] = rng.choice(["dict", "dict", "enum"])
            o = []
            for _ in range(rng.randint(3, 12)):
                if rng.random() < 0.5:
                    o.append(["read", rng.choice(EREADS), rng.randrange(100)])
                else:
                    o.append([rng.choice(EEDITS), rng.randrange(1000), rng.randrange(1000)])
            t["ops"] = o
            return t
        if cfg == "view":
            t["n"] = rng.choice([1, 3, 6, 10])
            t["s"] = rng.randrange(1 << 20)
            o = [["view", rng.randrange(1000), rng.randrange(2)]]
            for _ in range(rng.randint(3, 10)):
                k, j = rng.choice(["view", "view", "show", "edit", "edit", "edit", "retype", "swap", "permute", "filter", "copy", "other", "gc", "rename", "on", "rowset", "off"]), rng.randrange(2)
                o.append([k, rng.randrange(1000), j])
                if rng.random() < 0.6:
                    o.append(["show", 0, j])
            t["ops"] = o
            return t
        t["n"] = rng.choice([1, 3, 6])
        t["u"] = rng.random() < 0.5
        t["s"] = rng.randrange(1 << 20)
        t["ops"] = [[rng.choice(["hold", "drop", "read", "read", "set", "set", "gc"]), rng.randrange(1000)] for _ in range(rng.randint(4, 14))]
        return t

    # ------------------------------------------------------------------------------------------------ run
    def run(self, t, env):
        import riptable.rt_groupby as rg
        import riptable.rt_struct as rs

        real = rs.GetTSC
        cnt = [0]

        def tsc():
            cnt[0] += 1
            return 7 if t["tsc"] == "same" else (cnt[0] * 7919) % 3 if t["tsc"] == "few" else 1000 + cnt[0]

        rs.GetTSC = rg.GetTSC = tsc
        if t["tsc"] != "real":
            env.fault("counter-collision")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                getattr(self, "_" + t["cfg"])(t, env)
        finally:
            rs.GetTSC = rg.GetTSC = real

    def _warm(self, t, env):
        kind, oseed = t["obj"]
        warm = ops.make(kind, oseed)
        muts, held, prev = [], [], []
        for nm, sd in t["ops"]:
            op = ops.OPS[nm]
            if op.mut:
                (a, _v) = outcome(op.fn, warm, sd)
                muts.append((op, sd))
                env.event("edit", nm, a[0])
                env.probe("edits")
                prev.append(nm)
                continue
            cold = ops.make(kind, oseed)
            for m, msd in muts:
                outcome(m.fn, cold, msd)
            want, _ = outcome(op.fn, cold, sd)
            got, v = outcome(op.fn, warm, sd)
            env.event("read", nm, got[0])
            for p in prev[-3:]:
                env.key(kind, p, nm)
            prev.append(nm)
            d = diff(want, got)
            if d:
                raise Violation("stale-answer", "%s after %s: a fresh object with the same edits differs: %s" % (nm, prev[:-1], d))
            if v is not None and got[0] == "ok" and nm not in LIVE and not has_groupby(v) and not shares(v, warm):
                held.append((nm, v, got[1]))
        for nm, v, s in held:
            d = diff(s, freeze(v))
            if d:
                raise Violation("result-changed", "the result of %s changed after %s: %s" % (nm, prev, d))

    # ------------------------------------------------------------------------------------------------ Categorical model
    def _build(self, rows, cats, base, u):
        import riptable as rt

        cs = np.array(cats, dtype="U" if u else "S") if cats else np.array([], dtype="U1" if u else "S1")
        pos = {c: i + base for i, c in enumerate(cats)}
        inv = 0 if base else -1
        codes = np.array([pos[r] if r is not None else inv for r in rows], dtype="int8")
        return rt.Categorical(rt.FA(codes), rt.FA(cs, unicode=u), base_index=base)

    def _cat(self, t, env):
        import riptable as rt

        base, u = t["base"], t["u"]
        cats = list(t["cats"])
        inv = 0 if base else -1
        rows = [cats[c - base] if c >= base else None for c in t["codes"]]
        if t["how"] == "values":
            c = rt.Categorical(rt.FA(np.array(rows, dtype="U" if u else "S"), unicode=u), base_index=base)
            used = sorted(set(rows))
            cats = used
        else:
            c = self._build(rows, cats, base, u)
        held = []      # (what, object, frozen): must never change
        done = []
        for o in t["ops"]:
            kind = o[0]
            if kind == "read":
                nm, k = o[1], o[2]
                fn = READS[nm]
                fresh = self._build(rows, cats, base, u)
                got, want = self._try(fn, c, k), self._try(fn, fresh, k)
                env.event("read", nm, got[0])
                env.probe("reads")
                for p in done[-3:]:
                    env.key("cat", p, nm)
                done.append(nm)
                if got != want:
                    raise Violation("stale-answer", "Categorical.%s after %s gives %r, a fresh one with rows %r categories %r gives %r" % (nm, done[:-1], got, rows, cats, want))
                env.event(repr(got)[:200])
            else:
                a, b = o[1], o[2]
                r = self._edit(kind, a, b, c, rows, cats, base, u, held, env)
                if r is None:
                    continue
                c, rows, cats, u = r
                done.append(kind)
                env.event(kind, a, b)
            # the values themselves
            got = [None if f else v for v, f in zip(_vals(c), lst(c.isfiltered()))] if len(c) else []
            if got != rows:
                raise Violation(t.get("kf") or "wrong-values", "after %s the Categorical holds %r, expected %r" % (done, got, rows))
            if lst(c.category_array) != cats:
                raise Violation("wrong-categories", "after %s the categories are %r, expected %r" % (done, lst(c.category_array), cats))
        cnt = {}
        if cats:
            ds = c.count()
            (key,) = [k for k in ds.keys() if k != "Count"]
            cnt = dict(zip(lst(ds[key]), lst(ds["Count"])))
        want = {x: rows.count(x) for x in cats}
        if cnt != want:
            raise Violation(t.get("kf") or "wrong-count", "after %s the counts are %r, expected %r" % (done, cnt, want))
        for what, obj, s in held:
            d = diff(s, freeze(obj))
            if d:
                raise Violation("result-changed", "%s changed after %s: %s" % (what, done, d))

    # ------------------------------------------------------------------------------------------------ code/name mappings
    def _enum(self, t, env):
        import pickle
        from enum import IntEnum
        import riptable as rt

        mp = {k: w for k, w in t["map"]}
        codes = list(t["codes"])

        def build():
            return rt.Categorical(rt.FA(np.array(codes, dtype=t["dt"])), dict(mp))

        c = build() if t["how"] == "dict" else rt.Categorical(rt.FA(np.array(codes, dtype=t["dt"])), IntEnum("E", [(w, k) for k, w in mp.items()]))
        held, done = [], []
        for o in t["ops"]:
            kind, a, b = o
            n = len(codes)
            c.unlock()
            known = sorted(mp)
            new = "n%d" % (b % 7)
            free = [k for k in (1, 2, 3, 5, 10, 20, 60) if k not in mp]
            if kind == "read":
                fn = READS[a]
                got, want = self._try(fn, c, b), self._try(fn, build(), b)
                env.event("read", a, got[0])
                env.probe("reads")
                for p in done[-3:]:
                    env.key("enum", p, a)
                done.append(a)
                if got != want:
                    raise Violation("stale-answer", "Categorical.%s after %s gives %r, a fresh one with codes %r mapping %r gives %r" % (a, done[:-1], got, codes, mp, want))
                continue
            if kind == "set" and known and n:
                k = known[a % len(known)]
                c[b % n] = mp[k]
                codes[b % n] = k
            elif kind == "setcode" and known and n:
                k = known[a % len(known)]
                c[b % n] = k
                codes[b % n] = k
            elif kind == "setmask" and known and n:
                k = known[a % len(known)]
                m = [(i * 5 + b) % 3 == 0 for i in range(n)]
                c[rt.FA(m)] = mp[k]
                codes = [k if q else x for x, q in zip(codes, m)]
            elif kind == "setby" and known and n:
                k, k2 = known[a % len(known)], known[b % len(known)]
                c[mp[k]] = mp[k2]
                codes = [k2 if x == k else x for x in codes]
            elif kind == "madd" and free and new not in mp.values():
                k = free[a % len(free)]
                c.mapping_add(k, new)
                mp[k] = new
            elif kind == "mremove" and len(known) > 1:
                k = known[a % len(known)]
                c.mapping_remove(k)
                del mp[k]
            elif kind == "mreplace" and known and new not in mp.values():
                k = known[a % len(known)]
                c.mapping_replace(k, new)
                mp[k] = new
            elif kind == "mnew" and n:
                ks = sorted(set(codes))[: 1 + a % 3]
                mp = {k: WORDS[(i + b) % len(WORDS)] for i, k in enumerate(ks)}
                c.mapping_new(dict(mp))
            elif kind == "copy":
                held.append(("the original of a copy", c, freeze(c)))
                c = c.copy()
            elif kind == "keepcopy":
                r = c.copy()
                held.append(("a copy", r, freeze(r)))
            elif kind == "keepcount":
                r = c.count()
                held.append(("an earlier count", r, freeze(r)))
            elif kind == "fancy" and n:
                idx = [(i * 3 + b) % n for i in range(max(1, n - a % 2))]
                c = c[np.array(idx)]
                codes = [codes[i] for i in idx]
            elif kind == "pickle":
                c = pickle.loads(pickle.dumps(c))
            elif kind == "badset" and n:
                for bad in ("nosuch", 99):
                    try:
                        c[b % n] = bad
                    except Exception:
                        pass
                    else:
                        raise Violation("bad-accepted", "assigning %r was accepted" % (bad,))
            elif kind == "badedit":
                for fn in (lambda: c.mapping_add(known[0], "zz"), lambda: c.mapping_remove(99), lambda: c.mapping_replace(99, "zz")):
                    try:
                        fn()
                    except ValueError:
                        pass
                    else:
                        raise Violation("bad-accepted", "a mapping edit that must fail was accepted")
            else:
                continue
            env.probe("edits")
            env.event(kind, a, b)
            done.append(kind)
            got = lst(np.asarray(c))
            if got != codes:
                raise Violation("wrong-values", "after %s the codes are %r, expected %r" % (done, got, codes))
            got = {int(k): s_(v) for k, v in c.category_mapping.items()}
            if got != mp:
                raise Violation("wrong-categories", "after %s the mapping is %r, expected %r" % (done, got, mp))
            for w in sorted(set(WORDS) | {"n%d" % i for i in range(7)}):
                try:
                    got = lst(c == w)
                except ValueError:
                    got = None
                want = [mp.get(x) == w for x in codes] if w in mp.values() else None
                if got != want and not (want is None and got is not None and not any(got)):
                    raise Violation("stale-answer", "after %s, == %r gives %r; codes %r mapping %r" % (done, w, got, codes, mp))
        for what, obj, s in held:
            d = diff(s, freeze(obj))
            if d:
                raise Violation("result-changed", "%s changed after %s: %s" % (what, done, d))

    @staticmethod
    def _try(fn, c, k):
        try:
            return ("ok", fn(c, k))
        except Exception as e:
            return ("raises", type(e).__name__)

    def _edit(self, kind, a, b, c, rows, cats, base, u, held, env):
        """Apply an edit to c and to the model; returns the new (c, rows, cats, u) or None when it does not apply."""
        import pickle
        import riptable as rt

        n = len(rows)
        rows, cats = list(rows), list(cats)
        c.unlock()      # grouped operations lock the categories
        new = "n%d" % (a % 7)

        def mask():
            return [(i * 5 + b) % 3 == 0 for i in range(n)]

        if kind == "set" and cats and n:
            v = cats[a % len(cats)]
            i = b % n
            c[i] = v if b % 2 else v.encode()
            rows[i] = v
        elif kind == "setneg" and cats and n:
            v = cats[a % len(cats)]
            c[-1] = v
            rows[-1] = v
        elif kind == "setcode" and cats and n:
            i = b % n
            c[i] = a % len(cats) + base
            rows[i] = cats[a % len(cats)]
        elif kind == "setinv" and n and base:
            i = b % n
            c[i] = inv_code = 0
            rows[i] = None
        elif kind == "setmask" and cats and n:
            v = cats[a % len(cats)]
            m = mask()
            c[rt.FA(m)] = v
            rows = [v if q else x for x, q in zip(rows, m)]
        elif kind == "setslice" and cats and n:
            v = cats[a % len(cats)]
            c[b % n:] = v
            rows = [v if i >= b % n else x for i, x in enumerate(rows)]
        elif kind == "setby" and cats and n:
            v, w = cats[a % len(cats)], cats[b % len(cats)]
            c[v] = w
            rows = [w if x == v else x for x in rows]
        elif kind == "add" and new not in cats:
            c.category_add(new)
            cats.append(new)
        elif kind == "replace" and cats and new not in cats:
            v = cats[b % len(cats)]
            c.category_replace(v, new)
            rows = [new if x == v else x for x in rows]
            cats[b % len(cats)] = new
        elif kind == "remove" and len(cats) > 1 and base == 1:      # only in the trace of a known finding
            v = cats.pop(b % len(cats))
            c.category_remove(v)
            rows = [None if x == v else x for x in rows]
        elif kind == "merge" and len(cats) > 1 and base == 1:
            v, w = cats[b % len(cats)], cats[(b + 1) % len(cats)]
            c.category_replace(v, w)
            rows = [w if x == v else x for x in rows]
        elif kind == "auto" and n and cats:
            i = b % n
            c.auto_add_on()
            c[i] = new
            c.auto_add_off()
            rows[i] = new
            if new not in cats:
                cats = sorted(cats + [new])
                u2 = np.asarray(c.category_array).dtype.kind == "U"
                u = u2
        elif kind == "copy":
            held.append(("the original of a copy", c, freeze(c)))
            c = c.copy()
        elif kind == "keepcopy":
            r = c.copy()
            held.append(("a copy", r, freeze(r)))
        elif kind == "keepcount":
            r = c.count()
            held.append(("an earlier count", r, freeze(r)))
        elif kind == "keepsum":
            r = c.sum(_x(c))
            held.append(("an earlier sum", r, freeze(r)))
        elif kind == "keepcum":
            r = c.cumsum(_x(c))
            held.append(("an earlier cumsum", r, freeze(r)))
        elif kind == "keepexpand":
            r = c.expand_array
            held.append(("an earlier expand_array", r, freeze(r)))
        elif kind == "keepgroup":
            r = [c.grouping.igroup, c.grouping.ncountgroup, c.grouping.ifirstgroup, c.ifirstkey]
            held.append(("earlier group arrays", r, freeze(r)))
        elif kind == "keepupper":
            r = c.str.upper
            held.append(("an earlier str.upper", r, freeze(r)))
        elif kind == "keepfancy" and n:
            r = c[np.arange(n)]
            held.append(("an earlier selection", r, freeze(r)))
        elif kind == "keepgb":
            g = rt.Dataset({"c": c.copy(), "x": _x(c)}).gb("c")
            r = g.sum()
            held.append(("an earlier groupby", r, freeze(r)))
        elif kind == "fancy" and n:
            idx = [(i * 3 + b) % n for i in range(max(1, n - a % 2))]
            held.append(("the source of a selection", c, freeze(c)))
            c = c[np.array(idx)]
            rows = [rows[i] for i in idx]
        elif kind == "boolsel" and n:
            m = mask()
            if not any(m):
                return None
            held.append(("the source of a selection", c, freeze(c)))
            c = c[rt.FA(m)]
            rows = [x for x, q in zip(rows, m) if q]
        elif kind == "pickle":
            c = pickle.loads(pickle.dumps(c))
        elif kind == "inds" and n:
            ds = rt.Dataset({"c": c, "x": _x(c)})
            ds = ds.copy()
            held.append(("the source of a Dataset copy", c, freeze(c)))
            c = ds.c
        elif kind == "hold":
            self._held_accessor = c.str
        elif kind == "gc":
            self._held_accessor = None
            gc.collect()
        elif kind == "ctor":
            held.append(("the source of Categorical(c)", c, freeze(c)))
            c = rt.Categorical(c.copy())
        elif kind == "lock" and n and cats:
            c.lock()
            try:
                c.category_add("locked")
            except ValueError:
                pass
            else:
                raise Violation("lock-ignored", "category_add on a locked Categorical")
            c.unlock()
        elif kind == "badset" and n:
            for bad in ("nosuch", len(cats) + base + 3):
                try:
                    c[b % n] = bad
                except Exception:
                    pass
                else:
                    raise Violation("bad-accepted", "assigning %r was accepted" % (bad,))
        elif kind == "badedit" and cats:
            for fn in (lambda: c.category_add(cats[0]), lambda: c.category_remove("nosuch"), lambda: c.category_replace("nosuch", "zz")):
                try:
                    fn()
                except ValueError:
                    pass
                else:
                    raise Violation("bad-accepted", "a category edit that must fail was accepted")
        else:
            return None
        env.probe("edits")
        return c, rows, cats, u

    # ------------------------------------------------------------------------------------------------ sorted views
    def _view(self, t, env):
        import riptable as rt

        r = np.random.RandomState(t["s"])
        n = t["n"]

        def col(k):
            q = r.randint(0, 4)
            if q == 0:
                return rt.FA(r.randint(-5, 5, n))
            if q == 1:
                return rt.FA(np.round(r.randn(n), 1))
            if q == 2:
                return rt.FA(np.array([WORDS[i] for i in r.randint(0, 5, n)], dtype="S"))
            return rt.FA(r.randint(0, 2, n).astype(bool))

        def mk():
            return rt.Dataset({"a": col(0), "b": col(1), "c": col(2), "row": rt.arange(n)})

        sets = [mk(), mk()]
        keys = [None, None]          # what each Dataset is sorted by: (names, ascending)
        done = []

        def show(j):
            ds = sets[j]
            if keys[j] is None:
                ds.sorts_off()
            else:
                ds.sorts_on()
            got = repr(ds)
            fresh = rt.Dataset({k: ds[k].copy() for k in ds.keys()})
            if keys[j] is not None:
                fresh.sort_view(keys[j][0], ascending=keys[j][1])
                # lexsort without any cache
            want = repr(fresh)
            if keys[j] is not None:
                fresh2 = rt.Dataset({k: ds[k].copy() for k in ds.keys()})
                want2 = repr(fresh2.sort_copy(keys[j][0], ascending=keys[j][1]))
                a = [l.split()[-1] for l in want2.splitlines()[2:2 + len(ds["row"])]]
                b = [l.split()[-1] for l in got.splitlines()[2:2 + len(ds["row"])]]
                if a != b:
                    raise Violation("stale-view", "the view sorted by %r shows\n%s\nexpected rows of\n%s\nafter %s" % (keys[j], got, want2, done))
            if got != want:
                raise Violation("stale-view", "the view sorted by %r shows\n%s\na fresh Dataset shows\n%s\nafter %s" % (keys[j], got, want, done))

        for kind, a, j in t["ops"]:
            ds = sets[j]
            nrow = ds.get_nrows()
            names = [k for k in ds.keys() if k != "row"]
            nm = names[a % len(names)]
            if kind in ("edit", "rowset") and keys[j] and a % 4:
                nm = keys[j][0][a % len(keys[j][0])]
            if kind == "view":
                by = [nm] if a % 3 == 0 else [nm, names[(a + 1) % len(names)]] if len(names) > 1 else [nm]
                asc = [True, False, [False] * len(by), [True] * len(by), [i % 2 == 0 for i in range(len(by))], [i % 2 == 1 for i in range(len(by))]][a // 3 % 6]
                ds.sort_view(by, ascending=asc)
                keys[j] = (list(by), asc)
            elif kind == "show":
                show(j)
                env.key("view", *[x[0] for x in done[-3:]])
            elif kind == "edit" and nrow:
                c = ds[nm]
                x = np.asarray(c)
                other = [i for i in range(nrow) if x[i] != x[a % nrow]] or [a % nrow]
                c[a % nrow] = c[other[(a // 3) % len(other)]]
            elif kind == "rowset" and nrow:
                ds[a % nrow, nm] = ds[nm][(a // 3) % nrow]
            elif kind == "permute" and nrow:
                ds[nm] = ds[nm][np.random.RandomState(a).permutation(nrow)]
            elif kind == "retype" and nrow:
                c = ds[nm]
                if c.dtype.kind == "i" and c.dtype.itemsize == 8:
                    c = np.asarray(c)
                    ds[nm] = rt.FA(np.where(c == np.iinfo("int64").min, 1, c)).view("uint64") if a % 2 else rt.FA(np.where(c < 0, c - (1 << 62), c)).view("float64").copy()
                elif c.dtype.kind == "b":
                    ds[nm] = rt.FA(np.asarray(c)).view("int8").copy()
                else:
                    continue
            elif kind == "swap" and len(names) > 1:
                o = names[(a + 1) % len(names)]
                x, y = ds[nm].copy(), ds[o].copy()
                ds[nm], ds[o] = y, x
            elif kind == "filter" and nrow > 1:
                m = np.random.RandomState(a).rand(nrow) < 0.7
                m[0] = True
                sets[j] = ds.filter(rt.FA(m)) if a % 2 else ds[rt.FA(m), :]
            elif kind == "copy":
                sets[1 - j] = ds.copy()
                keys[1 - j] = keys[j]
            elif kind == "other":
                sets[1 - j] = mk() if nrow == n else ds.copy()
                keys[1 - j] = None if nrow == n else keys[j]
            elif kind == "gc":
                gc.collect()
            elif kind == "rename" and "z" not in ds.keys():
                ds.col_rename(nm, "z")
                if keys[j]:
                    keys[j] = (["z" if k == nm else k for k in keys[j][0]], keys[j][1])
            elif kind == "off":
                ds.sorts_off()
                keys[j] = None
            elif kind == "on" and keys[j] is not None:
                ds.sorts_on()
            else:
                continue
            if keys[j] and (kind in ("permute", "retype") and nm in keys[j][0] or kind == "swap" and (nm in keys[j][0] or o in keys[j][0])):
                keys[j] = None      # replacing a key column drops the view
            done.append((kind, nm, j))
            env.event(kind, a, j)
        show(0)
        show(1)

    # ------------------------------------------------------------------------------------------------ string accessors
    def _str(self, t, env):
        import riptable as rt

        r = random.Random(t["s"])
        vals = [r.choice(WORDS) for _ in range(t["n"])]
        a = rt.FA(np.array(vals, dtype="U12" if t["u"] else "S12"), unicode=t["u"])
        held = []
        reads = {
            "upper": lambda s: lst(s.upper), "lower": lambda s: lst(s.lower), "strlen": lambda s: lst(s.strlen), "contains": lambda s: lst(s.contains("b")),
            "startswith": lambda s: lst(s.startswith("a")), "reverse": lambda s: lst(s.reverse), "index": lambda s: lst(s.index("e")),
            "substr": lambda s: lst(s.substr(0, 2)), "substr2": lambda s: lst(s.substr[1:]), "char": lambda s: lst(s.char(0)),
            "regex": lambda s: lst(s.regex_match("a+")), "replace": lambda s: lst(s.replace("a", "zz")),
        }
        names = sorted(reads)
        done = []
        for kind, k in t["ops"]:
            if kind == "hold":
                held.append(a.str)
            elif kind == "drop" and held:
                held.pop(k % len(held))
            elif kind == "gc":
                gc.collect()
            elif kind == "set":
                i = k % len(vals)
                vals[i] = WORDS[k % len(WORDS)]
                a[i] = vals[i]
            elif kind == "read":
                nm = names[k % len(names)]
                fresh = rt.FA(np.array(vals, dtype="U12" if t["u"] else "S12"), unicode=t["u"])
                want = self._try(lambda s, _k: reads[nm](s.str), fresh, 0)
                for who, s in [("array.str", a.str)] + [("a kept accessor", h) for h in held]:
                    got = self._try(lambda s, _k: reads[nm](s), s, 0)
                    if got != want:
                        raise Violation("stale-answer", "%s.%s gives %r, expected %r after %s" % (who, nm, got, want, done))
                env.key("str", nm, done[-1] if done else "")
            done.append(kind)
            env.event(kind, k)


EDITS = ["set", "setneg", "setby", "setcode", "setinv", "setmask", "setslice", "add", "replace", "merge", "auto", "copy", "keepcopy", "keepcount", "keepsum", "keepcum", "keepexpand",
         "keepgroup", "keepupper", "keepfancy", "keepgb", "fancy", "boolsel", "pickle", "inds", "hold", "gc", "ctor", "lock", "badset", "badedit"]

EREADS = ["count", "count_f", "sum", "sum_f", "mean", "minmax", "first", "last_f", "nth", "median", "median_f", "cumsum", "apply", "expand", "ecats", "ikey",
          "firstkey", "fancy", "groupings", "groupings_f", "groups", "ncount", "nextprev", "isfiltered", "isin", "as_str", "items", "text", "nunique", "gb", "gbu",
          "copycount", "slicecount", "fancycount", "hstack", "eacc", "shift", "meta"]
EEDITS = ["set", "setcode", "setmask", "setby", "madd", "mremove", "mreplace", "mnew", "copy", "keepcopy", "keepcount", "fancy", "pickle", "badset", "badedit"]

CHECK = P12()
