"""Seeded value generation from small JSON specs, and canonical snapshots of riptable objects.

A spec is a JSON value, so a trace that contains specs is a replay file.  build(spec) is a pure
function of the spec.  snap(obj) reduces any riptable object to plain nested tuples that contain
everything a user can observe about it (names in order, class, dtype, shape, bytes, categories,
time zone, labels ...), so equality of snapshots is the oracle for "the same data".
"""
import random

import numpy as np

INT_DTYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
COL_KINDS = (["bool", "float32", "float64", "S", "U", "cat", "catu", "catmulti", "catnum", "catenum", "catgap", "dtn", "ts",
              "date", "dspan", "mat"] + INT_DTYPES)
TZS = ["NYC", "DUBLIN", "GMT", "UTC"]
_WORDS = ["a", "bb", "ccc", "AAPL", "ibm", "", "x y", "longer-string", "zz", "Q!", "_", "7"]


def rand_col(rng, n, kinds=None):
    k = rng.choice(kinds or COL_KINDS)
    spec = {"k": k, "n": n, "s": rng.randrange(1 << 30)}
    if rng.random() < 0.08:
        spec["st"] = rng.choice([2, -1, 3])  # a strided view of a longer array
    if k in ("dtn",):
        spec["tz"] = rng.choice(TZS)
    if k == "mat":
        spec["w"] = rng.randint(1, 3)
    if k in ("cat", "catu", "catnum", "catmulti"):
        spec["card"] = rng.choice([1, 2, 3, 5, 9])
        if k in ("cat", "catu") and rng.random() < 0.25:
            spec["base0"] = 1
        if k == "cat" and rng.random() < 0.2:
            spec["ord"] = 0
    return spec


def rand_names(rng, count, prefix="c"):
    pool = ["a", "b", "c", "price", "Size", "sym_bol", "col10", "col9", "Zed", "y_", "name with space", "d_t", "e", "f1", "q",
            "A", "colx", "v", "w1", "w2", "ab", "abc", "aba", "price_2", "v.1", "\u00e9t\u00e9", "n" * 60, "W1"]
    rng.shuffle(pool)
    if count > len(pool):
        pool += ["m%d" % i for i in range(count - len(pool))]
        rng.shuffle(pool)
    return pool[:count]


def rand_ds(rng, n=None, ncols=None, kinds=None, labels=True):
    if n is None:
        n = rng.choice([0, 1, 2, 3, 5, 8, 17, 40])
    if ncols is None:
        ncols = rng.randint(1, 6)
    names = rand_names(rng, ncols)
    spec = {"k": "ds", "n": n, "cols": [[nm, rand_col(rng, n, kinds)] for nm in names]}
    if labels and rng.random() < 0.2:
        spec["labels"] = [names[0]]
    return spec


def rand_scalar(rng):
    k = rng.choice(["int", "float", "str", "bool", "npint", "npfloat", "bytes"])
    return {"k": "sc_" + k, "s": rng.randrange(1 << 30)}


def rand_struct(rng, depth=2, nested=True, nmax=6):
    names = rand_names(rng, rng.randint(1, nmax))
    items = []
    for nm in names:
        r = rng.random()
        if nested and depth > 0 and r < 0.04:
            items.append([nm, {"k": "st", "items": []}])
        elif nested and depth > 0 and r < 0.25:
            items.append([nm, rand_struct(rng, depth - 1)])
        elif nested and r < 0.5:
            items.append([nm, rand_ds(rng)])
        elif r < 0.65:
            items.append([nm, rand_scalar(rng)])
        else:
            items.append([nm, rand_col(rng, rng.choice([0, 1, 3, 7]))])
    return {"k": "st", "items": items}


def _np_col(k, n, s):
    r = np.random.RandomState(s % (1 << 31))
    if k == "bool":
        return r.rand(n) < 0.5
    if k in INT_DTYPES:
        ii = np.iinfo(k)
        x = r.randint(-100 if ii.min < 0 else 0, 101, n).astype(k)
        if n:
            m = r.rand(n)
            x[m < 0.1] = ii.min
            x[m > 0.9] = ii.max
        return x
    if k in ("float32", "float64"):
        x = np.round(r.randn(n) * 100, 3).astype(k)
        if n:
            m = r.rand(n)
            x[m < 0.12] = np.nan
            x[m > 0.95] = np.inf
        return x
    if k in ("S", "U"):
        idx = r.randint(0, len(_WORDS), n)
        w = [_WORDS[i] for i in idx]
        if k == "U":
            w = [x + ("\u00e9\u4e2d" if j % 3 == 0 else "") for j, x in enumerate(w)]
            return np.array(w, dtype="U16") if n else np.array([], dtype="U4")
        return np.array([x.encode() for x in w], dtype="S13") if n else np.array([], dtype="S4")
    raise KeyError(k)


def build(spec):
    """Build the riptable object a spec describes."""
    import riptable as rt

    k = spec["k"]
    if k == "ds":
        cols = {nm: build(dict(c, n=spec["n"])) for nm, c in spec["cols"]}
        ds = rt.Dataset(cols)
        if spec.get("labels"):
            ds.label_set_names([x for x in spec["labels"] if x in cols])
        sv = [x for x in spec.get("sv", ()) if x in cols]
        if sv:
            ds.sort_view(sv, ascending=spec.get("asc", True))
        return ds
    if k == "st":
        st = rt.Struct({})
        for nm, c in spec["items"]:
            st[nm] = build(c)
        return st
    if k.startswith("sc_"):
        r = np.random.RandomState(spec["s"] % (1 << 31))
        v = int(r.randint(-1000, 1000))
        return {"int": v, "float": v / 8.0, "str": "s%d" % v, "bool": bool(v & 1), "npint": np.int32(v),
                "npfloat": np.float64(v / 4.0), "bytes": b"b%d" % (v & 255)}[k[3:]]
    if "st" in spec:
        t = spec["st"]
        a = build({**{x: y for x, y in spec.items() if x != "st"}, "n": spec["n"] * abs(t)})
        return a[::t]
    n, s = spec["n"], spec["s"]
    r = np.random.RandomState((s ^ 0x5A5A5A) % (1 << 31))
    if k in ("cat", "catu", "catgap"):
        card = spec.get("card", 3)
        words = ["k%02d" % i for i in range(card)]
        r.shuffle(words)
        arr = np.array([words[i] for i in r.randint(0, card, n)]) if n else np.array([], dtype="U3")
        if k == "catgap":  # entries in the Filtered bin
            flt = r.rand(n) < 0.7
            return rt.Categorical(rt.FA(arr), filter=rt.FA(flt)) if n else rt.Categorical(rt.FA(arr))
        kw = {}
        if spec.get("base0"):
            kw["base_index"] = 0
        if "ord" in spec:
            kw["ordered"] = False
        return rt.Categorical(rt.FA(arr, unicode=(k == "catu")), **kw)
    if k == "catnum":
        return rt.Categorical(rt.FA(r.randint(0, spec.get("card", 3), n).astype("int32") * 10))
    if k == "catmulti":
        c = spec.get("card", 3)
        a = rt.FA(np.array(["m%d" % i for i in r.randint(0, c, n)]) if n else np.array([], dtype="U2"))
        b = rt.FA(r.randint(0, 3, n))
        return rt.Categorical([a, b])
    if k == "catenum":
        m = {1: "one", 5: "five", 9: "nine", 30: "thirty"}
        keys = np.array(list(m))
        return rt.Categorical(rt.FA(keys[r.randint(0, 4, n)] if n else np.array([], dtype="int64")), m)
    if k == "dtn":
        x = (1_500_000_000 + r.randint(0, 10**8, n).astype("int64")) * 1_000_000_000 + r.randint(0, 10**9, n)
        if n:
            x[r.rand(n) < 0.1] = 0
        return rt.DateTimeNano(x, from_tz="GMT", to_tz=spec.get("tz", "NYC"))
    if k == "ts":
        return rt.TimeSpan(np.round(r.rand(n) * 86400, 3), unit="s")
    if k == "date":
        return rt.Date(r.randint(1, 20000, n).astype("int32"))
    if k == "dspan":
        return rt.DateSpan(r.randint(-400, 400, n).astype("int32"))
    if k == "mat":
        return rt.FA(np.round(r.randn(n, spec.get("w", 2)), 3))
    return rt.FA(_np_col(k, n, s), unicode=(k == "U"))


# ------------------------------------------------------------------------------------------------ snapshots
# the native engine negates 0.0 to 0.0 or -0.0 depending on the alignment of the array in memory: checks of computed
# results (checks/ops.py) treat the two zeros as one value, checks of stored data do not
SIGNED_ZERO = True


def _arr(a):
    a = np.ascontiguousarray(np.asarray(a))
    d = a.dtype
    if d.kind == "O":
        return ("O", a.shape, tuple(repr(x) for x in a.ravel().tolist()))
    # byte-string width is a storage detail: compare the strings
    if d.kind in "SU":
        return (d.kind, a.shape, tuple(a.ravel().tolist()))
    if d.kind == "f":
        # all NaNs are one value to a user
        a = a.copy()
        a[np.isnan(a)] = np.nan
        if not SIGNED_ZERO:
            a[a == 0] = 0
    return (d.str, a.shape, a.tobytes())


def snap(o, labels=True):
    import riptable as rt

    if isinstance(o, rt.Categorical):
        g = o.grouping
        try:
            # key names of a single-key Categorical are internal; of a multi-key one they are the user's
            cd = o.category_dict
            uniq = tuple((k if len(cd) > 1 else "", snap(v)) for k, v in cd.items())
        except Exception:
            uniq = None
        mapping = tuple(sorted(o.category_mapping.items())) if o.isenum else None
        return ("Cat", o.category_mode.name, int(o.base_index) if o.base_index is not None else None, uniq if mapping is None else None,
                mapping, _arr(o._fa), bool(g.isordered) if mapping is None else None)
    if isinstance(o, rt.DateTimeNano):
        tz = o._timezone
        return ("DTN", tz._to_tz if hasattr(tz, "_to_tz") else str(tz), _arr(o._fa))
    if isinstance(o, (rt.Date, rt.DateSpan, rt.TimeSpan)):
        return (type(o).__name__, _arr(o._fa))
    if isinstance(o, np.ndarray):
        return (type(o).__name__ if o.ndim else "0d", _arr(o))
    if isinstance(o, rt.Dataset):
        lab = tuple(o.label_get_names() or ()) if labels else ()
        return (type(o).__name__, o.get_nrows(), lab, tuple((k, snap(o[k])) for k in o.keys()))
    if isinstance(o, rt.Struct):
        return (type(o).__name__, tuple((k, snap(o[k])) for k in o.keys()))
    if isinstance(o, (np.generic, int, float, str, bytes, bool)):
        # a scalar is its value: riptable stores Python scalars as numpy scalars
        v = o.item() if isinstance(o, np.generic) else o
        return ("scalar", type(v).__name__, repr(v))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x) for x in o))
    if isinstance(o, dict):
        return ("dict", tuple((k, snap(v)) for k, v in o.items()))
    return (type(o).__name__, repr(o))


def diff(a, b, path=""):
    """First difference between two snapshots, as text."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            nm = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
            d = diff(x, y, "%s/%s" % (path, nm))
            if d:
                return d
    return "%s: expected %s got %s" % (path or "/", _short(a), _short(b))


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "...(%d)" % len(s)
