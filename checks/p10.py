"""P10: Datasets and Structs against an ordered-map model, over seeded histories of accepted and rejected edits.

The model of a container is an ordered list of (name, cell); a cell holds a numpy object array (shared between
containers exactly where riptable shares memory: shallow copies and slices) or, in a Struct, a plain value or a
nested model.  An edit either must succeed, must be rejected, or may do either ("any"); in each case a rejected
edit must leave every live container as it was.
"""
import random
import warnings

import numpy as np

from sim.core import Check, Violation

NAMES = ["a", "b", "c", "dd", "aab", "abb", "Zed", "long_name", "x1", "x2"]
BADNAMES = ["_hid", "for", "sum", ""]
KIND = ["i", "f", "s", "b", "c"]
WORDS = [b"p", b"qq", b"rrr", b"", b"zz"]


class Cell:
    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


class Model:
    def __init__(self, typ):
        self.typ = typ
        self.cols = {}
        self.n = None
        self.locked = False
        self.labels, self.summary = [], []
        self.footers = []
        self.foot = {}
        self.sort = None

    def names(self):
        return list(self.cols)

    def drop(self, name):
        del self.cols[name]
        self.labels = [x for x in self.labels if x != name]
        self.summary = [x for x in self.summary if x != name]
        self.foot.pop(name, None)
        if self.sort and name in self.sort[0]:
            self.sort = None
        if not self.cols:
            self.n = None

    def rename(self, mapping):
        """mapping old -> new for every column, order kept."""
        self.cols = {mapping.get(k, k): v for k, v in self.cols.items()}
        self.labels = [mapping.get(k, k) for k in self.labels]
        self.summary = [mapping.get(k, k) for k in self.summary]
        self.foot = {mapping.get(k, k): v for k, v in self.foot.items()}
        if self.sort:
            self.sort = ([mapping.get(k, k) for k in self.sort[0]], self.sort[1])


def data(kind, n, r):
    """-> (list of model values)"""
    if kind == "i":
        return [r.randrange(-9, 10) for _ in range(n)]
    if kind == "f":
        return [r.choice([0.5, 1.5, -2.25, 3.0, 8.75, float("nan")]) for _ in range(n)]
    if kind == "b":
        return [r.random() < 0.5 for _ in range(n)]
    return [r.choice(WORDS) for _ in range(n)]


def obj(vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def real(kind, vals):
    import riptable as rt

    if kind == "i":
        return rt.FA(np.array(vals, dtype="i8"))
    if kind == "f":
        return rt.FA(np.array(vals, dtype="f8"))
    if kind == "b":
        return rt.FA(np.array(vals, dtype=bool))
    if kind == "c":
        return rt.Categorical(rt.FA(np.array(vals, dtype="S4")), [w for w in sorted(WORDS)])
    return rt.FA(np.array(vals, dtype="S4"))


def read(v):
    """Values of a column as plain data."""
    import riptable as rt

    if isinstance(v, rt.Categorical):
        v = v.expand_array
    out = []
    for x in np.asarray(v).tolist():
        if isinstance(x, str):
            x = x.encode()
        if isinstance(x, float) and x != x:
            x = "nan"
        out.append(x)
    return out


class Hist:
    """One history: real containers and their models side by side."""

    def __init__(self, env, r):
        self.env, self.r = env, r
        self.objs = []  # [real, model]
        self.step = None

    # ---- model/real comparison -------------------------------------------------------------------------
    def check_all(self, what):
        for i, (o, m) in enumerate(self.objs):
            self.check(o, m, "%s, container %d" % (what, i))

    def check(self, o, m, what):
        import riptable as rt

        def bad(kind, d):
            raise Violation(kind, "after %s: %s" % (what, d))

        names = m.names()
        ks = list(o.keys())
        if ks != names:
            bad("names", "keys() %r, expected %r" % (ks, names))
        if list(o) != names or list(reversed(o)) != names[::-1]:
            bad("names", "iteration %r / reversed %r, expected %r" % (list(o), list(reversed(o)), names))
        if o.get_ncols() != len(names) or o.shape[1] != len(names) or o.col_get_len() != len(names):
            bad("count", "ncols %r shape %r len %r, expected %d" % (o.get_ncols(), o.shape, o.col_get_len(), len(names)))
        if o.is_locked() != m.locked:
            bad("lock", "is_locked() %r expected %r" % (o.is_locked(), m.locked))
        if m.typ == "ds":
            n = o.get_nrows()
            if names and (n != m.n or o.shape[0] != m.n or len(o) != m.n):
                bad("rows", "get_nrows() %r shape %r len %r, expected %r" % (n, o.shape, len(o), m.n))
            if not names and n not in (None, 0):
                bad("rows", "no columns but get_nrows() is %r" % n)
            if names and o.size != m.n * len(names):
                bad("rows", "size %r" % o.size)
        elif len(o) != len(names):
            bad("count", "len %d expected %d" % (len(o), len(names)))
        items = list(o.items())
        vals = list(o.values())
        if [k for k, _ in items] != names or len(vals) != len(names):
            bad("names", "items() gives %r" % [k for k, _ in items])
        for i, k in enumerate(names):
            if k not in o or not o.col_exists(k):
                bad("reads", "%r not in the container" % k)
            c = m.cols[k]
            ways = [("[name]", o[k]), ("attribute", getattr(o, k)), ("col_get_value", o.col_get_value(k)), ("[position]", o[i]), ("items", items[i][1]), ("values", vals[i])]
            exp = self.expect(c)
            for w, v in ways:
                got = self.got(c, v, what)
                if got != exp:
                    bad("values", "column %r read by %s: %r, expected %r" % (k, w, got, exp))
                if c.kind in KIND and m.typ == "ds" and len(v) != m.n:
                    bad("rows", "column %r has %d rows of %d" % (k, len(v), m.n))
            if c.kind in KIND and isinstance(ways[0][1], rt.FastArray) and m.typ == "ds":
                nm = ways[0][1].get_name()
                if nm is not None and not isinstance(nm, str):
                    bad("reads", "array name %r" % (nm,))
        for k in NAMES + ["zzz"]:
            if (k in o) != (k in m.cols):
                bad("names", "%r in container: %r" % (k, k in o))
        d = o.asdict()
        if list(d) != names:
            bad("names", "asdict() %r" % list(d))
        if list(o.label_get_names()) != m.labels:
            bad("labels", "label_get_names() %r expected %r" % (o.label_get_names(), m.labels))
        if list(o.summary_get_names()) != m.summary:
            bad("labels", "summary_get_names() %r expected %r" % (o.summary_get_names(), m.summary))
        if m.typ == "ds":
            if list(o.footers or {}) != m.footers:
                bad("footers", "footer rows %r expected %r" % (list(o.footers or {}), m.footers))
            for k in names:
                f = o.col_get_attribute(k, "Footer") or {}
                if {x: y for x, y in f.items()} != m.foot.get(k, {}):
                    bad("footers", "footer of %r is %r, expected %r" % (k, f, m.foot.get(k, {})))
            if names and m.n:
                row = self.r_row % m.n
                sub = o[row, :]
                got = [read(sub[k])[0] for k in sub] if sub.get_ncols() else []
                exp = [self.expect(m.cols[k])[row] for k in names]
                if got != exp:
                    bad("reads", "row %d: %r expected %r" % (row, got, exp))
                if m.sort:
                    self.check_sort(o, m, bad)
                elif m.cols[names[0]].kind != "c":
                    got = read(o.get_sorted_col_data(names[0]))
                    if got != self.expect(m.cols[names[0]]):
                        bad("sort", "no sorted view, yet column %r is shown as %r" % (names[0], got))

    def check_sort(self, o, m, bad):
        keys, asc = m.sort
        if not asc and any("nan" in self.expect(m.cols[k]) for k in keys):
            return  # where a descending view puts invalid values is not specified
        idx = list(range(m.n))
        for k in reversed(keys):
            col = self.expect(m.cols[k])
            idx.sort(key=lambda i: (col[i] == "nan", col[i]) if col[i] != "nan" else (True, 0), reverse=not asc)
        # descending order of equal rows is not specified: compare the key columns only
        for k in keys:
            want = [self.expect(m.cols[k])[i] for i in idx]
            got = read(o.get_sorted_col_data(k))
            if got != want:
                bad("sort", "sorted view by %r: column %r shows %r, expected %r" % (keys, k, got, want))

    def expect(self, c):
        if c.kind == "m":
            return "nested"
        if c.kind not in KIND:
            return c.v
        return [("nan" if isinstance(x, float) and x != x else x) for x in c.v.tolist()]

    def got(self, c, v, what):
        if c.kind == "m":
            self.check(v, c.v, what + " (nested)")
            return "nested"
        if c.kind not in KIND:
            return v.item() if isinstance(v, np.generic) else v
        return read(v)

    # ---- building --------------------------------------------------------------------------------------
    def new_ds(self, ncols=None, n=None):
        import riptable as rt

        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8]) if n is None else n
        ncols = r.randint(0, 5) if ncols is None else ncols
        m = Model("ds")
        d = {}
        for k in r.sample(NAMES, ncols):
            kind = r.choice(KIND)
            vals = data(kind, n, r)
            m.cols[k] = Cell(kind, obj(vals))
            d[k] = real(kind, vals)
            m.n = n
        return rt.Dataset(d), m

    def value(self):
        """A value for a Struct item -> (real, cell)"""
        import riptable as rt

        r = self.r
        k = r.choice(["arr", "arr", "int", "str", "float", "ds", "st", "list", "none"])
        if k == "arr":
            kind = r.choice(KIND)
            vals = data(kind, r.choice([0, 1, 3, 4]), r)
            return real(kind, vals), Cell(kind, obj(vals))
        if k == "ds":
            o, m = self.new_ds(2)
            return o, Cell("m", m)
        if k == "st":
            m = Model("st")
            m.cols["q"] = Cell("v", 4)
            return rt.Struct({"q": 4}), Cell("m", m)
        if k == "list":
            return [1, "two"], Cell("v", [1, "two"])
        v = {"int": 7, "str": "txt", "float": 2.5, "none": False}[k]
        return v, Cell("v", v)

    def new_st(self):
        import riptable as rt

        m = Model("st")
        st = rt.Struct({})
        for k in self.r.sample(NAMES, self.r.randint(0, 4)):
            v, c = self.value()
            st[k] = v
            m.cols[k] = c
        return st, m


def own(c):
    """The cell of a deep copy."""
    if c.kind == "m":
        return Cell("m", clone(c.v, deep=True))
    if c.kind in KIND:
        return Cell(c.kind, c.v.copy())
    return Cell(c.kind, list(c.v) if isinstance(c.v, list) else c.v)


def clone(m, deep, names=None, sel=None):
    out = Model(m.typ)
    for k in (m.names() if names is None else names):
        c = m.cols[k]
        if sel is not None:
            out.cols[k] = Cell(c.kind, c.v[sel] if not deep else c.v[sel].copy())
        else:
            out.cols[k] = own(c) if deep else Cell(c.kind, c.v)
        if k in m.foot:
            out.foot[k] = dict(m.foot[k])
    if m.typ == "ds":
        out.n = None if not out.cols else len(next(iter(out.cols.values())).v)
        out.labels = [k for k in m.labels if k in out.cols]
        out.summary = [k for k in m.summary if k in out.cols]
        out.footers = list(m.footers)
        if m.sort:
            ks = [k for k in m.sort[0] if k in out.cols]
            out.sort = (ks, m.sort[1]) if ks else None
    return out


# ------------------------------------------------------------------------------------------------ edits
# every edit is fn(h, o, m) -> (call, apply, expect): call() runs the real edit, apply() the model's;
# expect is "ok", "reject" or "any".  Returning None means: not applicable to this state.
EDITS = {}


def edit(typ, w=1):
    def deco(f):
        EDITS[f.__name__] = (typ, f, w)
        return f
    return deco


def pick(h, m):
    return h.r.choice(m.names()) if m.cols else None


def fresh(h, m):
    xs = [k for k in NAMES if k not in m.cols]
    return h.r.choice(xs) if xs else None


def locked_or(m, e):
    return "reject" if m.locked else e


def replaced(m, k):
    """Effect of replacing a column on the view's sort."""
    if m.sort and k in m.sort[0]:
        m.sort = None


def put(m, k, cell):
    replaced(m, k)
    if k in m.cols:
        m.cols[k] = cell  # attributes stay with the name
    else:
        m.cols[k] = cell
    if m.typ == "ds" and m.n is None:
        m.n = len(cell.v)


def setter(h, o, k):
    """One of the ways to assign a whole column."""
    how = h.r.choice(["item", "attr"])
    if how == "attr":
        return lambda v: setattr(o, k, v)
    return lambda v: o.__setitem__(k, v)


@edit("ds", 4)
def set_col(h, o, m):
    k = pick(h, m) if h.r.random() < 0.4 else fresh(h, m)
    if k is None:
        return None
    kind = h.r.choice(KIND)
    n = m.n if m.n is not None else h.r.choice([0, 1, 4])
    vals = data(kind, n, h.r)
    arr = real(kind, vals)
    if h.r.random() < 0.2 and kind in "if":
        arr = list(vals)
    if isinstance(arr, list) and not arr:
        return None
    s = setter(h, o, k)
    return (lambda: s(arr)), (lambda: put(m, k, Cell(kind, obj(vals)))), locked_or(m, "ok")


@edit("ds", 2)
def set_scalar(h, o, m):
    k = pick(h, m) if h.r.random() < 0.4 else fresh(h, m)
    if k is None:
        return None
    kind = h.r.choice(["i", "f", "s"])
    v = data(kind, 1, h.r)[0]
    if kind == "s" and v == b"":
        v = b"p"
    n = m.n if m.n is not None else 1
    if n == 0:
        return None
    s = setter(h, o, k)
    return (lambda: s(v)), (lambda: put(m, k, Cell(kind, obj([v] * n)))), locked_or(m, "ok")


@edit("ds", 3)
def set_wrong_length(h, o, m):
    k = pick(h, m) if h.r.random() < 0.5 else fresh(h, m)
    if k is None or not m.cols:
        return None
    kind = h.r.choice(KIND)
    n = m.n + h.r.choice([1, 2, 3])
    if h.r.random() < 0.4 and m.n > 2:
        n = m.n - 1
    arr = real(kind, data(kind, n, h.r))
    if kind in "if" and h.r.random() < 0.4:
        arr = arr.tolist()
    if len(arr) == 1:
        return None
    s = setter(h, o, k)
    return (lambda: s(arr)), None, "reject"


@edit("ds", 2)
def set_bad_value(h, o, m):
    k = pick(h, m) if h.r.random() < 0.5 else fresh(h, m)
    if k is None:
        return None
    import riptable as rt

    bad = h.r.choice([{1, 2}, rt.Dataset({"u": [1, 2], "v": [3, 4]}), set()])
    s = setter(h, o, k)
    return (lambda: s(bad)), None, "reject"


@edit("any", 2)
def set_bad_name(h, o, m):
    import riptable as rt

    k = h.r.choice(["_hid", "for", "sum", "", "keys", "shape"])
    if m.typ == "st":
        k = h.r.choice(["_hid", "for", "keys", ""])
    v = real("i", data("i", m.n if m.typ == "ds" and m.n is not None else 3, h.r))
    return (lambda: o.__setitem__(k, v)), None, "reject"


@edit("any")
def set_method_attr(h, o, m):
    v = real("i", data("i", m.n if m.typ == "ds" and m.n is not None else 3, h.r))
    # assigning over a method is refused with a warning
    return (lambda: setattr(o, h.r.choice(["keys", "copy", "col_rename"]), v)), (lambda: None), "any"


@edit("ds", 2)
def set_multi(h, o, m):
    import riptable as rt

    if len(m.cols) < 2:
        return None
    ks = h.r.sample(m.names(), h.r.randint(2, min(3, len(m.cols))))
    kinds = [h.r.choice("if") for _ in ks]
    vals = [data(kd, m.n, h.r) for kd in kinds]
    src = rt.Dataset({"v%d" % i: real(kd, v) for i, (kd, v) in enumerate(zip(kinds, vals))})

    def app():
        for k, kd, v in zip(ks, kinds, vals):
            put(m, k, Cell(kd, obj(v)))
    return (lambda: o.__setitem__(ks, src)), app, locked_or(m, "ok")


@edit("ds", 2)
def set_multi_bad(h, o, m):
    """A Dataset of the wrong shape, an unknown name, or a list: rejected as a whole."""
    import riptable as rt

    if len(m.cols) < 2:
        return None
    ks = h.r.sample(m.names(), 2)
    how = h.r.choice(["rows", "cols", "list"])
    if how == "rows":
        src = rt.Dataset({"p": rt.FA(np.arange(m.n + 2)), "q": rt.FA(np.arange(m.n + 2.0))})
    elif how == "cols":
        src = rt.Dataset({"p": rt.FA(np.arange(m.n))})
    else:
        src = ["u", "v", "w"]
    return (lambda: o.__setitem__(ks, src)), None, "reject"


@edit("ds", 2)
def set_rows(h, o, m):
    """In-place assignment to rows of one column."""
    ks = [k for k in m.names() if m.cols[k].kind in "ifb"]
    if not ks or not m.n:
        return None
    k = h.r.choice(ks)
    c = m.cols[k]
    v = data(c.kind, 1, h.r)[0]
    how = h.r.choice(["int", "mask", "fancy", "slice"])
    if how == "int":
        sel = h.r.randrange(m.n)
    elif how == "mask":
        sel = np.array([h.r.random() < 0.5 for _ in range(m.n)])
    elif how == "fancy":
        sel = np.array(sorted(h.r.sample(range(m.n), h.r.randint(1, m.n))))
    else:
        sel = slice(h.r.randrange(m.n), None, h.r.choice([1, 2]))

    def app():
        c.v[sel] = v
    # locking keeps the container's columns, not their values
    return (lambda: o.__setitem__((sel, k), v)), app, "ok"


@edit("ds", 2)
def set_rows_multi(h, o, m):
    ks = [k for k in m.names() if m.cols[k].kind in "if"]
    if len(ks) < 2 or not m.n:
        return None
    ks = h.r.sample(ks, 2)
    v = h.r.choice([0, 5])
    sel = np.array([h.r.random() < 0.5 for _ in range(m.n)])

    def app():
        for k in ks:
            m.cols[k].v[sel] = float(v) if m.cols[k].kind == "f" else v
    return (lambda: o.__setitem__((sel, ks), v)), app, "ok"


@edit("ds")
def set_row_list(h, o, m):
    """ds[row, cols] = list of values, one per column."""
    ks = [k for k in m.names() if m.cols[k].kind in "if"]
    if len(ks) < 2 or m.n is None or m.n < 2:
        return None
    row = h.r.randrange(m.n)
    ok = h.r.random() < 0.6
    vs = [data(m.cols[k].kind, 1, h.r)[0] for k in ks]
    given = vs if ok else vs[:-1]
    if not ok and len(given) == 0:
        return None

    def app():
        for k, v in zip(ks, vs):
            m.cols[k].v[row] = v
    return (lambda: o.__setitem__((row, ks), given)), app, "ok" if ok else "reject"


@edit("ds")
def set_rows_bad(h, o, m):
    if not m.cols:
        return None
    k = pick(h, m)
    how = h.r.choice(["newcol", "nocol", "mask"])
    sel = np.array([True] * (m.n or 1))
    if how == "newcol":
        k = fresh(h, m)
        if k is None:
            return None
        return (lambda: o.__setitem__((sel, k), 1)), None, "reject"
    if how == "nocol":
        return (lambda: o.__setitem__((0, [k, "zzz"]), [1, 2])), None, "reject" if m.n and m.n > 1 else "any"
    return (lambda: o.__setitem__((np.ones((m.n or 0) + 3, dtype=bool), k), 1)), None, "reject"


@edit("any", 3)
def delete(h, o, m):
    k = pick(h, m)
    if k is None:
        return None
    how = h.r.choice(["delattr", "delitem", "remove", "pop", "remove_idx", "pop_idx", "remove_list"])
    i = m.names().index(k)
    call = {"delattr": lambda: delattr(o, k), "delitem": lambda: o.__delitem__(k), "remove": lambda: o.col_remove(k), "pop": lambda: o.col_pop(k),
            "remove_idx": lambda: o.col_remove(i), "pop_idx": lambda: o.col_pop(i), "remove_list": lambda: o.col_remove([k])}[how]
    return call, (lambda: m.drop(k)), locked_or(m, "ok")


@edit("any", 2)
def delete_many(h, o, m):
    if len(m.cols) < 2:
        return None
    ks = h.r.sample(m.names(), h.r.randint(1, min(3, len(m.cols))))
    how = h.r.choice(["list", "regex", "like", "popn", "missing-warn", "missing-raise", "missing-ignore"])
    e = "ok"
    if how == "list":
        call = lambda: o.col_remove(ks)
    elif how == "popn":
        call = lambda: o.col_pop(ks)
    elif how == "regex":
        call = lambda: o.col_remove(regex="^(%s)$" % "|".join(ks))
    elif how == "like":
        s = h.r.choice(["a", "x", "b"])
        ks = [k for k in m.names() if s in k]
        if not ks:
            return None
        call = lambda: o.col_remove(like=s)
    elif how == "missing-raise":
        ks = h.r.sample(ks + ["zzz"], len(ks) + 1)
        call = lambda: o.col_remove(ks, on_missing="raise")
        e = "reject"
    else:
        mode = how.split("-")[1]
        given = h.r.sample(ks + ["zzz"], len(ks) + 1)
        call = lambda: o.col_remove(given, on_missing=mode)

    def app():
        for k in list(ks):
            if k in m.cols:
                m.drop(k)
    return call, app, locked_or(m, e)


@edit("any")
def delete_missing(h, o, m):
    how = h.r.choice([lambda: delattr(o, "zzz"), lambda: o.__delitem__("zzz"), lambda: o.col_pop("zzz"), lambda: o.col_pop(["zzz"] + m.names()[:1]),
                      lambda: o.col_remove("zzz", on_missing="raise"), lambda: o.col_remove([0, 99], on_missing="raise")])
    return how, None, "reject"


@edit("any", 3)
def rename(h, o, m):
    k, new = pick(h, m), fresh(h, m)
    if k is None or new is None:
        return None
    if m.typ == "st" and m.cols[k].kind == "m" and False:
        return None
    return (lambda: o.col_rename(k, new)), (lambda: m.rename({k: new})), locked_or(m, "ok")


@edit("any", 2)
def rename_bad(h, o, m):
    k = pick(h, m)
    if k is None:
        return None
    how = h.r.choice(["exists", "bad", "missing"])
    if how == "exists":
        others = [x for x in m.names() if x != k]
        if not others:
            return None
        return (lambda: o.col_rename(k, h.r.choice(others))), None, "reject"
    if how == "bad":
        return (lambda: o.col_rename(k, h.r.choice(["_q", "for", "keys"]))), None, "reject"
    return (lambda: o.col_rename("zzz", "yyy")), None, "reject"


@edit("any", 2)
def col_map(h, o, m):
    """Renames by a dictionary: new names, chains, cycles."""
    if len(m.cols) < 2:
        return None
    ns = m.names()
    how = h.r.choice(["new", "cycle", "chain", "mixed", "missing"])
    free = [k for k in NAMES if k not in m.cols]
    if how == "cycle":
        ks = h.r.sample(ns, h.r.randint(2, min(3, len(ns))))
        mp = dict(zip(ks, ks[1:] + ks[:1]))
    elif how == "chain":
        if not free:
            return None
        ks = h.r.sample(ns, 2)
        mp = {ks[0]: ks[1], ks[1]: h.r.choice(free)}
        if h.r.random() < 0.5:
            mp = dict(reversed(list(mp.items())))
    elif how == "mixed":
        if len(ns) < 3 or not free:
            return None
        ks = h.r.sample(ns, 3)
        mp = {ks[0]: ks[1], ks[1]: ks[0], ks[2]: h.r.choice(free)}
    else:
        ks = h.r.sample(ns, min(len(free), h.r.randint(1, 2)))
        if not ks:
            return None
        mp = dict(zip(ks, h.r.sample(free, len(ks))))
    if how == "missing":  # a name that is not there: rejected as a whole
        mp = dict(h.r.sample(list(mp.items()) + [("zzz", "yyy")], len(mp) + 1))
        return (lambda: o.col_map(mp)), None, "reject"
    cyc = set(mp.values()) == set(mp)

    def app():
        # cycles exchange the values between names that keep their places; other renames keep the place
        names = m.names()
        if how in ("cycle", "mixed"):
            sw = {k: v for k, v in mp.items() if v in mp}
            old = dict(m.cols)
            for a, b in sw.items():
                put(m, b, old[a])
            rest = {k: v for k, v in mp.items() if k not in sw}
            if rest:
                m.rename(rest)
        else:
            m.rename(mp)
    return (lambda: o.col_map(dict(mp))), app, locked_or(m, "ok")


@edit("any", 2)
def col_map_bad(h, o, m):
    if len(m.cols) < 2:
        return None
    ns = h.r.sample(m.names(), 2)
    free = [k for k in NAMES if k not in m.cols]
    if not free:
        return None
    how = h.r.choice(["same", "badname", "extant", "type", "notdict"])
    if how == "same":
        mp = {ns[0]: free[0], ns[1]: free[0]}
    elif how == "badname":
        mp = {ns[0]: free[0], ns[1]: h.r.choice(["_q", "for", "keys"])}
    elif how == "extant":
        if len(m.cols) < 3:
            return None
        third = [k for k in m.names() if k not in ns][0]
        mp = {ns[0]: free[0], ns[1]: third}
    elif how == "type":
        mp = {ns[0]: free[0], ns[1]: 5}
    else:
        mp = [(ns[0], free[0])]
    return (lambda: o.col_map(mp)), None, "reject"


@edit("any")
def swap(h, o, m):
    if len(m.cols) < 2:
        return None
    ks = h.r.sample(m.names(), 2)

    def app():
        old = dict(m.cols)
        put(m, ks[1], old[ks[0]])
        put(m, ks[0], old[ks[1]])
    return (lambda: o.col_swap(ks, ks[::-1])), app, locked_or(m, "ok")


@edit("any")
def swap_bad(h, o, m):
    if len(m.cols) < 2:
        return None
    ks = h.r.sample(m.names(), 2)
    return h.r.choice([lambda: o.col_swap(ks, [ks[0], "zzz"]), lambda: o.col_swap(ks, ks[:1]), lambda: o.col_swap(ks, [ks[0], ks[0]])]), None, "reject"


@edit("any", 2)
def move(h, o, m):
    if not m.cols:
        return None
    ks = h.r.sample(m.names(), h.r.randint(1, min(3, len(m.cols))))
    how = h.r.choice(["front", "back", "both", "front1", "backi", "missing"])

    def front(xs):
        m.cols = {**{k: m.cols[k] for k in xs}, **{k: v for k, v in m.cols.items() if k not in xs}}

    def back(xs):
        for k in xs:
            m.cols[k] = m.cols.pop(k)
    if how == "front":
        return (lambda: o.col_move_to_front(ks)), (lambda: front(ks)), locked_or(m, "ok")
    if how == "back":
        return (lambda: o.col_move_to_back(ks)), (lambda: back(ks)), locked_or(m, "ok")
    if how == "front1":
        return (lambda: o.col_move_to_front(ks[0])), (lambda: front(ks[:1])), locked_or(m, "ok")
    if how == "backi":
        i = m.names().index(ks[0])
        return (lambda: o.col_move_to_back(i)), (lambda: back(ks[:1])), locked_or(m, "ok")
    if how == "missing":  # a name that is not there is skipped with a warning
        return (lambda: o.col_move_to_front(ks + ["zzz"] if len(ks) < len(m.cols) else ks)), (lambda: front(ks)), locked_or(m, "ok")
    b = [k for k in m.names() if k not in ks][:1]

    def both():
        front(ks)
        back(b)
    return (lambda: o.col_move(ks, b)), both, locked_or(m, "ok")


@edit("any")
def move_bad(h, o, m):
    return h.r.choice([lambda: o.col_move_to_front(3.5), lambda: o.col_move_to_back(99), lambda: o.col_move_to_front(list("qwertyuiopasdf")), lambda: o.col_move_to_back({1, 2})]), None, "reject"


@edit("any")
def affix(h, o, m):
    if not m.cols or any(len(k) > 12 for k in m.cols):
        return None
    p = h.r.choice(["p_", "x", "a"])
    if h.r.random() < 0.5:
        return (lambda: o.col_add_prefix(p)), (lambda: m.rename({k: p + k for k in m.cols})), locked_or(m, "ok")
    return (lambda: o.col_add_suffix(p)), (lambda: m.rename({k: k + p for k in m.cols})), locked_or(m, "ok")


@edit("any", 2)
def str_replace(h, o, m):
    if not m.cols:
        return None
    old, new = h.r.choice([("a", "A"), ("b", "bb"), ("x", "y"), ("_", ""), ("1", "2"), ("b", ""), ("a", "b"), ("1", "0"), ("d", "D")])
    mp, seen, clash = {}, set(), False
    for k in m.cols:
        nk = k.replace(old, new)
        if nk == "":
            return None
        if nk in seen or (nk != k and nk in m.cols):
            clash = True
        seen.add(nk)
        mp[k] = nk
    if all(k == v for k, v in mp.items()):
        return (lambda: o.col_str_replace(old, new)), (lambda: None), "any"
    if clash:
        return (lambda: o.col_str_replace(old, new)), None, "reject"
    return (lambda: o.col_str_replace(old, new)), (lambda: m.rename(mp)), locked_or(m, "ok")


@edit("ds", 3)
def filter_inplace(h, o, m):
    if not m.cols:
        return None
    how = h.r.choice(["mask", "fancy", "badlen", "badtype", "bad2d"])
    if how == "mask":
        sel = np.array([h.r.random() < 0.7 for _ in range(m.n)], dtype=bool)
        idx = np.flatnonzero(sel)
    elif how == "fancy":
        idx = np.array([h.r.randrange(m.n) for _ in range(h.r.randint(1, 4))] if m.n else [], dtype="i8")
        sel = idx
        if not m.n:
            return None
    else:
        sel = {"badlen": np.ones(m.n + 1, dtype=bool), "badtype": np.ones(m.n + 1), "bad2d": np.ones((2, 2), dtype=bool)}[how]
        return (lambda: o.filter(sel, inplace=True)), None, "reject"

    def app():
        for k, c in list(m.cols.items()):
            m.cols[k] = Cell(c.kind, c.v[idx])
        m.n = len(idx)
    return (lambda: o.filter(sel, inplace=True)), app, "ok"


@edit("ds")
def drop_duplicates(h, o, m):
    ks = [k for k in m.names() if m.cols[k].kind in "is"]
    if not ks or not m.n:
        return None
    sub = h.r.sample(ks, 1)
    keep = h.r.choice(["first", "last"])
    rows = {}
    order = []
    key = m.cols[sub[0]].v.tolist()
    for i, v in enumerate(key):
        if v not in rows:
            order.append(v)
            rows[v] = i
        elif keep == "last":
            rows[v] = i
    idx = np.array([rows[v] for v in order], dtype="i8")

    def app():
        if len(idx) != m.n:
            for k, c in list(m.cols.items()):
                m.cols[k] = Cell(c.kind, c.v[idx])
            m.n = len(idx)
            m.sort = None
    return (lambda: o.drop_duplicates(sub, keep=keep, inplace=True)), app, "ok"


@edit("ds", 2)
def sort_inplace(h, o, m):
    if not m.cols or not m.n:
        return None
    keys = h.r.sample(m.names(), h.r.randint(1, min(2, len(m.cols))))
    idx = list(range(m.n))
    for k in reversed(keys):
        col = m.cols[k].v
        idx.sort(key=lambda i: col[i] if col[i] == col[i] else float("inf"))
    idx = np.array(idx, dtype="i8")

    def app():
        for k, c in list(m.cols.items()):
            m.cols[k] = Cell(c.kind, c.v[idx])
        m.sort = None
    return (lambda: o.sort_inplace(keys if h.r.random() < 0.7 or len(keys) > 1 else keys[0])), app, locked_or(m, "ok")


@edit("ds", 2)
def sort_view(h, o, m):
    if not m.cols or not m.n:
        return None
    keys = h.r.sample(m.names(), h.r.randint(1, min(2, len(m.cols))))
    asc = h.r.random() < 0.7 or len(keys) > 1

    def app():
        m.sort = (list(keys), asc)
    return (lambda: o.sort_view(list(keys), ascending=asc)), app, "ok"


@edit("ds")
def sort_bad(h, o, m):
    if not m.cols:
        return None
    f = h.r.choice([o.sort_view, o.sort_inplace, o.sort_copy])
    return h.r.choice([lambda: f("zzz"), lambda: f([m.names()[0], "zzz"]), lambda: f(m.names()[:1], ascending=[True, False])]), None, "reject"


@edit("ds")
def sorts_off(h, o, m):
    def app():
        m.sort = None
    return (lambda: o.sorts_off()), app, "ok"


@edit("ds", 2)
def labels(h, o, m):
    ks = h.r.sample(m.names(), min(len(m.cols), h.r.randint(0, 2)))
    which = h.r.choice(["label", "summary"])

    def app():
        setattr(m, "labels" if which == "label" else "summary", list(ks))
    if not ks:
        return (o.label_remove if which == "label" else o.summary_remove), app, "ok"
    return (lambda: (o.label_set_names if which == "label" else o.summary_set_names)(list(ks))), app, "ok"


@edit("ds")
def footer(h, o, m):
    if not m.cols:
        return None
    ks = h.r.sample(m.names(), h.r.randint(1, min(2, len(m.cols))))
    lab = h.r.choice(["total", "avg"])
    how = h.r.choice(["set", "set", "bad", "del", "delcol"])
    if how == "bad":
        return (lambda: o.footer_set_values(lab, {**{k: 1 for k in ks}, "zzz": 2})), None, "reject"
    if how == "del":
        if lab not in m.footers:
            return None

        def app():
            m.footers.remove(lab)
            for d in m.foot.values():
                d.pop(lab, None)
        return (lambda: o.footer_remove(lab)), app, "ok"
    if how == "delcol":
        if lab not in m.footers:
            return None

        def app():
            for k in ks:
                m.foot.get(k, {}).pop(lab, None)
        return (lambda: o.footer_remove(lab, columns=list(ks))), app, "ok"
    vals = {k: h.r.randrange(100) for k in ks}

    def app():
        if lab not in m.footers:
            m.footers.append(lab)
        for k, v in vals.items():
            m.foot.setdefault(k, {})[lab] = v
    return (lambda: o.footer_set_values(lab, dict(vals))), app, "ok"


@edit("ds")
def add_matrix(h, o, m):
    if not m.n:
        return None
    free = [k for k in NAMES if k not in m.cols]
    if len(free) < 2:
        return None
    ns = h.r.sample(free, 2)
    bad = h.r.choice([None, None, "rows", "names"])
    rows = m.n if bad != "rows" else m.n + 1
    vals = [data("i", rows, h.r) for _ in ns]
    arr = np.array(vals, dtype="i8").T
    given = ns if bad != "names" else ns[:1]

    def app():
        for k, v in zip(ns, vals):
            put(m, k, Cell("i", obj(v)))
    return (lambda: o.add_matrix(arr, names=given)), app, "reject" if bad else locked_or(m, "ok")


@edit("ds")
def replace_all(h, o, m):
    if not m.cols:
        return None
    new = {k: (m.cols[k].kind, data(m.cols[k].kind, m.n, h.r)) for k in m.cols}
    d = {k: real(*kv) for k, kv in new.items()}
    if h.r.random() < 0.4:
        if h.r.random() < 0.5:
            d["zzz"] = d[next(iter(d))]
        else:
            d.pop(h.r.choice(list(d)))
        return (lambda: o.col_replace_all(d)), None, "reject"

    def app():
        for k, (kd, v) in new.items():
            m.cols[k] = Cell(kd, obj(v))
    return (lambda: o.col_replace_all(d)), app, "ok"


@edit("ds")
def arith_inplace(h, o, m):
    """ds[col] += v changes the column's array in place."""
    ks = [k for k in m.names() if m.cols[k].kind in "if"]
    if not ks or not m.n:
        return None
    k = h.r.choice(ks)
    c = m.cols[k]

    def call():
        col = o[k]
        col += 1

    def app():
        c.v[:] = [x + 1 for x in c.v.tolist()]
    return call, app, "ok"


@edit("ds", 2)
def fillna(h, o, m):
    """Only the float columns hold invalid values."""
    if not m.cols or not m.n:
        return None
    how = h.r.choice(["value", "ffill", "bad"])
    if how == "bad":
        return h.r.choice([lambda: o.fillna(inplace=True), lambda: o.fillna(1, limit=2, inplace=True), lambda: o.fillna(method="zzz", inplace=True)]), None, "reject"
    if any(c.kind not in "if" for c in m.cols.values()) or m.labels:
        return None

    def app():
        for c in m.cols.values():
            if c.kind != "f":
                continue
            if how == "value":
                c.v[:] = [4.0 if x != x else x for x in c.v.tolist()]
            else:
                last = float("nan")
                for i, x in enumerate(c.v.tolist()):
                    if x == x:
                        last = x
                    c.v[i] = last
    if how == "value":
        return (lambda: o.fillna(4, inplace=True)), app, "any" if m.locked else "ok"
    return (lambda: o.fillna(method="ffill", inplace=True)), app, "any" if m.locked else "ok"


@edit("ds", 2)
def putmask(h, o, m):
    import riptable as rt

    if not m.cols or not m.n or any(c.kind == "c" for c in m.cols.values()):
        return None
    if any(c.kind == "s" and o[k].dtype.itemsize < 4 for k, c in m.cols.items()):
        return None
    mask = np.array([h.r.random() < 0.5 for _ in range(m.n)])
    vals = {k: data(c.kind, m.n, h.r) for k, c in m.cols.items()}
    src = rt.Dataset({k: real(m.cols[k].kind, v) for k, v in vals.items()})
    bad = h.r.choice([None, None, "mask", "shape", "type"])
    if bad == "mask":
        return (lambda: o.putmask(np.ones(m.n + 1, dtype=bool), src)), None, "reject"
    if bad == "shape":
        return (lambda: o.putmask(mask, rt.Dataset({"u": rt.arange(m.n + 1)}))), None, "reject"
    if bad == "type":
        return (lambda: o.putmask(mask, 5)), None, "reject"

    def app():
        for k, v in vals.items():
            c = m.cols[k]
            for i in range(m.n):
                if mask[i]:
                    c.v[i] = v[i]
    return (lambda: o.putmask(mask, src)), app, "ok"


@edit("ds", 2)
def merge_inplace(h, o, m):
    """Columns looked up from another Dataset are added to this one, or none is."""
    import riptable as rt

    ks = [k for k in m.names() if m.cols[k].kind == "i"]
    free = [k for k in NAMES if k not in m.cols]
    if not ks or not m.n or len(free) < 2:
        return None
    key = h.r.choice(ks)
    uniq = h.r.sample(range(-9, 10), 12)
    new = h.r.sample(free, 2)
    cols = {new[0]: ("i", data("i", 12, h.r)), new[1]: ("s", data("s", 12, h.r))}
    how = h.r.choice(["ok", "ok", "conflict", "nokey", "nocol"])
    right = rt.Dataset({key: rt.FA(np.array(uniq, dtype="i8")), **{k: real(*kv) for k, kv in cols.items()}})
    if how == "conflict":
        others = [k for k in m.names() if k != key]
        if not others:
            return None
        right[others[0]] = rt.arange(12)
        return (lambda: o.merge_lookup(right, on=key, inplace=True)), None, "reject"
    if how == "nokey":
        return (lambda: o.merge_lookup(right, on="zzz", inplace=True)), None, "reject"
    if how == "nocol":
        return (lambda: o.merge_lookup(right, on=key, columns_right=[new[0], "zzz"], inplace=True)), None, "reject"

    def app():
        pos = {v: i for i, v in enumerate(uniq)}
        for k, (kd, v) in cols.items():
            inv = {"i": -(2 ** 63), "s": b""}[kd]
            put(m, k, Cell(kd, obj([v[pos[x]] if x in pos else inv for x in m.cols[key].v.tolist()])))
        put(m, key, Cell("i", m.cols[key].v.copy()))  # the key column is written back as a column of the result
    return (lambda: o.merge_lookup(right, on=key, inplace=True)), app, locked_or(m, "ok")


@edit("ds")
def arith_all(h, o, m):
    """ds += 1 works on the columns' own arrays (columns that are not numbers are left alone)."""
    if not m.cols or not m.n or m.labels or any(c.kind in "bc" for c in m.cols.values()) or not all(m.cols[k].kind in "if" for k in m.cols):
        return None

    def call():
        x = o
        x += 1

    def app():
        seen = []
        for c in m.cols.values():
            c.v[:] = [x + 1 for x in c.v.tolist()]
    return call, app, "ok"


@edit("any")
def with_exit(h, o, m):
    """Leaving a with-block empties the container, locked or not."""
    if h.r.random() < 0.7:
        return None

    def call():
        with o:
            pass

    def app():
        m.locked = False
        for k in m.names():
            m.drop(k)
    return call, app, "ok"


@edit("any")
def col_value(h, o, m):
    """col_set_value of an existing column (no checks besides the name)."""
    k = pick(h, m)
    if k is None or m.typ == "ds" and not m.n:
        return None
    kind = h.r.choice("ifs")
    vals = data(kind, m.n if m.typ == "ds" else 3, h.r)
    arr = real(kind, vals)
    return (lambda: o.col_set_value(k, arr)), (lambda: put(m, k, Cell(kind, obj(vals)))), "any" if m.locked else "ok"


@edit("any", 2)
def lock(h, o, m):
    def app():
        m.locked = not m.locked
    return (o._unlock if m.locked else o._lock), app, "ok"


@edit("st", 4)
def st_set(h, o, m):
    k = pick(h, m) if h.r.random() < 0.4 else fresh(h, m)
    if k is None:
        return None
    v, c = h.value()
    s = setter(h, o, k)
    return (lambda: s(v)), (lambda: put(m, k, c)), locked_or(m, "ok")


@edit("st")
def st_set_multi(h, o, m):
    if len(m.cols) < 2:
        return None
    ks = h.r.sample(m.names(), 2)
    if h.r.random() < 0.4:
        return h.r.choice([lambda: o.__setitem__(ks, [1]), lambda: o.__setitem__(ks + ["zzz"], [1, 2, 3]), lambda: o.__setitem__(ks, 5)]), None, "reject"

    def app():
        put(m, ks[0], Cell("v", 11))
        put(m, ks[1], Cell("v", "w"))
    return (lambda: o.__setitem__(ks, [11, "w"])), app, locked_or(m, "ok")


@edit("st")
def st_nested(h, o, m):
    """Edit a nested container through its parent."""
    ks = [k for k in m.names() if m.cols[k].kind == "m" and m.cols[k].v.typ == "st"]
    if not ks:
        return None
    k = h.r.choice(ks)
    sub = m.cols[k].v
    nk = fresh(h, sub)
    if nk is None:
        return None
    return (lambda: setattr(o[k], nk, 33)), (lambda: put(sub, nk, Cell("v", 33))), locked_or(sub, "ok")


# ---- operations that make a new container ---------------------------------------------------------------
MAKERS = {}


def maker(typ, w=1):
    def deco(f):
        MAKERS[f.__name__] = (typ, f, w)
        return f
    return deco


@maker("ds", 3)
def mk_copy(h, o, m):
    deep = h.r.random() < 0.6
    return (lambda: o.copy(deep=deep)), (lambda: clone(m, deep)), "ok"


@maker("any")
def mk_col_filter(h, o, m):
    if not m.cols:
        return None
    how = h.r.choice(["items", "like", "regex"])
    if how == "items":
        ks = h.r.sample(m.names(), h.r.randint(1, len(m.cols)))
        call = lambda: o.col_filter(items=list(ks))
    else:
        x = h.r.choice(["a", "b", "x"])
        ks = [k for k in m.names() if x in k]
        if not ks:
            return None
        call = (lambda: o.col_filter(like=x)) if how == "like" else (lambda: o.col_filter(regex=".*%s.*" % x))

    def app():
        c = clone(m, False, names=ks)
        if m.typ == "st":
            c.labels, c.summary = [], []
        return c
    return call, app, "ok"


@maker("ds")
def mk_newcols(h, o, m):
    """Arithmetic on the whole Dataset gives new columns."""
    if not m.cols or not m.n or not all(c.kind in "if" for c in m.cols.values()) or m.labels or m.summary or m.footers:
        return None

    def app():
        c = Model("ds")
        for k, x in m.cols.items():
            c.cols[k] = Cell(x.kind, obj([v + 1 for v in x.v.tolist()]))
        c.n = m.n
        return c
    return (lambda: o + 1), app, "ok"


@maker("st", 3)
def mk_stcopy(h, o, m):
    deep = h.r.random() < 0.6

    def app():
        c = clone(m, deep)
        c.locked = m.locked
        return c
    return (lambda: o.copy(deep=deep)), app, "ok"


@maker("any", 2)
def mk_cols(h, o, m):
    if not m.cols:
        return None
    ks = h.r.sample(m.names(), h.r.randint(1, len(m.cols)))
    how = h.r.choice(["list", "mask", "idx", "slice"])
    ns = m.names()
    if how == "mask":
        mask = [k in ks for k in ns]
        ks = [k for k in ns if k in ks]
        if len(mask) < 1:
            return None
        arg = np.array(mask)
    elif how == "idx":
        arg = [ns.index(k) for k in ks]
    elif how == "slice":
        lo = h.r.randrange(len(ns))
        arg = slice(lo, None)
        ks = ns[lo:]
        if lo == 0:
            return None
    else:
        arg = ks
    if m.typ == "st":
        def app():
            c = clone(m, False, names=ks)
            c.labels, c.summary = [], []
            return c
        return (lambda: o[arg]), app, "ok"
    return (lambda: o[arg]), (lambda: clone(m, False, names=ks)), "ok"


@maker("ds", 2)
def mk_rows(h, o, m):
    if not m.cols or not m.n:
        return None
    ks = h.r.sample(m.names(), h.r.randint(1, len(m.cols)))
    how = h.r.choice(["mask", "fancy", "slice", "int", "head", "tail", "filter"])
    if how == "mask" or how == "filter":
        sel = np.array([h.r.random() < 0.6 for _ in range(m.n)])
        if how == "filter":
            return (lambda: o.filter(sel)), (lambda: clone(m, False, sel=sel)), "ok"
    elif how == "fancy":
        sel = np.array([h.r.randrange(m.n) for _ in range(h.r.randint(1, 4))])
    elif how == "slice":
        a = h.r.randrange(m.n + 1)
        sel = slice(a, h.r.randint(a, m.n))  # no step: the native sort does not take strided columns
    elif how == "int":
        i = h.r.randrange(m.n)
        if len(ks) < 2:
            return None
        return (lambda: o[i, ks]), (lambda: clone(m, False, names=ks, sel=np.array([i]))), "ok"
    else:
        k = h.r.choice([1, 2, 20])
        sl = slice(0, k) if how == "head" else slice(max(0, m.n - k), None)
        return (lambda: getattr(o, how)(k)), (lambda: clone(m, False, sel=sl)), "ok"
    return (lambda: o[sel, ks]), (lambda: clone(m, False, names=ks, sel=sel)), "ok"


@maker("ds")
def mk_sorted(h, o, m):
    if not m.cols or not m.n:
        return None
    k = pick(h, m)
    col = m.cols[k].v
    idx = sorted(range(m.n), key=lambda i: col[i] if col[i] == col[i] else float("inf"))

    def app():
        c = clone(m, True, sel=np.array(idx, dtype="i8"))
        c.summary, c.foot, c.sort = [], {}, None
        return c
    return (lambda: o.sort_copy(k)), app, "ok"


@maker("ds")
def mk_struct(h, o, m):
    if m.n == 1:  # gives scalars
        return None

    def app():
        c = clone(m, False)
        c.typ, c.n, c.labels, c.summary, c.footers, c.foot, c.sort = "st", None, [], [], [], {}, None
        return c
    return (lambda: o.as_struct()), app, "ok"


@maker("ds")
def mk_ctor(h, o, m):
    import riptable as rt

    if not m.cols:
        return None

    def app():
        c = clone(m, False)
        c.labels, c.summary, c.footers, c.foot, c.sort = [], [], [], {}, None
        return c
    return (lambda: rt.Dataset({k: o[k] for k in o.keys()})), app, "ok"


@maker("ds")
def mk_concat(h, o, m):
    import riptable as rt

    if not m.cols or m.n is None:
        return None

    def app():
        c = Model("ds")
        for k, x in m.cols.items():
            c.cols[k] = Cell(x.kind, np.concatenate([x.v, x.v]))
        c.n = 2 * m.n
        return c
    return (lambda: rt.Dataset.concat_rows([o, o])), app, "ok"


@maker("ds")
def mk_concatcols(h, o, m):
    import riptable as rt

    if not m.cols:
        return None

    def app():
        c = clone(m, True)
        c.labels, c.summary, c.footers, c.foot, c.sort = [], [], [], {}, None
        return c
    return (lambda: rt.Dataset.concat_columns([o, o], do_copy=True, on_duplicate="first", on_mismatch="ignore")), app, "ok"


@maker("any")
def mk_bad(h, o, m):
    if not m.cols:
        return None
    k = pick(h, m)
    xs = [lambda: o[["zzz", k]], lambda: o[99], lambda: o[None], lambda: o[[k, 3.5]], lambda: o[(1, 2, 3)]]
    if m.typ == "st":
        xs.append(lambda: o[[k, k]])
    return h.r.choice(xs), None, "reject"


class P10(Check):
    id = "P10"
    title = "Containers keep their contract over any history of edits"
    configs = {"ds": 0.7, "st": 0.3}
    isolate = True
    quick_runs = 9000
    thorough_runs = 300000
    quick_wall = 200
    rule = "distinct (kind of container, sequence of (edit, outcome)) of the histories run"
    components_real = ["Dataset, Struct, ItemContainer, SortCache, Categorical, FastArray", "riptide_cpp (threads off)"]
    components_stub = ["none; faults are the rejected edits (wrong length, bad names, missing columns, locked container)"]
    assumptions = ["shallow copies and row slices share column memory, deep copies, masks and fancy indices do not (documented)"]

    def setup(self):
        import riptable as rt

        rt.TypeRegister.DisplayTable.FORCE_REPR = True

    def gen(self, rng, cfg):
        n = rng.choice([3, 6, 10, 16, 25])
        return {"init": rng.randrange(1 << 30), "ops": [[rng.randrange(1 << 30), rng.random() < 0.15] for _ in range(n)], "focus": rng.choice([None, None, None] + list(EDITS))}

    def run(self, t, env):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self._run(t, env)

    def _run(self, t, env):
        h = Hist(env, random.Random(t["init"]))
        h.r_row = 0
        typ = t["cfg"]
        h.objs.append(list(h.new_ds() if typ == "ds" else h.new_st()))
        h.check_all("construction")
        done = []
        for sd, make in t["ops"]:
            h.r = r = random.Random(sd)
            h.r_row = r.randrange(100)
            i = r.randrange(len(h.objs))
            o, m = h.objs[i]
            table = MAKERS if make and len(h.objs) < 5 else EDITS
            cands = [(n, x[1], x[2]) for n, x in table.items() if x[0] in (m.typ, "any")]
            if t["focus"] and table is EDITS and r.random() < 0.3:
                cands = [c for c in cands if c[0] == t["focus"]] or cands
            name, f, _w = r.choices(cands, [c[2] for c in cands])[0]
            e = f(h, o, m)
            if e is None:
                continue
            call, app, exp = e
            what = "%s on container %d" % (name, i)
            try:
                res = call()
                ok = True
                err = None
            except Exception as x:
                ok, err = False, "%s: %s" % (type(x).__name__, str(x)[:200])
            env.event(name, i, ok)
            done.append((name, ok))
            if not ok:
                env.fault("rejected " + name)
                if exp == "ok":
                    raise Violation("refused", "%s: %s" % (what, err))
                h.check_all("rejected %s (%s)" % (what, err))
                continue
            env.probe("accepted")
            if exp == "reject":
                raise Violation("accepted", "%s should have been rejected" % what)
            if table is MAKERS:
                h.objs.append([res, app()])
            elif app is not None:
                app()
            h.check_all(what)
        env.key(typ, tuple(done))


CHECK = P10()
