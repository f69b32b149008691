"""A catalogue of riptable operations on small seeded objects, shared by several checks.

make(kind, seed) builds the object(s) an operation works on; every Op is fn(o, r) -> result where r is a
random.Random for parameters.  Operations with mut=True are documented to change their target; all the
others must leave it unchanged.  Results are compared through values.snap, so an Op returns plain data.
"""
import io
import pickle
import random
import re

import numpy as np

from sim import values

values.SIGNED_ZERO = False

KINDS = ["ds", "cat", "catm", "catn", "cate", "catb", "gb", "gb2", "acc", "pds", "st", "fa", "ia", "str", "dtn", "date", "ts", "two", "grp", "ms", "fl"]
_W = ["aa", "b", "cc", "dd", "e", "IBM", "longer"]


class Op:
    __slots__ = ("name", "kind", "fn", "mut", "io", "heavy")

    def __init__(self, name, kind, fn, mut=False, io=False, heavy=False):
        self.name, self.kind, self.fn, self.mut, self.io, self.heavy = name, kind, fn, mut, io, heavy


OPS = {}


def op(kind, mut=False, io=False, heavy=False):
    def deco(fn):
        for k in kind.split():
            nm = "%s.%s" % (k, fn.__name__.strip("_"))
            assert nm not in OPS, nm
            OPS[nm] = Op(nm, k, fn, mut, io, heavy)
        return fn
    return deco


def bind(kind, mut=False, **fns):
    for n, f in fns.items():
        f.__name__ = n
        op(kind, mut)(f)


# ------------------------------------------------------------------------------------------------ objects
def _cols(r, n):
    import riptable as rt

    npr = np.random.RandomState(r.randrange(1 << 30))
    f = np.round(npr.randn(n) * 10, 2)
    f[npr.rand(n) < 0.15] = np.nan
    i = npr.randint(-20, 50, n).astype("int32")
    i[npr.rand(n) < 0.1] = np.iinfo("int32").min
    return {
        "k": rt.FA(np.array([_W[j] for j in npr.randint(0, 4, n)], dtype="S6") if n else np.array([], dtype="S6")),
        "g": rt.FA(npr.randint(0, 3, n)),
        "x": rt.FA(f),
        "y": rt.FA(i),
        "c": rt.Categorical(rt.FA(np.array([_W[j] for j in npr.randint(0, 5, n)]) if n else np.array([], dtype="U6"))),
        "d": rt.DateTimeNano((1_600_000_000 + npr.randint(0, 10**6, n).astype("int64")) * 10**9, from_tz="GMT", to_tz="NYC"),
        "t": rt.TimeSpan(npr.randint(0, 86400, n).astype("float64"), unit="s"),
        "b": rt.FA(npr.rand(n) < 0.5),
        "e": rt.Date(npr.randint(10000, 12000, n).astype("int32")),
    }


def make(kind, seed, n=None):
    import riptable as rt

    r = random.Random(repr(("make", kind, seed)))
    if n is None:
        n = r.choice([1, 2, 5, 9, 16, 24])
    C = _cols(r, n)
    if kind in ("ds", "gb", "gb2", "acc"):
        names = ["k", "g", "x", "y"] + r.sample(["c", "d", "t", "b", "e"], r.randint(0, 4))
        ds = rt.Dataset({m: C[m] for m in names})
        if kind == "ds":
            if r.random() < 0.2:
                ds.label_set_names(["k"])
            return ds
        if kind == "gb":
            return rt.Dataset({m: ds[m] for m in ("k", "x", "y")}).groupby(r.choice(["k", ["k"]]))
        if kind == "gb2":
            return rt.Dataset({m: ds[m] for m in ("k", "g", "x", "y")}).groupby(["k", "g"])
        return rt.Accum2(rt.Cat(ds["k"]), rt.Cat(ds["g"]))
    if kind == "cat":
        return rt.Categorical(C["k"])
    if kind == "catm":
        return rt.Categorical([C["k"], C["g"]])
    if kind == "catn":
        return rt.Categorical(C["g"])
    if kind == "catb":
        return rt.Categorical(C["k"], base_index=0)
    if kind == "cate":
        m = {1: "one", 5: "five", 9: "nine"}
        ks = np.array(list(m))
        return rt.Categorical(rt.FA(ks[np.asarray(C["g"]) % 3]), m)
    if kind == "grp":
        return rt.Grouping(C["k"]) if r.random() < 0.5 else rt.Grouping([C["k"], C["g"]])
    if kind == "pds":
        D = _cols(r, max(1, n // 2))
        a = rt.Dataset({m: C[m] for m in ("k", "x", "y", "c")})
        b = rt.Dataset({m: D[m] for m in ("k", "x", "y", "c")})
        return rt.PDataset([a, b], pnames=["20200101", "20200102"])
    if kind in ("st", "fl"):
        st = rt.Struct({"x": C["x"], "n": 7, "s": "text"})
        st.inner = rt.Struct({"y": C["y"], "c": C["c"]})
        st.ds = rt.Dataset({"k": C["k"], "g": C["g"]})
        return st if kind == "st" else st.flatten()
    if kind == "fa":
        return C["x"]
    if kind == "ia":
        return C["y"]
    if kind == "str":
        return rt.FAString(C["k"]) if False else C["k"]
    if kind == "dtn":
        return C["d"]
    if kind == "date":
        return C["e"]
    if kind == "ts":
        return C["t"]
    if kind == "ms":
        return rt.Multiset({"a": rt.Dataset({"x": C["x"], "y": C["y"]}), "b": rt.Dataset({"x": C["y"], "k": C["k"]})})
    if kind == "two":
        D = _cols(r, r.choice([1, 3, 8]))
        a = rt.Dataset({m: C[m] for m in ("k", "g", "x")})
        b = rt.Dataset({"k": D["k"], "g": D["g"], "v": D["y"]})
        b = b.filter(~b.duplicated(["k", "g"])) if hasattr(b, "duplicated") else b
        return rt.Struct({"a": a, "b": b})
    raise KeyError(kind)


def state(o):
    """Snapshot of an object, including those values.snap does not know."""
    import riptable as rt
    from sim.values import snap

    if isinstance(o, rt.GroupBy):
        return ("GroupBy", snap(o._dataset), tuple(o.gbkeys), _grp(o.grouping))
    if isinstance(o, rt.Accum2):
        return ("Accum2", snap(o._cat_rows), snap(o._cat_cols), _arr(o.ikey))
    if isinstance(o, rt.Grouping):
        return ("Grouping",) + _grp(o)
    if isinstance(o, rt.PDataset):
        return (snap(o), _arr(o.pcutoffs), tuple(o.pnames))
    return snap(o)


def _arr(a):
    return None if a is None else (str(np.asarray(a).dtype), np.asarray(a).tolist())


def _grp(g):
    return (int(g.unique_count), _arr(g.ikey), tuple((k, _arr(v)) for k, v in g.uniquedict.items()))


# ------------------------------------------------------------------------------------------------ Dataset
_AGG = ["sum", "mean", "min", "max", "count", "std", "var", "median", "nansum", "nanmean", "nanmin", "nanmax", "first", "last", "mode", "trimbr",
        "nanstd", "nanvar", "nanmedian"]


def _agg(g, r, names, *a, **kw):
    return getattr(g, r.choice(names))(*a, **kw)


@op("ds")
def gb_agg(o, r):
    return _agg(o.groupby("k")[["x", "y"]], r, [a for a in _AGG if a not in ("nth", "count")])


@op("ds")
def gb_agg2(o, r):
    return _agg(o.gb(["k", "g"])[["x", "y"]], r, ["sum", "mean", "min", "max", "nansum", "first", "last"])


@op("ds")
def gb_cum(o, r):
    g = o.groupby(r.choice(["k", "g"]))[["x", "y"]]
    return getattr(g, r.choice(["cumsum", "rolling_sum", "rolling_mean", "cumprod", "diff"]))() if r.random() < 0.8 else g.rolling_sum(window=2)


@op("ds")
def gbu_count(o, r):
    return o.gbu("k").count()


@op("ds")
def gb_apply(o, r):
    return o[["k", "x"]].groupby("k").apply_reduce(lambda x: np.nansum(np.asarray(x)), o["x"])


@op("ds")
def cat_sum(o, r):
    return o.cat("k").sum(o["x"])


@op("ds")
def cat2keys_sum(o, r):
    return o.cat2keys("k", "g").count()


@op("ds")
def accum2_sum(o, r):
    return getattr(o.accum2("k", "g"), r.choice(["sum", "mean", "nanmax"]))(o["x"])


@op("ds")
def accum1_sum(o, r):
    return o.accum1("k").sum(o["x"])


@op("ds")
def sort_copy(o, r):
    return o.sort_copy(r.choice(["k", "x", ["k", "y"], ["g", "x"]]), ascending=r.random() < 0.6)


@op("ds")
def filter_rows(o, r):
    return o[o["x"] > r.choice([-100, 0, 3]), :]


@op("ds")
def filter_method(o, r):
    return o.filter(o["y"] > 3)


@op("ds")
def fancy_rows(o, r):
    n = o.get_nrows()
    idx = [r.randrange(n) for _ in range(3)]
    return o[idx, ["x", "k"]]


@op("ds")
def slice_rows(o, r):
    return o[::r.choice([2, -1, 3]), :]


@op("ds")
def copy_deep(o, r):
    return o.copy(deep=r.random() < 0.5)


@op("ds")
def isin_cols(o, r):
    return o[["k", "y"]].isin([b"aa", b"b", 3])


@op("ds")
def fillna_copy(o, r):
    return o[["x", "y"]].fillna(0)


@op("ds")
def head_tail(o, r):
    return o.head(3), o.tail(2)


@op("ds")
def sample_seed(o, r):
    return o.sample(3, seed=r.randrange(100))


@op("ds")
def describe(o, r):
    return o[["x", "y"]].describe()


@op("ds")
def reduce_some(o, r):
    return getattr(o[["x", "y"]], r.choice(["sum", "mean", "min", "max", "std", "var", "median", "nansum", "nanmean", "nanmax", "count"]))()


@op("ds")
def quantile(o, r):
    return o[["x", "y"]].quantile([0.5])


@op("ds")
def duplicated(o, r):
    return o.duplicated(["k"]), o.drop_duplicates(["k", "g"])


@op("ds")
def to_pandas(o, r):
    return str(o.to_pandas())


@op("ds")
def as_matrix(o, r):
    return o[["x", "y"]].as_matrix()


@op("ds")
def as_struct(o, r):
    return o.as_struct()


@op("ds")
def crc(o, r):
    return o[["k", "x", "y"]].crc


@op("ds")
def astype(o, r):
    return o[["y", "g"]].astype("float64")


@op("ds")
def one_hot(o, r):
    return o[["k", "x"]].one_hot_encode(columns=["k"])


@op("ds")
def apply_cols(o, r):
    return o[["x", "y"]].apply_cols(lambda c: c + 1)


@op("ds")
def apply_rows(o, r):
    return o[["x", "y"]].apply_rows(lambda row: row[0])


@op("ds")
def rows(o, r):
    return [tuple(str(v) for v in row) for row in o.asrows()], [str(x) for x in o[["k", "x"]].tolist()]


@op("ds")
def text(o, r):
    return repr(o)


@op("ds")
def html(o, r):
    return re.sub("tbl-[0-9]+", "tbl-N", o._repr_html_())


@op("ds")
def text_long(o, r):
    import riptable as rt
    o = o[["k"]]
    o.long = rt.FA(["word" * 7] * o.get_nrows())
    return repr(o)


@op("ds")
def show_all(o, r):
    return str(o.head(2)), str(o.tail(1)), str(o.describe() if "x" not in o else o[["x"]])


@op("ds")
def hstack(o, r):
    import riptable as rt

    return rt.Dataset.concat_rows([o, o]) if r.random() < 0.5 else rt.hstack([o, o.copy()])


@op("ds")
def concat_cols(o, r):
    import riptable as rt

    return rt.Dataset.concat_columns([o[["x"]], o[["y"]]], do_copy=True)


@op("ds")
def masks(o, r):
    q = o[["x", "y"]]
    return q.mask_or_isnan(), q.mask_and_isnan(), q.mask_or_isfinite(), q.mask_and_isinf()


@op("ds")
def equals(o, r):
    return o[["x", "k"]].equals(o.copy()[["x", "k"]])


@op("ds")
def trim(o, r):
    return o[["x", "y"]].trim()


@op("ds")
def norm(o, r):
    return o[["x"]].normalize_zscore() if r.random() < 0.5 else o[["x"]].normalize_minmax()


@op("ds")
def melt(o, r):
    return o[["k", "x", "y"]].melt(id_vars="k", value_vars=["x", "y"])


@op("ds")
def pivot(o, r):
    q = o.drop_duplicates(["k", "g"])
    return q.pivot("k", "g", "x")


@op("ds")
def dpickle(o, r):
    return pickle.loads(pickle.dumps(o, protocol=4))


@op("ds")
def arith(o, r):
    q = o[["x", "y"]]
    return q + 1, q * q, q - 2


@op("ds")
def col_match(o, r):
    return o.col_str_match("[xy]"), o.dtypes, o.computable(), o.noncomputable()


@op("ds")
def tree_text(o, r):
    return str(o.as_struct().tree())


@op("ds")
def imatrix(o, r):
    return o[["x", "y"]].copy().imatrix_make()


@op("ds")
def iter_rows(o, r):
    return [str(x) for x in o[["x", "k"]].iterrows()]


@op("ds")
def transpose(o, r):
    return o[["x", "y"]].transpose(colnames=None) if False else repr(o[["x", "y"]].dtranspose())


@op("ds")
def merge_lookup(o, r):
    import riptable as rt

    q = o.drop_duplicates(["k"])[["k", "y"]]
    q.col_rename("y", "yy")
    return o[["k", "x"]].merge_lookup(q, on="k")


# mutating operations
@op("ds", mut=True)
def m_add(o, r):
    o.newcol = o["x"] + 1


@op("ds", mut=True)
def m_replace(o, r):
    o["x"] = o["y"] * 2


@op("ds", mut=True)
def m_rowassign(o, r):
    o[o["x"] > 0, "y"] = 0


@op("ds", mut=True)
def m_sort(o, r):
    o.sort_inplace(r.choice(["k", "x", ["g", "y"]]), ascending=r.random() < 0.6)


@op("ds", mut=True)
def m_sortview(o, r):
    o.sort_view(r.choice(["k", "x", ["g", "y"]]))
    return repr(o)


@op("ds", mut=True)
def m_fillna(o, r):
    o[["x", "y"]].fillna(0, inplace=True)


@op("ds", mut=True)
def m_filter(o, r):
    o.filter(o["x"] > 0, inplace=True)


@op("ds", mut=True)
def m_rename(o, r):
    o.col_rename("x", "xx")
    o.col_move_to_front(["y"])
    o.col_add_prefix("p_")


@op("ds", mut=True)
def m_putmask(o, r):
    o.putmask(o["x"] > 0, o.copy())


@op("ds", mut=True)
def m_addmatrix(o, r):
    o.add_matrix(np.ones((o.get_nrows(), 2)), ["m1", "m2"])


@op("ds", mut=True)
def m_mergelookup(o, r):
    q = o.drop_duplicates(["k"])[["k", "y"]]
    q.col_rename("y", "yy")
    o.merge_lookup(q, on="k", inplace=True)


@op("ds", mut=True)
def m_replaceall(o, r):
    o.col_replace_all({m: (o[m] * 3 if m in ("x", "y") else o[m]) for m in o})


@op("ds", mut=True)
def m_iadd(o, r):
    q = o[["x", "y"]]
    q += 1


# ------------------------------------------------------------------------------------------------ Categorical
@op("cat catm catn catb")
def c_sum(o, r):
    a = np.arange(len(o), dtype="float64")
    import riptable as rt
    return _agg(o, r, ["sum", "mean", "min", "max", "nansum", "first", "last", "std", "median"], rt.FA(a))


@op("cat catm catn cate catb")
def c_count(o, r):
    return o.count()


@op("cat catm catn catb")
def c_transform(o, r):
    import riptable as rt
    return o.sum(rt.arange(len(o)) * 1.5, transform=True)


@op("cat catm catn catb")
def c_cumsum(o, r):
    import riptable as rt
    return o.cumsum(rt.arange(len(o)) * 1.5)


@op("cat catm catn cate catb")
def c_keys(o, r):
    # positions: their integer width is not part of the result
    return [int(i) for i in o.ifirstkey], [int(i) for i in o.ilastkey], o.unique_count


@op("cat catm catn cate catb")
def c_grouping(o, r):
    g = o.grouping
    return g.ikey, g.ncountgroup, g.igroup, g.ifirstgroup, g.ncountkey, g.inextkey, g.iprevkey


@op("cat catm catn cate catb")
def c_slice(o, r):
    return o[:3], o[::2], o[np.arange(len(o)) % 2 == 0]


@op("cat catm catn cate catb")
def c_copy(o, r):
    return o.copy()


@op("cat catn catb")
def c_eq(o, r):
    v = o.category_array[0]
    return o == v, o != v


@op("cat catb")
def c_isin(o, r):
    return o.isin([b"aa", b"zz"])


@op("cat catn catb")
def c_expand(o, r):
    return o.expand_array


@op("catm")
def c_expand_dict(o, r):
    return dict(o.expand_dict), dict(o.category_dict)


@op("cat catm catn cate catb")
def c_text(o, r):
    return repr(o), str(o)


@op("cat catb")
def c_as_string(o, r):
    return o.as_string_array, o.categories()


@op("cat catm catn cate")
def c_pickle(o, r):
    return pickle.loads(pickle.dumps(o, protocol=4))


@op("cat catn")
def c_shrink(o, r):
    return o[::2].shrink(o.category_array[:1])


@op("cat catm catn")
def c_hstack(o, r):
    import riptable as rt
    return rt.hstack([o, o.copy()])


@op("cat catb")
def c_onehot(o, r):
    return o.one_hot_encode()


@op("cat catm catn catb")
def c_filtered(o, r):
    import riptable as rt
    f = rt.FA(np.arange(len(o)) % 2 == 0)
    return o.sum(rt.arange(len(o)), filter=f), o.count(filter=f)


@op("cat catm catn catb")
def c_packfilter(o, r):
    import riptable as rt
    f = rt.FA(np.arange(len(o)) % 2 == 0)
    return o.median(rt.arange(len(o)), filter=f), o.get_groupings(filter=f)


@op("cat catm catn catb")
def c_packed(o, r):
    import riptable as rt
    return o.median(rt.arange(len(o))), o.first(rt.arange(len(o))), o.last(rt.arange(len(o)))


@op("cat catm catn catb")
def c_fancy(o, r):
    return o.first_fancy, o.last_fancy, o.first_bool, o.last_bool, o.get_groupings()


@op("cat catm catn catb")
def c_groups(o, r):
    return [(str(k), v) for k, v in o.groups.items()]


@op("cat catm catn")
def c_applyfilter(o, r):
    import riptable as rt
    f = rt.FA(np.arange(len(o)) % 3 != 0)
    return o.apply_reduce(lambda x: np.asarray(x).sum(), rt.arange(len(o)), filter=f), o.apply_nonreduce(lambda x: x * 2, rt.arange(len(o)), filter=f)


@op("cat catn")
def c_nth(o, r):
    import riptable as rt
    return o.nth(rt.arange(len(o)), 1)


@op("cat catm catn")
def c_apply(o, r):
    import riptable as rt
    return o.apply_reduce(lambda x: np.asarray(x).sum(), rt.arange(len(o)))


@op("cat catm catn catb")
def c_set_valid(o, r):
    import riptable as rt
    return o.set_valid(rt.FA(np.arange(len(o)) % 2 == 0))


@op("cat catm catn cate catb")
def c_isnan(o, r):
    return o.isnan(), o.isfiltered(), o.shift_cat(1)


@op("cat")
def c_argsort(o, r):
    return o.argsort()


@op("catm")
def c_singlekey(o, r):
    return o.as_singlekey()


@op("cat")
def c_map(o, r):
    return o.map({"aa": "zz", "b": "yy"}, invalid="?")


@op("cat catn")
def c_regroup(o, r):
    return o.grouping.regroup().ikey


@op("cat", mut=True)
def m_catadd(o, r):
    o.unlock()
    o.category_add("zzz")


@op("cat", mut=True)
def m_catreplace(o, r):
    o.unlock()
    o.category_replace(b"aa", b"QQ") if b"aa" in o.category_array.tolist() else None


@op("cat", mut=True)
def m_setitem(o, r):
    o.unlock()
    o[0] = o.category_array[-1]


@op("cat", mut=True)
def m_autoadd(o, r):
    o.unlock()
    o.auto_add_on()
    o[0] = b"newone"
    o.auto_add_off()


# ------------------------------------------------------------------------------------------------ GroupBy, Accum2, Grouping
@op("gb gb2")
def g_agg(o, r):
    return _agg(o, r, ["sum", "mean", "min", "max", "nansum", "first", "last", "std", "count"])


@op("gb gb2")
def g_transform(o, r):
    return o.sum(transform=True)


@op("gb gb2")
def g_cum(o, r):
    return getattr(o, r.choice(["cumsum", "rolling_sum", "rolling_mean", "cumcount" if False else "cumsum"]))()


@op("gb gb2")
def g_keys(o, r):
    return o.gbkeys, o.ifirstkey, o.ilastkey


@op("gb")
def g_getgroup(o, r):
    return o.get_group(o.gbkeys["k"][0])


@op("gb gb2")
def g_filter(o, r):
    import riptable as rt
    n = o._dataset.get_nrows()
    return o.sum(filter=rt.FA(np.arange(n) % 2 == 0))


@op("gb gb2")
def g_packfilter(o, r):
    import riptable as rt
    n = o._dataset.get_nrows()
    return o.median(filter=rt.FA(np.arange(n) % 2 == 0)), o.first(filter=rt.FA(np.arange(n) % 3 == 0))


@op("gb gb2")
def g_packed(o, r):
    return o.median(), o.first(), o.last()


@op("gb gb2")
def g_fancy(o, r):
    return o.first_fancy, o.last_fancy, o.count(), o.get_groupings()


@op("gb gb2")
def g_text(o, r):
    return "\n".join(ln for ln in repr(o).splitlines() if "nCountGroup:" not in ln)  # that line reports which caches are filled


@op("gb gb2")
def g_agg_list(o, r):
    return o.agg(["sum", "mean"])


@op("gb")
def g_iter(o, r):
    return [(str(k), v) for k, v in o]


@op("acc")
def a_sum(o, r):
    import riptable as rt
    return _agg(o, r, ["sum", "mean", "min", "max", "nansum", "nanmean"], rt.arange(len(o.ikey)) * 1.0)


@op("acc")
def a_count(o, r):
    return o.count()


@op("acc")
def a_filter(o, r):
    import riptable as rt
    return o.sum(rt.arange(len(o.ikey)), filter=rt.FA(np.arange(len(o.ikey)) % 2 == 0))


@op("grp")
def gr_all(o, r):
    return o.ikey, o.ncountgroup, o.igroup, o.ifirstgroup, o.ncountkey, o.inextkey, o.iprevkey, o.ifirstkey, o.ilastkey, dict(o.uniquedict)


@op("grp")
def gr_copy(o, r):
    return state(o.copy())


@op("grp")
def gr_regroup(o, r):
    import riptable as rt
    return state(o.regroup(filter=rt.FA(np.arange(len(o.ikey)) % 2 == 0)))


@op("grp")
def gr_count(o, r):
    return o.count(gbkeys=o.gbkeys, isortrows=None) if False else o.ncountgroup


# ------------------------------------------------------------------------------------------------ PDataset, Struct, Multiset
@op("pds")
def p_parts(o, r):
    return [o.partition(i) for i in range(o.pcount)], list(o.pdict), o.pslices, [str(x) for x in o.pnames]


@op("pds")
def p_gb(o, r):
    return o.gb("k").sum()


@op("pds")
def p_pcat(o, r):
    return o.pcat, o.prows


@op("pds")
def p_text(o, r):
    return repr(o)


@op("pds")
def p_iter(o, r):
    return [(str(k), v) for k, v in o.piter]


@op("pds")
def p_filter(o, r):
    return o[o["x"] > 0, :]


@op("st")
def s_text(o, r):
    return repr(o), str(o.tree())


@op("st")
def s_html(o, r):
    return re.sub("tbl-[0-9]+", "tbl-N", o._repr_html_())


@op("st")
def s_copy(o, r):
    return o.copy(deep=r.random() < 0.5)


@op("st")
def s_equals(o, r):
    return o.equals(o.copy())


@op("st")
def s_flatten(o, r):
    return o.flatten() if False else o.asdict()


@op("st", heavy=True)
def s_pickle(o, r):
    return pickle.loads(pickle.dumps(o, protocol=4))


@op("st")
def s_search(o, r):
    return [str(x) for x in o.key_search("y")], o.total_sizes, o.col_str_match("x")


@op("st", mut=True)
def s_add(o, r):
    o.new = o.x + 1
    o.inner.z = o.inner.y * 2


@op("ms")
def ms_text(o, r):
    return repr(o), list(o.keys())


@op("ms")
def ms_merge(o, r):
    return [state(o[k]) for k in o.keys()]


# ------------------------------------------------------------------------------------------------ arrays
@op("fa ia")
def f_unary(o, r):
    nm = r.choice(["sum", "mean", "std", "nansum", "nanmean", "nanmin", "nanmax", "nanstd", "median", "nanmedian", "isnan", "isfinite", "abs", "unique", "copy",
                   "diff", "rankdata", "issorted", "fill_forward", "cummax", "crc", "describe", "nunique"])
    return getattr(o, nm)()


@op("fa ia")
def f_sort(o, r):
    import riptable as rt
    return rt.sort(o), rt.argsort(o), rt.lexsort([o, o])


@op("fa ia")
def f_arith(o, r):
    return o + o, o * 2, -o, o > 3, (o - 1) / 2


@op("fa ia")
def f_where(o, r):
    import riptable as rt
    return rt.where(o > 0, o, 0), rt.FA(o)[o > 0], o[::2], o.clip(0, 5)


@op("fa ia")
def f_isin(o, r):
    return o.isin(o[:2]), o.between(0, 10), o.fillna(0), o.shift(1)


@op("fa ia")
def f_rolling(o, r):
    return o.rolling_sum(3), o.rolling_mean(2), o.ema_decay(o * 0 + 1, 0.5) if False else o.rolling_std(2)


@op("fa ia")
def f_text(o, r):
    return repr(o), str(o)


@op("fa ia")
def f_cut(o, r):
    import riptable as rt
    return rt.cut(o, 3) if len(o) > 1 else None


@op("ia")
def f_ismember(o, r):
    import riptable as rt
    return rt.ismember(o, o[::2])


@op("ia")
def f_group(o, r):
    import riptable as rt
    return rt.unique(o, return_index=True, return_inverse=True, return_counts=True) if False else rt.unique(o, return_index=True, return_inverse=True)


@op("fa ia")
def f_hstack(o, r):
    import riptable as rt
    return rt.hstack([o, o[::-1]]), rt.concatenate([o, o]), rt.tile(o, 2), rt.repeat(o, 2)


@op("fa ia str dtn date ts")
def f_pickle(o, r):
    return pickle.loads(pickle.dumps(o, protocol=4))


@op("fa ia", mut=True)
def f_setitem(o, r):
    o[o > 0] = 1


@op("fa ia", mut=True)
def f_iadd(o, r):
    o += 1


@op("fa ia", mut=True)
def f_inplace(o, r):
    o.sort() if r.random() < 0.5 else o.fillna(0, inplace=True)


@op("str")
def t_case(o, r):
    return o.str.upper, o.str.lower, o.str.strlen


@op("str")
def t_find(o, r):
    return o.str.contains(b"a"), o.str.startswith(b"a"), o.str.strstr(b"c") if hasattr(o.str, "strstr") else None


@op("str")
def t_sub(o, r):
    return o.str.substr(0, 2), o.str.char(0)


@op("str")
def t_regex(o, r):
    return o.str.regex_match("^[ab]"), o.str.regex_replace("a", "Z")


@op("str")
def t_extract(o, r):
    return o.str.extract("([a-z])")


@op("str")
def t_misc(o, r):
    return o == b"aa", o.unique(), o.isin([b"aa", b"b"]), repr(o), o.str_append(o)


@op("dtn")
def d_parts(o, r):
    return o.year, o.month, o.day_of_week, o.hour, o.date(), o.time_since_midnight(), o.days_since_epoch


@op("dtn")
def d_text(o, r):
    return repr(o), str(o), o.strftime("%Y%m%d %H:%M:%S")


@op("dtn")
def d_arith(o, r):
    import riptable as rt
    return o - o, o + rt.TimeSpan(1, unit="h") if False else o.shift(1), o.astimezone("GMT"), o.diff(), o > o[0]


@op("dtn")
def d_hstack(o, r):
    import riptable as rt
    return rt.hstack([o, o[::-1]]), o.copy(), o[::2], o.min(), o.max()


@op("date")
def e_parts(o, r):
    return o.year, o.month, o.yyyymmdd, o.day_of_week, o.is_weekend, o.start_of_month, repr(o)


@op("ts")
def s_parts(o, r):
    return o.hours, o.minutes, o + o, repr(o), str(o[:1])


# ------------------------------------------------------------------------------------------------ joins
@op("two")
def j_lookup(o, r):
    import riptable as rt
    return rt.merge_lookup(o.a, o.b, on=["k", "g"])


@op("two", heavy=True)
def j_merge2(o, r):
    import riptable as rt
    return rt.merge2(o.a, o.b, on=["k", "g"], how=r.choice(["left", "inner", "outer", "right"]), suffixes=("_a", "_b"), validate=None)


@op("two")
def j_merge(o, r):
    import riptable as rt
    return rt.merge(o.a, o.b, on=["k", "g"])


@op("two")
def j_ismember(o, r):
    import riptable as rt
    return rt.ismember([o.a.k, o.a.g], [o.b.k, o.b.g])


@op("two")
def j_align(o, r):
    import riptable as rt
    return rt.Categorical.align([rt.Cat(o.a.k), rt.Cat(o.b.k)])


@op("two")
def j_hstack(o, r):
    import riptable as rt
    return rt.hstack([o.a, o.b])


@op("two", mut=True)
def j_lookup_inplace(o, r):
    o.a.merge_lookup(o.b, on=["k", "g"], inplace=True)


from . import ops2  # noqa: E402,F401  (adds the rest of the catalogue)


HEAVY = ["ds.v_fillgb", "str.t_sub", "str.y_more", "ds.v_merge2s", "str.t_case", "str.t_find", "ds.m_mergelookup", "two.k_lookup2", "two.j_lookup", "two.j_merge2", "fa.x_fill", "str.y_cat",
         "fa.x_window", "ia.x_fill", "cat.w_strings"]


def warm():
    """Run the operations whose kernels are compiled on first use once, before runs are forked (which only saves time)."""
    for n in HEAVY:
        for sd in (3, 4):
            try:
                OPS[n].fn(make(OPS[n].kind, 5), random.Random(sd))
            except Exception:
                pass
