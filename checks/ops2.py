"""More of the operation catalogue (see ops.py): user functions, conversions, reshaping, edits of containers."""
import pickle
import random

import numpy as np

from sim.native import user

from .ops import op, state

_nan = float("nan")


# ------------------------------------------------------------------------------------------------ Dataset: user functions
@op("ds")
def u_apply_cols(o, r):
    return o[["x", "y"]].apply_cols(user(lambda c: c * 2))


@op("ds")
def u_apply_rows(o, r):
    return o[["x", "y"]].apply_rows(user(lambda row: float(row[0])))


@op("ds")
def u_gb_reduce(o, r):
    return o[["k", "x", "y"]].groupby("k").apply_reduce(user(lambda x: np.nansum(np.asarray(x))), o[["x", "y"]])


@op("ds")
def u_gb_nonreduce(o, r):
    return o[["k", "x"]].groupby("k").apply_nonreduce(user(lambda x: x * 2), o["x"])


@op("ds")
def u_gb_apply(o, r):
    return o[["k", "x", "y"]].groupby("k").apply(user(lambda d: d * 2))


@op("ds")
def u_apply(o, r):
    q = o[["x", "y"]]
    return q.apply_cols(user(np.sign))


@op("ds")
def u_reduce(o, r):
    return o[["x", "y"]].reduce(user(lambda c, **k: c.nansum()), as_dataset=r.random() < 0.5)


@op("ds")
def u_outliers(o, r):
    return o[["x", "y"]].outliers(r.choice(["x", "y"]))


@op("ds")
def u_colfilter(o, r):
    return o.col_filter(["x", "y"]), o.label_filter([b"aa"]) if o.label_get_names() else None


@op("cat catm catn catb")
def u_reduce_c(o, r):
    import riptable as rt
    return o.apply_reduce(user(lambda x: np.asarray(x).max()), rt.arange(len(o)) * 0.5)


@op("cat catm catn catb")
def u_nonreduce_c(o, r):
    import riptable as rt
    return o.apply_nonreduce(user(lambda x: x + 1), [rt.arange(len(o)), rt.arange(len(o)) * 2.0])


@op("cat catm catn")
def u_apply_c(o, r):
    import riptable as rt
    return o.apply(user(lambda x: x.sum()), rt.arange(len(o)))


@op("cat")
def u_mapf(o, r):
    return o.map({"aa": 1.5, "b": 2.5}, invalid=-1.0)


@op("gb gb2")
def u_g_reduce(o, r):
    return o.apply_reduce(user(lambda x: x.nanmax()), o._dataset["x"])


@op("gb gb2")
def u_g_agg(o, r):
    return o.agg({"x": ["nansum", "nanmax"], "y": "max"}) if r.random() < 0.5 else o.agg(["nanmin", "nanstd"])


# ------------------------------------------------------------------------------------------------ Dataset: conversions
@op("ds")
def v_rows(o, r):
    import riptable as rt
    rows = [[i, float(i) / 2, "w%d" % i] for i in range(r.choice([1, 4]))]
    return rt.Dataset.from_rows(rows, ["p", "q", "s"]), rt.Dataset.from_tagged_rows([{"p": 1, "q": 2.5}, {"p": 3, "q": 9.0}])


@op("ds")
def v_jagged(o, r):
    import riptable as rt
    return rt.Dataset.from_jagged_dict({"name": ["bob", "mary"], "letters": [["A", "B"], ["C"]]}), rt.Dataset.from_jagged_rows([["s1", [1, 2]], ["s2", [3]]], ["a", "b"]) if False else None


@op("ds")
def v_pandas(o, r):
    import riptable as rt
    return rt.Dataset.from_pandas(o[["k", "x", "y", "g"]].to_pandas())


@op("ds")
def v_arrow(o, r):
    import riptable as rt
    return rt.Dataset.from_arrow(o[["x", "g"]].to_arrow(), zero_copy_only=False)


@op("ds")
def v_recarray(o, r):
    return o[["x", "y", "k"]].as_recordarray()


@op("ds")
def v_parts(o, r):
    return o.gbrows(), [str(a) for a in o[["x", "y"]].argmax()] if False else None


@op("ds")
def v_argx(o, r):
    q = o[["x", "y"]]
    return q.nanargmax(), q.nanargmin()


@op("ds")
def v_asof(o, r):
    import riptable as rt
    a = rt.Dataset({"t": rt.FA(sorted(r.randrange(40) for _ in range(6))), "v": rt.arange(6)})
    b = rt.Dataset({"t": rt.FA(sorted(r.sample(range(40), 5))), "w": rt.arange(5) * 1.5})
    return rt.merge_asof(a, b, on="t", direction=r.choice(["backward", "forward", "nearest"])) if r.random() < 0.7 else a.merge_asof(b, on="t")


@op("ds")
def v_keep(o, r):
    return o.keep(user(lambda v: v >= 0), rows=True) if False else (o.total_size, o.size, o.memory_stats() if False else None)


@op("ds")
def v_accum(o, r):
    import riptable as rt
    return rt.accum_cols(rt.Cat(o["k"]), [o["x"], o["y"]], ["sx", "sy"]), rt.accum_ratio(rt.Cat(o["k"]), rt.Cat(o["g"]), o["y"], o["g"] + 1)


@op("ds")
def v_accum2_ds(o, r):
    a = o.accum2("k", "g")
    return a.mean(o["x"]), a.count(filter=o["y"] > 3)


@op("ds")
def v_rollgb(o, r):
    g = o.gb("k")[["x", "y"]]
    return getattr(g, r.choice(["rolling_nansum", "rolling_count", "rolling_diff", "rolling_shift", "findnth"]))(window=2) if r.random() < 0.7 else g.rolling_shift(window=-1)


@op("ds")
def v_fillgb(o, r):
    g = o[["k", "x"]].gb("k")
    return getattr(g, r.choice(["fill_forward", "fill_backward", "pad", "backfill"]))()


@op("ds")
def v_nthgb(o, r):
    g = o[["k", "x", "y"]].gb("k")
    return g.nth(r.choice([0, 1, -1])), g.first(), g.count()


@op("ds")
def v_gbtotals(o, r):
    c = o.gb("k")
    return c.as_categorical(), c.grouping.ikey


@op("ds")
def v_sortview(o, r):
    q = o.copy()
    q.sort_view(r.choice(["x", ["k", "x"]]), ascending=r.random() < 0.5)
    s = repr(q)
    q.sorts_off()
    return s, repr(q), q


@op("ds")
def v_catcols(o, r):
    import riptable as rt
    return rt.Cat([o["k"], o["g"]]).nansum(o["x"]), rt.Cat(o["x"]).unique_count, rt.Cat(o["k"], ordered=False).count()


@op("ds")
def v_stack(o, r):
    import riptable as rt
    a, b = o[["k", "x"]], o[["k", "y"]]
    return rt.Dataset.concat_rows([a, b]), rt.stack_rows([a, a])


@op("ds")
def v_footer(o, r):
    q = o.copy()
    q.footer_set_values("Total", {"x": 5, "y": 7})
    t = repr(q), q.footer_get_values(), q.footer_get_dict()
    q.footer_remove()
    return t, repr(q)


@op("ds")
def v_labels(o, r):
    q = o.copy()
    q.label_set_names(["k", "g"])
    q.summary_set_names(["y"])
    return repr(q), q.label_as_dict(), q.summary_as_dict(), q.copy()


@op("ds")
def v_merge2s(o, r):
    import riptable as rt
    q = o.drop_duplicates(["k"])[["k", "y"]]
    return rt.merge_lookup(o[["k", "x", "y"]], q, on="k", suffixes=("_l", "_r"), require_match=False)


@op("ds")
def v_hstackm(o, r):
    import riptable as rt
    q = o[["k", "x"]]
    q.extra = q["x"] * 2
    return rt.hstack([o[["k", "x", "y"]], q]), rt.hstack([o, o[:1, :]])


@op("ds")
def v_crosstab(o, r):
    import riptable as rt
    return rt.Accum2(o["k"], o["g"]).nansum(o["x"], showfilter=True)


# ------------------------------------------------------------------------------------------------ Dataset: edits
@op("ds", mut=True)
def n_newcols(o, r):
    o[["x", "y"]] = __import__("riptable").Dataset({"x": o["x"] + 1, "y": o["y"] * 2})


@op("ds", mut=True)
def n_rowset(o, r):
    o[0, "y"] = 4
    o[o["g"] == 1, "x"] = _nan


@op("ds", mut=True)
def n_colops(o, r):
    o.col_map({"x": "xm", "y": "ym"})
    o.col_move(["ym"], 0)
    o.col_remove("g")
    o.col_add_suffix("_s")


@op("ds", mut=True)
def n_swap(o, r):
    o.col_swap(["x", "y"], ["y", "x"])


@op("ds", mut=True)
def n_strcat(o, r):
    o.k2 = o["k"] + b"z"
    o.cc = __import__("riptable").Cat(o["k2"])


@op("ds", mut=True)
def n_makecat(o, r):
    o.c1 = o.cat("k")
    o.tot = o.c1.nansum(o["x"], transform=True)["x"] if False else o.c1.nansum(o["x"], transform=True)[0]


@op("ds", mut=True)
def n_imatrix(o, r):
    o.imatrix_make()


@op("ds", mut=True)
def n_apply(o, r):
    o["x"] = o[["x"]].apply_cols(user(lambda c: c + 1))["x"]


@op("ds", mut=True)
def n_newds(o, r):
    o.col_set_value("x", o["y"] * 1.0)
    o.col_pop("y")


@op("ds", mut=True)
def n_idel(o, r):
    del o.x
    del o["y"]


@op("ds", mut=True)
def n_sortview(o, r):
    o.sort_view(["k", "x"])
    o.x = o.x * 2
    return repr(o)


# ------------------------------------------------------------------------------------------------ Struct
@op("st")
def s_flat2(o, r):
    q = o.flatten(sep="_")
    n = q.copy()
    return n.flatten_undo(), n.keys()


@op("st")
def s_flat(o, r):
    q = o.flatten()
    return list(q.keys()), q.flatten_undo()


@op("fl")
def fl_undo(o, r):
    return o.flatten_undo(), list(o.keys())


@op("fl")
def fl_copy(o, r):
    return o.copy().flatten_undo()


@op("st", mut=True)
def s_rename(o, r):
    o.col_rename("x", "xx")
    o.inner.col_move_to_front("c")
    o.col_delete("n")


@op("st")
def s_info(o, r):
    return o.shape, o.total_size if hasattr(o, "total_size") else None, o.has_nested_containers, list(o.items())[0][0], o.as_ordered_dictionary() if False else None


@op("st")
def s_concat(o, r):
    import riptable as rt
    a = rt.Struct({"x": rt.arange(3), "n": rt.arange(2)})
    return rt.Struct.concat_structs([a, a]), rt.hstack([a, a]) if False else None


@op("st", mut=True)
def s_nested(o, r):
    import riptable as rt
    o.inner.deep = rt.Struct({"a": rt.arange(3)})
    o.ds.newc = o.ds.g * 2


# ------------------------------------------------------------------------------------------------ Categorical
@op("cat catn")
def w_sets(o, r):
    return o.category_array, o.category_mode, o.base_index, o.isenum, o.issinglekey, o.ismultikey


@op("cat catm catn catb")
def w_more(o, r):
    import riptable as rt
    v = rt.arange(len(o)) * 1.5
    return o.nanvar(v), o.rolling_sum(v, window=2), o.nunique(), o.nan_index if False else None


@op("cat catn catb")
def w_ops(o, r):
    import riptable as rt
    v = rt.arange(len(o)) * 1.5
    return o.trimbr(v), o.mode(rt.arange(len(o)) % 3)


@op("cat catm catn")
def w_aslist(o, r):
    import riptable as rt
    v = [rt.arange(len(o)), rt.arange(len(o)) * 0.5]
    return o.nansum(v), o.max(v[0], transform=True)


@op("cat")
def w_strings(o, r):
    return o.str.contains("a"), o.str.upper if False else None, o.isin(["aa", "b"]), o == "aa", o > "b"


@op("cat")
def w_catops(o, r):
    c = o.copy()
    c.category_add("zzz")
    d = c.copy()
    d[0] = "zzz"
    return c, d, d.count()


@op("cat catb")
def w_remove(o, r):
    c = o.copy()
    v = c.category_array[0]
    c.category_remove(v)
    return c


@op("cat")
def w_sortgb(o, r):
    import riptable as rt
    c = rt.Categorical(o.expand_array, ordered=False)
    return c.count(), c.sum(rt.arange(len(c)))


@op("cat catm catn")
def w_filtset(o, r):
    import riptable as rt
    c = o.filter(rt.FA(np.arange(len(o)) % 2 == 0))
    return c, c.count(), c.sum(rt.arange(len(c)))


@op("cat")
def w_frombin(o, r):
    import riptable as rt
    return rt.Categorical(rt.FA([1, 2, 0, 2]), ["u", "v"]), rt.Categorical(rt.FA([0, 1, 1]), ["u", "v"], base_index=0), rt.Categorical(["q", "p", "q"], ordered=False)


@op("cat catn")
def w_ismember(o, r):
    import riptable as rt
    return rt.ismember(o, o[::2]), rt.hstack([o, o[:1], o[1:]])


@op("cate")
def w_enum(o, r):
    return o.category_mapping, o == "five", o.as_string_array, o.expand_array if False else None


@op("cate", mut=True)
def w_enum_edit(o, r):
    o.unlock()
    o.mapping_add(77, "new")
    o[0] = "new"


@op("cate", mut=True)
def w_enum_repl(o, r):
    o.unlock()
    o.mapping_replace(1, "uno")


@op("cat", mut=True)
def w_setmask(o, r):
    o.unlock()
    o[np.arange(len(o)) % 2 == 0] = o.category_array[0]
    o.invalid_set(None) if False else None


@op("cat", mut=True)
def w_lock(o, r):
    o.unlock()
    o.lock()
    o.unlock()
    o[len(o) - 1] = o.category_array[0]


# ------------------------------------------------------------------------------------------------ grouping, accum
@op("grp")
def h_more(o, r):
    return o.ismultikey, o.unique_count, o.isordered, o.igroupreverse, o.all_unique


@op("grp")
def h_hstack(o, r):
    import riptable as rt
    g = o.copy()
    return g.ikey, g.isortrows if False else None


@op("acc")
def a_more(o, r):
    import riptable as rt
    v = rt.arange(len(o.ikey)) * 1.5
    return o.nanstd(v), o.max(v), o.count(filter=v > 2)


@op("acc")
def a_custom(o, r):
    import riptable as rt
    return o.sum([rt.arange(len(o.ikey)), rt.arange(len(o.ikey)) * 2.0]) if False else o.median(rt.arange(len(o.ikey)) * 1.0)


# ------------------------------------------------------------------------------------------------ PDataset
@op("pds")
def p_more(o, r):
    return o.pcat.count(), o.partition(0), o["20200101"] if "20200101" in o.pnames else None, [int(x) for x in o.pcutoffs], o.pslice(1)


@op("pds")
def p_groupby(o, r):
    return o.pcat.nansum(o["x"])


@op("pds")
def p_hstack(o, r):
    import riptable as rt
    return o.copy()


@op("pds", mut=True)
def p_names(o, r):
    o.set_pnames(["pa", "pb"])


# ------------------------------------------------------------------------------------------------ arrays
@op("fa ia")
def x_more(o, r):
    import riptable as rt
    return o.percentile(50) if False else rt.nanpercentile(o, [25, 75]), o.nanrankdata(), o.rolling_quantile(0.5, 2) if False else o.rolling_nansum(2)


@op("fa ia")
def x_fill(o, r):
    return o.fill_forward(), o.fill_backward(), o.replacena(0), o.copy_invalid(), o.isnotnan(), o.isnanorzero()


@op("fa ia")
def x_user(o, r):
    return o.apply(user(lambda x: x * 2)) if r.random() < 0.6 else o.apply_pandas(user(lambda x: x), raw=False) if False else o.apply(user(lambda x: -x), otypes=[o.dtype])


@op("fa")
def x_window(o, r):
    import riptable as rt
    t = rt.arange(len(o)) * 10
    return o.timewindow_sum(t, 15), o.ema_decay(t.astype("float64"), 0.1) if hasattr(o, "ema_decay") else None


@op("fa ia")
def x_map(o, r):
    return o.map({1: 2, 3: 4}) if hasattr(o, "map") else None, o.differs(), o.transitions(), o.sign()


@op("fa ia")
def x_qcut(o, r):
    import riptable as rt
    return rt.qcut(o, 2) if len(o) > 4 else None, rt.cut(o, [-100, 0, 5, 100])


@op("fa ia")
def x_interp(o, r):
    import riptable as rt
    return rt.interp(rt.FA(np.linspace(0, 9, len(o))), rt.FA([0.0, 5.0, 9.0]), rt.FA([1.0, 2.0, 8.0])), rt.searchsorted(rt.FA([0, 5, 9]), o)


@op("fa ia")
def x_arrow(o, r):
    import riptable as rt
    return rt.FastArray.from_arrow(o.to_arrow(), zero_copy_only=False)


@op("fa ia")
def x_name(o, r):
    a = o.copy()
    a.set_name("nm")
    return a, a[::2].get_name(), a.get_name()


@op("fa ia", mut=True)
def x_putmask(o, r):
    import riptable as rt
    rt.putmask(o, o > 0, 7)
    o[[0]] = 1


@op("fa ia", mut=True)
def x_replace(o, r):
    o.fill_invalid(inplace=True) if r.random() < 0.3 else o.fillna(method="ffill", inplace=True)


@op("fa", mut=True)
def x_ops(o, r):
    o -= 1
    o *= 2
    o[o.isnan()] = 0


@op("ia")
def x_masks(o, r):
    import riptable as rt
    m = [o > 0, o < 10, o != 3]
    return rt.mask_or(m), rt.mask_and(m), rt.mask_andnot(m), rt.mask_xor(m), rt.combine_filter(o, m[0]) if False else rt.bool_to_fancy(m[0])


@op("ia")
def x_groups(o, r):
    import riptable as rt
    g = rt.groupbyhash(o)
    return g["iKey"], g["unique_count"], rt.groupbypack(g["iKey"], None, g["unique_count"] + 1)["nCountGroup"]


@op("ia")
def x_sorts(o, r):
    import riptable as rt
    return o.issorted(), rt.unique(o, sorted=False), rt.multikeyhash([o, o]) if False else rt.sort(o)[::-1], o.argpartition2(0) if False else None


@op("str")
def y_more(o, r):
    return o.str.endswith(b"a"), o.str.index(b"a"), o.str.replace("a", "zz") if False else o.str.reverse, o.str.strpbrk(b"abc") if hasattr(o.str, "strpbrk") else None


@op("str")
def y_cat(o, r):
    import riptable as rt
    c = rt.Cat(o)
    return c.str.contains("a"), c.str.strlen, rt.FAString(o).apply(user(lambda x: x)) if False else None


@op("str")
def y_ops(o, r):
    import riptable as rt
    return rt.hstack([o, o]), rt.ismember(o, o[::2]), rt.where(o == b"aa", b"zz", b"q"), o.fillna(b"x") if False else o.copy_invalid(), o + b"!"


@op("dtn")
def z_more(o, r):
    return o.day_of_month, o.start_of_week, o.is_weekend, o.nanosecond, o.seconds_since_epoch, o.monthyear, o.hour_span, o.is_dst, o.tz_offset


@op("dtn")
def z_text(o, r):
    return o.to_iso(), o.strftime("%d/%m/%y"), o.resample("H") if len(o) and False else None, o.time_since_start_of_year()


@op("dtn")
def z_parse(o, r):
    import riptable as rt
    return rt.DateTimeNano(["20200101 10:11:12.5", "2021-02-03 04:05"], from_tz="NYC"), rt.DateTimeNano(["01/02/2020"], format="%m/%d/%Y", from_tz="GMT"), rt.Date(["20200229", "2021-12-31"]), rt.TimeSpan(["10:11", "00:00:01.5"])


@op("dtn")
def z_cut(o, r):
    import riptable as rt
    return o.cut_time(rt.TimeSpan(1, "h"), start_time=(0, 0), end_time=(23, 0)), rt.Date(o), o.date_to_nano() if False else None


@op("date")
def z_date(o, r):
    import riptable as rt
    return o + 3, o - o, o.start_of_week, o.is_weekday, o.monthyear, rt.Date.range("20200101", "20200110", step=2), o.seconds_since_epoch, o.is_leapyear, rt.DateTimeNano(o, from_tz="NYC")


@op("ts")
def z_span(o, r):
    return o.days, o.nanoseconds, o / 2, o.max(), -o, o.strftime("%H:%M") if hasattr(o, "strftime") else None


@op("two")
def k_asof(o, r):
    import riptable as rt
    a, b = o.a.sort_copy("g"), o.b.sort_copy("g")
    return rt.merge_asof(a, b, on="g", by="k", suffixes=("_a", "_b"))


@op("two")
def k_lookup2(o, r):
    return o.a.merge_lookup(o.b, on=["k", "g"], columns_right=["v"]), o.a.merge2(o.b, on=["k", "g"], how="left", suffixes=("_a", "_b")) if hasattr(o.a, "merge2") else None


@op("two")
def k_cats(o, r):
    import riptable as rt
    a, b = rt.Cat(o.a.k), rt.Cat(o.b.k)
    return rt.hstack([a, b]), rt.ismember(a, b), rt.Categorical.hstack([a, b]), rt.hstack([rt.Cat([o.a.k, o.a.g]), rt.Cat([o.b.k, o.b.g])])


@op("two")
def k_indices(o, r):
    import riptable as rt
    return rt.alignmk(o.a.k, o.b.k, rt.arange(len(o.a.k)), rt.arange(len(o.b.k)), direction="backward"), rt.assoc_index([o.a.k, o.a.g], [o.b.k, o.b.g])


@op("two")
def k_hstackst(o, r):
    import riptable as rt
    return rt.Dataset.hstack([o.a, o.a]) if hasattr(rt.Dataset, "hstack") else None, rt.Struct({"a": o.a}).copy()


@op("ms")
def k_ms(o, r):
    return [(k, state(o[k])) for k in o.keys()], o.shape, o.copy() if False else None
