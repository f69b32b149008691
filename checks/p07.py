"""P07: parallel kernels give one result for every work split and interleaving."""
import math
import random

import numpy as np

from sim import par
from sim.core import Check, Violation
from sim.values import diff, snap

par.install()

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def strings(r, n, uni):
    alpha = "abAB c" + ("\u00e9\u4e2d" if uni else "")
    out = ["".join(r.choice(alpha) for _ in range(r.choice([0, 1, 2, 3, 5, 7]))) for _ in range(n)]
    out = [s.rstrip("\0") for s in out]
    if n and all(s == "" for s in out):
        out[0] = "ab"
    return out


def sarr(r):
    import riptable as rt

    uni = r.random() < 0.4
    n = r.choice([1, 2, 3, 5, 9, 14])
    L = strings(r, n, uni)
    return L, rt.FA(L, unicode=True) if uni else rt.FA(L, unicode=False)


def txt(a):
    return [x.decode() if isinstance(x, bytes) else str(x) for x in np.asarray(a).tolist()]


def want(got, exp, what):
    if got != exp:
        raise Violation("wrong-result", "%s: expected %r got %r" % (what, exp, got))


# each op: (r, check) -> value; when check is True it also compares with a plain Python computation
@op
def s_upper(r, check):
    L, a = sarr(r)
    v = a.str.upper
    if check:
        want(txt(v), ["".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s) for s in L], "upper")
    return v


@op
def s_lower(r, check):
    L, a = sarr(r)
    v = a.str.lower
    if check:
        want(txt(v), ["".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s) for s in L], "lower")
    return v


@op
def s_reverse(r, check):
    L, a = sarr(r)
    v = a.str.reverse
    if check:
        want(txt(v), [s[::-1] for s in L], "reverse")
    return v


@op
def s_removetrailing(r, check):
    L, a = sarr(r)
    ch = r.choice([32, 97])
    v = a.str.removetrailing(ch)
    if check:
        want(txt(v), [s.rstrip(chr(ch)) for s in L], "removetrailing")
    return v


@op
def s_strlen(r, check):
    L, a = sarr(r)
    v = a.str.strlen
    if check:
        want(v.tolist(), [len(s) for s in L], "strlen")
    return v


@op
def s_index(r, check):
    L, a = sarr(r)
    pat = r.choice(["a", "ab", "A", "bA", "ab c"])
    v = a.str.index(pat)
    if check:
        want(v.tolist(), [s.find(pat) for s in L], "index %r" % pat)
    return v


@op
def s_index_any(r, check):
    L, a = sarr(r)
    pat = r.choice(["a", "Bc", "A b"])
    v = a.str.index_any_of(pat)
    if check:
        want(v.tolist(), [min([s.find(c) for c in pat if c in s], default=-1) for s in L], "index_any_of %r" % pat)
    return v


@op
def s_contains(r, check):
    L, a = sarr(r)
    pat = r.choice(["a", "ab", "A", "bA", " "])
    v = a.str.contains(pat)
    if check:
        want(v.tolist(), [pat in s for s in L], "contains %r" % pat)
    return v


@op
def s_startswith(r, check):
    L, a = sarr(r)
    pat = r.choice(["a", "ab", "A"])
    v = a.str.startswith(pat)
    if check:
        want(v.tolist(), [s.startswith(pat) for s in L], "startswith %r" % pat)
    return v


@op
def s_endswith(r, check):
    L, a = sarr(r)
    pat = r.choice(["a", "ab", "A"])
    v = a.str.endswith(pat)
    if check:
        want(v.tolist(), [s.endswith(pat) for s in L], "endswith %r" % pat)
    return v


@op
def s_replace(r, check):
    L, a = sarr(r)
    old, new = r.choice(["a", "ab", "b"]), r.choice(["xyz", "q", "", "zz"])
    v = a.str.replace(old, new)
    if check:
        want(txt(v), [s.replace(old, new) for s in L], "replace %r %r" % (old, new))
    return v


@op
def s_substr(r, check):
    L, a = sarr(r)
    mode = r.randrange(3)
    if mode == 0:
        st, en = r.choice([0, 1, 2]), r.choice([1, 3, 5, None])
        if en is None:
            v = a.str.substr(st)
            exp = [s[0:st] for s in L]
        else:
            v = a.str.substr(st, en)
            exp = [s[st:en] for s in L]
        exp = None if en is None else exp
    elif mode == 1:
        sts = [r.choice([0, 1, 2]) for _ in L]
        import riptable as rt
        v = a.str.substr(rt.FA(sts), rt.FA([x + 2 for x in sts]))
        exp = [s[x:x + 2] for s, x in zip(L, sts)]
    else:
        v = a.str.substr(-2, -1) if r.random() < 0.5 else a.str.substr(0, -1)
        exp = None
    if check and exp is not None:
        want(txt(v), exp, "substr")
    return v


@op
def s_char(r, check):
    import riptable as rt
    L, a = sarr(r)
    pos = [r.choice([0, 1, 2]) for _ in L]
    w = max(len(s) for s in L)
    pos = [min(p, max(w - 1, 0)) for p in pos]
    return a.str.char(rt.FA(pos) if r.random() < 0.6 else pos[0])


@op
def s_char_par(r, check):
    import riptable as rt
    from riptable.rt_str import FAString
    L, a = sarr(r)
    k = getattr(FAString, "nb_char_par", None)
    if k is None:
        return None
    s = FAString(a)
    pos = np.array([r.choice([0, 1, 2, -1, 9]) for _ in L])
    out = np.zeros(len(L), dtype=s.dtype)
    return k(s, pos, s._itemsize, s.strlen, out), out


@op
def s_inplace_par(r, check):
    """The parallel in-place kernels (exposed next to the serial ones)."""
    import riptable as rt
    from riptable.rt_str import FAString
    L, a = sarr(r)
    s = FAString(a.copy())
    which = r.choice(["nb_upper_inplace_par", "nb_reverse_inplace_par"])
    k = getattr(FAString, which, None)
    if k is None:
        return None
    k(s, s._itemsize)
    v = s.backtostring
    if check:
        f = (lambda x: "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in x)) if "upper" in which else (lambda x: x[::-1])
        want(txt(v), [f(x) for x in L], which)
    return v


@op
def s_apply_unique(r, check):
    import riptable as rt
    L, a = sarr(r)
    c = rt.Cat(a) if all(L) else None
    if c is None:
        return a.str.contains("a", apply_unique=True) if "apply_unique" in a.str.contains.__code__.co_varnames else a.str.regex_match("a", apply_unique=True)
    v = c.str.upper
    return v, c.str.contains("a"), c.str.strlen


def nums(r, n, kind=None):
    import riptable as rt
    kind = kind or r.choice(["f8", "f4", "i4", "i8", "i2"])
    xs = [r.randrange(-40, 40) for _ in range(n)]
    if kind[0] == "f":
        L = [float("nan") if r.random() < 0.2 else x * 0.25 for x in xs]
        return L, rt.FA(L, dtype=kind)
    a = rt.FA(xs, dtype=kind)
    L = list(xs)
    for i in range(n):
        if r.random() < 0.15:
            a[i] = a.inv
            L[i] = None
    return L, a


def bad(x):
    return x is None or x != x


def filt(r, n):
    import riptable as rt
    f = [r.random() < 0.6 for _ in range(n)]
    if not any(f):
        f[0] = True
    return f, rt.FA(f)


@op
def f_nansum(r, check):
    n = r.choice([1, 2, 5, 9, 16])
    L, a = nums(r, n)
    f, fa = filt(r, n)
    v = a.nansum(filter=fa)
    if check:
        want(float(v), float(sum(x for x, k in zip(L, f) if k and not bad(x))), "nansum(filter)")
    return float(v)


@op
def f_nanmean(r, check):
    n = r.choice([2, 5, 9, 16])
    L, a = nums(r, n)
    f, fa = filt(r, n)
    sel = [x for x, k in zip(L, f) if k and not bad(x)]
    if not sel:
        return None
    v = float(a.nanmean(filter=fa))
    if check and not math.isclose(v, sum(sel) / len(sel), rel_tol=1e-6, abs_tol=1e-9):
        raise Violation("wrong-result", "nanmean %r %r" % (v, sel))
    return v


@op
def f_var(r, check):
    n = r.choice([3, 5, 9, 16])
    L, a = nums(r, n, r.choice(["f8", "i4"]))
    f, fa = filt(r, n)
    sel = [x for x, k in zip(L, f) if k and not bad(x)]
    if len(sel) < 2:
        return None
    v = float(a.nanvar(filter=fa))
    m = sum(sel) / len(sel)
    e = sum((x - m) ** 2 for x in sel) / (len(sel) - 1)
    if check and not math.isclose(v, e, rel_tol=1e-6, abs_tol=1e-9):
        raise Violation("wrong-result", "nanvar %r expected %r" % (v, e))
    return v, float(a.nanstd(filter=fa))


@op
def f_sum(r, check):
    import riptable as rt
    from riptable import rt_fastarray as m
    n = r.choice([1, 2, 5, 9, 16])
    xs = [r.randrange(-40, 40) * 0.5 for _ in range(n)]
    a = rt.FA(xs)
    f, fa = filt(r, n)
    sel = [x for x, k in zip(xs, f) if k]
    out = [float(a.mean(filter=fa))]
    if check:
        want(math.isclose(out[0], sum(sel) / len(sel), rel_tol=1e-6, abs_tol=1e-8), True, "mean(filter)")
    if hasattr(m, "_fsum"):
        out.append(float(m._fsum(a, fa)))
    if len(sel) > 1:
        out.append(float(a.var(filter=fa)))
        out.append(float(a.std(filter=fa)))
    return out


def catkeys(r, n):
    return [r.choice("abcdefg"[:r.choice([1, 3, 7])]) for _ in range(n)]


@op
def c_compare(r, check):
    import riptable as rt
    n = r.choice([1, 3, 6, 12])
    ks = [r.choice([1, 2, 3, 5]) for _ in range(n)]
    c = rt.Cat(rt.FA(ks))
    other = [r.choice([1, 2, 3, 4]) for _ in range(n)]
    o = rt.FA(other)
    res = [c == o, c != o, c > o, c >= o, c < o, c <= o]
    if check:
        exp = [[x == y for x, y in zip(ks, other)], [x != y for x, y in zip(ks, other)], [x > y for x, y in zip(ks, other)],
               [x >= y for x, y in zip(ks, other)], [x < y for x, y in zip(ks, other)], [x <= y for x, y in zip(ks, other)]]
        got = [x.tolist() for x in res]
        if got != exp and c.base_index == 0:
            want(got, exp, "compare %r %r" % (ks, other))
    return res


@op
def c_numba_apply(r, check):
    import riptable as rt
    n = r.choice([2, 5, 11])
    ks = catkeys(r, n)
    c = rt.Cat(ks)
    xs = [r.randrange(50) * 0.5 for _ in range(n)]
    a = rt.FA(xs)
    how = r.randrange(3)
    flt = None
    if r.random() < 0.4:
        fl, flt = filt(r, n)
    else:
        fl = [True] * n
    if how == 0:
        v = c.numba_apply(lambda x: np.sum(x), a, filter=flt)
        if check:
            exp = [sum(x for x, k, q in zip(xs, ks, fl) if k == u and q) for u in sorted(set(ks))]
            want([float(x) for x in list(v.values())[0]], exp, "numba_apply scalar")
    elif how == 1:
        v = c.numba_apply(lambda x: np.sum(x), a, filter=flt, transform=True)
    else:
        v = c.numba_apply(lambda x: x * 2, a, filter=flt)
    return v


def gbds(r, n, floats=True):
    import riptable as rt
    ks = catkeys(r, n)
    L, a = nums(r, n, "f8" if floats else r.choice(["i4", "i8", "f8"]))
    return ks, L, rt.Dataset({"k": ks, "x": a})


@op
def g_nbsum(r, check):
    import riptable as rt
    n = r.choice([1, 4, 9, 15])
    ks, L, ds = gbds(r, n, floats=False)
    ds.x = rt.FA([0 if bad(x) else x for x in L], dtype=ds.x.dtype)
    v = ds.gb("k").nb_sum() if r.random() < 0.5 else ds.gbu("k").nb_sum()
    if check:
        u = [x for x in txt(v.k)]
        want([float(x) for x in v.x], [float(sum((0 if bad(x) else x) for x, k in zip(L, ks) if k == q)) for q in u], "nb_sum %s" % u)
    return v


@op
def g_nbmin(r, check):
    n = r.choice([1, 4, 9, 15])
    ks, L, ds = gbds(r, n, floats=False)
    if any(bad(x) for x in L):
        import riptable as rt
        ds.x = rt.FA([3 if bad(x) else x for x in L], dtype=ds.x.dtype)
        L = [3 if bad(x) else x for x in L]
    v = ds.gb("k").nb_min()
    if check:
        u = txt(v.k)
        want([float(x) for x in v.x], [float(min(x for x, k in zip(L, ks) if k == q)) for q in u], "nb_min")
    return v


@op
def g_ema(r, check):
    import riptable as rt
    n = r.choice([2, 5, 9])
    ks, L, ds = gbds(r, n)
    ds.x = rt.FA([1.0 if bad(x) else x for x in L])
    return ds.gb("k").nb_ema(time=rt.arange(n), decay_rate=1.0)


@op
def g_fill(r, check):
    import riptable as rt
    n = r.choice([1, 4, 9, 15])
    ks, L, ds = gbds(r, n, floats=False)
    lim = r.choice([0, 0, 1, 2])
    fwd = r.random() < 0.5
    fv = r.choice([None, 0])
    g = ds.gb("k")
    v = g.nb_fill_forward(limit=lim, fill_val=fv) if fwd else g.nb_fill_backward(limit=lim, fill_val=fv)
    if check:
        exp = list(L)
        order = range(n) if fwd else range(n - 1, -1, -1)
        for q in set(ks):
            last, cnt = fv, 0
            for i in order:
                if ks[i] != q:
                    continue
                if bad(L[i]):
                    cnt += 1
                    if not lim or cnt <= lim:
                        exp[i] = last
                else:
                    last, cnt = L[i], 0
        got = [None if bad(float(x)) or (isinstance(x, np.integer) and x == np.iinfo(x.dtype).min) else float(x) for x in np.asarray(v.x)]
        want(got, [None if bad(x) else float(x) for x in exp], "nb_fill %s limit %s" % ("forward" if fwd else "backward", lim))
    return v


@op
def g_old(r, check):
    import riptable as rt
    from riptable.rt_groupbynumba import GroupbyNumba
    n = r.choice([2, 5, 9])
    ks, L, ds = gbds(r, n)
    g = ds.gb("k").get_groupings()
    how = r.choice(["_numbaFillForward", "_numbaFillBackward", "_numbaTrim"])
    k = getattr(GroupbyNumba, how, None)
    ret = rt.zeros(n)
    if k is not None:
        k(g["iGroup"], g["iFirstGroup"], g["nCountGroup"], ds.x, ret, *((10, 90) if how == "_numbaTrim" else ()))
    return ret


@op
def g_ema2(r, check):
    import riptable as rt
    from riptable.rt_groupbynumba import GroupbyNumba
    n = r.choice([2, 5, 9])
    ks, L, ds = gbds(r, n)
    g = ds.gb("k").get_groupings()
    ret = rt.zeros(n)
    k = getattr(GroupbyNumba, "_numbaEMA2", None)
    if k is None:
        return None
    k(g["iGroup"], g["iFirstGroup"], g["nCountGroup"], ds.x, ret, rt.arange(n).astype(float), 0.5)
    return ret


def jds(r):
    import riptable as rt
    nl, nr = r.choice([0, 1, 3, 7, 11]), r.choice([0, 1, 2, 5, 9])
    strk = r.random() < 0.5
    dom = ["a", "b", "c", "d", "e", "f"][:r.choice([2, 4, 6])]
    f = (lambda q: q) if strk else (lambda q: ord(q) - 96)
    lk = [f(r.choice(dom)) for _ in range(nl)]
    rk = [f(r.choice(dom)) for _ in range(nr)]
    if not nl or not nr:
        typ = "S1" if strk else "i8"
        mk = lambda x: rt.FA(np.array(x, dtype=typ))
    else:
        mk = rt.FA
    left = rt.Dataset({"k": mk(lk), "lv": rt.arange(nl)})
    right = rt.Dataset({"k": mk(rk), "rv": rt.arange(nr) + 100})
    return lk, rk, left, right


def pairs(v):
    inv = lambda x: None if (isinstance(x, np.integer) and x == np.iinfo(x.dtype).min) or x != x else int(x)
    return [(inv(a), inv(b)) for a, b in zip(np.asarray(v.lv), np.asarray(v.rv))]


@op
def j_merge2(r, check):
    import riptable as rt
    lk, rk, left, right = jds(r)
    how = r.choice(["inner", "left", "right", "outer", "inner", "left"])
    v = rt.merge2(left, right, on="k", how=how, suffixes=("_x", "_y"))
    if check:
        got = sorted(pairs(v), key=str)
        exp = [(i, 100 + j) for i, a in enumerate(lk) for j, b in enumerate(rk) if a == b]
        if how in ("left", "outer"):
            exp += [(i, None) for i, a in enumerate(lk) if a not in rk]
        if how in ("right", "outer"):
            exp += [(None, 100 + j) for j, b in enumerate(rk) if b not in lk]
        want(got, sorted(exp, key=str), "merge2 %s %s %s" % (how, lk, rk))
    return v


@op
def j_merge2_keep(r, check):
    import riptable as rt
    lk, rk, left, right = jds(r)
    how = r.choice(["inner", "left", "right", "outer"])
    keep = (r.choice([None, "first", "last"]), r.choice([None, "first", "last"]))
    return rt.merge2(left, right, on="k", how=how, suffixes=("_x", "_y"), keep=keep)


@op
def j_lookup(r, check):
    import riptable as rt
    lk, rk, left, right = jds(r)
    keep = r.choice(["first", "last"])
    v = rt.merge_lookup(left, right, on="k", columns_left=["k", "lv"], columns_right=["rv"], keep=keep, require_match=False)
    if check:
        pos = {}
        for j, b in enumerate(rk):
            if keep == "last" or b not in pos:
                pos[b] = j
        want(pairs(v), [(i, 100 + pos[a] if a in pos else None) for i, a in enumerate(lk)], "merge_lookup %s %s" % (lk, rk))
    return v


@op
def j_asof(r, check):
    import riptable as rt
    nl, nr = r.choice([1, 3, 7, 11]), r.choice([1, 2, 5, 9])
    dom = "abc"[:r.choice([1, 2, 3])]
    lt = sorted(r.randrange(20) for _ in range(nl))
    rtm = sorted(r.randrange(20) for _ in range(nr))
    lb = [r.choice(dom) for _ in lt]
    rb = [r.choice(dom) for _ in rtm]
    left = rt.Dataset({"t": lt, "b": lb, "lv": rt.arange(nl)})
    right = rt.Dataset({"t": rtm, "b": rb, "rv": rt.arange(nr) + 100})
    direction = r.choice(["backward", "forward", "nearest"])
    by = r.choice([None, "b"])
    exact = r.random() < 0.7
    if by:
        missing = set(lb) - set(rb)
    v = rt.merge_asof(left, right, on="t", by=by, direction=direction, allow_exact_matches=exact, columns_left=["t", "b", "lv"], columns_right=["rv"], verbose=False)
    return v


@op
def j_parts(r, check):
    """The expansion kernels behind joins, directly."""
    import riptable as rt
    from riptable import rt_merge as m
    n = r.choice([1, 3, 6, 10])
    arr = np.array([r.randrange(100) for _ in range(n)], dtype=np.int64)
    rep = np.array([r.choice([0, 1, 1, 2, 3]) for _ in range(n)], dtype=np.int64)
    cs = rep.cumsum()
    out = []
    k = getattr(m, "_partial_repeat", None)
    if k is not None:
        o = np.zeros(int(cs[-1]), dtype=np.int64)
        k(arr, cs, o)
        if check:
            want(o.tolist(), np.repeat(arr, rep).tolist(), "_partial_repeat")
        out.append(o)
    k = getattr(m, "_fused_arange_repeat", None)
    if k is not None:
        o = np.zeros(int(cs[-1]), dtype=np.int64)
        k(cs, o)
        if check:
            want(o.tolist(), np.repeat(np.arange(n), rep).tolist(), "_fused_arange_repeat")
        out.append(o)
    return out


@op
def fa_numba(r, check):
    """fill_forward/backward of arrays (their kernels are serial today)."""
    n = r.choice([1, 4, 9])
    L, a = nums(r, n)
    return a.fill_forward(limit=r.choice([0, 1])), a.fill_backward()


WEIGHT = {n: 1 for n in OPS}
for _n in ("j_merge2", "j_lookup", "j_asof", "g_fill", "s_replace", "j_merge2_keep"):
    WEIGHT[_n] = 3


def same(a, b):
    """Equal snapshots; sums of fractions may be added up in another order by another split."""
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
        return False
    if len(a) == 3 and a[:2] == b[:2] == ("scalar", "float"):
        x, y = float(a[2]), float(b[2])
        return math.isclose(x, y, rel_tol=1e-6, abs_tol=1e-8)
    return all(same(x, y) for x, y in zip(a, b))


class P07(Check):
    id = "P07"
    title = "Parallel kernels give one result for every work split and interleaving"
    configs = {"default": 1.0}
    isolate = True
    quick_runs = 9000
    thorough_runs = 200000
    quick_wall = 200
    rule = "distinct (operation, data seed, realised cuts and switches) of runs in which at least one parallel loop was split"
    components_real = ["the kernel source of /repo (executed as Python), riptable's code around it", "riptide_cpp for sorting, hashing and masks (threads off)"]
    components_stub = ["numba's compiler and thread pool: prange loops are driven by virtual workers", "uninitialised memory: a run-dependent fill pattern"]
    assumptions = ["numba's documented parallel semantics: private scalars, reductions for `op=` on outer scalars, shared arrays",
                   "statements are atomic except read-modify-write of an array element; calls inside a loop body are atomic"]
    list_fields = ("preempt",)

    def setup(self):
        import riptable as rt
        from riptable.rt_str import FAString

        par.patch_empty()
        if hasattr(FAString, "_APPLY_PARALLEL_THRESHOLD"):
            FAString._APPLY_PARALLEL_THRESHOLD = 0
        for name in OPS:  # rewrite the kernels once, before forking
            for sd in range(6):
                try:
                    OPS[name](random.Random("warm%d" % sd), False)
                except Exception:
                    pass

    def gen(self, rng, cfg):
        names = list(OPS)
        return {"op": rng.choices(names, [WEIGHT[n] for n in names])[0], "data": rng.randrange(1 << 30), "sseed": rng.randrange(1 << 30),
                "p": rng.choice([0.02, 0.1, 0.3, 0.6, 0.9]), "parts": rng.choice([2, 2, 3, 4, 8, 16]), "cores": rng.choice([1, 2, 3, 5, 12])}

    def shrink(self, t):
        if t.get("cuts"):
            for i, c in enumerate(t["cuts"]):
                for j in range(len(c)):
                    yield dict(t, cuts=t["cuts"][:i] + [c[:j] + c[j + 1:]] + t["cuts"][i + 1:])
        yield from super().shrink(t)

    def run(self, t, env):
        from riptable.rt_groupbynumba import GroupbyNumba

        f = OPS[t["op"]]
        if hasattr(GroupbyNumba, "CORE_COUNT"):
            GroupbyNumba.CORE_COUNT = 1
        base = self._call(f, t, True)
        if hasattr(GroupbyNumba, "CORE_COUNT"):
            GroupbyNumba.CORE_COUNT = t["cores"]
        if "preempt" in t:
            pr = par.ParRun(cuts=t["cuts"], preempt=t["preempt"])
        else:
            pr = par.ParRun(rng=random.Random(t["sseed"]), p=t["p"], nparts=t["parts"])
        par.ACTIVE = pr
        try:
            got = self._call(f, t, False)
        finally:
            par.ACTIVE = None
            env.realised = {"preempt": pr.realised, "cuts": pr.cuts}
            env.steps += pr.step
        env.fault("worker-switch", pr.switches)
        env.fault("range-split", sum(1 for c in pr.cuts if c))
        env.probe("parallel-loops", pr.loops)
        for k in pr.kernels:
            env.probe("kernel " + k)
        if any(pr.cuts):
            env.key(t["op"], t["data"], pr.cuts, pr.realised)
        env.event("op", t["op"], base, got)
        if not same(base, got):
            raise Violation("split-dependent", "%s (data %d): one worker vs %s: %s" % (t["op"], t["data"], [len(c) + 1 for c in pr.cuts], diff(base, got)))

    def _call(self, f, t, check):
        try:
            return ("ok", snap(f(random.Random(t["data"]), check)))
        except Violation:
            raise
        except Exception as e:
            return ("exc", type(e).__name__, str(e)[:200])


CHECK = P07()
