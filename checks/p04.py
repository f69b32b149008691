"""P04: stacked load and file concatenation equal row-wise concatenation (history of files, gaps, filters, vanishing files)."""
import os
import warnings

import numpy as np

from sim import disk as D
from sim import values as V
from sim.core import Check, Violation

from .p01 import hash_snap
from .p03 import tree_bytes

# a column family is a set of kinds whose rows can meet in one stacked column
FAMILIES = {
    "i": ["int8", "int16", "int32", "int64"], "u": ["uint8", "uint16", "uint32"], "f": ["float64", "float32"], "if": ["int32", "int16", "float64"],
    "S": ["S"], "U": ["U"], "b": ["bool"], "cat": ["cat"], "catu": ["catu"], "catnum": ["catnum"], "catmulti": ["catmulti"], "catenum": ["catenum"],
    "catgap": ["catgap", "cat"], "dtn": ["dtn"], "ts": ["ts"], "date": ["date"], "dspan": ["dspan"], "mat": ["mat"], "cat0": ["cat"],
}
NAMES = ["a", "b", "price", "Size", "sym_bol", "Zed", "name with space", "q", "w1", "A", "ab", "abc", "w12", "pric", "\u00e9t\u00e9"]
INV = "INV"


def cat_vals(c):
    """values per row of a Categorical, Filtered as INV, independent of how categories are numbered"""
    import riptable as rt

    codes = np.asarray(c._fa).tolist()
    if c.isenum:
        m = c.category_mapping
        return [m.get(x, INV) if x in m else INV for x in codes]
    d = [np.asarray(v).tolist() for v in c.category_dict.values()]
    d = [[x.decode('utf8', 'replace') if isinstance(x, bytes) else x for x in v] for v in d]
    base = c.base_index
    out = []
    for x in codes:
        i = x - base
        if x < base or i >= len(d[0]) or x < 0:
            out.append(INV)
        else:
            out.append(tuple(v[i] for v in d) if len(d) > 1 else d[0][i])
    return out


def col_vals(c):
    import riptable as rt

    if isinstance(c, rt.Categorical):
        return ("Cat", c.category_mode.name == "MultiKey", cat_vals(c))
    if isinstance(c, rt.DateTimeNano):
        return ("DTN", None, [INV if x <= 0 else x for x in np.asarray(c._fa).tolist()])
    if isinstance(c, rt.TimeSpan):
        return ("TimeSpan", None, [INV if x != x else x for x in np.asarray(c._fa).tolist()])
    if isinstance(c, rt.Date):
        return ("Date", None, [INV if x <= 0 else x for x in np.asarray(c._fa).tolist()])
    if isinstance(c, rt.DateSpan):
        return ("DateSpan", None, [INV if x == np.iinfo("int32").min else x for x in np.asarray(c._fa).tolist()])
    a = np.asarray(c)
    k = a.dtype.kind
    if k in "iu":
        s = np.iinfo(a.dtype).min if k == "i" else np.iinfo(a.dtype).max
        v = [INV if x == s else float(x) for x in a.ravel().tolist()]
        return ("num", None, v)
    if k == "f":
        v = [INV if x != x else x for x in a.ravel().tolist()]
        return ("num", None if a.ndim == 1 else a.shape[1], v)
    if k == "b":
        return ("b", None, a.tolist())
    return ("str", None, [x.decode('utf8', 'replace') if isinstance(x, bytes) else x for x in a.tolist()])


def model_stack(dss):
    """[(name, kind, values)] in stacked column order, and the row count"""
    order, kinds = [], {}
    for d in dss:
        for k in d.keys():
            if k not in kinds:
                order.append(k)
                kinds[k] = col_vals(d[k])[:2]
    total = sum(d.get_nrows() for d in dss)
    out = {}
    for k in order:
        vals = []
        w = kinds[k][1] if kinds[k][0] == "num" and kinds[k][1] else 1
        fill = {"b": False, "str": ""}.get(kinds[k][0], INV)
        for d in dss:
            if k in d.keys():
                vals += col_vals(d[k])[2]
            else:
                vals += [fill] * (d.get_nrows() * w)
        out[k] = (kinds[k][0], kinds[k][1], vals)
    return order, out, total


def cat_keys(c):
    if c.isenum:
        return sorted(repr(x) for x in c.category_mapping.items())
    d = [np.asarray(v).tolist() for v in c.category_dict.values()]
    d = [[x.decode("utf8", "replace") if isinstance(x, bytes) else x for x in v] for v in d]
    return sorted(repr(x) for x in (zip(*d) if len(d) > 1 else d[0]))


def check_categories(dss, r, what, show_phantom=False, filtered=False):
    """merged categories are exactly the union, each once"""
    import riptable as rt

    for k in r.keys():
        if not isinstance(r[k], rt.Categorical):
            continue
        src = [d[k] for d in dss if k in d.keys()]
        want = set(x for c in src for x in cat_keys(c))
        got = cat_keys(r[k])
        gaps = len(src) < len(dss)
        phantom = any(len(c) and not cat_keys(c) for c in src)
        if phantom and not show_phantom:
            continue
        extra = set(got) - want
        if len(set(got)) != len(got):
            raise Violation("categories-repeated", "%s column %s: %s" % (what, k, got))
        if want - set(got) and not filtered:
            raise Violation("categories-lost", "%s column %s: %s missing in %s" % (what, k, sorted(want - set(got)), got))
        if phantom and extra:
            raise Violation("native-phantom-categories", "%s column %s: merged categories %s, sources have %s" % (what, k, got, sorted(want)))
        if len(extra) > (1 if gaps else 0):
            raise Violation("categories-invented", "%s column %s: %s not in any source" % (what, k, sorted(extra)))


def result_model(r):
    order = list(r.keys())
    return order, {k: col_vals(r[k]) for k in order}, r.get_nrows()


def select_rows(m, keep):
    order, cols, total = m
    out = {}
    for k, (kind, w, v) in cols.items():
        ww = w if kind == "num" and w else 1
        out[k] = (kind, w, [x for i in keep for x in v[i * ww:(i + 1) * ww]])
    return order, out, len(keep)


class P04(Check):
    id = "P04"
    title = "Stacked load and file concatenation equal row-wise concatenation"
    configs = {"history": 0.8, "vanish": 0.2}
    isolate = True
    quick_runs = 10000
    thorough_runs = 60000
    rule = ("one evaluation = one history of writing, replacing and removing files with stacked loads and concatenations in between; distinct = "
            "(operation, families of the stacked columns with their gaps, rows per file, selection, filter kind, vanished file)")
    components_real = ["riptable stacking, categorical merge, partitioned dataset", "riptide_cpp stacker", "libc + tmpfs under the simio seam"]
    components_stub = ["file that disappears between the existence check and the open (simio ENOENT)", "directory listing order"]
    assumptions = ["columns that meet have mergeable types (families in checks/p04.py)", "every file has the key column"]

    def gen(self, rng, cfg):
        names = NAMES[:]
        rng.shuffle(names)
        schema = {}
        for nm in names[: rng.randint(1, 5)]:
            fam = rng.choice(list(FAMILIES))
            schema[nm] = {"fam": fam, "p": 1.0 if fam == "cat0" else rng.choice([1.0, 1.0, 0.7, 0.5]), "w": rng.randint(1, 3), "tz": rng.choice(V.TZS), "base0": fam == "cat0"}

        def spec():
            n = rng.choice([0, 1, 2, 3, 5, 9])
            cols = [["k", {"k": "int64", "n": n, "s": rng.randrange(1 << 30)}]]
            order = list(schema)
            if rng.random() < 0.4:
                rng.shuffle(order)
            for nm in order:
                sc = schema[nm]
                if rng.random() < sc["p"]:
                    c = {"k": rng.choice(FAMILIES[sc["fam"]]), "n": n, "s": rng.randrange(1 << 30)}
                    if c["k"] == "mat":
                        c["w"] = sc["w"]
                    if c["k"] == "dtn":
                        c["tz"] = sc["tz"]
                    if c["k"] in ("cat", "catu", "catnum", "catmulti"):
                        c["card"] = rng.choice([1, 2, 3, 5, 9])
                    if sc["base0"]:
                        c["base0"] = 1
                    cols.append([nm, c])
            return {"k": "ds", "n": n, "cols": cols}

        files = ["f%d" % i for i in range(1, rng.randint(2, 6))] + (["x202401%02d" % d for d in range(1, rng.choice([1, 1, 3, 5]))])
        ops = [["write", f, spec(), rng.random() < 0.3] for f in files]
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            fs = files[:]
            rng.shuffle(fs)
            fs = fs[: rng.randint(1, len(fs))]
            if rng.random() < 0.12:
                fs.insert(rng.randint(0, len(fs)), rng.choice(fs))
            if r < 0.55:
                op = {"files": fs, "api": rng.choice(["load", "load", "load", "pds", "ext", "path"]), "must": rng.random() < 0.25, "miss": rng.choice([0, 0, 0, 1, 2])}
                if len(files) > 3 and files[-1].startswith("x") and rng.random() < 0.2:
                    a = rng.randint(1, 4)
                    op.update(api="pload", days=[a, rng.randint(a, 6)], miss=0)
                if rng.random() < 0.35:
                    op["include"] = [nm for nm in schema if rng.random() < 0.5]
                if rng.random() < 0.35:
                    op["filter"] = [rng.choice(["bool", "fancy", "short"]), rng.randrange(1 << 30)]
                ops.append(["stack", op])
            elif r < 0.7:
                ops.append(["concat", fs, "out%d" % rng.randint(0, 1), rng.choice([0, 0, 1])])
            elif r < 0.85:
                ops.append(["write", rng.choice(files), spec(), rng.random() < 0.3])
            else:
                ops.append(["remove", rng.choice(files)])
        t = {"ops": ops, "ls": rng.randrange(1, 1 << 30)}
        if cfg == "vanish":
            fs = files[:]
            rng.shuffle(fs)
            fs = fs[: rng.randint(min(2, len(fs)), len(fs))]
            t["ops"].append(["stack", {"files": fs, "api": "load", "must": rng.random() < 0.3, "miss": 0, "vanish": rng.randrange(len(fs))}])
        return t

    def shrink(self, t):
        yield from super().shrink(t)
        for i, op in enumerate(t["ops"]):
            if op[0] == "write":
                cs = op[2]["cols"]
                for j in range(1, len(cs)):
                    no = list(t["ops"])
                    no[i] = [op[0], op[1], dict(op[2], cols=cs[:j] + cs[j + 1:])] + op[3:]
                    yield dict(t, ops=no)
                if op[2]["n"] > 1:
                    no = list(t["ops"])
                    no[i] = [op[0], op[1], dict(op[2], n=1)] + op[3:]
                    yield dict(t, ops=no)
            if op[0] == "stack":
                for key in ("include", "filter", "reserve"):
                    if key in op[1]:
                        no = list(t["ops"])
                        no[i] = ["stack", {k: v for k, v in op[1].items() if k != key}]
                        yield dict(t, ops=no)

    def mixed(self, w, k):
        """byte and unicode strings in one column (known finding, the generator does not produce it)"""
        return (w[0] == "num" and w[1] and self.f2d) or w[0] == "str" and len(self.strkinds.get(k, ())) > 1

    def compare(self, want, got, what):
        if want[0] != got[0]:
            raise Violation("columns-differ", "%s: expected columns %s got %s" % (what, want[0], got[0]))
        if want[2] != got[2]:
            raise Violation("row-count", "%s: expected %d rows got %d" % (what, want[2], got[2]))
        for k in want[0]:
            if want[1][k] != got[1][k]:
                raise Violation("rows-differ" if not self.mixed(want[1][k], k) else "native-string-mix" if want[1][k][0] == "str" else "native-2d-filter", "%s column %s: expected %s got %s" % (what, k, V._short(want[1][k]), V._short(got[1][k])))

    def run(self, trace, env):
        import riptable as rt

        root = env.scratch + "/data"
        os.makedirs(root)
        env.disk.setup(root, list_seed=trace["ls"])
        path = lambda f: root + "/" + f + ".sds"
        model = {}
        self.strkinds, self.f2d = {}, False
        for op in trace["ops"]:
            if op[0] == "write":
                model[op[1]] = ds = V.build(op[2])
                for nm, c in op[2]["cols"]:
                    self.strkinds.setdefault(nm, set()).add(c["k"])
                before = V.snap(ds)
                ds.save(path(op[1]), **({"compress": False} if op[3] else {}))
                if V.snap(ds) != before:
                    raise Violation("source-object-changed", "")
                env.event("write", op[1], op[2]["n"])
            elif op[0] == "remove":
                if op[1] in model:
                    os.remove(path(op[1]))
                    del model[op[1]]
                env.event("remove", op[1])
            elif op[0] == "concat":
                self.do_concat(rt, env, root, path, model, op)
            else:
                self.do_stack(rt, env, root, path, model, op[1])

    def do_concat(self, rt, env, root, path, model, op):
        fs = list(op[1])
        if op[3]:
            fs.insert(len(fs) // 2, "absent")
        have = [f for f in fs if f in model]
        out = root + "/" + op[2] + ".sds"
        before = tree_bytes(root)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                rt.sds_concat([path(f) for f in fs], out)
            res = "ok"
        except Exception as e:
            res = "%s: %s" % (type(e).__name__, str(e)[:200])
        after = tree_bytes(root)
        chg = {k for k in set(before) | set(after) if before.get(k) != after.get(k)} - {op[2] + ".sds"}
        if chg:
            raise Violation("source-files-changed", "sds_concat changed %s" % sorted(chg))
        env.event("concat", fs, res, len(have))
        if len(have) < len(fs):
            if res == "ok":
                raise Violation("concat-missing-accepted", "sds_concat of %s with %s missing returned normally" % (fs, [f for f in fs if f not in model]))
            env.probe("concat-missing-raises")
            return
        if res != "ok":
            raise Violation("concat-raised", "sds_concat(%s): %s" % (fs, res))
        r = rt.load_sds(out, stack=True)
        self.compare(model_stack([model[f] for f in have]), result_model(r), "concatenation of %s" % fs)
        check_categories([model[f] for f in have], r, "concatenation of %s" % fs)
        env.probe("concat")
        env.key("concat", [model[f].get_nrows() for f in have], [sorted(type(model[f][k]).__name__ for k in model[f].keys()) for f in have])

    def do_stack(self, rt, env, root, path, model, op):
        fs = list(op["files"])
        for j in range(op["miss"]):
            fs.insert((j * 2) % (len(fs) + 1), "absent%d" % j)
        ps = [path(f) for f in fs]
        if op["api"] == "ext":
            ps = [p[:-4] for p in ps]
        elif op["api"] == "path":
            import pathlib

            ps = [pathlib.Path(p) for p in ps]
        have = [f for f in fs if f in model]
        kw = {}
        if op["must"]:
            kw["mustexist"] = True
        if op["api"] in ("pds", "pload"):
            op = {k: v for k, v in op.items() if k not in ("include", "filter", "reserve")}
            op["must"], kw = False, {}
        inc = op.get("include")
        if inc is not None:
            kw["include"] = ["k"] + inc
        if "reserve" in op:
            kw["reserve"] = op["reserve"]
        rows = [model[f].get_nrows() for f in have]
        total = sum(rows)
        keep = None
        wide = any(getattr(model[f][k], "ndim", 1) > 1 for f in have for k in model[f].keys() if inc is None or k in inc)
        if "filter" in op and (not wide or op.get("f2d")):
            kind, s = op["filter"]
            r = np.random.RandomState(s % (1 << 31))
            if kind == "bool":
                m = r.rand(total) < r.choice([0.1, 0.5, 0.9])
                keep = np.flatnonzero(m).tolist()
                kw["filter"] = m
            elif kind == "short":
                m = r.rand(max(1, total // 2)) < 0.6
                keep = [i for i in np.flatnonzero(m).tolist() if i < total]
                kw["filter"] = m
            else:
                idx = np.sort(r.permutation(total)[: max(1, total // 2)]) if total else np.array([], dtype="int64")
                keep = sorted(idx.tolist())
                kw["filter"] = idx
            if len(kw["filter"]) == 0 or not any(keep) and not keep:
                keep, _ = None, kw.pop("filter")
        self.f2d = "filter" in kw and wide
        before = tree_bytes(root)
        vanish = None
        if "vanish" in op and op["vanish"] < len(fs) and fs[op["vanish"]] in model and not (op["must"] and len(have) < len(fs)):
            vanish = fs[op["vanish"]]
        faults = []
        if vanish is not None:
            # the file is there when it is looked up, and gone when it is opened
            env.disk.arm()
            try:
                rt.load_sds(ps, stack=True, **kw)
            except Exception:
                pass
            ev = env.disk.events()
            k = [i for i, e in enumerate(ev) if e[0] == "openr" and e[1].endswith("/" + vanish + ".sds") or e[1] == vanish + ".sds" and e[0] == "openr"]
            env.disk.disarm()
            if not k:
                raise RuntimeError("no open of %s in %s" % (vanish, ev[:5]))
            faults = [(i, D.ERR, 2) for i in k]
            env.fault("vanish:openr", len(k))
        env.disk.arm(faults)
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            try:
                if op["api"] == "pds":
                    r = rt.PDataset([str(p) for p in ps])
                elif op["api"] == "pload" and not op["miss"] and not vanish:
                    fs = ["x202401%02d" % i for i in range(op["days"][0], op["days"][1] + 1)]
                    have = [f for f in fs if f in model]
                    rows = [model[f].get_nrows() for f in have]
                    r = rt.PDataset.pload(root + "/x{}.sds", "202401%02d" % op["days"][0], "202401%02d" % op["days"][1])
                else:
                    r = rt.load_sds(ps, stack=True, **kw)
                res = "ok"
            except Exception as e:
                res = "%s: %s" % (type(e).__name__, str(e)[:200])
        env.disk.clear()
        left = env.disk.open_fds()
        env.disk.disarm()
        env.event("stack", fs, sorted(kw), res.split(":")[0], rows)
        if left:
            raise Violation("leaked-handle", "%s" % left)
        after = tree_bytes(root)
        if before != after:
            raise Violation("source-files-changed", "stacked load changed files")
        missing = len(have) < len(fs)
        what = "stack of %s%s" % (fs, {k: (v if k != "filter" else np.asarray(v).tolist()) for k, v in kw.items()})
        if (missing and op["must"]) or (vanish and op["must"]):
            if res == "ok":
                raise Violation("missing-accepted", "%s: mustexist=True but %s missing, no error" % (what, vanish or [f for f in fs if f not in model]))
            env.probe("must-exist-raises")
            return
        if not have or have == [vanish]:
            if res == "ok" and (not have or r.get_nrows()):
                raise Violation("missing-accepted", "%s: no file exists, no error" % what)
            return
        if vanish:
            told = any(vanish in str(w.message) for w in wl)
            if res != "ok":
                return
            have = [f for f in have if f != vanish]
            rows = [model[f].get_nrows() for f in have]
            if not told:
                raise Violation("silent-skip", "%s: %s vanished before it was opened, and the caller was not told" % (what, vanish))
        if res != "ok":
            raise Violation("stack-raised", "%s: %s" % (what, res))
        dss = [model[f] for f in have]
        m = model_stack(dss)
        if inc is not None:
            cols = set(kw["include"])
            m = ([k for k in m[0] if k in cols], {k: v for k, v in m[1].items() if k in cols}, m[2])
        cut = np.cumsum(rows).tolist()
        if keep is not None and not vanish:
            m = select_rows(m, keep)
            cut = [sum(1 for i in keep if i < c) for c in cut]
        self.compare(m, result_model(r), what)
        check_categories(dss, r, what, op.get("phantom"), keep is not None)
        # partitions
        pc = [int(x) for x in r.pcutoffs]
        if pc != cut:
            raise Violation("partitions-differ", "%s: cutoffs %s expected %s" % (what, pc, cut))
        if [int(x) for x in r.prows] != np.diff([0] + cut).tolist() or r.pcount != len(cut) or len(r.pnames) != len(cut) or len(set(r.pnames)) != len(cut):
            raise Violation("partitions-differ", "%s: prows %s pcount %s pnames %s, cutoffs %s" % (what, list(r.prows), r.pcount, r.pnames, cut))
        if len(have) > 1 and all(nm.isdigit() for nm in r.pnames) and not all(nm in f for nm, f in zip(r.pnames, have)):
            raise Violation("partitions-differ", "%s: partitions named %s hold the rows of %s" % (what, list(r.pnames), have))
        sl = [0] + cut
        parts = [r.partition(i) for i in range(len(cut))]
        for i, p in enumerate(parts):
            self.compare(select_rows(m, list(range(sl[i], sl[i + 1]))), result_model(p), what + " partition %d" % i)
        lab = r.pcat
        want = [nm for nm, c in zip(r.pnames, np.diff([0] + cut)) for _ in range(c)]
        txt = lambda c: [x.decode() if isinstance(x, bytes) else str(x) for x in c.expand_array.tolist()]
        if txt(lab) != want:
            raise Violation("partitions-differ", "%s: pcat %s, expected %s" % (what, txt(lab), want))
        if r.pslices != [slice(a, b) for a, b in zip(sl[:-1], sl[1:])]:
            raise Violation("partitions-differ", "%s: pslices %s for cutoffs %s" % (what, r.pslices, cut))
        for i, nm in enumerate(r.pnames):
            if nm not in r.keys() and i % 2:
                self.compare(select_rows(m, list(range(sl[i], sl[i + 1]))), result_model(r[nm]), what + " partition by name %s" % nm)
        sub = r[r.keys()[:1]]
        if [int(x) for x in sub.pcutoffs] != cut or sub.pnames != r.pnames:
            raise Violation("partitions-differ", "%s: column selection has cutoffs %s names %s" % (what, list(sub.pcutoffs), sub.pnames))
        byname = r.pdict
        for i, nm in enumerate(r.pnames):
            if i % 2 == 0:
                self.compare(select_rows(m, list(range(sl[i], sl[i + 1]))), result_model(r[byname[nm], :]), what + " partition %s" % nm)
        it = [x[1] if isinstance(x, tuple) else x for x in r.piter]
        if [x.get_nrows() for x in it] != np.diff([0] + cut).tolist():
            raise Violation("partitions-differ", "%s: piter rows %s" % (what, [x.get_nrows() for x in it]))
        env.probe("stacked")
        if missing:
            env.probe("skipped-missing")
        env.key(op["api"], [sorted((k, v[0]) for k, v in m[1].items())], [[k in d.keys() for k in m[0]] for d in dss], rows, keep is not None, inc is not None, bool(vanish))


CHECK = P04()
