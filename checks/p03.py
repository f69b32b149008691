"""P03: a load under read faults raises or returns the right data, changes nothing, and works again afterwards."""
import os

from sim import disk as D
from sim import values as V
from sim.core import Check, Violation, fork_call

from . import storage as S
from .ambient import ambient, diff_ambient
from .p01 import hash_snap

ERRNOS = [5, 13, 24, 23, 12]  # EIO EACCES EMFILE ENFILE ENOMEM


def tree_bytes(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = hash_snap(h.read())
        for x in dn:
            out[os.path.relpath(os.path.join(dp, x), root) + "/"] = ""
    return out


def data_reads(evs):
    """Indices of reads of column data.  After an open, the native reader reads header, names, metadata, [section list,] array table,
    and only then data; everything that is not one of those first reads is data."""
    return {i for i, r in roles(evs).items() if r == "data"}


def roles(evs):
    """read index -> role: header, names, meta, sections, table or data"""
    out = {}
    per = {}
    for i, e in enumerate(evs):
        if e[0] == "openr":
            per[e[1]] = []
        elif e[0] == "read":
            seq = per.setdefault(e[1], [])
            if len(seq) < 4 or (len(seq) == 4 and seq[3] > e[3]):
                seq.append(e[3])
                out[i] = ["header", "names", "meta", "table", "table"][len(seq) - 1]
            else:
                out[i] = "data"
    return out


class P03(Check):
    id = "P03"
    title = "A failing read never yields wrong or partial data"
    level = "fault_enumeration"
    configs = {"fault": 0.85, "two": 0.1, "none": 0.05}
    isolate = True
    quick_runs = 8000
    thorough_runs = 60000
    rule = ("one evaluation = one load or inspection call among several saved items with an open, listing, stat or metadata read failing at a "
            "chosen call; distinct = (call shape, failed call kind and position, errno, outcome)")
    components_real = ["riptable load and inspection code", "riptide_cpp reader", "libc + tmpfs under the simio seam"]
    components_stub = ["failing calls (simio fault plan)", "directory listing order"]
    assumptions = ["a failing read of a column data block is handled inside riptide_cpp (known finding), random runs fail the other calls"]

    def gen(self, rng, cfg):
        base = []
        slots = [("f1", "ds"), ("f10", "ds"), ("p0", "plain"), ("a0", "arr"), ("d0", "flat"), ("t0", "deep"), ("o0", "one"), ("s0", "sec")]
        rng.shuffle(slots)
        for s, f in slots[: rng.randint(2, 4)]:
            base.append([s, f, S.gen_item(rng, f)])
        s, f, sp = rng.choice(base)
        calls = {"ds": ["load", "cls", "include", "info", "list", "stack", "stackmust"], "plain": ["load", "cls", "info"], "arr": ["load"],
                 "flat": ["load", "cls", "info", "tree", "name", "listdir", "dirinc"], "deep": ["load", "cls", "tree", "listdir"], "one": ["load", "folders"],
                 "sec": ["stack1", "load", "stack", "stackmust"]}[f]
        t = {"base": base, "slot": s, "form": f, "call": rng.choice(calls), "pos": rng.random(), "errno": rng.choice(ERRNOS),
             "kind": rng.choice(["error", "error", "error", "short"]), "sticky": rng.random() < 0.2, "stat": rng.random() < 0.15, "ls": rng.randrange(1, 1 << 30)}
        if rng.random() < 0.25:
            t["threads"] = rng.choice([1, 2, 3])
        if cfg == "two":
            t["pos2"] = rng.random()
        if cfg == "none":
            t["kind"] = None
        return t

    def shrink(self, t):
        for i in range(len(t["base"])):
            if t["base"][i][0] != t["slot"]:
                yield dict(t, base=t["base"][:i] + t["base"][i + 1:])
        for i, b in enumerate(t["base"]):
            sp = b[2]
            for key in ("cols", "items"):
                xs = sp.get(key) or []
                if len(xs) > 1:
                    for j in range(len(xs)):
                        nb = list(t["base"])
                        nb[i] = [b[0], b[1], dict(sp, **{key: xs[:j] + xs[j + 1:]})]
                        yield dict(t, base=nb)

    def call(self, rt, root, t, objs):
        slot, form, call = t["slot"], t["form"], t["call"]
        p = S.item_path(root, slot, form)
        o = objs[slot]
        th = {"threads": t["threads"]} if t.get("threads") else {}
        if call == "load":
            r = rt.load_sds(p, **th)
        elif call == "cls":
            r = (rt.Dataset if form == "ds" else rt.Struct).load(p)
        elif call == "include":
            r = rt.load_sds(p, include=list(o.keys())[: max(1, o.get_ncols() // 2)], **th)
        elif call == "dirinc":
            r = rt.load_sds(p, include=list(o.keys())[: max(1, len(o.keys()) // 2)])
        elif call == "info":
            return ("info", repr(str(rt.load_sds(p, info=True, **th))).replace(root, "<R>"))
        elif call == "tree":
            return ("tree", repr(str(rt.sds_tree(p))).replace(root, "<R>"))
        elif call == "name":
            nm = [k for k in o.keys() if isinstance(o[k], rt.Dataset)][0]
            r = rt.load_sds(p, name=nm) if False else rt.load_sds(p + "/" + nm + ".sds")
        elif call == "list":
            q = [p] + [S.item_path(root, s, f) for s, f, _ in t["base"] if f == "ds" and s != slot]
            r = rt.load_sds(q, **th)
            return ("list", tuple(V.snap(x) for x in r))
        elif call == "listdir":
            r = rt.load_sds([p, p], **th)
            return ("list", tuple(V.snap(x) for x in r))
        elif call in ("stack", "stackmust", "stack1"):
            import warnings

            ps = [S.item_path(root, slot + x, form) for x in ("", "_b", "_c")] if call != "stack1" else [p]
            with warnings.catch_warnings(record=True) as wl:
                warnings.simplefilter("always")
                r = rt.load_sds(ps if call != "stack1" else p, stack=True, **({"mustexist": True} if call == "stackmust" else {}), **th)
            told = [x for x in ps if any(x in str(w.message) for w in wl)]
            # an unreadable file may be left out only when the caller is told which one, and never when all must exist
            if told and call != "stackmust":
                exp = S.rows_concat([objs[slot]] * (len(ps) - len(told)))
                return ("stack", S.rows_snap(r) if S.rows_snap(r) != exp else "rows of the readable files", len(told))
            return ("stack", S.rows_snap(r), 0)
        elif call == "folders":
            fs = [k for k in o.keys() if isinstance(o[k], rt.Struct)]
            r = rt.load_sds(p, folders=[fs[0] + "/"]) if fs else rt.load_sds(p)
        else:
            raise KeyError(call)
        return ("obj", V.snap(r))

    def run(self, trace, env):
        import riptable as rt

        root = env.scratch + "/data"
        os.makedirs(root)
        objs = {}
        for slot, form, spec in trace["base"]:
            kw = {"append": "s1"} if form == "sec" else None
            objs[slot] = S.save_item(root, slot, form, spec, kw)
            if form in ("ds", "sec") and slot == trace["slot"] and trace["call"] in ("stack", "stackmust"):
                for x in ("_b", "_c"):
                    S.save_item(root, slot + x, form, spec, kw)
        if trace["form"] == "flat" and not os.path.isdir(root + "/" + trace["slot"]):
            raise RuntimeError("flat item saved as file")
        before = tree_bytes(root)
        env.disk.setup(root, list_seed=trace["ls"])

        def once(faults, stat=False):
            env.disk.lib.sim_listseed(trace["ls"])
            env.disk.arm(faults, stat_faults=stat)
            try:
                r = self.call(rt, root, trace, objs)
                out = ("ok", r)
            except Exception as e:
                out = ("raised", "%s: %s" % (type(e).__name__, str(e).replace(root, "<R>")[:300]))
            fired = env.disk.fired()
            env.disk.clear()
            left = env.disk.open_fds()
            ev = env.disk.events()
            env.disk.disarm()
            return out, ev, left, fired

        stat = bool(trace["stat"]) and trace["call"] not in ("list", "stack", "listdir", "stackmust")
        good, evs, left, _ = once([], stat)
        if good[0] != "ok":
            raise Violation("load-raised", "fault-free %s of %s: %s" % (trace["call"], trace["slot"], good[1]))
        if left:
            raise Violation("leaked-handle", "%s" % left)
        faults = []
        what = None
        if trace["kind"] and evs:
            dr, ro, stackcall = data_reads(evs), roles(evs), trace["call"].startswith("stack")
            cand = [i for i, e in enumerate(evs) if e[0] in ("openr", "read", "list", "stat") and (i not in dr or trace.get("datafault")) and (ro.get(i) != "meta" or not stackcall or trace.get("metafault"))]
            if not cand:
                cand = [0]
            ks = [cand[min(len(cand) - 1, int(x * len(cand)))] for x in ([trace["pos"]] + ([trace["pos2"]] if "pos2" in trace else []))]
            if trace.get("k") is not None:
                ks = [trace["k"]]
            for k in sorted(set(ks)):
                kd = D.ERR
                if trace["kind"] == "short" and evs[k][0] == "read":
                    kd = D.SHORT
                elif trace["sticky"] and "pos2" not in trace and not dr:
                    kd = D.ERR_STICKY
                faults.append((k, kd, trace["errno"] if kd != D.SHORT else 500))
                env.fault(("short:" if kd == D.SHORT else "error:") + evs[k][0])
            what = [(evs[k][0], evs[k][1], evs[k][3], evs[k][4]) for k in sorted(set(ks))]
        amb = ambient()
        got, ev2, left, fired = once(faults, stat)
        # which calls were really hit: a first fault changes the calls that follow, so a second one may land on a data block
        r2 = roles(ev2)
        isdata = any(e[6] and r2.get(i) == "data" for i, e in enumerate(ev2))
        env.event("out", got[0], what, None if isdata or trace["call"] in ("info", "tree") else hash_snap(got))
        if left:
            raise Violation("leaked-handle", "%s of %s left open %s after %s at %s" % (trace["call"], trace["slot"], left, trace["kind"], what))
        partial = got[0] == "ok" and got[1][0] == "stack" and got[1][1] == "rows of the readable files"
        if partial:
            env.probe("stack-partial-with-warning")
        if got[0] == "ok" and got[1] != good[1] and not partial:
            raise Violation("native-datablock-read-error-ignored" if isdata else "native-stack-meta-read-error-ignored" if trace.get("metafault") else "wrong-data-on-read-fault", "%s of %s (%s) with %s errno %s at %s %s: %s" % (
                trace["call"], trace["slot"], trace["form"], trace["kind"], trace["errno"], what, [roles(evs).get(f[0]) for f in faults], V.diff(good[1], got[1])))
        if faults and not any(fired):
            raise Violation("harness-replay", "the fault did not fire: %s" % what)
        df = diff_ambient(amb, ambient())
        if df:
            raise Violation("settings-changed", "; ".join(df))
        after = tree_bytes(root)
        if after != before:
            raise Violation("disk-changed", "%s" % sorted(set(after.items()) ^ set(before.items()))[:4])
        again, ev3, left, _ = once([], stat)
        if again != good:
            raise Violation("no-recovery", "%s of %s after the fault was gone: %s" % (trace["call"], trace["slot"], again if again[0] == "raised" else V.diff(good[1], again[1])))
        if left:
            raise Violation("leaked-handle", "%s" % left)
        env.probe("outcome-" + got[0])
        env.probe("call-" + trace["call"])
        env.key(trace["call"], trace["form"], what and [(w[0], w[2]) for w in what], trace["kind"], trace["errno"], got[0], len(evs))


CHECK = P03()
