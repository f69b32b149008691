"""P05: flattening, appending and concatenating never lose or alter a stored item, whatever interrupts them."""
import os

from sim import disk as D
from sim import values as V
from sim.core import Check, Violation, fork_call

from . import storage as S
from .p03 import tree_bytes

DIRS = ["da", "d", "db", "d10", "Zdir", "20240102", "d!x", "dc.sds"]


class P05(Check):
    id = "P05"
    title = "Reorganising saved data never loses an item"
    level = "fault_enumeration"
    configs = {"flatten": 0.6, "append": 0.2, "concat": 0.2}
    quick_runs = 6000
    thorough_runs = 40000
    list_fields = ("dirs", "files", "faults")
    rule = ("one evaluation = one tree of saved items reorganised with crashes or errors at chosen file-system calls, then repeated without; distinct = "
            "(operation, tree shape, faulted calls with their kind, outcome)")
    components_real = ["riptable flatten, section append, concatenation", "riptide_cpp reader and writer", "libc + tmpfs under the simio seam"]
    components_stub = ["process death and failing calls (simio)", "directory listing order"]
    assumptions = ["a kill does not undo completed system calls (process crash, not power loss)", "appended sections have the columns of the first"]

    def gen(self, rng, cfg):
        t = {"mode": cfg, "ls": rng.randrange(1, 1 << 30), "faults": []}
        kinds = ["crash-before", "crash-after", "error"]
        if cfg == "flatten":
            ds = DIRS[:]
            rng.shuffle(ds)
            dirs = []
            for d in ds[: rng.randint(1, 4)]:
                form = rng.choice(["flat", "deep"])
                dirs.append([d, form, S.gen_item(rng, form)])
            files = []
            if rng.random() < 0.5:
                files.append(["f0.sds", V.rand_ds(rng)])
            extra = []
            tgt = rng.choice(dirs)
            r = rng.random()
            if r < 0.15:
                files.append([tgt[0] + ".sds", V.rand_ds(rng)])
            elif r < 0.27:
                nm = rng.choice(tgt[2]["items"])[0]
                files.append([tgt[0] + "!" + nm + ".sds", V.rand_ds(rng)])
            elif r < 0.35:
                extra.append([tgt[0], rng.choice(["notes.txt", "README", "x.sds_old", "x.sdsx", ".sds.swp"])])
            elif r < 0.43:
                extra.append([tgt[0], rng.choice(["sub/x.sds", "sub.sds/x.sds", "sub.sds/y.txt"])])
            elif r < 0.58:
                # two directories whose items get the same name when flattened
                dirs[:] = [x for x in dirs if not x[0].startswith("d!")][:2]
                mid, leaf = rng.choice(["x", "price", "a"]), rng.choice(["c", "b"])
                pair = [["d", "deep", {"k": "st", "items": [[mid, {"k": "st", "items": [[leaf, V.rand_ds(rng)]]}]]}],
                        ["d!" + mid, "flat", {"k": "st", "items": [[leaf, V.rand_ds(rng)]]}]]
                dirs[:] = [x for x in dirs if x[0] != "d"] + pair
            t.update(dirs=dirs, files=files, extra=extra)
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                t["faults"].append([rng.random(), rng.choice(kinds), rng.choice([5, 13, 28, 12])])
        elif cfg == "append":
            first = S.gen_item(rng, "sec")
            t["secs"] = [first] + [S.reseed(rng, first) for _ in range(rng.randint(1, 3))]
            t["other"] = V.rand_ds(rng)
            t["kw"] = {"compress": False} if rng.random() < 0.4 else {}
            t["faults"].append([rng.random(), rng.choice(["crash-before", "crash-after", "crash-torn"]), rng.choice([100, 500, 900])])
            if t["faults"][0][1] == "crash-torn":
                t["secs"][-1] = dict(t["secs"][-1], n=2000)
                t["kw"] = {"compress": False}
        else:
            first = S.gen_item(rng, "sec")
            t["parts"] = [first] + [S.reseed(rng, first) for _ in range(rng.randint(1, 3))]
            t["over"] = rng.random() < 0.4
            t["faults"].append([rng.random(), rng.choice(kinds), rng.choice([5, 13, 28])])
        return t

    # ------------------------------------------------------------------------------------------------
    def step(self, env, root, fn, fault, ls):
        """One attempt in a process of its own, with the fault at a position of its fault-free run -> outcome"""
        st, dry = S.count_ops(env, fn, root)
        if st != "ok":
            raise Violation("died", "fault-free attempt: %s" % st)
        evs = dry["events"]
        faults = []
        if fault is not None:
            kinds = {v: k for k, v in D.KIND_NAMES.items()}
            pos, fk, arg = fault
            cand = list(range(len(evs)))
            if fk == "crash-torn":
                cand = [i for i in cand if evs[i][0] == "write" and evs[i][4] > 4096] or cand
                if evs[cand[0]][0] != "write":
                    fk = "crash-after"
            elif fk == "error":
                cand = [i for i in cand if evs[i][0] in ("rename", "rmdir", "unlink", "mkdir", "openr", "openw", "list")]
            elif self.mode == "flatten":
                # most of a flatten is looking things up: aim at the calls that change something
                cand = [i for i in cand if evs[i][0] in ("rename", "rmdir", "unlink", "write", "mkdir")] or cand
            if cand:
                k = cand[min(len(cand) - 1, int(pos * len(cand)))]
                faults = [(k, kinds[fk], arg)]
                env.fault(fk + ":" + evs[k][0])

        def child():
            env.disk.setup(root, list_seed=ls)
            env.disk.arm(faults)
            try:
                fn(root)
                out = "returned"
            except Exception as e:
                out = "raised:%s:%s" % (type(e).__name__, str(e).replace(root, "<R>")[:100])
            env.disk.clear()
            left = env.disk.open_fds()
            env.disk.disarm()
            return {"out": out, "left": left}

        st, r = fork_call(child, 60)
        if st == "exit:%d" % D.CRASH_EXIT:
            out = "crashed"
        elif st != "ok":
            raise Violation("died", "%s with %s" % (st, faults and evs[faults[0][0]][:2]))
        else:
            out = r["out"]
            if r["left"] and out == "returned":
                raise Violation("leaked-handle", "%s" % r["left"])
        what = faults and (fault[1], evs[faults[0][0]][0], evs[faults[0][0]][1])
        env.event("attempt", out.split(":")[:2], what)
        return out, what, len(evs)

    def run(self, trace, env):
        import riptable as rt

        self.mode = trace["mode"]
        root = env.scratch + "/data"
        os.makedirs(root)
        getattr(self, "run_" + trace["mode"])(rt, trace, env, root)

    def run_flatten(self, rt, trace, env, root):
        objs, files = {}, {}
        for d, form, spec in trace["dirs"]:
            objs[d] = V.build(spec)
            rt.save_sds(root + "/" + d, objs[d]) if not d.endswith(".sds") else objs[d].save(root + "/" + d)
            objs[d] = V.snap(rt.load_sds(root + "/" + d)) if os.path.isdir(root + "/" + d) else None
        for f, spec in trace["files"]:
            files[f] = V.build(spec)
            if os.path.isdir(root + "/" + f):
                continue
            files[f].save(root + "/" + f)
        for d, f in trace["extra"]:
            p = root + "/" + d + "/" + f
            if not os.path.isdir(root + "/" + d):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if f.endswith(".sds"):
                rt.Dataset({"a": rt.arange(3)}).save(p)
            else:
                with open(p, "w") as h:
                    h.write("keep me")
        dirs = [d for d in os.listdir(root) if os.path.isdir(root + "/" + d)]
        before = tree_bytes(root)
        new = {}  # old path -> the only other place it may be
        for p in before:
            if p.endswith("/") or "/" not in p:
                continue
            d, f = p.split("/", 1)
            stem = d[:-4] if d.endswith(".sds") else d
            new[p] = stem + ".sds" if f == "_root.sds" else stem + "!" + f if "/" not in f else None
        oldfiles = [p for p in before if not p.endswith("/")]

        def conserved(out, what):
            now = tree_bytes(root)
            ok = set()
            for p in oldfiles:
                places = [q for q in (p, new.get(p)) if q and now.get(q) == before[p] and not (q == new.get(p) and q in before and q != p)]
                if not places and any(d.endswith(".sds") for d in dirs) and p.endswith(".sds/_root.sds") and "_root.sds_temp" in now:
                    places = ["_root.sds_temp"]  # a directory named x.sds: its root waits under a temporary name (DESIGN.md)
                if not places:
                    raise Violation("item-lost", "%s is neither at its old nor at its new place (%s) after %s %s; now there: %s" % (p, new.get(p), out, what, sorted(now)))
                if len(places) > 1:
                    raise Violation("item-duplicated", "%s is at %s after %s %s" % (p, places, out, what))
                ok.add(places[0])
            strange = [q for q in now if not q.endswith("/") and q not in ok]
            if strange:
                raise Violation("strange-file", "%s after %s %s" % (strange, out, what))

        vals = list(new.values())
        fn = lambda r: rt.sds_flatten(r)
        log = []
        for fault in list(trace["faults"]) + [None]:
            out, what, n = self.step(env, root, fn, fault, trace["ls"])
            log.append((out.split(":")[0], what and what[:2]))
            conserved(out, what)
            if fault is None and out != "returned":
                raise Violation("flatten-raised", "%s (after %s)" % (out, log))
        # a directory is flattened as a whole or left as a whole; one with anything else than SDS files in it, or with a name in the
        # way, is left
        now = tree_bytes(root)
        for d in dirs:
            mine = [p for p in oldfiles if p.startswith(d + "/")]
            stay = [p for p in mine if p in now]
            odd = any(x[0] == d for x in trace["extra"])
            if stay and len(stay) != len(mine) and not (any(x[1] for x in log) and any(new.get(p) in before or vals.count(new.get(p)) > 1 for p in mine)):
                raise Violation("half-flattened", "%s: %s stayed, the rest moved (after %s)" % (d, stay, log))
            if odd and len(stay) != len(mine):
                raise Violation("foreign-moved", "%s holds %s and was flattened all the same" % (d, trace["extra"]))
            if odd:
                env.probe("dir-foreign-left")
        # whole again: a flattened directory loads by name from the root, a skipped one from its place
        interrupted = any(x[1] for x in log) and any(d.endswith(".sds") for d in dirs)
        for d in dirs:
            want = objs.get(d)
            if want is None or interrupted and d.endswith(".sds") or any(x[0] == d for x in trace["extra"]):
                continue
            there = os.path.isdir(root + "/" + d)
            stem = d[:-4] if d.endswith(".sds") else d
            if there:
                if not [x for x in before if x in os.listdir(root)] and not any(new.get(p) in before or vals.count(new.get(p)) > 1 for p in oldfiles):
                    raise Violation("not-flattened", "%s is still a directory although nothing is in the way" % d)
                if all(os.path.exists(root + "/" + p) for p in oldfiles if p.startswith(d + "/")):
                    got = V.snap(rt.load_sds(root + "/" + d))
                else:
                    continue
            else:
                if any(p.split("/")[0] != d and (p.startswith(stem + "!") or p == stem + ".sds") for p in oldfiles):
                    continue  # shares its new names with items that were there before
                got = V.snap(rt.load_sds(root, name=stem))
            df = V.diff(norm(want), norm(got))
            if df:
                raise Violation("item-changed", "%s after %s: %s" % (d, log, df))
            env.probe("dir-" + ("left" if there else "flattened"))
        for f, o in files.items():
            if os.path.isfile(root + "/" + f) and f in before:
                df = V.diff(V.snap(o), V.snap(rt.load_sds(root + "/" + f)))
                if df:
                    raise Violation("item-changed", "%s: %s" % (f, df))
        env.key("flatten", len(dirs), len(oldfiles), log, [x[1] for x in trace["extra"]])

    def run_append(self, rt, trace, env, root):
        p = root + "/s.sds"
        other = V.build(trace["other"])
        other.save(root + "/other.sds")
        objs = [V.build(s) for s in trace["secs"]]
        done = 0
        for i, o in enumerate(objs[:-1]):
            o.save(p, append="s%d" % i, **trace["kw"])
            done += 1
        fn = lambda r: objs[-1].save(r + "/s.sds", append="last", **trace["kw"])
        out, what, n = self.step(env, root, fn, trace["faults"][0] if trace["faults"] else None, trace["ls"])
        old, full = S.rows_concat(objs[:-1]), S.rows_concat(objs)

        def look():
            try:
                return {"rows": repr(S.rows_snap(rt.load_sds(p, stack=True)))}
            except Exception as e:
                return {"err": "%s: %s" % (type(e).__name__, e)}

        st, r = fork_call(look, 60)
        if st != "ok":
            raise Violation("died", "loading after %s %s: %s" % (out, what, st))
        got = r.get("rows")
        if out == "returned" and got != repr(full):
            raise Violation("append-lost", "append returned, file gives %s" % str(got or r)[:400])
        if got is not None and got not in (repr(old), repr(full)):
            raise Violation("sections-altered", "after %s %s: rows %s, before %s" % (out, what, got[:300], repr(old)[:300]))
        df = V.diff(V.snap(other), V.snap(rt.load_sds(root + "/other.sds")))
        if df:
            raise Violation("item-changed", "other file: %s" % df)
        env.probe("append-" + ("raises" if got is None else "old" if got == repr(old) else "full"))
        env.key("append", len(objs), what and what[:2], out.split(":")[0], n)

    def run_concat(self, rt, trace, env, root):
        objs = [V.build(s) for s in trace["parts"]]
        for i, o in enumerate(objs):
            o.save(root + "/p%d.sds" % i)
        if trace["over"]:
            objs[0].save(root + "/out.sds")
        before = tree_bytes(root)
        fn = lambda r: rt.sds_concat([r + "/p%d.sds" % i for i in range(len(objs))], r + "/out.sds")
        out, what, n = self.step(env, root, fn, trace["faults"][0] if trace["faults"] else None, trace["ls"])
        for p, h in tree_bytes(root).items():
            if p != "out.sds" and before.get(p) != h:
                raise Violation("item-changed", "%s after %s %s" % (p, out, what))
        if set(before) - set(tree_bytes(root)) - {"out.sds"}:
            raise Violation("item-lost", "%s" % sorted(set(before) - set(tree_bytes(root))))
        full = repr(S.rows_concat(objs))

        def look():
            try:
                return {"rows": repr(S.rows_snap(rt.load_sds(root + "/out.sds", stack=True)))}
            except Exception as e:
                return {"err": "%s: %s" % (type(e).__name__, e)}

        st, r = fork_call(look, 60)
        if st != "ok":
            raise Violation("died", "loading after %s %s: %s" % (out, what, st))
        got = r.get("rows")
        if out == "returned" and got != full:
            raise Violation("concat-lost", "concatenation returned with %s, output gives %s" % (what, str(got or r)[:300]))
        out2, _, _ = self.step(env, root, fn, None, trace["ls"])
        if out2 != "returned" or repr(S.rows_snap(rt.load_sds(root + "/out.sds", stack=True))) != full:
            raise Violation("no-recovery", "second concatenation: %s" % out2)
        env.probe("concat-" + ("raises" if got is None else "full" if got == full else "partial"))
        env.key("concat", len(objs), what and what[:2], out.split(":")[0], n, trace["over"])


def norm(s):
    """order of items inside a Struct loaded from a flattened root is the stored one; compare as is"""
    return s


CHECK = P05()
