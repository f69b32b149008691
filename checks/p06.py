"""P06: shared-memory items are isolated by share name; failures and deaths while sharing hurt only the item being written."""
import collections
import os

from sim import disk as D
from sim import values as V
from sim.core import Check, Violation, fork_call

from . import storage as S
from .p01 import hash_snap

SHARES = ["a", "ab", "A", "b", "share 1", "Global_", "x", "a_b"]
ITEMS = ["x", "xy", "a", "ab", "Global_a"]
FOREIGN = ["sem.lock", "Globalx", "global_a!x.sds", "torch_1", "xGlobal_a!x.sds", "Global"]
ERRNOS = [24, 23, 12, 28, 13]
SHM = "/dev/shm"


class P06(Check):
    id = "P06"
    title = "Shared-memory items are isolated by share name"
    level = "exploration"
    configs = {"plain": 0.4, "fault": 0.6}
    isolate = True
    quick_runs = 6000
    thorough_runs = 60000
    rule = ("one evaluation = one history of saves, overwrites, loads, listings and clears over several shares by one or two processes, with failing calls or deaths; "
            "distinct = (sequence of operation kinds, share and item relation, faulted call, outcomes)")
    components_real = ["riptable shared-memory and load/save code", "riptide_cpp shared-memory reader and writer", "libc mmap on tmpfs"]
    components_stub = ["segment directory redirected below the scratch directory (simio)", "failing segment calls and process death (simio)", "directory listing order"]
    assumptions = ["share names do not contain the '!' that separates share, item and nested names", "a save that dies or fails may leave its own item old, new, missing or unreadable",
                   "include and filter of a load are not applied to shared items"]

    def gen(self, rng, cfg):
        shares = rng.sample(SHARES, rng.randint(2, 3))
        if rng.random() < 0.5 and "a" not in shares:
            shares[0] = "a"
        if rng.random() < 0.5 and "ab" not in shares:
            shares[1] = "ab"
        tree = [s for s in shares if rng.random() < 0.3][:1]
        items = rng.sample(ITEMS, rng.randint(2, 3))
        ops = []
        for _ in range(rng.randint(4, 12)):
            sh, it = rng.choice(shares), rng.choice(items)
            istree = sh in tree
            k = rng.choices(["save", "load", "hold", "list", "clear", "clearall", "disksave", "diskload", "whole", "missing", "view"],
                            [10, 6, 4, 3, 3, 1, 3, 4, 2, 1, 1])[0]
            o = {"k": k, "sh": sh, "it": it}
            if k in ("save", "disksave"):
                o["form"] = "deep" if istree else rng.choice(["ds", "ds", "plain", "arr", "one"])
                if k == "disksave":
                    o["form"] = "ds"
                o["spec"] = S.gen_item(rng, o["form"])
                o["dir"] = rng.random() < 0.3
                if rng.random() < 0.2:
                    o["kw"] = {"compress": False}
            if k in ("load", "hold", "diskload", "missing"):
                o["api"] = rng.choice(["load", "mem", "load"])
                if rng.random() < 0.2:
                    o["threads"] = rng.choice([1, 2, 3])
            if k in ("save", "load", "diskload", "clear", "whole"):
                o["other"] = rng.random() < 0.3
                if cfg == "fault" and rng.random() < 0.45:
                    o["f"] = [rng.random(), rng.choice(ERRNOS), rng.random() < 0.15]
                    if rng.random() < 0.35:
                        o["other"] = True
                        o["f"][1] = rng.choice(["crash-before", "crash-after"])
            ops.append(o)
        return {"ops": ops, "tree": tree, "foreign": rng.sample(FOREIGN, rng.randint(0, 3)), "ls": rng.randrange(1, 1 << 30)}

    def shrink(self, t):
        yield from super().shrink(t)
        for i, o in enumerate(t["ops"]):
            for key in ("f", "other", "threads", "kw", "dir"):
                if o.get(key):
                    n = {a: b for a, b in o.items() if a != key}
                    yield dict(t, ops=t["ops"][:i] + [n] + t["ops"][i + 1:])
            sp = o.get("spec")
            if sp:
                for key in ("cols", "items"):
                    xs = sp.get(key) or []
                    if len(xs) > 1:
                        for j in range(len(xs)):
                            yield dict(t, ops=t["ops"][:i] + [dict(o, spec=dict(sp, **{key: xs[:j] + xs[j + 1:]}))] + t["ops"][i + 1:])
        if t["foreign"]:
            yield dict(t, foreign=[])

    # ------------------------------------------------------------------------------------------------
    def path(self, o, tree):
        """what the caller passes: the directory part does not matter for shared items"""
        base = "tree" if o["sh"] in tree else o["it"] + ".sds"
        return (self.root + "/nowhere/" if o.get("dir") else "") + base

    def act(self, rt, o, tree, full=None):
        """One operation -> comparable result"""
        k, sh = o["k"], o["sh"]
        th = {"threads": o["threads"]} if o.get("threads") else {}
        if k == "save":
            obj = V.build(o["spec"])
            kw = dict(o.get("kw") or {})
            if o["form"] == "one":
                kw["onefile"] = True
            if o["form"] == "arr":
                rt.save_sds(self.path(o, tree), obj, share=sh, **kw)
            else:
                obj.save(self.path(o, tree), share=sh, **kw)
            return None
        if k in ("load", "hold", "missing"):
            f = rt.load_sds if o["api"] == "load" else rt.load_sds_mem
            return f(self.path(o, tree), share=sh, **th)
        if k == "diskload":
            return rt.load_sds(self.root + "/disk/" + o["it"] + ".sds", share=sh, **th)
        if k == "whole":
            return rt.load_sds("anything", share=sh)
        if k == "clear":
            return rt.SharedMemory.clear(sh)
        if k == "clearall":
            return rt.SharedMemory.clear()
        raise KeyError(k)

    def listing(self):
        """(segments, foreign names) straight from the redirected directory, with content hashes"""
        out = {}
        for f in sorted(os.listdir(self.shm)):
            with open(self.shm + "/" + f, "rb") as h:
                out[f] = hash_snap(h.read())
        return out

    def seg(self, sh, it):
        return "Global_%s!%s.sds" % (sh, it)

    def run(self, trace, env):
        import riptable as rt

        self.root = root = env.scratch + "/data"
        self.shm = shm = env.scratch + "/shm"
        os.makedirs(root + "/disk")
        os.makedirs(shm)
        for f in trace["foreign"]:
            with open(shm + "/" + f, "w") as h:
                h.write("not riptable's")
        env.disk.setup(env.scratch, shmdir=shm, list_seed=trace["ls"])
        if trace.get("kf") == "native-overwrite-touches-freed-memory":
            return self.reuse(rt, env)
        tree = trace["tree"]
        self.blank = hash_snap(V.snap(rt.Struct({})))  # a segment of zeros, left by a dying writer, reads as an empty Struct (known finding)
        model = {}     # (share, item) -> snapshot; item is None for a tree share
        maybe = {}     # items a failed or dying save was writing -> allowed snapshots (loading may also raise)
        disk = {}
        uses = collections.Counter((p["sh"], None if p["sh"] in tree else p["it"]) for p in trace["ops"] if p["k"] in ("save", "diskload"))
        held = []      # (what, object, snapshot): loaded objects stay as they were
        kinds = {v: k for k, v in D.KIND_NAMES.items()}

        def attempt(o, faults, evs=None):
            """run one operation here or in a process of its own -> ('ok', snap) | ('raised', text) | ('crashed',)"""
            env.disk.arm(faults)
            try:
                r = self.act(rt, o, tree)
                out = ["ok", None if r is None else hash_snap(V.snap(r))]
                if o["k"] == "hold":
                    held.append((o["sh"] + "/" + o["it"], r, out[1]))
            except Exception as e:
                out = ["raised", "%s: %s" % (type(e).__name__, str(e).replace(env.scratch, "<S>")[:200])]
            fired = env.disk.fired()
            env.disk.clear()
            ev = env.disk.events()
            env.disk.disarm()
            return {"out": out, "fired": fired, "ev": ev}

        for o in trace["ops"]:
            k, sh = o["k"], o["sh"]
            it = None if sh in tree else o["it"]
            key = (sh, it)
            if sh in tree and k in ("diskload", "missing"):
                continue
            if k == "diskload" and o["it"] not in disk:
                continue
            if k == "missing" and (key in model or key in maybe):
                continue
            if k in ("load", "hold") and key not in model and key not in maybe:
                continue
            if k == "whole" and (sh in tree or any(a == sh for a, _ in maybe) or not any(a == sh for a, _ in model)):
                continue
            if k == "disksave":
                obj = V.build(o["spec"])
                obj.save(root + "/disk/" + o["it"] + ".sds")
                disk[o["it"]] = hash_snap(V.snap(rt.load_sds(root + "/disk/" + o["it"] + ".sds")))
                env.event("disk", o["it"], disk[o["it"]])
                continue
            if k in ("list", "view"):
                self.check_lists(rt, env, model, maybe, tree, sh, trace["foreign"])
                env.event(k, sh)
                continue
            before = self.listing()
            if k == "save" and sh in tree and any(f.startswith("Global_%s!" % sh) for f in before):
                continue  # a nested Struct saved over another one is merged with it (known finding of P01)
            # what a fault-free attempt of this call would do, to place the fault
            faults = []
            if o.get("f"):
                st, dry = S.count_ops_in(env, lambda: attempt(o, []), shm, trace["ls"])
                if st != "ok":
                    raise Violation("died", "fault-free %s of %s/%s: %s" % (k, sh, it, st))
                crash = isinstance(o["f"][1], str)
                cand = [i for i, e in enumerate(dry["ev"]) if e[0] in ("openw", "openr", "trunc", "mmap", "unlink", "list", "close") and not e[1].startswith("data/")
                        and (crash or e[0] not in ("close", "trunc"))]
                if trace.get("at"):
                    cand = [i for i, e in enumerate(dry["ev"]) if e[0] == trace["at"]]
                if k in ("load", "diskload", "whole", "hold"):
                    cand = [i for i in cand if dry["ev"][i][0] != "close"]
                if cand:
                    i = cand[min(len(cand) - 1, int(o["f"][0] * len(cand)))]
                    fk = kinds[o["f"][1]] if isinstance(o["f"][1], str) else (D.ERR_STICKY if o["f"][2] else D.ERR)
                    faults = [(i, fk, 0 if isinstance(o["f"][1], str) else o["f"][1])]
                    what = "%s at %s" % (D.KIND_NAMES[fk], dry["ev"][i][0])
                    env.fault(D.KIND_NAMES[fk] + ":" + dry["ev"][i][0])
            # riptide_cpp touches freed memory when a process saves an item whose name it has used before (known finding):
            # each process of the simulation saves an item at most once
            other = o.get("other")
            if k in ("save", "diskload"):
                other = other or uses[key] > 1
            if other:
                st, r = fork_call(lambda: attempt(o, faults), 60)
                if st == "exit:%d" % D.CRASH_EXIT:
                    out = ["crashed"]
                elif st != "ok":
                    raise Violation("died", "%s of %s/%s in another process: %s%s" % (k, sh, it, st, " with " + what if faults else ""))
                elif "out" not in r:
                    raise RuntimeError(str(r))
                else:
                    out = r["out"]
            else:
                out = attempt(o, faults)["out"]
            after = self.listing()
            env.event(k, sh, it, o.get("other"), faults, out, sorted(after))
            env.key(k, sh, it, sorted(map(str, model)), [what.split("@")[0]] if faults else 0, out[0], bool(o.get("other")))
            self.strict = trace.get("strict")
            self.judge(rt, o, key, out, bool(faults) and what, before, after, model, maybe, disk, tree, trace["foreign"])
            for w, obj, sn in held:
                if hash_snap(V.snap(obj)) != sn:
                    raise Violation("held-changed", "the object loaded from %s changed after %s of %s/%s" % (w, k, sh, it))
            env.probe(k + "-" + out[0])
        self.verify_all(rt, model, maybe, tree)
        self.check_lists(rt, env, model, maybe, tree, None, trace["foreign"])
        env.event("end", sorted(map(str, model)))

    def reuse(self, rt, env):
        """Known finding: a process that saves the same shared item twice adds one to a word of memory it has freed."""
        import numpy as np

        ds = rt.Dataset({"a": rt.arange(5)})
        for _ in range(3):
            ds.save("x.sds", share="a")
            mine = [np.full(6, 7, dtype=np.int64) for _ in range(400)]
            ds.save("x.sds", share="a")
            bad = [a.tolist() for a in mine if (a != 7).any()]
            if bad:
                raise Violation("native-overwrite-touches-freed-memory", "an array unrelated to the save changed to %s" % bad[0])

    # ------------------------------------------------------------------------------------------------
    def owned(self, seg, key, tree):
        sh, it = key
        return seg.startswith("Global_%s!" % sh) if it is None else seg == self.seg(sh, it)

    def judge(self, rt, o, key, out, fault, before, after, model, maybe, disk, tree, foreign):
        k, sh = o["k"], o["sh"]
        say = "%s of %s/%s%s" % (k, key[0], key[1], " with " + fault if fault else "")
        if out[0] == "raised" and not fault:
            torn = key in maybe or (k == "whole" and any(a == sh for a, _ in maybe))
            if k != "missing" and not torn:
                raise Violation("failed", "%s: %s" % (say, out[1]))
        # nothing but the target may change
        for f in sorted(set(before) | set(after)):
            if before.get(f) == after.get(f):
                continue
            if k in ("save", "diskload") and self.owned(f, key, tree):
                continue
            if k == "clear" and f.startswith("Global_%s!" % sh) and f not in after:
                continue
            if k == "clearall" and f.startswith("Global_") and f not in after:
                continue
            raise Violation("other-changed", "%s %s %s" % (say, "removed" if f not in after else "added" if f not in before else "changed", f))
        if k == "save":
            exp = self.expected(o)
            if out[0] == "ok":
                got = self.reload(rt, o, key, tree)
                if (got[0] != "ok" or got[1] != exp) and fault and fault.startswith("error"):
                    # the native writer only prints that it could not write the segment
                    if self.strict == "ignored":
                        raise Violation("native-shared-save-error-ignored", "%s returned, then loading gives %s" % (say, got if got[0] != "ok" else "other data"))
                    out = ["raised", "ignored by the native writer"]
            if out[0] == "ok":
                model[key] = exp
                maybe.pop(key, None)
                if got[0] != "ok" or got[1] != exp:
                    raise Violation("not-what-was-saved", "%s returned but loading gives %s" % (say, got if got[0] != "ok" else V.diff(V.snap(V.build(o["spec"])), self.last)))
            else:
                al = set(maybe.pop(key, ()))
                if key in model:
                    al.add(model.pop(key))
                maybe[key] = al | {exp} | ({"any"} if key[1] is None else set())
                if self.strict != "torn":
                    maybe[key].add(self.blank)
        elif k in ("load", "hold", "diskload"):
            if out[0] == "ok":
                if key in model:
                    allowed = {model[key]}
                elif key in maybe:
                    allowed = maybe[key] | ({disk[o["it"]]} if k == "diskload" else set())
                else:
                    allowed = {disk[o["it"]]}
                if k == "diskload" and fault:
                    allowed = allowed | {disk[o["it"]]}  # a segment that cannot be mapped: the file of that name is read instead
                if out[1] not in allowed and "any" not in allowed:
                    raise Violation("wrong-data", "%s returned other data than was saved there" % say)
            if k == "diskload" and fault and key in model and before.get(self.seg(*key)) != after.get(self.seg(*key)):
                maybe[key] = {model.pop(key), disk[o["it"]], self.blank}
            elif k == "diskload" and key not in model:
                # the item on disk is now shared too
                if out[0] == "ok" and not fault:
                    if key in maybe:
                        maybe[key] = maybe[key] | {disk[o["it"]]}
                    elif self.seg(*key) in after:
                        model[key] = disk[o["it"]]
                    else:
                        raise Violation("not-shared", "%s did not leave the item in the share" % say)
                elif self.seg(*key) in after:
                    maybe[key] = maybe.get(key, set()) | {disk[o["it"]], self.blank}
        elif k == "whole":
            if out[0] == "ok" and not fault and out[1] != self.whole(rt, model, sh):
                raise Violation("wrong-data", "%s does not hold the share's items" % say)
            if out[0] == "ok" and fault and out[1] != self.whole(rt, model, sh):
                raise Violation("partial-share", "%s returned a part of the share as if it were all" % say)
        elif k == "missing":
            if out[0] == "ok":
                raise Violation("ghost", "%s returned an item that was never saved" % say)
        elif k in ("clear", "clearall"):
            pre = "Global_%s!" % sh if k == "clear" else "Global_"
            left = [f for f in after if f.startswith(pre)]
            if out[0] == "ok" and left:
                raise Violation("not-cleared", "%s returned and left %s" % (say, left[:3]))
            for m in (model, maybe):
                for kk in list(m):
                    if k == "clearall" or kk[0] == sh:
                        if kk[1] is None:
                            segs = [f for f in after if f.startswith("Global_%s!" % kk[0])]
                            if not segs:
                                m.pop(kk)
                            elif segs != [f for f in before if f.startswith("Global_%s!" % kk[0])]:
                                v = m.pop(kk)
                                maybe[kk] = {v} if isinstance(v, str) else v
                                maybe[kk].add("any")
                        elif self.seg(*kk) not in after:
                            m.pop(kk)

    def expected(self, o):
        return hash_snap(V.snap(V.build(o["spec"])))

    def reload(self, rt, o, key, tree):
        try:
            self.last = V.snap(rt.load_sds("tree" if key[1] is None else key[1] + ".sds", share=key[0]))
            return ["ok", hash_snap(self.last)]
        except Exception as e:
            return ["raised", "%s: %s" % (type(e).__name__, e)]

    def whole(self, rt, model, sh):
        st = {}
        for (a, it) in sorted((x for x in model if x[0] == sh), key=lambda x: x[1]):
            st[it] = rt.load_sds(it + ".sds", share=a)
        r = rt.load_sds("anything", share=sh)
        if sorted(r.keys()) != sorted(st):
            return "keys"
        return hash_snap(V.snap(rt.Struct({k: st[k] for k in r.keys()})))

    def verify_all(self, rt, model, maybe, tree):
        for key in sorted(model, key=str):
            got = self.reload(rt, None, key, tree)
            if got[0] != "ok" or got[1] != model[key]:
                raise Violation("lost", "%s/%s: %s" % (key[0], key[1], got[1] if got[0] != "ok" else "other data"))
        for key in sorted(maybe, key=str):
            got = self.reload(rt, None, key, tree)
            if got[0] == "ok" and got[1] not in maybe[key] and "any" not in maybe[key] and key[1] is not None:
                raise Violation("native-torn-segment-loads-empty" if got[1] == self.blank else "wrong-data-after-failed-save", "%s/%s" % key)

    def check_lists(self, rt, env, model, maybe, tree, share, foreign):
        env.disk.arm()
        try:
            shares = sorted({a for a, _ in list(model) + list(maybe)} | ({share} if share is not None else set()))
            got = {s: sorted(rt.SharedMemory.listdir(s)) for s in shares}
            got2 = {s: sorted(rt.SharedMemory.view(s)) for s in shares}
            allg = sorted(rt.SharedMemory.listdir())
            if sorted(rt.SharedMemory.view()) != allg:
                raise Violation("wrong-listing", "view() shows %s of %s" % (rt.SharedMemory.view(), allg))
            txt = repr(rt.SharedMemory)
            size = rt.SharedMemory.size
        finally:
            env.disk.disarm()
        real = self.listing()
        for s in shares:
            want = sorted(f[len("Global_%s!" % s):] for f in real if f.startswith("Global_%s!" % s))
            if got[s] != want or got2[s] != want:
                raise Violation("wrong-listing", "share %r lists %s, holds %s" % (s, got[s], want))
            if s not in tree:
                it = sorted(i + ".sds" for a, i in model if a == s)
                if not set(it) <= set(want):
                    raise Violation("lost", "share %r: %s saved, %s listed" % (s, it, want))
                mb = {i + ".sds" for a, i in maybe if a == s}
                if set(want) - set(it) - mb:
                    raise Violation("ghost", "share %r lists %s, saved were %s" % (s, want, it))
        segs = sorted(f for f in real if f.startswith("Global_"))
        if allg != sorted(f[len("Global_"):] for f in segs):
            raise Violation("wrong-listing", "all shares: %s, held %s" % (allg, segs))
        for f in segs:
            if f[len("Global_"):] not in txt:
                raise Violation("wrong-listing", "%s is missing from %r" % (f, txt))
        for f in foreign:
            if f not in real:
                raise Violation("other-changed", "%s, which is not riptable's, is gone" % f)


CHECK = P06()
