"""P02: a killed or failing save harms nothing else on disk."""
import os

from sim import disk as D
from sim import values as V
from sim.core import Check, Violation, fork_call

from . import storage as S
from .p01 import hash_snap, norm_root

ERRNOS = [5, 28, 13, 24, 30]  # EIO ENOSPC EACCES EMFILE EROFS


class P02(Check):
    id = "P02"
    title = "A killed or failing save harms nothing else on disk"
    level = "fault_enumeration"
    configs = {"crash": 0.6, "error": 0.25, "full": 0.1, "none": 0.05}
    isolate = True
    quick_runs = 5000
    thorough_runs = 60000
    rule = ("one evaluation = one save (file, directory, one-file struct, section append, item added to a directory) among other saved items, "
            "interrupted at one file-system call; distinct = (save shape, kind and position of the interrupted call, fault kind, outcome)")
    components_real = ["riptable save and load code", "riptide_cpp writer and reader", "libc + tmpfs under the simio seam", "process death (forked child exits at the call)"]
    components_stub = ["failing/torn calls (simio fault plan)"]
    assumptions = ["a crash is process death: completed writes survive in order (riptable never syncs, so power loss is outside the claim)"]

    def gen(self, rng, cfg):
        base = []
        slots = [("f1", "ds"), ("f10", "ds"), ("p0", "plain"), ("a0", "arr"), ("d0", "flat"), ("d0_x", "ds"), ("o0", "one"), ("s0", "sec"), ("f1!x", "ds")]
        rng.shuffle(slots)
        for s, f in slots[: rng.randint(2, 5)]:
            base.append([s, f, S.gen_item(rng, f)])
        how = rng.choice(["over", "over", "new", "sec", "name", "over"])
        if how == "over":
            s, f, sp = rng.choice(base)
            if f == "sec":
                how = "sec"
        if how == "over":
            tgt = [s, f, S.gen_item(rng, f)]
        elif how == "sec":
            c = [b for b in base if b[1] == "sec"]
            if not c:
                base.append(["s0", "sec", S.gen_item(rng, "sec")])
                c = [base[-1]]
            tgt = ["s0", "sec", S.reseed(rng, c[0][2])]
        elif how == "name":
            c = [b for b in base if b[1] == "flat"]
            if not c:
                base.append(["d0", "flat", S.gen_item(rng, "flat")])
                c = [base[-1]]
            dsn = [nm for nm, v in c[0][2]["items"] if v["k"] == "ds"]
            nm = rng.choice(dsn + ["newitem"])
            tgt = ["d0", "name:" + nm, V.rand_ds(rng)]
        else:
            f = rng.choice(["ds", "flat", "plain", "one", "arr"])
            tgt = ["n_" + f, f, S.gen_item(rng, f)]
        kw = {}
        if rng.random() < 0.4:
            kw["compress"] = False
        t = {"base": base, "target": tgt, "how": how, "kw": kw, "pos": rng.random()}
        if cfg == "crash":
            t["fault"] = [rng.choice(["crash-before", "crash-after", "crash-torn"]), rng.choice([100, 300, 500, 700, 950])]
            if t["fault"][0] == "crash-torn" and tgt[2]["k"] == "ds":
                tgt[2]["n"] = rng.choice([900, 3000])
                kw["compress"] = False
        elif cfg == "error":
            t["fault"] = ["error", rng.choice(ERRNOS)]
        elif cfg == "full":
            t["fault"] = ["disk-full", rng.choice([0, 0, 10, 600, 3000])]
        else:
            t["fault"] = None
        return t

    list_fields = ("base",)

    def shrink(self, t):
        for i in range(len(t["base"])):
            if t["base"][i][0] != t["target"][0]:
                yield dict(t, base=t["base"][:i] + t["base"][i + 1:])
        for i, b in enumerate(t["base"]):
            sp = b[2]
            for key in ("cols", "items"):
                xs = sp.get(key) or []
                if len(xs) > 1:
                    for j in range(len(xs)):
                        nb = list(t["base"])
                        nb[i] = [b[0], b[1], dict(sp, **{key: xs[:j] + xs[j + 1:]})]
                        yield dict(t, base=nb)
        sp = t["target"][2]
        for key in ("cols", "items"):
            xs = sp.get(key) or []
            if len(xs) > 1:
                for j in range(len(xs)):
                    yield dict(t, target=[t["target"][0], t["target"][1], dict(sp, **{key: xs[:j] + xs[j + 1:]})])

    # ---------------------------------------------------------------------------------------------
    def run(self, trace, env):
        import riptable as rt

        root = env.scratch + "/data"
        os.makedirs(root)
        model = {}
        objs = {}
        for slot, form, spec in trace["base"]:
            objs[slot] = S.save_item(root, slot, form, spec, {"append": "s1"} if form == "sec" else None)
            model[slot] = (form, V.snap(objs[slot]) if form != "sec" else S.rows_snap(objs[slot]))
        tslot, tform, tspec = trace["target"]
        newobj = V.build(tspec)
        kw = dict(trace["kw"])

        def save(r):
            if tform.startswith("name:"):
                newobj.save(r + "/" + tslot, name=tform[5:], **kw)
            elif tform == "sec":
                S.save_item(r, tslot, tform, None, dict(kw, append="s2"), obj=newobj)
            else:
                S.save_item(r, tslot, tform, None, kw, obj=newobj)

        st, dry = S.count_ops(env, save, root)
        if st != "ok":
            raise Violation("save-died", "fault-free save %s" % st)
        if not dry["ok"]:
            raise Violation("save-raised", dry["msg"])
        evs = dry["events"]
        faults = []
        if trace["fault"]:
            fk, arg = trace["fault"]
            kinds = {v: k for k, v in D.KIND_NAMES.items()}
            cand = list(range(len(evs)))
            if fk == "crash-torn":
                # a kill can cut a write only at a page boundary, so only larger column writes are torn
                big = [i for i in cand if evs[i][0] == "write" and evs[i][4] > 4096]
                if big:
                    cand = big
                else:
                    fk = "crash-after"
            elif fk == "error":
                # failing data writes and failing reads of the old header during an append end in the native engine (known findings,
                # shown by their own traces); everything else is fair game
                cand = [i for i in cand if (evs[i][0] != "write" or trace.get("werr")) and not (evs[i][0] == "read" and tform == "sec" and not trace.get("rerr"))] or cand
            k = trace.get("k")
            if k is None:
                k = cand[min(len(cand) - 1, int(trace["pos"] * len(cand)))]
            if not evs:
                raise Violation("no-io", "the save made no file-system call")
            faults = [(k, kinds[fk], arg)]

        def child():
            env.disk.setup(root, list_seed=7)
            env.disk.arm(faults)
            try:
                save(root)
                out = "returned"
            except Exception as e:
                out = "raised:%s" % type(e).__name__
            env.disk.clear()
            left = env.disk.open_fds()
            ev = env.disk.events()
            env.disk.disarm()
            return {"out": out, "left": left, "werr": [e for e in ev if e[0] == "write" and e[5] != e[4]], "fired": bool(any(e[6] for e in ev)) or any(env.disk.fired())}

        st, r = fork_call(child, 60)
        if st == "exit:%d" % D.CRASH_EXIT:
            outcome, werr = "crashed", []
        elif st == "ok":
            outcome, werr = r["out"], r["werr"]
            if r["left"] and outcome == "returned":
                raise Violation("leaked-handle", "save left open: %s" % r["left"])
        else:
            raise Violation("native-append-read-error" if faults and evs[faults[0][0]][0] == "read" and tform == "sec" else "save-died", "save died with %s under fault %s at %s" % (st, trace["fault"], evs[faults[0][0]][:2] if faults else None))
        if faults:
            env.fault(trace["fault"][0] + ":" + evs[faults[0][0]][0])
        env.event("outcome", outcome, trace["fault"], faults and evs[faults[0][0]][:2])

        # restart: a fresh process looks at the disk
        def restart():
            res = {"bad": None, "target": None}
            for slot in sorted(model):
                if slot == tslot and not tform.startswith("name:"):
                    continue
                form, want = model[slot]
                if slot == tslot:  # an item was being added to this directory: its other items must be intact
                    old = objs[slot]
                    for nm in old.keys():
                        if nm == tform[5:]:
                            continue
                        if isinstance(old[nm], rt.Dataset):
                            try:
                                got = V.snap(rt.load_sds(root + "/" + slot + "/" + nm + ".sds"))
                            except Exception as e:
                                return {"bad": ["other-item-lost", "%s/%s: %s: %s" % (slot, nm, type(e).__name__, e)]}
                            df = V.diff(V.snap(old[nm]), got)
                            if df:
                                return {"bad": ["other-item-changed", "%s/%s: %s" % (slot, nm, df)]}
                    continue
                try:
                    o = S.load_item(root, slot, form)
                    got = V.snap(o) if form != "sec" else S.rows_snap(o)
                except Exception as e:
                    return {"bad": ["other-item-lost", "%s: %s: %s" % (slot, type(e).__name__, e)]}
                w, g = (norm_root(want), norm_root(got)) if form != "sec" else (want, got)
                df = V.diff(w, g)
                if df:
                    return {"bad": ["other-item-changed", "%s: %s" % (slot, df)]}
            res["target"], res["why"] = self.target_state(rt, root, tslot, tform, model, objs, newobj)
            return res

        st, r = fork_call(restart, 60)
        if st != "ok":
            raise Violation("reload-died", "loading after the fault: %s" % st)
        if r.get("status") == "harness":
            raise RuntimeError(r["detail"])
        if r["bad"]:
            raise Violation(r["bad"][0], "after %s (%s): %s" % (outcome, trace["fault"], r["bad"][1]))
        state = r["target"]
        if state == "wrong":
            raise Violation("write-error-ignored" if werr else "wrong-after-interrupted-save", "target %s after %s at %s: %s" % (tslot, trace["fault"], faults and evs[faults[0][0]], r["why"]))
        if outcome == "returned" and state != "new":
            raise Violation("write-error-ignored" if werr else "failed-save-reported-success", "save returned but target is %s (%s); fault %s at %s" % (state, r["why"], trace["fault"], faults and evs[faults[0][0]]))
        env.probe("target-" + state)
        env.event("target", state)

        # the save is repeated without the fault: complete recovery
        def again():
            try:
                save(root)
            except Exception as e:
                return {"bad": "save again raised %s: %s" % (type(e).__name__, e)}
            state, why = self.target_state(rt, root, tslot, tform, model, objs, newobj, again=True)
            return {"bad": None if state == "new" else "after saving again the target is %s: %s" % (state, why)}

        if tform != "sec":
            st, r = fork_call(again, 60)
            if st != "ok" or r.get("bad"):
                raise Violation("no-recovery", "%s %s (fault %s at %s)" % (st, r and r.get("bad"), trace["fault"], faults and evs[faults[0][0]]))
        env.key(trace["how"], tform.split(":")[0], trace["fault"] and trace["fault"][0], faults and (faults[0][0], evs[faults[0][0]][0]), outcome, state, len(evs))

    def target_state(self, rt, root, tslot, tform, model, objs, newobj, again=False):
        """-> (old|new|raise|mixed|absent|wrong, why)"""
        if tform.startswith("name:"):
            p = root + "/" + tslot + "/" + tform[5:] + ".sds"
            if not os.path.exists(p):
                return "absent", ""
            try:
                got = V.snap(rt.load_sds(p))
            except Exception as e:
                return "raise", "%s: %s" % (type(e).__name__, e)
            if got == V.snap(newobj):
                return "new", ""
            old = objs[tslot][tform[5:]] if tform[5:] in objs[tslot] else None
            if old is not None and got == V.snap(old):
                return "old", ""
            return "wrong", V.diff(V.snap(newobj), got)
        if not os.path.exists(S.item_path(root, tslot, tform)):
            return ("absent", "") if tslot not in model else ("wrong", "old item removed")
        try:
            o = S.load_item(root, tslot, tform)
        except Exception as e:
            return "raise", "%s: %s" % (type(e).__name__, e)
        if tform == "sec":
            got = S.rows_snap(o)
            if got == S.rows_concat([objs[tslot], newobj]):
                return "new", ""
            if got == S.rows_snap(objs[tslot]):
                return "old", ""
            return "wrong", "rows %s" % (got,)
        got = norm_root(V.snap(o))
        new = norm_root(V.snap(newobj))
        if got == new:
            return "new", ""
        old = norm_root(model[tslot][1]) if tslot in model else None
        if got == old:
            return "old", ""
        if tform in ("flat", "deep") and got[0] == "Struct":
            # a directory is written item by item: every item present must be an old or a new one
            ok = {}
            for s in (old, new):
                for k, v in (s[1] if s else ()):
                    ok.setdefault(k, []).append(v)
            bad = [k for k, v in got[1] if v not in ok.get(k, [])]
            if not bad:
                return "mixed", ""
            return "wrong", "items %s are neither old nor new" % bad
        return "wrong", V.diff(new, got)


CHECK = P02()
