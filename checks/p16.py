"""P16: display settings saved to a file load back equal in any session; failing or killed saves and loads leave a usable state."""
import builtins
import contextlib
import io
import json
import os
import re

import numpy as np

from sim import disk as D
from sim.core import Check, Violation, fork_call

VALUES = {
    "PRECISION": [1, 2, 3, 5, 8], "E_PRECISION": [1, 2, 3, 5], "E_THRESHOLD": [2, 4, 6, 9], "E_MIN": [None, 1e-4, 0.01], "E_MAX": [None, 1000, 1e8],
    "P_THRESHOLD": [None, 0.001], "NUMBER_SEPARATOR": [True, False], "NUMBER_SEPARATOR_CHAR": [",", "_"], "GB_PREFIX": ["*", "", "key:", "\u2022", "a\"b"],
    "MAX_ROWS": [4, 6, 30, 100], "HEAD_ROWS": [4, 5, 15], "TAIL_ROWS": [4, 5, 15], "ROW_ALL": [True, False], "COL_ALL": [True, False], "COL_MAX": [2, 3, 50],
    "COL_T": [2, 8], "MAX_HEADER_WIDTH": [3, 5, 15], "MAX_FOOTER_WIDTH": [4, 15], "MAX_STRING_WIDTH": [3, 6, 15, 40], "NO_STYLES": [True, False],
    "CONSOLE_X": [80, 150, 200], "CONSOLE_Y": [25, 50], "CONSOLE_X_HTML": [60, 340], "X_PADDING": [2, 4], "Y_PADDING": [3, 5], "COL_MIN": [1, 2],
    "HTML_CUSTOM_TABLE_CSS": [None, "td {color: red}", ["a {b: c}", "d {e: f}"]], "HTML_DISPLAY": [True, False], "COLOR_MODE": [None],
}
CUSTOM = ["work.json", "other.json"]


def norm(v):
    return json.loads(json.dumps(v))


class P16(Check):
    id = "P16"
    title = "Saving and loading display settings is faithful and contained"
    configs = {"plain": 0.35, "faults": 0.65}
    isolate = True
    quick_runs = 2600
    thorough_runs = 400000
    quick_wall = 100
    rule = "distinct (calls of each session, fault kind and place, outcome)"
    components_real = ["riptable's display options and display code", "the file system below a scratch directory, through the I/O seam"]
    components_stub = ["outcome of file-system calls and crashes (seeded)", "the user's answers to prompts (seeded)", "the configuration directory (scratch)",
                       "a new session: a forked process that has imported riptable with default options"]
    assumptions = ["a crash keeps what was written before it"]
    list_fields = ("sessions", "ops")

    def gen(self, rng, cfg):
        ss = []
        for _ in range(rng.randint(1, 4)):
            o = []
            for _ in range(rng.randint(1, 6)):
                x = rng.random()
                if x < 0.4:
                    k = rng.choice(sorted(VALUES))
                    o.append(["set", k, rng.choice(VALUES[k])])
                elif x < 0.65:
                    o.append(["save", rng.choice([None, None, 0, 1, "missing"]), rng.random() < 0.5, rng.choice(["y", "Y", "n", "", "eof"])])
                elif x < 0.88:
                    o.append(["load", rng.choice([None, None, 0, 1, "missing"])])
                elif x < 0.93:
                    o.append(["reset", rng.choice(["y", "y", "n"])])
                elif x < 0.97:
                    o.append(["damage", rng.choice([None, 0, 1]), rng.random()])
                else:
                    o.append(["show"])
            ss.append({"answer": rng.choice(["y", "n", "eof"]), "ops": o, "fault": None})
        if cfg == "faults":
            for s in ss:
                if rng.random() < 0.6:
                    s["fault"] = [rng.randrange(14), rng.choice(["error", "error", "error-sticky", "short", "disk-full", "crash-before", "crash-torn", "crash-after"]), rng.choice([5, 28, 13, 1, 40, 700]), ]
        return {"sessions": ss}

    def shrink(self, t):
        for c in super().shrink(t):
            yield c
        for i, s in enumerate(t["sessions"]):
            for j in range(len(s["ops"])):
                n = [dict(x) for x in t["sessions"]]
                n[i]["ops"] = s["ops"][:j] + s["ops"][j + 1:]
                yield dict(t, sessions=n)
            if s["fault"]:
                n = [dict(x) for x in t["sessions"]]
                n[i]["fault"] = None
                yield dict(t, sessions=n)

    # ------------------------------------------------------------------------------------------
    def _values(self):
        from riptable.Utils.display_options import DisplayOptions as O

        return {k: norm(getattr(O, k)) for k in sorted(dir(O)) if k.isupper() and k[0] != "_"}

    def _render(self):
        import riptable as rt

        r = np.random.RandomState(3)
        ds = rt.Dataset({"name_of_a_column": r.randn(40) * 10.0 ** r.randint(-7, 9, 40), "i": r.randint(0, 10**6, 40), "s": rt.FA(["some text %d" % (x * 37) for x in range(40)]),
                         "t": np.arange(40) * 1e-6})
        with contextlib.redirect_stdout(io.StringIO()):
            a = re.sub("tbl-[0-9]+", "tbl-N", ds._repr_html_())
            return [a, str(rt.FA([1234567.891, 0.0000012, 1.5])), str(ds[["name_of_a_column", "i"]].gb("i").sum())[:2000]]

    def _session(self, s, paths, env):
        """Runs in a child: one session.  -> one record per call."""
        from riptable.Utils.display_options import DisplayOptions as O

        out = []
        ans = {"x": s["answer"]}
        asked = []

        def fake_input(prompt=""):
            asked.append(prompt)
            if ans["x"] == "eof":
                raise EOFError("simulated: no terminal")
            return ans["x"]
        builtins.input = fake_input
        os.environ["XDG_CONFIG_HOME"] = paths["xdg"]
        os.environ.pop("USERNAME", None)
        os.environ["LOGNAME"] = "sim"
        kinds = {v: k for k, v in D.KIND_NAMES.items()}
        env.disk.setup(paths["root"], list_seed=3)
        env.disk.arm([(s["fault"][0], kinds[s["fault"][1]], s["fault"][2])] if s["fault"] else [])
        done = open(paths["progress"], "ab", buffering=0)

        def call(name, fn):
            before = self._values()
            text = io.StringIO()
            n0 = len(asked)
            done.write(b"%s;" % name.encode())
            try:
                with contextlib.redirect_stdout(text):
                    r = ["ret", fn()]
            except Exception as e:
                r = ["raised", type(e).__name__]
            after = self._values()
            out.append({"op": name, "res": r, "before": before, "after": after, "asked": len(asked) - n0, "fired": bool(any(e[6] for e in env.disk.events()) or any(env.disk.fired()))})

        def where(w):
            return {} if w is None else {"path": paths["missing"] if w == "missing" else paths["dir"], "name": CUSTOM[w] if isinstance(w, int) else "x.json"}
        call("start", lambda: O() and None)
        for o in s["ops"]:
            if o[0] == "set":
                setattr(O, o[1], list(o[2]) if isinstance(o[2], list) else o[2])
                out.append({"op": "set"})
            elif o[0] == "save":
                ans["x"] = o[3]
                call("save", lambda: O.save_config(force_overwrite=o[2], **where(o[1])))
            elif o[0] == "load":
                call("load", lambda: O.load_config(**where(o[1])))
            elif o[0] == "reset":
                ans["x"] = o[1]
                call("reset", lambda: O.reset_config())
            elif o[0] == "damage":
                out.append({"op": "damage", "did": self._damage(paths, o, env)})
            else:
                env.disk.disarm()
                out.append({"op": "show", "text": self._render()})
                env.disk.lib.sim_arm(1)
        env.disk.disarm()
        out.append({"op": "end", "open": env.disk.open_fds(), "text": self._render()})
        return out

    def _damage(self, paths, o, env):
        """Something else truncates the file."""
        p = paths["files"][o[1]]
        env.disk.disarm()
        try:
            if not os.path.exists(p):
                return False
            b = open(p, "rb").read()
            with open(p, "wb") as f:
                f.write(b[:int(len(b) * o[2])])
            return True
        finally:
            env.disk.lib.sim_arm(1)

    def _file(self, p):
        """What a file holds: None (absent), 'bad', or the options."""
        try:
            with open(p, "rb") as f:
                b = f.read()
        except FileNotFoundError:
            return None
        except OSError:
            return None
        try:
            d = json.loads(b.decode("utf8"))
            return d if isinstance(d, dict) else "bad"
        except ValueError:
            return "bad"

    def run(self, t, env):
        root = env.scratch + "/conf"
        paths = {"root": root, "xdg": root + "/xdg", "dir": root + "/mine", "missing": root + "/nowhere", "progress": env.scratch + "/progress"}
        os.makedirs(paths["dir"])
        os.makedirs(paths["xdg"])
        with open(paths["dir"] + "/bystander.json", "w") as f:
            f.write("{}")
        paths["files"] = {None: paths["xdg"] + "/riptable/sim_display_options.json", 0: paths["dir"] + "/" + CUSTOM[0], 1: paths["dir"] + "/" + CUSTOM[1]}
        defaults = self._values()
        kinds = []
        for s in t["sessions"]:
            before = {w: self._file(p) for w, p in paths["files"].items()}
            open(paths["progress"], "wb").close()
            st, out = fork_call(lambda: self._session(s, paths, env), 60)
            after = {w: self._file(p) for w, p in paths["files"].items()}
            crashed = st == "exit:%d" % D.CRASH_EXIT
            if crashed:
                env.fault(s["fault"][1])
                env.event("crashed", open(paths["progress"]).read())
                kinds.append(["crash", open(paths["progress"]).read()])
                self._crashed(s, before, after, open(paths["progress"]).read().split(";")[:-1])
            elif st != "ok" or isinstance(out, dict):
                raise Violation("session-died", "%s %s" % (st, out))
            else:
                fired = any(r.get("fired") for r in out)
                if fired:
                    env.fault(s["fault"][1])
                kinds.append([[r["op"], r.get("res")] for r in out] + [fired])
                self._judge(s, out, before, after, defaults, fired, env)
            env.event(sorted((str(k), v if not isinstance(v, dict) else len(v)) for k, v in after.items()))
            extra = sorted(os.listdir(paths["dir"]))
            if set(extra) - {"bystander.json"} - set(CUSTOM) and not crashed:
                raise Violation("left-over", "files left behind: %r" % extra)
            if open(paths["dir"] + "/bystander.json").read() != "{}":
                raise Violation("bystander", "another file was changed")
        # faults have stopped: saving and loading works
        fin = {"answer": "y", "fault": None, "ops": [["set", "PRECISION", 7], ["save", None, True, "y"], ["save", 0, False, "y"], ["set", "PRECISION", 2], ["load", 0]]}
        before = {w: self._file(p) for w, p in paths["files"].items()}
        for s in (fin, {"answer": "n", "fault": None, "ops": [["load", 0], ["load", None]]}):
            st, out = fork_call(lambda: self._session(s, paths, env), 60)
            if st != "ok" or isinstance(out, dict):
                raise Violation("session-died", "%s %s" % (st, out))
            after = {w: self._file(p) for w, p in paths["files"].items()}
            self._judge(s, out, before, after, defaults, False, env)
            if out[-2]["after"]["PRECISION"] != 7:
                raise Violation("not-recovered", "once faults stopped, a saved setting was not loaded: %r" % out[-2]["res"])
            before = after
        env.key(kinds)

    def _crashed(self, s, before, after, calls):
        """A killed session: a file it was not writing is as it was; the file being written is old, new or unreadable."""
        ops = [o for o in [["start"]] + s["ops"] if o[0] in ("start", "save", "load", "reset")][:len(calls)]
        may = set()
        for o in ops:
            if o[0] in ("start", "reset"):
                may.add(None)
            elif o[0] == "save" and o[1] != "missing":
                may.add(o[1])
        for o in s["ops"]:
            if o[0] == "damage":
                may.add(o[1])
        for w in before:
            if w not in may and before[w] != after[w]:
                raise Violation("bystander", "a session that did not write it changed %s" % (CUSTOM[w] if w is not None else "the default file"))
            a = after[w]
            if isinstance(a, dict) and a != before[w] and not {"PRECISION", "GB_PREFIX", "MAX_ROWS", "_RESET_OPTIONS"} <= set(a):
                raise Violation("partial-file", "after a crash, %s holds only %r" % (w, sorted(a)))

    def _judge(self, s, out, before, after, defaults, fired, env):
        """Model of one session that was not killed: memory and files after every call."""
        mem = dict(defaults)
        files = dict(before)
        marked = False  # reset_config was confirmed in this session
        unsure = set()
        ops = [["start"]] + s["ops"]
        text = {}
        for o, r in zip(ops, out):
            env.event(o[0], r.get("res"))
            if o[0] == "set":
                mem[o[1]] = norm(o[2])
                continue
            if o[0] == "damage":
                unsure.add(o[1])
                continue
            if o[0] == "show":
                continue
            if r["before"] != mem:
                raise Violation("settings-changed", "before %s: %s" % (o, self._d(mem, r["before"])))
            res = r["res"]
            new = dict(mem)
            if o[0] == "start":
                f = files[None]
                if res[0] != "ret":
                    if not r["fired"]:
                        raise Violation("start-raised", "starting a session raised %s" % res[1])
                if None in unsure or r["fired"]:
                    new = r["after"]
                    if r["fired"] and new != mem and not (isinstance(f, dict) and not f.get("_RESET_OPTIONS") and self._is(new, mem, f)):
                        raise Violation("half-loaded", "start: %s" % self._d(mem, new))
                    unsure.add(None)
                elif isinstance(f, dict) and not f.get("_RESET_OPTIONS"):
                    new.update({k: v for k, v in f.items() if k in new})
                else:
                    if f is None or isinstance(f, dict) or s["answer"] in ("y", "Y"):
                        files[None] = self._content(mem)
            elif o[0] == "load":
                f = files.get(o[1])
                if o[1] in unsure or r["fired"]:
                    ok = res == ["ret", True]
                    if r["fired"] and r["after"] != mem and not ok:
                        raise Violation("half-loaded", "%s reports %r and changed %s" % (o, res, self._d(mem, r["after"])))
                    if r["fired"] and o[1] not in unsure and ok and not (isinstance(f, dict) and self._is(r["after"], mem, f)):
                        raise Violation("half-loaded", "%s: %s" % (o, self._d(mem, r["after"])))
                    if res[0] != "ret" and not r["fired"]:
                        raise Violation("load-raised", "%s: %s" % (o, res[1]))
                    new = r["after"]
                    marked = marked and not ok
                    env.probe("faulted-load")
                elif isinstance(f, dict):
                    if f.get("_RESET_OPTIONS"):
                        if res[0] != "ret" or res[1] is True:
                            raise Violation("load-result", "%s of settings marked for reset gives %r" % (o, res))
                    else:
                        if res != ["ret", True]:
                            raise Violation("load-result", "%s gives %r" % (o, res))
                        new.update({k: v for k, v in f.items() if k in new})
                        marked = False  # the loaded settings are not marked
                        env.probe("loads")
                elif res != ["ret", False]:
                    raise Violation("load-result", "%s of %s gives %r" % (o, "a missing file" if f is None else "a damaged file", res))
            elif o[0] == "save":
                if o[1] == "missing":
                    if res == ["ret", True]:
                        raise Violation("save-result", "%s reports success without a directory" % (o,))
                elif r["fired"]:
                    if res == ["ret", True]:
                        if o[1] not in unsure:
                            files[o[1]] = self._content(mem, marked)
                        else:
                            files[o[1]] = self._content(mem, marked)
                            unsure.discard(o[1])
                    elif not (files[o[1]] is not None and not o[2] and o[3] not in ("y", "Y")):
                        unsure.add(o[1])
                    env.probe("faulted-save")
                else:
                    there = files[o[1]] is not None
                    asks = there and not o[2]
                    if o[1] in unsure:
                        if res == ["ret", True]:
                            files[o[1]] = self._content(mem, marked)
                            unsure.discard(o[1])
                    elif asks and o[3] not in ("y", "Y"):
                        if res == ["ret", True]:
                            raise Violation("save-result", "%s was answered %r and reports success" % (o, o[3]))
                    else:
                        if res != ["ret", True]:
                            raise Violation("save-result", "%s gives %r" % (o, res))
                        files[o[1]] = self._content(mem, marked)
                        env.probe("saves")
                    if bool(r["asked"]) != asks and o[1] not in unsure and res != ["ret", True]:
                        raise Violation("prompt", "%s asked %d times" % (o, r["asked"]))
            elif o[0] == "reset":
                if o[1] in ("y", "Y"):
                    marked = True
                    if r["fired"] or None in unsure:
                        unsure.add(None)
                    else:
                        files[None] = self._content(mem, True)
            if r["after"] != new:
                raise Violation("settings-changed", "%s: %s" % (o, self._d(new, r["after"])))
            mem = new
        for w in after:
            if w in unsure:
                continue
            a, b = after[w], files[w]
            if isinstance(b, dict) and isinstance(a, dict):
                a = {k: v for k, v in a.items() if k in mem or k == "_RESET_OPTIONS"}
                b = {k: v for k, v in b.items() if k in mem or k == "_RESET_OPTIONS"}
            if a != b:
                raise Violation("wrong-file", "%s holds %s" % (CUSTOM[w] if w is not None else "the default file", self._d(b, a) if isinstance(a, dict) and isinstance(b, dict) else (str(a)[:100], str(b)[:100])))
        end = out[-1]
        if end["open"]:
            raise Violation("left-open", "files left open: %r" % end["open"])
        want = self._shown(mem)
        if want != end["text"]:
            raise Violation("display", "a Dataset is displayed differently from a session in which the same options were set")

    def _shown(self, mem):
        """How the sample data displays in a session in which the options were set directly."""
        key = json.dumps(mem, sort_keys=True)
        if not hasattr(self, "_cache"):
            self._cache = {}
        if key not in self._cache:
            def fn():
                from riptable.Utils.display_options import DisplayOptions as O

                for k, v in mem.items():
                    setattr(O, k, v)
                return self._render()
            st, r = fork_call(fn, 60)
            if st != "ok" or isinstance(r, dict):
                raise Violation("display-died", "%s %s" % (st, r))
            self._cache[key] = r
        return self._cache[key]

    @staticmethod
    def _content(mem, marked=False):
        return dict(mem, _RESET_OPTIONS=marked)

    @staticmethod
    def _is(now, mem, f):
        return now == {k: f.get(k, v) for k, v in mem.items()}

    @staticmethod
    def _d(a, b):
        return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


CHECK = P16()
