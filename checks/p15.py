"""P15: loading delimited text gives the same Dataset however the text is delivered; delivery errors are reported."""
import builtins
import csv
import io
import os
import random

import numpy as np

from sim import disk as D
from sim.core import Check, Violation
from sim.values import diff, snap

WORDS = ["a", "bb", "ccc", "x y", "1e", "-", "0x1", "word", "Zed", "q;r", "t\tu", "quo\"te", "com,ma", "multi\nline", "caf\u00e9", "\u4e16\u754c", "", " lead", "trail "]
NAMES = ["a", "b", "col_c", "D4", "eps", "f", "sym", "px"]


class Delivery(io.TextIOBase):
    """A text source that hands out its text in seeded pieces, and can fail at a given request."""

    def __init__(self, text, rng, fail=None, exc=None):
        self.text, self.pos, self.rng, self.fail, self.exc, self.n, self.short, self.hit = text, 0, rng, fail, exc, 0, 0, False

    def readable(self):
        return True

    def _tick(self):
        k = self.n
        self.n += 1
        if self.fail is not None and k == self.fail:
            self.hit = True
            raise self.exc

    def read(self, size=-1):
        self._tick()
        left = len(self.text) - self.pos
        n = left if size is None or size < 0 else min(size, left)
        if size is not None and size > 0 and n > 1:
            m = self.rng.randint(1, n)
            if m < n:
                self.short += 1
            n = m
        r = self.text[self.pos:self.pos + n]
        self.pos += n
        return r

    def readline(self, size=-1):
        self._tick()
        i = self.text.find("\n", self.pos)
        j = len(self.text) if i < 0 else i + 1
        r = self.text[self.pos:j]
        self.pos = j
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r


class Opened:
    """Records the files riptable opens itself, holding them so that only an explicit close counts."""

    def __enter__(self):
        self.files = []
        self.real = builtins.open

        def f(*a, **k):
            r = self.real(*a, **k)
            self.files.append(r)
            return r

        builtins.open = f
        return self

    def __exit__(self, *a):
        builtins.open = self.real

    def left(self):
        return [f for f in self.files if not f.closed]


class Conv:
    """A converter; can fail at its k-th call."""

    def __init__(self, kind, fail=None):
        self.kind, self.fail, self.n, self.hit = kind, fail, 0, False

    def __call__(self, s):
        k = self.n
        self.n += 1
        if self.fail is not None and k == self.fail:
            self.hit = True
            raise RuntimeError("simulated: converter failed")
        return conv(self.kind, s)


def conv(kind, s):
    if kind == "int":
        return int(s) if s.strip().lstrip("-").isdigit() else -1
    if kind == "float":
        try:
            return float(s)
        except ValueError:
            return float("nan")
    if kind == "len":
        return len(s)
    if kind == "upper":
        return s.upper()
    return s


class P15(Check):
    id = "P15"
    title = "Text loading does not depend on how the file is delivered"
    configs = {"deliver": 0.35, "file": 0.2, "error": 0.3, "malformed": 0.15}
    isolate = True
    quick_runs = 24000
    thorough_runs = 250000
    quick_wall = 90
    rule = "distinct (implementation, delivery, columns, converters, fault place) of runs in which the text arrived in more than one piece or a fault was delivered"
    components_real = ["riptable.rt_csv and Dataset construction", "Python's csv module, pandas' reader", "files: the real file system under the simio seam"]
    components_stub = ["the text source (seeded pieces and failures)", "read results of the file system", "converters supplied by the user"]
    assumptions = ["with the pandas implementation, columns without a converter have the types pandas infers from the whole text"]
    list_fields = ("rows",)

    def gen(self, rng, cfg):
        nc = rng.randint(1, 5)
        names = rng.sample(NAMES, nc)
        kinds = [rng.choice(["int", "float", "word", "word", "mixed"]) for _ in range(nc)]
        nr = rng.choice([1, 2, 3, 8, 30, 30, 200]) if cfg != "file" else rng.choice([3, 30, 300, 900])
        v = rng.choice([0, 1, 2, 3, 4, 4])
        t = {"version": v, "names": names, "kinds": kinds, "rows": [[self._val(rng, k) for k in kinds] for _ in range(nr)],
             "skip": rng.choice([0, 0, 0, 1, 3]), "given": rng.random() < 0.3, "conv": {n: rng.choice(["int", "float", "len", "upper"]) for n in names if rng.random() < 0.4},
             "dialect": rng.choice([{}, {}, {"delimiter": ";"}, {"delimiter": "\t"}, {"quotechar": "'"}, {"delimiter": "|", "skipinitialspace": True}]),
             "sseed": rng.randrange(1 << 30), "end": rng.random() < 0.8, "fault": None, "via": rng.choice(["deliver", "stringio"]) if cfg in ("deliver", "malformed") else "deliver"}
        if v == 4:
            # pandas' own parser loses or keeps an initial space depending on its chunk boundaries
            t["rows"] = [[x.lstrip() for x in r] for r in t["rows"]]
            t["dialect"] = {k: x for k, x in t["dialect"].items() if k != "skipinitialspace"}
        if cfg == "file":
            t["via"] = "file"
            t["short"] = rng.random() < 0.8
        elif cfg == "error":
            t["via"] = rng.choice(["deliver", "file", "file"])
            t["fault"] = rng.choice(["source", "source", "converter", "decode"]) if t["via"] == "file" else rng.choice(["source", "converter"])
            t["at"] = rng.random()
            if t["fault"] == "converter" and not t["conv"]:
                t["conv"] = {rng.choice(names): "len"}
        elif cfg == "malformed":
            t["bad"] = [rng.randrange(nr), rng.choice(["short", "empty"])]
            if nc < 2:
                t["bad"][1] = "none"
        return t

    @staticmethod
    def _val(rng, k):
        if k == "int":
            return str(rng.randint(-50, 10 ** rng.randint(1, 9)))
        if k == "float":
            return repr(round(rng.uniform(-100, 100), rng.randint(1, 5)))
        if k == "word":
            return rng.choice(WORDS)
        return rng.choice([str(rng.randint(0, 99)), rng.choice(WORDS), "1.5"])

    # ------------------------------------------------------------------------------------------------ run
    def run(self, t, env):
        from riptable.rt_csv import load_csv_as_dataset

        rows = [list(r) for r in t["rows"]]
        bad = t.get("bad")
        if bad and bad[0] < len(rows):
            if bad[1] == "short":
                rows[bad[0]] = rows[bad[0]][:-1]
            elif bad[1] == "empty":
                rows[bad[0]] = None
        out = io.StringIO()
        for i in range(t["skip"]):
            out.write("skipped line %d\n" % i)
        w = csv.writer(out, lineterminator="\n", quoting=csv.QUOTE_MINIMAL, **{k: v for k, v in t["dialect"].items()})
        if not t["given"]:
            w.writerow(t["names"])
        for r in rows:
            out.write("\n") if r is None else w.writerow(r)
        text = out.getvalue()
        if not t["end"]:
            text = text.rstrip("\n")
        kw = dict(t["dialect"], skip_rows=t["skip"], version=t["version"])
        if t["given"]:
            kw["column_names"] = list(t["names"])
        rng = random.Random(t["sseed"])

        def load(src, convs):
            return load_csv_as_dataset(src, converters=convs, **kw)

        def outcome(src, convs):
            try:
                return ("ok", load(src, convs))
            except Exception as e:
                return ("exc", e)

        # the whole text at once
        whole = outcome(io.StringIO(text), {k: Conv(v) for k, v in t["conv"].items()})
        self._model(t, rows, text, whole, bad)
        if t["fault"] == "converter":
            count = {k: Conv(v) for k, v in t["conv"].items()}
            outcome(io.StringIO(text), count)
            name = sorted(count)[0]
            n = count[name].n
            if not n:
                return
            convs = {k: Conv(v, int(t["at"] * n) if k == name else None) for k, v in t["conv"].items()}
        else:
            convs = {k: Conv(v) for k, v in t["conv"].items()}
        path = env.scratch + "/t.csv"
        hit = None
        with Opened() as op:
            if t["via"] == "stringio":
                got = outcome(io.StringIO(text), convs)
            elif t["via"] == "deliver":
                fail = None
                if t["fault"] == "source":
                    d0 = Delivery(text, random.Random(t["sseed"]))
                    outcome(d0, {k: Conv(v) for k, v in t["conv"].items()})
                    fail = int(t["at"] * d0.n)
                src = Delivery(text, rng, fail, OSError(5, "simulated: input error"))
                got = outcome(src, convs)
                if src.hit:
                    hit = "source-error"
                if src.closed and not src.hit and t["version"] != 4:
                    raise Violation("closed-callers-file", "the caller's file object was closed")
                if src.short:
                    env.fault("short-delivery", src.short)
                    env.key(t["version"], "deliver", len(rows), sorted(t["conv"].items()), src.n)
            else:
                got, hit = self._file(t, env, path, text, load, convs)
        err = got[1] if got[0] == "exc" else None
        if any(c.hit for c in convs.values()):
            hit = "converter-error"
        left = op.left()
        if left:
            names = [str(f.name).replace(env.scratch, "<S>") for f in left]
            for f in left:
                f.close()
            raise Violation("left-open", "version %d leaves %s open after %s" % (t["version"], names, hit or ("an error: %r" % err if err else "a normal load")))
        env.event(t["version"], t["via"], hit, got[0], type(err).__name__)
        if hit:
            env.fault(hit)
            env.key(t["version"], t["via"], hit, len(rows), sorted(t["conv"].items()), t.get("at"))
            if got[0] == "ok":
                raise Violation("error-swallowed", "%s in version %d returned a Dataset of %r rows" % (hit, t["version"], got[1].shape))
            return
        if got[0] != whole[0]:
            raise Violation("delivery-dependent", "version %d via %s: %r; the whole text at once: %r" % (t["version"], t["via"], got, whole))
        if got[0] == "ok":
            a, b = snap(whole[1]), snap(got[1])
            if a != b:
                raise Violation("delivery-dependent", "version %d via %s: %s" % (t["version"], t["via"], diff(a, b)))

    def _file(self, t, env, path, text, load, convs):
        data = text.encode("utf8")
        hit = None
        faults = []
        if t["fault"] == "decode":
            off = len("".join("skipped line %d\n" % i for i in range(t["skip"])))
            k = off + int(t["at"] * (len(data) - off))
            data = data[:k] + b"\xff\xfe" + data[k:]
            hit = "undecodable"
        with open(path, "wb") as f:
            f.write(data)
        env.disk.setup(env.scratch, list_seed=1)
        if t["fault"] == "source":
            env.disk.arm()
            try:
                load(path, {k: Conv(v) for k, v in t["conv"].items()})
            except Exception:
                pass
            evs = env.disk.events()
            env.disk.disarm()
            cand = [i for i, e in enumerate(evs) if e[0] in ("read", "openr")]
            if cand:
                faults = [(cand[int(t["at"] * len(cand))], D.ERR, 5)]
        elif t.get("short"):
            rng = random.Random(t["sseed"])
            faults = [(i, D.SHORT, rng.choice([1, 7, 100, 500, 900])) for i in range(60)]
        env.disk.arm(faults)
        try:
            got = ("ok", load(path, convs))
        except Exception as e:
            got = ("exc", e)
        fired = env.disk.fired()
        env.disk.disarm()
        for e in env.disk.events():
            env.event(e[0], e[3:])
        if any(fired):
            if t["fault"] == "source":
                hit = "read-error"
            else:
                env.fault("short-read", sum(fired))
                env.key(t["version"], "file", len(t["rows"]), sum(fired), sorted(t["conv"].items()))
        return got, hit

    # ------------------------------------------------------------------------------------------------ reference model
    def _model(self, t, rows, text, whole, bad):
        """What the whole text means, by the csv module and the converters."""
        v = t["version"]
        ragged = [r for r in rows if r is None or len(r) != len(t["names"])]
        blank = len(t["names"]) == 1 and any(r == [""] for r in rows)
        if not rows or blank:
            return
        if ragged:
            if whole[0] == "exc":
                return
            if v != 4:
                if any(r is not None for r in ragged):
                    raise Violation("short-row-accepted", "version %d accepted a row with too few fields" % v)
                rows = [r for r in rows if r is not None]
            else:
                return      # pandas: absent fields become missing values
        if whole[0] == "exc":
            if not rows:
                return
            raise Violation("load-failed", "version %d: %r" % (v, whole[1]))
        ds = whole[1]
        if list(ds.keys()) != t["names"]:
            raise Violation("wrong-columns", "version %d: %r, expected %r" % (v, list(ds.keys()), t["names"]))
        if ds.get_nrows() != len(rows):
            raise Violation("wrong-rows", "version %d: %d rows, expected %d" % (v, ds.get_nrows(), len(rows)))
        parsed = list(csv.reader(io.StringIO(text, newline=""), **t["dialect"]))[t["skip"] + (0 if t["given"] else 1):]
        parsed = [r for r in parsed if r]
        for i, n in enumerate(t["names"]):
            vals = [r[i] for r in parsed]
            if n in t["conv"]:
                want = [conv(t["conv"][n], x) for x in vals]
            elif v == 4:
                continue
            else:
                want = vals
            got = [x.decode("utf8") if isinstance(x, bytes) else x for x in np.asarray(ds[n]).tolist()]
            # numpy strips trailing NULs only; fixed-width strings keep blanks
            if repr(got) != repr(want) and not all((a == b) or (a != a and b != b) for a, b in zip(got, want)):
                raise Violation("wrong-values", "version %d column %s: %r, expected %r" % (v, n, got[:10], want[:10]))


CHECK = P15()
