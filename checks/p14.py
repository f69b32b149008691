"""P14: sampling with a seed is reproducible whatever ran before; every sample is a subset of the admitted rows, in row order."""
import random

import numpy as np

from sim.core import Check, Violation, fork_call
from sim.values import diff, snap

from . import ops

KINDS = ["ds", "ds", "pds", "fa", "ia", "str", "cat", "catm", "dtn", "date", "ts"]


class Entropy:
    """The operating system's entropy, as numpy reads it: a seeded stream."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    def __call__(self, k):
        self.n += 1
        return self.r.getrandbits(k)


def install_entropy(seed):
    import numpy.random.bit_generator as bg

    e = Entropy(seed)
    bg.randbits = e
    return e


def mk_seed(s):
    if s is None or isinstance(s, int):
        return s
    if s[0] == "list":
        return list(s[1])
    if s[0] == "ss":
        return np.random.SeedSequence(s[1])
    if s[0] == "gen":
        return np.random.default_rng(s[1])
    return np.int64(s[1])


def mk_data(kind, n, seed):
    """Data in which every row is recognisable: -> (object, row identifiers of it or of a result)."""
    import riptable as rt

    ids = np.arange(n) * 3 + 100
    if kind == "fa":
        return rt.FA(ids.astype(float)), lambda o: [int(x) for x in o]
    if kind == "ia":
        return rt.FA(ids.astype("int32")), lambda o: [int(x) for x in o]
    if kind == "str":
        return rt.FA(["s%d" % i for i in ids]) if n else rt.FA(np.array([], dtype="S4")), lambda o: [int(x[1:]) for x in np.asarray(o).astype("U").tolist()]
    if kind == "cat":
        return rt.Cat(["s%d" % i for i in ids]) if n else rt.Cat(np.array([], dtype="S4")), lambda o: [int(x[1:]) for x in np.asarray(o.expand_array).astype("U").tolist()] if len(o) else []
    if kind == "dtn":
        return rt.DateTimeNano(ids.astype("int64") * 10**15, from_tz="GMT", to_tz="GMT"), lambda o: [int(x) // 10**15 for x in np.asarray(o._fa)]
    if kind == "date":
        return rt.Date(ids.astype("int32")), lambda o: [int(x) for x in np.asarray(o._fa)]
    if kind == "ts":
        return rt.TimeSpan(ids.astype(float)), lambda o: [int(x) for x in np.asarray(o._fa)]
    d = {"id": ids, "f": ids * 0.5, "s": rt.FA(np.array(["s%d" % i for i in ids], dtype="S5") if n else np.array([], dtype="S5"))}
    if n:
        d["c"] = rt.Cat(["s%d" % i for i in ids])
    if kind == "ds2":
        d["m"] = np.stack([ids, ids], axis=1)
    ds = rt.Dataset(d)

    def rows(o):
        a = [int(x) for x in o["id"]]
        if [int(round(x * 2)) for x in o["f"]] != a or [int(x.decode()[1:]) for x in np.asarray(o["s"]).tolist()] != a:
            raise Violation("torn-rows", "columns of a sampled row do not belong together: %s" % o)
        if "c" in o and len(a) and [int(x[1:]) for x in np.asarray(o["c"].expand_array).astype("U").tolist()] != a:
            raise Violation("torn-rows", "columns of a sampled row do not belong together: %s" % o)
        return a
    return ds, rows


DATA = ["ds", "ds", "ds2", "fa", "ia", "str", "cat", "dtn", "date", "ts"]


class P14(Check):
    id = "P14"
    title = "Seeded sampling is reproducible and isolated"
    configs = {"history": 0.7, "cover": 0.3}
    isolate = True
    quick_runs = 6000
    thorough_runs = 300000
    quick_wall = 80
    rule = "distinct (data kind, size, filter, sample size, seed kind, preceding calls)"
    components_real = ["riptable sampling, indexing and Dataset code", "numpy's generators"]
    components_stub = ["operating system entropy (seeded)", "the global random state (seeded, then watched)"]
    assumptions = ["an index filter has no repeated entries"]
    list_fields = ("ops",)

    def gen(self, rng, cfg):
        def call():
            n = rng.choice([0, 1, 2, 3, 5, 10, 11, 40, 200, 1000, 3000])
            f = rng.choice([None, None, "mask", "mask", "index", "index-any", "none", "all"])
            fseed = rng.randrange(1000)
            N = rng.choice([None, 0, 1, 2, 5, 10, n, n + 1, max(0, n - 1), 5000])
            s = rng.choice([None, 0, 1, rng.randrange(1 << 32), rng.randrange(1 << 62), ["list", [rng.randrange(100), 7]], ["ss", rng.randrange(1000)], ["gen", rng.randrange(1000)], ["np", rng.randrange(1000)]])
            return ["sample", rng.choice(DATA), n, f, fseed, N, s, rng.random() < 0.5]
        if cfg == "history":
            ops_ = []
            for _ in range(rng.randint(1, 5)):
                x = rng.random()
                if x < 0.6:
                    ops_.append(call())
                elif x < 0.7:
                    ops_.append(["np", rng.randrange(1000)])
                elif x < 0.8:
                    ops_.append(["dtn", rng.randrange(1, 20)])
                else:
                    k = rng.choice(ops.KINDS)
                    ops_.append(["op", rng.choice([n for n, o in ops.OPS.items() if o.kind == k]), rng.randrange(1000), rng.randrange(1 << 20)])
            return {"entropy": rng.randrange(1 << 30), "gseed": rng.randrange(1 << 30), "ops": ops_, "call": call()}
        return {"entropy": rng.randrange(1 << 30), "kind": rng.choice(DATA), "n": rng.choice([2, 3, 4]), "filter": rng.choice([None, "mask", "index"]), "seeded": rng.random() < 0.5, "base": rng.randrange(1 << 20)}

    @staticmethod
    def _filter(f, n, fseed):
        r = random.Random(fseed)
        if f is None:
            return None, list(range(n))
        if f == "mask":
            m = [r.random() < 0.6 for _ in range(n)]
            return np.array(m, dtype=bool), [i for i in range(n) if m[i]]
        if f == "none":
            return np.zeros(n, dtype=bool), []
        if f == "all":
            return np.ones(n, dtype=bool), list(range(n))
        idx = sorted(r.sample(range(n), r.randint(0, n)))
        if f == "index-any":
            r.shuffle(idx)
        return np.array(idx, dtype=r.choice(["int64", "int32"])), sorted(idx)

    def _sample(self, c, env=None):
        """One sampling call, its shape guarantees checked -> row identifiers."""
        import riptable as rt

        _, kind, n, f, fseed, N, s, meth = c
        o, rows = mk_data(kind, n, fseed)
        flt, adm = self._filter(f, n, fseed)
        if flt is not None:
            flt = rt.FA(flt) if fseed % 2 else flt
            keep = np.array(flt)
        before = snap(o)
        kw = {} if N is None else {"N": N}
        if meth:
            r = o.sample(filter=flt, seed=mk_seed(s), **kw)
        else:
            from riptable.rt_utils import sample

            r = sample(o, filter=flt, seed=mk_seed(s), **kw)
        if type(r) is not type(o):
            raise Violation("wrong-type", "%s from %s" % (type(r).__name__, type(o).__name__))
        if snap(o) != before:
            raise Violation("input-changed", "sampling changed the data: %s" % diff(before, snap(o)))
        if flt is not None and not np.array_equal(keep, np.asarray(flt)):
            raise Violation("input-changed", "sampling changed the filter")
        got = rows(r)
        allowed = [i * 3 + 100 for i in adm]
        want = min(10 if N is None else N, len(allowed))
        if len(got) != want:
            raise Violation("wrong-size", "%r gives %d rows, expected %d of %d admitted" % (c, len(got), want, len(allowed)))
        if len(set(got)) != len(got):
            raise Violation("repeated-row", "%r gives %r" % (c, got))
        if not set(got) <= set(allowed):
            raise Violation("filtered-row", "%r gives rows the filter excludes: %r" % (c, sorted(set(got) - set(allowed))))
        if got != sorted(got):
            raise Violation("wrong-order", "%r gives rows out of order: %r" % (c, got))
        return got, snap(r)

    def run(self, t, env):
        e = install_entropy(t["entropy"])
        if t["cfg"] == "cover":
            return self._cover(t, env)
        np.random.seed(t["gseed"] % (1 << 32))
        random.seed(t["gseed"])
        c = t["call"]
        seeded = c[6] is not None
        st, alone = fork_call(lambda: self._alone(c), 60)
        if st != "ok":
            raise Violation("died", st)
        if isinstance(alone, dict):
            if alone.get("v"):
                raise Violation(*alone["v"])
            raise Violation("sample-raised", alone["detail"])
        for o in t["ops"]:
            if o[0] == "np":
                np.random.rand(o[1] % 7)
                np.random.seed(o[1])
                random.random()
            elif o[0] == "dtn":
                import riptable as rt
                rt.DateTimeNano.random(o[1])
            elif o[0] == "op":
                try:
                    op = ops.OPS[o[1]]
                    op.fn(ops.make(op.kind, o[3]), random.Random(o[2]))
                except Exception:
                    pass
            else:
                self._watched(o, e)
            env.event(o[0])
        ids, s = self._watched(c, e)
        env.event(ids)
        env.probe("seeded" if seeded else "unseeded")
        env.fault("global-random-state-changed", 1)
        env.key(c[1:4], c[5], str(c[6])[:6], [x[0] for x in t["ops"]])
        if seeded:
            if ids != alone:
                raise Violation("not-reproducible", "%r gives rows %r after %r, and %r in a process of its own" % (c, ids, t["ops"], alone))
            again, s2 = self._watched(c, e)
            if again != ids or s2 != s:
                raise Violation("not-reproducible", "%r gives %r, then %r" % (c, ids, again))

    def _alone(self, c):
        install_entropy(999)
        try:
            return self._sample(c)[0]
        except Violation as v:
            return {"v": [v.kind, v.detail]}

    def _watched(self, c, e):
        g, p, n0 = np.random.get_state(), random.getstate(), e.n
        r = self._sample(c)
        g2 = np.random.get_state()
        if not (g[1] == g2[1]).all() or g[2:] != g2[2:] or random.getstate() != p:
            raise Violation("global-state", "%r reads or changes the global random state" % (c,))
        if c[6] is not None and e.n != n0:
            raise Violation("entropy-read", "%r reads the system's entropy although it has a seed" % (c,))
        return r

    def _cover(self, t, env):
        """Every admitted row is selected by some of 80 different seeds (or entropies)."""
        seen = set()
        for k in range(80):
            if not t["seeded"]:
                install_entropy((t["base"], k).__repr__())
            ids, _ = self._sample(["sample", t["kind"], t["n"] + 2, t["filter"], t["base"] % 50, 1, t["base"] * 100 + k if t["seeded"] else None, k % 2 == 0])
            seen |= set(ids)
        _, adm = self._filter(t["filter"], t["n"] + 2, t["base"] % 50)
        want = {i * 3 + 100 for i in adm}
        env.event(sorted(seen))
        env.probe("coverage")
        env.key("cover", t["kind"], t["n"], t["filter"], t["seeded"], t["base"] % 50)
        if seen != want:
            raise Violation("never-selected", "rows %r are never selected" % sorted(want - seen))


CHECK = P14()
