"""P17: the same calls give the same results in every process.

Each run is one seeded program.  It runs in several worlds: processes started separately that differ in hash seed,
contents of fresh and recycled memory, addresses, time of day, time zone, locale, working directory, directory listing
order and what they did before.  A world is a server that has imported riptable and forks a child per program."""
import contextlib
import ctypes
import hashlib
import io
import json
import os
import random
import shutil
import signal
import socket
import struct
import subprocess
import sys
import time

from sim import core
from sim.core import Check, Violation, fork_call
from sim.values import diff, snap

WORLDS = [
    {"name": "plain", "env": {"PYTHONHASHSEED": "0", "TZ": "UTC", "LC_ALL": "C.UTF-8"}, "cwd": "a", "list": 0, "clock": 1_600_000_000},
    {"name": "hash", "env": {"PYTHONHASHSEED": "4242", "TZ": "America/New_York", "LC_ALL": "C", "MALLOC_PERTURB_": "165"}, "cwd": "some/other dir", "list": 11, "clock": 1_709_251_199},
    {"name": "memory", "env": {"PYTHONHASHSEED": "99", "TZ": "Asia/Kolkata", "LC_ALL": "POSIX", "MALLOC_PERTURB_": "90", "MALLOC_MMAP_THRESHOLD_": "4096"}, "cwd": "b" * 60, "list": 977, "clock": 1_583_650_790},
    {"name": "after", "env": {"PYTHONHASHSEED": "7", "TZ": "Pacific/Auckland", "LC_ALL": "C.UTF-8", "MALLOC_PERTURB_": "1", "COLUMNS": "80", "HOME": "/nonexistent"}, "cwd": "c", "list": 5, "clock": 4_000_000_000},
]
FORMS = ["ds", "flat", "one", "plain", "arr", "sec"]


def noise(seed):
    """Earlier work in this process: fills recycled memory, caches and counters with something else."""
    import numpy as np
    import riptable as rt

    from . import ops

    r = random.Random(seed)
    for _ in range(3):
        k = r.choice(ops.KINDS)
        o = ops.OPS[r.choice([n for n, x in ops.OPS.items() if x.kind == k])]
        with contextlib.suppress(Exception):
            o.fn(ops.make(o.kind, r.randrange(1 << 20)), random.Random(r.randrange(1000)))
    keep = [rt.FA(np.full(n, 7.25e300)) + 1 for n in (1, 3, 8, 17, 40, 200, 1000) for _ in range(6)]
    keep += [rt.FA(np.full(n, 0x5A5A5A5A, dtype="int32")) + 1 for n in (1, 3, 8, 17, 40, 200, 1000) for _ in range(6)]
    keep += [rt.FA(np.full(n, 0x5A, dtype="int8")) + 1 for n in (1, 3, 8, 17, 40, 200, 1000) for _ in range(6)]
    del keep


def program(t, scratch, world, full):
    """Run the program in this world -> list of results (digests, or the results themselves)."""
    import numpy as np

    from sim.disk import SimDisk

    from . import ops
    from . import storage as S
    from sim import values as V

    import riptable as rt

    d = SimDisk()
    w = WORLDS[world]
    base = os.path.join(scratch, w["cwd"])
    os.makedirs(base)
    os.chdir(base)
    d.setup(base, list_seed=w["list"])
    d.clock(True, w["clock"] * 10**9, 5 * 10**9, 1000)
    if world:
        with core.quiet():
            noise(t["noise"] + world)
    np.random.seed(world)
    random.seed(world)
    out = []
    d.arm([])

    def done(r):
        s = repr(r)
        out.append(s if full else hashlib.sha256(s.encode()).hexdigest()[:20])

    def files(root):
        r = []
        for a, b, c in os.walk(root):
            b.sort()
            r += [(os.path.relpath(os.path.join(a, x), root), os.path.getsize(os.path.join(a, x))) for x in sorted(c)]
        return sorted(r)
    for o in t["ops"]:
        try:
            if o[0] == "op":
                q = ops.OPS[o[1]]
                x = ops.make(q.kind, o[2])
                r = q.fn(x, random.Random(o[3]))
                done(["ok", snap(r), ops.state(x) if q.mut else None])
            elif o[0] == "save":
                root = "store" if o[4] else os.path.join(base, "store")
                os.makedirs(root, exist_ok=True)
                with contextlib.redirect_stdout(io.StringIO()):
                    S.save_item(root, o[1], o[2], o[3], {"append": "s1"} if o[2] == "sec" else None)
                done(["saved", files(root)])
            elif o[0] == "load":
                done(["loaded", snap(S.load_item("store", o[1], o[2]))])
            elif o[0] == "multi":
                # several files of equal layout in one directory, then read together in different ways
                os.makedirs("multi", exist_ok=True)
                names = []
                for i, sp in enumerate(o[1]):
                    p = "multi/%s.sds" % sp[0]
                    V.build(sp[1]).save(p)
                    names.append(p)
                got = Got()
                got["dir"] = lambda: snap(rt.load_sds("multi"))
                got["dir2"] = lambda: snap(rt.load_sds("multi", include_all_sds=True))
                got["stack"] = lambda: S.rows_snap(rt.load_sds(names, stack=True))
                got["list"] = lambda: snap([x for x in rt.load_sds(names)])
                got["concat"] = lambda: rt.sds_concat(names, "both.sds")
                got["both"] = lambda: S.rows_snap(rt.load_sds("both.sds", stack=True))
                got["tree"] = lambda: str(rt.sds_tree("multi"))
                got["info"] = lambda: str(rt.sds_info("multi"))
                got["flat"] = lambda: rt.sds_flatten("multi")
                got["flatdir"] = lambda: snap(rt.load_sds("multi"))
                got["files"] = lambda: files("multi")
                for k in list(got):
                    got[k] = repr(got[k]).replace(base, "<base>")
                done(got)
            elif o[0] == "names":
                done(names_program(o))
            elif o[0] == "sample":
                ds = rt.Dataset({"a": np.arange(o[1])})
                done([int(x) for x in ds.sample(o[2], seed=o[3])["a"]])
            elif o[0] == "text":
                with open("t.csv", "w", encoding="utf8") as f:
                    f.write(o[1])
                done([snap(rt.load_csv_as_dataset("t.csv", ["a", "b", "c"], {"a": int, "b": float, "c": str}, version=o[2], skip_rows=0))])
        except Exception as e:
            done(["raised", type(e).__name__, str(e).replace(base, "<base>").split(" at 0x")[0][:60]])
    d.disarm()
    d.clock(False)
    return out


class Got(dict):
    """Results by name; a failing one is its error."""

    def __setitem__(self, k, fn):
        if callable(fn):
            try:
                b = io.StringIO()
                with contextlib.redirect_stdout(b):
                    fn = [fn(), b.getvalue()]
            except Exception as e:
                fn = "raised %s: %s" % (type(e).__name__, str(e)[:80])
        dict.__setitem__(self, k, fn)


def names_program(o):
    """Results whose order a user sees: names, groups, categories, merged and pivoted columns."""
    import numpy as np
    import riptable as rt

    r = random.Random(o[1])
    words = ["w%s" % r.randrange(10**6) for _ in range(r.randint(2, 9))]
    vals = [r.choice(words) for _ in range(r.randint(1, 30))]
    n = len(vals)
    x = np.array([r.randrange(-50, 50) for _ in range(n)])
    ds = rt.Dataset({"k": vals, "k2": [r.choice("xyz") for _ in range(n)], "v": x, "u": x * 0.5})
    out = Got()
    c = rt.Cat(vals)
    out["cat"] = lambda: [np.asarray(c.category_array).astype("U").tolist(), np.asarray(c._fa).tolist()]
    out["unord"] = lambda: np.asarray(rt.Cat(vals, ordered=False).category_array).astype("U").tolist()
    out["dict"] = lambda: snap(rt.Cat([r.randrange(3) for _ in range(n)], {w: i for i, w in enumerate(sorted(set(words))[:3])}).as_string_array)
    out["gb"] = lambda: snap(ds.gb(["k", "k2"]).sum())
    out["gbu"] = lambda: snap(ds.gbu(["k2", "k"]).count())
    out["agg"] = lambda: snap(ds.gb("k2").agg(["sum", "mean"]))
    out["agg2"] = lambda: snap(ds.gb("k2").agg({"v": "sum", "u": "max"}))
    out["accum"] = lambda: snap(rt.Accum2(ds.k, ds.k2).sum(ds.v))
    out["unique"] = lambda: snap(rt.unique(ds.k))
    out["pivot"] = lambda: snap(ds.gb(["k", "k2"]).sum().trim().pivot(["k"], ["k2"], ["v"]) if n else 0)
    other = rt.Dataset({"k": sorted(set(words)), "z": np.arange(len(set(words))), "v": np.arange(len(set(words)))})
    for how in ("left", "inner", "outer", "right"):
        out["merge" + how] = lambda how=how: snap(rt.merge2(ds, other, on="k", how=how, suffixes=("_l", "_r"), keep=(None, "last")))
    out["st"] = lambda: snap(rt.Struct({w: i for i, w in enumerate(words)}).keys())
    out["concat"] = lambda: snap(rt.hstack([ds, rt.Dataset({"q": [1.0], "k": ["zz"]})]))
    out["conc2"] = lambda: snap(rt.Dataset.concat_columns([ds[["k"]], other[["z"]][:1]], do_copy=True) if n == 1 else 0)
    out["one"] = lambda: snap(ds[["k", "v"]].to_dict()) if hasattr(ds, "to_dict") else 0
    out["mset"] = lambda: snap(ds.col_filter(["k", "u"])) if hasattr(ds, "col_filter") else 0
    out["text"] = lambda: str(ds)
    out["dup"] = lambda: snap(ds.drop_duplicates("k"))
    out["iso"] = lambda: snap(rt.ismember(ds.k, other.k))
    out["catm"] = lambda: snap(rt.Cat([ds.k, ds.k2]).sum(ds.v))
    out["hc"] = lambda: snap(rt.hstack([c, rt.Cat([r.choice(words) for _ in range(5)])]).expand_array)
    out["describe"] = lambda: snap(ds.describe())
    return out


# ------------------------------------------------------------------------------------------------ world servers
def send(s, b):
    s.sendall(struct.pack("<Q", len(b)) + b)


def recv(s):
    def need(n):
        b = b""
        while len(b) < n:
            x = s.recv(min(1 << 20, n - len(b)))
            if not x:
                raise EOFError
            b += x
        return b
    return need(struct.unpack("<Q", need(8))[0])


def serve(path, world):
    """One world: import riptable, then a forked child per request."""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    core.load_riptable()
    from . import ops

    with core.quiet():
        ops.warm()
        for i in range(6):
            names_program(["names", i])
        noise(1)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    with open(path + ".ready", "w") as f:
        f.write("ok")
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = srv.accept()
        if os.fork():
            c.close()
            continue
        srv.close()
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        try:
            while True:
                req = json.loads(recv(c))
                st, r = fork_call(lambda: run_program(req["t"], world, req["full"], req["tag"]), 100)
                send(c, json.dumps([st, r]).encode())
        except EOFError:
            pass
        finally:
            os._exit(0)


def run_program(t, world, full, tag):
    scratch = os.path.join(os.environ["RTSIM_SESSION"], "w%d-%s-%d" % (world, tag, os.getpid()))
    os.makedirs(scratch)
    try:
        with core.quiet():
            return program(t, scratch, world, full)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


class P17(Check):
    id = "P17"
    title = "The same calls give the same results in every process"
    configs = {"ops": 0.55, "names": 0.2, "disk": 0.25}
    isolate = True
    quick_runs = 2500
    thorough_runs = 150000
    quick_wall = 110
    rule = "distinct (operations of the program) run in all worlds"
    components_real = ["all of riptable's Python code", "riptide_cpp (native worker threads off)", "numpy", "hash seed, allocator contents and addresses of really separate processes"]
    components_stub = ["clock, directory listing order, working directory, home, time zone and locale settings of each world", "what each process did before (seeded)"]
    assumptions = ["display width is a setting", "worlds run the same versions of Python and numpy"]
    list_fields = ("ops",)

    def setup(self):
        root = os.environ.get("RTSIM_SESSION") or core.scratch_root()
        self.dir = os.path.join(root, "worlds-%d" % os.getpid())
        os.makedirs(self.dir)
        self.procs = []
        for i, w in enumerate(WORLDS):
            e = dict(os.environ, RTSIM_SESSION=self.dir, RTSIM_READY="1")
            e.pop("RTSIM_OWN_CACHE", None)
            e.update(w["env"])
            self.procs.append(subprocess.Popen([sys.executable, "-m", "checks.p17", os.path.join(self.dir, "s%d" % i), str(i)], cwd=core.VERIF, env=e,
                                               stdin=subprocess.DEVNULL, stdout=open(self.dir + "/log%d" % i, "w"), stderr=subprocess.STDOUT))
        import atexit

        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and self.stop())
        end = time.monotonic() + 200
        for i, p in enumerate(self.procs):
            while not os.path.exists(os.path.join(self.dir, "s%d.ready" % i)):
                if p.poll() is not None or time.monotonic() > end:
                    raise RuntimeError("world %d did not start: %s" % (i, open(self.dir + "/log%d" % i).read()[-1500:]))
                time.sleep(0.02)

    def stop(self):
        for p in self.procs:
            p.kill()
            p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def gen(self, rng, cfg):
        from sim import values as V

        from . import ops
        from . import storage as S

        o = []
        if cfg == "ops":
            for _ in range(rng.randint(1, 4)):
                k = rng.choice(ops.KINDS)
                o.append(["op", rng.choice([n for n, x in ops.OPS.items() if x.kind == k]), rng.randrange(1 << 20), rng.randrange(1000)])
        elif cfg == "names":
            for _ in range(rng.randint(1, 2)):
                o.append(["names", rng.randrange(1 << 30)])
            if rng.random() < 0.4:
                o.append(["sample", rng.choice([0, 1, 10, 100]), rng.choice([1, 5, 50]), rng.choice([0, 1, rng.randrange(1 << 31)])])
            if rng.random() < 0.4:
                rows = "".join("%d,%s,%s\n" % (rng.randrange(-99, 99), rng.randrange(1000) / 8, rng.choice(["a", "b c", "d\"e", "\u00e9"])) for _ in range(rng.randint(1, 6)))
                o.append(["text", rows, rng.choice([0, 1, 2, 3, 4])])
        else:
            used = {}
            for _ in range(rng.randint(1, 4)):
                x = rng.random()
                if x < 0.25:
                    sp = V.rand_ds(rng, n=rng.choice([1, 2, 5]), labels=False, kinds=["i4", "f8", "str"] if "i4" in V.COL_KINDS else None)
                    nm = rng.sample(["b", "a", "Z", "a10", "a9", "zz", "mm"], rng.randint(2, 4))
                    o.append(["multi", [[n, dict(sp, n=rng.choice([1, 2, 3]), cols=[[c, dict(d, s=rng.randrange(1 << 30))] for c, d in sp["cols"]])] for n in nm]])
                elif used and x < 0.55:
                    s = rng.choice(sorted(used))
                    o.append(["load", s, used[s]])
                else:
                    f = rng.choice(FORMS)
                    s = "%s%d" % (f, len(used))
                    used[s] = f
                    o.append(["save", s, f, S.gen_item(rng, f), rng.random() < 0.5])
        return {"ops": o, "noise": rng.randrange(1 << 30)}

    def _conns(self):
        if getattr(self, "_pid", None) != os.getpid():
            self._pid = os.getpid()
            self._c = []
            for i in range(len(WORLDS)):
                c = socket.socket(socket.AF_UNIX)
                c.connect(os.path.join(self.dir, "s%d" % i))
                self._c.append(c)
        return self._c

    def ask(self, t, full=False):
        cs = self._conns()
        b = json.dumps({"t": {"ops": t["ops"], "noise": t["noise"]}, "full": full, "tag": str(os.getpid())}).encode()
        for c in cs:
            send(c, b)
        return [json.loads(recv(c)) for c in cs]

    def run(self, t, env):
        rs = self.ask(t)
        for w, (st, r) in zip(WORLDS, rs):
            if st != "ok" or isinstance(r, dict):
                raise Violation("died", "in world %s: %s %s" % (w["name"], st, r))
        env.event(rs[0][1])
        env.key([[o[0], o[1] if o[0] == "op" else None, o[2] if o[0] in ("save", "load", "text") else None, len(o)] for o in t["ops"]], t["noise"] % 8)
        env.fault("separate-process", len(WORLDS) - 1)
        for i in range(1, len(WORLDS)):
            if rs[i][1] != rs[0][1]:
                j = next(j for j in range(len(t["ops"])) if rs[i][1][j] != rs[0][1][j])
                f = self.ask(t, True)
                a, b = f[0][1][j], f[i][1][j]
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                raise Violation("differs", "%r gives ...%s... in world %s and ...%s... in world %s" % (
                    t["ops"][j][:2], a[max(0, k - 80):k + 120], WORLDS[0]["name"], b[max(0, k - 80):k + 120], WORLDS[i]["name"]))


CHECK = P17()

if __name__ == "__main__":
    serve(sys.argv[1], int(sys.argv[2]))
