"""Seeded simulation driver: run many seeds, check, minimise, replay, write evidence."""
import copy
import gc
import hashlib
import io
import json
import os
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTSIM_REPO", "/repo")


class Violation(Exception):
    """The property does not hold in this run.  kind is the stable signature used by the minimiser."""

    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


class Env:
    """What one simulated run records."""

    def __init__(self, scratch, disk=None):
        self.scratch, self.disk = scratch, disk
        self.h = hashlib.sha256()
        self.nev = 0
        self.faults, self.probes = {}, {}
        self.keys = set()
        self.steps = 0
        self.sim_ns = 0
        self.tail = []
        self.realised = None  # explicit form of seeded decisions (schedule), for the minimiser

    def event(self, *a):
        s = repr(a)
        if self.scratch and self.scratch in s:
            s = s.replace(self.scratch, "<S>")
        self.h.update(s.encode("utf8", "replace"))
        self.nev += 1
        self.tail.append(s[:300])
        if len(self.tail) > 400:
            del self.tail[:200]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def key(self, *k):
        """Mark this run as non-trivial, with a key that says which distinct state/interleaving it reached."""
        self.keys.add(hashlib.md5(repr(k).encode()).hexdigest()[:16])

    def disk_events(self):
        for e in self.disk.events():
            self.event("io", *e)

    def digest(self):
        return self.h.hexdigest()[:24]


class Check:
    id = "?"
    title = ""
    technique = "deterministic simulation with fault injection"
    level = "exploration"
    configs = {"default": 1.0}
    isolate = True
    run_timeout = 120
    quick_runs = 400
    thorough_runs = 10000
    quick_wall = 170
    thorough_wall = 3000
    rule = ""
    components_real = []
    components_stub = []
    assumptions = []
    list_fields = ("ops", "faults")

    def setup(self):
        pass

    def gen(self, rng, cfg):
        raise NotImplementedError

    def run(self, trace, env):
        raise NotImplementedError

    def shrink(self, trace):
        """Smaller candidate traces, most aggressive first."""
        for f in self.list_fields:
            xs = trace.get(f)
            if not isinstance(xs, list) or not xs:
                continue
            n = len(xs)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    t = dict(trace)
                    t[f] = xs[:i] + xs[i + size:]
                    if len(t[f]) < n:
                        yield t
                size //= 2


# ----------------------------------------------------------------------------------------------- environment
def ensure_env(argv):
    """Re-exec with the seam preloaded and every ambient source of nondeterminism pinned."""
    so = os.path.join(VERIF, "build", "simio.so")
    src = os.path.join(VERIF, "sim", "simio.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, so)
    if os.environ.get("RTSIM_READY") == "1":
        return
    env = dict(os.environ)
    env.update(RTSIM_READY="1", LD_PRELOAD=so, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", TZ="UTC", LC_ALL="C.UTF-8",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore")
    env.setdefault("PYTHONHASHSEED", "0")
    cache = os.path.join(tempfile.gettempdir(), "rtsim-numba-%d" % os.getpid())
    env.setdefault("NUMBA_CACHE_DIR", cache)
    env.setdefault("RTSIM_OWN_CACHE", cache)
    env.setdefault("MPLCONFIGDIR", cache)
    os.execve(sys.executable, [sys.executable, "-m", "sim.main"] + argv, env)


def load_riptable():
    """Import the code under test from /repo's working tree (never from a build product)."""
    for p in (REPO,):
        if p not in sys.path:
            sys.path.insert(0, p)
    ver = os.path.join(REPO, "riptable", "_version.py")
    if not os.path.exists(ver):  # build product, ignored by git
        with open(ver, "w") as f:
            f.write("__version__ = '1.19.0'\n")
    import warnings

    warnings.simplefilter("ignore")
    import numpy  # noqa
    import pandas  # noqa
    import numba  # noqa

    from . import sched

    sched.patch_locks()
    cfg = os.environ.get("XDG_CONFIG_HOME")
    if "NUMBA_CACHE_DIR" in os.environ:
        os.environ.setdefault("MPLCONFIGDIR", os.environ["NUMBA_CACHE_DIR"])
    os.environ["XDG_CONFIG_HOME"] = "/dev/null/none"  # start from the default display options, whatever this user has saved
    try:
        with quiet():
            import riptable as rt
    finally:
        sched.unpatch_locks()
        os.environ.pop("XDG_CONFIG_HOME")
        if cfg is not None:
            os.environ["XDG_CONFIG_HOME"] = cfg
    assert os.path.realpath(rt.__file__).startswith(os.path.realpath(REPO)), rt.__file__
    with quiet():
        rt.FastArray._TOFF()
    return rt


class quiet:
    """Silence stdout/stderr at the fd level (native code prints too)."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.o, self.e = os.dup(1), os.dup(2)
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)
        os.close(n)

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.o, 1)
        os.dup2(self.e, 2)
        os.close(self.o)
        os.close(self.e)


_SCR = [0]


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return base


def new_scratch():
    _SCR[0] += 1
    root = os.environ.get("RTSIM_SESSION") or scratch_root()
    p = os.path.join(root, "r%07d-%06d" % (os.getpid(), _SCR[0] % 1000000))
    os.makedirs(p)
    return p


# ----------------------------------------------------------------------------------------------- one run
def derive(seed, *salt):
    return random.Random(hashlib.sha256(repr((seed,) + salt).encode()).digest())


def make_trace(check, seed):
    rng = derive(seed, check.id)
    names = list(check.configs)
    cfg = rng.choices(names, [check.configs[n] for n in names])[0]
    t = check.gen(rng, cfg)
    t["cfg"], t["seed"] = cfg, seed
    # a trace is its JSON form: what is run now is exactly what a replay file holds
    return json.loads(json.dumps(t))


def run_here(check, trace):
    """Run one trace in this process -> result dict."""
    from .disk import SimDisk

    scratch = new_scratch()
    try:
        disk = SimDisk()
    except RuntimeError:
        disk = None
    env = Env(scratch, disk)
    res = {"status": "ok"}
    try:
        check.run(trace, env)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "detail": str(v.detail).replace(scratch, "<S>")[:2000]}
    except Exception as e:
        txt = traceback.format_exc()[-3000:].replace(scratch, "<S>")
        own = os.path.realpath(REPO) + os.sep + "riptable" + os.sep
        if any(os.path.realpath(f.filename).startswith(own) for f in traceback.extract_tb(e.__traceback__)):
            # riptable raised where the scenario expects it to work
            res = {"status": "violation", "kind": "unexpected-error", "detail": "%s: %s\n%s" % (type(e).__name__, e, txt[-1200:])}
        else:
            res = {"status": "harness", "detail": txt}
    finally:
        if disk is not None:
            disk.disarm()
            disk.clock(False)
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(seed=trace.get("seed"), cfg=trace.get("cfg"), digest=env.digest(), nev=env.nev, faults=env.faults,
               probes=env.probes, keys=sorted(env.keys), steps=env.steps, sim_ns=env.sim_ns)
    if res["status"] != "ok":
        res["tail"] = env.tail[-60:]
        res["realised"] = env.realised
    return res


def fork_call(fn, timeout):
    """Run fn() in a forked child; returns (status, value).  status: 'ok', 'exit:N', 'signal:N', 'timeout'."""
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = json.dumps(fn()).encode()
            except BaseException:
                data = json.dumps({"status": "harness", "detail": traceback.format_exc()[-3000:]}).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 1.0))
        if rd:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
    os.close(r)
    if timed:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    if timed:
        return "timeout", None
    if os.WIFSIGNALED(st):
        return "signal:%d" % os.WTERMSIG(st), None
    if os.WEXITSTATUS(st):
        return "exit:%d" % os.WEXITSTATUS(st), None
    try:
        return "ok", json.loads(buf)
    except ValueError:
        return "exit:garbled", None


def run_isolated(check, trace):
    st, res = fork_call(lambda: run_here(check, trace), check.run_timeout)
    if st == "ok":
        return res
    base = {"seed": trace.get("seed"), "cfg": trace.get("cfg"), "digest": st, "nev": 0, "faults": {}, "probes": {},
            "keys": [], "steps": 0, "sim_ns": 0}
    if st == "timeout":
        base.update(status="violation", kind="no-progress", detail="run did not finish within %ds" % check.run_timeout)
    else:
        base.update(status="violation", kind="process-died", detail="simulated process died: %s" % st)
    return base


def run_one(check, trace):
    return run_isolated(check, trace) if check.isolate else run_here(check, trace)


# ----------------------------------------------------------------------------------------------- many runs
def pool_run(check, seeds, workers, wall, on_result, stop_on=lambda r: False):
    """Stripe seeds over forked workers; calls on_result in the parent."""
    t0 = time.monotonic()
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        mine = seeds[w::workers]
        if not mine:
            continue
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for rr in procs:
                    os.close(rr)
                q = quiet()
                q.__enter__()
                for s in mine:
                    if time.monotonic() - t0 > wall:
                        break
                    try:
                        res = run_one(check, make_trace(check, s))
                    except Exception:
                        res = {"status": "harness", "seed": s, "detail": traceback.format_exc()[-3000:], "digest": "", "nev": 0,
                               "faults": {}, "probes": {}, "keys": [], "steps": 0, "sim_ns": 0, "cfg": "?"}
                    data = json.dumps(res).encode() + b"\n"
                    off = 0
                    while off < len(data):
                        off += os.write(wr, data[off:off + 65536])
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(wr)
        procs[r] = (pid, bytearray(), len(mine))
    live = dict(procs)
    stopped = False
    hard = wall + check.run_timeout + 60
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            c = os.read(r, 1 << 16)
            pid, buf, _n = live[r]
            if not c:
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                continue
            buf += c
            while b"\n" in buf:
                line, _, rest = bytes(buf).partition(b"\n")
                buf[:] = rest
                res = json.loads(line)
                on_result(res)
                if stop_on(res):
                    stopped = True
        if stopped or time.monotonic() - t0 > hard:
            for r, (pid, _b, _n) in live.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
            live = {}
    return stopped


def minimise(check, trace, kind, budget_s=90, max_runs=400):
    """Greedy delta debugging on the trace; keeps only candidates that fail with the same kind."""
    t0 = time.monotonic()
    runs = 0
    cur = trace
    progress = True
    while progress and time.monotonic() - t0 < budget_s and runs < max_runs:
        progress = False
        for cand in check.shrink(cur):
            if time.monotonic() - t0 > budget_s or runs >= max_runs:
                break
            cand = json.loads(json.dumps(cand))
            runs += 1
            try:
                r = run_isolated(check, cand)
            except Exception:
                continue
            if r["status"] == "violation" and r["kind"] == kind:
                cur = cand
                progress = True
                break
    return cur, runs


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]
