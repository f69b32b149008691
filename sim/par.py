"""SimPar: riptable's numba kernels run as Python, their prange loops by virtual workers under a seeded scheduler.

install() replaces numba's jit decorators for functions defined in riptable.  A kernel compiled with parallel=True
has each outermost `for v in prange(...)` rewritten into a generator that runs one contiguous part of the range and
yields before every statement, and between the read and the write of `a[i] op= x`.  As in numba, what the loop body
assigns is private to a part (it starts from the value before the loop), `v op= x` on a name bound before the loop
and not otherwise assigned in it is a reduction, and arrays are shared.  Without an active ParRun the whole range is
one part (the one-worker schedule); with one, ParRun picks the parts and every switch between them.
A kernel compiled without parallel=True runs as it is written.
"""
import ast
import functools
import inspect
import operator
import sys
import textwrap
import types

import numpy as np

ACTIVE = None  # the ParRun in charge, or None: one worker
_stubs = {}
KERNELS = {}
_OPS = {ast.Add: ("+", 0), ast.Sub: ("-", 0), ast.Mult: ("*", 1)}


class ParRun:
    def __init__(self, rng=None, p=0.3, nparts=4, cuts=None, preempt=None):
        self.rng, self.p, self.nparts = rng, p, nparts
        self.cuts_plan = [list(c) for c in cuts] if cuts is not None else None
        self.plan = {int(k): int(v) for k, v in preempt} if preempt is not None else None
        self.step = 0
        self.loops = 0
        self.switches = 0
        self.cuts = []
        self.realised = []
        self.kernels = set()
        self.workers = 0

    def parts(self, n):
        """Cut points (exclusive) of 0..n for this loop."""
        if self.cuts_plan is not None:
            c = self.cuts_plan[self.loops] if self.loops < len(self.cuts_plan) else []
            c = sorted({x for x in c if 0 < x < n})
        elif n > 1 and self.nparts > 1:
            c = sorted(self.rng.sample(range(1, n), min(n - 1, self.nparts - 1)))
        else:
            c = []
        self.loops += 1
        self.cuts.append(c)
        e = [0] + c + [n]
        return list(zip(e[:-1], e[1:]))

    def drive(self, gens):
        """Interleave the generators; returns their return values in the order they finished."""
        live = list(range(len(gens)))
        self.workers = max(self.workers, len(gens))
        done = []
        cur = live[0] if live else None
        if len(live) > 1 and self.plan is None:
            cur = self.rng.choice(live)
        if len(live) > 1:
            k = self.plan.get(-self.loops) if self.plan is not None else None
            if k in live:
                cur = k
            self.realised.append([-self.loops, cur])
        while live:
            try:
                next(gens[cur])
            except StopIteration as e:
                done.append(e.value)
                live.remove(cur)
                if not live:
                    break
                self.step += 1
                nxt = self._pick(live, force=True)
                self.realised.append([self.step, nxt])
                cur = nxt
                continue
            self.step += 1
            if len(live) > 1:
                nxt = self._pick([x for x in live if x != cur], force=False)
                if nxt is not None:
                    self.switches += 1
                    self.realised.append([self.step, nxt])
                    cur = nxt
        return done

    def _pick(self, live, force):
        if self.plan is not None:
            k = self.plan.get(self.step)
            return k if k in live else (live[0] if force else None)
        if force or self.rng.random() < self.p:
            return self.rng.choice(live)
        return None


def run_loop(name, worker, args, env, reductions):
    """Called by rewritten kernels: run the loop over range(*args); returns {name: value} of what it assigned."""
    r = range(*[int(a) for a in args])
    par = ACTIVE
    if par is None or len(r) == 0:
        parts = [(0, len(r))]
        gens = [worker(r, dict(env))]
        outs = []
        for g in gens:
            try:
                while True:
                    next(g)
            except StopIteration as e:
                outs.append(e.value)
    else:
        par.kernels.add(name)
        parts = par.parts(len(r))
        outs = par.drive([worker(r[a:b], dict(env)) for a, b in parts])
    res = {}
    for o in outs:  # in finishing order: a value read after the loop is the last worker's
        for k, v in o.items():
            if k not in reductions:
                res[k] = v
    for k, op in reductions.items():
        acc = env[k]
        for o in outs:
            if k in o:
                acc = acc * o[k] if op == "*" else acc + o[k] if op == "+" else min(acc, o[k]) if op == "min" else max(acc, o[k])
        res[k] = acc
    return res


# ------------------------------------------------------------------------------------------------- rewriting
def _is_prange(node):
    return isinstance(node, ast.For) and isinstance(node.iter, ast.Call) and (
        (isinstance(node.iter.func, ast.Attribute) and node.iter.func.attr == "prange") or
        (isinstance(node.iter.func, ast.Name) and node.iter.func.id == "prange"))


def _assigned(nodes):
    aug = {}
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                aug.setdefault(x.target.id, set()).add(type(x.op))
    real_plain = set()
    for n in nodes:
        for x in ast.walk(n):
            red = _reduction(x)
            if red is not None:
                aug.setdefault(red[0], set()).add(red[1])
                continue
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            real_plain.add(y.id)
            elif isinstance(x, (ast.For, ast.comprehension)):
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name):
                        real_plain.add(y.id)
            elif isinstance(x, ast.With):
                for it in x.items:
                    if it.optional_vars is not None:
                        for y in ast.walk(it.optional_vars):
                            if isinstance(y, ast.Name):
                                real_plain.add(y.id)
    return real_plain, aug


def _reduction(x):
    """`v = v + e`, `v = min(v, e)` and the like -> (v, operator)."""
    if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)):
        return None
    v, e = x.targets[0].id, x.value
    is_v = lambda y: isinstance(y, ast.Name) and y.id == v
    if isinstance(e, ast.BinOp) and type(e.op) in _OPS and (is_v(e.left) or (is_v(e.right) and not isinstance(e.op, ast.Sub))):
        return v, type(e.op)
    if isinstance(e, ast.Call) and any(is_v(a) for a in e.args):
        f = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if f in ("min", "minimum", "fmin"):
            return v, "min"
        if f in ("max", "maximum", "fmax"):
            return v, "max"
    return None


class _Yields(ast.NodeTransformer):
    """Insert a yield before every statement and inside every read-modify-write of an array element."""

    def __init__(self):
        self.n = 0

    def block(self, stmts):
        out = []
        for s in stmts:
            out.append(_yield())
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
                self.n += 1
                t, i = "__rt%d" % self.n, "__ri%d" % self.n
                sl = s.target.slice
                if not isinstance(sl, (ast.Slice, ast.Tuple)):
                    out.append(ast.Assign(targets=[ast.Name(i, ast.Store())], value=sl))
                    sl = ast.Name(i, ast.Load())
                load = ast.Subscript(value=s.target.value, slice=sl, ctx=ast.Load())
                out.append(ast.Assign(targets=[ast.Name(t, ast.Store())], value=ast.BinOp(left=load, op=s.op, right=s.value)))
                out.append(_yield())
                out.append(ast.Assign(targets=[ast.Subscript(value=s.target.value, slice=sl, ctx=ast.Store())], value=ast.Name(t, ast.Load())))
                continue
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and getattr(s, f) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(getattr(s, f)))
            out.append(s)
        return out


def _yield():
    return ast.Expr(ast.Yield(value=None))


class _Rewrite:
    def __init__(self, fn):
        self.count = 0
        self.name = fn.__qualname__

    def block(self, stmts, bound):
        out = []
        for s in stmts:
            if _is_prange(s):
                out.extend(self.loop(s, set(bound)))
                p, a = _assigned([s])
                bound |= p | set(a)
                continue
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and getattr(s, f) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(getattr(s, f), bound))
            p, a = _assigned([s])
            bound |= p | set(a)
            out.append(s)
        return out

    def loop(self, node, bound):
        self.count += 1
        k = self.count
        plain, aug = _assigned(node.body)
        tgt = {y.id for y in ast.walk(node.target) if isinstance(y, ast.Name)}
        plain |= tgt
        reds = {}
        for v, ops in aug.items():
            o = next(iter(ops))
            if v in bound and v not in plain and len(ops) == 1 and (o in _OPS or o in ("min", "max")):
                reds[v] = {"min": "min", "max": "max", ast.Mult: "*"}.get(o, "+")
        names = sorted(plain | set(aug))
        body = _Yields().block(node.body)
        w = "__w%d" % k
        pre = []
        for v in names:
            if v in reds and reds[v] in "+*":
                pre += ast.parse("%s = %d" % (v, 1 if reds[v] == "*" else 0)).body
            elif v in bound:
                pre += ast.parse("if %r in __env: %s = __env[%r]" % (v, v, v)).body
        loop = ast.For(target=node.target, iter=ast.Name("__it", ast.Load()), body=body, orelse=[])
        post = ast.parse("__out = locals()\nreturn {__k: __out[__k] for __k in %r if __k in __out}" % (names,)).body
        fn = ast.parse("def %s(__it, __env):\n    pass\n    yield" % w).body[0]
        fn.body = pre + [loop] + post
        # names bound before the loop that the body assigns: snapshot them
        snap = "__env%d = {}\n" % k
        for v in names:
            if v in bound:
                snap += "try: __env%d[%r] = %s\nexcept NameError: pass\n" % (k, v, v)
        call = ast.parse("__res%d = __run_loop(%r, %s, (), __env%d, %r)" % (k, self.name, w, k, reds)).body[0]
        call.value.args[2] = ast.Tuple(elts=node.iter.args, ctx=ast.Load())
        back = ""
        for v in names:
            back += "if %r in __res%d: %s = __res%d[%r]\n" % (v, k, v, k, v)
        return ast.parse(snap).body + [fn, call] + ast.parse(back).body


def _poison(arr):
    """Uninitialised memory: its contents depend on the run, as they do in a real process."""
    b = arr.view(np.ndarray) if isinstance(arr, np.ndarray) else arr
    pat = 0x5A if ACTIVE is None else 0xA6
    try:
        if b.dtype.kind == "b":
            b[...] = ACTIVE is not None
        elif b.size and b.dtype.kind != "O":
            np.lib.stride_tricks.as_strided(b.reshape(-1).view(np.uint8), (b.nbytes,))[:] = pat if b.dtype.kind not in "U" else 0x41
    except Exception:
        pass
    return arr


class _NP(types.ModuleType):
    """numpy as a kernel sees it: empty arrays hold run-dependent contents."""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def empty(*a, **k):
        return _poison(np.empty(*a, **k))

    @staticmethod
    def empty_like(*a, **k):
        return _poison(np.empty_like(*a, **k))


_np_proxy = _NP()


def _dispatch(stub, gen):
    import numba as nb

    def call(*args):
        try:
            impl = gen(*[nb.typeof(a) for a in args])
            return impl(*args)
        except (OverflowError, TypeError, ValueError):
            if len(args) == 1:  # _isnan of an integer
                x = args[0]
                ii = np.iinfo(np.asarray(x).dtype)
                return int(x) == (ii.min if ii.min < 0 else ii.max)
            raise
    functools.update_wrapper(call, stub)
    return call


class Kernel:
    """Stands in for a compiled kernel: callable with the same arguments."""

    def __init__(self, fn, parallel):
        self.py_func = fn
        self.parallel = parallel
        self._impl = None
        functools.update_wrapper(self, fn)
        KERNELS[fn.__module__ + "." + fn.__qualname__ + ("(par)" if parallel else "")] = self

    def _build(self):
        fn = self.py_func
        g = dict(fn.__globals__)
        for k, v in list(g.items()):
            if v is np:
                g[k] = _np_proxy
            elif isinstance(v, types.FunctionType) and v in _stubs:
                g[k] = _stubs[v]
        code = fn
        if self.parallel:
            src = textwrap.dedent(inspect.getsource(fn))
            tree = ast.parse(src)
            f = tree.body[0]
            f.decorator_list = []
            rw = _Rewrite(fn)
            bound = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
            f.body = rw.block(f.body, bound)
            f.returns = None
            for a in f.args.args:
                a.annotation = None
            ast.fix_missing_locations(tree)
            g["__run_loop"] = run_loop
            exec(compile(tree, "<simpar %s>" % fn.__qualname__, "exec"), g)
            code = g[f.name]
            code.__defaults__ = fn.__defaults__
            self._impl = code
        else:
            self._impl = types.FunctionType(fn.__code__, g, fn.__name__, fn.__defaults__, fn.__closure__)
        return self._impl

    def __call__(self, *args, **kw):
        impl = self._impl or self._build()
        args = [_plain(a) for a in args]
        kw = {k: _plain(v) for k, v in kw.items()}
        with np.errstate(all="ignore"):
            return impl(*args, **kw)

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)


def _plain(a):
    if isinstance(a, np.ndarray) and type(a) is not np.ndarray:
        return a.view(np.ndarray)
    if isinstance(a, tuple):
        return tuple(_plain(x) for x in a)
    return a


def install():
    """Patch numba's decorators; must run before riptable is imported."""
    assert "riptable" not in sys.modules
    import numba as nb
    import numba.extending as ext

    real_njit, real_jit, real_overload = nb.njit, nb.jit, ext.overload

    def ours(fn):
        return callable(fn) and getattr(fn, "__module__", "").startswith("riptable")

    def wrap(real):
        def njit(*args, **kw):
            if args and callable(args[0]) and not isinstance(args[0], nb.types.Type):
                fn = args[0]
                if ours(fn):
                    return Kernel(fn, bool(kw.get("parallel", False)))
                return real(*args, **kw)

            def deco(fn):
                if ours(fn):
                    return Kernel(fn, bool(kw.get("parallel", False)))
                return real(*args, **kw)(fn)
            return deco
        return njit

    nb.njit, nb.jit = wrap(real_njit), wrap(real_jit)

    def overload(func, *a, **k):
        def deco(gen):
            if ours(func):
                _stubs[func] = _dispatch(func, gen) if _raises(func) else func
                return gen
            return real_overload(func, *a, **k)(gen)
        return deco
    ext.overload = overload


def _raises(fn):
    """A stub whose Python body only raises (the module says: standard Python versions exist for most)."""
    try:
        t = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
        body = [s for s in t.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return len(body) == 1 and isinstance(body[0], ast.Raise)
    except Exception:
        return True


def patch_empty():
    """Uninitialised result arrays that riptable code allocates for kernels hold run-dependent contents too."""
    import riptable as rt

    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("riptable.") and getattr(m, "empty", None) is rt.rt_numpy.empty:
            if m is not rt.rt_numpy:
                m.empty = _sim_empty


def _sim_empty(*a, **k):
    import riptable as rt

    return _poison(rt.rt_numpy.empty(*a, **k))
