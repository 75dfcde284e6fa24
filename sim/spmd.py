"""Simulated worker threads for numba's parallel loops.

Every numba function compiled with parallel=True is replaced by a Python rendering of
itself in which each `for ... in prange(...)` is run by simulated workers:

 * the loop body becomes a generator that pauses between statements, and the seeded
   scheduler picks the worker that goes on;
 * variables first assigned in the body are private to an iteration; variables of the
   function that the body updates as a whole (`out += x`, `out = out + x`) are reductions,
   with a private accumulator per worker that is combined at the end, as numba does;
 * memory that exists outside the loop is shared: an update of elements (`out[i] += x`)
   is a load, a pause, and a store; a compiled function that is given arrays works on
   copies and its stores become visible only after a pause (compiled code keeps what it
   loaded in registers), so concurrent updates of one element lose one of them, as they
   can on real threads;
 * the number of workers, which worker gets which iteration, and NUM_THREADS are chosen
   by the schedule.

Functions without parallel=True stay compiled.
"""

import ast
import inspect
import sys
import textwrap
import types

import numpy as np

from .core import rng_for


def _numba():
    try:
        import numba
        from numba.core.dispatcher import Dispatcher
        return numba, Dispatcher
    except ImportError:
        return None, ()


def is_dispatcher(f):
    return bool(_numba()[1]) and isinstance(f, _numba()[1])


def is_parallel(f):
    return is_dispatcher(f) and bool(f.targetoptions.get("parallel"))


class Pause(ast.NodeTransformer):
    """Rewrites one prange body into the body of a generator."""

    def __init__(self, reds, private, glob_names):
        self.reds, self.private = reds, private
        self.loop = 0
        self.nested = 0
        self.n = 0

    # -- names ---------------------------------------------------------------
    def visit_Name(self, node):
        if node.id in self.reds:
            return ast.copy_location(ast.Subscript(value=ast.Name("__red", ast.Load()), slice=ast.Constant(node.id), ctx=node.ctx), node)
        return node

    def visit_Call(self, node):
        if self.nested:
            return self.generic_visit(node)
        node = self.generic_visit(node)
        call = ast.Call(func=ast.Name("__call", ast.Load()), args=[node.func, *node.args], keywords=node.keywords)
        return ast.copy_location(ast.YieldFrom(call), node)

    def _comp(self, node):
        self.nested += 1
        try:
            return self.generic_visit(node)
        finally:
            self.nested -= 1

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda = visit_FunctionDef = _comp

    # -- statements ----------------------------------------------------------
    def _pt(self):
        return ast.Expr(ast.Yield(None))

    def visit_AugAssign(self, node):
        self.n += 1
        t = f"__t{self.n}"
        if isinstance(node.target, ast.Name):
            if node.target.id in self.reds:
                # whole-array reduction into the worker's own accumulator
                v = self.visit(node.value)
                tgt = ast.Subscript(ast.Name("__red", ast.Load()), ast.Constant(node.target.id), ast.Store())
                return [self._pt(), ast.AugAssign(tgt, node.op, v)]
            # private name: a scalar, or a view of shared memory
            v = self.visit(node.value)
            call = ast.Call(ast.Name("__inplace", ast.Load()), [ast.Name(node.target.id, ast.Load()), v, ast.Constant(type(node.op).__name__)], [])
            return [self._pt(), ast.Assign([ast.Name(node.target.id, ast.Store())], ast.YieldFrom(call))]
        if isinstance(node.target, ast.Subscript):
            base = self.visit(node.target.value)
            idx = self.visit(node.target.slice)
            v = self.visit(node.value)
            call = ast.Call(ast.Name("__update", ast.Load()), [base, self._index(idx), v, ast.Constant(type(node.op).__name__)], [])
            return [self._pt(), ast.Expr(ast.YieldFrom(call))]
        return [self._pt(), self.generic_visit(node)]

    @staticmethod
    def _index(idx):
        """A subscript as an ordinary expression."""
        if isinstance(idx, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()), [idx.lower or none, idx.upper or none, idx.step or none], [])
        if isinstance(idx, ast.Tuple):
            return ast.Tuple([Pause._index(e) for e in idx.elts], ast.Load())
        return idx

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            # a store to elements: what is stored was computed from earlier loads
            self.n += 1
            t = f"__v{self.n}"
            value = self.visit(node.value)
            return [self._pt(), ast.Assign([ast.Name(t, ast.Store())], value), self._pt(),
                    ast.Assign([self.visit(node.targets[0])], ast.Name(t, ast.Load()))]
        return [self._pt(), self.generic_visit(node)]

    def visit_BinOp(self, node):
        """Operands are loaded before whatever is called later in the expression."""
        node = self.generic_visit(node)
        if self.nested:
            return node

        def snap(e):
            if isinstance(e, (ast.Name, ast.Subscript)):
                return ast.Call(ast.Name("__snap", ast.Load()), [e], [])
            return e

        node.left, node.right = snap(node.left), snap(node.right)
        return node

    def visit_Expr(self, node):
        return [self._pt(), self.generic_visit(node)]

    def visit_For(self, node):
        self.loop += 1
        try:
            return [self._pt(), self.generic_visit(node)]
        finally:
            self.loop -= 1

    visit_While = visit_For

    def visit_Continue(self, node):
        return node if self.loop else ast.Return(None)


def _assigned(body):
    """Names assigned in statements (not inside nested functions), split by how."""
    plain, aug = set(), set()

    def names(t, out):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                names(e, out)
        elif isinstance(t, ast.Starred):
            names(t.value, out)

    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    names(t, plain)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
                names(n.target, plain)
            elif isinstance(n, ast.For):
                names(n.target, plain)
            elif isinstance(n, ast.AugAssign):
                names(n.target, aug)
    return plain, aug


def _self_reduction(body, name):
    """All assignments of name in the body are of the form name = name op x."""
    ok = False
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                if not (len(n.targets) == 1 and isinstance(n.value, ast.BinOp) and isinstance(n.value.left, ast.Name) and n.value.left.id == name):
                    return False
                ok = True
    return ok


class Loops(ast.NodeTransformer):
    """Replaces each prange loop of a function by calls to the simulated workers."""

    def __init__(self, is_prange, params):
        self.is_prange = is_prange
        self.before = set(params)
        self.k = 0

    def visit_stmts(self, stmts):
        out = []
        for st in stmts:
            r = self.visit(st)
            out.extend(r if isinstance(r, list) else [r])
            p, a = _assigned([st])
            self.before |= p | a
        return out

    def visit_FunctionDef(self, node):
        node.body = self.visit_stmts(node.body)
        return node

    def visit_If(self, node):
        node.body, node.orelse = self.visit_stmts(node.body), self.visit_stmts(node.orelse)
        return node

    def visit_With(self, node):
        node.body = self.visit_stmts(node.body)
        return node

    def visit_While(self, node):
        node.body = self.visit_stmts(node.body)
        return node

    def visit_For(self, node):
        it = node.iter
        if not (isinstance(it, ast.Call) and self.is_prange(it.func)):
            node.body = self.visit_stmts(node.body)
            return node
        self.k += 1
        plain, aug = _assigned(node.body)
        reds = {a for a in aug if a in self.before and a not in plain}
        for name in list(plain):
            if name in self.before and _self_reduction(node.body, name):
                reds.add(name)
        ops = {}
        for st in node.body:
            for n in ast.walk(st):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in reds:
                    ops[n.target.id] = type(n.op).__name__
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in reds and isinstance(n.value, ast.BinOp):
                    ops[n.targets[0].id] = type(n.value.op).__name__
        tr = Pause(reds, plain, None)
        tvars, _ = _assigned([ast.Assign([node.target], ast.Constant(None))])
        body = []
        for st in node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id in reds:
                st = ast.AugAssign(ast.Name(st.targets[0].id, ast.Store()), st.value.op, st.value.right)
            r = tr.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        fname = f"__body{self.k}"
        fn = ast.FunctionDef(name=fname, args=ast.arguments(posonlyargs=[], args=[ast.arg("__it"), ast.arg("__red")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=[ast.Assign([node.target], ast.Name("__it", ast.Load())), ast.Expr(ast.Yield(None)), *body], decorator_list=[])
        red = ast.Dict([ast.Constant(r) for r in sorted(reds)], [ast.Name(r, ast.Load()) for r in sorted(reds)])
        run = ast.Assign([ast.Name("__res", ast.Store())],
                         ast.Call(ast.Name("__run", ast.Load()), [ast.Name(fname, ast.Load()), ast.List(it.args, ast.Load()), red, ast.Constant(repr(ops))], []))
        outs = [ast.Assign([ast.Name(r, ast.Store())], ast.Subscript(ast.Name("__res", ast.Load()), ast.Constant(r), ast.Load())) for r in sorted(reds)]
        return [fn, run, *outs]


OPS = {"Add": np.add, "Sub": np.subtract, "Mult": np.multiply, "Div": np.true_divide}


_CODE = {}


def rewritten(py):
    """The compiled rewriting of a function, made once per process tree."""
    if py.__code__ in _CODE:
        return _CODE[py.__code__]
    nb = _numba()[0]
    src = textwrap.dedent(inspect.getsource(py))
    tree = ast.parse(src)
    fd = next(n for n in tree.body if isinstance(n, ast.FunctionDef))
    fd.decorator_list, fd.returns = [], None
    for a in fd.args.args + fd.args.kwonlyargs + fd.args.posonlyargs:
        a.annotation = None
    g0 = py.__globals__

    def is_prange(node):
        if isinstance(node, ast.Name):
            v = g0.get(node.id)
            return v is not None and (nb is not None and v is nb.prange or node.id == "prange")
        if isinstance(node, ast.Attribute):
            return node.attr == "prange"
        return False

    params = [a.arg for a in fd.args.posonlyargs + fd.args.args + fd.args.kwonlyargs]
    Loops(is_prange, params).visit(fd)
    ast.fix_missing_locations(tree)
    names = {n.id for n in ast.walk(fd) if isinstance(n, ast.Name)}
    _CODE[py.__code__] = compile(tree, py.__code__.co_filename, "exec"), names, fd.name
    return _CODE[py.__code__]


class World:
    """The simulated machine: workers, their schedule, and the rewritten functions."""

    def __init__(self, ctx, spec):
        """spec: {"threads": NUM_THREADS, "workers": W, "seed": s, "assign": "block"|"cyclic"|"random"}"""
        self.ctx, self.spec = ctx, spec
        self.rng = rng_for("spmd", spec["seed"])
        self.done = {}
        self.loops = 0
        self.conflicts = 0
        self.sim = []
        self.unsimulated = []
        self.pauses = 0
        self.in_loop = False

    # -- rewriting ------------------------------------------------------------
    def convert(self, f):
        """The simulated counterpart of a parallel dispatcher (or of a helper that mentions NUM_THREADS/prange)."""
        if id(f) in self.done:
            return self.done[id(f)]
        py = f.py_func if is_dispatcher(f) else f
        g0 = py.__globals__
        try:
            if self.spec.get("plain"):
                raise NotImplementedError
            code, names, fname = rewritten(py)
        except Exception:      # a construct the rewriting does not know: its Python source, run by one worker
            self.unsimulated.append(py.__name__)
            code, names, fname = None, set(py.__code__.co_names), py.__name__
        g = dict(g0)
        g.update(__run=self.run_loop, __call=self.call, __inplace=self.inplace, __update=self.update, __snap=self.snap)
        out = {}
        self.done[id(f)] = lambda *a, **k: out["f"](*a, **k)
        for name in names:
            if name in g0:
                g[name] = self.remap(name, g0[name])
        ns = {}
        if code is None:
            fn = types.FunctionType(py.__code__, g, py.__name__, None, py.__closure__)
        else:
            exec(code, g, ns)
            fn = ns[fname]
        fn.__defaults__, fn.__kwdefaults__ = py.__defaults__, py.__kwdefaults__
        out["f"] = fn
        self.sim.append(f"{py.__module__}.{py.__name__}")
        self.done[id(f)] = fn
        return fn

    def remap(self, name, v):
        from swiftsimio import accelerated
        if name == "NUM_THREADS" or (isinstance(v, int) and not isinstance(v, bool) and name.isupper() and v == getattr(accelerated, "NUM_THREADS", None) and "THREAD" in name):
            return self.spec["threads"]
        if is_parallel(v) or (is_dispatcher(v) and self.mentions(v.py_func)) or (isinstance(v, types.FunctionType) and v.__module__.startswith("swiftsimio") and self.mentions(v)):
            return self.convert(v)
        return v

    @staticmethod
    def mentions(f, seen=None):
        """Does the function, or a swiftsimio function it calls, depend on the number of threads?"""
        seen = seen if seen is not None else set()
        if id(f) in seen:
            return False
        seen.add(id(f))
        names = f.__code__.co_names
        if "NUM_THREADS" in names or "prange" in names:
            return True
        for n in names:
            v = f.__globals__.get(n)
            if is_dispatcher(v):
                if v.targetoptions.get("parallel"):
                    return True
                v = v.py_func
            if isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("swiftsimio") and World.mentions(v, seen):
                return True
        return False

    def prepare(self):
        """Rewrite everything once without installing it."""
        for _, _, v in self.find():
            self.convert(v)

    def find(self):
        todo = []
        for mn, mod in list(sys.modules.items()):
            if mod is None or not (mn == "swiftsimio" or mn.startswith("swiftsimio.")):
                continue
            for k, v in list(vars(mod).items()):
                if is_parallel(v):
                    todo.append((vars(mod), k, v))
                elif isinstance(v, dict) and not k.startswith("__"):
                    todo += [(v, k2, v2) for k2, v2 in list(v.items()) if is_parallel(v2)]
        return todo

    def install(self):
        """Replace every parallel function of swiftsimio, wherever a module or a dictionary of one refers to it."""
        old = self.find()
        for d, k, v in old:
            d[k] = self.convert(v)

        def undo():
            for d, k, v in old:
                d[k] = v
        return sorted(set(self.sim)), undo

    # -- running ---------------------------------------------------------------
    def run_loop(self, body, rargs, reds, ops):
        import ast as _a
        ops = _a.literal_eval(ops)
        its = list(range(*[int(x) for x in rargs]))
        self.loops += 1
        if self.in_loop:      # numba runs a nested prange serially
            acc = {k: self.zero(v, ops[k]) for k, v in reds.items()}
            for i in its:
                for _ in body(i, acc):
                    pass
            return {k: self.combine(v, acc[k], ops[k]) for k, v in reds.items()}
        W = max(1, min(self.spec["workers"], len(its)) if its else 1)
        how = self.spec["assign"]
        if how == "block":
            parts = [list(a) for a in np.array_split(its, W)]
        elif how == "cyclic":
            parts = [its[w::W] for w in range(W)]
        else:
            parts = [[] for _ in range(W)]
            for i in its:
                parts[self.rng.randrange(W)].append(i)
            for p in parts:
                self.rng.shuffle(p)
        accs = [{k: self.zero(v, ops[k]) for k, v in reds.items()} for _ in range(W)]

        def worker(w):
            for i in parts[w]:
                yield from body(int(i), accs[w])

        live = {w: worker(w) for w in range(W)}
        cur = None
        trace = []
        self.in_loop = True
        try:
            while live:
                if cur not in live or self.rng.random() < self.spec["switch"]:
                    cur = self.rng.choice(sorted(live))
                    trace.append(cur)
                self.pauses += 1
                try:
                    next(live[cur])
                except StopIteration:
                    del live[cur]
        finally:
            self.in_loop = False
        self.ctx.ev("loop", len(its), W, trace[:200])
        self.ctx.probe("loops")
        self.ctx.probe("switches", len(trace))
        if W > 1:
            self.ctx.probe("loops_concurrent")
        res = {}
        order = list(range(W))
        self.rng.shuffle(order)
        for k, v in reds.items():
            for w in order:
                v = self.combine(v, accs[w][k], ops[k])
            res[k] = v
        self.ctx.state("schedule", len(its), W, tuple(trace[:12]))
        return res

    @staticmethod
    def zero(v, op):
        one = op in ("Mult", "Div")
        if isinstance(v, np.ndarray):
            return np.ones_like(v) if one else np.zeros_like(v)
        return type(v)(1 if one else 0)

    @staticmethod
    def combine(v, acc, op):
        f = {"Add": np.add, "Sub": np.add, "Mult": np.multiply, "Div": np.multiply}[op]
        if isinstance(v, np.ndarray):
            f(v, acc, out=v, casting="same_kind")
            return v
        return f(v, acc)

    def call(self, f, *args, **kwargs):
        """A call from a worker: compiled code loads, works, and only later stores."""
        yield
        if isinstance(f, type) or not (is_dispatcher(f) or isinstance(f, np.ufunc) or getattr(f, "__module__", "") in ("numpy", "numpy.core.fromnumeric") and "out" in kwargs):
            return f(*args, **kwargs)
        pairs = []

        def arg(a):
            if isinstance(a, np.ndarray) and a.flags.writeable and a.flags.c_contiguous and a.dtype.hasobject is False:
                c = a.copy()
                pairs.append((a, c, a.copy()))
                return c
            return a

        args = [arg(a) for a in args]
        kwargs = {k: arg(v) for k, v in kwargs.items()}
        res = f(*args, **kwargs)
        yield
        for a, c, before in pairs:
            ch = ~((c == before) | ((c != c) & (before != before)))
            if ch.any():
                if (a[ch] != before[ch]).any():
                    self.conflicts += 1
                a[ch] = c[ch]
            if res is c:
                res = a
        return res

    @staticmethod
    def snap(v):
        return v.copy() if isinstance(v, np.ndarray) else v

    def inplace(self, cur, v, op):
        yield
        if isinstance(cur, np.ndarray):
            t = cur.copy()
            yield
            new = t.copy()
            OPS[op](new, v, out=new, casting="same_kind")
            yield
            if not np.array_equal(cur, t, equal_nan=cur.dtype.kind == "f"):
                self.conflicts += 1
            cur[...] = new
            return cur
        return OPS[op](cur, v) if op in OPS else {"FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "Pow": lambda a, b: a ** b}[op](cur, v)

    def update(self, base, idx, v, op):
        old = np.array(base[idx])
        yield
        new = OPS[op](old, v)
        yield
        if not np.array_equal(np.array(base[idx]), old):
            self.conflicts += 1
        base[idx] = new
