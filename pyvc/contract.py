"""
Contracts on functions of /repo, their use at call sites, and verification of a function body against its contract.
"""
from __future__ import annotations
import ast, hashlib, importlib, inspect, time, traceback, types
import z3
from .engine import *
from .interp import *
from .interp import _SRC
from .vals import *
from .logic import *
from . import logic as L


def load(path):
    """'pkg.mod:Qual.name' -> function object (unwrapped; properties give their getter, click commands their callback)"""
    m, q = path.split(":")
    mod = importlib.import_module(m)
    o = mod
    for p in q.split("."):
        o = inspect.getattr_static(o, p) if isinstance(o, type) else getattr(o, p)
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    if hasattr(o, "callback"):
        o = o.callback
    return inspect.unwrap(o)


class Spec:
    """
    The state a specification talks about: arguments, result, heap before (`old`) and now.
    """
    def __init__(self, ip, args, heap, old=None, result=None, exc=None, ghost=None):
        self.ip, self.args, self._heap, self.old, self.result, self.exc = ip, args, heap, old, result, exc
        self.ghost = ghost if ghost is not None else ip.st.ghost
    def __getattr__(self, n):
        if n.startswith("__") or n not in self.__dict__.get("args", {}):
            raise AttributeError(n)
        return self.args[n]
    def arr(self, f):
        a = self._heap.get(f)
        return a if a is not None else self.ip.st.arr0(f) if f not in self.ip.st.heap else (self.ip.st.arr(f) if self._heap is self.ip.st.heap else self.ip.st.arr0(f))
    def _ref(self, x):
        return x.t if isinstance(x, Sym) else x
    def fv(self, x, f):
        """V term of field f of object x"""
        return self.ip.st.sel(f, self._ref(x), self.arr(f))
    def field(self, x, f, tp=None):
        """value of a field"""
        return self.ip.from_v(self.fv(x, f), tp or field_ty(x.c, f))
    def seq(self, x, region=None):
        f = region or (list_region(x.c) if isinstance(x, Sym) and x.k == "ref" else "#list")
        return self.ip.st.sel(f, self._ref(x), self.arr(f))
    def dic(self, x):
        return self.ip.st.sel("#dict", self._ref(x), self.arr("#dict"))
    def set(self, x):
        return self.ip.st.sel("#set", self._ref(x), self.arr("#set"))
    def v(self, x):
        return to_v(x)
    def truth(self, x):
        return self.ip._z(self.ip.truth(x))
    def eq(self, a, b):
        return self.ip._z(self.ip.eq(a, b))


def strip_new(arr, a0):
    """the heap field without what was written to objects made since the function was entered"""
    def new(i):
        if i.eq(a0) or (z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED and i.decl().name().startswith("A!")):
            return True
        return z3.is_add(i) and i.num_args() == 2 and new(i.arg(0)) and z3.is_int_value(i.arg(1)) and i.arg(1).as_long() >= 0
    while z3.is_store(arr) and new(arr.arg(1)):
        arr = arr.arg(0)
    return arr


class Contract:
    """
    params:   {name: type descriptor | annotation} overriding the annotations (receiver type for `self`)
    requires: Spec -> iterable of (name, formula)
    ensures:  Spec -> iterable of (name, formula)      (normal exit; s.old is the entry state, s.result the result)
    raises:   {exception class: Spec -> formula or iterable of (name, formula)} allowed exceptional exits, with what then holds
    modifies: Spec -> iterable of (field, ref term | None)   evaluated in the entry state; everything else is unchanged
    result:   type of the result (default: annotation)
    pure:     modifies nothing
    """
    def __init__(self, path, params=None, requires=None, ensures=None, raises=None, modifies=None, result=None,
                 templates=(), self_recursive=True, trusted=False, doc="", lemmas=None, setup=None, exact_raises=True,
                 call_only=False, budget=None, inline_at_calls=False, bind_result=None, ghosts=(), assume=None, props=(), uses=(), fresh=False, reaches=None, body_only=False):
        self.body_only = body_only  # checked against the body; callers use another contract of the same function
        self.fresh = fresh      # the result is an object that did not exist before the call
        self.props, self.uses = tuple(props), list(uses)
        self.path, self.params, self.requires, self.ensures = path, params or {}, requires, ensures
        self.raises, self.modifies, self.result = raises or {}, modifies, result
        self.templates, self.self_recursive, self.trusted, self.doc = list(templates), self_recursive, trusted, doc
        self.setup, self.call_only, self.budget = setup, call_only, budget
        self.inline_at_calls = inline_at_calls
        self.bind_result = bind_result
        self.ghosts = ghosts
        self.reaches = reaches      # (parameter, heap fields, result selector): the result is reached from the parameter along the fields
        self.assume = assume
        self.name = path.split(":")[1]
        self.load_err = None
        try:
            self.fn = self.load(path)
        except Exception as e:
            self.fn, self.load_err = None, f"the function is not there: {type(e).__name__}: {e}"
        if self.fn is not None and not inline_at_calls and not body_only:
            self.register()
        ALL.append(self)
    def load(self, path):
        return load(path)
    def register(self):
        CONTRACTS[self.fn] = self

    def result_ty(self):
        if self.result is not None:
            return ty(self.result)
        h = hints(self.fn)
        return ty(h.get("return", None))

    # ---- call site
    def apply(self, ip, args, kw, extra=None):
        st = ip.st
        ip.used_contracts.add(self.path)
        node = func_ast(self.fn)
        env = Env()
        sig = inspect.signature(self.fn)
        defaults = {p.name: p.default for p in sig.parameters.values() if p.default is not inspect.Parameter.empty}
        ip.bind(node.args, list(args), dict(kw), defaults, env)
        ip.type_params(self.fn, env)
        a = env.d
        if extra:
            a.update(extra)
        elif isinstance(self, NestedContract) and self.free:      # recursive call from its own body
            a.update({n: self.cells[n].cell_contents for n in self.free if n in self.cells})
        for n, tp in {**hints(self.fn), **self.params}.items():
            if n in a and not isinstance(tp, Fixed):
                a[n] = self.narrow(ip, a[n], tp)
        for g, sort in self.ghosts:
            if g not in st.ghost:
                st.ghost[g] = st.fresh("g_" + g, sort)
        # touch every field the contract may mention so that old/new snapshots are well defined
        pre = Spec(ip, a, dict(st.heap))
        caller = ip.top_name
        if self.requires:
            for name, f in self.requires(pre):
                st.oblige(f"{caller}: precondition {name} of {self.name}", f)
        old_heap = dict(st.heap)
        pre = Spec(ip, a, old_heap, ghost=dict(st.ghost))
        mods = list(self.modifies(pre)) if self.modifies else []
        heap_alloc = pre.alloc = st.alloc_now()
        st.bump_alloc()
        whole = {}
        for f, r in mods:
            if f.startswith("ghost:"):
                g = f[6:]
                st.ghost[g] = st.fresh("g_" + g, st.ghost[g].sort())
                continue
            if r is None or callable(r):
                whole.setdefault(f, []).append(r)
        for f, rs in whole.items():
            pred = None
            if not any(r is None for r in rs):
                sing = [r2 for f2, r2 in mods if f2 == f and r2 is not None and not callable(r2)]
                pred = (lambda rs, sing: (lambda o: z3.And(0 <= o, o < heap_alloc, *[z3.Not(r(o)) for r in rs], *[o != ip.refterm(x) for x in sing])))(rs, sing)
            new = st.havoc_field(f, None, frame=pred)
            st.heap_facts(f, new, st.alloc_now())
        for f, r in mods:
            if f.startswith("ghost:") or f in whole:
                continue
            x = st.fresh("hv_" + f.strip("#"), st.SORTS.get(f, V))
            st.put(f, ip.refterm(r), x)
            ip.fresh_cell_facts(f, x)
        # exceptional outcomes
        outcomes = [None] + list(self.raises)
        k = st.choose(len(outcomes), f"outcome of {self.name}")
        if k:
            ec = outcomes[k]
            post = Spec(ip, a, st.heap, old=pre, exc=ExcVal(ec))
            c = self.raises[ec](post)
            for f in ([c] if not hasattr(c, "__iter__") or isinstance(c, z3.ExprRef) else [x[1] for x in c]):
                st.assume(f if not isinstance(f, Sym) else f.t)
            st.feasible_or_end()
            raise PyExc(ExcVal(ec))
        if self.bind_result:
            res = self.bind_result(Spec(ip, a, st.heap, old=pre))
        else:
            res = ip.fresh("r_" + self.fn.__name__, self.result_ty())
        if self.fresh:
            st.assume(self.is_new(res, heap_alloc))
        post = Spec(ip, a, st.heap, old=pre, result=res)
        if self.reaches:
            p, fields, pick = self.reaches
            # old objects only refer to old objects: what is reached from one in the initial heap existed before this function ran,
            # and what was written to new objects since is not seen on the way
            seen = {f: strip_new(pre.arr(f), st.A0) for f in fields}
            if all(seen[f].eq(st.arr0(f)) for f in fields):
                x, y = to_v(a[p]), to_v(pick(res) if pick else res)
                st.assume(self.reached(x, y, st.A0))
                changed = [f for f in fields if not seen[f].eq(pre.arr(f))]
                if changed and self.ensures and all(post.arr(f).eq(pre.arr(f)) for f in changed):
                    over = {f: seen[f] for f in changed}
                    pre2 = Spec(ip, a, {**old_heap, **over}, ghost=pre.ghost)
                    pre2.alloc = pre.alloc
                    post2 = Spec(ip, a, {**st.heap, **over}, old=pre2, result=res)
                    old_arg = z3.Implies(V.is_ref(x), z3.And(0 <= V.vr(x), V.vr(x) < st.A0))
                    for name, f in self.ensures(post2):
                        st.assume(z3.Implies(old_arg, f.t if isinstance(f, Sym) else f))
        if self.ensures:
            for name, f in self.ensures(post):
                st.assume(f.t if isinstance(f, Sym) else f)
        st.feasible_or_end()
        return res
    @staticmethod
    def reached(x, y, bound):
        return z3.Implies(z3.And(V.is_ref(y), z3.Implies(V.is_ref(x), z3.And(0 <= V.vr(x), V.vr(x) < bound))), z3.And(0 <= V.vr(y), V.vr(y) < bound))
    def is_new(self, res, alloc):
        r = to_v(res)
        return z3.Implies(V.is_ref(r), V.vr(r) >= alloc)
    def narrow(self, ip, v, tp):
        tp = ty(tp)
        if isinstance(v, Sym) and v.k == "any" and len(tp) == 1:
            return ip.resolve(v)
        if isinstance(v, Sym) and v.k == "ref" and isinstance(v.c, tuple) and v.c[-1] == ():
            for x in tp:
                if x[0] == "ref" and isinstance(x[1], tuple) and x[1][0] == v.c[0]:
                    ip.retag(v, x[1])
        return v

    # ---- verification
    def verify(self):
        return Verifier(self).run()


ALL: list = []

class FnResult:
    def __init__(self, c):
        self.c = c
        self.path, self.name = c.path, c.name
        self.status = "?"        # proved / failed / unsupported / trusted
        self.obls: list = []
        self.reason = ""
        self.paths = self.restarts = 0
        self.inlined: set = set()
        self.used: set = set()
        self.models: set = set()
        self.solver_s = 0.0
        self.wall = 0.0
    def failed(self):
        return [o for o in self.obls if not o.ok]


def _now(self):
    """the specification view of the state at the loop head"""
    return Spec(self.ip, self.fn.args, self.heap, old=self.fn, ghost=self.ghost)
LoopState.now = property(_now)

class Verifier:
    def __init__(self, c: Contract):
        self.c = c
        self.res = FnResult(c)
        self.normal = 0
    def run(self):
        c, res = self.c, self.res
        t0, s0 = time.time(), L.STATS.solver_s
        if c.load_err:
            res.status, res.reason = "unsupported", c.load_err
            return res
        if c.trusted:
            res.status = "trusted"
            return res
        ex = Explorer(c.name, self.one, budget_s=c.budget or 240)
        try:
            ex.explore()
            res.obls = ex.obls
            bad = res.failed()
            if bad:
                res.status = "failed"
                res.reason = bad[0].name
            elif not ex.obls or not ex.reached:
                res.status = "failed"
                res.reason = "vacuous: no obligation was generated"
                ex.obls.append(Obl(f"{c.name}: reachability", False, "none", "no path reaches an exit", ""))
            else:
                res.status = "proved"
        except Unsupported as e:
            res.status, res.reason = "unsupported", str(e)
            res.obls = ex.obls
        except RecursionError:
            res.status, res.reason = "unsupported", "recursion limit"
        except z3.Z3Exception as e:
            res.status, res.reason = "unsupported", f"solver interface: {e}"
            if DEBUG:
                raise
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NotImplementedError) as e:
            res.status, res.reason = "unsupported", f"verifier limitation: {type(e).__name__}: {e} @ {traceback.extract_tb(e.__traceback__)[-1].name}:{traceback.extract_tb(e.__traceback__)[-1].lineno}"
            if DEBUG:
                raise
        res.paths, res.restarts = ex.paths, ex.restarts
        res.solver_s, res.wall = L.STATS.solver_s - s0, time.time() - t0
        return res
    def one(self, st):
        c = self.c
        ip = Interp(st)
        ip.top_fn = c.fn
        ip.top_name = c.name
        ip.loop_templates = c.templates
        try:
            self._one(st, ip)
        finally:
            self.res.inlined |= ip.inlined
            self.res.used |= ip.used_contracts
            self.res.models |= ip.used_models
    def _one(self, st, ip):
        c = self.c
        sig = inspect.signature(c.fn)
        h = hints(c.fn)
        args = {}
        for n, p in sig.parameters.items():
            tp = c.params.get(n)
            if tp is None:
                if n not in h:
                    raise Unsupported(f"parameter {n} has no type")
                tp = h[n]
            if isinstance(tp, Fixed):
                args[n] = tp.value(ip) if callable(tp.value) else tp.value
                continue
            if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
                args[n] = () if p.kind == p.VAR_POSITIONAL else {}
                continue
            args[n] = ip.fresh(n, tp)
        if isinstance(c, NestedContract):
            args.update(c.bind_free(ip))
        for g, sort in c.ghosts:
            st.ghost[g] = z3.Const("g0_" + g, sort)
        if c.setup:
            c.setup(ip, args)
        heap0 = dict(st.heap)
        pre = Spec(ip, args, heap0, ghost=dict(st.ghost))
        if c.requires:
            for _, f in c.requires(pre):
                st.assume(f.t if isinstance(f, Sym) else f)
        for u in c.uses:
            st.ctx.add(u.formula())
        if c.assume:
            for f in c.assume(pre):
                st.assume(f)
        st.feasible_or_end()
        ip.fnstate = pre
        pre.alloc = st.A0
        st.trace.clear()
        result, exc = None, None
        pos, kws = [], {}
        for n, p in sig.parameters.items():
            if p.kind == p.KEYWORD_ONLY:
                kws[n] = args[n]
            elif p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
                pass
            else:
                pos.append(args[n])
        selfcls = None
        try:
            own = None
            if pos and "self" in sig.parameters and isinstance(pos[0], Sym) and isinstance(pos[0].c, type):
                own = None
            result = ip.call_function(c.fn, pos, kws, owner=own, body=True)
        except PyExc as e:
            exc = e.val
        mods = list(c.modifies(pre)) if c.modifies else []
        pre.result = None
        post = Spec(ip, args, st.heap, old=pre, result=result, exc=exc)
        if exc is not None:
            ok = [k for k in c.raises if issubclass(exc.cls, k)]
            if not ok:
                st.oblige(f"{c.name}: does not raise {exc.cls.__name__}", False)
                return
            k = sorted(ok, key=lambda k: -len(k.__mro__))[0]
            f = c.raises[k](post)
            fs = [("", f)] if not hasattr(f, "__iter__") or isinstance(f, z3.ExprRef) else list(f)
            for n, g in fs:
                st.oblige(f"{c.name}: raises {k.__name__} only as specified{': ' + n if n else ''}", g.t if isinstance(g, Sym) else g)
        else:
            if c.result is not None or "return" in h:
                want = c.result_ty()
                result = post.result = self.coerce_result(ip, result, want)
            if c.fresh:
                st.oblige(f"{c.name}: the result is an object of its own", c.is_new(result, st.A0))
            if c.reaches:
                p, fields, pick = c.reaches
                st.oblige(f"{c.name}: the result is reached from {p}", c.reached(to_v(args[p]), to_v(pick(result) if pick else result), st.A0))
            if c.ensures:
                for n, f in c.ensures(post):
                    st.oblige(f"{c.name}: {n}", f.t if isinstance(f, Sym) else f)
        self.frame(st, ip, pre, mods)
        st.oblige(f"{c.name}: exit reached", True)
    def coerce_result(self, ip, r, want):
        if isinstance(r, GenVal) or isinstance(r, It):
            raise Unsupported("generator result")
        if isinstance(r, Sym) and r.k == "any" and len(want) == 1 and want[0][0] not in ("opq",):
            # the result must be of the declared type
            a = want[0]
            ip.st.oblige(f"{self.c.name}: result has the declared type", atom_cond(r.t, a, r.c))
            return ip.as_atom(r.t, a)
        return r
    def frame(self, st, ip, pre, mods):
        c = self.c
        if c.modifies is not None and any(m[0] == "*" for m in mods):
            return
        for f, arr in list(st.heap.items()):
            a0 = st.arr0(f)
            if arr.eq(a0):
                continue
            if f in st.frozen_fields:
                continue
            preds = []
            skip = False
            r = st.fresh("fr", I)
            for mf, mr in mods:
                if mf == f:
                    if mr is None:
                        skip = True
                    elif callable(mr):
                        preds.append(z3.Not(mr(r)))
                    else:
                        preds.append(r != ip.refterm(mr))
            if skip:
                continue
            # syntactic shortcut: all stores hit fresh objects
            b = arr
            fresh_only = True
            while z3.is_store(b):
                base, off = st._split(b.arg(1))
                if not (base.eq(st.A0)):
                    fresh_only = False
                    break
                b = b.arg(0)
            if fresh_only and b.eq(a0):
                continue
            st.oblige(f"{c.name}: changes nothing else ({f.strip('#')})",
                      z3.Implies(z3.And(0 <= r, r < st.A0, *preds), z3.Select(arr, r) == z3.Select(a0, r)))
        own = {g for g, _ in c.ghosts}
        for g, t in st.ghost.items():
            if g not in own:
                continue
            t0 = z3.Const("g0_" + g, t.sort())
            if not t.eq(t0) and not any(mf == "ghost:" + g for mf, _ in mods):
                st.oblige(f"{c.name}: has no external effect ({g})", t == t0)

class NestedContract(Contract):
    """
    Contract on a function defined inside another one: 'pkg.mod:Qual.name.<nested>'. Its free variables are `free`:
    {name: type | Fixed}; the specification sees them like arguments.
    """
    def __init__(self, path, nested, free=None, **kw):
        self.nested, self.free = nested, free or {}
        super().__init__(path, **kw)
        self.name = self.name + "." + nested
        self.path = path + ".<locals>." + nested
    def load(self, path):
        outer = load(path)
        found = []
        def walk(code):
            for k in code.co_consts:
                if isinstance(k, types.CodeType):
                    if k.co_name == self.nested:
                        found.append(k)
                    walk(k)
        walk(outer.__code__)
        if len(found) != 1:
            raise AttributeError(f"{len(found)} nested functions {self.nested}")
        code = found[0]
        self.cells = {n: types.CellType(None) for n in code.co_freevars}
        f = types.FunctionType(code, outer.__globals__, self.nested, None, tuple(self.cells[n] for n in code.co_freevars))
        f.__qualname__ = outer.__qualname__ + ".<locals>." + self.nested
        f.__module__ = outer.__module__
        node = func_ast(f)
        ann = {}
        for a in node.args.args + node.args.kwonlyargs:
            if a.annotation is not None:
                ann[a.arg] = ast.unparse(a.annotation)
        if node.returns is not None:
            ann["return"] = ast.unparse(node.returns)
        f.__annotations__ = ann
        dflt = [eval(ast.unparse(d), dict(outer.__globals__)) for d in node.args.defaults]
        f.__defaults__ = tuple(dflt) or None
        if self.nested in self.cells:
            self.cells[self.nested].cell_contents = f
        self.outer = outer
        return f
    def register(self):
        super().register()
        CLOSURE_CONTRACTS[(qual(self.outer), self.nested)] = _ClosureAdapter(self)
    def bind_free(self, ip):
        out = {}
        for n, tp in self.free.items():
            v = (tp.value(ip) if callable(tp.value) else tp.value) if isinstance(tp, Fixed) else ip.fresh(n, tp)
            out[n] = v
            if n in self.cells:
                self.cells[n].cell_contents = v
        return out

class _ClosureAdapter:
    def __init__(self, c):
        self.c = c
    def active(self, ip, clo):
        return True
    def apply(self, ip, clo, env):
        extra = {}
        for n in self.c.free:
            extra[n] = clo.env.find(n).d[n]
        c = self.c
        sig = inspect.signature(c.fn)
        return c.apply(ip, [env[p] for p in sig.parameters], {}, extra)

class Fixed:
    """a parameter with a fixed value (or a function of the interpreter building it)"""
    def __init__(self, value):
        self.value = value

DEBUG = False

def _refterm(self, r):
    return r.t if isinstance(r, Sym) else r
Interp.refterm = _refterm

def source_hash(fn):
    try:
        return hashlib.sha256(inspect.getsource(fn).encode()).hexdigest()[:12]
    except Exception:
        return "?"


# ------------------------------------------------------------------ lemmas
LEMMA_LIST: list = []
class Lemma:
    """
    A fact about specification functions, proved by induction on the integer variable `n` (base n <= 0, step n-1 -> n),
    or directly when n is None. `body(n, *vars)` is the claim; `pats` the triggers used when it is assumed elsewhere.
    """
    def __init__(self, name, vars, body, pats, n=True, uses=(), extra_hyp=None, split=None, strong=False):
        self.strong = strong    # the hypothesis covers every 0 <= m < n
        self.name, self.vars, self.body, self.pats, self.n, self.uses = name, vars, body, pats, n, list(uses)
        self.split = split
        self.N = z3.Int("lem_n")
        self.obls: list = []
        self.status = "?"
        LEMMA_LIST.append(self)
    def claim(self, n):
        return self.body(n, *self.vars) if self.n else self.body(*self.vars)
    def formula(self):
        vs = ([self.N] if self.n else []) + list(self.vars)
        ps = self.pats(self.N, *self.vars) if self.n else self.pats(*self.vars)
        return z3.ForAll(vs, self.claim(self.N), patterns=ps)
    def prove(self):
        t0 = time.time()
        def goal(label, hyps, g):
            ctx = Ctx()
            for u in self.uses:
                ctx.add(u.formula())
            for h in hyps:
                ctx.add(h)
            ok, be, det = ctx.prove(g)
            self.obls.append(Obl(f"lemma {self.name}: {label}", ok, be, det, ""))
        consts = [z3.Const("c_" + str(v), v.sort()) for v in self.vars]
        if not self.n:
            goal("claim", [], self.body(*consts))
        elif self.strong:
            n, m = z3.Ints("c_n c_m")
            ih = z3.ForAll([m] + list(self.vars), z3.Implies(z3.And(0 <= m, m < n), self.body(m, *self.vars)), patterns=self.pats(m, *self.vars))
            goal("step (all smaller)", [ih], self.body(n, *consts))
        else:
            n = z3.Int("c_n")
            goal("base", [n <= 0], self.body(n, *consts))
            ih = z3.ForAll(list(self.vars), self.body(n - 1, *self.vars), patterns=[p for p in self.pats(n - 1, *self.vars)]) if self.vars else self.body(n - 1)
            inst = [self.body(n - 1, *consts)]
            goal("step", [n > 0, ih] + inst, self.body(n, *consts))
        self.status = "proved" if all(o.ok for o in self.obls) else "failed"
        self.wall = time.time() - t0
        return self
