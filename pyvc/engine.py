"""
Path exploration and symbolic state: decisions, heap, allocation, obligations.
"""
from __future__ import annotations
import os, time
import z3
from .logic import *
from . import logic as L
from .vals import *


class PathEnd(Exception):
    """the current path is finished (cut loop iteration closed, or infeasible)"""

class PyExc(Exception):
    """an interpreted exception"""
    def __init__(self, val):
        self.val = val

class ExcVal:
    def __init__(self, cls, args=(), cause=None):
        self.cls, self.args, self.cause = cls, list(args), cause
    def __repr__(self):
        return f"{self.cls.__name__}({', '.join(map(repr, self.args))})"

class Restart(Exception):
    pass

class Obl:
    __slots__ = ("name", "ok", "backend", "detail", "path")
    def __init__(self, name, ok, backend, detail, path):
        self.name, self.ok, self.backend, self.detail, self.path = name, ok, backend, detail, path


class LoopInfo:
    def __init__(self):
        self.dropped: set = set()
        self.writes: dict = {}       # field -> None (whole field) | {term-string: term}
        self.types: dict = {}        # local -> widened Ty
        self.framedrop: dict = {}    # field -> frame level (0: objects allocated before the loop, 1: before the function, 2: none)
        self.proved: set = set()
        self.ghosts: set = set()     # ghost variables changed by the body


class Explorer:
    """Explores every path of one verified function."""
    def __init__(self, name, run, max_paths=4000, budget_s=240):
        self.name, self.run = name, run
        self.loops: dict = {}
        self.obls: list[Obl] = []
        self.max_paths, self.budget_s = max_paths, budget_s
        self.t0 = time.time()
        self.paths = 0
        self.restarts = 0
        self.reached: set = set()
    def explore(self):
        while True:
            self.obls = []
            self.paths = 0
            self.reached = set()
            self.need_restart = False
            self.structural = False     # what loops write, or the types of what they fill, turned out to be more than this pass assumed
            self.dropped_now = []
            work = [[]]
            while work:
                if time.time() - self.t0 > self.budget_s:
                    raise Unsupported(f"exploration budget of {self.budget_s}s exceeded")
                if self.paths > self.max_paths:
                    raise Unsupported("too many paths")
                pre = work.pop()
                st = State(self, pre, work)
                self.paths += 1
                try:
                    self.run(st)
                except PathEnd:
                    pass
                except Unsupported:
                    if not self.structural:
                        raise
                    break
            if self.structural:
                # candidates may have been dropped for want of what was learned in this pass
                for info, name in self.dropped_now:
                    info.dropped.discard(name)
                self.need_restart = True
            if not self.need_restart:
                return
            self.restarts += 1
            if self.restarts > 60:
                raise Unsupported("loop invariant inference did not settle")


CAND_TIMEOUT = int(os.environ.get("PYVC_CAND_MS", "2500"))

class State:
    def __init__(self, ex: Explorer, prefix, work):
        self.ex, self.prefix, self.work = ex, prefix, work
        self.pos = 0
        self.dec: list = []
        self.ctx = Ctx()
        self.n = 0                      # fresh-name counter
        self.made: set = set()          # names of the constants this path has introduced
        self.heap: dict = {}
        self.A0 = z3.Int("A0")
        self.base, self.off = self.A0, 0
        self.ctx.alloc0 = self.A0
        self.ctx.add(self.A0 >= 0)
        self.ghost: dict = {}
        self.ghost_ty: dict = {}
        self.writes_log: list = []      # stack of (LoopInfo, serial)
        self.trace: list = []
        self.distinct_cache: dict = {}
        self.nobj = 0
        self.frozen_fields: set = set()

    # -- naming
    def fresh(self, hint, sort):
        self.n += 1
        self.made.add(f"{hint}!{self.n}")
        return z3.Const(f"{hint}!{self.n}", sort)

    # -- decisions
    def replaying(self):
        return self.pos < len(self.prefix)
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self._objs()
        self.ctx.add(c)
    def _objs(self):
        fs = obj_facts()
        for f in fs[self.nobj:]:
            self.ctx.add(f)
        self.nobj = len(fs)
    def branch(self, cond, why=""):
        if isinstance(cond, Sym):
            cond = cond.t
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self._objs()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self.ctx.feasible(cond)
            f = self.ctx.feasible(z3.Not(cond)) if t else True
            if t and f:
                self.work.append(self.dec + [False])
                d = True
            elif t:
                d = True
            else:
                d = False
        self.pos += 1
        self.dec.append(d)
        self.ctx.add(cond if d else z3.Not(cond))
        if why:
            self.trace.append(f"{why}={d}")
        return d
    def choose(self, n, why=""):
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.work.append(self.dec + [k])
            d = 0
        self.pos += 1
        self.dec.append(d)
        if why:
            self.trace.append(f"{why}={d}")
        return d
    def feasible_or_end(self):
        if not self.replaying() and not self.ctx.feasible():
            raise PathEnd()

    # -- obligations
    def oblige(self, name, goal):
        if isinstance(goal, Sym):
            goal = goal.t
        self.ex.reached.add(name)
        if not self.replaying():
            self._objs()
            ok, be, det = self.ctx.prove(goal)
            self.ex.obls.append(Obl(name, ok, be, det, "; ".join(self.trace[-12:])))
        if isinstance(goal, bool):
            if not goal:
                raise PathEnd()
        else:
            self.ctx.add(goal)
    def holds(self, goal, timeout=CAND_TIMEOUT, eager=False):
        """quick validity test used for inference only (never counted as an obligation)"""
        if isinstance(goal, bool):
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g) and False:
            return False
        self._objs()
        goal = skolemize(goal)
        if self.ctx.quick(goal):
            return True
        t0 = time.time()
        if self.ctx.check(z3.Not(goal), timeout=timeout) == z3.unsat:
            return True
        if not eager:
            return False
        return self.ctx.refute_eager(goal, 100) or time.time() - t0 > 0.8 * timeout / 1000 and self.ctx.refute_fresh(goal, 4000)

    # -- heap
    SORTS = {"#list": Sq, "#dict": Dc, "#set": SetV}
    def arr0(self, f):
        return z3.Const(f"H0!{f}", z3.ArraySort(I, self.SORTS.get(f, V)))
    def arr(self, f):
        a = self.heap.get(f)
        if a is None:
            a = self.arr0(f)
            self.heap[f] = a
        if a.decl().name().startswith("H0!") and ("h0", f) not in self.distinct_cache:
            self.distinct_cache[("h0", f)] = True
            self.heap_facts(f, self.arr0(f), self.A0)
        return a
    def heap_facts(self, f, a, alloc):
        """well-formedness of the heap array: old objects only refer to old objects"""
        o, i = z3.Ints("o i")
        k = z3.Const("k", V)
        S = z3.Select
        def inr(x):
            return z3.Implies(V.is_ref(x), z3.And(0 <= V.vr(x), V.vr(x) < alloc))
        rng = z3.And(0 <= o, o < alloc)
        if self.SORTS.get(f) == Sq:
            self.ctx.add(z3.ForAll([o, i], z3.Implies(z3.And(rng, 0 <= i, i < slen(S(a, o))), inr(at(S(a, o), i))), patterns=[at(S(a, o), i)]))
        elif f == "#dict":
            self.ctx.add(z3.ForAll([o, k], z3.Implies(z3.And(rng, dhas(S(a, o), k)), inr(dget(S(a, o), k))), patterns=[dget(S(a, o), k)]))
        elif f == "#set":
            pass
        else:
            self.ctx.add(z3.ForAll([o], z3.Implies(rng, inr(S(a, o))), patterns=[S(a, o)]))
    def alloc_now(self):
        return self.base + self.off if self.off else self.base
    def new_ref(self):
        r = self.base + self.off if self.off else self.base
        if self.off == 0:
            r = self.base + 0
            r = self.base
        self.off += 1
        return r
    @staticmethod
    def _split(r):
        if z3.is_add(r) and r.num_args() == 2 and z3.is_int_value(r.arg(1)):
            return r.arg(0), r.arg(1).as_long()
        return r, 0
    def distinct(self, r1, r2):
        """are two refs provably different? (syntactic, then a quick solver query; cached)"""
        b1, o1 = self._split(r1)
        b2, o2 = self._split(r2)
        if b1.eq(b2):
            return o1 != o2
        key = (r1.get_id(), r2.get_id())
        if key not in self.distinct_cache:
            self.distinct_cache[key] = self.holds(r1 != r2, timeout=400)
            self.ctx._keep.append((r1, r2))
        return self.distinct_cache[key]
    def sel(self, f, r, arr=None):
        a = self.arr(f) if arr is None else arr
        b = a
        while z3.is_store(b):
            if b.arg(1).eq(r):
                return b.arg(2)
            if self.distinct(b.arg(1), r):
                b = b.arg(0)
                continue
            break
        return z3.Select(b, r) if b is not None else z3.Select(a, r)
    def put(self, f, r, v):
        a = self.arr(f)
        if z3.is_store(a) and a.arg(1).eq(r):
            a = a.arg(0)
        self.heap[f] = z3.Store(a, r, v)
        self.note_write(f, r)
    def note_write(self, f, r):
        for w in self.writes_log:
            w.append((f, r))
    def note_whole(self, f):
        for w in self.writes_log:
            w.append((f, None))
    def havoc_field(self, f, refs, old_alloc=None, frame=None):
        """
        Replace field f at the given refs (None: everywhere, subject to `frame(o)`: objects o that keep their value).
        """
        old = self.arr(f)
        if refs is not None:
            for r in refs:
                x = self.fresh("hv_" + f.strip("#"), self.SORTS.get(f, V))
                self.put(f, r, x)
            return
        new = self.fresh("H_" + f.strip("#"), old.sort())
        self.heap[f] = new
        if frame is not None:
            o = z3.Int("o")
            self.ctx.add(z3.ForAll([o], z3.Implies(frame(o), z3.Select(new, o) == z3.Select(old, o)), patterns=[z3.Select(new, o)]))
        self.note_whole(f)
        return new
    def bump_alloc(self):
        nb = self.fresh("A", I)
        self.ctx.add(nb >= self.alloc_now())
        self.base, self.off = nb, 0
    def known_ref(self, r):
        """a ref obtained from the state is allocated"""
        self.ctx.add(z3.And(0 <= r, r < self.alloc_now()))
