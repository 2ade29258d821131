"""
Direct-style symbolic interpreter for the Python subset used by the verified functions. The function bodies are read
from the working tree of /repo on every run (inspect.getsource of the imported functions).
"""
from __future__ import annotations
import ast, builtins, enum, functools, inspect, textwrap, types, typing
import z3
from .engine import *
from .vals import *
from .logic import *
from . import logic as L


class Env:
    __slots__ = ("d", "parent", "nonlocals", "assigned")
    def __init__(self, parent=None, assigned=()):
        self.d, self.parent, self.nonlocals, self.assigned = {}, parent, set(), set(assigned)
    def find(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e
            e = e.parent
        return None
    def set(self, n, v):
        if n in self.nonlocals:
            e = self.parent.find(n)
            e.d[n] = v
        else:
            self.d[n] = v

class Closure:
    def __init__(self, node, env, frame, defaults=None):
        self.node, self.env, self.frame, self.defaults = node, env, frame, defaults or {}
        self.__name__ = getattr(node, "name", "<lambda>")

class BoundMethod:
    def __init__(self, fn, self_val, owner=None):
        self.fn, self.self_val, self.owner = fn, self_val, owner

class Builtin:
    """method of a builtin value: name + receiver"""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name

class SuperProxy:
    def __init__(self, cls, self_val):
        self.cls, self.self_val = cls, self_val

class Frame:
    def __init__(self, fname, glob, env, cls, chain):
        self.fname, self.glob, self.env, self.cls, self.chain = fname, glob, env, cls, chain
        self.cur_exc = None

class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v
class BreakEx(Exception):
    pass
class ContinueEx(Exception):
    pass

_SRC: dict = {}
def func_ast(fn):
    """(FunctionDef node, filename) of a function, re-read from disk"""
    fn = inspect.unwrap(fn)
    if fn not in _SRC:
        try:
            lines, start = inspect.getsourcelines(fn)
        except (OSError, TypeError) as e:
            raise Unsupported(f"no source for {fn}: {e}")
        tree = ast.parse(textwrap.dedent("".join(lines)))
        node = tree.body[0]
        if not isinstance(node, (ast.FunctionDef,)):
            raise Unsupported(f"not a plain function: {fn}")
        for n in ast.walk(node):
            if hasattr(n, "lineno"):
                n.lineno += start - 1
        _SRC[fn] = node
    return _SRC[fn]

def assigned_names(nodes):
    """names (re)bound in statements, including nonlocal writes from nested functions"""
    out: set = set()
    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
        def visit_FunctionDef(self, n):
            out.add(n.name)
        def visit_Lambda(self, n):
            pass
        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    for n in nodes:
        W().visit(n)
    return out

def qual(fn):
    return f"{getattr(fn, '__module__', '?')}.{getattr(fn, '__qualname__', getattr(fn, '__name__', '?'))}"

CONTRACTS: dict = {}      # function object -> Contract
FIELDS: dict = {}         # (class, attr) -> Ty   (overrides)
EXTERNALS: dict = {}      # function / class object or dotted name -> model(interp, args, kwargs)
OPQ_METHODS: dict = {}    # (label, attr) -> model(interp, recv, args, kwargs) ; attr read when kwargs is None
MODULE_EXT: dict = {}     # prefix of module name -> model factory(name) for unknown library functions
_FT_CACHE: dict = {}

def field_ty(c, name):
    """declared type of attribute `name` of class c (registered, class annotation, or annotation in __init__)"""
    for k in c.__mro__:
        if (k, name) in FIELDS:
            return ty(FIELDS[(k, name)])
    key = (c, name)
    if key in _FT_CACHE:
        return _FT_CACHE[key]
    r = None
    for k in c.__mro__:
        if k is object:
            continue
        ann = k.__dict__.get("__annotations__", {})
        if name in ann:
            h = typing.get_type_hints(k)
            r = ty(h[name])
            break
        init = k.__dict__.get("__init__")
        if isinstance(init, types.FunctionType):
            node = func_ast(init)
            for s in ast.walk(node):
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and s.target.attr == name and isinstance(s.target.value, ast.Name) and s.target.value.id == "self":
                    a = s.annotation
                    if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id == "Final":
                        a = a.slice
                    tp = eval(ast.unparse(a), dict(init.__globals__))
                    r = ty(tp)
            if r is None:
                for s in ast.walk(node):   # self.x = param  with an annotated parameter; self.x = <bool/str/int literal>
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == name:
                        v = s.value
                        if isinstance(v, ast.Name):
                            h = typing.get_type_hints(init)
                            if v.id in h:
                                r = ty(h[v.id])
                        elif isinstance(v, ast.Constant):
                            r = ty(type(v.value))
            if r is not None:
                break
    if r is None:
        for k in c.__mro__:       # annotated in another method
            for m in list(k.__dict__.values()):
                m = inspect.unwrap(m) if isinstance(m, types.FunctionType) else m
                if not isinstance(m, types.FunctionType) or r is not None:
                    continue
                try:
                    node = func_ast(m)
                except Exception:
                    continue
                for s in ast.walk(node):
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and s.target.attr == name and isinstance(s.target.value, ast.Name) and s.target.value.id == "self":
                        a = s.annotation
                        if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id == "Final":
                            a = a.slice
                        r = ty(eval(ast.unparse(a), dict(m.__globals__)))
    if r is None:
        raise Unsupported(f"unknown type of attribute {c.__name__}.{name}")
    _FT_CACHE[key] = r
    return r

def hints(fn):
    try:
        return typing.get_type_hints(inspect.unwrap(fn))
    except Exception:
        pass
    f = inspect.unwrap(fn)      # some annotation can not be evaluated: use the others
    r = {}
    for n, a in getattr(f, "__annotations__", {}).items():
        try:
            r[n] = eval(a, f.__globals__) if isinstance(a, str) else a
        except Exception:
            r[n] = object
    return r


CONST_CLASSES = {"SentinelType"}
LIST_REGIONS: dict = {}   # element class -> heap region of lists of such elements
def list_region(c):
    e = c[1]
    if e == "JSON" or not e:
        return "#list"
    for a in e:
        if a[0] == "ref" and not isinstance(a[1], tuple) and a[1] in LIST_REGIONS:
            return LIST_REGIONS[a[1]]
    return "#list"
def add_list_region(c, name):
    LIST_REGIONS[c] = name
    State.SORTS[name] = Sq

class Interp:
    def __init__(self, st: State):
        self.st = st
        self.depth = 0
        self.inlined: set = set()
        self.used_contracts: set = set()
        self.used_models: set = set()
        self.top_fn = None
        self.loop_templates = []
        self.fnstate = None
        self.call_stack: list = []
        self.steps = 0
        self.trust_casts = True
        self.active_idx: list = []      # iteration indices of the cut loops being executed, outermost first

    # ------------------------------------------------------------ value helpers
    def from_v(self, t, tp, known=True):
        tp = ty(tp)
        if z3.is_app(t) and t.sort() == V and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            n = t.decl().name()
            if n == "none":
                return None
            if n == "bool":
                return mk_bool(t.arg(0))
            if n == "int":
                return mk_int(t.arg(0))
            if n == "str":
                return sstr(t.arg(0))
            if n == "enum" and z3.is_int_value(t.arg(0)):
                c = L_ENUM(t.arg(0).as_long())
                k = t.arg(1)
                return members(c)[k.as_long()] if z3.is_int_value(k) else Sym("enum", k, c)
            if n == "opq":
                try:
                    return obj_of_term(t.arg(0))
                except KeyError:
                    pass
        if len(tp) == 0:
            raise Unsupported("element of a container whose element type is not known")
        if len(tp) != 1:
            return Sym("any", t, tp)
        return self.as_atom(t, tp[0], assume=True)
    def as_atom(self, t, atom, assume=False, ctx_atoms=()):
        k = atom[0]
        if k == "opq" and atom[1] == "any":
            return Sym("any", t, (atom,))
        if k == "const":
            if assume:
                self.st.assume(t == to_v(atom[1]))
            return atom[1]
        if assume:
            self.st.assume(atom_cond(t, atom, ctx_atoms))
        if k == "none":
            return None
        if k == "bool":
            return mk_bool(proj(t, "bool"))
        if k == "int":
            return mk_int(proj(t, "int"))
        if k == "flt":
            return Sym("flt", proj(t, "flt"))
        if k == "str":
            return sstr(proj(t, "str"))
        if k == "enum":
            return Sym("enum", V.ek(t), atom[1])
        if k == "ref":
            r = proj(t, "ref")
            self.st.known_ref(r)
            return Sym("ref", r, atom[1])
        if k == "vtup":
            tt = V.vt(t)
            return Sym("vtup", self.tupseq(t), atom[1])
        if k == "tup":
            s = self.tupseq(t)
            el = concrete_elems(s)
            vs = []
            for i, e in enumerate(atom[1]):
                vs.append(self.from_v(el[i] if el is not None else at(s, i), e))
            return NT(atom[2], vs) if atom[2] is not None else tuple(vs)
        if k == "opq":
            return Sym("opq", V.vo(t), atom[1])
        raise Unsupported(f"atom {atom}")
    def tupseq(self, t):
        if z3.is_app(t) and t.decl().name() == "tup" and t.num_args() == 1:
            x = t.arg(0)
            if z3.is_app(x) and x.decl().eq(mktup):
                return x.arg(0)
            return tseq(x)
        return tseq(V.vt(t))
    def fresh(self, hint, tp):
        """a fresh symbolic value of the given type"""
        tp = ty(tp)
        st = self.st
        if len(tp) == 1:
            a = tp[0]
            k = a[0]
            if k == "none":
                return None
            if k == "const":
                return a[1]
            if k == "bool":
                return Sym("bool", st.fresh(hint, B))
            if k == "int":
                return Sym("int", st.fresh(hint, I))
            if k == "str":
                return Sym("str", st.fresh(hint, Str))
            if k == "flt":
                return Sym("flt", st.fresh(hint, Flt))
            if k == "enum":
                t = st.fresh(hint, I)
                st.assume(z3.And(0 <= t, t < len(members(a[1]))))
                return Sym("enum", t, a[1])
            if k == "ref":
                t = st.fresh(hint, I)
                st.known_ref(t)
                return Sym("ref", t, a[1])
            if k == "vtup":
                return Sym("vtup", st.fresh(hint, Sq), a[1])
            if k == "tup":
                vs = [self.fresh(f"{hint}_{i}", e) for i, e in enumerate(a[1])]
                return NT(a[2], vs) if a[2] is not None else tuple(vs)
            if k == "opq":
                if a[1] == "any":
                    return Sym("any", st.fresh(hint, V), tp)
                return Sym("opq", st.fresh(hint, Opq), a[1])
        t = st.fresh(hint, V)
        conds = [atom_cond(t, a, tp) for a in tp]
        st.assume(z3.Or(*conds))
        st.assume(z3.Implies(V.is_ref(t), z3.And(0 <= V.vr(t), V.vr(t) < st.alloc_now())))
        return Sym("any", t, tp)
    def resolve(self, x):
        """turn an `any` value into one of definite kind (branching)"""
        while isinstance(x, Sym) and x.k == "any":
            atoms = x.c
            if any(a[0] == "opq" and a[1] == "any" for a in atoms):
                raise Unsupported("operation on a value of unknown type")
            r = None
            for i, a in enumerate(atoms):
                last = i == len(atoms) - 1
                c = atom_cond(x.t, a, atoms)
                if last:
                    self.st.assume(c)
                    self.st.feasible_or_end()
                    r = self.as_atom(x.t, a)
                elif self.st.branch(c):
                    r = self.as_atom(x.t, a)
                    break
            x = r
        return x
    def py_ty(self, x):
        """type descriptor of a value"""
        if x is None:
            return (NONE,)
        if isinstance(x, Sym):
            if x.k == "any":
                return x.c
            return {"bool": (BOOL,), "int": (INT,), "str": (STR,), "flt": (FLT,)}.get(x.k) or ((x.k, x.c),)
        if isinstance(x, bool):
            return (BOOL,)
        if isinstance(x, enum.Enum):
            return (("enum", type(x)),)
        if isinstance(x, int):
            return (INT,)
        if isinstance(x, str):
            return (STR,)
        if isinstance(x, float):
            return (FLT,)
        if isinstance(x, NT):
            return (("tup", tuple(self.py_ty(v) for v in x.vals), x.cls),)
        if isinstance(x, tuple):
            return (("tup", tuple(self.py_ty(v) for v in x), None),)
        if type(x).__name__ in CONST_CLASSES:
            return (("const", x),)
        return (("opq", "any"),)

    # -- lists / dicts / sets on the heap
    def new_list(self, seq, elem):
        r = self.st.new_ref()
        f = list_region(("list", ty(elem)))
        self.st.heap[f] = z3.Store(self.st.arr(f), r, seq)
        self.st.ctx.add(cls(r) == cls_id("list"))
        return Sym("ref", r, ("list", ty(elem)))
    def retag(self, x, c):
        """the element type of a list becomes known: its (so far untyped) contents move to the region of that type"""
        if x.c[0] == "list":
            a, b = list_region(x.c), list_region(c)
            if a != b:
                content = self.st.sel(a, x.t)
                self.st.heap[b] = z3.Store(self.st.arr(b), x.t, content)
                self.st.note_write(b, x.t)
        x.c = c
    def new_dict(self, d, k, v):
        r = self.st.new_ref()
        self.st.heap["#dict"] = z3.Store(self.st.arr("#dict"), r, d)
        self.st.ctx.add(cls(r) == cls_id("dict"))
        return Sym("ref", r, ("dict", ty(k), ty(v)))
    def new_set(self, s, e):
        r = self.st.new_ref()
        self.st.heap["#set"] = z3.Store(self.st.arr("#set"), r, s)
        return Sym("ref", r, ("set", ty(e)))
    def new_obj(self, c):
        r = self.st.new_ref()
        self.st.assume(cls(r) == cls_id(c))
        return Sym("ref", r, c)
    def lst(self, x):
        return self.st.sel(list_region(x.c), x.t)
    def dct(self, x):
        return self.st.sel("#dict", x.t)
    def sset(self, x):
        return self.st.sel("#set", x.t)
    def put_list(self, x, s):
        self.st.put(list_region(x.c), x.t, s)
    def put_dict(self, x, d):
        self.st.put("#dict", x.t, d)
    def put_set(self, x, s):
        self.st.put("#set", x.t, s)
    def kind(self, x):
        """'list','dict','set','obj', 'tuple','str','int','bool','none','enum','opq','py', ..."""
        if isinstance(x, Sym):
            if x.k == "ref":
                return x.c[0] if isinstance(x.c, tuple) else "obj"
            return {"vtup": "tuple"}.get(x.k, x.k)
        if x is None:
            return "none"
        if isinstance(x, bool):
            return "bool"
        if isinstance(x, enum.Enum):
            return "enum"
        if isinstance(x, str):
            return "str"
        if isinstance(x, int):
            return "int"
        if isinstance(x, (tuple, NT)) :
            return "tuple"
        return "py"
    def elem_ty(self, x):
        if isinstance(x, Sym):
            if x.k == "ref" and isinstance(x.c, tuple):
                return ty(x.c[-1]) if x.c[0] != "dict" else ty(x.c[1])
            if x.k == "vtup":
                return ty(x.c)
        return (("opq", "any"),)
    def widen_elem(self, x, v):
        """element type of an (inferred) container grows with what is put into it"""
        if isinstance(x, Sym) and x.k == "ref" and isinstance(x.c, tuple) and len(x.c) == 2 and x.c[1] == ():
            self.retag(x, (x.c[0], self.py_ty(v)))
    def seq_term(self, x):
        """Sq term of a list/tuple value"""
        k = self.kind(x)
        if k == "list":
            return self.lst(x)
        if k == "tuple":
            if isinstance(x, Sym):
                return x.t
            return seq_of(x.vals if isinstance(x, NT) else x)
        if isinstance(x, (list, )):
            return seq_of(x)
        if k == "set":
            return set_order(self.sset(x))
        if k == "dict":
            return dkeys(self.dct(x))
        raise Unsupported(f"sequence of {x!r}")

    # ------------------------------------------------------------ truth, equality
    def truth(self, x):
        """formula (bool or z3 Bool)"""
        if isinstance(x, Sym):
            k, t = x.k, x.t
            if k == "bool":
                return t
            if k == "int":
                return t != 0
            if k == "str":
                return strlen(t) > 0
            if k == "ref":
                if isinstance(x.c, tuple):
                    if x.c[0] == "list":
                        s = self.lst(x)
                        e = concrete_elems(s)
                        return len(e) > 0 if e is not None else slen(s) > 0
                    if x.c[0] == "dict":
                        return slen(dkeys(self.dct(x))) > 0
                    s = self.sset(x)
                    return s != z3.K(V, False)
                for m in ("__bool__", "__len__"):
                    f = inspect.getattr_static(x.c, m, None)
                    if f is not None:
                        r = self.call_function(f, [x], {})
                        return self.truth(r)
                return True
            if k == "vtup":
                return slen(t) > 0
            if k == "enum":
                if is_strenum(x.c):
                    es = [i for i, m in enumerate(members(x.c)) if not m.value]
                    return z3.And(*[t != i for i in es]) if es else True
                if issubclass(x.c, int):
                    return z3.And(*[t != i for i, m in enumerate(members(x.c)) if not m.value])
                return True
            if k == "opq":
                f = OPQ_METHODS.get((x.c, "__bool__"))
                if f:
                    return self.truth(f(self, x, [], {}))
                return True
            if k == "any":
                out = []
                for a in x.c:
                    if a[0] == "opq" and a[1] == "any":
                        raise Unsupported("truth of unknown")
                    c = atom_cond(x.t, a, x.c)
                    if a[0] == "none":
                        continue
                    out.append(z3.And(c, self._z(self.truth(self._atom_noassume(x.t, a)))))
                return z3.Or(*out) if out else False
            if k == "flt":
                return t != flt_term(0.0)
            raise Unsupported(f"truth of {x}")
        if isinstance(x, (NT, tuple)):
            return len(x.vals if isinstance(x, NT) else x) > 0
        if isinstance(x, (Closure, BoundMethod, Builtin)):
            return True
        return bool(x)
    def _atom_noassume(self, t, a):
        k = a[0]
        if k == "ref":
            return Sym("ref", V.vr(t), a[1])
        if k == "tup":
            return tuple(None for _ in a[1]) or ()
        return self.as_atom(t, a)
    @staticmethod
    def _z(c):
        return z3.BoolVal(c) if isinstance(c, bool) else c
    def istrue(self, x, why=""):
        return self.st.branch(self.truth(x), why)
    def enum_str(self, x):
        """string value of a StrEnum value"""
        if isinstance(x, enum.Enum):
            return x.value
        ms = members(x.c)
        t = lit(ms[-1].value)
        for i in range(len(ms) - 2, -1, -1):
            t = z3.If(x.t == i, lit(ms[i].value), t)
        return Sym("str", t)
    def eq(self, a, b):
        """Python ==, as a formula"""
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        ta, tb = isinstance(a, (tuple, NT)), isinstance(b, (tuple, NT))
        if not sa and not sb:
            if ta and tb:
                va, vb = (x.vals if isinstance(x, NT) else x for x in (a, b))
                if len(va) != len(vb):
                    return False
                cs = [self.eq(x, y) for x, y in zip(va, vb)]
                if any(c is False for c in cs):
                    return False
                cs = [c for c in cs if c is not True]
                return z3.And(*cs) if cs else True
            if ta or tb:
                return False
            return bool(a == b)
        if not sa:
            a, b, sa, sb = b, a, sb, sa
        # a is symbolic
        if a.k == "any":
            if sb and b.k == "any":
                return self.v_eq(a.t, b.t, a.c, b.c)
            if any(x[0] == "opq" and x[1] == "any" for x in a.c):
                return self.v_eq(a.t, to_v(b), a.c, self.py_ty(b))
            out = []
            for at_ in a.c:
                if not self._may_eq(at_, b):
                    continue
                c = atom_cond(a.t, at_, a.c)
                e = self.eq(self._atom_noassume2(a.t, at_), b)
                if e is False:
                    continue
                out.append(z3.And(c, self._z(e)))
            return z3.Or(*out) if out else False
        if sb and b.k == "any":
            return self.eq(b, a)
        ka, kb = self.kind(a), self.kind(b)
        num = ("int", "bool")
        if ka in num and kb in num:
            if ka == kb == "bool":
                return bool_t(a) == bool_t(b)
            return int_t(a) == int_t(b)
        if ka == "str" and kb == "str":
            return S_(a) == S_(b)
        if ka == "enum" and kb == "enum":
            ca = a.c
            cb = b.c if isinstance(b, Sym) else type(b)
            if ca is cb:
                return a.t == (b.t if isinstance(b, Sym) else member_index(b))
            if is_strenum(ca) and is_strenum(cb):
                return S_(self.enum_str(a)) == S_(self.enum_str(b))
            return False
        if ka == "enum" and kb in num or kb == "enum" and ka in num:
            e, o = (a, b) if ka == "enum" else (b, a)
            c = e.c if isinstance(e, Sym) else type(e)
            if not issubclass(c, int):
                return False
            return int_t(self._enum_val(e) if isinstance(e, Sym) else int(e)) == int_t(o)
        if {ka, kb} == {"enum", "str"}:
            e, s = (a, b) if ka == "enum" else (b, a)
            c = e.c if isinstance(e, Sym) else type(e)
            return S_(self.enum_str(e)) == S_(s) if is_strenum(c) else False
        if ka == "tuple" and kb == "tuple":
            if isinstance(b, (tuple, NT)) or isinstance(a, (tuple, NT)):
                return seq_eq(self.seq_term(a), self.seq_term(b))
            return seq_eq(a.t, b.t)
        if ka == "list" and kb == "list":
            if self._prim(self.elem_ty(a)) and self._prim(self.elem_ty(b)):
                return seq_eq(self.lst(a), self.lst(b))
            return pyeq_u(to_v(a), to_v(b))
        if ka == "set" and kb == "set":
            return self.sset(a) == self.sset(b)
        if ka == "set" and isinstance(b, (set, frozenset)):
            return self.sset(a) == self.pyset(b)
        if ka == "dict" and kb == "dict":
            return pyeq_u(to_v(a), to_v(b))
        if ka == "obj" and kb == "obj":
            m = inspect.getattr_static(a.c, "__eq__", None)
            if isinstance(m, types.FunctionType):
                return self.truth(self.call_function(m, [a, b], {}))
            return a.t == b.t
        if ka == "flt" or kb == "flt":
            return pyeq_u(to_v(a), to_v(b)) if {ka, kb} & {"int", "bool", "py"} or ka == kb else False
        if ka == "opq" and kb in ("opq", "py"):
            return pyeq_u(to_v(a), to_v(b))
        if kb == "py" and ka in ("str", "int", "bool", "none", "enum", "tuple"):
            if isinstance(b, float):
                raise Unsupported("float compare")
            return False
        return False
    def pyset(self, s):
        if id(s) in CONST_SETS:
            return CONST_SETS[id(s)]
        t = z3.K(V, False)
        for x in s:
            t = z3.Store(t, to_v(x), True)
        return t
    def _atom_noassume2(self, t, a):
        if a[0] == "ref":
            return Sym("ref", V.vr(t), a[1])
        if a[0] == "tup":
            s = self.tupseq(t)
            return Sym("vtup", s, (("opq", "any"),))
        return self.as_atom(t, a)
    def _prim(self, tp):
        return all(a[0] in ("none", "bool", "int", "str", "enum") for a in ty(tp)) if tp else True
    def _may_eq(self, atom, b):
        kb = self.kind(b)
        k = atom[0]
        if k == "const":
            return kb in ("py", "opq")
        g = {"str": "s", "enum": "s", "int": "n", "bool": "n", "flt": "n", "none": "0", "tup": "t", "vtup": "t", "tuple": "t",
             "ref": "r", "list": "r", "dict": "r", "set": "r", "obj": "r", "opq": "o", "py": "o"}
        if kb == "py" and isinstance(b, float):
            return k in ("flt", "int", "bool")
        if kb == "py" and isinstance(b, (set, frozenset, list, dict)):
            return k == "ref"
        kc = lambda kind, c: "n" if kind == "enum" and isinstance(c, type) and issubclass(c, int) else g.get(kind)
        gb = kc(kb, b.c if isinstance(b, Sym) else type(b))
        return kc(k, atom[1] if k == "enum" else None) == gb
    def v_eq(self, s, t, cs, ct):
        """== on two V terms of union types"""
        if z3.eq(s, t):
            return True
        def has(c, *ks):
            return any(a[0] in ks or (a[0] == "opq" and a[1] == "any") for a in c)
        basic = z3.And(z3.Or(V.is_none(s), V.is_str(s), V.is_int(s), V.is_bool(s)), z3.Or(V.is_none(t), V.is_str(t), V.is_int(t), V.is_bool(t)))
        num = lambda x: z3.If(V.is_bool(x), z3.If(V.vb(x), 1, 0), V.vi(x))
        isn = lambda x: z3.Or(V.is_bool(x), V.is_int(x))
        if (has(cs, "bool") and has(ct, "int")) or (has(cs, "int") and has(ct, "bool")):
            e = z3.If(z3.And(isn(s), isn(t)), num(s) == num(t), s == t)
        else:
            e = s == t
        allb = all(a[0] in ("none", "str", "int", "bool") for a in list(cs) + list(ct))
        if allb:
            return e
        enums = {a[1] for a in list(cs) + list(ct) if a[0] == "enum"}
        if any(issubclass(c, int) for c in enums) and has(list(cs) + list(ct), "int", "bool", "flt"):
            return pyeq_u(s, t)
        same_enum = all(a[0] in ("none", "int", "bool", "enum") for a in list(cs) + list(ct)) and len({a[1] for a in list(cs) + list(ct) if a[0] == "enum"}) <= 1
        if same_enum:
            return e
        # a string (or None) equals no list, dict, instance or non-enumeration object
        plain = not any(a[0] == "enum" or (a[0] == "const" and type(a[1]).__eq__ is not object.__eq__) or (a[0] == "opq" and a[1] == "any") for a in list(cs) + list(ct))
        if plain:
            lone = lambda x: z3.Or(V.is_none(x), V.is_str(x))
            return z3.If(basic, e, z3.If(z3.Or(lone(s), lone(t)), False, pyeq_u(s, t)))
        return z3.If(basic, e, pyeq_u(s, t))

    def is_(self, a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if isinstance(a, (NT,)) or isinstance(b, NT):
                return a is b
            return a is b
        if not isinstance(a, Sym):
            a, b = b, a
        if a.k == "any":
            return a.t == to_v(b)
        if isinstance(b, Sym) and b.k == "any":
            return to_v(a) == b.t
        if b is None:
            return False
        ka, kb = self.kind(a), self.kind(b)
        if ka == kb and ka in ("bool", "int", "str", "enum"):
            return self.eq(a, b)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.k == b.k == "ref":
            return a.t == b.t
        if ka == "opq" or kb == "opq":
            return to_v(a) == to_v(b)
        return False

    # ------------------------------------------------------------ exceptions
    def throw(self, c, *args):
        raise PyExc(ExcVal(c, args))

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)
    def exec(self, s, fr):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("too many steps")
        getattr(self, "x_" + type(s).__name__, self.x_unsup)(s, fr)
    def x_unsup(self, s, fr):
        raise Unsupported(f"statement {type(s).__name__} at {fr.fname}:{getattr(s, 'lineno', '?')}")
    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)
    def x_Pass(self, s, fr):
        pass
    def x_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)
    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            v = self.eval(s.value, fr)
            v = self.coerce_ann(v, s.annotation, fr)
            self.assign(s.target, v, fr)
    def coerce_ann(self, v, ann, fr):
        """use an annotation to type an empty container or a value of unknown type"""
        if isinstance(v, Sym) and ((v.k == "ref" and isinstance(v.c, tuple) and (v.c[-1] == () or any(a == ("opq", "any") for a in ty(v.c[-1])))) or (v.k == "any" and any(a == ("opq", "any") for a in v.c))):
            try:
                a = ann
                if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id == "Final":
                    a = a.slice
                tp = ty(eval(ast.unparse(a), dict(fr.glob)))
            except Exception:
                return v
            if v.k == "ref":
                for at_ in tp:
                    if at_[0] == "ref" and isinstance(at_[1], tuple) and at_[1][0] == v.c[0]:
                        self.retag(v, at_[1])
                        return v
                return v
            if not any(x == ("opq", "any") for x in tp):
                return Sym("any", v.t, tp) if len(tp) > 1 else self.from_v(v.t, tp)
        return v
    def x_AugAssign(self, s, fr):
        tgt = s.target
        if isinstance(tgt, ast.Name):
            cur = self.name(tgt.id, fr)
            nv = self.inplace(s.op, cur, self.eval(s.value, fr))
            self.assign(tgt, nv, fr)
        elif isinstance(tgt, ast.Attribute):
            o = self.eval(tgt.value, fr)
            cur = self.getattr(o, tgt.attr, fr)
            nv = self.inplace(s.op, cur, self.eval(s.value, fr))
            self.setattr(o, tgt.attr, nv, fr)
        elif isinstance(tgt, ast.Subscript):
            o = self.eval(tgt.value, fr)
            i = self.eval(tgt.slice, fr)
            cur = self.getitem(o, i)
            nv = self.inplace(s.op, cur, self.eval(s.value, fr))
            self.setitem(o, i, nv)
        else:
            raise Unsupported("augassign")
    def inplace(self, op, cur, v):
        if self.kind(cur) == "list" and isinstance(op, ast.Add):
            self.method(cur, "extend", [v], {})
            return cur
        if self.kind(cur) == "set" and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            r = self.binop(op, cur, v)
            self.put_set(cur, self.sset(r))
            return cur
        return self.binop(op, cur, v)
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v, fr)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                self.setslice(self.eval(t.value, fr), t.slice, v, fr)
            else:
                self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        else:
            raise Unsupported(f"assign {type(t).__name__}")
    def unpack(self, v, n, star=False):
        if star:
            raise Unsupported("starred unpack")
        v = self.resolve(v)
        if isinstance(v, NT):
            v = tuple(v.vals)
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                self.throw(ValueError)
            return list(v)
        k = self.kind(v)
        if k in ("list", "tuple"):
            s = self.seq_term(v)
            el = concrete_elems(s)
            if el is not None:
                if len(el) != n:
                    self.throw(ValueError)
                return [self.from_v(e, self.elem_ty(v)) for e in el]
            if not self.st.branch(slen(s) == n):
                self.throw(ValueError)
            return [self.from_v(at(s, i), self.elem_ty(v)) for i in range(n)]
        raise Unsupported(f"unpack {v!r}")
    def x_If(self, s, fr):
        if self.istrue(self.eval(s.test, fr), f"L{s.lineno}"):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)
    def x_Assert(self, s, fr):
        if not self.istrue(self.eval(s.test, fr)):
            self.throw(AssertionError)
    def x_Break(self, s, fr):
        raise BreakEx()
    def x_Continue(self, s, fr):
        raise ContinueEx()
    def x_Global(self, s, fr):
        raise Unsupported("global statement")
    def x_Nonlocal(self, s, fr):
        fr.env.nonlocals.update(s.names)
    def x_Import(self, s, fr):
        raise Unsupported("local import")
    x_ImportFrom = x_Import
    def x_FunctionDef(self, s, fr):
        d = {}
        a = s.args
        pos = a.posonlyargs + a.args
        for p, e in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = self.eval(e, fr)
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[p.arg] = self.eval(e, fr)
        fr.env.set(s.name, Closure(s, fr.env, fr, d))
    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
                self.setslice(self.eval(t.value, fr), t.slice, (), fr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Name):
                fr.env.d.pop(t.id, None)
            else:
                raise Unsupported("del")
    def x_Raise(self, s, fr):
        if s.exc is None:
            if fr.cur_exc is None:
                raise Unsupported("bare raise")
            raise PyExc(fr.cur_exc)
        e = self.eval(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcVal(e)
        if not isinstance(e, ExcVal):
            raise Unsupported(f"raise {e!r}")
        if s.cause is not None:
            e.cause = self.eval(s.cause, fr)
        raise PyExc(e)
    def x_Try(self, s, fr):
        def fin():
            self.exec_block(s.finalbody, fr)
        try:
            try:
                self.exec_block(s.body, fr)
            except PyExc as px:
                ev = px.val
                for h in s.handlers:
                    cs = (BaseException,)
                    if h.type is not None:
                        hv = self.eval(h.type, fr)
                        cs = tuple(hv) if isinstance(hv, tuple) else (hv,)
                    if issubclass(ev.cls, cs):
                        old = fr.cur_exc
                        fr.cur_exc = ev
                        if h.name:
                            fr.env.set(h.name, ev)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                fin()
            raise
        if s.finalbody:
            fin()
    def x_With(self, s, fr):
        mgrs = []
        for it in s.items:
            m = self.eval(it.context_expr, fr)
            v = self.enter(m)
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.exec_block(s.body, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx) as e:
            for m in reversed(mgrs):
                self.exit(m, e)
            raise
        for m in reversed(mgrs):
            self.exit(m, None)
    def enter(self, m):
        if isinstance(m, Sym) and m.k == "opq":
            f = OPQ_METHODS.get((m.c, "__enter__"))
            return f(self, m, [], {}) if f else m
        raise Unsupported(f"with {m!r}")
    def exit(self, m, e):
        f = OPQ_METHODS.get((m.c, "__exit__"))
        if f:
            f(self, m, [e], {})
    def x_Match(self, s, fr):
        subj = self.eval(s.subject, fr)
        for c in s.cases:
            binds = {}
            cond = self.pattern(c.pattern, subj, fr, binds)
            if self.st.branch(cond, f"L{c.pattern.lineno}"):
                for n, v in binds.items():
                    fr.env.set(n, v)
                if c.guard is None or self.istrue(self.eval(c.guard, fr)):
                    return self.exec_block(c.body, fr)
    def pattern(self, p, subj, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.eq(subj, self.eval(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(subj, p.value)
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(q, subj, fr, binds) for q in p.patterns]
            if any(c is True for c in cs):
                return True
            cs = [c for c in cs if c is not False]
            return z3.Or(*cs) if cs else False
        if isinstance(p, ast.MatchAs):
            c = True if p.pattern is None else self.pattern(p.pattern, subj, fr, binds)
            if p.name:
                binds[p.name] = subj
            return c
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.isinstance_(subj, self.eval(p.cls, fr)))
        raise Unsupported(f"pattern {type(p).__name__}")

    # ------------------------------------------------------------ loops
    def x_For(self, s, fr):
        it = self.iter_of(self.eval(s.iter, fr))
        items = it.concrete()
        if items is not None and len(items) <= 64:
            for v in items:
                self.assign(s.target, v, fr)
                try:
                    self.exec_block(s.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.exec_block(s.orelse, fr)
            return
        def body(i, it2):
            self.assign(s.target, it2.item(i), fr)
            self.exec_block(s.body, fr)
        self.cut_loop(s, fr, [s.target] + s.body, body, it=it, orelse=s.orelse)
    def x_While(self, s, fr):
        # concrete unrolling while the condition is decided
        n = 0
        while True:
            c = self.truth_peek(s.test, fr)
            if c is None:
                break
            if not c:
                self.exec_block(s.orelse, fr)
                return
            n += 1
            if n > 64:
                raise Unsupported("unbounded concrete loop")
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        def body(i, it2):
            self.exec_block(s.body, fr)
        self.cut_loop(s, fr, s.body, body, cond=s.test, orelse=s.orelse)
    def truth_peek(self, test, fr):
        """True/False if the loop condition is syntactically decided without side effects, else None"""
        if any(isinstance(n, (ast.Call, ast.NamedExpr)) for n in ast.walk(test) if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len")):
            return None
        try:
            v = self.eval(test, fr) if not isinstance(test, ast.BoolOp) else None
        except PyExc:
            return None
        if v is None and isinstance(test, ast.BoolOp):
            return None
        c = self.truth(v)
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        return True if z3.is_true(c) else False if z3.is_false(c) else None

    def cut_loop(self, node, fr, body_nodes, body, it=None, cond=None, orelse=(), accs=()):
        st = self.st
        key = (fr.fname, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__, tuple(fr.chain))
        info = st.ex.loops.setdefault(key, LoopInfo())
        names = assigned_names(body_nodes)
        # names written through nonlocal closures called in the body
        env = fr.env
        cells = {}
        def scan(e):
            while e is not None:
                for n, v in list(e.d.items()):
                    if isinstance(v, Closure) and not isinstance(v.node, ast.Lambda):
                        for x in ast.walk(v.node):
                            if isinstance(x, ast.Nonlocal):
                                for nn in x.names:
                                    ee = v.env.find(nn)
                                    if ee is not None:
                                        cells[(id(ee), nn)] = (ee, nn)
                e = e.parent
        scan(env)
        for n in names:
            e = env.find(n) if n in env.nonlocals else (env if n in env.d else None)
            if e is not None:
                cells[(id(e), n)] = (e, n)
        cells = list(cells.values())
        # containers made empty before the loop and filled in it: their element types
        untyped = [(n, v) for (e, n), v in LoopState(self, fr, it, 0, None).vals if isinstance(v, Sym) and v.k == "ref" and isinstance(v.c, tuple) and () in v.c[1:]]
        for n, v in untyped:
            if ("elem", n) in info.types and len(info.types["elem", n]) == len(v.c) and info.types["elem", n][0] == v.c[0]:
                self.retag(v, info.types["elem", n])
        untyped = [(n, v, v.c) for n, v in untyped]
        entry = LoopState(self, fr, it, 0, None)
        i0 = z3.IntVal(0)
        entry.i = i0
        cands = self.loop_candidates(info, entry, entry, cells)
        self.check_cands(info, cands)
        # havoc
        n_serial = st.n
        alloc_entry = st.alloc_now()
        heap_entry = dict(st.heap)
        st.bump_alloc()
        for e, n in cells:
            v = e.d[n]
            tp = info.types.get(n)
            e.d[n] = self.havoc_value(n, v, tp)
        for n in names:
            if n not in env.nonlocals and env.find(n) is None:
                pass
            if n not in env.nonlocals and n not in env.d and env.parent is not None and False:
                pass
        self.havoc_heap(info, heap_entry, alloc_entry, n_serial)
        for g in sorted(info.ghosts):
            st.ghost[g] = st.fresh("g_" + g, st.ghost[g].sort())
        ghost_entry = dict(st.ghost)
        i = st.fresh("i", I) if it is not None else st.fresh("n", I)
        st.ctx.add(i >= 0)
        cur = LoopState(self, fr, it, i, entry)
        if it is not None:
            st.assume(i <= it.length())
        for name, f in self.loop_candidates(info, cur, entry, cells):
            if name not in info.dropped:
                st.assume(f)
        st.feasible_or_end()
        go = st.choose(2, f"loop{getattr(node, 'lineno', '')}")
        if go == 0:   # exit
            if it is not None:
                st.assume(i >= it.length())
            elif cond is not None:
                if self.istrue(self.eval(cond, fr)):
                    raise PathEnd()
            st.feasible_or_end()
            # names first bound inside the loop may be unbound afterwards
            for n in names:
                if n not in env.nonlocals and n in env.d and not any(e is env and m == n for e, m in cells):
                    del env.d[n]
            self.exec_block(orelse, fr)
            return
        if it is not None:
            st.assume(i < it.length())
        elif cond is not None:
            if not self.istrue(self.eval(cond, fr)):
                raise PathEnd()
        st.feasible_or_end()
        log: list = []
        st.writes_log.append(log)
        self.active_idx.append(i)
        try:
            try:
                body(i, it)
            except ContinueEx:
                pass
            finally:
                self.active_idx.pop()
        except BreakEx:
            st.writes_log.pop()     # leaves the loop: the state here is exact
            return
        except (PyExc, ReturnEx):
            st.writes_log.pop()
            raise
        st.writes_log.pop()
        # end of iteration
        widened = False
        for e, n in cells:
            if n in e.d:
                tv = self.py_ty(e.d[n])
                base = info.types.get(n) or self.py_ty(self.entry_val(entry, e, n))
                j = self.join_types(base, tv)
                if j != base:
                    info.types[n] = j
                    st.ex.structural = True
                    widened = True
        for n, v, c in untyped:
            if v.c != c:
                info.types["elem", n] = v.c
                st.ex.structural = True
        self.cover_writes(info, log, n_serial, heap_entry)
        for g, t in st.ghost.items():
            if g not in info.ghosts and (g not in ghost_entry or not t.eq(ghost_entry[g])):
                info.ghosts.add(g)
                st.ex.structural = True
        end = LoopState(self, fr, it, i + 1, entry)
        self.check_cands(info, self.loop_candidates(info, end, entry, cells))
        self.check_frames(info, heap_entry, alloc_entry)
        raise PathEnd()
    def entry_val(self, entry, e, n):
        for (e2, n2), v in entry.vals:
            if e2 is e and n2 == n:
                return v
        return None
    def join_types(self, a, b):
        """a ∪ b; empty-container element types are refined"""
        out = list(a)
        for x in b:
            if x in out:
                continue
            if x[0] == "ref" and isinstance(x[1], tuple):
                m = [y for y in out if y[0] == "ref" and isinstance(y[1], tuple) and y[1][0] == x[1][0]]
                if m:
                    y = m[0]
                    if y[1][-1] == ():
                        out[out.index(y)] = x
                    continue
            if x[0] == "tup":
                m = [y for y in out if y[0] == "tup" and len(y[1]) == len(x[1])]
                if m:
                    y = m[0]
                    out[out.index(y)] = ("tup", tuple(self.join_types(p, q) for p, q in zip(y[1], x[1])), y[2])
                    continue
            if x[0] == "opq" and x[1] == "any" and out:
                out = [("opq", "any")]
                continue
            if ("opq", "any") in out:
                continue
            out.append(x)
        return tuple(out)
    def havoc_value(self, n, v, tp):
        t = tp or self.py_ty(v)
        if v is UNBOUND:
            return v
        if isinstance(v, (Closure, BoundMethod, Builtin, type, types.FunctionType, types.ModuleType)) and tp is None:
            return v
        if any(a == ("opq", "any") for a in t) and not isinstance(v, Sym):
            if isinstance(v, (set, frozenset, dict, list)) or callable(v):
                return v
        return self.fresh(n, t)
    def havoc_heap(self, info, heap_entry, alloc_entry, n_serial):
        st = self.st
        for f, targets in list(info.writes.items()):
            if targets is None:
                lvl = info.framedrop.get(f, 0)
                ex = info.framedrop.get((f, "ex"), {})
                fr = None
                if lvl < 2:
                    lim = alloc_entry if lvl == 0 else st.A0
                    exs = list(ex.values())
                    fr = (lambda lim, exs: (lambda o: z3.And(0 <= o, o < lim, *[o != x for x in exs])))(lim, exs)
                new = st.havoc_field(f, None, frame=fr)
                st.heap_facts(f, new, st.alloc_now())
            else:
                for t in list(targets.values()):
                    if not self._made_here(t):
                        continue        # an object of another path that reaches this loop
                    x = st.fresh("hv_" + f.strip("#"), st.SORTS.get(f, V))
                    st.put(f, t, x)
                    self.fresh_cell_facts(f, x)
    def fresh_cell_facts(self, f, x):
        st = self.st
        al = st.alloc_now()
        i = z3.Int("i")
        k = z3.Const("k", V)
        def inr(y):
            return z3.Implies(V.is_ref(y), z3.And(0 <= V.vr(y), V.vr(y) < al))
        if st.SORTS.get(f) == Sq:
            st.ctx.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < slen(x)), inr(at(x, i))), patterns=[at(x, i)]))
        elif f == "#dict":
            st.ctx.add(z3.ForAll([k], z3.Implies(dhas(x, k), inr(dget(x, k))), patterns=[dget(x, k)]))
        elif f != "#set":
            st.ctx.add(inr(x))
    def _made_here(self, t):
        """every numbered constant in t was introduced on this path"""
        stack = [t]
        while stack:
            x = stack.pop()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if "!" in nm and not nm.startswith(("H0!", "L!", "O!", "FL!")) and nm not in self.st.made:
                    return False
            stack.extend(x.children())
        return True
    def _serial_ok(self, t, n_serial):
        """every constant in t existed before the loop"""
        stack = [t]
        while stack:
            x = stack.pop()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if "!" in nm and not nm.startswith(("H0!", "L!", "O!", "FL!")):
                    try:
                        if int(nm.rsplit("!", 1)[1]) > n_serial:
                            return False
                    except ValueError:
                        pass
            stack.extend(x.children())
        return True
    def cover_writes(self, info, log, n_serial, heap_entry):
        st = self.st
        for f, r in log:
            cur = info.writes.get(f, {})
            if cur is None:
                if r is not None and self._serial_ok(r, n_serial):
                    ex = info.framedrop.setdefault((f, "ex"), {})
                    if r.sexpr() not in ex:
                        ex[r.sexpr()] = r
                        st.ex.structural = True
                continue
            # writes to objects allocated inside the iteration need no havoc
            if r is not None and r.sexpr() in cur and self._serial_ok(r, n_serial):
                continue
            st.ex.structural = True
            if r is not None and self._serial_ok(r, n_serial) and len(cur) < 12:
                info.writes.setdefault(f, {})[r.sexpr()] = r
            else:
                old = info.writes.get(f) or {}
                info.writes[f] = None
                ex = info.framedrop.setdefault((f, "ex"), {})
                ex.update(old)
        # fields changed without a logged write (allocation of new lists etc.) are new cells only
        for f, a in st.heap.items():
            pass
    def check_frames(self, info, heap_entry, alloc_entry):
        st = self.st
        for f, targets in info.writes.items():
            if targets is not None:
                continue
            lvl = info.framedrop.get(f, 0)
            while lvl < 2:
                lim = alloc_entry if lvl == 0 else st.A0
                exs = list(info.framedrop.get((f, "ex"), {}).values())
                o = st.fresh("o", I)
                pre = z3.And(0 <= o, o < lim, *[o != x for x in exs])
                old = heap_entry.get(f)
                if old is None:
                    old = st.arr0(f)
                if st.replaying() or st.holds(z3.Implies(pre, z3.Select(st.arr(f), o) == z3.Select(old, o))):
                    break
                lvl += 1
                info.framedrop[f] = lvl
                st.ex.need_restart = True
    def check_cands(self, info, cands):
        st = self.st
        if st.replaying():
            return
        for name, f in cands:
            if name in info.dropped:
                continue
            if not st.holds(f, eager=":" in name):
                info.dropped.add(name)
                st.ex.dropped_now.append((info, name))
                st.ex.need_restart = True
    def loop_candidates(self, info, cur, entry, cells):
        out = []
        for (e, n) in cells:
            if n not in e.d:
                continue
            v = e.d[n]
            v0 = self.entry_val(entry, e, n)
            nm = n
            try:
                kv, k0 = self.kind(v), self.kind(v0)
                if kv == "int" and k0 == "int":
                    out.append((f"{nm}>=entry", int_t(v) >= int_t(v0)))
                    out.append((f"{nm}==entry+i", int_t(v) == int_t(v0) + cur.i))
                    out.append((f"{nm}<=entry+i", int_t(v) <= int_t(v0) + cur.i))
                    out.append((f"{nm}>=0", int_t(v) >= 0))
                elif kv == "bool" and k0 == "bool":
                    out.append((f"{nm}==entry", bool_t(v) == bool_t(v0)))
                elif kv in ("str", "any", "enum", "obj", "list", "dict", "set") and v0 is not UNBOUND:
                    out.append((f"{nm} same", to_v(v) == to_v(v0)))
                if kv == "any" and any(a == NONE for a in v.c):
                    out.append((f"{nm} none", V.is_none(v.t)))
                    out.append((f"{nm} not none", z3.Not(V.is_none(v.t))))
            except Unsupported:
                continue
        for tname, tf in self.loop_templates:
            try:
                for name, f in tf(cur):
                    if isinstance(f, Sym):
                        f = f.t
                    if f is None or f is True:
                        continue
                    out.append((f"{tname}:{name}", self._z(f)))
            except (Unsupported, KeyError, AttributeError, z3.Z3Exception, TypeError, IndexError, PyExc) as ex:
                if DEBUG_TEMPLATES:
                    raise
                continue
        return out
DEBUG_TEMPLATES = False

class LoopState:
    """what a loop-invariant template sees: locals, heap, ghost index"""
    def __init__(self, ip, fr, it, i, entry):
        self.ip, self.fr, self.it, self.entry = ip, fr, it, entry
        self.i = z3.IntVal(i) if isinstance(i, int) else i
        self.fn = ip.fnstate
        self.heap = dict(ip.st.heap)
        self.ghost = dict(ip.st.ghost)
        self.outer = list(ip.active_idx)
        self.vals = []
        e = fr.env
        while e is not None:
            for n, v in e.d.items():
                self.vals.append(((e, n), v))
                if isinstance(v, Closure):      # what the function captures
                    seen = {id(x) for (x, _), _ in self.vals}
                    e2 = v.env
                    while e2 is not None and id(e2) not in seen:
                        self.vals.extend(((e2, n2), v2) for n2, v2 in e2.d.items())
                        e2 = e2.parent
            e = e.parent
        self.fname = fr.fname
    def locals(self, kind=None, elem=None):
        """(name, value) of locals, optionally of a given kind"""
        for (e, n), v in self.vals:
            if kind is None or self.ip.kind(v) == kind:
                yield n, v
    def lists(self):
        """(name, Sq) for local lists"""
        for n, v in self.locals("list"):
            f = list_region(v.c)
            yield n, self.ip.st.sel(f, v.t, self._arr(f))
        for n, v in self.locals("any"):
            refs = [a for a in v.c if a[0] != "none"]
            if len(refs) == 1 and refs[0][0] == "ref" and isinstance(refs[0][1], tuple) and refs[0][1][0] == "list":
                f = list_region(refs[0][1])
                yield n, self.ip.st.sel(f, V.vr(v.t), self._arr(f))
    def _arr(self, f):
        a = self.heap.get(f)
        return a if a is not None else self.ip.st.arr(f)
    def get(self, n):
        for (e, m), v in self.vals:
            if m == n:
                return v
        raise KeyError(n)

def L_ENUM(i):
    from .vals import _ENUMS
    return _ENUMS[i]


# ==================================================================== iterators
class It:
    def concrete(self):
        return None
    def length(self):
        raise Unsupported("length")
    def item(self, i):
        raise Unsupported("item")

class ConcIt(It):
    def __init__(self, items):
        self.items = list(items)
    def concrete(self):
        return self.items
    def length(self):
        return z3.IntVal(len(self.items))
    def item(self, i):
        if z3.is_int_value(i):
            return self.items[i.as_long()]
        raise Unsupported("symbolic index into concrete iterable")

class SeqIt(It):
    """over a fixed Sq term"""
    def __init__(self, ip, seq, elem):
        self.ip, self.seq_, self.elem = ip, seq, elem
    def seq(self):
        return self.seq_
    def concrete(self):
        e = concrete_elems(self.seq())
        return None if e is None else [self.ip.from_v(x, self.elem) for x in e]
    def length(self):
        return slen(self.seq())
    def item(self, i):
        return self.ip.from_v(at(self.seq(), i), self.elem)

class ListIt(SeqIt):
    """over a list object (live)"""
    def __init__(self, ip, ref):
        self.ip, self.ref = ip, ref
    @property
    def elem(self):
        return self.ip.elem_ty(self.ref)
    def seq(self):
        return self.ip.lst(self.ref)

class RangeIt(It):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
    def concrete(self):
        if all(isinstance(x, int) for x in (self.lo, self.hi, self.step)):
            r = range(self.lo, self.hi, self.step)
            return list(r) if len(r) <= 64 else None
        return None
    def length(self):
        if self.step == 1:
            n = int_t(self.hi) - int_t(self.lo)
        elif self.step == -1:
            n = int_t(self.lo) - int_t(self.hi)
        else:
            raise Unsupported("range step")
        return z3.If(n > 0, n, z3.IntVal(0))
    def item(self, i):
        return mk_int(int_t(self.lo) + i * self.step)

class MapIt(It):
    def __init__(self, base, f):
        self.base, self.f = base, f
    def concrete(self):
        c = self.base.concrete()
        return None if c is None else [self.f(z3.IntVal(i), x) for i, x in enumerate(c)]
    def length(self):
        return self.base.length()
    def item(self, i):
        return self.f(i, self.base.item(i))

class ZipIt(It):
    def __init__(self, its):
        self.its = its
    def concrete(self):
        cs = [x.concrete() for x in self.its]
        return None if any(c is None for c in cs) else list(zip(*cs))
    def length(self):
        l = self.its[0].length()
        for o in self.its[1:]:
            m = o.length()
            l = z3.If(l <= m, l, m)
        return l
    def item(self, i):
        return tuple(x.item(i) for x in self.its)

class RevIt(It):
    def __init__(self, base):
        self.base = base
    def concrete(self):
        c = self.base.concrete()
        return None if c is None else c[::-1]
    def length(self):
        return self.base.length()
    def item(self, i):
        return self.base.item(self.base.length() - 1 - i)

class CharIt(It):
    def __init__(self, s):
        self.s = s
    def length(self):
        return strlen(self.s)
    def item(self, i):
        return Sym("str", char_at(self.s, i))

CONST_SETS: dict = {}       # id of a large constant set -> array constant standing for it (whatever its members are)

class GenVal:
    """an unevaluated generator expression"""
    def __init__(self, node, env, fr):
        self.node, self.env, self.fr = node, env, fr


class _Expr:
    """expression evaluation (mixed into Interp)"""
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {fr.fname}:{getattr(e, 'lineno', '?')}")
        return m(e, fr)
    def e_Constant(self, e, fr):
        return e.value
    def e_Name(self, e, fr):
        return self.name(e.id, fr)
    def name(self, n, fr):
        en = fr.env.find(n)
        if en is not None:
            v = en.d[n]
            if v is UNBOUND:
                raise Unsupported(f"unbound {n}")
            return v
        if n in fr.glob:
            return fr.glob[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        e = fr.env
        raise Unsupported(f"name {n}")
    def e_Tuple(self, e, fr):
        return tuple(self._elts(e.elts, fr))
    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.iter_of(self.eval(x.value, fr)).concrete()
                if v is None:
                    raise Unsupported("starred")
                out.extend(v)
            else:
                out.append(self.eval(x, fr))
        return out
    def e_List(self, e, fr):
        if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
            return self.to_list(self.eval(e.elts[0].value, fr))
        if any(isinstance(x, ast.Starred) for x in e.elts):
            acc = self.new_list(sempty, ())
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.method(acc, "extend", [self.eval(x.value, fr)], {})
                else:
                    self.method(acc, "append", [self.eval(x, fr)], {})
            return acc
        vs = self._elts(e.elts, fr)
        return self.new_list(seq_of(vs), self.elem_join(vs))
    def elem_join(self, vs):
        t = ()
        for v in vs:
            t = self.join_types(t, self.py_ty(v))
        return t
    def e_Set(self, e, fr):
        vs = self._elts(e.elts, fr)
        return self.new_set(self.pyset(vs), self.elem_join(vs))
    def e_Dict(self, e, fr):
        d = dempty
        kt, vt = (), ()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                raise Unsupported("dict unpack")
            kv, vv = self.eval(k, fr), self.eval(v, fr)
            d = dset(d, to_v(kv), to_v(vv))
            kt, vt = self.join_types(kt, self.py_ty(kv)), self.join_types(vt, self.py_ty(vv))
        return self.new_dict(d, kt, vt)
    def e_JoinedStr(self, e, fr):
        ps = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                ps.append(p.value)
            else:
                v = self.eval(p.value, fr)
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec, fr)
                    if not isinstance(v, Sym) and isinstance(spec, str):
                        ps.append(format(v, spec))
                        continue
                    ps.append(self.ufun("format", Str, v, spec))
                elif p.conversion == ord("r"):
                    ps.append(self.ufun("repr", Str, v) if isinstance(v, Sym) or isinstance(v, (tuple, NT)) else repr(v))
                else:
                    ps.append(S_(self.to_str(v)))
        r = mk_str([lit(p) if isinstance(p, str) else p for p in ps])
        return r if isinstance(r, str) else Sym("str", r)
    def ufun(self, name, sort, *args):
        """deterministic uninterpreted function of the argument values"""
        vs = [to_v(a) for a in args]
        return F("u_" + name + str(len(vs)), *[V] * len(vs), sort)(*vs)
    def to_str(self, v):
        if isinstance(v, Sym):
            if v.k == "any":
                if any(a[0] == "opq" for a in v.c):
                    return Sym("str", pystr(v.t))
                v = self.resolve(v)
                return self.to_str(v)
            if v.k == "str":
                return v
            if v.k == "int":
                return Sym("str", itoa(v.t))
            if v.k == "enum" and is_strenum(v.c):
                return self.enum_str(v)
            if v.k == "flt":
                return Sym("str", ftoa(v.t))
            if v.k == "bool":
                return Sym("str", z3.If(v.t, lit("True"), lit("False")))
            if v.k == "ref" and not isinstance(v.c, tuple):
                m = inspect.getattr_static(v.c, "__str__", None)
                if isinstance(m, types.FunctionType):
                    return self.call_function(m, [v], {})
            return Sym("str", pystr(to_v(v)))
        if isinstance(v, (tuple, NT, ExcVal, Closure)):
            if isinstance(v, ExcVal):
                return Sym("str", self.st.fresh("excstr", Str))
            return Sym("str", pystr(to_v(v)))
        return str(v)
    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr, fr)
    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(o, (type, types.GenericAlias)) or getattr(o, "__module__", "") == "typing" and not isinstance(o, Sym):
            return o
        if isinstance(e.slice, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, fr)
            return self.getslice(o, g(e.slice.lower), g(e.slice.upper), g(e.slice.step))
        return self.getitem(o, self.eval(e.slice, fr))
    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.istrue(self.eval(e.test, fr)) else e.orelse, fr)
    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.istrue(v)
            if isinstance(e.op, ast.And) and not t:
                return False if isinstance(v, Sym) and v.k == "bool" else v
            if isinstance(e.op, ast.Or) and t:
                return True if isinstance(v, Sym) and v.k == "bool" else v
        return v
    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return mk_bool(z3.Not(t)) if not isinstance(t, bool) else not t
        v = self.resolve(v)
        if isinstance(e.op, ast.USub):
            return mk_int(-int_t(v)) if self.kind(v) in ("int", "bool") else self._unsup("neg")
        raise Unsupported("unary op")
    def _unsup(self, w):
        raise Unsupported(w)
    def e_BinOp(self, e, fr):
        l = self.eval(e.left, fr)
        r = self.eval(e.right, fr)
        return self.binop(e.op, l, r)
    def binop(self, op, l, r):
        l, r = self.resolve(l), self.resolve(r)
        if isinstance(l, (type, types.UnionType)) or isinstance(r, (type, types.UnionType)):
            return l | r
        kl, kr = self.kind(l), self.kind(r)
        num = ("int", "bool")
        o = type(op).__name__
        conc = not any(isinstance(x, (Sym, NT, Closure)) for x in (l, r))
        if conc and not isinstance(l, (tuple, list)) and not isinstance(r, (tuple, list)):
            import operator
            f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod, "BitOr": operator.or_, "BitAnd": operator.and_, "Pow": operator.pow, "BitXor": operator.xor}.get(o)
            if f:
                try:
                    return f(l, r)
                except (TypeError, ValueError, ZeroDivisionError) as ex:
                    self.throw(type(ex))
        if kl in num and kr in num:
            a, b = int_t(l), int_t(r)
            if o == "Add":
                return mk_int(a + b)
            if o == "Sub":
                return mk_int(a - b)
            if o == "Mult":
                return mk_int(a * b)
            if o in ("FloorDiv", "Mod", "Div"):
                if self.st.branch(b == 0):
                    self.throw(ZeroDivisionError)
                if o == "Div":
                    return Sym("flt", F("fdiv", I, I, Flt)(a, b))
                if not self.st.holds(b > 0):
                    raise Unsupported("division by possibly negative")
                return mk_int(a / b) if o == "FloorDiv" else mk_int(a % b)
        if kl in ("str", "enum") and kr in ("str", "enum") and o == "Add":
            r2 = mk_str([S_(self.to_str(l)), S_(self.to_str(r))])
            return r2 if isinstance(r2, str) else Sym("str", r2)
        if o == "Add" and kl == kr == "list":
            return self.new_list(self.app_(self.lst(l), self.lst(r)), self.join_types(self.elem_ty(l), self.elem_ty(r)))
        if o == "Add" and kl == kr == "tuple":
            if isinstance(l, tuple) and isinstance(r, tuple):
                return l + r
            e1 = self.elem_ty(l) if isinstance(l, Sym) else self.elem_join(l.vals if isinstance(l, NT) else l)
            e2 = self.elem_ty(r) if isinstance(r, Sym) else self.elem_join(r.vals if isinstance(r, NT) else r)
            return Sym("vtup", self.app_(self.seq_term(l), self.seq_term(r)), self.join_types(e1, e2))
        if o == "Mult" and kl == "list" and kr in num:
            el = concrete_elems(self.lst(l))
            if el is not None and len(el) == 1:
                return self.new_list(srep(el[0], int_t(r)), self.elem_ty(l))
        sl, sr = isinstance(l, (set, frozenset)) or kl == "set", isinstance(r, (set, frozenset)) or kr == "set"
        if sl and sr:
            a = self.pyset(l) if isinstance(l, (set, frozenset)) else self.sset(l)
            b = self.pyset(r) if isinstance(r, (set, frozenset)) else self.sset(r)
            et = self.elem_ty(l) if kl == "set" else self.elem_join(list(l))
            er = self.elem_ty(r) if kr == "set" else self.elem_join(list(r))
            if o == "BitOr":
                return self.new_set(z3.SetUnion(a, b), self.join_types(et, er))
            if o == "BitAnd":
                return self.new_set(z3.SetIntersect(a, b), et)
            if o == "Sub":
                return self.new_set(z3.SetDifference(a, b), et)
        if "flt" in (kl, kr) or isinstance(l, float) or isinstance(r, float):
            return Sym("flt", self.ufun("f" + o, Flt, l, r))
        if o == "Div" and (kl == "opq" or kr == "opq"):
            c = l.c if kl == "opq" else r.c
            f = OPQ_METHODS.get((c, "__truediv__"))
            if f:
                return f(self, l, [r], {})
        raise Unsupported(f"binop {o} on {kl},{kr}")
    def app_(self, s, t):
        et = concrete_elems(t)
        if et is not None:
            for x in et:
                s = build(s, x)
            return s
        if s.eq(sempty):
            return t
        return app(s, t)
    def e_Compare(self, e, fr):
        l = self.eval(e.left, fr)
        out = []
        for op, rn in zip(e.ops, e.comparators):
            r = self.eval(rn, fr)
            c = self.compare(op, l, r)
            if c is False:
                return False
            if c is not True:
                out.append(c)
                if len(e.ops) > 1 and op is not e.ops[-1] and not isinstance(rn, (ast.Constant, ast.Name)):
                    pass
            l = r
        return mk_bool(z3.And(*out)) if out else True
    def compare(self, op, l, r):
        o = type(op).__name__
        neg = lambda c: (not c) if isinstance(c, bool) else z3.Not(c)
        if o == "Is":
            return self.is_(l, r)
        if o == "IsNot":
            return neg(self.is_(l, r))
        if o == "Eq":
            return self.eq(l, r)
        if o == "NotEq":
            return neg(self.eq(l, r))
        if o == "In":
            return self.contains(r, l)
        if o == "NotIn":
            return neg(self.contains(r, l))
        l, r = self.resolve(l), self.resolve(r)
        kl, kr = self.kind(l), self.kind(r)
        if kl in ("int", "bool") and kr in ("int", "bool"):
            a, b = int_t(l), int_t(r)
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o]
        if kl == "set" or kr == "set":
            raise Unsupported("set compare")
        if kl == "str" and kr == "str":
            if isinstance(l, str) and isinstance(r, str):
                return {"Lt": l < r, "LtE": l <= r, "Gt": l > r, "GtE": l >= r}[o]
            return self.ufun("str" + o, B, l, r)
        if "flt" in (kl, kr):
            return self.ufun("flt" + o, B, l, r)
        if not any(isinstance(x, Sym) for x in (l, r)):
            import operator
            return {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[o](l, r)
        raise Unsupported(f"compare {o} {kl} {kr}")
    def contains(self, c, x):
        c = self.resolve(c)
        k = self.kind(c)
        if k == "dict":
            return dhas(self.dct(c), self.key_v(c, x))
        if k == "set":
            x = self.norm_elem(c, x)
            return z3.Select(self.sset(c), to_v(x))
        if k == "list" or k == "tuple":
            if isinstance(c, (tuple, NT)):
                cs = [self.eq(x, y) for y in (c.vals if isinstance(c, NT) else c)]
                if any(q is True for q in cs):
                    return True
                cs = [q for q in cs if q is not False]
                return z3.Or(*cs) if cs else False
            if self._prim(self.elem_ty(c)):
                el = concrete_elems(self.seq_term(c))
                if el is not None and len(el) <= 16:
                    cs = [self.eq(x, self.from_v(y, self.elem_ty(c))) for y in el]
                    if any(q is True for q in cs):
                        return True
                    cs = [q for q in cs if q is not False]
                    return z3.Or(*cs) if cs else False
                x = self.norm_elem(c, x)
                return self.seq_has(self.seq_term(c), to_v(x))
            raise Unsupported("membership in a list of objects")
        if k == "str":
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return s_contains(S_(c), S_(self.resolve(x)))
        if k == "py":
            if id(c) in CONST_SETS and isinstance(x, Sym):
                return z3.Select(CONST_SETS[id(c)], to_v(x))
            if isinstance(c, GenVal) or isinstance(c, It):
                raise Unsupported("in generator")
            if isinstance(x, Sym) and x.k == "any":
                cs = [self.eq(x, y) for y in c]
                cs = [q for q in cs if q is not False]
                return z3.Or(*cs) if cs else False
            if isinstance(c, dict):
                c = list(c)
            if isinstance(x, Sym):
                cs = [self.eq(x, y) for y in c]
                if any(q is True for q in cs):
                    return True
                cs = [q for q in cs if q is not False]
                return z3.Or(*cs) if cs else False
            if isinstance(x, (NT, tuple)):
                cs = [self.eq(x, y) for y in c]
                cs = [q for q in cs if q is not False]
                return True if any(q is True for q in cs) else (z3.Or(*cs) if cs else False)
            return x in c
        if k == "obj":
            m = inspect.getattr_static(c.c, "__contains__", None)
            if isinstance(m, types.FunctionType):
                return self.truth(self.call_function(m, [c, x], {}))
        if k == "opq":
            f = OPQ_METHODS.get((c.c, "__contains__"))
            if f:
                return self.truth(f(self, c, [x], {}))
        if isinstance(c, type) and issubclass(c, enum.Enum):
            raise Unsupported("in enum class")
        raise Unsupported(f"in {k}")
    def seq_has(self, s, v):
        return z3.Select(selems(s), v)
    def norm_elem(self, c, x):
        """StrEnum members used where strings are stored are the same key, and vice versa"""
        x = self.resolve(x) if isinstance(x, Sym) and x.k == "any" and len(x.c) > 1 and not any(a == ("opq", "any") for a in x.c) and any(a[0] == "enum" for a in x.c) else x
        e = self.elem_ty(c)
        kinds = {a[0] for a in e}
        if self.kind(x) == "enum" and "enum" not in kinds and "str" in kinds:
            return self.enum_str(x) if isinstance(x, Sym) else x.value
        return x
    def key_v(self, c, x):
        x = self.norm_elem(c, x)
        return to_v(x)

    # ---------------------------------------------------------------- subscripts
    def norm_index(self, i, n, exc=IndexError):
        """python index -> z3 index in range, or raises"""
        i = self.resolve(i)
        if self.kind(i) not in ("int", "bool"):
            self.throw(TypeError)
        it = int_t(i)
        if isinstance(i, int):
            if i >= 0:
                if not self.st.branch(it < n):
                    self.throw(exc)
                return it
            if not self.st.branch(n + i >= 0):
                self.throw(exc)
            return z3.simplify(n + i)
        if not self.st.branch(z3.And(it < n, -n <= it)):
            self.throw(exc)
        if self.st.branch(it >= 0):
            return it
        return it + n
    def getitem(self, o, i):
        o = self.resolve(o)
        k = self.kind(o)
        if k == "dict":
            d = self.dct(o)
            kv = self.key_v(o, i)
            if not self.st.branch(dhas(d, kv)):
                self.throw(KeyError)
            return self.from_v(dget(d, kv), o.c[2])
        if k in ("list", "tuple"):
            if isinstance(o, (tuple, NT)):
                vs = o.vals if isinstance(o, NT) else o
                i = self.resolve(i)
                if isinstance(i, int):
                    try:
                        return vs[i]
                    except IndexError:
                        self.throw(IndexError)
                raise Unsupported("symbolic tuple index")
            s = self.seq_term(o)
            el = concrete_elems(s)
            if el is not None and isinstance(i, int):
                try:
                    return self.from_v(el[i], self.elem_ty(o))
                except IndexError:
                    self.throw(IndexError)
            n = slen(s)
            j = self.norm_index(i, n)
            return self.from_v(self.at_(s, j), self.elem_ty(o))
        if k == "str":
            if isinstance(o, str) and isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    self.throw(IndexError)
            t = S_(o)
            ps = str_pieces(t) if isinstance(i, int) else []
            if ps and i >= 0 and isinstance(ps[0], str) and len(ps[0]) > i:
                return ps[0][i]
            if ps and i < 0 and isinstance(ps[-1], str) and len(ps[-1]) >= -i:
                return ps[-1][i]
            j = self.norm_index(i, strlen(t))
            c = char_at(t, j)
            self.st.ctx.add(strlen(c) == 1)
            return Sym("str", c)
        if k == "py":
            if isinstance(o, dict):
                if not isinstance(i, Sym):
                    try:
                        return o[i]
                    except (KeyError, TypeError) as ex:
                        self.throw(type(ex))
                for kk in o:
                    if self.st.branch(self._z(self.eq(i, kk))):
                        return o[kk]
                self.throw(KeyError)
            if isinstance(o, (list, tuple)) and isinstance(i, int):
                return o[i]
            if isinstance(o, type) and issubclass(o, enum.Enum):
                return o[i]
        if k == "opq":
            f = OPQ_METHODS.get((o.c, "__getitem__"))
            if f:
                return f(self, o, [i], {})
        if k in ("int", "bool", "none"):
            self.throw(TypeError)
        raise Unsupported(f"getitem {k}")
    def at_(self, s, j):
        return at(s, j)
    def setslice(self, o, sl, v, fr):
        o = self.resolve(o)
        g = lambda x: None if x is None else self.resolve(self.eval(x, fr))
        lo, hi = g(sl.lower), g(sl.upper)
        if sl.step is not None or self.kind(o) != "list":
            raise Unsupported("slice assignment")
        l = self.to_list(v)
        new = self.lst(l)
        if isinstance(o.c, tuple) and o.c[1] == ():
            self.retag(o, l.c)
        s = self.lst(o)
        n = slen(s)
        a = self._sidx(lo, n, z3.IntVal(0))
        b = self._sidx(hi, n, n)
        if not self.st.holds(a <= b, 800):
            b = z3.If(a <= b, b, a)
        if lo is None and hi is None:
            self.put_list(o, new)
            return
        head = sempty if lo is None or (z3.is_int_value(a) and a.as_long() == 0) else take(s, a)
        r = self.app_(head, new)
        self.put_list(o, r if hi is None else self.app_(r, drop(s, b)))
    def getslice(self, o, lo, hi, step):
        o = self.resolve(o)
        k = self.kind(o)
        if step == -1 and lo is None and hi is None:
            if k in ("list", "tuple"):
                s = self.seq_term(o)
                el = concrete_elems(s)
                t = seq_rev_build(el) if el is not None else (s.arg(0) if z3.is_app(s) and s.decl().eq(srev) else srev(s))
                if k == "list":
                    return self.new_list(t, self.elem_ty(o))
                if isinstance(o, tuple):
                    return o[::-1]
                return Sym("vtup", t, o.c)
            if isinstance(o, str):
                return o[::-1]
            if k == "str":
                return Sym("str", s_rev(S_(o)))
        if step is not None and step != 1:
            raise Unsupported("slice step")
        lo, hi = self.resolve(lo), self.resolve(hi)
        if not any(isinstance(x, Sym) for x in (o, lo, hi)):
            if isinstance(o, NT):
                return tuple(o.vals)[lo:hi]
            return o[lo:hi]
        if k == "str":
            t = S_(o)
            n = strlen(t)
            if lo in (None, 0) and isinstance(hi, int) and hi < 0:
                ps = str_pieces(t)
                if ps and isinstance(ps[-1], str) and len(ps[-1]) >= -hi:
                    r = mk_str(ps[:-1] + [ps[-1][:hi]])
                    return r if isinstance(r, str) else Sym("str", r)
                r = s_chop(t, z3.IntVal(-hi))
                self.st.ctx.add(strlen(r) == self._clip(n + hi, n))
                return Sym("str", r)
            a = self._sidx(lo, n, z3.IntVal(0))
            b = self._sidx(hi, n, n)
            return self._sub(t, a, b)
        if k in ("list", "tuple"):
            s = self.seq_term(o)
            n = slen(s)
            a = self._sidx(lo, n, z3.IntVal(0))
            b = self._sidx(hi, n, n)
            if self.st.holds(a <= b, 800):
                b2 = b
            else:
                b2 = z3.If(a <= b, b, a)
            t = s if hi is None else take(s, b2)
            t = t if (lo is None or (z3.is_int_value(a) and a.as_long() == 0)) else drop(t, a)
            if k == "list":
                return self.new_list(t, self.elem_ty(o))
            return Sym("vtup", t, self.elem_ty(o))
        if k == "opq":
            f = OPQ_METHODS.get((o.c, "__getitem__"))
            if f:
                return f(self, o, [("slice", lo, hi)], {})
        raise Unsupported(f"slice of {k}")
    def _sub(self, t, a, b):
        r = substr(t, a, b)
        self.st.ctx.add(strlen(r) == z3.If(b > a, b - a, 0))
        return Sym("str", r)
    def _clip(self, x, n):
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    def _sidx(self, x, n, dflt):
        if x is None:
            return dflt
        t = int_t(x)
        if isinstance(x, int) and x >= 0:
            if self.st.holds(t <= n, 400):
                return t
            return z3.If(t > n, n, t)
        if isinstance(x, int):
            return z3.If(n + t < 0, z3.IntVal(0), n + t)
        if self.st.holds(z3.And(0 <= t, t <= n), 600):
            return t
        return z3.If(t < 0, self._clip(n + t, n), self._clip(t, n))
    def setitem(self, o, i, v):
        o = self.resolve(o)
        k = self.kind(o)
        if k == "dict":
            self._widen_dict(o, i, v)
            self.put_dict(o, dset(self.dct(o), self.key_v(o, i), to_v(v)))
            return
        if k == "list":
            self.widen_elem(o, v)
            s = self.lst(o)
            el = concrete_elems(s)
            if el is not None and isinstance(i, int) and -len(el) <= i < len(el):
                el[i] = to_v(v)
                t = sempty
                for x in el:
                    t = build(t, x)
                self.put_list(o, t)
                return
            j = self.norm_index(i, slen(s))
            self.put_list(o, supd(s, j, to_v(v)))
            return
        if k == "opq":
            f = OPQ_METHODS.get((o.c, "__setitem__"))
            if f:
                return f(self, o, [i, v], {})
        raise Unsupported(f"setitem {k}")
    def _widen_dict(self, o, k, v):
        if o.c[1] == ():
            o.c = ("dict", self.py_ty(k), o.c[2])
        if o.c[2] == ():
            o.c = ("dict", o.c[1], self.py_ty(v))
    def delitem(self, o, i):
        o = self.resolve(o)
        k = self.kind(o)
        if k == "dict":
            d = self.dct(o)
            kv = self.key_v(o, i)
            if not self.st.branch(dhas(d, kv)):
                self.throw(KeyError)
            self.put_dict(o, ddel(d, kv))
            return
        if k == "list":
            s = self.lst(o)
            j = self.norm_index(i, slen(s))
            self.put_list(o, self.sdel(s, j))
            return
        raise Unsupported("del item")
    def sdel(self, s, j):
        j = z3.simplify(j)
        n = slen(s)
        if z3.is_app(s) and s.decl().eq(build) and self.st.holds(j == n - 1, 500):
            return s.arg(0)
        if self.st.holds(j == n - 1, 500):
            return take(s, n - 1)
        if z3.is_int_value(j) and j.as_long() == 0:
            return drop(s, 1)
        return app(take(s, j), drop(s, j + 1))
    def sins(self, s, j, v):
        return app(build(take(s, j), v), drop(s, j))

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, fr=None):
        if isinstance(o, Sym) and o.k == "any":
            o = self.resolve(o)
        if isinstance(o, Sym) and o.k == "ref" and not isinstance(o.c, tuple):
            c = o.c
            a = inspect.getattr_static(c, name, None)
            if isinstance(a, property):
                return self.call_function(a.fget, [o], {})
            if isinstance(a, functools.cached_property):
                return self.call_function(a.func, [o], {})
            if isinstance(a, types.FunctionType):
                return BoundMethod(a, o, c)
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, classmethod):
                return BoundMethod(a.__func__, c, c)
            ft = None
            try:
                ft = field_ty(c, name)
            except Unsupported:
                if a is not None and not isinstance(a, types.MemberDescriptorType):
                    return a
                f = OPQ_METHODS.get((c, name))
                if f:
                    return ExtMethod(f, o)
                raise
            return self.from_v(self.st.sel(name, o.t), ft)
        if isinstance(o, NT):
            if name in o.cls._fields:
                return o.get(name)
            a = inspect.getattr_static(o.cls, name, None)
            if isinstance(a, types.FunctionType) and name != "_replace":
                return BoundMethod(a, o, o.cls)
            if isinstance(a, property):
                return self.call_function(a.fget, [o], {})
            return Builtin(o, name)
        if isinstance(o, ExcVal):
            if name == "args":
                return tuple(o.args)
            if name in getattr(o, "attrs", {}):
                return o.attrs[name]
            return Builtin(o, name)
        if isinstance(o, SuperProxy):
            mro = o.self_val.c.__mro__ if isinstance(o.self_val, Sym) else o.self_val.__mro__
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    a = k.__dict__[name]
                    if isinstance(a, types.FunctionType):
                        return BoundMethod(a, o.self_val, k)
                    if isinstance(a, property):
                        return self.call_function(a.fget, [o.self_val], {})
            if name == "__init__":
                return NOOP
            raise Unsupported(f"super().{name}")
        if isinstance(o, Sym):
            if o.k == "enum":
                if name == "value":
                    return self.enum_str(o) if is_strenum(o.c) else self._enum_val(o)
                if name == "name":
                    return self._enum_pick(o, [m.name for m in members(o.c)])
                if is_strenum(o.c):
                    return Builtin(self.enum_str(o), name)
            if o.k == "opq":
                f = OPQ_METHODS.get((o.c, "." + name))
                if f:
                    return f(self, o, [], None)
                f = OPQ_METHODS.get((o.c, name))
                if f:
                    return ExtMethod(f, o)
                raise Unsupported(f"attribute {o.c}.{name}")
            return Builtin(o, name)
        if isinstance(o, (tuple, str)) and not isinstance(o, enum.Enum):
            return Builtin(o, name)
        if o is None:
            self.throw(AttributeError)
        if isinstance(o, (int, float)) and not isinstance(o, enum.Enum) and not isinstance(o, bool):
            return Builtin(o, name)
        if isinstance(o, (dict, list, set, frozenset)):
            return Builtin(o, name)
        if isinstance(o, (Closure, BoundMethod)):
            raise Unsupported(f"attribute {name} of function")
        if isinstance(o, type) and not issubclass(o, enum.Enum):
            a = inspect.getattr_static(o, name, None)
            if isinstance(a, classmethod) and isinstance(a.__func__, types.FunctionType):
                return BoundMethod(a.__func__, o, o)
            if isinstance(a, staticmethod):
                return a.__func__
        try:
            return getattr(o, name)
        except AttributeError:
            self.throw(AttributeError)
    def _enum_pick(self, o, vals):
        for i, v in enumerate(vals[:-1]):
            if self.st.branch(o.t == i):
                return v
        return vals[-1]
    def _enum_val(self, o):
        return self._enum_pick(o, [m.value for m in members(o.c)])
    def setattr(self, o, name, v, fr=None):
        o = self.resolve(o)
        if isinstance(o, Sym) and o.k == "ref" and not isinstance(o.c, tuple):
            try:
                ft = field_ty(o.c, name)
                if isinstance(v, Sym) and v.k == "ref" and isinstance(v.c, tuple):
                    for a in ft:
                        if a[0] == "ref" and isinstance(a[1], tuple) and a[1][0] == v.c[0] and v.c[-1] == ():
                            self.retag(v, a[1])
            except Unsupported:
                FIELDS[(o.c, name)] = self.py_ty(v) if self.py_ty(v) != (NONE,) else (("opq", "any"),)
            if isinstance(v, (Closure, BoundMethod)):
                raise Unsupported("function stored in a field")
            self.st.put(name, o.t, to_v(v))
            return
        if isinstance(o, Sym) and o.k == "opq":
            f = OPQ_METHODS.get((o.c, name + "="))
            if f:
                return f(self, o, [v], {})
        if isinstance(o, ExcVal):
            o.attrs = {**getattr(o, "attrs", {}), name: v}
            return
        raise Unsupported(f"setattr {o!r}.{name}")

    # ---------------------------------------------------------------- isinstance
    def isinstance_(self, x, c):
        if isinstance(c, types.UnionType):
            c = typing.get_args(c)
        cs = tuple(c) if isinstance(c, tuple) else (c,)
        cs = tuple(typing.get_origin(k) or k for k in cs)
        if any(isinstance(k, tuple) for k in cs):
            cs = tuple(y for k in cs for y in (k if isinstance(k, tuple) else (k,)))
        def sub(k, *base):
            return any(issubclass(k, b) for b in base)
        if isinstance(x, Sym):
            if x.k == "any":
                out = []
                for a in x.c:
                    if a[0] == "opq" and a[1] == "any":
                        # unknown type: decide by tag
                        for k in cs:
                            if k is str:
                                out.append(V.is_str(x.t))
                            elif k is int:
                                out.append(z3.Or(V.is_int(x.t), V.is_bool(x.t)))
                            elif k is bool:
                                out.append(V.is_bool(x.t))
                            else:
                                raise Unsupported("isinstance of unknown")
                        continue
                    y = self._atom_noassume2(x.t, a)
                    if a[0] in ("tup", "vtup"):
                        r = any(k is tuple or k is object for k in cs) or (a[0] == "tup" and a[2] is not None and any(issubclass(a[2], k) for k in cs))
                    else:
                        r = self.isinstance_(y, c)
                    if isinstance(r, Sym):
                        r = r.t
                    if r is False:
                        continue
                    out.append(z3.And(atom_cond(x.t, a, x.c), self._z(r)))
                return mk_bool(z3.Or(*out)) if out else False
            base = {"int": int, "bool": bool, "str": str, "flt": float, "vtup": tuple}.get(x.k)
            if x.k == "enum":
                base = x.c
            if x.k == "ref":
                if isinstance(x.c, tuple):
                    base = {"list": list, "dict": dict, "set": set}[x.c[0]]
                else:
                    base = x.c
                    if not sub(base, *cs):
                        subs = [k for k in cs if isinstance(k, type) and issubclass(k, base)]
                        if subs:
                            return mk_bool(z3.Or(*[cls(x.t) == cls_id(k) for k in subs]))
                        return False
            if base is not None:
                return sub(base, *cs)
            if x.k == "opq":
                f = OPQ_METHODS.get((x.c, "isinstance"))
                if f:
                    return f(self, x, list(cs), {})
                raise Unsupported(f"isinstance of {x.c}")
        if isinstance(x, NT):
            return sub(x.cls, *cs)
        if isinstance(x, ExcVal):
            return sub(x.cls, *cs)
        return isinstance(x, cs)


def seq_rev_build(el):
    t = sempty
    for x in reversed(el):
        t = build(t, x)
    return t

class ExtMethod:
    def __init__(self, f, recv):
        self.f, self.recv = f, recv

NOOP = object()


class _Call:
    """calls, comprehensions, builtin functions and methods (mixed into Interp)"""
    def e_Lambda(self, e, fr):
        d = {}
        a = e.args
        for p, x in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
            d[p.arg] = self.eval(x, fr)
        return Closure(e, fr.env, fr, d)
    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v
    def e_GeneratorExp(self, e, fr):
        return GenVal(e, fr.env, fr)
    def e_ListComp(self, e, fr):
        return self.comp(e, fr.env, fr, "list")
    def e_SetComp(self, e, fr):
        return self.comp(e, fr.env, fr, "set")
    def e_DictComp(self, e, fr):
        return self.comp(e, fr.env, fr, "dict")
    def e_Starred(self, e, fr):
        raise Unsupported("starred")
    def comp(self, e, env, fr, kind):
        fr2 = Frame(fr.fname, fr.glob, Env(env), fr.cls, fr.chain)
        acc = {"list": lambda: self.new_list(sempty, ()), "set": lambda: self.new_set(z3.K(V, False), ()), "dict": lambda: self.new_dict(dempty, (), ())}[kind]()
        fr2.env.d["$acc"] = acc
        def emit():
            if kind == "list":
                self.method(acc, "append", [self.eval(e.elt, fr2)], {})
            elif kind == "set":
                self.method(acc, "add", [self.eval(e.elt, fr2)], {})
            else:
                k = self.eval(e.key, fr2)
                self.setitem(acc, k, self.eval(e.value, fr2))
        self.run_gens(e.generators, 0, emit, fr2, e)
        return acc
    def run_gens(self, gens, gi, emit, fr2, node):
        if gi == len(gens):
            emit()
            return
        g = gens[gi]
        it = self.iter_of(self.eval(g.iter, fr2))
        def one(item):
            self.assign(g.target, item, fr2)
            for c in g.ifs:
                if not self.istrue(self.eval(c, fr2)):
                    return
            self.run_gens(gens, gi + 1, emit, fr2, node)
        items = it.concrete()
        if items is not None and len(items) <= 64:
            for x in items:
                one(x)
            return
        self.cut_loop(g.target, fr2, [g.target], lambda i, it2: one(it2.item(i)), it=it)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            selfv = fr.env.find("self").d["self"]
            return SuperProxy(fr.cls, selfv)
        fn = self.eval(f, fr)
        if isinstance(fn, SuperProxy):
            raise Unsupported("super")
        args = self._elts_call(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, dict):
                    kw.update(d)
                    continue
                d = self.eval(k.value, fr)
                if not (isinstance(d, dict) and all(isinstance(x, str) for x in d)):
                    raise Unsupported("**kwargs")
                kw.update(d)
                continue
            kw[k.arg] = self.eval(k.value, fr)
        old = self.call_stack
        self.call_stack = old + [(fr.fname, e.lineno, e.col_offset)]
        self.cur_frame = fr
        try:
            return self.call(fn, args, kw, fr)
        finally:
            self.call_stack = old
    def _elts_call(self, elts, fr):
        return self._elts(elts, fr)
    def call(self, fn, args, kw, fr=None):
        if fn is NOOP:
            return None
        if isinstance(fn, ExtMethod):
            return fn.f(self, fn.recv, args, kw)
        if isinstance(fn, BoundMethod):
            return self.call_function(fn.fn, [fn.self_val] + args, kw, owner=fn.owner)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kw)
        if isinstance(fn, Builtin):
            return self.method(fn.recv, fn.name, args, kw)
        if isinstance(fn, Sym):
            if fn.k == "opq":
                f = OPQ_METHODS.get((fn.c, "__call__"))
                if f:
                    return f(self, fn, args, kw)
            raise Unsupported(f"call of {fn!r}")
        try:
            ext = EXTERNALS.get(fn)
        except TypeError:
            ext = None
        if ext is None:
            q = qual(fn) if not isinstance(fn, type) else f"{fn.__module__}.{fn.__qualname__}"
            ext = EXTERNALS.get(q)
            if ext is None and isinstance(fn, types.BuiltinMethodType) and getattr(fn, "__self__", None) is not None and not isinstance(fn.__self__, types.ModuleType):
                ext = EXTERNALS.get((type(fn.__self__), fn.__name__))
                if ext is not None:
                    ext = (lambda e2, recv: (lambda ip, a, k: e2(ip, recv, a, k)))(ext, fn.__self__)
        if ext is not None:
            self.used_models.add(qual(fn) if not isinstance(fn, type) else fn.__name__)
            return ext(self, args, kw)
        if isinstance(fn, type):
            return self.construct(fn, args, kw)
        if isinstance(fn, types.MethodType):
            if isinstance(fn.__func__, types.FunctionType):
                return self.call_function(fn.__func__, [fn.__self__] + args, kw)
        if isinstance(fn, types.FunctionType) and fn not in BUILTINS:
            return self.call_function(fn, args, kw)
        b = BUILTINS.get(fn) if self._hashable(fn) else None
        if b is not None:
            return b(self, args, kw)
        if isinstance(fn, types.BuiltinMethodType) and fn.__self__ is not None and not isinstance(fn.__self__, types.ModuleType):
            return self.method(fn.__self__, fn.__name__, args, kw)
        if isinstance(fn, types.MethodDescriptorType) and args:   # str.lower(x)
            return self.method(args[0], fn.__name__, args[1:], kw)
        raise Unsupported(f"call of {fn!r}")
    @staticmethod
    def _hashable(f):
        try:
            hash(f)
            return True
        except TypeError:
            return False
    def call_closure(self, c, args, kw):
        node = c.node
        if self.depth > 40:
            raise Unsupported("call depth (recursive closure)")
        env = Env(c.env)
        self.bind(node.args, args, dict(kw), c.defaults, env)
        fr = Frame(c.frame.fname + "." + c.__name__, c.frame.glob, env, c.frame.cls, tuple(self.call_stack))
        rec = CLOSURE_CONTRACTS.get((c.frame.fname, c.__name__))
        if rec is not None and rec.active(self, c):
            return rec.apply(self, c, env.d)
        self.depth += 1
        if any(x is node for x in self._active):
            raise Unsupported(f"recursive closure {c.__name__}")
        self._active.append(node)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            self.exec_block(node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
            self._active.pop()
    def bind(self, a, args, kw, defaults, env):
        pos = a.posonlyargs + a.args
        vals = list(args)
        for p in pos:
            if vals:
                env.d[p.arg] = vals.pop(0)
                if p.arg in kw:
                    self.throw(TypeError)
            elif p.arg in kw:
                env.d[p.arg] = kw.pop(p.arg)
            elif p.arg in defaults:
                env.d[p.arg] = defaults[p.arg]
            else:
                self.throw(TypeError, f"missing argument {p.arg}")
        if vals:
            if a.vararg is None:
                self.throw(TypeError, "too many arguments")
            env.d[a.vararg.arg] = tuple(vals)
        elif a.vararg is not None:
            env.d[a.vararg.arg] = ()
        for p in a.kwonlyargs:
            if p.arg in kw:
                env.d[p.arg] = kw.pop(p.arg)
            elif p.arg in defaults:
                env.d[p.arg] = defaults[p.arg]
            else:
                self.throw(TypeError, f"missing argument {p.arg}")
        if kw:
            if a.kwarg is None:
                self.throw(TypeError, f"unexpected arguments {sorted(kw)}")
        if a.kwarg is not None:
            env.d[a.kwarg.arg] = kw
    def call_function(self, fn, args, kw, owner=None, body=False):
        fn0 = fn
        fn = inspect.unwrap(fn)
        c = CONTRACTS.get(fn)
        if c is not None and not body and (fn is not self.top_fn or c.self_recursive) and not getattr(self, "inline_all", False):
            return c.apply(self, args, kw)
        ext = EXTERNALS.get(fn) or EXTERNALS.get(qual(fn))
        if ext is not None and not body:
            self.used_models.add(qual(fn))
            return ext(self, args, kw)
        if not body and not self.inlinable(fn):
            q = qual(fn)
            for pre, mk in MODULE_EXT.items():
                if q.startswith(pre):
                    self.used_models.add(q)
                    return mk(self, q, args, kw)
            raise Unsupported(f"call of library function {q}")
        node = func_ast(fn)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            raise Unsupported(f"generator function {qual(fn)}")
        env = Env()
        sig = inspect.signature(fn)
        defaults = {p.name: p.default for p in sig.parameters.values() if p.default is not inspect.Parameter.empty}
        self.bind(node.args, args, dict(kw), defaults, env)
        self.type_params(fn, env)
        own = owner
        if own is None or fn.__name__ not in getattr(own, "__dict__", {}):
            qn = fn.__qualname__.split(".")
            own = None
            if len(qn) >= 2 and "<locals>" not in qn:
                own = fn.__globals__.get(qn[0])
        else:
            for k in own.__mro__:
                if k.__dict__.get(fn.__name__) is not None:
                    own = k
                    break
        chain = tuple(self.call_stack) if not body else ()
        fr = Frame(qual(fn), fn.__globals__, env, own, chain)
        for k, v in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            if k == "__class__":
                fr.cls = v.cell_contents
            else:
                env.d.setdefault(k, v.cell_contents)
        if any(x is fn for x in self._active):
            raise Unsupported(f"recursive call of {qual(fn)} without a contract")
        self._active.append(fn)
        self.depth += 1
        if not body:
            self.inlined.add(qual(fn))
        try:
            self.exec_block(node.body, fr)
            return None
        except ReturnEx as r:
            rt = None
            v = r.v
            if isinstance(v, Sym) and v.k == "ref" and isinstance(v.c, tuple) and v.c[-1] == ():
                try:
                    for a in ty(hints(fn).get("return")):
                        if a[0] == "ref" and isinstance(a[1], tuple) and a[1][0] == v.c[0]:
                            self.retag(v, a[1])
                except Unsupported:
                    pass
            return v
        finally:
            self._active.pop()
            self.depth -= 1
    def type_params(self, fn, env):
        """give empty containers passed as arguments their declared element type"""
        try:
            h = hints(fn)
        except Unsupported:
            return
        for n, v in env.d.items():
            if n in h and isinstance(v, Sym) and v.k == "ref" and isinstance(v.c, tuple) and v.c[-1] == ():
                try:
                    for a in ty(h[n]):
                        if a[0] == "ref" and isinstance(a[1], tuple) and a[1][0] == v.c[0]:
                            self.retag(v, a[1])
                except Unsupported:
                    pass
    def inlinable(self, fn):
        return (getattr(fn, "__module__", "") or "").startswith(("conda_recipe_manager", "pyvc_tests"))
    def construct(self, c, args, kw):
        if c in BUILTINS:
            return BUILTINS[c](self, args, kw)
        if issubclass(c, BaseException):
            e = ExcVal(c, args)
            e.attrs = dict(kw)
            return e
        if issubclass(c, enum.Enum):
            v = self.resolve(args[0])
            if not isinstance(v, Sym):
                if isinstance(v, enum.Enum) and isinstance(v, c):
                    return v
                try:
                    return c(v)
                except ValueError:
                    self.throw(ValueError)
            if v.k == "enum" and v.c is c:
                return v
            conds = [self._z(self.eq(v, m.value)) for m in members(c)]
            if not self.st.branch(z3.Or(*conds)):
                self.throw(ValueError)
            t = z3.IntVal(len(conds) - 1)
            for i in range(len(conds) - 2, -1, -1):
                t = z3.If(conds[i], z3.IntVal(i), t)
            return Sym("enum", z3.simplify(t) if False else t, c)
        if is_nt_class(c):
            new = c.__dict__.get("__new__")
            vals = []
            kw = dict(kw)
            args = list(args)
            for f in c._fields:
                if args:
                    vals.append(args.pop(0))
                elif f in kw:
                    vals.append(kw.pop(f))
                elif f in c._field_defaults:
                    vals.append(c._field_defaults[f])
                else:
                    self.throw(TypeError)
            if args or kw:
                self.throw(TypeError)
            return NT(c, vals)
        if (c.__module__ or "").startswith(("conda_recipe_manager", "pyvc_tests")):
            if c.__new__ is not object.__new__ and isinstance(c.__dict__.get("__new__"), (staticmethod, types.FunctionType)):
                raise Unsupported(f"__new__ of {c.__name__}")
            con = CONTRACTS.get(c.__init__) if isinstance(c.__init__, types.FunctionType) else None
            o = self.new_obj(c)
            if hasattr(c, "__dataclass_fields__"):
                import dataclasses
                args = list(args)
                kw = dict(kw)
                for f in dataclasses.fields(c):
                    if args:
                        v = args.pop(0)
                    elif f.name in kw:
                        v = kw.pop(f.name)
                    elif f.default is not dataclasses.MISSING:
                        v = f.default
                    elif f.default_factory is not dataclasses.MISSING:
                        v = self.call(f.default_factory, [], {})
                    else:
                        self.throw(TypeError)
                    self.setattr(o, f.name, v)
                if hasattr(c, "__post_init__"):
                    self.call_function(c.__post_init__, [o], {})
                return o
            if isinstance(c.__init__, types.FunctionType):
                self.call_function(c.__init__, [o] + list(args), kw, owner=c)
            return o
        raise Unsupported(f"constructor {c.__module__}.{c.__qualname__}")

    # ------------------------------------------------------------ iteration
    def iter_of(self, v):
        v = self.resolve(v)
        if isinstance(v, It):
            if getattr(v, "taken", 0):
                raise Unsupported("iterate the rest of an iterator")
            return v
        if isinstance(v, GenVal):
            fr = v.fr
            l = self.comp(ast.ListComp(elt=v.node.elt, generators=v.node.generators, lineno=v.node.lineno, col_offset=v.node.col_offset), v.env, fr, "list")
            return ListIt(self, l)
        k = self.kind(v)
        if k == "list":
            return ListIt(self, v)
        if k == "tuple":
            if isinstance(v, Sym):
                return SeqIt(self, v.t, v.c)
            return ConcIt(v.vals if isinstance(v, NT) else v)
        if k == "dict":
            return SeqIt(self, dkeys(self.dct(v)), v.c[1])
        if k == "set":
            s = self.sset(v)
            cs = set_chain(s)
            if cs is not None and len(cs) == 0:
                return ConcIt([])
            return SeqIt(self, set_order(s), v.c[1])
        if k == "str":
            return ConcIt(list(v)) if isinstance(v, str) else CharIt(v.t)
        if k == "py":
            if isinstance(v, (set, frozenset)):
                return ConcIt(sorted(v, key=repr))
            if isinstance(v, (dict, list, type, range)) or hasattr(v, "__iter__"):
                return ConcIt(list(v))
        if k == "opq":
            f = OPQ_METHODS.get((v.c, "__iter__"))
            if f:
                return f(self, v, [], {})
        if k in ("none", "int", "bool"):
            self.throw(TypeError)
        raise Unsupported(f"iterate {k}")
    def to_list(self, v):
        it = self.iter_of(v)
        items = it.concrete()
        if items is not None:
            return self.new_list(seq_of(items), self.elem_join(items))
        if isinstance(it, (SeqIt,)):
            return self.new_list(it.seq(), it.elem)
        if isinstance(it, RevIt) and isinstance(it.base, SeqIt):
            return self.new_list(srev(it.base.seq()), it.base.elem)
        if isinstance(it, MapIt) and hasattr(it, "seqterm"):
            return self.new_list(it.seqterm(), it.elem)
        # element-wise definition
        s = self.st.fresh("mat", Sq)
        i = z3.Int("i")
        n = it.length()
        self.st.assume(slen(s) == n)
        save = self.st.ctx
        try:
            x = it.item(i)
        except Exception as ex:
            raise Unsupported(f"materialise iterator: {ex}")
        self.st.ctx.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), at(s, i) == to_v(x)), patterns=[at(s, i)]))
        return self.new_list(s, self.py_ty(x))
    # ------------------------------------------------------------ methods of builtin values
    def method(self, o, name, args, kw):
        o = self.resolve(o)
        k = self.kind(o)
        m = getattr(self, f"m_{k}_{name}", None)
        if m is not None:
            r = m(o, *args, **kw)
            if r is not NotImplemented:
                return r
        if k == "tuple" and isinstance(o, NT) and name == "_replace":
            vs = list(o.vals)
            for n, v in kw.items():
                vs[o.cls._fields.index(n)] = v
            return NT(o.cls, vs)
        conc = not isinstance(o, (Sym, NT)) and not any(self._symbolic(a) for a in list(args) + list(kw.values()))
        if conc and k == "str":
            try:
                return self.lift(getattr(o, name)(*args, **kw))
            except Exception as ex:
                if isinstance(ex, (ValueError, TypeError, IndexError, KeyError, AttributeError)):
                    self.throw(type(ex))
                raise
        if conc and k in ("py", "tuple", "int"):
            if isinstance(o, (dict, list, set, frozenset, tuple, int)) and name in ("get", "keys", "values", "items", "index", "count", "copy", "union", "difference", "intersection", "issubset", "issuperset", "bit_length"):
                return self.lift(getattr(o, name)(*args, **kw))
        if k == "str":
            return self.str_method(o, name, args, kw)
        raise Unsupported(f"method {k}.{name}")
    def _symbolic(self, a):
        if isinstance(a, (Sym, NT, Closure, GenVal, It)):
            return True
        if isinstance(a, (tuple, list)):
            return any(self._symbolic(x) for x in a)
        return False
    def lift(self, r):
        """a result computed by CPython: mutable lists become heap lists"""
        if isinstance(r, list):
            return self.new_list(seq_of(r), self.elem_join(r) or (STR,))
        return r
    # list
    def m_list_append(self, o, v):
        self.widen_elem(o, v)
        self.put_list(o, build(self.lst(o), to_v(v)))
    def m_list_extend(self, o, v):
        it = self.iter_of(v)
        items = it.concrete()
        if items is not None:
            for x in items:
                self.m_list_append(o, x)
            return None
        l = self.to_list(v)
        if isinstance(o.c, tuple) and o.c[1] == ():
            self.retag(o, l.c)
        self.put_list(o, self.app_(self.lst(o), self.lst(l)))
    def m_list_pop(self, o, i=None):
        s = self.lst(o)
        el = concrete_elems(s)
        i = self.resolve(i) if i is not None else -1
        if el is not None and isinstance(i, int):
            if not (-len(el) <= i < len(el)):
                self.throw(IndexError)
            x = el.pop(i)
            t = sempty
            for y in el:
                t = build(t, y)
            self.put_list(o, t)
            return self.from_v(x, self.elem_ty(o))
        n = slen(s)
        if z3.is_app(s) and s.decl().eq(build) and i == -1:
            self.put_list(o, s.arg(0))
            return self.from_v(s.arg(1), self.elem_ty(o))
        j = self.norm_index(i, n)
        x = at(s, j)
        self.put_list(o, self.sdel(s, j))
        return self.from_v(x, self.elem_ty(o))
    def m_list_insert(self, o, i, v):
        self.widen_elem(o, v)
        s = self.lst(o)
        el = concrete_elems(s)
        i = self.resolve(i)
        if el is not None and isinstance(i, int):
            el.insert(i, to_v(v))
            t = sempty
            for y in el:
                t = build(t, y)
            self.put_list(o, t)
            return None
        n = slen(s)
        t = int_t(i)
        if isinstance(i, int) and i == 0:
            j = z3.IntVal(0)
        elif self.st.holds(z3.And(0 <= t, t <= n), 600):
            j = t
        else:
            j = z3.If(t < 0, self._clip(n + t, n), self._clip(t, n))
        self.put_list(o, self.sins(s, j, to_v(v)))
    def m_list_remove(self, o, v):
        s = self.lst(o)
        if self._prim(self.elem_ty(o)):
            v = to_v(self.norm_elem(o, v))
            if not self.st.branch(self.seq_has(s, v)):
                self.throw(ValueError)
            j = self.first_index(s, v)
            self.put_list(o, self.sdel(s, j))
            return None
        raise Unsupported("list.remove of objects")
    def first_index(self, s, v):
        j = F("sfirst", Sq, V, I)(s, v)
        q = z3.Int("q")
        self.st.ctx.add(z3.And(0 <= j, j < slen(s), at(s, j) == v))
        self.st.ctx.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < j), at(s, q) != v), patterns=[at(s, q)]))
        return j
    def m_list_index(self, o, v):
        s = self.lst(o)
        if not self._prim(self.elem_ty(o)):
            raise Unsupported("list.index of objects")
        v = to_v(self.norm_elem(o, v))
        if not self.st.branch(self.seq_has(s, v)):
            self.throw(ValueError)
        return mk_int(self.first_index(s, v))
    def m_list_clear(self, o):
        self.put_list(o, sempty)
    def m_list_copy(self, o):
        return self.new_list(self.lst(o), self.elem_ty(o))
    def m_list_reverse(self, o):
        self.put_list(o, srev(self.lst(o)))
    def m_list_sort(self, o, **kw):
        s = self.lst(o)
        if kw:
            t = self.st.fresh("sorted", Sq)
            self.st.assume(z3.And(slen(t) == slen(s), selems(t) == selems(s)))
        else:
            t = sorted_of(s)
        self.put_list(o, t)
    # dict
    def m_dict_get(self, o, key, default=None):
        d = self.dct(o)
        kv = self.key_v(o, key)
        if default is None and o.c[2] == "JSON":      # None is a JSON value: no need to branch
            return self.from_v(z3.If(dhas(d, kv), dget(d, kv), V.none), o.c[2])
        if self.st.branch(dhas(d, kv)):
            return self.from_v(dget(d, kv), o.c[2])
        return default
    def m_dict_setdefault(self, o, key, default=None):
        d = self.dct(o)
        kv = self.key_v(o, key)
        if self.st.branch(dhas(d, kv)):
            return self.from_v(dget(d, kv), o.c[2])
        self.setitem(o, key, default)
        return self.from_v(to_v(default), o.c[2]) if o.c[2] != () else default
    def m_dict_pop(self, o, key, *default):
        d = self.dct(o)
        kv = self.key_v(o, key)
        if self.st.branch(dhas(d, kv)):
            x = self.from_v(dget(d, kv), o.c[2])
            self.put_dict(o, ddel(d, kv))
            return x
        if default:
            return default[0]
        self.throw(KeyError)
    def m_dict_clear(self, o):
        self.put_dict(o, dempty)
    def m_dict_copy(self, o):
        return self.new_dict(self.dct(o), o.c[1], o.c[2])
    def m_dict_keys(self, o):
        return KeysIt(self, o)
    def m_dict_values(self, o):
        d = self.dct(o)
        return MapIt(SeqIt(self, dkeys(d), o.c[1]), lambda i, k: self.from_v(dget(self.dct(o), self.key_v(o, k)), o.c[2]))
    def m_dict_items(self, o):
        d = self.dct(o)
        return MapIt(SeqIt(self, dkeys(d), o.c[1]), lambda i, k: (k, self.from_v(dget(self.dct(o), self.key_v(o, k)), o.c[2])))
    def m_dict_update(self, o, v):
        v = self.resolve(v)
        if self.kind(v) == "dict" and self.dct(o).eq(dempty):
            o.c = v.c
            self.put_dict(o, self.dct(v))
            return None
        raise Unsupported("dict.update")
    # set
    def m_set_add(self, o, v):
        self.widen_elem(o, v)
        self.put_set(o, z3.Store(self.sset(o), to_v(self.norm_elem(o, v)), True))
    def m_set_discard(self, o, v):
        self.put_set(o, z3.Store(self.sset(o), to_v(self.norm_elem(o, v)), False))
    def m_set_remove(self, o, v):
        x = to_v(self.norm_elem(o, v))
        if not self.st.branch(z3.Select(self.sset(o), x)):
            self.throw(KeyError)
        self.put_set(o, z3.Store(self.sset(o), x, False))
    def m_set_update(self, o, *vs):
        for v in vs:
            self.put_set(o, z3.SetUnion(self.sset(o), self.as_set(v)))
            if o.c[1] == ():
                o.c = ("set", self.elem_ty(self.resolve(v)))
    def m_set_copy(self, o):
        return self.new_set(self.sset(o), o.c[1])
    def m_set_clear(self, o):
        self.put_set(o, z3.K(V, False))
    def m_set_union(self, o, *vs):
        s = self.sset(o)
        for v in vs:
            s = z3.SetUnion(s, self.as_set(v))
        return self.new_set(s, o.c[1])
    def m_set_difference(self, o, *vs):
        s = self.sset(o)
        for v in vs:
            s = z3.SetDifference(s, self.as_set(v))
        return self.new_set(s, o.c[1])
    def m_set_intersection(self, o, *vs):
        s = self.sset(o)
        for v in vs:
            s = z3.SetIntersect(s, self.as_set(v))
        return self.new_set(s, o.c[1])
    def m_py_union(self, o, *vs):
        if isinstance(o, (set, frozenset)) and any(isinstance(v, Sym) for v in vs):
            return self.m_set_union(self.new_set(self.pyset(o), self.elem_join(list(o))), *vs)
        return NotImplemented
    def m_py_get(self, o, key, default=None):
        if isinstance(o, dict) and self._symbolic(key):
            for kk in o:
                if self.st.branch(self._z(self.eq(key, kk))):
                    return o[kk]
            return default
        return NotImplemented
    def as_set(self, v):
        v = self.resolve(v)
        k = self.kind(v)
        if k == "set":
            return self.sset(v)
        if isinstance(v, (set, frozenset)):
            return self.pyset(v)
        if k in ("list", "dict") or (k == "tuple"):
            return selems(self.seq_term(v))
        it = self.iter_of(v)
        c = it.concrete()
        if c is not None:
            return self.pyset(c)
        if isinstance(it, SeqIt):
            return selems(it.seq())
        return selems(self.lst(self.to_list(it)))
    # str
    def str_method(self, o, name, args, kw):
        t = S_(o)
        args = [self.resolve(a) for a in args]
        st = lambda x: x if isinstance(x, str) else Sym("str", x)
        def S2(x):
            if self.kind(x) not in ("str", "enum"):
                raise Unsupported(f"str.{name} argument {x!r}")
            return S_(self.to_str(x))
        if kw:
            raise Unsupported(f"str.{name} keywords")
        if name in ("isdigit", "isdecimal"):
            d = s_isdigit if name == "isdigit" else s_isdecimal
            c = d(t)
            ls = self._lit_cases(t)
            if ls is not None:
                return mk_bool(z3.Or(*[t == lit(v) for v in ls if getattr(v, name)()] or [z3.BoolVal(False)]))
            return Sym("bool", c)
        if name in ("lower", "upper") and not args:
            return Sym("str", (s_lower if name == "lower" else s_upper)(t))
        if name == "strip" and not args:
            return Sym("str", s_strip(t))
        if name in ("startswith", "endswith"):
            d = s_startswith if name == "startswith" else s_endswith
            if isinstance(args[0], (tuple, NT)):
                return mk_bool(z3.Or(*[d(t, S2(a)) for a in args[0]]))
            if len(args) == 1:
                if name == "endswith" and isinstance(args[0], str) and args[0]:
                    ps, a0 = str_pieces(t), args[0]
                    if ps and isinstance(ps[-1], str) and len(ps[-1]) >= len(a0):
                        return ps[-1].endswith(a0)
                    if ps and not isinstance(ps[-1], str) and z3.is_app(ps[-1]) and ps[-1].decl().eq(itoa) and not a0[-1].isdigit():
                        return False        # a number ends with a digit
                    h = cat_head(t, lit(a0))
                    cut = [s_chop(t, z3.IntVal(k)) == (h if k == len(a0) else cat(h, lit(a0[:-k]))) for k in range(1, min(len(a0), 4) + 1)]
                    self.st.ctx.add(z3.Implies(s_endswith(t, lit(a0)), z3.And(t == cat(h, lit(a0)), *cut)))
                    c = z3.Const("c!", Str)
                    for k in range(1, min(len(a0), 4)):
                        x = lit(a0[:-k])
                        self.st.ctx.add(z3.ForAll([c], cat(cat(h, x), c) == cat(h, cat(x, c)), patterns=[cat(cat(h, x), c)]))
                    if a0[0] not in a0[1:]:
                        # what follows the last separator is the last part
                        q = ssplit(t, lit(a0[0]))
                        self.st.ctx.add(z3.Implies(s_endswith(t, lit(a0)), at(q, slen(q) - 1) == V.str(lit(a0[1:]))))
                return Sym("bool", d(t, S2(args[0])))
        if name == "join":
            it = self.iter_of(args[0])
            items = it.concrete()
            if items is not None:
                ps = []
                for i, x in enumerate(items):
                    if i:
                        ps.append(t)
                    ps.append(S2(self.resolve(x)))
                r = mk_str(ps)
                return r if isinstance(r, str) else Sym("str", r)
            l = self.to_list(it)
            return Sym("str", sjoin(t, self.lst(l)))
        if name == "split" and len(args) == 1:
            s = ssplit(t, S2(args[0]))
            q = z3.Int("q")
            self.st.ctx.add(slen(s) >= 1)
            self.st.ctx.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < slen(s)), V.is_str(at(s, q))), patterns=[at(s, q)]))
            return self.new_list(s, (STR,))
        if name == "rsplit" and len(args) == 2 and isinstance(args[0], str) and args[0] and args[1] == 1:
            sep = S2(args[0])
            self.st.ctx.add(s_contains(t, sep) == (slen(ssplit(t, sep)) > 1))
            if not self.st.branch(s_contains(t, sep)):
                return self.new_list(seq_of([o]), (STR,))
            h, r = s_rhead(t, sep), s_rtail(t, sep)
            self.st.ctx.add(z3.And(t == cat(h, cat(sep, r)), z3.Not(s_contains(r, sep))))
            if len(args[0]) == 1:
                self.st.ctx.add(ssplit(t, sep) == build(ssplit(h, sep), V.str(r)))
            return self.new_list(seq_of([Sym("str", h), Sym("str", r)]), (STR,))
        if name in ("split", "splitlines") and not args:
            s = F("u_" + name, Str, Sq)(t)
            q = z3.Int("q")
            self.st.ctx.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < slen(s)), V.is_str(at(s, q))), patterns=[at(s, q)]))
            return self.new_list(s, (STR,))
        if name == "replace":
            n = int_t(args[2]) if len(args) > 2 else z3.IntVal(-1)
            return Sym("str", sreplace(t, S2(args[0]), S2(args[1]), n))
        if name in ("find", "count", "rfind") and len(args) == 1:
            r = self.ufun("str_" + name, I, o, args[0])
            self.st.ctx.add(r >= (0 if name == "count" else -1))
            if name != "count":
                self.st.ctx.add((r >= 0) == s_contains(t, S2(args[0])))
            return Sym("int", r)
        if name in ("lstrip", "rstrip", "strip", "title", "capitalize", "removeprefix", "removesuffix", "casefold", "format", "zfill"):
            return Sym("str", self.ufun("str_" + name, Str, o, *args))
        if name in ("isspace", "isalpha", "isalnum", "isupper", "islower", "isnumeric", "isidentifier"):
            return Sym("bool", self.ufun("str_" + name, B, o))
        if name == "encode":
            return Sym("opq", self.ufun("str_encode", Opq, o), "bytes")
        raise Unsupported(f"str.{name}")
    def _lit_cases(self, t):
        """string terms that are if-then-else over literals"""
        out = []
        stack = [t]
        while stack:
            x = stack.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                stack.extend([x.arg(1), x.arg(2)])
                continue
            v = lit_value(x)
            if v is None:
                return None
            out.append(v)
        return out

class KeysIt(SeqIt):
    def __init__(self, ip, ref):
        super().__init__(ip, None, ref.c[1])
        self.ref = ref
    def seq(self):
        return dkeys(self.ip.dct(self.ref))

def set_chain(s):
    out = []
    while z3.is_store(s):
        out.append((s.arg(1), s.arg(2)))
        s = s.arg(0)
    return out if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_CONST_ARRAY else None

CLOSURE_CONTRACTS: dict = {}

for _mix in (_Expr, _Call):
    for _n, _f in list(_mix.__dict__.items()):
        if not _n.startswith("__"):
            setattr(Interp, _n, _f)


# ==================================================================== builtin functions
BUILTINS: dict = {}
def _b(*fns):
    def deco(f):
        for x in fns:
            BUILTINS[x] = f
        return f
    return deco

@_b(len)
def _len(ip, a, kw):
    x = ip.resolve(a[0])
    k = ip.kind(x)
    if k in ("list", "tuple"):
        if isinstance(x, (tuple, NT)):
            return len(x.vals if isinstance(x, NT) else x)
        s = ip.seq_term(x)
        e = concrete_elems(s)
        return len(e) if e is not None else Sym("int", slen(s))
    if k == "dict":
        e = concrete_elems(dkeys(ip.dct(x)))
        return mk_int(slen(dkeys(ip.dct(x)))) if e is None else len(e)
    if k == "set":
        return mk_int(card(ip.sset(x)))
    if k == "str":
        return len(x) if isinstance(x, str) else Sym("int", strlen(x.t))
    if k == "py":
        return len(x)
    if k == "obj":
        m = inspect.getattr_static(x.c, "__len__", None)
        if m:
            return ip.call_function(m, [x], {})
    if k == "opq":
        f = OPQ_METHODS.get((x.c, "__len__"))
        if f:
            return f(ip, x, [], {})
    if k in ("none", "int", "bool"):
        ip.throw(TypeError)
    raise Unsupported(f"len of {k}")

@_b(isinstance)
def _isinstance(ip, a, kw):
    return ip.isinstance_(a[0], a[1])

@_b(issubclass)
def _issubclass(ip, a, kw):
    return issubclass(a[0], a[1])

@_b(typing.cast)
def _cast(ip, a, kw):
    v = a[1]
    if not ip.trust_casts:
        return v
    try:
        tp = ty(a[0])
    except Unsupported:
        return v
    if isinstance(v, Sym) and v.k == "any":
        if any(x == ("opq", "any") for x in tp):
            return v
        if any(x == ("opq", "any") for x in v.c):
            return Sym("any", v.t, tp) if len(tp) > 1 else ip.from_v(v.t, tp)
        # a cast narrows: keep only the atoms that can be of the target kinds (casts are trusted)
        keep = tuple(x for x in tp)
        return Sym("any", v.t, keep) if len(keep) > 1 else ip.from_v(v.t, keep)
    if isinstance(v, Sym) and v.k == "ref" and isinstance(v.c, tuple):
        for x in tp:
            if x[0] == "ref" and isinstance(x[1], tuple) and x[1][0] == v.c[0]:
                return Sym("ref", v.t, x[1])
    return v

@_b(bool)
def _bool(ip, a, kw):
    return mk_bool(ip.truth(a[0])) if a else False

@_b(int)
def _int(ip, a, kw):
    x = ip.resolve(a[0]) if a else 0
    k = ip.kind(x)
    if k in ("int", "bool"):
        return mk_int(int_t(x))
    if k == "str":
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                ip.throw(ValueError)
        if not ip.st.branch(s_isint(x.t)):
            ip.throw(ValueError)
        return Sym("int", atoi(x.t))
    if k == "none":
        ip.throw(TypeError)
    if k == "flt":
        return Sym("int", F("ftoi", Flt, I)(x.t))
    if k in ("list", "dict"):
        ip.throw(TypeError)
    raise Unsupported(f"int({k})")

@_b(str)
def _str(ip, a, kw):
    return ip.to_str(a[0]) if a else ""

@_b(float)
def _float(ip, a, kw):
    x = ip.resolve(a[0])
    if not isinstance(x, Sym):
        return float(x)
    return Sym("flt", ip.ufun("float", Flt, x))

@_b(list)
def _list(ip, a, kw):
    return ip.to_list(a[0]) if a else ip.new_list(sempty, ())

def _lazy(src):
    """filter and map as the generator expressions they stand for"""
    def f(ip, a, kw):
        if kw or len(a) != 2:
            raise Unsupported("filter/map arguments")
        fr = Frame(ip.cur_frame.fname, ip.cur_frame.glob, Env(ip.cur_frame.env), ip.cur_frame.cls, ip.cur_frame.chain)
        fr.env.d["$f"], fr.env.d["$it"] = a[0], a[1]
        text = "(q for q in i if q)" if src == "filter" and a[0] is None else {"filter": "(q for q in i if f(q))", "map": "(f(q) for q in i)"}[src]
        node = ast.parse(text, mode="eval").body
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                n.id = {"q": "$q", "i": "$it", "f": "$f"}[n.id]
            if hasattr(n, "lineno"):
                n.lineno, n.col_offset = ip.call_stack[-1][1:]
        return GenVal(node, fr.env, fr)
    return f
BUILTINS[filter] = _lazy("filter")
BUILTINS[map] = _lazy("map")

@_b(tuple)
def _tuple(ip, a, kw):
    if not a:
        return ()
    it = ip.iter_of(a[0])
    c = it.concrete()
    if c is not None:
        return tuple(c)
    l = ip.to_list(it)
    return Sym("vtup", ip.lst(l), l.c[1])

@_b(set, frozenset)
def _set(ip, a, kw):
    if not a:
        return ip.new_set(z3.K(V, False), ())
    v = ip.resolve(a[0]) if isinstance(a[0], Sym) else a[0]
    if isinstance(v, GenVal):
        l = ip.comp(ast.SetComp(elt=v.node.elt, generators=v.node.generators, lineno=v.node.lineno, col_offset=v.node.col_offset), v.env, v.fr, "set")
        return l
    et = ip.elem_ty(v) if isinstance(v, Sym) and v.k in ("ref", "vtup") else None
    if et is None:
        it = ip.iter_of(v)
        c = it.concrete()
        et = ip.elem_join(c) if c is not None else getattr(it, "elem", (("opq", "any"),))
        v = it
    return ip.new_set(ip.as_set(v), et)

@_b(dict)
def _dict(ip, a, kw):
    if kw:
        raise Unsupported("dict(**kw)")
    if not a:
        return ip.new_dict(dempty, (), ())
    v = ip.resolve(a[0])
    if ip.kind(v) == "dict":
        return ip.new_dict(ip.dct(v), v.c[1], v.c[2])
    raise Unsupported("dict(...)")

@_b(range)
def _range(ip, a, kw):
    a = [ip.resolve(x) for x in a]
    if len(a) == 1:
        return RangeIt(0, a[0], 1)
    if len(a) == 2:
        return RangeIt(a[0], a[1], 1)
    if isinstance(a[2], int):
        return RangeIt(*a)
    raise Unsupported("range step")

@_b(enumerate)
def _enumerate(ip, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    return MapIt(ip.iter_of(a[0]), lambda i, x: (mk_int(i + int_t(start)), x))

@_b(zip)
def _zip(ip, a, kw):
    return ZipIt([ip.iter_of(x) for x in a])

@_b(reversed)
def _reversed(ip, a, kw):
    return RevIt(ip.iter_of(a[0]))

@_b(iter)
def _iter(ip, a, kw):
    return ip.iter_of(a[0])

@_b(next)
def _next(ip, a, kw):
    it = ip.iter_of(a[0]) if isinstance(a[0], GenVal) else a[0]
    if not isinstance(it, It):
        raise Unsupported("next")
    n = getattr(it, "taken", 0)
    if not ip.st.branch(it.length() > n):
        if len(a) > 1:
            return a[1]
        ip.throw(StopIteration)
    it.taken = n + 1
    return it.item(z3.IntVal(n))

def _anyall(want):
    def f(ip, a, kw):
        v = a[0]
        if isinstance(v, GenVal):
            fr2 = Frame(v.fr.fname, v.fr.glob, Env(v.env), v.fr.cls, v.fr.chain)
            def emit():
                t = ip.istrue(ip.eval(v.node.elt, fr2))
                if t == want:
                    raise BreakEx()
            # nested loops: a break leaves all of them
            try:
                r = _run_break(ip, v, emit, fr2)
            except BreakEx:
                return want
            return (not want) if not r else want
        it = ip.iter_of(v)
        c = it.concrete()
        if c is None:
            raise Unsupported("any/all over symbolic list")
        for x in c:
            if ip.istrue(x) == want:
                return want
        return not want
    return f
def _run_break(ip, v, emit, fr2):
    """runs a generator expression's loops; True if `emit` broke out"""
    hit = []
    def em():
        try:
            emit()
        except BreakEx:
            hit.append(1)
            raise
    ip.run_gens(v.node.generators, 0, em, fr2, v.node)
    if hit and len(v.node.generators) > 1:
        raise Unsupported("any/all over nested loops")
    return bool(hit)
BUILTINS[any] = _anyall(True)
BUILTINS[all] = _anyall(False)

@_b(sum)
def _sum(ip, a, kw):
    it = ip.iter_of(a[0])
    c = it.concrete()
    if c is None:
        if isinstance(it, MapIt) or isinstance(it, SeqIt):
            l = ip.to_list(it)
            return Sym("int", ssum(ip.lst(l), slen(ip.lst(l))))
        raise Unsupported("sum")
    t = z3.IntVal(0)
    for x in c:
        t = t + int_t(ip.resolve(x))
    return mk_int(t)

ssum = RecFn("ssum", [Sq, I], I, lambda s, n: z3.If(n <= 0, z3.IntVal(0), ssum(s, n - 1) + V.vi(at(s, n - 1))))

@_b(min, max)
def _minmax(ip, a, kw):
    raise Unsupported("min/max")
def _mk_minmax(ismax):
    def f(ip, a, kw):
        if kw:
            raise Unsupported("min/max key")
        if len(a) == 1:
            a = ip.iter_of(a[0]).concrete()
            if not a:
                raise Unsupported("min/max of symbolic")
        t = int_t(ip.resolve(a[0]))
        for x in a[1:]:
            y = int_t(ip.resolve(x))
            t = z3.If((y > t) if ismax else (y < t), y, t)
        return mk_int(t)
    return f
BUILTINS[min] = _mk_minmax(False)
BUILTINS[max] = _mk_minmax(True)

@_b(sorted)
def _sorted(ip, a, kw):
    l = ip.to_list(a[0])
    s = ip.lst(l)
    c = concrete_elems(s)
    if c is not None and len(c) <= 1:
        return l
    if kw:
        t = ip.st.fresh("sorted", Sq)
        ip.st.assume(z3.And(slen(t) == slen(s), selems(t) == selems(s)))
    else:
        t = sorted_of(s)
    return ip.new_list(t, ip.elem_ty(l))

@_b(abs)
def _abs(ip, a, kw):
    t = int_t(ip.resolve(a[0]))
    return mk_int(z3.If(t < 0, -t, t))

@_b(print)
def _print(ip, a, kw):
    return None

@_b(type)
def _type(ip, a, kw):
    x = ip.resolve(a[0])
    if isinstance(x, Sym) and x.k == "ref" and not isinstance(x.c, tuple):
        return x.c
    if isinstance(x, ExcVal):
        return x.cls
    if isinstance(x, Sym):
        b = {"int": int, "bool": bool, "str": str, "flt": float}.get(x.k)
        if x.k == "ref" and isinstance(x.c, tuple) and x.c[0] in ("list", "dict", "set"):
            b = {"list": list, "dict": dict, "set": set}[x.c[0]]
        if b:
            return b
        raise Unsupported("type()")
    return type(x)

@_b(repr)
def _repr(ip, a, kw):
    if isinstance(a[0], (Sym, NT, tuple)):
        return Sym("str", ip.ufun("repr", Str, a[0]))
    return repr(a[0])

@_b(round)
def _round(ip, a, kw):
    return Sym("flt" if len(a) > 1 else "int", ip.ufun("round", Flt if len(a) > 1 else I, *a))

@_b(hasattr)
def _hasattr(ip, a, kw):
    raise Unsupported("hasattr")

@_b(callable)
def _callable(ip, a, kw):
    return isinstance(a[0], (Closure, BoundMethod)) or callable(a[0])

@_b(getattr)
def _getattr(ip, a, kw):
    if isinstance(a[1], str):
        return ip.getattr(a[0], a[1])
    raise Unsupported("getattr")

def _fromkeys(ip, a, kw):
    it = ip.iter_of(a[0])
    v = a[1] if len(a) > 1 else None
    c = it.concrete()
    if c is not None:
        d = dempty
        for x in c:
            d = dset(d, to_v(x), to_v(v))
        return ip.new_dict(d, ip.elem_join(c), ip.py_ty(v))
    if isinstance(it, SeqIt):
        return ip.new_dict(dfromkeys(it.seq(), to_v(v), slen(it.seq())), it.elem, ip.py_ty(v))
    raise Unsupported("fromkeys")
dfromkeys = RecFn("dfromkeys", [Sq, V, I], Dc, lambda s, v, n: z3.If(n <= 0, dempty, dset(dfromkeys(s, v, n - 1), at(s, n - 1), v)))
Interp.m_py_fromkeys = lambda self, o, *a: _fromkeys(self, list(a), {}) if o is dict else NotImplemented
EXTERNALS["builtins.dict.fromkeys"] = _fromkeys
_DFK = dict.fromkeys
Interp._active = None
_oi = Interp.__init__
def _init(self, st):
    _oi(self, st)
    self._active = []
    self.cur_frame = None
Interp.__init__ = _init
