"""
Values of the symbolic interpreter and their embedding in the logic, plus type descriptors taken from Python annotations.

A value is a concrete Python object (None, bool, int, str, float, enum member, class, function, tuple of values, module
constant) or a `Sym`, `NT` (named tuple instance) or `Closure`.
"""
from __future__ import annotations
import enum, types, typing
from typing import Any, Union, get_args, get_origin
import z3
from .logic import *
from . import logic as L


class Unsupported(Exception):
    """A construct the verifier does not model: the function falls back to its bounded check."""


class Sym:
    __slots__ = ("k", "t", "c")
    def __init__(self, k, t, c=None):
        self.k, self.t, self.c = k, t, c
    def __repr__(self):
        return f"<{self.k}:{self.t}{':' + str(self.c) if self.c is not None else ''}>"


class NT:
    """Instance of a NamedTuple class."""
    __slots__ = ("cls", "vals")
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, list(vals)
    def __repr__(self):
        return f"{self.cls.__name__}({self.vals})"
    def get(self, n):
        return self.vals[self.cls._fields.index(n)]


class Unbound:
    pass
UNBOUND = Unbound()

def is_nt_class(c):
    return isinstance(c, type) and issubclass(c, tuple) and hasattr(c, "_fields")

# ---------------------------------------------------------------- enum / object identities in the logic
_ENUMS: list = []
def enum_id(c):
    for i, e in enumerate(_ENUMS):
        if e is c:
            return i
    _ENUMS.append(c)
    return len(_ENUMS) - 1
def members(c):
    return list(c)
def member_index(m):
    return members(type(m)).index(m)

_CLSIDS: list = []
def cls_id(c):
    for i, e in enumerate(_CLSIDS):
        if e is c or e == c:
            return i
    _CLSIDS.append(c)
    return len(_CLSIDS) - 1

_OBJS: list = []
def obj_term(o):
    """Opq constant for an arbitrary concrete Python object (identified by identity)."""
    for i, (p, t) in enumerate(_OBJS):
        if p is o:
            return t
    t = z3.Const(f"O!{len(_OBJS)}", Opq)
    _OBJS.append((o, t))
    return t
def obj_of_term(t):
    if z3.is_const(t) and t.decl().name().startswith("O!"):
        return _OBJS[int(t.decl().name()[2:])][0]
    raise KeyError
def obj_facts():
    return [L.opqid(t) == i for i, (_, t) in enumerate(_OBJS)]
_FLTS: dict = {}
def flt_term(f):
    k = repr(f)
    if k not in _FLTS:
        _FLTS[k] = z3.Const(f"FL!{k}", Flt)
    return _FLTS[k]

# ---------------------------------------------------------------- type descriptors
# a Ty is a tuple of atoms: ('none',) ('bool',) ('int',) ('flt',) ('str',) ('enum', cls) ('ref', alias) ('vtup', Ty)
# ('tup', (Ty,...), cls|None) ('opq', label);  alias: a class, or ('list', Ty) ('dict', K, V) ('set', T)
NONE, BOOL, INT, FLT, STR = ("none",), ("bool",), ("int",), ("flt",), ("str",)
JSON_TY: tuple = ()
class _Json:
    """marker used for recursive json types"""
def json_ty():
    return (NONE, BOOL, INT, FLT, STR, ("ref", ("list", "JSON")), ("ref", ("dict", (STR,), "JSON")))

TY_HOOKS: list = []   # functions tp -> Ty | None, tried first (project-specific types)
OPAQUE_CLASSES: dict = {}   # python class -> label

def ty(tp) -> tuple:
    if isinstance(tp, tuple) and (not tp or isinstance(tp[0], tuple)):
        return tp
    if tp == "JSON":
        return json_ty()
    for h in TY_HOOKS:
        r = h(tp)
        if r is not None:
            return r
    if tp is None or tp is type(None):
        return (NONE,)
    if tp is bool:
        return (BOOL,)
    if tp is int:
        return (INT,)
    if tp is float:
        return (FLT,)
    if tp is str:
        return (STR,)
    if tp is Any or tp is object:
        return (("opq", "any"),)
    if isinstance(tp, typing.TypeVar):
        return (("opq", "any"),)
    o = get_origin(tp)
    if o is Union or o is types.UnionType:
        out: list = []
        for a in get_args(tp):
            for x in ty(a):
                if x not in out:
                    out.append(x)
        return tuple(out)
    if o is typing.Final or o is typing.ClassVar or o is typing.Annotated:
        return ty(get_args(tp)[0])
    if tp is list or tp is dict or tp is set:
        return (("ref", {list: ("list", "JSON"), dict: ("dict", (STR,), "JSON"), set: ("set", (("opq", "any"),))}[tp]),)
    if o is list:
        return (("ref", ("list", ty(get_args(tp)[0]))),)
    if o is set or o is frozenset:
        return (("ref", ("set", ty(get_args(tp)[0]))),)
    if o is dict:
        k, v = get_args(tp)
        return (("ref", ("dict", ty(k), ty(v))),)
    if o is tuple:
        a = get_args(tp)
        if len(a) == 2 and a[1] is Ellipsis:
            return (("vtup", ty(a[0])),)
        return (("tup", tuple(ty(x) for x in a), None),)
    if o is type:
        return (("opq", "class"),)
    if o is not None:
        return (("opq", getattr(o, "__name__", str(o))),)
    if isinstance(tp, type):
        if tp in OPAQUE_CLASSES:
            return (("opq", OPAQUE_CLASSES[tp]),)
        if issubclass(tp, enum.Enum):
            return (("enum", tp),)
        if is_nt_class(tp):
            h = typing.get_type_hints(tp)
            return (("tup", tuple(ty(h[f]) for f in tp._fields), tp),)
        if issubclass(tp, BaseException):
            return (("opq", "exc"),)
        return (("ref", tp),)
    if isinstance(tp, typing.ForwardRef) or isinstance(tp, str):
        n = tp if isinstance(tp, str) else tp.__forward_arg__
        if n in ("JsonType", "SchemaDetails"):
            return json_ty()
        raise Unsupported(f"unresolved annotation {n}")
    raise Unsupported(f"type {tp!r}")

def is_strenum(c):
    return isinstance(c, type) and issubclass(c, enum.Enum) and issubclass(c, str)

def join_ty(a, b):
    return tuple(list(a) + [x for x in b if x not in a])

# ---------------------------------------------------------------- embedding
def to_v(x):
    if x is None:
        return V.none
    if isinstance(x, Sym):
        k, t = x.k, x.t
        if k == "any":
            return t
        if k == "bool":
            return V.bool(t)
        if k == "int":
            return V.int(t)
        if k == "str":
            return V.str(t)
        if k == "flt":
            return V.flt(t)
        if k == "enum":
            return V.enum(z3.IntVal(enum_id(x.c)), t)
        if k == "ref":
            return V.ref(t)
        if k == "vtup":
            return V.tup(mktup(t))
        if k == "opq":
            return V.opq(t)
        raise Unsupported(f"to_v {k}")
    if isinstance(x, enum.Enum):
        return V.enum(z3.IntVal(enum_id(type(x))), z3.IntVal(member_index(x)))
    if isinstance(x, bool):
        return V.bool(z3.BoolVal(x))
    if isinstance(x, int):
        return V.int(z3.IntVal(x))
    if isinstance(x, str):
        return V.str(lit(x))
    if isinstance(x, float):
        return V.flt(flt_term(x))
    if isinstance(x, (tuple, NT)):
        return V.tup(mktup(seq_of(x.vals if isinstance(x, NT) else x)))
    if x is UNBOUND:
        raise Unsupported("possibly unbound variable")
    return V.opq(obj_term(x))

def seq_of(vals):
    s = sempty
    for v in vals:
        s = build(s, to_v(v))
    return s

def concrete_elems(t):
    """list of V terms if t is a build-chain on sempty, else None"""
    out = []
    while z3.is_app(t) and t.decl().eq(build):
        out.append(t.arg(1))
        t = t.arg(0)
    if t.eq(sempty):
        return out[::-1]
    return None

def sstr(t):
    """z3 Str term -> interpreter value"""
    v = lit_value(t)
    return v if v is not None else Sym("str", t)
def S_(x):
    """interpreter string value -> Str term"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, enum.Enum):
        return lit(x.value)
    return lit(x)
def int_t(x):
    if isinstance(x, Sym):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0)) if x.k == "bool" else x.t
    return z3.IntVal(int(x))
def mk_int(t):
    t = z3.simplify(t) if not z3.is_int_value(t) else t
    return t.as_long() if z3.is_int_value(t) else Sym("int", t)
def mk_bool(t):
    if isinstance(t, bool):
        return t
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return Sym("bool", t)
def bool_t(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, Sym) and x.k == "bool":
        return x.t
    if z3.is_expr(x):
        return x
    raise Unsupported("bool_t")

_PROJ = {"bool": V.vb, "int": V.vi, "flt": V.vf, "str": V.vs, "ref": V.vr, "opq": V.vo}
_TAG = {"none": V.is_none, "bool": V.is_bool, "int": V.is_int, "flt": V.is_flt, "str": V.is_str, "ref": V.is_ref, "opq": V.is_opq, "enum": V.is_enum, "tup": V.is_tup, "vtup": V.is_tup}

def atom_cond(t, atom, ctx_atoms=()):
    """formula: V term t belongs to the atom"""
    k = atom[0]
    if k == "enum":
        return z3.And(V.is_enum(t), V.ec(t) == enum_id(atom[1]), 0 <= V.ek(t), V.ek(t) < len(members(atom[1])))
    if k == "ref":
        c = V.is_ref(t)
        if sum(1 for a in ctx_atoms if a[0] == "ref") > 1:
            c = z3.And(c, cls(V.vr(t)) == cls_id(_alias_key(atom[1])))
        return c
    if k == "tup":
        n = len(atom[1])
        c = z3.And(V.is_tup(t), slen(tseq(V.vt(t))) == n)
        return c
    if k == "opq" and atom[1] == "any":
        return z3.BoolVal(True)
    if k == "const":
        return t == to_v(atom[1])
    return _TAG[k](t)

def _alias_key(a):
    return a[0] if isinstance(a, tuple) else a

def proj(t, name):
    """projection with syntactic simplification"""
    if z3.is_app(t) and t.decl().name() == name and t.num_args() >= 1 and t.sort() == V:
        return t.arg(0)
    return _PROJ[name](t)
