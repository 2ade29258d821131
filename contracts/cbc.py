"""Build configuration files (parser/cbc_parser.py)."""
from . import env, models, tree, selectors
from .world import *
from pyvc import interp as IT
from conda_recipe_manager.types import Primitives, SentinelType, JsonType
from conda_recipe_manager.parser.platform_types import Platform
from conda_recipe_manager.parser import cbc_parser as CB
from conda_recipe_manager.parser.cbc_parser import CbcParser
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.selector_parser import SelectorParser
from conda_recipe_manager.parser.selector_query import SelectorQuery

CM = "conda_recipe_manager.parser.cbc_parser:CbcParser."
RR = "conda_recipe_manager.parser.recipe_reader:RecipeReader."
SP = "conda_recipe_manager.parser.selector_parser:SelectorParser."
PROPS = ("C11",)
FIELDS.update({(CbcParser, "_cbc_vars_tbl"): ty(dict[str, list[CB._CBCEntry]])})
_q = z3.Const("q", V)
_i, _j = z3.Ints("i j")
# ---- when a selector applies: the platforms it selects are those of C01 (trusted here)
sel_set = F("sel_platforms", V, z3.ArraySort(V, B))
Contract(SP + "get_selected_platforms", trusted=True, props=PROPS, params={"self": SelectorParser}, fresh=True, ensures=lambda s: [("the platforms of the selector", s.set(s.result) == sel_set(to_v(s.self)))])
def platform(s, q):
    return at(tseq(V.vt(to_v(q))), 0)
def applies(s, sel):
    p = platform(s, s.query)
    return z3.Or(p == V.none, z3.Select(sel_set(sel), p))
Contract(SP + "does_selector_apply", props=PROPS, params={"self": SelectorParser},
    ensures=lambda s: [("applies to its platforms and if no platform is asked for", s.truth(s.result) == applies(s.old, to_v(s.self)))])
# ---- look-ups
def table(s):
    return s.ip.st.sel("#dict", V.vr(s.fv(s.self, "_cbc_vars_tbl")), s.arr("#dict"))
def entries(s, name):
    return s.ip.st.sel("#list", V.vr(dget(table(s), name)), s.arr("#list"))
def comp(e, n):
    return at(tseq(V.vt(e)), n)
value, selector = (lambda e: comp(e, 0)), (lambda e: comp(e, 1))
def can(s, e):
    return z3.Or(selector(e) == V.none, applies(s, selector(e)))
def inv(s):
    yield "every variable has entries", z3.ForAll([_q], z3.Implies(dhas(table(s), _q), z3.And(V.is_ref(dget(table(s), _q)), slen(entries(s, _q)) > 0)), patterns=[dget(table(s), _q)])
Contract(CM + "__contains__", params={"self": CbcParser}, props=PROPS,
    ensures=lambda s: [("the variables are the keys of the table", s.truth(s.result) == z3.And(V.is_str(to_v(s.key)), dhas(table(s.old), to_v(s.key))))])
Contract(CM + "list_cbc_variables", params={"self": CbcParser}, props=PROPS, fresh=True,
    ensures=lambda s: [("lists the variables that can be looked up", s.seq(s.result) == dkeys(table(s.old)))])
SENT = to_v(RecipeReader._sentinel)
def none_before(s, l, i):
    return z3.ForAll([_j], z3.Implies(z3.And(0 <= _j, _j < i), z3.Not(can(s, at(l, _j)))), patterns=[at(l, _j)])
def nothing(s):
    l = entries(s, to_v(s.variable))
    return none_before(s, l, slen(l))
def _get(s):
    o = s.old
    t, k = table(o), to_v(s.variable)
    l = entries(o, k)
    i = s.ip.st.fresh("i", I)
    first = z3.And(dhas(t, k), 0 <= i, i < slen(l), can(o, at(l, i)), none_before(o, l, i))
    yield "the first value that applies", z3.Implies(first, to_v(s.result) == value(at(l, i)))
    yield "the default if none applies", z3.Implies(z3.And(dhas(t, k), nothing(o)), to_v(s.result) == to_v(s.default))
    yield "the default if there is no such variable", z3.Implies(z3.Not(dhas(t, k)), to_v(s.result) == to_v(s.default))
def _gett(L):
    yield "none applies so far", none_before(L.fn, entries(L.fn, to_v(L.fn.args["variable"])), L.i)
Contract(CM + "get_cbc_variable_value", params={"self": CbcParser}, props=PROPS, requires=inv, ensures=_get, templates=[("first", _gett)],
    raises={KeyError: lambda s: z3.And(z3.Not(dhas(table(s.old), to_v(s.variable))), to_v(s.default) == SENT),
            ValueError: lambda s: z3.And(dhas(table(s.old), to_v(s.variable)), nothing(s.old), to_v(s.default) == SENT)})

# ---- reading a file: the document and where it has selectors are the recipe reader's (C02, C06; trusted here)
DOC = [("doc", V), ("doc_lists", z3.ArraySort(I, Sq)), ("doc_dicts", z3.ArraySort(I, Dc))]
DICT_ATOM, LIST_ATOM = (next(a for a in VL.json_ty() if a[0] == "ref" and a[1][0] == k) for k in ("dict", "list"))
isl, isd = (lambda v: VL.atom_cond(v, LIST_ATOM, VL.json_ty())), (lambda v: VL.atom_cond(v, DICT_ATOM, VL.json_ty()))
Contract(RR + "__init__", trusted=True, props=PROPS, params={"self": CbcParser}, modifies=lambda s: [], raises={Exception: lambda s: True})
class Doc:
    """the parsed document"""
    def __init__(self, g):
        self.v, self.lists = g["doc"], g["doc_lists"]
        self.d = z3.Select(g["doc_dicts"], V.vr(self.v))
        self.isd = isd(self.v)
    def val(self, q):
        return dget(self.d, q)
    def lst(self, q):
        return z3.Select(self.lists, V.vr(self.val(q)))
    def is_var(self, q):
        return z3.And(self.isd, dhas(self.d, q), isl(self.val(q)), q != to_v("zip_keys"), slen(self.lst(q)) > 0)
def _root(s):
    g, v, q = s.ghost, to_v(s.result), _q
    d = Doc(g)
    yield "the document", z3.And(g["doc"] == v, g["doc_lists"] == s.arr("#list"), g["doc_dicts"] == s.arr("#dict"))
    yield "made for the caller", z3.And(z3.Implies(V.is_ref(v), z3.And(V.vr(v) >= s.old.alloc, V.vr(v) < s.ip.st.alloc_now())), z3.ForAll([q], z3.Implies(z3.And(d.isd, dhas(d.d, q), V.is_ref(d.val(q))), z3.And(V.vr(d.val(q)) >= s.old.alloc, V.vr(d.val(q)) < s.ip.st.alloc_now())), patterns=[d.val(q)]))
Contract(RR + "get_value", trusted=True, props=PROPS, params={"self": CbcParser}, ghosts=DOC, modifies=lambda s: [("ghost:" + g, None) for g, _ in DOC], ensures=_root, raises={Exception: lambda s: True})
has_sel, sel_at, sel_text = F("has_selector", V, B), F("selector_at", V, V), F("selector_text", V, V)
Contract(RR + "get_selector_at_path", trusted=True, props=PROPS, params={"self": CbcParser}, modifies=lambda s: [],
    raises={KeyError: lambda s: z3.And(z3.Not(has_sel(to_v(s.path))), to_v(s.default) == SENT)},
    ensures=lambda s: [("the selector there, or the default", to_v(s.result) == z3.If(has_sel(to_v(s.path)), sel_at(to_v(s.path)), to_v(s.default)))])
Contract(SP + "__init__", trusted=True, props=PROPS, params={"self": SelectorParser}, modifies=lambda s: [], ensures=lambda s: [("parses its text", sel_text(to_v(s.self)) == to_v(s.content))])
def where(q, j):
    return V.str(cat(lit("/"), cat(V.vs(q), cat(lit("/"), L.itoa(j)))))
def entry_ok(e, d, q, j):
    """the j-th entry of variable q"""
    p = where(q, j)
    yield "the value", value(e) == at(d.lst(q), j)
    yield "no selector", z3.Implies(z3.Not(has_sel(p)), selector(e) == V.none)
    yield "its selector", z3.Implies(has_sel(p), z3.And(V.is_ref(selector(e)), sel_text(selector(e)) == sel_at(p)))
def _init(s):
    d = Doc(s.ghost)
    q, j = s.ip.st.fresh("q", V), s.ip.st.fresh("j", I)
    there = z3.And(d.is_var(q), 0 <= j, j < slen(d.lst(q)))
    yield "the variables are the keys that hold values", dhas(table(s), q) == d.is_var(q)
    yield "as many entries as values", z3.Implies(d.is_var(q), slen(entries(s, q)) == slen(d.lst(q)))
    for n, f in entry_ok(at(entries(s, q), j), d, q, j):
        yield n + " of every entry", z3.Implies(there, f)
    yield from inv(s)
class _At:
    def __init__(self, s, me):
        self.ip, self.arr, self.fv, self.self = s.ip, s.arr, s.fv, me
def _initt(L_):
    d = Doc(L_.ghost)
    s = _At(L_.now, L_.fn.args["self"])
    t = table(s)
    q = _q
    i, j = (L_.outer[0], L_.i) if L_.outer else (L_.i, z3.IntVal(0))
    k = L.kidx(d.d, q)
    n = z3.If(z3.And(z3.Not(d.is_var(q))), 0, z3.If(k < i, slen(d.lst(q)), z3.If(k == i, j, 0)))
    a0 = L_.fn.alloc
    yield "the document stays", z3.Select(s.arr("#dict"), V.vr(d.v)) == d.d
    yield "its lists stay", z3.ForAll([q], z3.Implies(z3.And(d.isd, dhas(d.d, q), isl(d.val(q))), z3.Select(s.arr("#list"), V.vr(d.val(q))) == d.lst(q)), patterns=[d.val(q)])
    yield "variables so far", z3.ForAll([q], dhas(t, q) == (n > 0), patterns=[dhas(t, q)])
    yield "entries so far", z3.ForAll([q], z3.Implies(dhas(t, q), slen(entries(s, q)) == n), patterns=[dhas(t, q), dget(t, q)])
    yield "new lists", z3.ForAll([q], z3.Implies(dhas(t, q), z3.And(V.is_ref(dget(t, q)), V.vr(dget(t, q)) >= a0, V.vr(dget(t, q)) < L_.now.ip.st.alloc_now(), z3.ForAll([_p], z3.Implies(z3.And(d.isd, dhas(d.d, _p), isl(d.val(_p))), V.vr(dget(t, q)) != V.vr(d.val(_p))), patterns=[d.val(_p)]))), patterns=[dhas(t, q), dget(t, q)])
    yield "separate lists", z3.ForAll([q, _p], z3.Implies(z3.And(dhas(t, q), dhas(t, _p), q != _p), V.vr(dget(t, q)) != V.vr(dget(t, _p))), patterns=[MP(dget(t, q), dget(t, _p))])
    for nm, f in entry_ok(at(entries(s, q), _j), d, q, _j):
        yield nm + " so far", z3.ForAll([q, _j], z3.Implies(z3.And(dhas(t, q), 0 <= _j, _j < n), f), patterns=[at(entries(s, q), _j)])
_p = z3.Const("p", V)
def no_casts(ip, args):
    ip.trust_casts = False      # what a file holds can be of any shape
Contract(CM + "__init__", params={"self": CbcParser}, props=PROPS, setup=no_casts, ghosts=DOC, ensures=_init, templates=[("table so far", _initt)],
    modifies=lambda s: [("_cbc_vars_tbl", s.self)] + [("ghost:" + g, None) for g, _ in DOC], raises={Exception: lambda s: True})
