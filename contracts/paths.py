"""Paths as text and queries by path (parser/recipe_reader.py, parser/_utils.py)."""
from . import env, models, tree, patchops
from .patchops import *
from .tree import _s, _p, _i, _j, _vs
from .world import opq
import yaml
from pyvc import logic as L
from conda_recipe_manager.types import JsonType
from conda_recipe_manager.parser import _utils as PU
from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.types import MultilineVariant
RR = PM + "recipe_reader:RecipeReader."
PC = ("C02",)
PQ = ("C02", "C07")
MR = {"self": RecipeReader}
NONE_ML = to_v(MultilineVariant.NONE)
cat_ = lambda *xs: (lambda r: S_(r) if isinstance(r, str) else r)(L.mk_str(list(xs)))
# ------------------------------------------------------------------ paths as text
def _join(s):
    b, e, r = S_(s.base_path), S_(s.ext_path), S_(s.result)
    has = z3.And(b != lit(""), L.char_at(b, strlen(b) - 1) == lit("/"))
    cut = z3.And(e != lit(""), L.char_at(e, z3.IntVal(0)) == lit("/"))
    rest = L.substr(e, z3.IntVal(1), strlen(e))
    for nb, cb, tb in (("from the root", b == lit(""), "/"), ("base ends in a slash", z3.And(b != lit(""), has), b), ("base has no slash", z3.And(b != lit(""), z3.Not(has)), None)):
        for ne, ce, te in (("extension starts with a slash", cut, rest), ("extension has none", z3.Not(cut), e)):
            yield f"one slash between: {nb}, {ne}", z3.Implies(z3.And(cb, ce), r == (cat_(b, cat_("/", te)) if tb is None else cat_(tb, te)))
Contract(RR + "append_to_path", props=PC, ensures=_join)
# the text of the first n elements popped off the stack p (its last element is the root)
ptext = RecFn("path_text", [Sq, I], L.Str, lambda p, n: z3.If(n <= 0, lit(""), z3.If(at(p, slen(p) - n) == ROOT, ptext(p, n - 1), L.cat(ptext(p, n - 1), L.cat(lit("/"), V.vs(at(p, slen(p) - n)))))))
def path_str(p):
    return z3.If(z3.And(slen(p) == 1, at(p, 0) == ROOT), lit("/"), ptext(p, slen(p)))
def _p2st(L_):
    s = L_.fn
    p = s.seq(s.args["path_stack"])
    for nm, l in L_.lists():
        c = slen(p) - slen(l)
        yield f"{nm} is what is left", L.seq_eq(l, take(p, slen(l)))
        yield f"{nm} shrinks", z3.And(c >= 0)
        for nt, t in L_.locals("str"):
            yield f"{nt} is the text so far ({nm})", S_(t) == ptext(p, c)
Contract(PM + "_utils:stack_path_to_str", props=PQ, params={"path_stack": list[str]}, requires=lambda s: [("path elements are strings", strs(s.seq(s.path_stack)))], modifies=lambda s: [],
    ensures=lambda s: [("the path as text", S_(s.result) == path_str(s.old.seq(s.path_stack)))], templates=[("text", _p2st)])
# ------------------------------------------------------------------ values by path
def at_path(s, path=None):
    return TRAV(T(s.old), root(s.old), stk(S_(s.path if path is None else path)))
Contract(RR + "contains_value", props=PQ, params=MR, modifies=lambda s: [], ensures=lambda s: [("there is a node at the path", s.truth(s.result) == (at_path(s) != V.none))])
Contract(RR + "is_multi_output", props=PQ, params=MR, modifies=lambda s: [], ensures=lambda s: [("there is an outputs section", s.truth(s.result) == (at_path(s, "/outputs") != V.none))])
# ------------------------------------------------------------------ values: the YAML reader and the renderer are trusted functions of the text
VT = VL.ty(JsonType)
LISTS = [a for a in VT if a[0] == "ref" and a[1][0] == "list"][0]
is_list = lambda v: VL.atom_cond(v, LISTS, VT)
yaml_of = F("yaml_value", Str, V, V)
yaml_list, yaml_len = F("yaml_is_list", Str, V, B), F("yaml_length", Str, V, I)
TREE_SORTS = [ArrV, ArrV, ArrV, ArrS, ArrV, ArrV]
lines_of = F("rendered_lines", *TREE_SORTS, V, I, Sq)
def rlines(s, node, depth):
    t = T(s)
    return lines_of(*t.key(), t.lmf, t.kf, to_v(node), int_t(depth))
def _read(s):
    """what YAML makes of a text; collections are new objects"""
    r = to_v(s.result)
    yield "collections are new", z3.Implies(V.is_ref(r), V.vr(r) >= s.old.alloc)
    txt, par = S_(s.s), to_v(s.parser)
    yield "lists", z3.And(is_list(r) == yaml_list(txt, par), z3.Implies(is_list(r), slen(z3.Select(s.arr("#list"), V.vr(r))) == yaml_len(txt, par)), yaml_len(txt, par) >= 0)
    yield "text, numbers and the like depend on the text only", z3.Implies(z3.Not(V.is_ref(r)), r == yaml_of(S_(s.s), to_v(s.parser)))
Contract(RR + "_parse_yaml", trusted=True, props=PQ, result="JSON", modifies=lambda s: [], ensures=_read, raises={yaml.YAMLError: lambda s: z3.BoolVal(True)})
Contract(RR + "_render_tree", trusted=True, props=PQ, modifies=lambda s: [("#list", s.lines)], ensures=lambda s: [("the lines of the tree below the node", z3.Implies(slen(s.old.seq(s.lines)) == 0, s.seq(s.lines) == rlines(s.old, s.node, s.depth)))])
Contract(RR + "_render_jinja_vars", trusted=True, props=PQ, params=MR, result="JSON", modifies=lambda s: [], ensures=lambda s: [("collections are new", z3.Implies(V.is_ref(to_v(s.result)), V.vr(to_v(s.result)) >= s.old.alloc))])
def _yload(ip, a, kw):
    if ip.st.choose(2, "yaml"):
        raise PyExc(ExcVal(yaml.YAMLError))
    a0 = ip.st.alloc_now()
    ip.st.bump_alloc()
    r = ip.st.fresh("yaml", V)
    x = ip.from_v(r, VT)
    ip.st.assume(z3.Implies(V.is_ref(r), z3.And(V.vr(r) >= a0, V.vr(r) < ip.st.alloc_now())))
    return x
EXTERNALS[yaml.load] = _yload
def _value(s):
    t, n, r, o = T(s.old), at_path(s), to_v(s.result), s.old
    x = V.vr(n)
    kids = t.kids(x)
    k = V.vr(at(kids, 0))
    ml = z3.Select(o.arr("multiline_variant"), k)
    pair = z3.And(V.vb(z3.Select(t.kf, x)), slen(kids) == 1, t.is_leaf(k), z3.Not(V.vb(z3.Select(t.kf, k))), _vs(t, x) != to_v("/"))
    item = z3.And(slen(kids) == 1, t.list_member(k))
    plain = lambda v: z3.Not(z3.Or(V.is_str(v), V.is_ref(v)))
    yield "what is not there is the default", z3.Implies(n == V.none, r == to_v(s.default))
    yield "the value of a key", z3.Implies(z3.And(n != V.none, pair, ml == NONE_ML, z3.Not(item), plain(_vs(t, k))), r == _vs(t, k))
    yield "the value of a list item", z3.Implies(z3.And(n != V.none, z3.Not(pair), t.is_leaf(x), plain(_vs(t, x))), r == _vs(t, x))
    yield "text is read as YAML: a key", z3.Implies(z3.And(n != V.none, pair, ml == NONE_ML, z3.Not(item), V.is_str(_vs(t, k)), z3.Not(V.is_ref(r))), r == yaml_of(V.vs(_vs(t, k)), z3.If(s.truth(s.sub_vars), to_v(s.self), V.none)))
    yield "text is read as YAML: a list item", z3.Implies(z3.And(n != V.none, z3.Not(pair), t.is_leaf(x), V.is_str(_vs(t, x)), z3.Not(V.is_ref(r))), r == yaml_of(V.vs(_vs(t, x)), z3.If(s.truth(s.sub_vars), to_v(s.self), V.none)))
    yield "a list of one item is a list", z3.Implies(z3.And(n != V.none, pair, ml == NONE_ML, item), is_list(r))
    yield "a list of one plain item", z3.Implies(z3.And(n != V.none, pair, ml == NONE_ML, item, plain(_vs(t, k))), z3.And(slen(z3.Select(s.arr("#list"), V.vr(r))) == 1, at(z3.Select(s.arr("#list"), V.vr(r)), 0) == _vs(t, k)))
    block = z3.And(t.is_leaf(x), V.is_ref(_vs(t, x)))     # a path never ends at the text of a block
    cnt, known = length(o, S_(s.path), s.truth(s.sub_vars), s.self)
    yield "so many items", z3.Implies(z3.And(n != V.none, known), z3.If(is_list(r), slen(z3.Select(s.arr("#list"), V.vr(r))) == cnt, cnt == 0))
    yield "collections are not those of the recipe", z3.Implies(z3.And(n != V.none, V.is_ref(r), z3.Or(pair, z3.Not(block))), V.vr(r) >= o.alloc)
def blocks(s):
    """the lines of a block of text belong to a node that is marked as one"""
    o = z3.Int("o")
    v, m = z3.Select(s.arr("value"), o), z3.Select(s.arr("multiline_variant"), o)
    return z3.ForAll([o], z3.Implies(V.is_ref(v), m != NONE_ML), patterns=[v])
def text_len(txt, par, item):
    return z3.If(yaml_list(txt, par), yaml_len(txt, par), z3.If(item, 1, 0))
def length(o, path, sub, self_):
    """(how many items the list at a path has; whether that is known here)"""
    t, n = T(o), TRAV(T(o), root(o), stk(path))
    x, par = V.vr(n), z3.If(sub, to_v(self_), V.none)
    kids = t.kids(x)
    k = V.vr(at(kids, 0))
    pair = z3.And(V.vb(z3.Select(t.kf, x)), slen(kids) == 1, t.is_leaf(k), z3.Not(V.vb(z3.Select(t.kf, k))), _vs(t, x) != to_v("/"))
    item = z3.And(slen(kids) == 1, t.list_member(k))
    one = z3.If(item, 1, 0)
    of = lambda v: z3.If(V.is_str(v), text_len(V.vs(v), par, item), one)
    txt = L.sjoin(lit("\n"), lines_of(*t.key(), t.lmf, t.kf, n, z3.IntVal(-1)))
    known = z3.And(z3.Implies(n != V.none, z3.And(z3.Not(t.is_coll(x)), z3.Implies(pair, z3.Select(o.arr("multiline_variant"), k) == NONE_ML),
        z3.Implies(z3.And(z3.Not(pair), t.is_leaf(x)), z3.Not(V.is_ref(_vs(t, x)))))))
    return z3.If(n == V.none, 0, z3.If(pair, of(_vs(t, k)), z3.If(t.is_leaf(x), of(_vs(t, x)), text_len(txt, par, item)))), known
def gone(s):
    return z3.And(at_path(s) == V.none, to_v(s.default) == to_v(RecipeReader._sentinel))
Contract(RR + "get_value", props=PQ, params=MR, requires=lambda s: [("children are nodes", wf_kids(s)), ("blocks of text are marked", blocks(s))], modifies=lambda s: [], result="JSON", ensures=_value,
    raises={KeyError: gone, yaml.YAMLError: lambda s: at_path(s) != V.none})


# ------------------------------------------------------------------ lists and packages
WFQ = lambda s: [("children are nodes", wf_kids(s)), ("blocks of text are marked", blocks(s))]
def _members(s):
    cnt, known = length(s.old, S_(s.path), s.truth(s.sub_vars), s.self)
    yield "the items of the list there, none if there is no list", z3.Implies(known, slen(s.seq(s.result)) == cnt)
BADYAML = {yaml.YAMLError: lambda s: z3.BoolVal(True)}
Contract(RR + "_get_list_members", props=PQ, params=MR, requires=WFQ, modifies=lambda s: [], ensures=_members, raises=BADYAML)
def item_path(prefix, j):
    return V.str(cat_(prefix, L.itoa(j)))
def _pkgs(s):
    r, j = s.seq(s.result), _j
    cnt, known = length(s.old, lit("/outputs"), z3.BoolVal(False), s.self)
    yield "the root first", z3.And(slen(r) >= 1, at(r, 0) == ROOT)
    yield "then one path per output", z3.ForAll([j], z3.Implies(z3.And(0 < j, j < slen(r)), at(r, j) == item_path("/outputs/", j - 1)), patterns=[at(r, j)])
    yield "as many as there are outputs", z3.Implies(known, slen(r) == cnt + 1)
def _pkgst(L_):
    for nm, l in L_.lists():
        yield f"{nm} so far", slen(l) == L_.i + 1
        yield f"{nm} root", at(l, 0) == ROOT
        yield f"{nm} outputs", z3.ForAll([_j], z3.Implies(z3.And(0 < _j, _j < slen(l)), at(l, _j) == item_path("/outputs/", _j - 1)), patterns=[at(l, _j)])
Contract(RR + "get_package_paths", props=PQ, params=MR, requires=WFQ, modifies=lambda s: [], fresh=True, ensures=_pkgs, raises=BADYAML, templates=[("paths", _pkgst)])
