"""Walking the whole tree (parser/_traverse.py) and the queries that do (parser/recipe_reader.py)."""
from . import env, models, tree, patchops, paths
from .patchops import *
from .paths import RR, MR, PQ, path_str, wf_kids, cat_, NONE_ML
from .tree import _a, _b, _c, _d, _l, _s, _p, _i, _j, _x, _vs
from pyvc import logic as L, interp as IT
from conda_recipe_manager.parser import _traverse as TR
PV = ("C02", "C05", "C07")

# ------------------------------------------------------------------ the order in which nodes are visited, and the path each is visited with
rank = F("height_of", I, I)        # any measure that falls from a node to its children: trees are finite
def tup_of(q):
    return V.tup(L.mktup(q))
def as_visit(n, p):
    """(node, path) as a Python pair"""
    return tup_of(build(build(sempty, n), tup_of(p)))
def comp(e, n):
    return at(tseq(V.vt(e)), n)
inv = RecFn("virtual_index", [ArrV, ArrV, ArrV, ArrS, Sq, I], I, lambda a, b, c, d, s, n: z3.If(n <= 0, z3.IntVal(0), z3.If(TA(a, b, c, d).is_comment(V.vr(at(s, n - 1))), inv(a, b, c, d, s, n - 1), inv(a, b, c, d, s, n - 1) + 1)))
def position_def(t, kids, j):
    """what child j is numbered among the lines that are not comments; comments are numbered 0"""
    return z3.If(t.is_comment(V.vr(at(kids, j))), 0, inv(*t.key(), kids, j))
def key_text(v):
    """str() of what a key holds"""
    return z3.If(V.is_str(v), V.vs(v), z3.If(V.is_int(v), L.itoa(V.vi(v)), z3.If(V.is_bool(v), z3.If(V.vb(v), lit("True"), lit("False")), z3.If(V.is_flt(v), L.ftoa(V.vf(v)), z3.If(v == V.none, lit("None"), z3.If(v == to_v(SENT), lit(str(SENT)), L.pystr(v)))))))
TSORTS = [ArrV, ArrV, ArrV, ArrS, ArrV, ArrV]
cpath, posn = F("child_path", *TSORTS, I, Sq, I, Sq), F("position_of", ArrV, ArrV, ArrV, ArrS, Sq, I, I)
def child_path(t, n, p, idx):
    return cpath(*t.key(), t.lmf, t.kf, n, p, idx)
def position(t, kids, j):
    return posn(*t.key(), kids, j)
def definitions(s):
    a, b, c, d, l, k = z3.Consts("a b c", ArrV) + [_d] + z3.Consts("l k", ArrV)
    x, j, q, p = *z3.Ints("x j"), *z3.Consts("q p", Sq)
    t = tree_of(a, b, c, d, l, k)
    yield z3.ForAll([a, b, c, d, q, j], posn(a, b, c, d, q, j) == position_def(t, q, j), patterns=[posn(a, b, c, d, q, j)])
    yield z3.ForAll([a, b, c, d, l, k, x, p, j], child_path(t, x, p, j) == child_path_def(t, x, p, j), patterns=[child_path(t, x, p, j)])
def child_path_def(t, n, p, idx):
    """the path (last part first) of node n, whose parent has path p"""
    named = z3.Or(z3.And(V.vb(z3.Select(t.kf, n)), t.is_leaf(n)), z3.Not(t.is_leaf(n)))
    one = lambda e: app(build(sempty, V.str(e)), p)
    return z3.If(t.list_member(n), one(L.itoa(idx)), z3.If(named, one(key_text(_vs(t, n))), p))
def tree_of(a, b, c, d, l, k):
    t = TA(a, b, c, d, l)
    t.kf = k
    return t
def _walk(a, b, c, d, l, k, x, p, g, n):
    t = tree_of(a, b, c, d, l, k)
    y = V.vr(at(t.kids(x), n - 1))
    prev = walk(a, b, c, d, l, k, x, p, g, n - 1)
    return z3.If(n <= 0, build(g, as_visit(V.ref(x), p)),
        z3.If(z3.And(0 <= rank(y), rank(y) < rank(x)), walk(a, b, c, d, l, k, y, child_path(t, y, p, position(t, t.kids(x), n - 1)), prev, slen(t.kids(y))), prev))
# what is visited before g, then x with path p, then the first n of its children, each with all below it
walk = RecFn("walk", [ArrV, ArrV, ArrV, ArrS, ArrV, ArrV, I, Sq, Sq, I], Sq, _walk)
def WALK(t, x, p, g, n=None):
    return walk(*t.key(), t.lmf, t.kf, x, p, g, slen(t.kids(x)) if n is None else n)
def finite(s):
    """trees are finite (world)"""
    o, q = z3.Ints("o q")
    t = T(s)
    y = V.vr(at(t.kids(o), q))
    return [z3.ForAll([o, q], z3.Implies(z3.And(0 <= q, q < slen(t.kids(o))), z3.And(0 <= rank(y), rank(y) < rank(o))), patterns=[at(t.kids(o), q)])]
L_inv_len = Lemma("inv_len", [_a, _b, _c, _d, _s], lambda n, a, b, c, d, s: slen(vp(a, b, c, d, s, n)) == inv(a, b, c, d, s, n), lambda n, a, b, c, d, s: [inv(a, b, c, d, s, n)])
L_inv_at = Lemma("inv_at", [_a, _b, _c, _d, _s, _j], lambda n, a, b, c, d, s, j: z3.Implies(z3.And(0 <= j, j < n, z3.Not(TA(a, b, c, d).is_comment(V.vr(at(s, j))))),
        z3.And(at(vp(a, b, c, d, s, n), inv(a, b, c, d, s, j)) == V.int(j), 0 <= inv(a, b, c, d, s, j), inv(a, b, c, d, s, j) < slen(vp(a, b, c, d, s, n)))),
    lambda n, a, b, c, d, s, j: [MP(vp(a, b, c, d, s, n), inv(a, b, c, d, s, j))], uses=[L_inv_len])
def record(node, path):
    """stands for any function applied to every node: what it is called with is recorded"""
VIS = [("visits", Sq)]
def _record(ip, a, kw):
    g = ip.st.ghost["visits"]
    p = ip.resolve(a[1])
    ip.st.ghost["visits"] = build(g, as_visit(to_v(ip.resolve(a[0])), ip.lst(p)))
    return None
EXTERNALS[record] = _record
def tup_terms(v):
    q = sempty
    for e in v:
        q = build(q, to_v(e))
    return q
def start(s, t):
    p = to_v(s.path)
    return z3.If(p == V.none, build(sempty, ROOT), child_path(t, V.vr(to_v(s.node)), tseq(V.vt(p)), int_t(s.idx_num)))
def _ta(s):
    t, n = T(s.old), to_v(s.node)
    yield "visits the node, then its children in order, each with its path", s.ghost["visits"] == z3.If(n == V.none, s.old.ghost["visits"], WALK(t, V.vr(n), start(s, t), s.old.ghost["visits"]))
def _tat(L_):
    s = L_.fn
    if "node" in s.args and "idx_num" in s.args:
        sp = type("_", (), dict(node=s.args["node"], path=s.args["path"], idx_num=s.args["idx_num"]))
        x = V.vr(to_v(sp.node))
        for nm, v in [*L_.locals("tuple"), *L_.locals("any")]:
            yield f"{nm}: visited so far", L_.ghost["visits"] == WALK(T(s), x, tseq(V.vt(v.t)) if isinstance(v, Sym) and v.k == "any" else v.t if isinstance(v, Sym) else tup_terms(v), s.ghost["visits"], L_.i)
Contract(PM + "_traverse:traverse_all", props=PV, params={"func": (("const", record),)}, requires=lambda s: [("children are nodes", wf_kids(s))], assume=lambda s: finite(s) + list(definitions(s)), ghosts=VIS, modifies=lambda s: [("ghost:visits", None)],
    ensures=_ta, templates=[("visited", _tat)], uses=VPL + [L_inv_len, L_inv_at])
# ------------------------------------------------------------------ callers: walking the tree applies a function to each visit, in that order
def _each(visits, func):
    for node, path in visits:
        func(node, list(path))
_each.__module__ = "pyvc_tests.visits"
PAIR = (("tup", ((("ref", Node),), (("vtup", (STR,)),)), None),)
def _traverse_all(ip, a, kw):
    if len(a) < 2 and "func" in kw:
        a = [*a, kw.pop("func")]
    if a[1] is record or len(a) > 2 or kw:
        return CONTRACTS[TR.traverse_all].apply(ip, a, kw)
    n = ip.resolve(a[0])
    if n is None:
        return None
    t = T(Spec(ip, {}, dict(ip.st.heap)))
    q = visits_of(t, V.vr(to_v(n)))
    before = {f: ip.st.arr(f) for f in NF + (NODES,)}
    i = z3.Int("i")
    # every visit is a node with a path of strings
    e = at(q, i)
    j = z3.Int("j")
    ip.st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < slen(q)), z3.And(V.is_ref(comp(e, 0)), 0 <= V.vr(comp(e, 0)), V.vr(comp(e, 0)) < ip.st.A0, V.is_tup(comp(e, 1)), e == as_visit(comp(e, 0), tseq(V.vt(comp(e, 1)))))), patterns=[e]))
    pe = at(tseq(V.vt(comp(e, 1))), j)
    ip.st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < slen(q), 0 <= j, j < slen(tseq(V.vt(comp(e, 1))))), V.is_str(pe)), patterns=[pe]))
    ip.call_function(_each, [Sym("vtup", q, PAIR), a[1]], {})
    ip.st.oblige("walking the tree does not change it", z3.And(*[ip.st.arr(f) == b for f, b in before.items()]))
    return None
EXTERNALS[TR.traverse_all] = _traverse_all
def visits_of(t, x):
    return WALK(t, x, build(sempty, ROOT), sempty)
def vis(s):
    """the visits of the whole tree"""
    return visits_of(T(s), V.vr(root(s)))
def vn(q, n):
    return V.vr(comp(at(q, n), 0))
def vp_(q, n):
    return tseq(V.vt(comp(at(q, n), 1)))
def kept(name, pred, extra=()):
    """the paths of those among the first n visits that satisfy pred(t, node, *extra), in order"""
    f = RecFn(name, [*TSORTS, *[e for e in extra], Sq, I], Sq, lambda a, b, c, d, l, k, *r: z3.If(r[-1] <= 0, sempty,
        z3.If(pred(tree_of(a, b, c, d, l, k), vn(r[-2], r[-1] - 1), *r[:-2]), build(f(a, b, c, d, l, k, *r[:-1], r[-1] - 1), V.str(path_str(vp_(r[-2], r[-1] - 1)))), f(a, b, c, d, l, k, *r[:-1], r[-1] - 1))))
    return lambda t, *xs: f(*t.key(), t.lmf, t.kf, *xs)
leaves = kept("leaf_paths", lambda t, n: t.is_leaf(n))
def listed(f, *extra):
    def tm(L_):
        t, q = T(L_.fn), vis(L_.fn)
        for nm, l in L_.lists():
            yield f"{nm} so far", l == f(t, *[e(L_.fn.args) if callable(e) else e for e in extra], q, L_.i)
    return [("paths", tm)]
Contract(RR + "list_value_paths", props=PQ, params=MR, modifies=lambda s: [], fresh=True, assume=finite, ensures=lambda s: [("the paths of all values, in the order of the file", s.seq(s.result) == leaves(T(s.old), vis(s.old), slen(vis(s.old))))], templates=listed(leaves))
# ------------------------------------------------------------------ the index of selectors
from .selre import found, sel_of
from conda_recipe_manager.parser._selector_info import SelectorInfo
assert SelectorInfo._fields == ("node", "path")
FIELDS[(RecipeReader, "_selector_tbl")] = VL.ty(dict[str, list[SelectorInfo]])
def has_sel(t, n):
    c = V.vs(z3.Select(t.comment, n))
    return z3.And(c != lit(""), found(c))
def sel_at(t, n):
    return V.str(sel_of(V.vs(z3.Select(t.comment, n))))
# the visits, among the first n, of nodes whose comment holds selector k; and the selectors in order of first appearance
with_sel = RecFn("visits_with_selector", [*TSORTS, V, Sq, I], Sq, lambda a, b, c, d, l, k, x, q, n: z3.If(n <= 0, sempty,
    z3.If(z3.And(has_sel(tree_of(a, b, c, d, l, k), vn(q, n - 1)), sel_at(tree_of(a, b, c, d, l, k), vn(q, n - 1)) == x), build(with_sel(a, b, c, d, l, k, x, q, n - 1), at(q, n - 1)), with_sel(a, b, c, d, l, k, x, q, n - 1))))
sel_order = RecFn("selectors_in_order", [*TSORTS, Sq, I], Dc, lambda a, b, c, d, l, k, q, n: z3.If(n <= 0, dempty,
    z3.If(has_sel(tree_of(a, b, c, d, l, k), vn(q, n - 1)), dset(sel_order(a, b, c, d, l, k, q, n - 1), sel_at(tree_of(a, b, c, d, l, k), vn(q, n - 1)), V.none), sel_order(a, b, c, d, l, k, q, n - 1))))
def WITH(t, k, q, n):
    return with_sel(*t.key(), t.lmf, t.kf, k, q, n)
def ORDER(t, q, n):
    return sel_order(*t.key(), t.lmf, t.kf, q, n)
_k = z3.Const("sk", V)
_k2 = z3.Const("sk2", V)
def table(s):
    return z3.Select(s.arr("#dict"), V.vr(s.fv(s.self, "_selector_tbl")))
def lst_of(s, D, k):
    return z3.Select(s.arr("#list"), V.vr(dget(D, k)))
def plist(s, e):
    """the path list of a SelectorInfo"""
    return z3.Select(s.arr("#list"), V.vr(comp(e, 1)))
def index(s, t, q, n, D):
    """table D holds exactly the selectors of the first n visits"""
    k, i = _k, _i
    l, w = lst_of(s, D, k), WITH(t, k, q, n)
    e = at(l, i)
    yield "the selectors, in order", z3.And(slen(dkeys(D)) == slen(dkeys(ORDER(t, q, n))), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < slen(dkeys(D))), at(dkeys(D), i) == at(dkeys(ORDER(t, q, n)), i)), patterns=[at(dkeys(D), i)]))
    yield "every selector has its lines", z3.ForAll([k], z3.Implies(dhas(D, k), slen(l) == slen(w)), patterns=[dget(D, k), dhas(D, k)])
    yield "only selectors that occur", z3.ForAll([k], dhas(D, k) == dhas(ORDER(t, q, n), k), patterns=[dhas(D, k)])
    yield "node and path of each line", z3.ForAll([k, i], z3.Implies(z3.And(dhas(D, k), 0 <= i, i < slen(l)), z3.And(comp(e, 0) == comp(at(w, i), 0), plist(s, e) == tseq(V.vt(comp(at(w, i), 1))))), patterns=[at(l, i)])
def _rebt(L_):
    s, f = L_.now, L_.fn
    t, q = T(f), vis(f)
    me = type("_", (), dict(self=f.args["self"], arr=s.arr, fv=s.fv))
    D = table(me)
    yield from index(s, t, q, L_.i, D)
    k, k2, i = _k, _k2, _i
    a0 = f.alloc
    r, r2 = V.vr(dget(D, k)), V.vr(dget(D, k2))
    e = at(lst_of(s, D, k), i)
    yield "lists are new", z3.ForAll([k], z3.Implies(dhas(D, k), z3.And(V.is_ref(dget(D, k)), r >= a0, r < L_.ip.st.alloc_now())), patterns=[dget(D, k), dhas(D, k)])
    yield "lists are separate", z3.ForAll([k, k2], z3.Implies(z3.And(dhas(D, k), dhas(D, k2), k != k2), r != r2), patterns=[MP(dget(D, k), dget(D, k2))])
    yield "paths are separate", z3.ForAll([k, k2, i], z3.Implies(z3.And(dhas(D, k), dhas(D, k2), 0 <= i, i < slen(lst_of(s, D, k))), V.vr(comp(e, 1)) != r2), patterns=[MP(e, dget(D, k2))])
    yield "paths are new", z3.ForAll([k, i], z3.Implies(z3.And(dhas(D, k), 0 <= i, i < slen(lst_of(s, D, k))), z3.And(V.is_ref(comp(e, 1)), V.vr(comp(e, 1)) >= a0, V.vr(comp(e, 1)) < L_.ip.st.alloc_now())), patterns=[e])
    yield "none without visits", z3.ForAll([k], z3.Implies(z3.Not(dhas(D, k)), slen(WITH(t, k, q, L_.i)) == 0), patterns=[dhas(D, k), WITH(t, k, q, L_.i)])
    yield "its own table", z3.And(V.vr(me.fv(me.self, "_selector_tbl")) >= a0, V.is_ref(me.fv(me.self, "_selector_tbl")))
def _reb(s):
    t, q = T(s.old), vis(s.old)
    yield from index(s, t, q, slen(q), table(s))
    yield "a new table", V.vr(s.fv(s.self, "_selector_tbl")) >= s.old.alloc
Contract(RR + "_rebuild_selectors", props=("C05",), body_only=True, params=MR, assume=finite, modifies=lambda s: [("_selector_tbl", s.self)], ensures=_reb, templates=[("index", _rebt)])

# ------------------------------------------------------------------ queries of the index
IX = ("C05", "C07")
def indexed(s):
    """the table is the index of the current tree"""
    t, q = T(s), vis(s)
    return [("the index is that of the tree: " + n, f) for n, f in index(s, t, q, slen(q), table(s))]
def dedup(q):
    return dkeys(IT.dfromkeys(q, V.none, slen(q)))
paths_of = RecFn("paths_of", [Sq, I], Sq, lambda q, n: z3.If(n <= 0, sempty, build(paths_of(q, n - 1), V.str(path_str(tseq(V.vt(comp(at(q, n - 1), 1))))))))
def sel_lines(s, k):
    q = vis(s)
    w = WITH(T(s), k, q, slen(q))
    return paths_of(w, slen(w))
def _gspt(L_):
    f = L_.fn
    q = vis(f)
    for nm, l in L_.lists():
        yield f"{nm} so far", l == paths_of(WITH(T(f), to_v(f.args["selector"]), q, slen(q)), L_.i)
def path_strs(s):
    """paths of the index hold strings (typing)"""
    D, e = table(s), at(lst_of(s, table(s), _k), _i)
    rng = z3.And(dhas(D, _k), 0 <= _i, _i < slen(lst_of(s, D, _k)))
    return [z3.ForAll([_k, _i], z3.Implies(rng, z3.And(V.is_ref(comp(e, 1)), 0 <= V.vr(comp(e, 1)), V.vr(comp(e, 1)) < s.ip.st.A0)), patterns=[e]), z3.ForAll([_k, _i, _j], z3.Implies(z3.And(dhas(D, _k), 0 <= _i, _i < slen(lst_of(s, D, _k)), 0 <= _j, _j < slen(plist(s, e))), V.is_str(at(plist(s, e), _j))), patterns=[at(plist(s, e), _j)])]
Contract(RR + "list_selectors", props=IX, params=MR, requires=indexed, modifies=lambda s: [], fresh=True, ensures=lambda s: [("the selectors of the recipe, in order of first appearance", L.seq_eq(s.seq(s.result), dkeys(ORDER(T(s.old), vis(s.old), slen(vis(s.old))))))])
Contract(RR + "contains_selector", props=IX, params=MR, requires=indexed, modifies=lambda s: [], ensures=lambda s: [("whether a line of the recipe has it", s.truth(s.result) == dhas(ORDER(T(s.old), vis(s.old), slen(vis(s.old))), to_v(s.selector)))])
Contract(RR + "get_selector_paths", props=IX, params=MR, requires=indexed, assume=path_strs, modifies=lambda s: [], fresh=True,
    ensures=lambda s: [("the paths of the lines with it, each once, in order", z3.Implies(dhas(table(s.old), to_v(s.selector)), s.seq(s.result) == dedup(sel_lines(s.old, to_v(s.selector))))),
                       ("none for a selector that does not occur", z3.Implies(z3.Not(dhas(table(s.old), to_v(s.selector))), slen(s.seq(s.result)) == 0))], templates=[("paths", _gspt)])
# ------------------------------------------------------------------ searches
found_values = kept("paths_with_value", lambda t, n, v: z3.Or(z3.And(v == V.none, V.vb(z3.Select(t.kf, n)), t.is_leaf(n)), z3.And(t.is_leaf(n), same_value(_vs(t, n), v))), (V,))
def same_value(a, b):
    """equal values of the same type"""
    return z3.If(z3.And(V.is_flt(a), V.is_flt(b)), L.pyeq_u(a, b), z3.And(a == b, z3.Not(V.is_flt(a))))
Contract(RR + "find_value", props=PQ, params=MR, modifies=lambda s: [], fresh=True, assume=finite, ensures=lambda s: [("the paths of the values of that type that equal it, in the order of the file", s.seq(s.result) == found_values(T(s.old), to_v(s.value), vis(s.old), slen(vis(s.old))))],
    templates=listed(found_values, lambda a: to_v(a["value"])), raises={ValueError: lambda s: z3.BoolVal(False)})
import re
from conda_recipe_manager.parser.enums import SchemaVersion
from .selre import pat_, re_found, removed
FIELDS[(RecipeReader, "_schema_version")] = (("enum", SchemaVersion),)
def pattern(p):
    """the pattern an argument stands for"""
    return z3.If(V.is_str(p), pat_(V.vs(p)), V.vo(p))
quoted = F("quoted", Str, Str)
Contract(PM + "_utils:quote_special_strings", trusted=True, props=PQ, modifies=lambda s: [], ensures=lambda s: [("a function of the text", z3.Implies(to_v(s.multiline_variant) == NONE_ML, S_(s.result) == quoted(S_(s.s))))])
def shown(v, after=()):
    """a value as it is written in a recipe, and what follows"""
    r = cat_(L.pystr(v), *after)
    for c, x in ((V.is_flt(v), L.ftoa(V.vf(v))), (V.is_int(v), L.itoa(V.vi(v))), (V.is_str(v), quoted(V.vs(v))), (z3.And(V.is_bool(v), V.vb(v)), "true"), (z3.And(V.is_bool(v), z3.Not(V.vb(v))), "false"), (v == V.none, "null"), (v == to_v(SENT), "")):
        r = z3.If(c, cat_(x, *after), r)
    return r
def line_text(t, n, with_comment):
    c = V.vs(z3.Select(t.comment, n))
    return z3.If(z3.And(V.vb(with_comment), c != lit("")), shown(_vs(t, n), ("  ", c)), shown(_vs(t, n)))
hits = kept("paths_found", lambda t, n, p, w: z3.And(t.is_leaf(n), re_found(pattern(p), line_text(t, n, w))), (V, V))
Contract(RR + "search", props=PQ, params=MR, modifies=lambda s: [], fresh=True, assume=finite, templates=listed(hits, lambda a: to_v(a["regex"]), lambda a: to_v(a["include_comment"])), raises={re.error: lambda s: V.is_str(to_v(s.regex))},
    ensures=lambda s: [("the paths of the values the pattern is found in, in the order of the file", s.seq(s.result) == hits(T(s.old), to_v(s.regex), to_v(s.include_comment), vis(s.old), slen(vis(s.old))))])
uses_var = kept("paths_using", lambda t, n, p: z3.And(V.is_str(_vs(t, n)), re_found(V.vo(p), V.vs(_vs(t, n)))), (V,))
def var_pattern(s):
    v = S_(s.var)
    return V.opq(z3.If(s.fv(s.self, "_schema_version") == to_v(SchemaVersion.V0), pat_(cat_("{{.*", v, ".*}}")), pat_(cat_("\\${{.*", v, ".*}}"))))
def _uses(s):
    o = s.old
    d = z3.Select(o.arr("#dict"), V.vr(o.fv(s.self, "_vars_tbl")))
    q = vis(o)
    yield "each path whose text uses the variable, once, in the order of the file", z3.Implies(dhas(d, to_v(s.var)), s.seq(s.result) == dedup(uses_var(T(o), var_pattern(o), q, slen(q))))
    yield "nothing uses a variable that is not set", z3.Implies(z3.Not(dhas(d, to_v(s.var))), slen(s.seq(s.result)) == 0)
def _usest(L_):
    f = L_.fn
    me = type("_", (), dict(self=f.args["self"], var=f.args["var"], fv=f.fv))
    for nm, l in L_.lists():
        yield f"{nm} so far", l == uses_var(T(f), var_pattern(me), vis(f), L_.i)
Contract(RR + "get_variable_references", props=PQ, params=MR, modifies=lambda s: [], fresh=True, assume=finite, templates=[("paths", _usest)], ensures=_uses, raises={re.error: lambda s: z3.BoolVal(True)})
# ------------------------------------------------------------------ comments
def plain_comment(c):
    """a comment without its selector; none if nothing else is left"""
    t = L.s_strip(removed(c))
    t = L.sreplace(L.sreplace(t, lit("#  # "), lit("# "), z3.IntVal(1)), lit("#  "), lit("# "), z3.IntVal(1))
    return z3.If(z3.Or(t == lit(""), t == lit("#")), V.none, V.str(z3.If(L.char_at(t, z3.IntVal(0)) != lit("#"), cat_("# ", t), t)))
def own_comment(t, n):
    c = V.vs(z3.Select(t.comment, n))
    return z3.If(z3.Or(t.is_comment(n), c == lit("")), V.none, z3.If(found(c), plain_comment(c), V.str(c)))
comment_tbl = RecFn("comments", [*TSORTS, Sq, I], Dc, lambda a, b, c, d, l, k, q, n: z3.If(n <= 0, dempty,
    z3.If(own_comment(tree_of(a, b, c, d, l, k), vn(q, n - 1)) != V.none, dset(comment_tbl(a, b, c, d, l, k, q, n - 1), V.str(path_str(vp_(q, n - 1))), own_comment(tree_of(a, b, c, d, l, k), vn(q, n - 1))), comment_tbl(a, b, c, d, l, k, q, n - 1))))
def COMMENTS(t, q, n):
    return comment_tbl(*t.key(), t.lmf, t.kf, q, n)
def _ctt(L_):
    f = L_.fn
    for nm, v in L_.locals("dict"):
        yield f"{nm} so far", L_.now.dic(v) == COMMENTS(T(f), vis(f), L_.i)
Contract(RR + "get_comments_table", props=PQ + ("C06",), params=MR, modifies=lambda s: [], fresh=True, assume=finite, templates=[("comments", _ctt)],
    ensures=lambda s: [("every path whose line has a comment besides a selector, with that comment", s.dic(s.result) == COMMENTS(T(s.old), vis(s.old), slen(vis(s.old))))])
# ------------------------------------------------------------------ queries of one line
def here(s):
    return TRAV(T(s.old), root(s.old), stk(S_(s.path)))
def comment_here(s):
    return V.vs(z3.Select(s.old.arr("comment"), V.vr(here(s))))
Contract(RR + "contains_selector_at_path", props=PQ, params=MR, modifies=lambda s: [], ensures=lambda s: [("whether the line at the path has a selector", s.truth(s.result) == z3.And(here(s) != V.none, found(comment_here(s))))])
def unsel(s):
    return z3.Or(here(s) == V.none, z3.And(z3.Not(found(comment_here(s))), to_v(s.default) == to_v(RecipeReader._sentinel)))
Contract(RR + "get_selector_at_path", props=PQ, params=MR, modifies=lambda s: [], raises={KeyError: unsel, ValueError: lambda s: z3.And(here(s) != V.none, z3.Not(found(comment_here(s))), V.is_str(to_v(s.default)))},
    ensures=lambda s: [("the selector of the line, or the default", z3.And(here(s) != V.none, to_v(s.result) == z3.If(found(comment_here(s)), V.str(sel_of(comment_here(s))), to_v(s.default))))])
