"""Selector and comment edits of a line (parser/recipe_parser.py) and the queries of them (parser/recipe_reader.py)."""
from . import env, models, tree, patchops
from .patchops import *
from .world import opq
import re
from pyvc import logic as L
from conda_recipe_manager.parser import _types as PT
from conda_recipe_manager.parser.enums import SelectorConflictMode as SMode
from conda_recipe_manager.parser.selector_parser import SelectorParser
RR = PM + "recipe_reader:RecipeReader."
PC = ("C06",)
ME, MR = {"self": RecipeParser}, {"self": RecipeReader}
from .selre import found, matches, sel_of, match_, group_
rendered = F("selector_render", V, Str)
Contract(PM + "selector_parser:SelectorParser.render", trusted=True, props=PC, params={"self": SelectorParser}, modifies=lambda s: [], ensures=lambda s: [("the text of the selector", to_v(s.result) == V.str(rendered(to_v(s.self))))])
Contract(RR + "_rebuild_selectors", trusted=True, params=MR, props=PC, modifies=lambda s: [("_selector_tbl", s.self)])
FIELDS[(RecipeReader, "_selector_tbl")] = FIELDS.get((RecipeReader, "_selector_tbl"), (("ref", ("dict", (STR,), (("opq", "SelInfos"),))),))
# ------------------------------------------------------------------ the line of a node
def kid0(t, n):
    return V.vr(at(t.kids(n), 0))
def owner(s):
    """(node, parent) at the path, as values"""
    p, t = stk(S_(s.path)), T(s)
    return TRAV(t, root(s), p), TRAV(t, root(s), drop(p, 1))
def beside(t, b, r):
    """r is the only value of the key b, on the same line"""
    k = kid0(t, b)
    return z3.And(V.vb(z3.Select(t.kf, b)), slen(t.kids(b)) == 1, t.is_leaf(k), z3.Not(V.vb(z3.Select(t.kf, k))), z3.Not(t.list_member(k)), r == k)
def on_line(t, n, par, r):
    """node r is on the line of node n, whose parent is par"""
    first = z3.And(t.is_coll(n), r == kid0(t, n))
    shares = z3.And(z3.Not(t.is_coll(n)), par != V.none, t.is_coll(V.vr(par)), kid0(t, V.vr(par)) == n)
    return z3.Or(r == n, beside(t, n, r), first, z3.And(t.is_coll(n), beside(t, kid0(t, n), r)), z3.And(shares, z3.Or(r == V.vr(par), beside(t, V.vr(par), r))))
def new_comments(s, n, par, c):
    """exactly the nodes of the line have the new comment"""
    r = s.ip.st.fresh("r", I)
    old, now = z3.Select(s.old.arr("comment"), r), z3.Select(s.arr("comment"), r)
    line = on_line(T(s.old), n, par, r)
    yield "the line has the new comment", z3.Implies(z3.And(0 <= r, r < s.old.alloc, line), now == c)
    yield "no other line changes", z3.Implies(z3.And(0 <= r, r < s.old.alloc, z3.Not(line)), now == old)
def new_comments_all(s, n, par, c):
    """the same, for use by callers"""
    r = z3.Int("r")
    now = z3.Select(s.arr("comment"), r)
    line = on_line(T(s.old), n, par, r)
    yield "the line has the new comment, no other changes", z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < s.old.alloc), now == z3.If(line, c, z3.Select(s.old.arr("comment"), r))), patterns=[now])
def _slc(s):
    p, t = stk(S_(s.path)), T(s.old)
    par = TRAV(t, root(s.old), drop(p, 1))
    yield from new_comments_all(s, s.node.t, par, to_v(s.comment))
REQ = lambda s: [("children are nodes", wf_kids(s))]
Contract(RP + "_set_line_comment", props=PC, params=ME, requires=REQ, modifies=lambda s: [("comment", None)], ensures=_slc)
# ------------------------------------------------------------------ the edits
s_cat = lambda *xs: V.str(S_(L.mk_str(list(xs)))) if isinstance(L.mk_str(list(xs)), str) else V.str(L.mk_str(list(xs)))
rep = lambda a, x, y, n=-1: L.sreplace(a, lit(x) if isinstance(x, str) else x, lit(y), z3.IntVal(n))
def inner(t):
    """a selector without its outer brackets"""
    return L.s_rev(rep(L.s_rev(rep(t, "[", "", 1)), "]", "", 1))
def selector_text(v):
    return z3.If(V.is_ref(v), rendered(v), V.vs(v))
def merged(c, x, mode):
    """the comment of a line once selector x is added to comment c"""
    is_and = mode == to_v(SMode.AND)
    both = lambda op: s_cat("# [", inner(sel_of(c)), f" {op} ", inner(x), "]")
    alone = s_cat("# ", x)
    return z3.If(z3.Or(c == lit(""), mode == to_v(SMode.REPLACE)), alone,
        z3.If(found(c), z3.If(is_and, both("and"), both("or")), s_cat("# ", x, " ", s_strip(rep(c, "#", "", 1)))))
def edit(s, text):
    """the line has the comment, and only that changed"""
    n, par = owner(s.old)
    yield "there is such a line", n != V.none
    yield from new_comments(s, V.vr(n), par, text)
    yield "flags the recipe as modified", V.vb(s.fv(s.self, "_is_modified"))
def nothing(s):
    return z3.And(s.arr("comment") == s.old.arr("comment"), s.fv(s.self, "_is_modified") == s.old.fv(s.self, "_is_modified"))
EDITS = lambda s: [("comment", None), ("_is_modified", s.self), ("_selector_tbl", s.self)]
def old_comment(s):
    return V.vs(z3.Select(s.old.arr("comment"), V.vr(owner(s.old)[0])))
lines = lambda s: owner(s.old)[0] != V.none
Contract(RP + "add_selector", props=PC, params=ME, requires=REQ, modifies=EDITS, ensures=lambda s: _added(s),
    raises={KeyError: lambda s: [("there is no such line", z3.Not(lines(s))), ("nothing changes", nothing(s))],
            ValueError: lambda s: [("the selector is malformed", z3.Not(matches(selector_text(to_v(s.selector))))), ("nothing changes", nothing(s))]})
def _added(s):
    x = selector_text(to_v(s.selector))
    yield from edit(s, merged(old_comment(s), x, to_v(s.mode)))
    yield "the selector is well-formed", matches(x)
def cleaned(c):
    r = rep(rep(rep(c, sel_of(c), ""), "#  ", "# "), "# # ", "# ")
    return z3.If(s_strip(r) == lit("#"), lit(""), r)
def _removed(s):
    c, res = old_comment(s), to_v(s.result)
    n, par = owner(s.old)
    yield "there is such a line", n != V.none
    yield "returns the selector, if there is one", res == z3.If(found(c), V.str(sel_of(c)), V.none)
    yield "without a selector nothing changes", z3.Implies(z3.Not(found(c)), nothing(s))
    for l, f in edit(s, V.str(cleaned(c))):
        yield l, z3.Implies(found(c), f)
Contract(RP + "remove_selector", props=PC, params=ME, requires=REQ, modifies=EDITS, ensures=_removed,
    raises={KeyError: lambda s: [("there is no such line", z3.Not(lines(s))), ("nothing changes", nothing(s))]})
def commented(c, text):
    """the comment of a line once a text is put on it"""
    k = s_strip(text)
    mark = lambda x: L.char_at(x, z3.IntVal(0)) == lit("#")
    bare = z3.If(mark(k), s_strip(L.substr(k, z3.IntVal(1), strlen(k))), k)
    return z3.If(found(c), s_cat("# ", sel_of(c), " ", bare), z3.If(mark(k), V.str(k), s_cat("# ", k)))
bad_comment = lambda s: z3.Or(s_strip(S_(s.comment)) == lit(""), matches(s_strip(S_(s.comment))))
def _commented(s):
    yield from edit(s, commented(old_comment(s), S_(s.comment)))
    yield "it is a comment", z3.Not(bad_comment(s))
Contract(RP + "add_comment", props=PC, params=ME, requires=REQ, modifies=EDITS, ensures=_commented,
    raises={KeyError: lambda s: [("there is no such line", z3.Not(lines(s))), ("nothing changes", nothing(s))],
            ValueError: lambda s: [("it is blank or a selector", bad_comment(s)), ("nothing changes", nothing(s))]})
# ------------------------------------------------------------------ the queries
def _sat(s):
    c, d = old_comment(s), to_v(s.default)
    yield "there is such a line", lines(s)
    yield "the selector on the line, or the default", to_v(s.result) == z3.If(found(c), V.str(sel_of(c)), d)
Contract(RR + "get_selector_at_path", props=PC, params=MR, modifies=lambda s: [], ensures=_sat,
    raises={KeyError: lambda s: z3.Or(z3.Not(lines(s)), z3.And(z3.Not(found(old_comment(s))), to_v(s.default) == to_v(RecipeReader._sentinel))),
            ValueError: lambda s: z3.And(lines(s), z3.Not(found(old_comment(s))), z3.Not(matches(V.vs(to_v(s.default)))))})
Contract(RR + "contains_selector_at_path", props=PC, params=MR, modifies=lambda s: [], ensures=lambda s: [("there is a selector on the line", s.truth(s.result) == z3.And(lines(s), found(old_comment(s))))])
