"""Locating the target of a patch (parser/_traverse.py, parser/recipe_parser.py)."""
from . import env
from .tree import *
from pyvc import logic as L_
from .tree import _a, _b, _c, _d, _s, _p, _i, _j, _x, _m, _l, _vs
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.types import JsonType

PATCH_PROPS = ("C03", "C04", "C05")
RP = PM + "recipe_parser:RecipeParser."
ROOT = V.str(lit("/"))
def TRAV(t, n, p):
    """the node (as V) found at path p below n"""
    k = slen(p)
    return z3.If(z3.Or(n == V.none, k == 0), V.none, z3.If(k == 1, z3.If(at(p, 0) == ROOT, n, V.none), RES(t, V.vr(n), p, k - 1)))
PATHREQ = lambda s: [("path elements are strings", strs(s.seq(s.path)))]
def ref_or_none(v):
    return z3.If(V.is_ref(v), v, V.none)
L_res_last = Lemma("res_last", H4 + [_l, _x, _p],
    lambda n, a, b, c, d, l, x, p: z3.Implies(z3.And(1 <= n, n <= slen(p)), res(a, b, c, d, l, x, p, n) ==
        z3.If(V.is_ref(res(a, b, c, d, l, x, drop(p, 1), n - 1)), ref_or_none(step(TA(a, b, c, d, l), V.vr(res(a, b, c, d, l, x, drop(p, 1), n - 1)), V.vs(at(p, 0)))), V.none)),
    lambda n, a, b, c, d, l, x, p: [MP(res(a, b, c, d, l, x, p, n), drop(p, 1))])
Contract(PM + "_traverse:traverse", props=TREE_PROPS + ("C04", "C06"), requires=PATHREQ, modifies=lambda s: [("#list", s.path)],
    ensures=lambda s: [("finds the node at the path below the start node, or nothing", to_v(s.result) == TRAV(T(s.old), to_v(s.node), s.old.seq(s.path)))], reaches=("node", TREE_FIELDS, None),
    uses=[L_res_take])
def first_of(r):
    return r[0] if isinstance(r, tuple) else IT.NT and r.vals[0]
def _twi(s):
    p, t = s.old.seq(s.path), T(s.old)
    n, v, ph = s.result if isinstance(s.result, tuple) else tuple(s.ip.tuple_items(s.result))
    n, v, ph = to_v(n), int_t(v), int_t(ph)
    k = slen(p)
    idx = z3.And(k > 0, s_isdecimal(V.vs(at(p, 0))))
    q = drop(p, 1)
    m = VP(t, t.kids(V.vr(n)))
    yield "finds the node, or the list that holds it", n == z3.If(idx, TRAV(t, V.ref(s.root.t), q), TRAV(t, V.ref(s.root.t), p))
    yield "reports the position users see", v == z3.If(idx, atoi(V.vs(at(p, 0))), -1)
    yield "positions lie within the list", z3.And(ph >= -1, z3.Implies(n == V.none, ph == -1), z3.Implies(n != V.none, ph < slen(t.kids(V.vr(n)))))
    yield "reports the position among all lines", ph == z3.If(z3.And(idx, n != V.none, v < slen(m)), V.vi(at(m, v)), -1)
Contract(PM + "_traverse:traverse_with_index", props=TREE_PROPS + ("C04",), requires=PATHREQ, modifies=lambda s: [("#list", s.path)], ensures=_twi, uses=VPL, reaches=("root", TREE_FIELDS, first_of))

# ------------------------------------------------------------------ node predicates of the patch operations
def valid_node(t, n, idx):
    """n: V; idx: int"""
    r = V.vr(n)
    m = VP(t, t.kids(r))
    leaf = z3.And(z3.Not(t.list_member(r)), z3.Not(V.vb(z3.Select(t.kf, r))), t.is_leaf(r))
    return z3.And(n != V.none, z3.Not(leaf), z3.Implies(idx >= 0, z3.And(idx < slen(m), t.list_member(V.vr(at(t.kids(r), V.vi(at(m, idx))))))))
Contract(RP + "_is_valid_patch_node", props=PATCH_PROPS,
    ensures=lambda s: [("a node that can be patched, at a position that exists", s.truth(s.result) == valid_node(T(s.old), to_v(s.node), int_t(s.node_idx)))], uses=VPL)
# among the first n of s: all are keys (list members) or comments
allk = RecFn("allk", [ArrV, ArrV, ArrV, ArrS, ArrV, Sq, I], B, lambda a, b, c, d, k, s, n: z3.Or(n <= 0, z3.And(allk(a, b, c, d, k, s, n - 1),
    z3.Or(V.vb(z3.Select(k, V.vr(at(s, n - 1)))), TA(a, b, c, d).is_comment(V.vr(at(s, n - 1)))))))
L_allk = Lemma("allk_each", H4 + [_l, _s, _j],
    lambda n, a, b, c, d, k, s, j: z3.Implies(z3.And(allk(a, b, c, d, k, s, n), 0 <= j, j < n), z3.Or(V.vb(z3.Select(k, V.vr(at(s, j)))), TA(a, b, c, d).is_comment(V.vr(at(s, j))))),
    lambda n, a, b, c, d, k, s, j: [MP(allk(a, b, c, d, k, s, n), at(s, j))])
def kids_all(t, n, flag, m=None):
    return allk(*t.key(), flag, t.kids(n), slen(t.kids(n)) if m is None else m)
def mapping_node(t, n):
    return z3.And(z3.Or(_vs(t, n) == to_v("/"), V.vb(z3.Select(t.kf, n)), t.is_coll(n)), kids_all(t, n, t.kf))
def list_node(t, n):
    return z3.And(V.vb(z3.Select(t.kf, n)), kids_all(t, n, t.lmf))
for _n, _f, _g in (("_is_mapping_node", mapping_node, "kf"), ("_is_list_node", list_node, "lmf")):
    Contract(RP + _n, props=PATCH_PROPS, uses=[L_allk],
        ensures=lambda s, _f=_f: [("holds only " + ("keys" if _f is mapping_node else "list members") + " and comments", s.truth(s.result) == _f(T(s.old), s.node.t))],
        templates=[("all so far", lambda L, _g=_g: [("all so far", kids_all(T(L.fn), L.fn.args["node"].t, getattr(T(L.fn), _g), L.i))])])

# ------------------------------------------------------------------ the operations
FIELDS.update({(RecipeReader, "_root"): (("ref", Node),), (RecipeReader, "_is_modified"): (BOOL,)})
def root(s):
    return s.fv(s.self, "_root")
Contract(PM + "_node:Node.__eq__", params={"self": Node, "other": Node}, props=("C03",), modifies=lambda s: [],
    ensures=lambda s: [("a key equals itself", z3.Implies(z3.And(s.self.t == s.other.t, V.is_str(s.old.fv(s.self, "value"))), s.truth(s.result))),
                       ("keys of different names differ", z3.Implies(z3.And(s.truth(s.result), z3.Or(V.is_str(s.old.fv(s.self, "value")), V.is_str(s.old.fv(s.other, "value")))),
                                                                    s.old.fv(s.self, "value") == s.old.fv(s.other, "value")))])
def wf_kids(s):
    """children are nodes (typing of the heap)"""
    q, o = z3.Ints("q o")
    t = T(s)
    return z3.ForAll([o, q], z3.Implies(z3.And(0 <= q, q < slen(t.kids(o))), V.is_ref(at(t.kids(o), q))), patterns=[at(t.kids(o), q)])
OPREQ = lambda s: [("path elements are strings", strs(s.seq(s.path_stack))), ("children are nodes", wf_kids(s))]
def rm_target(s):
    """(removal possible, list of the parent, position in it)"""
    t, p, r = T(s), s.seq(s.path_stack), root(s)
    dec = s_isdecimal(V.vs(at(p, 0)))
    k = z3.If(dec, atoi(V.vs(at(p, 0))), -1)
    n, par = TRAV(t, r, p), TRAV(t, r, drop(p, 1))
    pr = V.vr(par)
    j = z3.If(dec, V.vi(at(VP(t, t.kids(pr)), k)), fc(t.value, t.kids(pr), V.vs(at(p, 0)), slen(t.kids(pr))))
    return z3.And(slen(p) > 0, valid_node(t, n, z3.IntVal(-1)), valid_node(t, par, k)), V.vr(z3.Select(t.children, pr)), t.kids(pr), j
def _rm(s):
    ok, lst, kids, j = rm_target(s.old)
    now = z3.Select(s.arr(NODES), lst)
    yield "succeeds only if there is something to remove", z3.Implies(s.truth(s.result), ok)
    yield "takes out exactly the addressed item or key", z3.Implies(s.truth(s.result), z3.And(0 <= j, j < slen(kids), now == s.ip.sdel(kids, j)))
    yield "a removal that fails changes nothing", z3.Implies(z3.Not(s.truth(s.result)), now == kids)
    yield "what is there can be removed", z3.Implies(ok, s.truth(s.result))
Contract(RP + "_patch_remove", params={"self": RecipeParser}, props=PATCH_PROPS, requires=OPREQ,
    modifies=lambda s: [("#list", s.path_stack), (NODES, rm_target(s)[1])], ensures=_rm, uses=VPL + FCL + [L_res_last],
    templates=[("search", lambda L: [("not found so far", fc(T(L.fn).value, rm_target(L.fn)[2], V.vs(at(L.fn.seq(L.fn.args["path_stack"]), 0)), L.i) < 0)])])

# ------------------------------------------------------------------ add / replace
def nonempty(s):
    i = z3.Int("i")
    p = s.seq(s.path_stack)
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < slen(p)), at(p, i) != V.str(lit(""))), patterns=[at(p, i)])
PATHSOK = lambda s: OPREQ(s) + [("path elements are not empty", nonempty(s))]
def TWI(t, r, p):
    """(node, position users see, position among all lines) at a path; -1 stands for no position"""
    idx = z3.And(slen(p) > 0, s_isdecimal(V.vs(at(p, 0))))
    n = z3.If(idx, TRAV(t, r, drop(p, 1)), TRAV(t, r, p))
    m = VP(t, t.kids(V.vr(n)))
    v = z3.If(idx, atoi(V.vs(at(p, 0))), -1)
    return n, v, z3.If(z3.And(idx, n != V.none, v < slen(m)), V.vi(at(m, v)), -1)
def add_target(s):
    """(node, virtual, physical, key to create as V.str, appends) as RFC 6902 locates the target of `add`"""
    t, p, r = T(s), s.seq(s.path_stack), root(s)
    app = z3.And(slen(p) > 0, at(p, 0) == V.str(lit("-")))
    n1, v1, ph1 = TWI(t, r, p)
    create = z3.And(z3.Not(app), n1 == V.none)
    n = z3.If(z3.Or(app, create), TRAV(t, r, drop(p, 1)), n1)
    m1 = z3.IntVal(-1)
    bad = z3.Or(slen(p) == 0, z3.And(n != V.none, z3.Or(z3.And(create, z3.Not(mapping_node(t, V.vr(n)))), z3.And(app, z3.Not(list_node(t, V.vr(n)))))))
    return (z3.If(bad, V.none, n), z3.If(z3.Or(bad, app, create), m1, v1), z3.If(z3.Or(bad, app, create), m1, ph1),
            z3.If(z3.Or(bad, z3.Not(create)), V.str(lit("")), at(p, 0)), z3.And(z3.Not(bad), app))
def _aft(s):
    res = s.result if isinstance(s.result, tuple) else tuple(s.ip.tuple_items(s.result))
    n, v, ph, c, a = add_target(s.old)
    yield "finds the node to change, if the parent exists and is of the right kind", to_v(res[0]) == n
    rn, rp = to_v(res[0]), int_t(res[2])
    rc = to_v(res[3])
    yield "positions lie within the list", z3.And(rp >= -1, int_t(res[1]) >= -1, z3.Implies(rn == V.none, rp == -1), z3.Implies(rn != V.none, rp < slen(T(s.old).kids(V.vr(rn)))))
    yield "only an item of a list that exists has a position", z3.Implies(z3.Or(s.truth(res[4]), rc != V.str(lit(""))), z3.And(rp == -1, int_t(res[1]) == -1))
    yield "does not both append and create", z3.Not(z3.And(s.truth(res[4]), rc != V.str(lit(""))))
    yield "finds the positions", z3.And(int_t(res[1]) == v, int_t(res[2]) == ph)
    yield "creates at most the last key of the path", to_v(res[3]) == c
    yield "appends iff the path ends in -", s.truth(res[4]) == a
Contract(RP + "_patch_add_find_target", params={"self": RecipeParser}, props=PATCH_PROPS, requires=PATHSOK, modifies=lambda s: [("#list", s.path_stack)], ensures=_aft, uses=VPL, reaches=("self", ("_root",) + TREE_FIELDS, first_of))

# The tree generator (YAML dump and parse) is trusted; ghosts record what it was asked for and what it gave.
GEN = [("gen_value", V), ("gen_dict", dempty.sort()), ("gen_nodes", Sq)]
GENMOD = [("ghost:" + g, None) for g, _ in GEN]
def dict_at(s, v):
    return s.ip.st.sel("#dict", V.vr(v), s.arr("#dict"))
def nodes_at(s, v):
    return s.ip.st.sel(NODES, V.vr(v), s.arr(NODES))
def gmid(s, seq, lo, hi, new):
    """seq[lo:hi] are the nodes `new`"""
    return take(drop(seq, lo), hi - lo) == new
def all_new(seq, alloc, name="q"):
    q = z3.Int(name)
    return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < slen(seq)), z3.And(V.is_ref(at(seq, q)), V.vr(at(seq, q)) >= alloc)), patterns=[at(seq, q)])
def _gens(s):
    r = to_v(s.result)
    yield "a new list", z3.Implies(r != V.none, V.vr(r) >= s.old.alloc)
    yield "new nodes only", z3.Implies(r != V.none, all_new(nodes_at(s, r), s.old.alloc))
    yield "are those generated for the value", z3.Implies(r != V.none, z3.And(s.ghost["gen_value"] == to_v(s.value), s.ghost["gen_dict"] == dict_at(s.old, to_v(s.value)),
                                                                            s.ghost["gen_nodes"] == nodes_at(s, r)))
YE = __import__("yaml").YAMLError
Contract(RP + "_generate_patch_subtree", props=("C03", "C04"), ensures=_gens, ghosts=GEN, modifies=lambda s: GENMOD)
Contract(PM + "recipe_reader:RecipeReader._generate_subtree", trusted=True, props=("C03", "C04"), ensures=_gens, ghosts=GEN, modifies=lambda s: GENMOD,
    raises={IndexError: lambda s: z3.BoolVal(True), YE: lambda s: z3.BoolVal(True)})

def prim(v):
    return z3.Not(V.is_ref(v))
def put_members(s, kids, now, lo, hi, value):
    """now = kids[:lo] + new list members for `value` + kids[hi:]"""
    m = slen(now) - slen(kids) + (hi - lo)
    new = take(drop(now, lo), m)
    g = s.ghost["gen_nodes"]
    w = V.vr(at(new, 0))
    t = T(s)
    q = s.ip.st.fresh("q", I)
    yield "keeps the items before", take(now, lo) == take(kids, lo)
    yield "keeps the items after", drop(now, lo + m) == drop(kids, hi)
    yield "puts in the nodes generated for the value", z3.If(prim(value), new == g, z3.And(m == 1, w >= s.old.alloc, t.kids(w) == g, t.list_member(w), z3.Not(V.vb(z3.Select(t.kf, w)))))
    yield "the new nodes are list members", z3.Implies(z3.And(0 <= q, q < m), t.list_member(V.vr(at(new, q))))
def changed_node_mod(n):
    return [(NODES, V.vr(n))]
def set_children(s, n, value_ok):
    """the node's children are now the generated ones, and nothing else"""
    t = T(s)
    yield "the children are the nodes generated for the value", t.kids(n) == s.ghost["gen_nodes"]
def rep_target(s):
    t, p, r = T(s), s.seq(s.path_stack), root(s)
    n, v, ph = TWI(t, r, p)
    return n, ph, z3.And(valid_node(t, n, v), z3.Not(z3.And(ph > -1, V.is_ref(to_v(s.value)), islist(s, to_v(s.value)))))
def islist(s, v):
    return s.truth(s.ip.isinstance_(s.value, list))
def _rep_mod(s):
    n, ph, ok = rep_target(s)
    r = V.vr(n)
    t = T(s)
    return GENMOD + [("#list", s.path_stack), (NODES, V.vr(z3.Select(t.children, r))), ("children", r)]
def _rep(s):
    o = s.old
    n, ph, ok = rep_target(o)
    r, t0, t = V.vr(n), T(o), T(s)
    k0, k = t0.kids(r), t.kids(r)
    okr = s.truth(s.result)
    v = to_v(s.value)
    yield "succeeds only if the addressed value exists and the new one can be written there", z3.Implies(okr, ok)
    yield "what fails changes nothing", z3.Implies(z3.Not(okr), z3.And(k == k0, z3.Select(t.children, r) == z3.Select(t0.children, r)))
    yield "uses the value of the patch", z3.Implies(okr, s.ghost["gen_value"] == v)
    for nm, f in put_members(s, k0, k, ph, ph + 1, v):
        yield "at a list position: " + nm, z3.Implies(z3.And(okr, ph > -1), f)
    yield "elsewhere the children are the nodes generated for the value", z3.Implies(z3.And(okr, ph <= -1), k == s.ghost["gen_nodes"])
    yield "a list item keeps its list", z3.Implies(z3.And(okr, ph > -1), z3.Select(t.children, r) == z3.Select(t0.children, r))
def _mark_templates(L):
    q = z3.Int("q")
    lm = L._arr("list_member_flag")
    for n, sq in L.lists():
        yield f"{n} marked so far", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < L.i, q < slen(sq)), V.vb(z3.Select(lm, V.vr(at(sq, q))))), patterns=[at(sq, q)])
Contract(RP + "_patch_replace", params={"self": RecipeParser}, props=PATCH_PROPS, requires=PATHSOK, ghosts=GEN, modifies=_rep_mod, ensures=_rep, uses=VPL, templates=[("mark", _mark_templates)])
def _add_ctx(s):
    t = T(s)
    n, v, ph, c, app = add_target(s)
    creates = c != V.str(lit(""))
    member = z3.Or(app, ph > -1)
    ok = z3.And(valid_node(t, n, v), z3.Not(z3.And(member, z3.Not(creates), V.is_ref(to_v(s.value)), islist(s, to_v(s.value)))))
    return n, ph, c, app, creates, member, ok
def _add_mod(s):
    n = _add_ctx(s)[0]
    r = V.vr(n)
    return GENMOD + [("#list", s.path_stack), (NODES, V.vr(z3.Select(T(s).children, r))), ("children", r)]
def _add(s):
    o = s.old
    n, ph, c, app, creates, member, ok = _add_ctx(o)
    r, t0, t = V.vr(n), T(o), T(s)
    k0, k = t0.kids(r), t.kids(r)
    okr = s.truth(s.result)
    v = to_v(s.value)
    yield "succeeds only if the parent exists and the value can be written there", z3.Implies(okr, ok)
    yield "what fails changes nothing", z3.Implies(z3.Not(okr), z3.And(k == k0, z3.Select(t.children, r) == z3.Select(t0.children, r)))
    yield "uses the value of the patch", z3.Implies(z3.And(okr, z3.Not(creates)), s.ghost["gen_value"] == v)
    yield "a new key gets the value of the patch", z3.Implies(z3.And(okr, creates), s.ghost["gen_dict"] == dset(dempty, c, v))
    lo = z3.If(app, slen(k0), ph)
    for nm, f in put_members(s, k0, k, lo, lo, v):
        yield "in a list: " + nm, z3.Implies(z3.And(okr, member), f)
    yield "a new key goes after the existing ones", z3.Implies(z3.And(okr, creates), z3.And(take(k, slen(k0)) == k0, drop(k, slen(k0)) == s.ghost["gen_nodes"]))
    yield "an existing key gets the nodes generated for the value", z3.Implies(z3.And(okr, z3.Not(member), z3.Not(creates)), k == s.ghost["gen_nodes"])
Contract(RP + "_patch_add", params={"self": RecipeParser}, props=PATCH_PROPS, requires=PATHSOK, ghosts=GEN, modifies=_add_mod, ensures=_add, uses=VPL, templates=[("mark", _mark_templates)])

# ------------------------------------------------------------------ queries the operations use
def strs_nonempty(seq):
    i = z3.Int("i")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < slen(seq)), z3.And(V.is_str(at(seq, i)), at(seq, i) != V.str(lit("")))), patterns=[at(seq, i)])
def _stp_templates(L):
    q = z3.Int("q")
    for n, sq in L.lists():
        yield f"{n} has no empty part so far", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < L.i), at(sq, q) != V.str(lit(""))), patterns=[at(sq, q)])
        yield f"{n} are strings", strs(sq)
        yield f"{n} keeps its length", slen(sq) == L.it.length()
        yield f"{n} has at least one part", slen(sq) >= 1
stk = z3.Function("path_parts", Str, Sq)
def parts_of(p):
    """the text between the slashes, without a trailing slash"""
    return ssplit(z3.If(z3.And(strlen(p) > 0, L_.char_at(p, strlen(p) - 1) == lit("/")), L_.s_chop(p, z3.IntVal(1)), p), lit("/"))
def slashed(v):
    return z3.If(v == V.str(lit("")), ROOT, v)
def stack_def(s):
    """path_parts(p): the parts of a path, last first, the root by its name (definition)"""
    p, i = S_(s.path), z3.Int("i")
    P = parts_of(p)
    yield z3.And(slen(stk(p)) == slen(P), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < slen(P)), at(stk(p), i) == slashed(at(P, slen(P) - 1 - i))), patterns=[at(stk(p), i)]))
def _stp_parts(L):
    q = z3.Int("q")
    P = parts_of(S_(L.fn.args["path"]))
    for n, sq in L.lists():
        yield f"{n} is done so far", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < slen(P)), at(sq, q) == z3.If(q < L.i, slashed(at(P, q)), at(P, q))), patterns=[at(sq, q)])
        yield f"{n} one per part", slen(sq) == slen(P)
Contract(PM + "_utils:str_to_stack_path", props=TREE_PROPS + ("C04", "C06"), fresh=True, assume=stack_def,
    ensures=lambda s: [("has at least one part", slen(s.seq(s.result)) >= 1), ("parts are non-empty strings", strs_nonempty(s.seq(s.result))), ("parts are strings", strs(s.seq(s.result))),
                       ("the parts of the path, last first", L_.seq_eq(s.seq(s.result), stk(S_(s.path))))],
    templates=[("parts", _stp_templates), ("done", _stp_parts)])

# get_value renders and re-parses a subtree (trusted: no effect on the tree); ghosts record the last answer
GV = [("gv_found", B), ("gv_value", V), ("gv_path", V)]
GVMOD = [("ghost:" + g, None) for g, _ in GV]
def _gv(s):
    yield "", s.ghost["gv_path"] == to_v(s.path)
    yield "", z3.If(s.ghost["gv_found"], s.ghost["gv_value"] == to_v(s.result), z3.And(to_v(s.result) == to_v(s.default), to_v(s.default) != to_v(RecipeReader._sentinel)))
Contract(PM + "recipe_reader:RecipeReader.get_value", trusted=True, params={"self": RecipeReader}, props=PATCH_PROPS, ghosts=GV, modifies=lambda s: GVMOD, ensures=_gv,
    raises={KeyError: lambda s: z3.And(z3.Not(s.ghost["gv_found"]), to_v(s.default) == to_v(RecipeReader._sentinel), s.ghost["gv_path"] == to_v(s.path))})
Contract(RP + "_patch_test", params={"self": RecipeParser}, props=("C04",), ghosts=GV, modifies=lambda s: GVMOD,
    ensures=lambda s: [("looks at the given path", s.ghost["gv_path"] == to_v(s.path)),
                       ("reports whether there is a value and it equals the given one", s.truth(s.result) == z3.And(s.ghost["gv_found"], s.ip._z(s.ip.eq(s.ip.from_v(s.ghost["gv_value"], VL.ty(JsonType)), s.value))))])

# ------------------------------------------------------------------ move, copy, dispatch
def tree_same(s):
    """every node has the children it had (checked for an arbitrary node)"""
    o, n = s.old, s.ip.st.fresh("n", I)
    return z3.Implies(z3.And(0 <= n, n < s.old.alloc), z3.And(T(s).kids(n) == T(o).kids(n), z3.Select(s.arr("value"), n) == z3.Select(o.arr("value"), n),
        z3.Select(s.arr("comment"), n) == z3.Select(o.arr("comment"), n), z3.Select(s.arr("list_member_flag"), n) == z3.Select(o.arr("list_member_flag"), n),
        z3.Select(s.arr("key_flag"), n) == z3.Select(o.arr("key_flag"), n)))
def tree_same_all(s):
    """the same, quantified (for use by callers)"""
    n = z3.Int("n")
    o = s.old
    parts = [T(s).kids(n) == T(o).kids(n)] + [z3.Select(s.arr(f), n) == z3.Select(o.arr(f), n) for f in ("value", "comment", "list_member_flag", "key_flag")]
    return z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < s.old.alloc), z3.And(parts)), patterns=[z3.Select(s.arr("children"), n), z3.Select(s.arr("value"), n)])
def sep_lists(s):
    """no two nodes share a list of children"""
    a, b = z3.Ints("a b")
    ch = s.arr("children")
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < s.ip.st.A0, 0 <= b, b < s.ip.st.A0, V.vr(z3.Select(ch, a)) == V.vr(z3.Select(ch, b))), a == b),
                     patterns=[MP(z3.Select(ch, a), z3.Select(ch, b))])
TREEMOD = [(NODES, None), ("children", None), ("list_member_flag", None)]
def _copy(s):
    g, og = s.ghost, s.old
    n, ph, c, app, creates, member, ok = _add_ctx(s.old)
    okr = s.truth(s.result)
    yield "copies the value at the given path", z3.And(g["gv_path"] == to_v(s.value_from), z3.Implies(z3.And(okr, z3.Not(creates)), g["gen_value"] == g["gv_value"]))
    yield "under the new key, if one is created", z3.Implies(z3.And(okr, creates), g["gen_dict"] == dset(dempty, c, g["gv_value"]))
    yield "needs a value to copy", z3.Implies(okr, g["gv_found"])
    yield "what fails changes nothing", z3.Implies(z3.Not(okr), tree_same_all(s))
class _Val:
    """a Spec with the argument `value` filled in"""
    def __init__(self, s, v):
        self.__dict__["_s"], self.__dict__["value"] = s, v
    def __getattr__(self, n):
        return getattr(self._s, n)
ANYV = Sym("any", V.none, VL.ty(JsonType))
_add_ctx0 = _add_ctx
def _add_ctx(s):
    return _add_ctx0(s if "value" in s.args else _Val(s, ANYV))
Contract(RP + "_patch_copy", params={"self": RecipeParser}, props=PATCH_PROPS, requires=PATHSOK, ghosts=GEN + GV, modifies=lambda s: GENMOD + GVMOD + _add_mod(s), ensures=_copy, uses=VPL)
TREEREQ = lambda s: PATHSOK(s) + [("nodes do not share lists of children", sep_lists(s))]
def _move(s):
    g = s.ghost
    okr = s.truth(s.result)
    p = s.old.seq(s.path_stack)
    yield "moves the value at the given path", z3.And(z3.Implies(okr, g["gv_path"] == to_v(s.value_from)),
        z3.Implies(okr, z3.And(g["gv_found"], z3.Or(g["gen_value"] == g["gv_value"], g["gen_dict"] == dset(dempty, at(p, 0), g["gv_value"])))))
    yield "needs a target that exists", z3.Implies(okr, valid_node(T(s.old), *add_target(s.old)[:2]))
    yield "what fails changes nothing", z3.Implies(z3.Not(okr), tree_same_all(s))
Contract(RP + "_patch_move", trusted=True, params={"self": RecipeParser}, props=PATCH_PROPS, requires=TREEREQ, ghosts=GEN + GV, modifies=lambda s: GENMOD + GVMOD + TREEMOD + [("#list", s.path_stack)], ensures=_move, uses=VPL)

# ------------------------------------------------------------------ patch
PVT = VL.ty(JsonType)
OPS = ("add", "remove", "replace", "move", "copy", "test")
def pd(s):
    return s.dic(s.patch)
def conforms(d):
    """what the patch schema guarantees (jsonschema is trusted)"""
    op = dget(d, to_v("op"))
    yield dhas(d, to_v("op"))
    yield dhas(d, to_v("path"))
    yield z3.And(V.is_str(dget(d, to_v("path"))), strlen(V.vs(dget(d, to_v("path")))) > 0)
    yield z3.Or(*[op == to_v(x) for x in OPS])
    yield z3.Implies(z3.Or(*[op == to_v(x) for x in ("add", "replace", "test")]), dhas(d, to_v("value")))
    yield z3.Implies(z3.Or(*[op == to_v(x) for x in ("move", "copy")]), z3.And(dhas(d, to_v("from")), V.is_str(dget(d, to_v("from")))))
def _op(s):
    g = s.ghost
    okr, d, op = s.truth(s.result), pd(s.old), V.str(S_(s.op))
    yield "what fails changes nothing", z3.Implies(z3.Not(okr), tree_same_all(s))
    yield "a test changes nothing", z3.Implies(op == to_v("test"), tree_same_all(s))
    yield "a test reports whether the value at the path equals the given one", z3.Implies(op == to_v("test"), z3.And(g["gv_path"] == to_v(s.path),
        okr == z3.And(g["gv_found"], s.ip._z(s.ip.eq(s.ip.from_v(g["gv_value"], PVT), s.ip.from_v(dget(d, to_v("value")), PVT))))))
    yield "only the six operations succeed", z3.Implies(okr, z3.Or(*[op == to_v(x) for x in OPS]))
def _op_req(s):
    d = pd(s)
    yield "the patch conforms to the schema", z3.And(*conforms(d), dget(d, to_v("op")) == V.str(S_(s.op)), dget(d, to_v("path")) == V.str(S_(s.path)))
    yield "children are nodes", wf_kids(s)
    yield "nodes do not share lists of children", sep_lists(s)
Contract(RP + "_call_patch_op", params={"self": RecipeParser, "patch": dict[str, JsonType]}, props=PATCH_PROPS, requires=_op_req, ghosts=GEN + GV,
    modifies=lambda s: GENMOD + GVMOD + TREEMOD, ensures=_op, uses=VPL)

import jsonschema
from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA
def _validate(ip, a, kw):
    """jsonschema.validate: raises ValidationError, or the instance conforms; no effect"""
    if a[1] is not JSON_PATCH_SCHEMA:
        raise Unsupported("validation against another schema")
    if ip.st.choose(2, "schema") == 1:
        raise PyExc(ExcVal(jsonschema.exceptions.ValidationError))
    d = ip.st.sel("#dict", a[0].t)
    for f in conforms(d):
        ip.st.assume(f)
    return None
for _fn in {jsonschema.validate}:
    EXTERNALS[_fn] = _validate
IDXF = ("value", "comment", "children", "#nodes")
IDX = [("idx_" + f.strip("#"), z3.Array("x", I, Sq if f == "#nodes" else V).sort()) for f in IDXF]
def idx_current(s):
    """the selector table was built from the tree as it is now (in the fields that say which selectors there are and where)"""
    return z3.And(*[s.ghost["idx_" + f.strip("#")] == s.arr(f) for f in IDXF])
IDXMOD = [("ghost:" + g, None) for g, _ in IDX]
Contract(PM + "recipe_reader:RecipeReader._rebuild_selectors", trusted=True, params={"self": RecipeReader}, props=("C05",), ghosts=IDX,
    modifies=lambda s: IDXMOD + [("_selector_tbl", s.self)], ensures=lambda s: [("indexes the current tree", idx_current(s))])
def _patch(s):
    o, g, og = s.old, s.ghost, s.old.ghost
    d = pd(o)
    op = dget(d, to_v("op"))
    okr = s.truth(s.result)
    mod, mod0 = s.fv(s.self, "_is_modified"), o.fv(s.self, "_is_modified")
    test = op == to_v("test")
    idx_same = z3.And(*[g[n] == og[n] for n, _ in IDX])
    yield "what fails changes nothing", z3.Implies(z3.Not(okr), z3.And(tree_same_all(s), mod == mod0, idx_same))
    yield "a test changes nothing", z3.Implies(test, z3.And(tree_same_all(s), mod == mod0, idx_same))
    yield "a test reports whether the value at the path equals the given one", z3.Implies(test, z3.And(g["gv_path"] == dget(d, to_v("path")),
        okr == z3.And(g["gv_found"], s.ip._z(s.ip.eq(s.ip.from_v(g["gv_value"], PVT), s.ip.from_v(dget(d, to_v("value")), PVT))))))
    yield "an edit flags the recipe as modified or changes nothing", z3.Implies(z3.And(okr, z3.Not(test)), z3.Or(V.vb(mod), z3.And(op == to_v("move"), tree_same_all(s), mod == mod0)))
    yield "after an edit the selectors are indexed afresh", z3.Implies(z3.And(okr, z3.Not(test)), z3.Or(idx_current(s), z3.And(op == to_v("move"), tree_same_all(s), idx_same)))
def _patch_req(s):
    yield "children are nodes", wf_kids(s)
    yield "nodes do not share lists of children", sep_lists(s)
Contract(RP + "patch", params={"self": RecipeParser, "patch": dict[str, JsonType]}, props=PATCH_PROPS, requires=_patch_req, ghosts=GEN + GV + IDX,
    modifies=lambda s: GENMOD + GVMOD + TREEMOD + IDXMOD + [("_is_modified", s.self), ("_selector_tbl", s.self)], ensures=_patch,
    raises={JsonPatchValidationException: lambda s: z3.And(tree_same_all(s), s.fv(s.self, "_is_modified") == s.old.fv(s.self, "_is_modified"), *[s.ghost[n] == s.old.ghost[n] for n, _ in IDX])}, uses=VPL)
