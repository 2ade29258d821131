"""Node, paths and tree traversal (parser/_node.py, parser/_traverse.py, parser/_utils.py)."""
from . import env
import z3
from pyvc.contract import *
from pyvc import interp as IT, vals as VL
from conda_recipe_manager.types import SentinelType
from conda_recipe_manager.parser._node import Node
from conda_recipe_manager.parser.enums import *
from conda_recipe_manager.parser.types import MultilineVariant

SENT = Node._sentinel
NODE_VALUE_TY = (NONE, BOOL, INT, FLT, STR, ("ref", ("list", (STR,))), ("const", SENT))
VL.TY_HOOKS.append(lambda tp: (("const", SENT),) if tp is SentinelType else None)
add_list_region(Node, "#nodes")
NODES = "#nodes"
FIELDS.update({
    (Node, "value"): NODE_VALUE_TY, (Node, "comment"): (STR,), (Node, "children"): (("ref", ("list", (("ref", Node),))),),
    (Node, "list_member_flag"): (BOOL,), (Node, "key_flag"): (BOOL,), (Node, "multiline_variant"): (("enum", MultilineVariant),),
})
NF = ("value", "comment", "children", "list_member_flag", "key_flag")
PM = "conda_recipe_manager.parser."
ArrV = z3.ArraySort(I, V)
ArrS = z3.ArraySort(I, Sq)


# ------------------------------------------------------------------ specification of nodes, over heap arrays
class T:
    """the part of the heap that makes up the tree"""
    def __init__(self, s):
        self.value, self.comment, self.children, self.lmf, self.kf = (s.arr(f) for f in NF)
        self.nodes = s.arr(NODES)
    def kids(self, n):
        """Sq of children of node n"""
        return z3.Select(self.nodes, V.vr(z3.Select(self.children, n)))
    def key(self):
        return (self.value, self.comment, self.children, self.nodes)
    def is_comment(self, n):
        return z3.And(z3.Select(self.value, n) == to_v(SENT), strlen(V.vs(z3.Select(self.comment, n))) > 0, slen(self.kids(n)) == 0)
    def is_leaf(self, n):
        return z3.And(slen(self.kids(n)) == 0, z3.Not(self.is_comment(n)))
    def list_member(self, n):
        return V.vb(z3.Select(self.lmf, n))
    def is_coll(self, n):
        return z3.And(z3.Select(self.value, n) == to_v(SENT), self.list_member(n), slen(self.kids(n)) > 0)
class TA(T):
    """same, from explicit arrays (used inside recursive specification functions)"""
    def __init__(self, value, comment, children, nodes, lmf=None):
        self.value, self.comment, self.children, self.nodes, self.lmf = value, comment, children, nodes, lmf

def nval_is(x, lit_or_v):
    return x == lit_or_v

# virtual -> physical positions among the first n children; comments are skipped
vp = RecFn("vp", [ArrV, ArrV, ArrV, ArrS, Sq, I], Sq,
           lambda a, b, c, d, s, n: z3.If(n <= 0, sempty, z3.If(TA(a, b, c, d).is_comment(V.vr(at(s, n - 1))), vp(a, b, c, d, s, n - 1),
                                          build(vp(a, b, c, d, s, n - 1), V.int(n - 1)))))
def VP(t, seq, n=None):
    return vp(*t.key(), seq, slen(seq) if n is None else n)

TREE_PROPS = ("C02", "C03", "C05", "C07")
def node_pred(name, f, props=TREE_PROPS):
    Contract(PM + "_node:Node." + name, params={"self": Node}, inline_at_calls=True,
             ensures=lambda s: [("defines " + name, s.truth(s.result) == f(T(s.old), s.self.t, s))], props=props)

_vs = lambda t, n: z3.Select(t.value, n)
node_pred("is_comment", lambda t, n, s: t.is_comment(n))
node_pred("is_leaf", lambda t, n, s: t.is_leaf(n))
node_pred("is_root", lambda t, n, s: _vs(t, n) == to_v("/"))
node_pred("is_collection_element", lambda t, n, s: t.is_coll(n))
node_pred("is_empty_key", lambda t, n, s: z3.And(V.vb(z3.Select(t.kf, n)), t.is_leaf(n)))
node_pred("is_single_key", lambda t, n, s: z3.And(V.vb(z3.Select(t.kf, n)), slen(t.kids(n)) == 1, t.is_leaf(V.vr(at(t.kids(n), 0))),
                                                z3.Not(V.vb(z3.Select(t.kf, V.vr(at(t.kids(n), 0)))))))

# ------------------------------------------------------------------ index remapping
def _vp_templates(L):
    t = T(L.fn)
    for n, q in L.lists():
        for pn in ("children",):
            ch = L.fn.seq(L.fn.args[pn])
            yield f"{n} is virt->phys prefix", q == VP(t, ch, L.i)
Contract(PM + "_traverse:remap_child_indices_virt_to_phys",  props=TREE_PROPS,
         ensures=lambda s: [("lists the positions of the non-comment children, in order", s.seq(s.result) == VP(T(s.old), s.old.seq(s.children)))], fresh=True,
         templates=[("vp", _vp_templates)], result=list[int])

# ------------------------------------------------------------------ lemmas about vp
_a, _b, _c = z3.Consts("a b c", ArrV)
_d = z3.Const("d", ArrS)
_s, _p = z3.Consts("s p", Sq)
_i, _j, _x, _m = z3.Ints("i j x m")
H4 = [_a, _b, _c, _d]
L_vp_len = Lemma("vp_len", H4 + [_s],
    lambda n, a, b, c, d, s: z3.Implies(n >= 0, slen(vp(a, b, c, d, s, n)) <= n),
    lambda n, a, b, c, d, s: [vp(a, b, c, d, s, n)])
L_vp_range = Lemma("vp_range", H4 + [_s, _i],
    lambda n, a, b, c, d, s, i: z3.Implies(z3.And(0 <= i, i < slen(vp(a, b, c, d, s, n))),
        z3.And(V.is_int(at(vp(a, b, c, d, s, n), i)), i <= V.vi(at(vp(a, b, c, d, s, n), i)), V.vi(at(vp(a, b, c, d, s, n), i)) < n)),
    lambda n, a, b, c, d, s, i: [at(vp(a, b, c, d, s, n), i)], uses=[L_vp_len])
L_vp_mono = Lemma("vp_mono", H4 + [_s, _i, _j],
    lambda n, a, b, c, d, s, i, j: z3.Implies(z3.And(0 <= i, i < j, j < slen(vp(a, b, c, d, s, n))),
        V.vi(at(vp(a, b, c, d, s, n), i)) < V.vi(at(vp(a, b, c, d, s, n), j))),
    lambda n, a, b, c, d, s, i, j: [MP(at(vp(a, b, c, d, s, n), i), at(vp(a, b, c, d, s, n), j))], uses=[L_vp_range])
L_vp_nc = Lemma("vp_not_comment", H4 + [_s, _i],
    lambda n, a, b, c, d, s, i: z3.Implies(z3.And(0 <= i, i < slen(vp(a, b, c, d, s, n))),
        z3.Not(TA(a, b, c, d).is_comment(V.vr(at(s, V.vi(at(vp(a, b, c, d, s, n), i))))))),
    lambda n, a, b, c, d, s, i: [at(vp(a, b, c, d, s, n), i)], uses=[L_vp_range])
VPL = [L_vp_range, L_vp_len, L_vp_mono, L_vp_nc]

def _pv_templates(L):
    t = T(L.fn)
    ch = L.fn.seq(L.fn.args["children"])
    q = z3.Int("q")
    for n, s in L.lists():
        yield f"{n} length", slen(s) == slen(ch)
        yield f"{n} inverse prefix", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < L.i), at(s, V.vi(at(VP(t, ch), q))) == V.int(q)), patterns=[at(VP(t, ch), q)])
        yield f"{n} is vp", s == VP(t, ch)
        yield f"{n} comments", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < slen(s), t.is_comment(V.vr(at(ch, q)))), at(s, q) == V.int(0)), patterns=[at(s, q)])
        yield f"{n} ints", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < slen(s)), V.is_int(at(s, q))), patterns=[at(s, q)])
def _pv_ens(s):
    t, ch, r = T(s.old), s.old.seq(s.children), s.seq(s.result)
    q = z3.Int("q")
    yield "one entry per child", slen(r) == slen(ch)
    yield "inverts virt->phys", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < slen(VP(t, ch))), at(r, V.vi(at(VP(t, ch), q))) == V.int(q)), patterns=[at(VP(t, ch), q)])
    yield "comments count as the first", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < slen(ch), t.is_comment(V.vr(at(ch, q)))), at(r, q) == V.int(0)), patterns=[at(r, q)])
Contract(PM + "_traverse:remap_child_indices_phys_to_virt", props=TREE_PROPS, fresh=True, ensures=_pv_ens, templates=[("pv", _pv_templates)], uses=VPL)

# ------------------------------------------------------------------ path resolution
# first child among the first n whose value is the string p; -1 if none
fc = RecFn("fc", [ArrV, Sq, Str, I], I, lambda a, s, p, n: z3.If(n <= 0, z3.IntVal(-1),
    z3.If(fc(a, s, p, n - 1) >= 0, fc(a, s, p, n - 1), z3.If(z3.Select(a, V.vr(at(s, n - 1))) == V.str(p), n - 1, z3.IntVal(-1)))))
def step(t, x, part):
    """node (as V, none if absent) reached from node x by one path element"""
    kids = t.kids(x)
    m = VP(t, kids)
    idx = atoi(part)
    ch = V.vr(at(kids, V.vi(at(m, idx))))
    f = fc(t.value, kids, part, slen(kids))
    return z3.If(s_isdecimal(part),
                 z3.If(z3.And(idx >= 0, idx < slen(m), t.list_member(ch)), V.ref(ch), V.none),
                 z3.If(f >= 0, at(kids, f), V.none))
# the node reached from x along the first n elements of the stack p (topmost element first)
res = RecFn("res", [ArrV, ArrV, ArrV, ArrS, ArrV, I, Sq, I], V,
    lambda a, b, c, d, l, x, p, n: z3.If(n <= 0, V.ref(x), z3.If(V.is_ref(step(TA(a, b, c, d, l), x, V.vs(at(p, n - 1)))),
        res(a, b, c, d, l, V.vr(step(TA(a, b, c, d, l), x, V.vs(at(p, n - 1)))), p, n - 1), V.none)))
def RES(t, x, p, n):
    return res(*t.key(), t.lmf, x, p, n)
_l = z3.Const("l", ArrV)
L_res_take = Lemma("res_take", H4 + [_l, _x, _p, _m],
    lambda n, a, b, c, d, l, x, p, m: z3.Implies(z3.And(n <= m, m <= slen(p)), res(a, b, c, d, l, x, take(p, m), n) == res(a, b, c, d, l, x, p, n)),
    lambda n, a, b, c, d, l, x, p, m: [res(a, b, c, d, l, x, take(p, m), n)])

def strs(seq, name="q"):
    q = z3.Int(name)
    return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < slen(seq)), V.is_str(at(seq, q))), patterns=[at(seq, q)])
def opt_v(x):
    return to_v(x)
def _fc_templates(L):
    t = T(L.fn)
    if "node" in L.fn.args and isinstance(L.fn.args["node"], Sym):
        n = L.fn.args["node"]
        if n.k == "ref":
            p = L.fn.seq(L.fn.args["path"])
            kids = t.kids(n.t)
            yield "no match so far", fc(t.value, kids, V.vs(at(p, slen(p) - 1)), L.i) < 0
L_fc = Lemma("fc_stable", [_a, _s, z3.Const("ps", Str), _j],
    lambda n, a, s, p, j: z3.Implies(z3.And(fc(a, s, p, j) >= 0, 0 <= j, j <= n), fc(a, s, p, n) == fc(a, s, p, j)),
    lambda n, a, s, p, j: [MP(fc(a, s, p, n), fc(a, s, p, j))])
L_fc_first = Lemma("fc_first", [_a, _s, z3.Const("ps", Str), _j],
    lambda n, a, s, p, j: z3.Implies(z3.And(0 <= j, j < n, fc(a, s, p, j) < 0, z3.Select(a, V.vr(at(s, j))) == V.str(p)), fc(a, s, p, n) == j),
    lambda n, a, s, p, j: [MP(fc(a, s, p, n), at(s, j)), MP(fc(a, s, p, n), fc(a, s, p, j))])
L_fc_range = Lemma("fc_range", [_a, _s, z3.Const("ps", Str)],
    lambda n, a, s, p: z3.And(fc(a, s, p, n) >= -1, z3.Implies(n >= 0, fc(a, s, p, n) < z3.If(n > 0, n, 1)), z3.Implies(n <= 0, fc(a, s, p, n) == -1),
        z3.Implies(fc(a, s, p, n) >= 0, z3.And(fc(a, s, p, n) < n, z3.Select(a, V.vr(at(s, fc(a, s, p, n)))) == V.str(p)))),
    lambda n, a, s, p: [fc(a, s, p, n)])
FCL = [L_fc, L_fc_first, L_fc_range]
TREE_FIELDS = ("children", "#nodes")
Contract(PM + "_traverse:_traverse_recurse", props=TREE_PROPS,
    requires=lambda s: [("path elements are strings", strs(s.seq(s.path)))],
    modifies=lambda s: [("#list", s.path)],
    ensures=lambda s: [("follows keys by name and list items by position", to_v(s.result) == RES(T(s.old), s.node.t, s.old.seq(s.path), slen(s.old.seq(s.path))))], reaches=("node", TREE_FIELDS, None),
    templates=[("fc", _fc_templates)], uses=VPL + FCL + [L_res_take])
