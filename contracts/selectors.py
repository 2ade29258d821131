"""Selector expressions (parser/selector_parser.py)."""
from . import env, platforms
import ast, inspect, textwrap, z3
from pyvc.contract import *
from pyvc import vals as VL
from conda_recipe_manager.parser.enums import LogicOp
from conda_recipe_manager.parser.platform_types import Arch, OperatingSystem, Platform
from conda_recipe_manager.parser.selector_parser import SelectorParser, _SelectorNode

SM = "conda_recipe_manager.parser.selector_parser:"
PROPS = ("C01",)
SN = _SelectorNode
FIELDS.update({(SN, "value"): (("enum", LogicOp), ("enum", Arch), ("enum", OperatingSystem), ("enum", Platform), STR),
               (SN, "l_node"): (NONE, ("ref", SN)), (SN, "r_node"): (NONE, ("ref", SN))})
NAMES = {**{n: Platform(n) for n in platforms._ALL}, **{n: OperatingSystem(n) for n in platforms.OS_SETS},
         **{n: Arch(n) for n in platforms.ARCH_SETS}, "not": LogicOp.NOT, "and": LogicOp.AND, "or": LogicOp.OR}
def nodeval(t):
    """what a token stands for: a member for a known name in any case, else the token itself"""
    r = V.str(t)
    for n, m in NAMES.items():
        r = z3.If(s_lower(t) == lit(n), to_v(m), r)
    return r
NOT, AND, OR = (to_v(x) for x in (LogicOp.NOT, LogicOp.AND, LogicOp.OR))
Contract(SM + "_SelectorNode.__init__", params={"self": SN}, props=PROPS,
         modifies=lambda s: [("value", s.self), ("l_node", s.self), ("r_node", s.self)],
         ensures=lambda s: [("the value is what the token stands for", s.fv(s.self, "value") == nodeval(S_(s.value))),
                            ("has no operands", z3.And(s.fv(s.self, "l_node") == V.none, s.fv(s.self, "r_node") == V.none))])
Contract(SM + "_SelectorNode.is_logical_op", params={"self": SN}, props=PROPS, inline_at_calls=True,
         requires=lambda s: [("built from a token", s.fv(s.self, "value") == nodeval(z3.Const("tok", Str)))],
         ensures=lambda s: [("is one of the three operators", s.truth(s.result) == z3.Or([s.old.fv(s.self, "value") == o for o in (NOT, AND, OR)]))])

# ------------------------------------------------------------------ postfix sequences
# For a sequence P of nodes and a fixed platform: st(i) is where the expression that ends at position i starts (-1: incomplete),
# pv(i) is whether that expression is true on the platform.
ArrV = z3.ArraySort(I, V)
def nv(val, P, i):
    return z3.Select(val, V.vr(at(P, i)))
def is_bin(v):
    return z3.Or(v == AND, v == OR)
st = RecFn("sel_st", [ArrV, Sq, I], I, lambda a, P, i: z3.If(z3.Or(i < 0, i >= slen(P)), z3.IntVal(-1),
    z3.If(nv(a, P, i) == NOT, st(a, P, i - 1),
    z3.If(is_bin(nv(a, P, i)), z3.If(z3.And(1 <= st(a, P, i - 1), st(a, P, i - 1) < i), st(a, P, st(a, P, i - 1) - 1), z3.IntVal(-1)), i))))
def atom_true(v, pi):
    """is a name (platform, operating system or architecture) true on platform pi"""
    r = z3.And(V.is_enum(v), v == pi)
    for n, ps in platforms.OS_SETS.items():
        r = z3.Or(r, z3.And(v == to_v(OperatingSystem(n)), z3.Or([pi == to_v(Platform(p)) for p in ps])))
    for n, ps in platforms.ARCH_SETS.items():
        r = z3.Or(r, z3.And(v == to_v(Arch(n)), z3.Or([pi == to_v(Platform(p)) for p in ps])))
    return r
pv = RecFn("sel_pv", [ArrV, Sq, I, V], B, lambda a, P, i, pi: z3.If(z3.Or(i < 0, i >= slen(P)), z3.BoolVal(False),
    z3.If(nv(a, P, i) == NOT, z3.Not(pv(a, P, i - 1, pi)),
    z3.If(is_bin(nv(a, P, i)), z3.If(z3.And(1 <= st(a, P, i - 1), st(a, P, i - 1) < i),
            z3.If(nv(a, P, i) == AND, z3.And(pv(a, P, i - 1, pi), pv(a, P, st(a, P, i - 1) - 1, pi)), z3.Or(pv(a, P, i - 1, pi), pv(a, P, st(a, P, i - 1) - 1, pi))), z3.BoolVal(False)),
        atom_true(nv(a, P, i), pi)))))
_a = z3.Const("a", ArrV)
_P, _Q = z3.Consts("P Q", Sq)
_m, _k, _i, _j, _d = z3.Ints("m k i j d")
_pi = z3.Const("pi", V)
L_st_rng = Lemma("sel_st_range", [_a, _P],
    lambda i, a, P: z3.And(-1 <= st(a, P, i), z3.Implies(i >= 0, st(a, P, i) <= i)),
    lambda i, a, P: [st(a, P, i)], strong=True)
L_st_dom = Lemma("sel_st_domain", [_a, _P, _j], lambda a, P, j: z3.Implies(st(a, P, j) >= 0, z3.And(0 <= j, j < slen(P))), lambda a, P, j: [st(a, P, j)], n=None)
L_st_take = Lemma("sel_st_take", [_a, _P, _m],
    lambda i, a, P, m: z3.Implies(z3.And(i < m, m <= slen(P)), st(a, take(P, m), i) == st(a, P, i)),
    lambda i, a, P, m: [st(a, take(P, m), i)], strong=True, uses=[L_st_rng])
L_pv_take = Lemma("sel_pv_take", [_a, _P, _m, _pi],
    lambda i, a, P, m, pi: z3.Implies(z3.And(i < m, m <= slen(P)), pv(a, take(P, m), i, pi) == pv(a, P, i, pi)),
    lambda i, a, P, m, pi: [pv(a, take(P, m), i, pi)], strong=True, uses=[L_st_rng, L_st_take])
L_st_in = Lemma("sel_st_inside", [_a, _P, _j], lambda i, a, P, j: z3.Implies(z3.And(st(a, P, i) >= 0, st(a, P, i) <= j, j <= i), st(a, P, j) >= st(a, P, i)),
    lambda i, a, P, j: [MP(st(a, P, i), st(a, P, j))], strong=True, uses=[L_st_rng])
def refs(P):
    return z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(P)), V.is_ref(at(P, _i))), patterns=[at(P, _i)])
def distinct(P):
    return z3.ForAll([_i, _j], z3.Implies(z3.And(0 <= _i, _i < _j, _j < slen(P)), V.vr(at(P, _i)) != V.vr(at(P, _j))), patterns=[MP(at(P, _i), at(P, _j))])
def link(val, ln, rn, P, i):
    """the operands of the node at position i are the nodes at the ends of its operand expressions"""
    n = V.vr(at(P, i))
    L_, R_ = z3.Select(ln, n), z3.Select(rn, n)
    return z3.And(z3.Implies(nv(val, P, i) == NOT, L_ == at(P, i - 1)),
                  z3.Implies(is_bin(nv(val, P, i)), z3.And(R_ == at(P, i - 1), L_ == at(P, st(val, P, i - 1) - 1))))
def link_parts(val, ln, rn, P, i):
    n = V.vr(at(P, i))
    L_, R_ = z3.Select(ln, n), z3.Select(rn, n)
    return [z3.Implies(nv(val, P, i) == NOT, L_ == at(P, i - 1)), z3.Implies(is_bin(nv(val, P, i)), R_ == at(P, i - 1)),
            z3.Implies(is_bin(nv(val, P, i)), L_ == at(P, st(val, P, i - 1) - 1))]
def f_at(f, i):
    return z3.substitute(f, (_i, i))
def links(val, ln, rn, P, lo, hi):
    return z3.ForAll([_i], z3.Implies(z3.And(lo <= _i, _i < hi), link(val, ln, rn, P, _i)), patterns=[nv(val, P, _i)])
def tokenlike(v):
    """a raw string is never spelled like an operator"""
    return z3.Implies(V.is_str(v), z3.And([V.vs(v) != lit(x) for x in ("not", "and", "or")]))
def all_tokenlike(val, P):
    return z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(P)), tokenlike(nv(val, P, _i))), patterns=[nv(val, P, _i)])
# The stack is a prefix of the whole postfix sequence P0 (ghost: the sequence the outermost call was given).
def _pp_p0(s):
    P = s.seq(s.stack)
    return P, s.ghost.get("postfix", P)
def _pp_req(s):
    P, P0 = _pp_p0(s)
    n, val = slen(P), s.arr("value")
    yield "a prefix of the postfix sequence", z3.And(P == take(P0, n), n <= slen(P0))
    yield "raw strings are not operators", all_tokenlike(val, P0)
    yield "elements are nodes", refs(P0)
    yield "nodes are distinct", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(P0)), z3.And(z3.Select(selems(P0), at(P0, _i)), sidx(P0, at(P0, _i)) == _i)), patterns=[at(P0, _i)])
    yield "operands are complete", z3.Implies(n > 0, st(val, P0, n - 1) >= 0)
def _pp_start(s):
    P, P0 = _pp_p0(s)
    n = slen(P)
    return n, P0, z3.If(n > 0, st(s.arr("value"), P0, n - 1), 0)
def _pp_mod(s):
    n, P0, b = _pp_start(s)
    pred = lambda o: z3.And(z3.Select(selems(P0), V.ref(o)), b <= sidx(P0, V.ref(o)), sidx(P0, V.ref(o)) < n)
    return [("#list", s.stack), ("l_node", pred), ("r_node", pred)]
def _pp_ens(s):
    n, P0, b = _pp_start(s.old)
    yield "the last node is the root", to_v(s.result) == z3.If(n > 0, at(P0, n - 1), V.none)
    yield "consumes exactly one expression", s.seq(s.stack) == take(P0, b)
    val = s.old.arr("value")
    for nm, f in zip(("the operand of `not`", "the right operand", "the left operand"), link_parts(val, s.arr("l_node"), s.arr("r_node"), P0, _i)):
        yield "links " + nm, z3.Implies(n > 0, f_at(f, n - 1))
        yield "keeps or links " + nm, z3.ForAll([_i], z3.Implies(z3.And(b <= _i, _i < n - 1), z3.And(st(val, P0, _i) >= b, f)), patterns=[nv(val, P0, _i)])
Contract(SM + "SelectorParser._process_postfix_stack", props=PROPS, requires=_pp_req, modifies=_pp_mod, ensures=_pp_ens, uses=[L_st_rng], ghosts=[("postfix", Sq)])

# ------------------------------------------------------------------ evaluation of the tree
ALLP = [to_v(Platform(n)) for n in platforms._ALL]
def is_platform(x):
    return z3.Or([x == p for p in ALLP])
PF = [("postfix", Sq)]
def _whole(s):
    """the tree that hangs on the last node of the ghost sequence is the one its operators describe"""
    P0, val = s.ghost["postfix"], s.arr("value")
    yield "raw strings are not operators", all_tokenlike(val, P0)
    yield "elements are nodes", refs(P0)
    yield "nodes are distinct", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(P0)), z3.And(z3.Select(selems(P0), at(P0, _i)), sidx(P0, at(P0, _i)) == _i)), patterns=[at(P0, _i)])
    yield "every operator has its operands", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(P0)), z3.And(st(val, P0, _i) >= 0, link(val, s.arr("l_node"), s.arr("r_node"), P0, _i))), patterns=[nv(val, P0, _i)])
def _selset(s, R, v, P0):
    x = z3.Const("pl", V)
    return z3.ForAll([x], z3.Select(R, x) == z3.And(is_platform(x), V.is_ref(v), pv(s.old.arr("value"), P0, sidx(P0, v), x)), patterns=[z3.Select(R, x)])
def _ev_req(s):
    yield from _whole(s)
    P0, v = s.ghost["postfix"], to_v(s.node)
    k, val = sidx(P0, v), s.arr("value")
    yield "a node of the expression", z3.Or(v == V.none, z3.And(V.is_ref(v), 0 <= k, k < slen(P0), at(P0, k) == v))
    yield "with its operands", z3.Implies(V.is_ref(v), z3.And(st(val, P0, k) >= 0, link(val, s.arr("l_node"), s.arr("r_node"), P0, k)))
NestedContract(SM + "SelectorParser.get_selected_platforms", "_eval_node", props=PROPS, ghosts=PF, requires=_ev_req, uses=[L_st_rng, L_st_dom],
               ensures=lambda s: [("exactly the platforms the expression is true on", _selset(s, s.set(s.result), to_v(s.old.args["node"]), s.ghost["postfix"]))])
FIELDS[(SelectorParser, "_root")] = (NONE, ("ref", SN))
def _root_req(s):
    yield from _whole(s)
    P0 = s.ghost["postfix"]
    n, val = slen(P0), s.arr("value")
    yield "the expression is complete", z3.Implies(n > 0, z3.And(st(val, P0, n - 1) >= 0, link(val, s.arr("l_node"), s.arr("r_node"), P0, n - 1)))
    yield "the root is the last node", s.fv(s.self, "_root") == z3.If(slen(P0) > 0, at(P0, slen(P0) - 1), V.none)
def meaning(s, P0, x):
    return z3.And(slen(P0) > 0, pv(s.arr("value"), P0, slen(P0) - 1, x))
def _gsp(s):
    x, P0, R = z3.Const("pl", V), s.ghost["postfix"], s.set(s.result)
    yield "exactly the platforms the expression is true on", z3.ForAll([x], z3.Select(R, x) == z3.And(is_platform(x), meaning(s.old, P0, x)), patterns=[z3.Select(R, x)])
Contract(SM + "SelectorParser.get_selected_platforms", params={"self": SelectorParser}, props=PROPS, ghosts=PF, requires=_root_req, ensures=_gsp)
def _applies(s):
    q, P0 = at(tseq(V.vt(to_v(s.query))), 0), s.ghost["postfix"]
    yield "applies iff the queried platform is selected; without a platform always", s.truth(s.result) == z3.Or(q == V.none, meaning(s.old, P0, q))
Contract(SM + "SelectorParser.does_selector_apply", params={"self": SelectorParser}, props=PROPS, ghosts=PF, requires=_root_req, ensures=_applies)

# ------------------------------------------------------------------ from tokens to the postfix sequence
# Python's precedence, read off the tokens from left to right: an `or` of `and`s of possibly negated names. After the first i
# tokens: fneg - a `not` waits for its operand; fand - the conjunction so far; for_ - some conjunction before it is true;
# fwf - 0: an operand is expected, 1: an operator may follow, -1: not an expression.
def tokval(X, i):
    return nodeval(V.vs(at(X, i)))
def tkind(X, i):
    v = tokval(X, i)
    return v == NOT, v == AND, v == OR
fneg = RecFn("sel_fneg", [Sq, I], B, lambda X, i: z3.If(i <= 0, z3.BoolVal(False), z3.And(tokval(X, i - 1) == NOT, z3.Not(fneg(X, i - 1)))))
fand = RecFn("sel_fand", [Sq, I, V], B, lambda X, i, x: z3.If(i <= 0, z3.BoolVal(True), z3.If(tokval(X, i - 1) == OR, z3.BoolVal(True),
    z3.If(z3.Or(tokval(X, i - 1) == NOT, tokval(X, i - 1) == AND), fand(X, i - 1, x), z3.And(fand(X, i - 1, x), atom_true(tokval(X, i - 1), x) != fneg(X, i - 1))))))
for_ = RecFn("sel_for", [Sq, I, V], B, lambda X, i, x: z3.If(i <= 0, z3.BoolVal(False), z3.Or(for_(X, i - 1, x), z3.And(tokval(X, i - 1) == OR, fand(X, i - 1, x)))))
fwf = RecFn("sel_fwf", [Sq, I], I, lambda X, i: z3.If(i <= 0, z3.IntVal(0), z3.If(tokval(X, i - 1) == NOT, z3.If(fwf(X, i - 1) == 0, z3.IntVal(0), z3.IntVal(-1)),
    z3.If(is_bin(tokval(X, i - 1)), z3.If(fwf(X, i - 1) == 1, z3.IntVal(0), z3.IntVal(-1)), z3.If(fwf(X, i - 1) == 0, z3.IntVal(1), z3.IntVal(-1))))))
def true_on(X, x):
    """what the tokens mean on platform x; no tokens mean no platform"""
    n = slen(X)
    return z3.And(n > 0, z3.Or(for_(X, n, x), fand(X, n, x)))
# A stack S (its first m operators) waiting for the expressions that end at e in the postfix sequence P.
sk_ok = RecFn("sel_sk_ok", [ArrV, Sq, I, Sq, I], B, lambda a, S, m, P, e: z3.If(m <= 0, e == 0, z3.If(nv(a, S, m - 1) == NOT, sk_ok(a, S, m - 1, P, e),
    z3.And(is_bin(nv(a, S, m - 1)), e >= 1, st(a, P, e - 1) >= 0, sk_ok(a, S, m - 1, P, st(a, P, e - 1))))))
sk_neg = RecFn("sel_sk_neg", [ArrV, Sq, I], B, lambda a, S, m: z3.If(m <= 0, z3.BoolVal(False), z3.And(nv(a, S, m - 1) == NOT, z3.Not(sk_neg(a, S, m - 1)))))
sk_and = RecFn("sel_sk_and", [ArrV, Sq, I, Sq, I, V], B, lambda a, S, m, P, e, x: z3.If(m <= 0, z3.BoolVal(True), z3.If(nv(a, S, m - 1) == NOT, sk_and(a, S, m - 1, P, e, x),
    z3.If(nv(a, S, m - 1) == AND, z3.And(pv(a, P, e - 1, x), sk_and(a, S, m - 1, P, st(a, P, e - 1), x)), z3.BoolVal(True)))))
sk_or = RecFn("sel_sk_or", [ArrV, Sq, I, Sq, I, V], B, lambda a, S, m, P, e, x: z3.If(m <= 0, z3.BoolVal(False), z3.If(nv(a, S, m - 1) == NOT, sk_or(a, S, m - 1, P, e, x),
    z3.If(nv(a, S, m - 1) == AND, sk_or(a, S, m - 1, P, st(a, P, e - 1), x), z3.Or(pv(a, P, e - 1, x), sk_or(a, S, m - 1, P, st(a, P, e - 1), x))))))
_S, _T = z3.Consts("S T", Sq)
_b = z3.Const("b", ArrV)
_e, _c = z3.Ints("e c")
def agree(a, P, b, Q, n):
    return z3.ForAll([_c], z3.Implies(z3.And(0 <= _c, _c < n), nv(a, P, _c) == nv(b, Q, _c)), patterns=[nv(a, P, _c), nv(b, Q, _c)])
L_st_agree = Lemma("sel_st_agree", [_a, _P, _b, _Q],
    lambda i, a, P, b, Q: z3.Implies(z3.And(i < slen(P), i < slen(Q), agree(a, P, b, Q, i + 1)), st(a, P, i) == st(b, Q, i)),
    lambda i, a, P, b, Q: [MP(st(a, P, i), st(b, Q, i))], strong=True, uses=[L_st_rng])
L_pv_agree = Lemma("sel_pv_agree", [_a, _P, _b, _Q, _pi],
    lambda i, a, P, b, Q, x: z3.Implies(z3.And(i < slen(P), i < slen(Q), agree(a, P, b, Q, i + 1)), pv(a, P, i, x) == pv(b, Q, i, x)),
    lambda i, a, P, b, Q, x: [MP(pv(a, P, i, x), pv(b, Q, i, x))], strong=True, uses=[L_st_rng, L_st_agree])
def both(a, S, b, T, m, P, Q, e):
    return z3.And(m <= slen(S), m <= slen(T), e <= slen(P), e <= slen(Q), agree(a, S, b, T, m), agree(a, P, b, Q, e))
_SK = [_a, _S, _b, _T, _P, _Q, _e]
L_neg = Lemma("sel_sk_neg_agree", [_a, _S, _b, _T], lambda m, a, S, b, T: z3.Implies(z3.And(m <= slen(S), m <= slen(T), agree(a, S, b, T, m)), sk_neg(a, S, m) == sk_neg(b, T, m)),
    lambda m, a, S, b, T: [MP(sk_neg(a, S, m), sk_neg(b, T, m))])
L_ok = Lemma("sel_sk_ok_agree", _SK, lambda m, a, S, b, T, P, Q, e: z3.Implies(both(a, S, b, T, m, P, Q, e), sk_ok(a, S, m, P, e) == sk_ok(b, T, m, Q, e)),
    lambda m, a, S, b, T, P, Q, e: [MP(sk_ok(a, S, m, P, e), sk_ok(b, T, m, Q, e))], uses=[L_st_rng, L_st_agree])
L_and = Lemma("sel_sk_and_agree", _SK + [_pi], lambda m, a, S, b, T, P, Q, e, x: z3.Implies(both(a, S, b, T, m, P, Q, e), sk_and(a, S, m, P, e, x) == sk_and(b, T, m, Q, e, x)),
    lambda m, a, S, b, T, P, Q, e, x: [MP(sk_and(a, S, m, P, e, x), sk_and(b, T, m, Q, e, x))], uses=[L_st_rng, L_st_agree, L_pv_agree])
L_or = Lemma("sel_sk_or_agree", _SK + [_pi], lambda m, a, S, b, T, P, Q, e, x: z3.Implies(both(a, S, b, T, m, P, Q, e), sk_or(a, S, m, P, e, x) == sk_or(b, T, m, Q, e, x)),
    lambda m, a, S, b, T, P, Q, e, x: [MP(sk_or(a, S, m, P, e, x), sk_or(b, T, m, Q, e, x))], uses=[L_st_rng, L_st_agree, L_pv_agree])
def apart(P, r, n):
    return z3.ForAll([_c], z3.Implies(z3.And(0 <= _c, _c < n), V.vr(at(P, _c)) != r), patterns=[at(P, _c)])
_x, _w = z3.Consts("x w", V)
_r = z3.Int("r")
def _single(tag, f, agreement, extra=()):
    """what extending or shortening a sequence, or making another node, does to f"""
    if f in (st, pv):
        mk = lambda a, P, i, *q: f(a, P, i, *q)
        base = [_a, _P, _i] + list(extra)
        out = [("push", base + [_x], lambda a, P, i, *q: (z3.And(0 <= i, i < slen(P)), f(a, build(P, q[-1]), i, *q[:-1]), f(a, P, i, *q[:-1]))),
               ("new", base + [_r, _w], lambda a, P, i, *q: (z3.And(i < slen(P), apart(P, q[-2], i + 1)), f(z3.Store(a, q[-2], q[-1]), P, i, *q[:-2]), f(a, P, i, *q[:-2])))]
    elif f is sk_neg:
        base = [_a, _S, _m]
        out = [("push", base + [_x], lambda a, S, m, x: (m <= slen(S), f(a, build(S, x), m), f(a, S, m))),
               ("pop", base + [_j], lambda a, S, m, j: (z3.And(m <= j, j <= slen(S)), f(a, take(S, j), m), f(a, S, m))),
               ("new", base + [_r, _w], lambda a, S, m, r, w: (z3.And(m <= slen(S), apart(S, r, m)), f(z3.Store(a, r, w), S, m), f(a, S, m)))]
    else:
        base = [_a, _S, _m, _P, _e] + list(extra)
        out = [("push", base + [_x], lambda a, S, m, P, e, *q: (z3.And(m <= slen(S), e <= slen(P)), f(a, build(S, q[-1]), m, P, e, *q[:-1]), f(a, S, m, P, e, *q[:-1]))),
               ("pop", base + [_j], lambda a, S, m, P, e, *q: (z3.And(m <= q[-1], q[-1] <= slen(S), e <= slen(P)), f(a, take(S, q[-1]), m, P, e, *q[:-1]), f(a, S, m, P, e, *q[:-1]))),
               ("out", base + [_x], lambda a, S, m, P, e, *q: (z3.And(m <= slen(S), e <= slen(P)), f(a, S, m, build(P, q[-1]), e, *q[:-1]), f(a, S, m, P, e, *q[:-1]))),
               ("new", base + [_r, _w], lambda a, S, m, P, e, *q: (z3.And(m <= slen(S), e <= slen(P), apart(S, q[-2], m), apart(P, q[-2], e)), f(z3.Store(a, q[-2], q[-1]), S, m, P, e, *q[:-2]), f(a, S, m, P, e, *q[:-2])))]
    def lemma(op, vs, g):
        def body(*v):
            h, l, r = g(*v)
            return z3.Implies(h, l == r)
        return Lemma(f"sel_{tag}_{op}", vs, body, lambda *v: [g(*v)[1]], n=None, uses=agreement)
    return [lemma(*o) for o in out]
SINGLE = _single("st", st, [L_st_agree]) + _single("pv", pv, [L_pv_agree], [_pi]) + _single("sk_neg", sk_neg, [L_neg]) + _single("sk_ok", sk_ok, [L_ok]) \
    + _single("sk_and", sk_and, [L_and], [_pi]) + _single("sk_or", sk_or, [L_or], [_pi])
def _tokens_ok(X):
    yield "an expression", z3.And(z3.Implies(slen(X) > 0, fwf(X, slen(X)) == 1),
        z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(X)), z3.And(V.is_str(at(X, _i)), fwf(X, _i) >= 0, fwf(X, _i + 1) >= 0)), patterns=[at(X, _i)]))
def waiting(val, S, P, X, k, x):
    """an operand is expected: the stack and the postfix sequence say what the first k tokens say"""
    m, n = slen(S), slen(P)
    return z3.And(sk_ok(val, S, m, P, n), sk_neg(val, S, m) == fneg(X, k), sk_and(val, S, m, P, n, x) == fand(X, k, x), sk_or(val, S, m, P, n, x) == for_(X, k, x))
def holding(val, S, P, X, k, x):
    """the last expression of the postfix sequence is the operand the stack waits for"""
    m, n = slen(S), slen(P)
    e = st(val, P, n - 1)
    return z3.And(n > 0, e >= 0, sk_ok(val, S, m, P, e), sk_or(val, S, m, P, e, x) == for_(X, k, x),
                  z3.And(sk_and(val, S, m, P, e, x), pv(val, P, n - 1, x) != sk_neg(val, S, m)) == fand(X, k, x))
def drained(val, S, P, X, k, x):
    m, n = slen(S), slen(P)
    e = st(val, P, n - 1)
    return z3.And(n > 0, e >= 0, sk_ok(val, S, m, P, e),
                  z3.Or(sk_or(val, S, m, P, e, x), z3.And(sk_and(val, S, m, P, e, x), pv(val, P, n - 1, x) != sk_neg(val, S, m))) == z3.Or(for_(X, k, x), fand(X, k, x)))
def _built_from():
    """the variable the tree is built from, to keep the search for invariants short; None: any list"""
    try:
        for c in ast.walk(ast.parse(textwrap.dedent(inspect.getsource(SelectorParser._parse_selector_tree)))):
            if isinstance(c, ast.Call) and ast.unparse(c.func).endswith("_process_postfix_stack") and len(c.args) == 1 and isinstance(c.args[0], ast.Name):
                return c.args[0].id
    except Exception:
        pass
    return None
def _ptt(L):
    X = L.fn.seq(L.fn.args["tokens"])
    now = Spec(L.ip, L.fn.args, L.heap)
    rest = now.seq(L.fn.args["tokens"])
    val = now.arr("value")
    k = slen(X) - slen(rest)
    yield "tokens are taken from the front", z3.And(rest == drop(X, k), 0 <= k, k <= slen(X))
    ls, target = [], _built_from()
    for n, v in L.locals("list"):
        if v.t.eq(L.fn.args["tokens"].t):
            continue
        P = now.seq(v)
        ls.append((n, P))
    for n, P in ls:
        yield n + " has nodes", refs(P)
        yield n + " has tokens", all_tokenlike(val, P)
        yield n + " has distinct nodes", distinct(P)
        yield n + " has nodes made here", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(P)), z3.And(L.fn.alloc <= V.vr(at(P, _i)), V.vr(at(P, _i)) < L.ip.st.alloc_now())), patterns=[at(P, _i)])
        if n == target:
            continue
        yield n + " has operators", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(P)), z3.Or(nv(val, P, _i) == NOT, is_bin(nv(val, P, _i)))), patterns=[at(P, _i)])
        yield n + " has tighter operators on top", z3.ForAll([_i, _j], z3.Implies(z3.And(0 <= _i, _i < _j, _j < slen(P)),
            z3.And(z3.Implies(nv(val, P, _j) == AND, nv(val, P, _i) != NOT), z3.Implies(nv(val, P, _j) == OR, nv(val, P, _i) == OR))), patterns=[MP(at(P, _i), at(P, _j))])
    inner = bool(L.outer)
    if inner:
        for h, v in list(L.locals("obj")) + list(L.locals("ref")):
            for n, P in ls:
                yield f"{h} is not in {n}", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(P)), at(P, _i) != to_v(v)), patterns=[at(P, _i)])
    j = k - 1 if inner else k
    x = L.ghost["pl"]
    for n, S in ls:
        for n2, P in ls:
            if n == n2 or target in {m for m, _ in ls} - {n2}:
                continue
            yield f"{n} and {n2} are apart", z3.ForAll([_i, _j], z3.Implies(z3.And(0 <= _i, _i < slen(S), 0 <= _j, _j < slen(P)), at(S, _i) != at(P, _j)), patterns=[MP(at(S, _i), at(P, _j))])
            for nm, g, f in (("waiting", fwf(X, j) == 0, waiting), ("holding", fwf(X, j) == 1, holding), ("drained", fwf(X, j) == 1, drained))[1 if inner else 0:2 if inner else 3]:
                for q, fm in enumerate(f(val, S, P, X, j, x).children()):
                    yield f"{n} {nm} {n2} {q}", z3.Implies(g, fm)
    yield "nothing read yet", z3.Implies(k == 0, z3.And([slen(P) == 0 for _, P in ls]))
def take_note(*a):
    """ghost: the postfix sequence is the one the tree is built from"""
    fn = SelectorParser._process_postfix_stack
    def model(ip, args, kw):
        if not args or "postfix" not in ip.st.ghost:
            raise Unsupported("postfix")
        stack = ip.resolve(args[0])
        ip.st.ghost["postfix"] = Spec(ip, {}, ip.st.heap).seq(stack)
        return CONTRACTS[fn].apply(ip, list(args), dict(kw))
    EXTERNALS[fn] = model
def _pt(s):
    yield from _whole(s)
    P0, X, x = s.ghost["postfix"], s.old.seq(s.old.args["tokens"]), s.ghost["pl"]
    n, val = slen(P0), s.arr("value")
    yield "the expression is complete", z3.Implies(n > 0, z3.And(st(val, P0, n - 1) >= 0, link(val, s.arr("l_node"), s.arr("r_node"), P0, n - 1)))
    yield "the root is the last node", to_v(s.result) == z3.If(n > 0, at(P0, n - 1), V.none)
    yield "means what the tokens mean", meaning(s, P0, x) == true_on(X, x)
PL = [("pl", V)]        # any platform
Contract(SM + "SelectorParser._parse_selector_tree", props=PROPS, ghosts=PF + PL, budget=400, setup=take_note, requires=lambda s: _tokens_ok(s.seq(s.tokens)), ensures=_pt, templates=[("yard", _ptt)],
         modifies=lambda s: [("#list", s.tokens), ("ghost:postfix", None)], uses=[L_st_rng, L_st_dom] + SINGLE)

# ------------------------------------------------------------------ from the text to the tokens
from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser._is_modifiable import IsModifiable
FIELDS.update({(SelectorParser, "_schema_version"): (("enum", SchemaVersion),), (SelectorParser, "_content"): (STR,), (IsModifiable, "_is_modified"): (BOOL,)})
words = F("u_split", Str, Sq)
def inner_text(s):
    """the text of a selector without the brackets V0 puts around it"""
    t = S_(s.content)
    n = strlen(t)
    br = z3.And(to_v(s.schema_version) == to_v(SchemaVersion.V0), n > 0, char_at(t, z3.IntVal(0)) == lit("["), char_at(t, n - 1) == lit("]"))
    return z3.If(br, substr(t, z3.IntVal(1), n - 1), t)
def _in(s):
    P0, X = s.ghost["postfix"], words(inner_text(s))
    yield "the text without its brackets", s.fv(s.self, "_content") == V.str(inner_text(s))
    yield "the schema is kept", s.fv(s.self, "_schema_version") == to_v(s.schema_version)
    yield from _root_req(s)
    yield "means what the words mean", meaning(s, P0, s.ghost["pl"]) == true_on(X, s.ghost["pl"])
Contract(SM + "SelectorParser.__init__", props=PROPS, params={"self": SelectorParser}, ghosts=PF + PL, requires=lambda s: _tokens_ok(words(inner_text(s))), ensures=_in,
         modifies=lambda s: [("_content", s.self), ("_schema_version", s.self), ("_root", s.self), ("_is_modified", s.self), ("ghost:postfix", None)])
