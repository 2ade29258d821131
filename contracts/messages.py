"""MessageTable (types.py)."""
from . import env
import z3
from pyvc.contract import *
from conda_recipe_manager.types import MessageCategory, MessageTable

P = "conda_recipe_manager.types:MessageTable."
SELF = {"self": MessageTable}
PROPS = ("C16",)
def ref(s):
    return V.vr(s.fv(s.self, "_tbl"))
def tbl(s):
    return s.ip.st.sel("#dict", ref(s), s.arr("#dict"))
def lst(s, c):
    return V.vr(dget(tbl(s), c))
def msgs(s, c):
    """the messages of a category: a sequence"""
    return z3.If(dhas(tbl(s), c), s.ip.st.sel("#list", lst(s, c), s.arr("#list")), sempty)
def inv(s):
    """every category has a list of its own"""
    a, b = z3.Consts("a b", V)
    d = tbl(s)
    yield "categories hold lists", z3.ForAll([a], z3.Implies(dhas(d, a), V.is_ref(dget(d, a))), patterns=[dget(d, a)])
    yield "categories have separate lists", z3.ForAll([a, b], z3.Implies(z3.And(dhas(d, a), dhas(d, b), a != b), V.vr(dget(d, a)) != V.vr(dget(d, b))),
                                                      patterns=[MP(dget(d, a), dget(d, b))])
def unchanged(s):
    x = s.ip.st.fresh("c", V)
    return z3.And(msgs(s, x) == msgs(s.old, x), dhas(tbl(s), x) == dhas(tbl(s.old), x))

Contract(P + "get_message_count", params=SELF, props=PROPS,
         ensures=lambda s: [("is the number of messages of the category", V.int(int_t(s.result)) == V.int(slen(msgs(s.old, to_v(s.category)))))])
Contract(P + "get_messages", params=SELF, fresh=True, props=PROPS,
         ensures=lambda s: [("are the messages of the category in order", s.seq(s.result) == msgs(s.old, to_v(s.category)))])
def _add(s):
    c = to_v(s.category)
    yield "appends the message to its category", msgs(s, c) == build(msgs(s.old, c), to_v(s.message))
    for m in MessageCategory:
        yield f"leaves other categories alone ({m.name})", z3.Implies(to_v(m) != c, msgs(s, to_v(m)) == msgs(s.old, to_v(m)))
    yield from inv(s)
Contract(P + "add_message", params=SELF, props=PROPS, requires=inv, ensures=_add,
         modifies=lambda s: [("#dict", ref(s)), ("#list", lambda o: z3.And(dhas(tbl(s), to_v(s.category)), o == lst(s, to_v(s.category))))])
Contract(P + "clear_messages", params=SELF, props=PROPS, modifies=lambda s: [("#dict", ref(s))],
         ensures=lambda s: [("no category has messages", z3.Not(dhas(tbl(s), s.ip.st.fresh("c", V))))])
def S_any(x):
    return lit(x) if isinstance(x, str) else x
def _tot(s):
    e, w = (slen(msgs(s.old, to_v(c))) for c in (MessageCategory.ERROR, MessageCategory.WARNING))
    r = S_(s.result)
    def forms(n, word):
        # a number is spelled in decimal; zero is listed on its own because literals are concatenated at verification time
        return [(n == 0, ["0", f" {word}s"]), (n == 0, [itoa(n), f" {word}s"]), (n == 1, [itoa(n), f" {word}"]), (n > 1, [itoa(n), f" {word}s"])]
    alts = [z3.And(c1, c2, r == S_any(mk_str([*p1, " and ", *p2, " were found."]))) for c1, p1 in forms(e, "error") for c2, p2 in forms(w, "warning")]
    yield "states the numbers of errors and warnings", z3.If(slen(dkeys(tbl(s.old))) == 0, r == lit(""), z3.Or(alts))
Contract(P + "get_totals_message", params=SELF, props=PROPS, ensures=_tot)
Contract(P + "__init__", params=SELF, props=PROPS, ensures=lambda s: list(inv(s)) + [("starts empty", tbl(s) == dempty), ("has a table of its own", ref(s) >= s.old.alloc)], modifies=lambda s: [("_tbl", s.self)])
