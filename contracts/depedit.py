"""
Adding and removing dependencies (parser/recipe_parser_deps.py).

The recipe is seen through the edits made to it: the ghost `log` is the sequence of successful edits (patches and selectors), and
every query of the recipe is a function of that sequence. What an edit does to the tree is C03's business.
"""
from . import env, models, tree, deps
from .deps import *
from .deps import _p, _q, _i, _j, _k, _m
from .bump import tup
from conda_recipe_manager.parser import recipe_parser_deps as RPD
from conda_recipe_manager.parser.dependency import DependencyConflictMode as DMode, DependencyVariable, MatchSpec
from conda_recipe_manager.parser.enums import SelectorConflictMode as SMode
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps

PM = "conda_recipe_manager.parser.recipe_parser_deps:RecipeParserDeps."
RP = "conda_recipe_manager.parser.recipe_parser:RecipeParser."
LOG = [("log", Sq)]
ME = {"self": RecipeParserDeps}
ehas_, eval_ = F("de_has", Sq, V, B), F("de_value", Sq, V, V, V)
esel_has, esel_at = F("de_has_selector", Sq, V, B), F("de_selector_at", Sq, V, V)
accepts = F("de_accepts", Sq, V, V, V, B)
name_, text_ = F("dep_name", L.Opq, Str), F("dep_text", L.Opq, Str)
OPQ_METHODS[("DepData", ".name")] = lambda ip, o, a, k: Sym("str", name_(V.vo(to_v(o))))
EXTERNALS[DEP.dependency_data_render_as_str] = lambda ip, a, kw: Sym("str", text_(V.vo(to_v(a[0]))))
log0 = lambda s: s.old.ghost["log"]
slash = lit("/")
# ------------------------------------------------------------------ the recipe
Contract(RR + "get_value", trusted=True, props=PN, params=SELF, ghosts=LOG, modifies=lambda s: [], result="JSON",
    raises={KeyError: lambda s: z3.And(z3.Not(ehas_(log0(s), to_v(s.path))), to_v(s.default) == SENT)},
    ensures=lambda s: [("the value there, or the default", to_v(s.result) == z3.If(ehas_(log0(s), to_v(s.path)), eval_(log0(s), to_v(s.path), to_v(s.sub_vars)), to_v(s.default)))])
Contract(RR + "contains_value", trusted=True, props=PN, params=SELF, ghosts=LOG, modifies=lambda s: [],
    ensures=lambda s: [("there is such a path", s.truth(s.result) == ehas_(log0(s), to_v(s.path)))])
Contract(RR + "get_selector_at_path", trusted=True, props=PN, params=SELF, ghosts=LOG, modifies=lambda s: [],
    raises={KeyError: lambda s: z3.And(z3.Not(esel_has(log0(s), to_v(s.path))), to_v(s.default) == SENT)},
    ensures=lambda s: [("the selector there, or the default", to_v(s.result) == z3.If(esel_has(log0(s), to_v(s.path)), esel_at(log0(s), to_v(s.path)), to_v(s.default)))])
def content(s, v):
    """a value by its content, for lists"""
    return z3.If(isl(v), V.tup(L.mktup(z3.Select(s.arr("#list"), V.vr(v)))), v)
def _patch(s):
    d = s.old.dic(s.patch)
    op, path = dget(d, to_v("op")), dget(d, to_v("path"))
    value = z3.If(dhas(d, to_v("value")), content(s.old, dget(d, to_v("value"))), V.none)
    yield "the recipe decides", s.truth(s.result) == accepts(log0(s), op, path, value)
    yield "applied or nothing changes", s.ghost["log"] == z3.If(s.truth(s.result), build(log0(s), tup(op, path, value)), log0(s))
    b = z3.Const("bs", Str)
    there = z3.And(s.truth(s.result), op == to_v("add"), path == sub(b, "-"))
    yield "only lists are appended to", z3.ForAll([b], z3.Implies(there, z3.And(ehas_(s.ghost["log"], V.str(b)), isl(eval_(s.ghost["log"], V.str(b), to_v(False))))), patterns=[cat(b, lit("/-"))])
Contract(RP + "patch", trusted=True, props=PN, params={"self": RecipeParser}, ghosts=LOG, modifies=lambda s: [("ghost:log", None)], ensures=_patch)
Contract(RP + "add_selector", trusted=True, props=PN, params={"self": RecipeParser}, ghosts=LOG, modifies=lambda s: [("ghost:log", None)],
    raises={KeyError: lambda s: [("no such line", z3.Not(ehas_(log0(s), to_v(s.path)))), ("nothing changes", s.ghost["log"] == log0(s))]},
    ensures=lambda s: [("the selector is put there", s.ghost["log"] == build(log0(s), tup("selector", to_v(s.path), to_v(s.selector), to_v(s.mode))))])
# ------------------------------------------------------------------ members of a section
def members_(s, log, path, sub):
    v = eval_(log, path, sub)
    return z3.If(z3.And(ehas_(log, path), isl(v)), z3.Select(s.arr("#list"), V.vr(v)), sempty)
def there(s):
    """what the recipe holds is not any of the objects made later"""
    a0 = s.ip.st.alloc_now()
    l, b = z3.Const("lg", Sq), z3.Const("bb", V)
    v = eval_(l, _p, b)
    yield z3.ForAll([l, _p, b], z3.Implies(V.is_ref(v), V.vr(v) < a0), patterns=[v])
Contract(RR + "_get_list_members", props=PN, params=SELF, ghosts=LOG, setup=no_casts, assume=there, modifies=lambda s: [],
    ensures=lambda s: [("the members of the list there, if there is a list", s.seq(s.result) == members_(s.old, log0(s), to_v(s.path), to_v(s.sub_vars)))])
# ------------------------------------------------------------------ paths
def part(p, n):
    return V.vs(at(ssplit(p, slash), n))
def valid(p):
    """/requirements/<section>/<n> or /outputs/<n>/requirements/<section>/<n>"""
    n = slen(ssplit(p, slash))
    one = z3.And(n == 4, part(p, 0) == lit(""), part(p, 1) == lit("requirements"), section(part(p, 2)) != V.none, s_isdecimal(part(p, 3)))
    many = z3.And(n == 6, part(p, 0) == lit(""), part(p, 1) == lit("outputs"), s_isdecimal(part(p, 2)), part(p, 3) == lit("requirements"), section(part(p, 4)) != V.none, s_isdecimal(part(p, 5)))
    return z3.Or(one, many)
def up(p):
    return z3.If(L.s_contains(p, slash), L.s_rhead(p, slash), p)
def sub(p, x):
    return V.str(cat(p, lit("/" + x) if isinstance(x, str) else cat(slash, x)))
Contract(PM + "_is_valid_dependency_path", props=PN, ensures=lambda s: [("the shape of a path to a dependency", s.truth(s.result) == valid(S_(s.dep_path)))])
def _newsec(s):
    b = to_v(s.base_path)
    has, par = ehas_(log0(s), b), ehas_(log0(s), V.str(up(V.vs(b))))
    yield "new only if its parent exists", to_v(s.result) == z3.If(has, to_v(False), z3.If(par, to_v(True), V.none))
Contract(PM + "_calc_is_new_section", props=PN, params=ME, ghosts=LOG, modifies=lambda s: [], ensures=_newsec)
# ------------------------------------------------------------------ adding
def bare(d):
    """the name, whether or not its variables are `$`-escaped"""
    return L.sreplace(name_(d), lit("${{"), lit("{{"), z3.IntVal(-1))
def same_name(a, b):
    return bare(a) == bare(b)
Contract(PM + "_is_same_name", props=PN, ensures=lambda s: [("the same name", s.truth(s.result) == same_name(V.vo(to_v(s.lhs)), V.vo(to_v(s.rhs))))])
first = F("de_first", Sq, L.Opq, I)
def match(M, d, i):
    v = san(at(M, i))
    return z3.And(v != V.none, same_name(data_(V.vs(v)), d))
def firsts(s):
    """the first member of the same name, -1 if there is none (definition)"""
    yield from there(s)
    M, d = z3.Const("MM", Sq), z3.Const("dd", L.Opq)
    f = first(M, d)
    yield z3.ForAll([M, d], z3.And(-1 <= f, f < slen(M), z3.Implies(f >= 0, match(M, d, f))), patterns=[f])
    yield z3.ForAll([M, d, _j], z3.Implies(z3.And(0 <= _j, _j < z3.If(f < 0, slen(M), f)), z3.Not(match(M, d, _j))), patterns=[MP(f, at(M, _j))])
is_ = lambda v, *ms: z3.Or(*[v == to_v(m) for m in ms])
def comp_(d, n):
    """component n of a dependency"""
    return to_v(d.vals[n]) if hasattr(d, "vals") else comp(to_v(d), n)
class Plan:
    """what adding a dependency should do"""
    def __init__(self, s):
        mode = to_v(s.dep_mode)
        l0 = log0(s)
        p, d = V.vs(comp_(s.dep, 1)), V.vo(comp_(s.dep, 3))
        b = up(p)
        f = first(members_(s.old, l0, V.str(b), to_v(True)), d)
        self.new = z3.Not(ehas_(l0, V.str(b)))
        self.refused = z3.Or(z3.Not(valid(p)), z3.And(self.new, z3.Not(ehas_(l0, V.str(up(b))))), z3.And(is_(mode, DMode.IGNORE), f >= 0))
        exact, over = is_(mode, DMode.EXACT_POSITION), z3.And(is_(mode, DMode.REPLACE), f >= 0)
        self.op = z3.If(z3.Or(exact, over), to_v("replace"), to_v("add"))
        self.path = z3.If(exact, V.str(p), z3.If(over, sub(b, L.itoa(f)), z3.If(self.new, V.str(b), sub(b, "-"))))
        t = V.str(text_(d))
        self.value = z3.If(self.new, V.tup(L.mktup(build(sempty, t))), t)
        self.ok = accepts(l0, self.op, self.path, self.value)
        self.log = build(l0, tup(self.op, self.path, self.value))
        sm = to_v(s.sel_mode)
        keep = z3.And(self.op == to_v("replace"), z3.Not(is_(sm, SMode.REPLACE)), esel_has(l0, self.path))
        self.kept = z3.If(keep, build(self.log, tup("selector", self.path, esel_at(l0, self.path), SMode.REPLACE)), self.log)
        v = eval_(self.kept, V.str(b), to_v(False))
        n = slen(z3.Select(s.old.arr("#list"), V.vr(v)))
        self.line = z3.If(self.new, sub(b, "0"), z3.If(self.op == to_v("add"), sub(b, L.itoa(n - 1)), self.path))
        self.done = z3.If(comp_(s.dep, 4) != V.none, build(self.kept, tup("selector", self.line, comp_(s.dep, 4), sm)), self.kept)
def _add(s):
    w = Plan(s)
    yield "a malformed path, a missing parent or an ignored duplicate changes nothing", z3.Implies(w.refused, z3.And(z3.Not(s.truth(s.result)), s.ghost["log"] == log0(s)))
    yield "otherwise the mode's edit is made", z3.Implies(z3.Not(w.refused), s.truth(s.result) == w.ok)
    yield "it alone, with its selector", z3.Implies(z3.Not(w.refused), s.ghost["log"] == z3.If(w.ok, w.done, log0(s)))
def _addt(L_):
    o = L_.fn
    p, d = V.vs(comp_(o.args["dep"], 1)), V.vo(comp_(o.args["dep"], 3))
    M = members_(o, o.ghost["log"], V.str(up(p)), to_v(True))
    yield "no namesake so far", z3.ForAll([_j], z3.Implies(z3.And(0 <= _j, _j < L_.i), z3.Not(match(M, d, _j))), patterns=[at(M, _j)])
Contract(PM + "add_dependency", props=PN, params=ME, ghosts=LOG, setup=no_casts, assume=firsts, ensures=_add, templates=[("looking", _addt)], modifies=lambda s: [("ghost:log", None)],
    raises={KeyError: lambda s: [("not when refused", z3.Not(Plan(s).refused)), ("only after the edit", Plan(s).ok),
        ("there is no line for the selector", z3.Or(s.ghost["log"] == Plan(s).log, s.ghost["log"] == Plan(s).kept))]})
Contract(PM + "remove_dependency", props=PN, params=ME, ghosts=LOG, modifies=lambda s: [("ghost:log", None)], ensures=lambda s: [
    ("removes what is at its path, or nothing", z3.And(s.truth(s.result) == accepts(log0(s), to_v("remove"), comp(to_v(s.dep), 1), V.none),
        s.ghost["log"] == z3.If(s.truth(s.result), build(log0(s), tup("remove", comp(to_v(s.dep), 1), V.none)), log0(s))))])
