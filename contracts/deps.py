"""Dependency queries (parser/dependency.py, parser/recipe_reader_deps.py)."""
from . import env, models, tree
from .world import *
from pyvc import interp as IT
from conda_recipe_manager.types import Primitives, SentinelType, JsonType
from conda_recipe_manager.parser import dependency as DEP, recipe_reader_deps as RD
from conda_recipe_manager.parser.dependency import Dependency, DependencySection
from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
from conda_recipe_manager.parser.selector_parser import SelectorParser

DM = "conda_recipe_manager.parser.recipe_reader_deps:RecipeReaderDeps."
RR = "conda_recipe_manager.parser.recipe_reader:RecipeReader."
SP = "conda_recipe_manager.parser.selector_parser:SelectorParser."
M = "conda_recipe_manager.parser.dependency:"
PN, PD = ("C09",), ("C10",)
BOTH = PN + PD
SELF = {"self": RecipeReaderDeps}
_q, _p = z3.Consts("q p", V)
_i, _j, _k, _m = z3.Ints("i j k m")
SENT = to_v(RecipeReader._sentinel)
# ------------------------------------------------------------------ names of sections, written down independently of the code
NAMES = {"BUILD": ("build", "build"), "HOST": ("host", "host"), "RUN": ("run", "run"), "RUN_CONSTRAINTS": ("run_constrained", "run_constraints"),
         "RUN_EXPORTS": ("run_exports", "run_exports"), "TESTS": ("requires", "requires")}
SECTION = {t: to_v(DependencySection[n]) for n, ts in NAMES.items() for t in ts}
assert {s.name for s in DependencySection} == set(NAMES)
def clean(t):
    return s_lower(s_strip(t))
def section(t):
    """the section a text names"""
    r = V.none
    for n, v in SECTION.items():
        r = z3.If(clean(t) == lit(n), v, r)
    return r
def section_text(s, schema):
    r = V.none
    for n, ts in NAMES.items():
        for v, t in zip((SchemaVersion.V0, SchemaVersion.V1), ts):
            r = z3.If(z3.And(s == to_v(DependencySection[n]), schema == to_v(v)), to_v(t), r)
    return r
Contract(M + "str_to_dependency_section", props=BOTH, ensures=lambda s: [("the section of that name, if any", to_v(s.result) == section(S_(s.s)))])
def _dts(s):
    yield "the name of the section in that format", to_v(s.result) == section_text(to_v(s.section), to_v(s.schema))
    yield "reads back as the section", section(V.vs(to_v(s.result))) == to_v(s.section)
Contract(M + "dependency_section_to_str", props=BOTH, ensures=_dts)
# ------------------------------------------------------------------ one requirement
def text(v):
    """str() of a JSON value"""
    return z3.If(V.is_str(v), v, V.str(z3.If(V.is_int(v), L.itoa(V.vi(v)), z3.If(V.is_bool(v), z3.If(V.vb(v), lit("True"), lit("False")), z3.If(V.is_flt(v), L.ftoa(V.vf(v)), L.pystr(v))))))
def san(v):
    """the requirement a list member stands for; none if it is blank"""
    t = s_strip(V.vs(text(v)))
    return z3.If(z3.Or(v == V.none, t == lit("")), V.none, V.str(t))
def no_casts(ip, args):
    ip.trust_casts = False      # what a recipe holds can be of any shape
Contract(DM + "_sanitize_dep", props=BOTH, params={"dep": "JSON"}, setup=no_casts, ensures=lambda s: [("blank requirements are nothing, others their text", to_v(s.result) == san(to_v(s.dep)))])
data_ = F("dep_data", Str, L.Opq)
VL.OPAQUE_CLASSES[DEP.MatchSpec] = VL.OPAQUE_CLASSES[DEP.DependencyVariable] = "DepData"
def _data(ip, a, kw):
    x = ip.resolve(a[0] if a else kw["s"])
    if ip.kind(x) != "str":
        ip.throw(TypeError)
    return Sym("opq", data_(S_(x)), "DepData")
EXTERNALS[DEP.dependency_data_from_str] = _data
# ------------------------------------------------------------------ the recipe: values, packages and selectors as the reader gives them (C02, C06; trusted here)
has_, valat = F("dr_has", V, B), F("dr_val", V, V, V)
def val_(p, rendered=True):
    """the value at a path, with or without its variables put in"""
    return valat(p, to_v(rendered))
pkgs = z3.Const("dr_packages", Sq)
multi = z3.Const("dr_multi", B)
app = F("dr_append", V, V, V)
has_sel, sel_at, sel_text = F("dr_has_selector", V, B), F("dr_selector_at", V, V), F("dr_selector_text", V, V)
Contract(RR + "get_value", trusted=True, props=PD, params=SELF, modifies=lambda s: [], result="JSON",
    raises={KeyError: lambda s: z3.And(z3.Not(has_(to_v(s.path))), to_v(s.default) == SENT)},
    ensures=lambda s: [("the value there, or the default", to_v(s.result) == z3.If(has_(to_v(s.path)), valat(to_v(s.path), to_v(s.sub_vars)), to_v(s.default)))])
Contract(RR + "get_package_paths", trusted=True, props=PD, params=SELF, modifies=lambda s: [], fresh=True, ensures=lambda s: [("where the packages are", s.seq(s.result) == pkgs)])
Contract(RR + "is_multi_output", trusted=True, props=PD, params=SELF, modifies=lambda s: [], ensures=lambda s: [("has outputs", s.truth(s.result) == multi)])
Contract(RR + "append_to_path", trusted=True, props=PD, modifies=lambda s: [], ensures=lambda s: [("the joined path", to_v(s.result) == app(to_v(s.base_path), to_v(s.ext_path)))])
Contract(RR + "get_selector_at_path", trusted=True, props=PD, params=SELF, modifies=lambda s: [],
    raises={KeyError: lambda s: z3.And(z3.Not(has_sel(to_v(s.path))), to_v(s.default) == SENT)},
    ensures=lambda s: [("the selector there, or the default", to_v(s.result) == z3.If(has_sel(to_v(s.path)), sel_at(to_v(s.path)), to_v(s.default)))])
Contract(SP + "__init__", trusted=True, props=PD, params={"self": SelectorParser}, modifies=lambda s: [], ensures=lambda s: [("parses its text", sel_text(to_v(s.self)) == to_v(s.content))])
FIELDS[(RecipeReader, "_schema_version")] = FIELDS[(RecipeReaderDeps, "_schema_version")] = (("enum", SchemaVersion),)
def sel_ok(v, path):
    return z3.If(has_sel(path), z3.And(V.is_ref(v), sel_text(v) == sel_at(path)), v == V.none)
Contract(DM + "_fetch_optional_selector", props=PD, params=SELF, ensures=lambda s: [("the selector on that line, if any", sel_ok(to_v(s.result), to_v(s.path)))])
# ---- names of packages
def v1multi(s):
    return z3.And(multi, s.fv(s.self, "_schema_version") == to_v(SchemaVersion.V1))
def name_path(s, p):
    w = v1multi(s)
    return z3.If(p == to_v("/"), z3.If(w, to_v("/recipe/name"), to_v("/package/name")), app(p, z3.If(w, to_v("/package/name"), to_v("/name"))))
def name(s, p):
    return val_(name_path(s, p))
def named(s, i, n):
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), has_(name_path(s, at(pkgs, i)))), patterns=[at(pkgs, i)])
def world(s):
    i = _i
    yield z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < slen(pkgs)), z3.And(V.is_str(at(pkgs, i)), V.is_str(name(s, at(pkgs, i))))), patterns=[at(pkgs, i)])
class _S:
    """where a package is named, for a schema version"""
    def __init__(self, schema):
        self.schema = schema
        self.self = None
    def fv(self, o, f):
        return self.schema
names = RecFn("dr_names", [V, I], Dc, lambda v, n: z3.If(n <= 0, dempty, dset(names(v, n - 1), name(_S(v), at(pkgs, n - 1)), at(pkgs, n - 1))))
def table(s):
    """name -> path of every package"""
    return names(s.fv(s.self, "_schema_version"), slen(pkgs))
def _names(s):
    r = s.dic(s.result)
    i, rng = _i, z3.And(0 <= _i, _i < slen(pkgs))
    yield "every package has a name", named(s, _i, slen(pkgs))
    yield "the names, in the order of the packages", z3.ForAll([i], z3.Implies(rng, at(dkeys(r), i) == name(s, at(pkgs, i))), patterns=[at(dkeys(r), i), at(pkgs, i)])
    yield "where each package is", z3.ForAll([i], z3.Implies(rng, dget(r, at(dkeys(r), i)) == at(pkgs, i)), patterns=[at(dkeys(r), i), at(pkgs, i)])
    yield "nothing else", slen(dkeys(r)) == slen(pkgs)
    yield "the table of packages", r == table(s)
def _namest(L_):
    s = L_.fn
    me = type("_", (), dict(fv=s.fv, self=s.args["self"]))
    for nm, v in L_.locals("dict"):
        r = L_.now.dic(v)
        rng = z3.And(0 <= _i, _i < L_.i)
        yield f"{nm} has names", named(me, _i, L_.i)
        yield f"{nm} so many", slen(dkeys(r)) == L_.i
        yield f"{nm} names", z3.ForAll([_i], z3.Implies(rng, at(dkeys(r), _i) == name(me, at(pkgs, _i))), patterns=[at(dkeys(r), _i), at(pkgs, _i)])
        yield f"{nm} paths", z3.ForAll([_i], z3.Implies(rng, dget(r, at(dkeys(r), _i)) == at(pkgs, _i)), patterns=[at(dkeys(r), _i), at(pkgs, _i)])
        yield f"{nm} table", r == names(s.fv(me.self, "_schema_version"), L_.i)
def duplicate(s):
    return z3.Not(z3.ForAll([_i, _j], z3.Implies(z3.And(0 <= _i, _i < _j, _j < slen(pkgs)), name(s, at(pkgs, _i)) != name(s, at(pkgs, _j))), patterns=[MP(at(pkgs, _i), at(pkgs, _j))]))
Contract(DM + "get_package_names_to_path", props=PD, params=SELF, fresh=True, assume=world, ensures=_names, templates=[("names so far", _namest)],
    raises={KeyError: lambda s: z3.Not(named(s, _i, slen(pkgs))), ValueError: duplicate})
# ------------------------------------------------------------------ top-level requirements
def comp(e, n):
    return at(tseq(V.vt(e)), n)
assert Dependency._fields == ("required_by", "path", "type", "data", "selector")
def chain(*xs):
    q = sempty
    for x in xs:
        q = build(q, x)
    return V.tup(L.mktup(q))
def rebrand(q, d):
    """the same dependency, required by q"""
    return chain(q, *[comp(d, n) for n in range(1, 5)])
def lists_ok(D, a0=None):
    """the lists of a map are separate objects"""
    yield "lists", z3.ForAll([_q], z3.Implies(dhas(D, _q), z3.And(V.is_ref(dget(D, _q)), *([] if a0 is None else [V.vr(dget(D, _q)) < a0]))), patterns=[dget(D, _q), dhas(D, _q)])
    yield "separate lists", z3.ForAll([_q, _p], z3.Implies(z3.And(dhas(D, _q), dhas(D, _p), _q != _p), V.vr(dget(D, _q)) != V.vr(dget(D, _p))), patterns=[MP(dget(D, _q), dget(D, _p))])
def deps(s, D, q):
    return z3.Select(s.arr("#list"), V.vr(dget(D, q)))
def spreads(D, root):
    return z3.And(slen(dkeys(D)) > 1, dhas(D, root))
def _top(s):
    o = s.old
    D, root, q = o.dic(s.dep_map), to_v(s.root_package), _q
    new, old, top = deps(s, D, q), deps(o, D, q), deps(o, D, root)
    yield "nothing changes without outputs or a top level", z3.Implies(z3.Not(spreads(D, root)), z3.ForAll([q], z3.Implies(dhas(D, q), new == old), patterns=[dget(D, q), dhas(D, q)]))
    yield "the top level's own list stays", z3.Implies(dhas(D, root), deps(s, D, root) == deps(o, D, root))
    out = z3.And(dhas(D, q), spreads(D, root), q != root)
    yield "every output: so many", z3.ForAll([q], z3.Implies(out, slen(new) == slen(old) + slen(top)), patterns=[dget(D, q), dhas(D, q)])
    yield "every output: its own first", z3.ForAll([q, _j], z3.Implies(z3.And(out, 0 <= _j, _j < slen(old)), at(new, _j) == at(old, _j)), patterns=[at(new, _j)])
    yield "every output: then those of the root", z3.ForAll([q, _j], z3.Implies(z3.And(out, slen(old) <= _j, _j < slen(old) + slen(top)), at(new, _j) == rebrand(q, at(top, _j - slen(old)))), patterns=[at(new, _j)])
def _topt(L_):
    s, o = L_.now, L_.fn
    D, root = o.dic(o.args["dep_map"]), to_v(o.args["root_package"])
    i, q, k = (L_.outer[0] if L_.outer else L_.i), _q, L.kidx(D, _q)
    r = z3.Const("mr", I)
    q2 = z3.Const("mq2", V)
    mine = z3.Exists([q2], z3.And(dhas(D, q2), q2 != root, V.vr(dget(D, q2)) == r))
    yield "others stay", z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < o.alloc, z3.Not(mine)), z3.Select(s.arr("#list"), r) == z3.Select(o.arr("#list"), r)), patterns=[z3.Select(s.arr("#list"), r)])
    yield "root stays", deps(s, D, root) == deps(o, D, root)
    yield "later ones stay", z3.ForAll([q], z3.Implies(z3.And(dhas(D, q), k >= i), deps(s, D, q) == deps(o, D, q)), patterns=[dget(D, q), dhas(D, q)])
    done = z3.And(dhas(D, q), k < i, q != root)
    new, old, top = deps(s, D, q), deps(o, D, q), deps(o, D, root)
    yield "so many", z3.ForAll([q], z3.Implies(done, slen(new) == slen(old) + slen(top)), patterns=[dget(D, q), dhas(D, q)])
    yield "own first", z3.ForAll([q, _j], z3.Implies(z3.And(done, 0 <= _j, _j < slen(old)), at(new, _j) == at(old, _j)), patterns=[at(new, _j)])
    yield "then root", z3.ForAll([q, _j], z3.Implies(z3.And(done, slen(old) <= _j, _j < slen(old) + slen(top)), at(new, _j) == rebrand(q, at(top, _j - slen(old)))), patterns=[at(new, _j)])
    if L_.outer:
        for nm, l in L_.lists():
            yield f"{nm} one by one", slen(l) == L_.i
            yield f"{nm} rebranded", z3.ForAll([_j], z3.Implies(z3.And(0 <= _j, _j < L_.i), at(l, _j) == rebrand(at(dkeys(D), i), at(top, _j))), patterns=[at(l, _j)])
def _topmod(s):
    D, root = s.dic(s.dep_map), to_v(s.root_package)
    q = z3.Const("mq", V)
    return [("#list", lambda o: z3.Exists([q], z3.And(dhas(D, q), q != root, V.vr(dget(D, q)) == o)))]
Contract(DM + "_add_top_level_dependencies", props=PD, requires=lambda s: list(lists_ok(s.dic(s.dep_map))), ensures=_top, templates=[("packages so far", _topt)], modifies=_topmod)
# ------------------------------------------------------------------ the dependency map
ArrS, ArrD = z3.ArraySort(I, Sq), z3.ArraySort(I, Dc)
DICT_ATOM, LIST_ATOM = (next(a for a in VL.json_ty() if a[0] == "ref" and a[1][0] == k) for k in ("dict", "list"))
isl, isd = (lambda v: VL.atom_cond(v, LIST_ATOM, VL.json_ty())), (lambda v: VL.atom_cond(v, DICT_ATOM, VL.json_ty()))
pos, pm, pn = F("dr_pos", I, I, V), F("dr_pos_section", V, I), F("dr_pos_member", V, I)
def sec_key(D, m):
    return at(dkeys(D), m)
def sec_list(D, ls, m):
    return z3.Select(ls, V.vr(dget(D, sec_key(D, m))))
def members(D, ls, m):
    """how many members of section m are looked at"""
    return z3.If(z3.And(section(V.vs(sec_key(D, m))) != V.none, isl(dget(D, sec_key(D, m)))), slen(sec_list(D, ls, m)), 0)
# the positions (section, member) of the requirements of the first m sections and the first n members of section m, blanks left out
pq = RecFn("dr_found", [Dc, ArrS, I, I], Sq, lambda D, ls, m, n: z3.If(n > 0,
        z3.If(san(at(sec_list(D, ls, m), n - 1)) != V.none, build(pq(D, ls, m, n - 1), pos(m, n - 1)), pq(D, ls, m, n - 1)),
        z3.If(m > 0, pq(D, ls, m - 1, members(D, ls, m - 1)), sempty)))
class Req:
    """the requirements of the package at path p, in a heap in which nothing of the recipe has changed"""
    def __init__(self, s, p):
        self.p, self.ls = p, s.arr("#list")
        self.at = app(p, to_v("/requirements"))
        v = val_(self.at)
        self.there = z3.And(has_(self.at), isd(v))
        self.D = z3.If(self.there, z3.Select(s.arr("#dict"), V.vr(v)), dempty)
    def all(self):
        return pq(self.D, self.ls, slen(dkeys(self.D)), 0)
    def some(self, m, n):
        return pq(self.D, self.ls, m, n)
    def is_dep(self, e, owner, x):
        """e is the dependency at position x"""
        m, n = pm(x), pn(x)
        k = sec_key(self.D, m)
        path = app(self.p, V.str(cat(lit("/requirements/"), cat(V.vs(k), cat(lit("/"), L.itoa(n))))))
        yield "its package", comp(e, 0) == owner
        yield "its path", comp(e, 1) == path
        yield "its section", comp(e, 2) == section(V.vs(k))
        yield "its requirement", comp(e, 3) == V.opq(data_(V.vs(san(at(sec_list(self.D, self.ls, m), n)))))
        yield "its selector", sel_ok(comp(e, 4), path)
def pos_facts(s):
    yield from world(s)
    yield z3.ForAll([_m, _k], z3.And(pm(pos(_m, _k)) == _m, pn(pos(_m, _k)) == _k), patterns=[pos(_m, _k)])
    # the root comes first, and nothing else is the root
    yield slen(pkgs) > 0
    yield z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(pkgs)), (at(pkgs, _i) == to_v("/")) == (_i == 0)), patterns=[at(pkgs, _i)])
    # what the recipe holds is not any of the objects made later
    a0 = s.ip.st.alloc_now()
    b = z3.Const("bb", V)
    v = valat(_p, b)
    yield z3.ForAll([_p, b], z3.Implies(V.is_ref(v), V.vr(v) < a0), patterns=[v])
    d = z3.Select(s.arr("#dict"), V.vr(v))
    yield z3.ForAll([_p, _q, b], z3.Implies(z3.And(isd(v), dhas(d, _q)), z3.And(V.is_str(_q), z3.Implies(V.is_ref(dget(d, _q)), V.vr(dget(d, _q)) < a0))), patterns=[dget(d, _q), dhas(d, _q)])
def _all(s):
    o = s.old
    T, D, q = table(o), s.dic(s.result), s.ip.st.fresh("q", V)
    root = at(dkeys(T), 0)
    r, rt = Req(o, dget(T, q)), Req(o, dget(T, root))
    l, own, top = deps(s, D, q), r.all(), rt.all()
    there = dhas(T, q)
    also = z3.And(there, q != root)
    j = s.ip.st.fresh("j", I)
    yield "one entry per package", slen(dkeys(D)) == slen(dkeys(T))
    yield "in order", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(dkeys(T))), at(dkeys(D), _i) == at(dkeys(T), _i)), patterns=[at(dkeys(D), _i), at(dkeys(T), _i)])
    yield "the top level lists its own", z3.Implies(z3.And(there, q == root), slen(l) == slen(own))
    yield "an output lists its own and those of the top level", z3.Implies(also, slen(l) == slen(own) + slen(top))
    for n, f in r.is_dep(at(l, j), q, at(own, j)):
        yield "each once, in order: " + n, z3.Implies(z3.And(there, 0 <= j, j < slen(own)), f)
    for n, f in rt.is_dep(at(l, j), q, at(top, j - slen(own))):
        yield "then the top level's: " + n, z3.Implies(z3.And(also, slen(own) <= j, j < slen(own) + slen(top)), f)
def _allt(L_):
    s, o = L_.now, L_.fn
    me = type("_", (), dict(fv=o.fv, self=o.args["self"]))
    T, a0 = table(me), o.alloc
    q = _q
    k, i = L.kidx(T, q), (L_.outer[0] if L_.outer else L_.i)
    m, n = (z3.IntVal(0), z3.IntVal(0)) if not L_.outer else (L_.i, z3.IntVal(0)) if len(L_.outer) == 1 else (L_.outer[1], L_.i)
    r = Req(o, dget(T, q))
    inner = bool(L_.outer)
    for nm, v in L_.locals("dict"):
        if v.c[-1] == (("str",),):
            continue        # the table of packages
        D = s.dic(v)
        l = deps(s, D, q)
        yield f"{nm} names", slen(dkeys(D)) == (i + 1 if inner else i)
        yield f"{nm} names in order", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(dkeys(D))), at(dkeys(D), _i) == at(dkeys(T), _i)), patterns=[at(dkeys(D), _i)])
        yield f"{nm} only packages", z3.ForAll([q], z3.Implies(dhas(D, q), z3.And(dhas(T, q), k <= i if inner else k < i)), patterns=[dhas(D, q), dget(D, q)])
        yield f"{nm} all packages", z3.ForAll([q], z3.Implies(z3.And(dhas(T, q), k <= i if inner else k < i), dhas(D, q)), patterns=[dhas(D, q), dhas(T, q)])
        yield f"{nm} new lists", z3.ForAll([q], z3.Implies(dhas(D, q), z3.And(V.is_ref(dget(D, q)), V.vr(dget(D, q)) >= a0, V.vr(dget(D, q)) < s.ip.st.alloc_now())), patterns=[dhas(D, q), dget(D, q)])
        yield f"{nm} separate lists", z3.ForAll([q, _p], z3.Implies(z3.And(dhas(D, q), dhas(D, _p), q != _p), V.vr(dget(D, q)) != V.vr(dget(D, _p))), patterns=[MP(dget(D, q), dget(D, _p))])
        for which, cond, Q in (("done", k < i, r.all()),) + ((("current", k == i, r.some(m, n)),) if inner else ()):
            yield f"{nm} {which}: as many", z3.ForAll([q], z3.Implies(z3.And(dhas(D, q), cond), slen(l) == slen(Q)), patterns=[dhas(D, q), dget(D, q)])
            for w, f in r.is_dep(at(l, _j), q, at(Q, _j)):
                yield f"{nm} {which}: {w}", z3.ForAll([q, _j], z3.Implies(z3.And(dhas(D, q), cond, 0 <= _j, _j < slen(Q)), f), patterns=[at(l, _j)])
    for nm, v in () if inner else L_.locals("str"):
        yield f"{nm} root", to_v(v) == z3.If(i + (1 if inner else 0) > 0, at(dkeys(T), 0), to_v(""))
Contract(DM + "get_all_dependencies", props=PD, budget=500, params=SELF, setup=no_casts, assume=pos_facts, ensures=_all, templates=[("map so far", _allt)],
    raises={KeyError: lambda s: z3.Not(named(s.old, _i, slen(pkgs))), ValueError: lambda s: duplicate(s.old)})
