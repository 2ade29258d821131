"""The recipe graph (grapher/recipe_graph.py, grapher/recipe_graph_from_disk.py)."""
from . import env, world
from .world import *
import networkx as nx
import multiprocessing as mp
from conda.models.match_spec import MatchSpec
from conda_recipe_manager.grapher.recipe_graph import RecipeGraph
from conda_recipe_manager.grapher import recipe_graph_from_disk as GD
from conda_recipe_manager.grapher.types import GraphDirection, GraphType, PackageStats
from conda_recipe_manager.parser.dependency import Dependency, DependencySection, DependencyVariable
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
from conda_recipe_manager.parser.recipe_reader import RecipeReader

GM = "conda_recipe_manager.grapher.recipe_graph:RecipeGraph."
RD = "conda_recipe_manager.parser.recipe_reader_deps:RecipeReaderDeps."
PROPS = ("C18",)
FIELDS.update({(RecipeGraph, "_recipe_cache"): ty(dict[str, RecipeReaderDeps]), (RecipeGraph, "_name_to_sha256"): ty(dict[str, str]), (RecipeGraph, "_package_stats"): (("ref", PackageStats),),
               (RecipeGraph, "_build_graph"): (("opq", "DiGraph"),), (RecipeGraph, "_test_graph"): (("opq", "DiGraph"),),
               (PackageStats, "package_name_duplicates"): ty(set[str]), (PackageStats, "recipes_failed_to_parse"): ty(set[str]),
               (PackageStats, "recipes_failed_to_parse_dependencies"): ty(dict[str, list[str]]),
               **{(PackageStats, f): (INT,) for f in ("total_parsed_recipes", "total_recipes", "total_packages")}, (DependencyVariable, "name"): (STR,)})
VL.OPAQUE_CLASSES[MatchSpec] = "MatchSpec"
spec_name = F("match_spec_name", L.Opq, Str)
OPQ_METHODS[("MatchSpec", ".name")] = lambda ip, o, a, k: Sym("str", spec_name(o.t))

# ---- graphs: each new one is another, edges are (graph, from, to)
GH = [("graphs", I), ("edges", z3.ArraySort(V, B)), ("asked", Sq)]
graph_, graph_no = F("graph", I, L.Opq), F("graph_no", L.Opq, I)
VL.OPAQUE_CLASSES[nx.DiGraph] = "DiGraph"
edge, edge_g, edge_a, edge_b = F("edge", V, V, V, V), *(F(f"edge_{c}", V, V) for c in "gab")
def _new_graph(ip, a, kw):
    n = getg(ip, "graphs", I)
    setg(ip, "graphs", n + 1)
    g = graph_(n)
    ip.st.assume(graph_no(g) == n)
    x, y = z3.Consts("x y", V)
    e = edge(V.opq(g), x, y)
    ip.st.assume(z3.ForAll([x, y], z3.Not(z3.Select(getg(ip, "edges", GH[1][1]), e)), patterns=[e]))
    return Sym("opq", g, "DiGraph")
EXTERNALS[nx.DiGraph] = _new_graph
def _add_edge(ip, o, a, kw):
    setg(ip, "edges", z3.Store(getg(ip, "edges", GH[1][1]), edge(V.opq(o.t), to_v(a[0]), to_v(a[1])), True))
    return None
OPQ_METHODS[("DiGraph", "add_edge")] = _add_edge

# ---- what a recipe says of itself (the dependency listing is C10's; here any listing is possible)
readable, nameable = F("readable", V, B), F("nameable", V, B)
pkgs = F("pkgs", V, Sq)             # the packages of a recipe, each once
deps_ = F("deps", V, V, Sq)         # the dependencies of a package of a recipe
# uninterpreted: true of what some recipe really says, and of nothing else that a contract could rely on
needs_b, needs_t = F("needs_build", V, V, V, B), F("needs_test", V, V, V, B)
shared = F("shared", V, B)
def dep_of(v):
    """fields of a Dependency"""
    q = tseq(V.vt(v))
    return at(q, Dependency._fields.index("type")), at(q, Dependency._fields.index("data"))
def name_of(s, d):
    return z3.If(V.is_opq(d), V.str(spec_name(V.vo(d))), s.fv(V.vr(d), "name"))
def is_build(t):
    return z3.Or(t == to_v(DependencySection.BUILD), t == to_v(DependencySection.HOST))
def is_test(t):
    return z3.Or(t == to_v(DependencySection.RUN), t == to_v(DependencySection.TESTS))
def me(s):
    return V.ref(s.self.t)
def _deps(s):
    d, r = s.dic(s.result), me(s)
    p, j = z3.Const("p", V), z3.Const("j", I)
    yield "lists it once more", s.ghost["asked"] == build(s.old.ghost["asked"], r)
    yield "can be read", readable(r)
    yield "its packages", dkeys(d) == pkgs(r)
    yield "packages are texts", z3.ForAll([p], z3.Implies(dhas(d, p), z3.And(V.is_str(p), V.is_ref(dget(d, p)), V.vr(dget(d, p)) >= s.old.alloc, s.ip.st.sel("#list", V.vr(dget(d, p)), s.arr("#list")) == deps_(r, p))), patterns=[dget(d, p)])
Contract(RD + "get_all_dependencies", trusted=True, props=PROPS, params={"self": RecipeReaderDeps}, ghosts=GH, modifies=lambda s: [("ghost:asked", None)], fresh=True, ensures=_deps,
         raises={Exception: lambda s: [("unreadable", z3.Not(readable(me(s)))), ("asked", s.ghost["asked"] == build(s.old.ghost["asked"], me(s)))]})
Contract(RD + "get_package_names_to_path", trusted=True, props=PROPS, params={"self": RecipeReaderDeps}, fresh=True, raises={Exception: lambda s: z3.Not(nameable(me(s)))},
         ensures=lambda s: [("has names", nameable(me(s)))])
class G:
    """the graph being built, in the state s"""
    def __init__(self, s, old, self_):
        self.s, o = s, self_
        fv = lambda x, f: s.fv(x, f)
        sel = s.ip.st.sel
        self.cache = sel("#dict", old.args["recipe_cache"].t, old.arr("#dict"))
        self.tbl = sel("#dict", V.vr(fv(o, "_name_to_sha256")), s.arr("#dict"))
        st = V.vr(fv(o, "_package_stats"))
        self.n = lambda f: V.vi(fv(st, f))
        self.dups = sel("#set", V.vr(fv(st, "package_name_duplicates")), s.arr("#set"))
        self.bad = sel("#dict", V.vr(fv(st, "recipes_failed_to_parse_dependencies")), s.arr("#dict"))
        self.failed = fv(st, "recipes_failed_to_parse")
        self.bg, self.tg = fv(o, "_build_graph"), fv(o, "_test_graph")
        self.asked, self.edges = s.ghost["asked"], s.ghost["edges"]
    def recipe(self, i):
        return dget(self.cache, at(dkeys(self.cache), i))
    def own(self, p):
        """the recipe that owns package p: its position in the cache"""
        return kidx(self.cache, dget(self.tbl, p))
    def src(self, i):
        return at(self.asked, i)
    def owner(self, p):
        return self.src(self.own(p))
    def last(self):
        return at(dkeys(self.tbl), slen(dkeys(self.tbl)) - 1)
def has(q, p):
    return z3.Select(L.selems(q), p)
_p, _u, _v, _i, _j, _k = (*z3.Consts("p u v", V), *z3.Ints("i j k"))
def world_facts(s):
    """what the recipes need and share (definitions of the uninterpreted predicates, in the direction that is true of them)"""
    c = s.recipe_cache
    C = s.ip.st.sel("#dict", c.t, s.arr("#dict"))
    r = lambda i: dget(C, at(dkeys(C), i))
    n = slen(dkeys(C))
    p = at(pkgs(r(_j)), _k)
    both = z3.And(0 <= _i, _i < _j, _j < n, readable(r(_i)), readable(r(_j)), has(pkgs(r(_i)), p), 0 <= _k, _k < slen(pkgs(r(_j))))
    yield z3.ForAll([_i, _j, _k], z3.Implies(both, shared(p)), patterns=[has(pkgs(r(_i)), p)])
    e = edge(_p, _u, _v)
    yield z3.ForAll([_p, _u, _v], z3.And(edge_g(e) == _p, edge_a(e) == _u, edge_b(e) == _v), patterns=[e])
    q = deps_(_u, _p)
    t, d = dep_of(at(q, _j))
    there = z3.And(0 <= _j, _j < slen(q))
    yield z3.ForAll([_u, _p, _j], z3.Implies(there, z3.And(z3.Implies(is_build(t), needs_b(_u, _p, name_of(s, d))), z3.Implies(is_test(t), needs_t(_u, _p, name_of(s, d))))), patterns=[at(q, _j)])
def recorded(g, i, k):
    """the k-th package of recipe i is recorded, and not by a later recipe; reported if by an earlier one"""
    p = at(pkgs(g.src(i)), k)
    there = z3.And(0 <= k, k < slen(pkgs(g.src(i))), readable(g.src(i)))
    yield "recorded, owned by the first", z3.Implies(there, z3.And(dhas(g.tbl, p), g.own(p) <= i))
    yield "later providers are reported", z3.Implies(z3.And(there, g.own(p) < i), z3.Select(g.dups, p))
def drawn(s, g, p, j):
    """the j-th dependency of the recorded package p is in the graph of its section"""
    q = deps_(g.owner(p), p)
    t, d = dep_of(at(q, j))
    there = z3.And(dhas(g.tbl, p), 0 <= j, j < slen(q))
    yield "build and host dependencies are build edges", z3.Implies(z3.And(there, is_build(t)), z3.Select(g.edges, edge(g.bg, p, name_of(s, d))))
    yield "run and test dependencies are test edges", z3.Implies(z3.And(there, is_test(t)), z3.Select(g.edges, edge(g.tg, p, name_of(s, d))))
def only(g, p, u, v):
    n = slen(g.asked)
    o = g.own(p)
    yield "only packages of recipes are recorded", p, z3.Implies(dhas(g.tbl, p), z3.And(V.is_str(dget(g.tbl, p)), dhas(g.cache, dget(g.tbl, p)), 0 <= o, o < n, readable(g.src(o)), has(pkgs(g.src(o)), p)))
    yield "only shared packages are reported", p, z3.Implies(z3.Select(g.dups, p), shared(p))
    yield "build edges are dependencies of the owner", (u, v), z3.Implies(z3.Select(g.edges, edge(g.bg, u, v)), z3.And(dhas(g.tbl, u), needs_b(g.owner(u), u, v)))
    yield "test edges are dependencies of the owner", (u, v), z3.Implies(z3.Select(g.edges, edge(g.tg, u, v)), z3.And(dhas(g.tbl, u), needs_t(g.owner(u), u, v)))
def _tmpl(L_):
    s = L_.now
    g = G(s, L_.fn, L_.fn.args["self"])
    n, i = slen(g.asked), L_.i
    yield "one by one", n == i
    yield "asked in order", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < n), g.src(_i) == g.recipe(_i)), patterns=[g.src(_i), g.recipe(_i)])
    yield "so many", n <= slen(dkeys(g.cache))
    for how, rng in (("", z3.And(0 <= _i, _i < n)), (" before", z3.And(0 <= _i, _i < n - 1))):
        for nm, f in recorded(g, _i, _k):
            yield nm + how, z3.ForAll([_i, _k], z3.Implies(rng, f), patterns=[at(pkgs(g.src(_i)), _k)])
    for nm, f in recorded(g, n - 1, _k):
        yield nm + " of this", z3.ForAll([_k], z3.Implies(_k < i, f), patterns=[at(pkgs(g.src(n - 1)), _k)])
    pat = at(deps_(g.owner(_p), _p), _j)
    for how, rng in (("", True), (" but the last", _p != g.last()), (" so far", z3.Or(_p != g.last(), _j < i))):
        for nm, f in drawn(s, g, _p, _j):
            yield nm + how, z3.ForAll([_p, _j], z3.Implies(rng, f), patterns=[pat])
    for nm, x, f in only(g, _p, _u, _v):
        pats = [dhas(g.tbl, _p)] if "recorded" in nm else [z3.Select(g.dups, _p)] if "reported" in nm else [z3.Select(g.edges, edge(g.bg if "build" in nm else g.tg, _u, _v))]
        yield nm, z3.ForAll(list(x) if isinstance(x, tuple) else [x], f, patterns=pats)
    for nm, v in L_.locals("dict"):
        d = s.dic(v)
        mine = z3.And(dhas(g.tbl, _p), g.own(_p) == n - 1)
        yield f"{nm} so far", z3.ForAll([_p], z3.Implies(mine, z3.And(dhas(d, _p), kidx(d, _p) < i)), patterns=[dhas(g.tbl, _p)])
        yield f"{nm} up to the last", z3.ForAll([_p], z3.Implies(mine, z3.And(dhas(d, _p), kidx(d, _p) <= kidx(d, g.last()))), patterns=[dhas(g.tbl, _p)])
    yield "packages counted", g.n("total_packages") == slen(dkeys(g.tbl))
    yield "unreadable reported", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < n), dhas(g.bad, at(dkeys(g.cache), _i)) == z3.Not(readable(g.src(_i)))), patterns=[at(dkeys(g.cache), _i), g.src(_i)])
    yield "only recipes reported", z3.ForAll([_p], z3.Implies(dhas(g.bad, _p), z3.And(dhas(g.cache, _p), kidx(g.cache, _p) < n)), patterns=[dhas(g.bad, _p)])
    yield "last is new", z3.And(slen(dkeys(g.tbl)) > 0, dhas(g.tbl, g.last()))
def _init(s):
    g = G(s, s.old, s.self)
    F_ = s.ip.st.fresh
    i, k, j, p, u, v = F_("i", I), F_("k", I), F_("j", I), F_("p", V), F_("u", V), F_("v", V)
    N = slen(dkeys(g.cache))
    rec = z3.And(0 <= i, i < N)
    yield "every recipe is asked once, in order", z3.And(slen(g.asked) == N, z3.Implies(rec, g.src(i) == g.recipe(i)))
    for nm, f in recorded(g, i, k):
        yield nm, z3.Implies(rec, f)
    for nm, f in drawn(s, g, p, j):
        yield nm, f
    for nm, x, f in only(g, p, u, v):
        yield nm, f
    failed = s.ip.st.sel("#set", V.vr(g.failed), s.arr("#set"))
    yield "total packages are the recorded packages", g.n("total_packages") == slen(dkeys(g.tbl))
    yield "total recipes are those parsed and those that failed", z3.And(g.n("total_parsed_recipes") == N, g.n("total_recipes") == N + L.card(failed), failed == s.old.set(s.old.recipes_failed_to_parse))
    yield "a recipe whose dependencies can not be read is reported", z3.Implies(rec, dhas(g.bad, at(dkeys(g.cache), i)) == z3.Not(readable(g.recipe(i))))
    yield "nothing else is reported", z3.Implies(dhas(g.bad, p), dhas(g.cache, p))
    yield "two graphs", g.bg != g.tg
    yield "keeps the recipes it was given", s.fv(s.self, "_recipe_cache") == to_v(s.recipe_cache)
    yield "makes its own statistics", z3.And(V.is_ref(s.fv(s.self, "_package_stats")), V.vr(s.fv(s.self, "_package_stats")) >= s.old.alloc, V.is_ref(g.failed))
Contract(GM + "__init__", params={"self": RecipeGraph}, props=PROPS, ghosts=GH, requires=lambda s: [("nothing asked yet", slen(s.ghost["asked"]) == 0)], assume=world_facts,
    ensures=_init, templates=[("graph so far", _tmpl)],
    modifies=lambda s: [(f, s.self) for f in ("_package_stats", "_recipe_cache", "_name_to_sha256", "_build_graph", "_test_graph")] + [("ghost:" + g, None) for g, _ in GH])
SELF = {"self": RecipeGraph}
Contract(GM + "contains_package_name", params=SELF, props=PROPS, ensures=lambda s: [("exactly the recorded packages", s.truth(s.result) == dhas(s.ip.st.sel("#dict", V.vr(s.old.fv(s.self, "_name_to_sha256")), s.old.arr("#dict")), to_v(s.package)))])
Contract(GM + "get_package_stats", params=SELF, props=PROPS, ensures=lambda s: [("the statistics", to_v(s.result) == s.old.fv(s.self, "_package_stats"))])
Contract(GM + "__bool__", params=SELF, props=PROPS, ensures=lambda s: [("has recipes", s.truth(s.result) == (slen(dkeys(s.ip.st.sel("#dict", V.vr(s.old.fv(s.self, "_recipe_cache")), s.old.arr("#dict")))) > 0))])
Contract(GM + "_get_graph", params=SELF, props=PROPS, result=(("opq", "DiGraph"),), ensures=lambda s: [("the graph of that kind", to_v(s.result) == z3.If(to_v(s.graph_type) == to_v(GraphType.BUILD), s.old.fv(s.self, "_build_graph"), s.old.fv(s.self, "_test_graph")))])
Contract(GM + "_reverse_flag", props=PROPS, ensures=lambda s: [("reversed iff needed by", s.truth(s.result) == (to_v(s.direction) == to_v(GraphDirection.NEEDED_BY)))])

# ---- reading the recipes of a directory
DM = "conda_recipe_manager.grapher.recipe_graph_from_disk:RecipeGraphFromDisk."
RGD = GD.RecipeGraphFromDisk
ST = [("reads", I), ("results", Sq)]
def _read(ip, o, a, kw):
    may_raise(ip, [OSError, UnicodeDecodeError], "read")
    return any_str(ip)
DISK = [("read_ok", B)]
OPQ_METHODS[("Path", "as_posix")] = any_str
Contract("conda_recipe_manager.parser.recipe_reader:RecipeReader.__init__", trusted=True, props=PROPS, params={"self": RecipeReaderDeps}, modifies=lambda s: [], raises={Exception: lambda s: True})
Contract("conda_recipe_manager.parser.recipe_reader:RecipeReader.calc_sha256", trusted=True, props=PROPS, params={"self": RecipeReaderDeps}, modifies=lambda s: [], raises={Exception: lambda s: True})
def _one(s):
    n, r = s.result if isinstance(s.result, tuple) else s.ip.tuple_items(s.result)
    yield "a recipe made just now, or none", z3.Or(to_v(r) == V.none, z3.And(V.is_ref(to_v(r)), V.vr(to_v(r)) >= s.old.alloc))
def use_read(*a):
    OPQ_METHODS[("Path", "read_text")] = _read
Contract(DM + "_read_and_parse_recipe", props=PROPS, setup=use_read, ensures=_one)
EXTERNALS[mp.cpu_count] = EXTERNALS["multiprocessing.context.BaseContext.cpu_count"] = lambda ip, a, kw: ip.fresh("cpus", int)
EXTERNALS[mp.Pool] = EXTERNALS["multiprocessing.context.BaseContext.Pool"] = lambda ip, a, kw: opq(ip, "Pool", "pool")
OPQ_METHODS[("Path", "rglob")] = lambda ip, o, a, kw: ip.fresh("files", list[Path])
FIELDS.update({(RGD, f): t for (c, f), t in list(FIELDS.items()) if c is RecipeGraph} | {(RGD, "_dir_path"): (("opq", "Path"),)})
def _map(ip, o, a, kw):
    """Pool.map: one result of the function per file, in order; the function runs in another process, so its results are copies"""
    fn = a[0]
    if getattr(fn, "fn", fn) is not RGD._read_and_parse_recipe and fn is not RGD.__dict__["_read_and_parse_recipe"]:
        raise IT.Unsupported(f"task {fn}")
    a0 = ip.st.alloc_now()
    ip.st.bump_alloc()
    r = ip.fresh("results", list[tuple[str, typing.Optional[RecipeReaderDeps]]])
    q = ip.st.sel("#list", r.t)
    ip.st.assume(z3.And(r.t >= a0, r.t < ip.st.alloc_now()))
    setg(ip, "results", q)
    n, r_ = res(q, _i)
    ip.st.assume(z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(q)), z3.If(r_ == V.none, is_bad(n), is_good(n))), patterns=[at(q, _i)]))
    return r
is_bad, is_good = F("is_bad", V, B), F("is_good", V, B)     # names of results without and with a recipe
import typing
OPQ_METHODS[("Pool", "map")] = _map
def res(q, i):
    t = tseq(V.vt(at(q, i)))
    return at(t, 0), at(t, 1)
def _disk(s):
    g = s.ghost
    q, i = g["results"], s.ip.st.fresh("i", I)
    st = V.vr(s.fv(s.self, "_package_stats"))
    n = lambda f: V.vi(s.fv(st, f))
    D = s.ip.st.sel("#dict", V.vr(s.fv(s.self, "_recipe_cache")), s.arr("#dict"))
    bad = s.ip.st.sel("#set", V.vr(s.fv(st, "recipes_failed_to_parse")), s.arr("#set"))
    there = z3.And(0 <= i, i < slen(q))
    name, r = res(q, i)
    yield "every file that can not be parsed is reported", z3.Implies(z3.And(there, r == V.none), z3.Select(bad, name))
    yield "every parsed recipe is there", z3.Implies(z3.And(there, r != V.none), dhas(D, name))
    x = s.ip.st.fresh("x", V)
    yield "nothing else is reported", z3.Implies(z3.Select(bad, x), is_bad(x))
    yield "no other recipe is there", z3.Implies(dhas(D, x), is_good(x))
    yield "total recipes are those parsed and those that failed", n("total_recipes") == slen(dkeys(D)) + L.card(bad)
    yield "parsed recipes", n("total_parsed_recipes") == slen(dkeys(D))
def _diskt(L_):
    g, s = L_.ghost, L_.now
    q = g["results"]
    name, r = res(q, _i)
    there = z3.And(0 <= _i, _i < L_.i)
    x = _p
    yield "same results", L_.it.length() == slen(q)
    for n, v in L_.locals("set"):
        c = s.set(v)
        yield f"{n} failed", z3.ForAll([_i], z3.Implies(z3.And(there, r == V.none), z3.Select(c, name)), patterns=[at(q, _i)])
        yield f"{n} only failed", z3.ForAll([x], z3.Implies(z3.Select(c, x), is_bad(x)), patterns=[z3.Select(c, x)])
    for n, v in L_.locals("dict"):
        c = s.dic(v)
        yield f"{n} parsed", z3.ForAll([_i], z3.Implies(z3.And(there, r != V.none), dhas(c, name)), patterns=[at(q, _i)])
        yield f"{n} only parsed", z3.ForAll([x], z3.Implies(dhas(c, x), is_good(x)), patterns=[dhas(c, x)])
Contract(DM + "__init__", params={"self": RGD, "cpu_count": int}, props=PROPS, ghosts=GH + ST, requires=lambda s: [("nothing asked yet", slen(s.ghost["asked"]) == 0)], ensures=_disk, templates=[("results so far", _diskt)],
    modifies=lambda s: [(f, s.self) for f in ("_dir_path", "_package_stats", "_recipe_cache", "_name_to_sha256", "_build_graph", "_test_graph")] + [("ghost:" + g, None) for g, _ in GH + ST])
