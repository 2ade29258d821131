"""Dependency scanners (scanner/dependency/*.py)."""
from . import env, world
from .world import *
import ast, pkgutil, tomllib, typing
from conda_recipe_manager.parser import dependency as DEP
from conda_recipe_manager.parser.dependency import DependencySection
from conda_recipe_manager.scanner.dependency import base_dep_scanner as BS, py_dep_scanner as PS, pyproject_dep_scanner as TS
from conda_recipe_manager.types import MessageCategory, MessageTable

PY = "conda_recipe_manager.scanner.dependency.py_dep_scanner:PythonDependencyScanner."
PROPS = ("C19",)
SELF = {"self": PS.PythonDependencyScanner}
_i, _j, _k, _d, _x = *z3.Ints("i j k"), *z3.Consts("d x", V)

# ---- dependencies as values: two of the same text are equal
data_ = F("dep_data", Str, L.Opq)
VL.OPAQUE_CLASSES[DEP.MatchSpec] = VL.OPAQUE_CLASSES[DEP.DependencyVariable] = "DepData"
def _data(ip, a, kw):
    x = ip.resolve(a[0] if a else kw["s"])
    if ip.kind(x) != "str":
        ip.throw(TypeError)
    return Sym("opq", data_(S_(x)), "DepData")
EXTERNALS[DEP.dependency_data_from_str] = _data
class pd:
    """the dependency of a text in a section"""
    def __new__(cls, text, section):
        return V.tup(L.mktup(build(build(sempty, V.opq(data_(text))), section)))
RUN, TESTS, HOST, CONSTR = (to_v(x) for x in (DependencySection.RUN, DependencySection.TESTS, DependencySection.HOST, DependencySection.RUN_CONSTRAINTS))
assert BS.ProjectDependency._fields == ("data", "type")

# ---- messages: only that there is one matters here (MessageTable is C16's)
MSG = [("told", Sq)]
for c in (PS.PythonDependencyScanner, TS.PyProjectDependencyScanner, BS.BaseDependencyScanner):
    FIELDS.update({(c, "_msg_tbl"): (("opq", "Msgs"),), (c, "_src_dir"): (("opq", "Path"),), (c, "_project_fn"): (STR,)})
def _tell(ip, o, a, kw):
    setg(ip, "told", build(getg(ip, "told", Sq), to_v(a[0])))
    return None
OPQ_METHODS[("Msgs", "add_message")] = _tell

# ---- files and their syntax trees
readable, parses = F("readable", L.Opq, B), F("parses", L.Opq, B)
nodes = F("nodes", L.Opq, Sq)                       # what walking the tree of a file visits
name_of = F("file_name", L.Opq, Str)
content, file_of_text, file_of_root, root_of = F("content", L.Opq, Str), F("file_of_text", Str, L.Opq), F("file_of_root", L.Opq, L.Opq), F("root_of", L.Opq, L.Opq)
is_import, is_from = F("is_import", L.Opq, B), F("is_from", L.Opq, B)
names, alias_name = F("names", L.Opq, Sq), F("alias_name", L.Opq, Str)
module, level = F("module", L.Opq, V), F("level", L.Opq, I)
local, stdlib = F("local", V, B), z3.Const("stdlib", z3.ArraySort(V, B))
IT.CONST_SETS[id(sys.stdlib_module_names)] = stdlib
def _read_text(ip, o, a, kw):
    if not ip.st.branch(readable(o.t)):
        may_raise(ip, [OSError], "os")
        raise PyExc(ExcVal(UnicodeDecodeError))
    ip.st.assume(file_of_text(content(o.t)) == o.t)
    return Sym("str", content(o.t))
def _parse(ip, a, kw):
    f = file_of_text(S_(a[0]))
    if not ip.st.branch(parses(f)):
        if ip.st.choose(2, "bad"):
            raise PyExc(ExcVal(ValueError))
        raise PyExc(ExcVal(SyntaxError))
    ip.st.assume(file_of_root(root_of(f)) == f)
    return Sym("opq", root_of(f), "AstNode")
EXTERNALS[ast.parse] = _parse
EXTERNALS[ast.walk] = lambda ip, a, kw: IT.SeqIt(ip, nodes(file_of_root(a[0].t)), (("opq", "AstNode"),))
def _isnode(ip, o, cs, kw):
    out = [p(o.t) for c, p in ((ast.Import, is_import), (ast.ImportFrom, is_from)) if any(issubclass(c, k) for k in cs)]
    if any(k not in (ast.Import, ast.ImportFrom) for k in cs):
        raise IT.Unsupported("node class")
    ip.st.assume(z3.Not(z3.And(is_import(o.t), is_from(o.t))))
    return mk_bool(z3.Or(out)) if out else False
OPQ_METHODS[("AstNode", "isinstance")] = _isnode
OPQ_METHODS[("AstNode", ".names")] = lambda ip, o, a, kw: Sym("vtup", names(o.t), (("opq", "AstAlias"),))
def _opt(ip, o, a, kw):
    ip.st.assume(z3.Or(module(o.t) == V.none, V.is_str(module(o.t))))
    return ip.from_v(module(o.t), ty(typing.Optional[str]))
OPQ_METHODS[("AstNode", ".module")] = _opt
def _level(ip, o, a, kw):
    ip.st.assume(level(o.t) >= 0)       # for trees made by ast.parse
    return Sym("int", level(o.t))
OPQ_METHODS[("AstNode", ".level")] = _level
OPQ_METHODS[("AstAlias", ".name")] = lambda ip, o, a, kw: Sym("str", alias_name(o.t))
OPQ_METHODS[("AstAlias", ".asname")] = lambda ip, o, a, kw: ip.fresh("asname", typing.Optional[str])
OPQ_METHODS[("Path", "read_text")] = _read_text
OPQ_METHODS[("Path", ".name")] = lambda ip, o, a, kw: Sym("str", name_of(o.t))
src_text = lambda p: L.pystr(V.opq(p))
files_, nmods, mod_at = F("files", L.Opq, Sq), z3.Int("nmods"), F("mod_at", I, Str)
def _rglob(ip, o, a, kw):
    if a[0] != "*.py":
        raise IT.Unsupported("other files")
    return IT.SeqIt(ip, files_(o.t), (("opq", "Path"),))
OPQ_METHODS[("Path", "rglob")] = _rglob
mods = F("mods", Sq, Sq)
def _iter_modules(ip, a, kw):
    q = mods(ip.seq_term(ip.resolve(a[0])))
    return IT.SeqIt(ip, q, (("tup", ((("opq", "Finder"),), (STR,), (BOOL,)), None),))
EXTERNALS[pkgutil.iter_modules] = _iter_modules
def mod_name(s, i):
    q = build(sempty, V.str(src_text(V.vo(s.fv(s.self, "_src_dir")))))
    return at(tseq(V.vt(at(mods(q), i))), 1), slen(mods(q))

# ---- the table of import names
TABLE = {"git": "gitpython", "yaml": "pyyaml", "PIL": "pillow", "sklearn": "scikit-learn", "tables": "pytables", "cv": "py-opencv", "cv2": "py-opencv", "OpenGL": "pyopengl"}
package = F("package", Str, Str)
def _pkg_facts():
    t = PS._IMPORT_TO_DEPENDENCY_NAME_TBL
    x = z3.Const("n", Str)
    r = x
    for k, v in t.items():
        r = z3.If(x == lit(k), lit(v), r)
    return z3.ForAll([x], package(x) == r, patterns=[package(x)])
def _correct(s):
    m, r = S_(s.module), S_(s.result)
    yield "is the package of the import", r == package(m)
    for k, v in TABLE.items():
        yield f"{k} comes from {v}", z3.Implies(m == lit(k), r == lit(v))
    yield "other names are package names", z3.Implies(z3.And([m != lit(k) for k in {**TABLE, **PS._IMPORT_TO_DEPENDENCY_NAME_TBL}]), r == m)
Contract(PY + "_correct_module_to_dependency", props=PROPS, ensures=_correct, assume=lambda s: [_pkg_facts()])
test_file = F("test_file", L.Opq, B)
def _tf(f):
    n = L.s_lower(name_of(f))
    return z3.Or(L.s_startswith(n, lit("test_")), L.s_endswith(n, lit("_test.py")))
Contract(PY + "_is_likely_test_file", props=PROPS, params={"file": Path}, ensures=lambda s: [("by its name", s.truth(s.result) == _tf(s.file.t))])

# ---- modules of the project
wl = F("local_at", V, I)
def _local_facts(s):
    n, c = mod_name(s, _i)
    yield z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < c), z3.And(V.is_str(n), local(n))), patterns=[n])
    w, _ = mod_name(s, wl(_x))
    yield z3.ForAll([_x], z3.Implies(local(_x), z3.And(0 <= wl(_x), wl(_x) < c, w == _x)), patterns=[local(_x)])
def _local_tmpl(L_):
    s = L_.now
    n, c = mod_name(L_.fn, _i)
    for nm, v in L_.locals("set"):
        q = s.set(v)
        yield f"{nm} has those seen", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < L_.i), z3.Select(q, n)), patterns=[n])
        yield f"{nm} has modules only", z3.ForAll([_x], z3.Implies(z3.Select(q, _x), local(_x)), patterns=[z3.Select(q, _x)])
Contract(PY + "_get_project_modules", params=SELF, props=PROPS, fresh=True, assume=_local_facts, templates=[("modules so far", _local_tmpl)],
    ensures=lambda s: [("exactly the modules of the project", z3.ForAll([_x], z3.Select(s.set(s.result), _x) == local(_x), patterns=[z3.Select(s.set(s.result), _x)]))])

# ---- one file
first = lambda name: at(L.ssplit(name, lit(".")), 0)
def third(m):
    """module m is neither empty, nor standard library, nor of the project"""
    return z3.And(m != V.str(lit("")), z3.Not(z3.Select(stdlib, m)), z3.Not(local(m)))
section = lambda f: z3.If(_tf(f), TESTS, RUN)
def dep_in(f, m):
    return pd(package(V.vs(m)), section(f))
wanted = F("wanted", L.Opq, V, B)       # a dependency is imported by a file
w_i, w_k = F("wanted_node", L.Opq, V, I), F("wanted_alias", L.Opq, V, I)
node = lambda f, i: V.vo(at(nodes(f), i))
def imported(f, i, k):
    """(condition, module): the k-th name node i imports absolutely"""
    n = node(f, i)
    a = V.vo(at(names(n), k))
    frm = z3.And(is_from(n), k == 0, level(n) == 0, V.is_str(module(n)))
    imp = z3.And(is_import(n), 0 <= k, k < slen(names(n)))
    return z3.And(0 <= i, i < slen(nodes(f)), z3.Or(imp, frm)), z3.If(is_import(n), first(alias_name(a)), first(V.vs(module(n))))
def _wanted_facts(f):
    c, m = imported(f, _i, _k)
    n = node(f, _i)
    body = z3.Implies(z3.And(c, third(m)), wanted(f, dep_in(f, m)))
    yield z3.ForAll([_i, _k], body, patterns=[MP(at(nodes(f), _i), at(names(n), _k))])
    yield z3.ForAll([_i], z3.substitute(body, (_k, z3.IntVal(0))), patterns=[at(nodes(f), _i)])
    wi, wk = w_i(f, _d), w_k(f, _d)
    c, m = imported(f, wi, wk)
    yield z3.ForAll([_d], z3.Implies(wanted(f, _d), z3.And(c, third(m), _d == dep_in(f, m))), patterns=[wanted(f, _d)])
def _one_tmpl(L_):
    s, f = L_.now, L_.fn.file.t
    cur = L_.outer[-1] if L_.outer else z3.IntVal(-1)
    i = L_.i
    def done(q, rng, pats=None):
        c, m = imported(f, _i, _k)
        return z3.ForAll([_i, _k], z3.Implies(z3.And(rng, c, third(m)), z3.Select(q, dep_in(f, m))), patterns=[MP(at(nodes(f), _i), at(names(node(f, _i)), _k))])
    def done0(q, rng):
        c, m = imported(f, _i, z3.IntVal(0))
        return z3.ForAll([_i], z3.Implies(z3.And(rng, c, third(m)), z3.Select(q, dep_in(f, m))), patterns=[at(nodes(f), _i)])
    for nm, v in L_.locals("set"):
        if v.c[1] and all(a == STR for a in v.c[1]):
            continue        # names of modules
        q = s.set(v)
        yield f"{nm} is wanted", z3.ForAll([_d], z3.Implies(z3.Select(q, _d), wanted(f, _d)), patterns=[z3.Select(q, _d)])
        for how, rng in (("", _i < i), (" before this node", _i < cur)):
            yield f"{nm} has what is imported{how}", done(q, rng)
            yield f"{nm} has what is imported from{how}", done0(q, rng)
        for n2, l in L_.lists():
            t = at(l, _k)
            yield f"{nm} has those of {n2}", z3.ForAll([_k], z3.Implies(z3.And(0 <= _k, _k < i, third(t)), z3.Select(q, dep_in(f, t))), patterns=[t])
    for nm, q in L_.lists():
        n = node(f, cur)
        yield f"{nm} one by one", slen(q) == i
        yield f"{nm} has the names", z3.ForAll([_k], z3.Implies(z3.And(0 <= _k, _k < i), at(q, _k) == first(alias_name(V.vo(at(names(n), _k))))), patterns=[at(q, _k), at(names(n), _k)])
def scanned(f):
    return z3.And(readable(f), parses(f))
Contract(PY + "_scan_one_file", params={**SELF, "file": Path}, props=PROPS, fresh=True, assume=lambda s: [*_wanted_facts(s.file.t)], templates=[("imports so far", _one_tmpl)],
    raises={Exception: lambda s: z3.Not(scanned(s.file.t))},
    ensures=lambda s: [("could be read", scanned(s.file.t)), ("exactly the third-party imports", z3.ForAll([_d], z3.Select(s.set(s.result), _d) == wanted(s.file.t, _d), patterns=[z3.Select(s.set(s.result), _d)]))])

# ---- a whole project
failures = RecFn("scan_failures", [Sq, I], I, lambda q, n: z3.If(n <= 0, z3.IntVal(0), failures(q, n - 1) + z3.If(scanned(V.vo(at(q, n - 1))), z3.IntVal(0), z3.IntVal(1))))
found, found_in = F("found", V, B), F("found_in", V, I)      # some file that can be scanned imports it
def part(d, i):
    return at(tseq(V.vt(d)), i)
def as_run(d):
    return V.tup(L.mktup(build(build(sempty, part(d, 0)), RUN)))
def project(s):
    return files_(V.vo(s.fv(s.self, "_src_dir")))
def there(P, j, d):
    return z3.And(0 <= j, j < slen(P), scanned(V.vo(at(P, j))), wanted(V.vo(at(P, j)), d))
def _found_facts(s):
    P = project(s)
    yield z3.ForAll([_j, _d], z3.Implies(there(P, _j, _d), found(_d)), patterns=[wanted(V.vo(at(P, _j)), _d)])
    yield z3.ForAll([_d], z3.Implies(found(_d), there(P, found_in(_d), _d)), patterns=[found(_d)])
    # what `wanted` says of every file, as far as needed here: they are dependencies
    f = z3.Const("f", L.Opq)
    yield z3.ForAll([f, _d], z3.Implies(wanted(f, _d), z3.And(V.is_tup(_d), _d == V.tup(L.mktup(build(build(sempty, part(_d, 0)), part(_d, 1)))))), patterns=[wanted(f, _d)])
PYTHON = [pd(lit("python"), x) for x in (HOST, RUN)]
def _scan(s):
    r, P = s.set(s.result), project(s.old)
    d, x = s.ip.st.fresh("d", V), s.ip.st.fresh("x", V)
    every = lambda e: z3.Or(found(e), *[e == p for p in PYTHON])
    for p, n in zip(PYTHON, ("host", "run")):
        yield f"python is a {n} dependency", z3.Select(r, p)
    yield "what is imported is reported, unless it is both", z3.Implies(z3.And(found(d), z3.Not(z3.And(part(d, 1) == TESTS, every(as_run(d))))), z3.Select(r, d))
    yield "nothing else is reported", z3.Implies(z3.Select(r, d), every(d))
    two = lambda t: V.tup(L.mktup(build(build(sempty, x), t)))
    yield "nothing is both a run and a test dependency", z3.Not(z3.And(z3.Select(r, two(RUN)), z3.Select(r, two(TESTS))))
    yield "a message for every file that can not be scanned", slen(s.ghost["told"]) == failures(P, slen(P))
def _scan_tmpl(L_):
    s, P = L_.now, project(L_.fn)
    yield "messages", slen(L_.ghost["told"]) == failures(P, L_.i)
    sets = list(L_.locals("set"))
    q = L_.it.seq() if hasattr(L_.it, "seq") else None
    for nm, v in sets:
        c = s.set(v)
        yield f"{nm} found", z3.ForAll([_d], z3.Implies(z3.Select(c, _d), found(_d)), patterns=[z3.Select(c, _d)])
        yield f"{nm} has what is found", z3.ForAll([_j, _d], z3.Implies(z3.And(_j < L_.i, there(P, _j, _d)), z3.Select(c, _d)), patterns=[wanted(V.vo(at(P, _j)), _d)])
        for n2, w in sets:
            a = s.set(w)
            kept = lambda d: z3.And(z3.Select(a, d), z3.Not(z3.And(part(d, 1) == TESTS, z3.Select(a, as_run(d)))))
            if n2 != nm and q is not None:
                yield f"{nm} keeps of {n2}", z3.ForAll([_d], z3.Implies(z3.Select(c, _d), kept(_d)), patterns=[z3.Select(c, _d)])
                yield f"{nm} has what is kept of {n2}", z3.ForAll([_j], z3.Implies(z3.And(0 <= _j, _j < L_.i, kept(at(q, _j))), z3.Select(c, at(q, _j))), patterns=[at(q, _j)])
Contract(PY + "scan", params=SELF, props=PROPS, ghosts=MSG, assume=_found_facts, templates=[("project so far", _scan_tmpl)],
    requires=lambda s: [("no messages yet", slen(s.ghost["told"]) == 0)], modifies=lambda s: [("ghost:told", None)], ensures=_scan)

# ---- a project file
TM = "conda_recipe_manager.scanner.dependency.pyproject_dep_scanner:PyProjectDependencyScanner."
TSELF = {"self": TS.PyProjectDependencyScanner}
FILE = [("open", I), ("toml", I)]       # how opening and reading the file ended (0 well, otherwise the fault), and what it held
def _open(ip, a, kw):
    if not ip.st.branch(getg(ip, "open", I) == 0):
        may_raise(ip, [FileNotFoundError, PermissionError], "open")
        raise PyExc(ExcVal(IsADirectoryError))
    return opq(ip, "File", "file")
EXTERNALS[open] = IT.BUILTINS[open] = _open
def _load(ip, a, kw):
    if not ip.st.branch(getg(ip, "toml", I) >= 0):
        may_raise(ip, [OSError, UnicodeDecodeError], "read")
        raise PyExc(ExcVal(tomllib.TOMLDecodeError))
    d = ip.fresh("data", (("ref", ("dict", (STR,), VL.json_ty())),))
    ip.st.assume(d.t == getg(ip, "toml", I))
    return d
EXTERNALS[tomllib.load] = _load
def no_casts(ip, args):
    ip.trust_casts = False      # what the file holds can be of any shape
LIST_ATOM, DICT_ATOM = (next(a for a in VL.json_ty() if a[0] == "ref" and a[1][0] == k) for k in ("list", "dict"))
isl, isd = (lambda v: VL.atom_cond(v, LIST_ATOM, VL.json_ty())), (lambda v: VL.atom_cond(v, DICT_ATOM, VL.json_ty()))
texts, not_text = F("is_list_of_texts", Sq, V, B), F("not_a_text", Sq, I)
_q, _v = z3.Const("q", Sq), z3.Const("v", V)
def elems(s, v):
    return s.ip.st.sel("#list", V.vr(v), s.arr("#list"))
def _texts_def(s):
    """texts(q, v): v is a list of texts if its elements are q"""
    yield z3.ForAll([_q, _v], z3.Implies(texts(_q, _v), isl(_v)), patterns=[texts(_q, _v)])
    yield z3.ForAll([_q, _v, _i], z3.Implies(z3.And(texts(_q, _v), 0 <= _i, _i < slen(_q)), V.is_str(at(_q, _i))), patterns=[MP(texts(_q, _v), at(_q, _i))])
    b = not_text(_q)
    yield z3.ForAll([_q, _v], z3.Implies(z3.And(isl(_v), z3.Not(texts(_q, _v))), z3.And(0 <= b, b < slen(_q), z3.Not(V.is_str(at(_q, b))))), patterns=[texts(_q, _v)])
def is_texts(s, v):
    return texts(elems(s, v), v)
def _texts_tmpl(L_):
    yield "texts so far", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < L_.i), V.is_str(at(L_.it.seq(), _i))), patterns=[at(L_.it.seq(), _i)])
Contract(TM + "_is_str_list", props=PROPS, params={"value": VL.json_ty()}, setup=no_casts, assume=_texts_def, templates=[("texts", _texts_tmpl)],
    ensures=lambda s: [("exactly lists of texts", s.truth(s.result) == is_texts(s, to_v(s.value)))])

DEPS, EXTRA, PROJ = (V.str(lit(x)) for x in ("dependencies", "optional-dependencies", "project"))
class File:
    """the file the scanner was given, in state s"""
    def __init__(self, s, g):
        self.s = s
        dic = lambda v: s.ip.st.sel("#dict", V.vr(v), s.arr("#dict"))
        self.ok = z3.And(g["open"] == 0, g["toml"] >= 0)
        self.data = s.ip.st.sel("#dict", g["toml"], s.arr("#dict"))
        self.p = dget(self.data, PROJ)
        self.project = dic(self.p)
        self.deps, self.extra = dget(self.project, DEPS), dget(self.project, EXTRA)
        self.extras = dic(self.extra)
        self.has_deps, self.has_extra = dhas(self.project, DEPS), dhas(self.project, EXTRA)
    def dep(self, i):
        q = elems(self.s, self.deps)
        return at(q, i), z3.And(self.has_deps, 0 <= i, i < slen(q))
    def ext(self, k):
        return at(dkeys(self.extras), k), z3.And(self.has_extra, 0 <= k, k < slen(dkeys(self.extras)))
    def opt(self, k, i):
        x, c = self.ext(k)
        q = elems(self.s, dget(self.extras, x))
        return at(q, i), z3.And(c, 0 <= i, i < slen(q))
listed, l_opt, l_k, l_i = F("listed", V, B), F("listed_opt", V, B), F("listed_extra", V, I), F("listed_at", V, I)
bad_extra = z3.Int("bad_extra")
well_formed = z3.Const("well_formed", B)
g_toml = lambda s: s.ghost["toml"]
def _file_facts(s):
    f = File(s, s.ghost)
    yield from _texts_def(s)
    t, c = f.dep(_i)
    yield z3.ForAll([_i], z3.Implies(c, listed(pd(V.vs(t), RUN))), patterns=[t])
    t, c = f.opt(_k, _i)
    yield z3.ForAll([_k, _i], z3.Implies(c, listed(pd(V.vs(t), CONSTR))), patterns=[t])
    t, c = f.dep(l_i(_d))
    t2, c2 = f.opt(l_k(_d), l_i(_d))
    yield z3.ForAll([_d], z3.Implies(listed(_d), z3.Or(z3.And(z3.Not(l_opt(_d)), c, _d == pd(V.vs(t), RUN)), z3.And(l_opt(_d), c2, _d == pd(V.vs(t2), CONSTR)))), patterns=[listed(_d)])
    # what the file holds is not any of the objects made later
    a0 = s.ip.st.alloc_now()
    yield z3.And(*[z3.Implies(V.is_ref(v), V.vr(v) < a0) for v in (f.p, f.deps, f.extra)], g_toml(s) < a0)
    x, c = f.ext(_k)
    yield z3.ForAll([_k], z3.Implies(z3.And(c, V.is_ref(dget(f.extras, x))), V.vr(dget(f.extras, x)) < a0), patterns=[x])
    # well formed: what is there of the section has the documented shape
    x, c = f.ext(_k)
    xb, cb = f.ext(bad_extra)
    shape = z3.And(isd(f.p), z3.Implies(f.has_deps, is_texts(f.s, f.deps)), z3.Implies(f.has_extra, isd(f.extra)))
    yield z3.Implies(well_formed, shape)
    yield z3.ForAll([_k], z3.Implies(z3.And(well_formed, c), is_texts(f.s, dget(f.extras, x))), patterns=[x])
    yield z3.Implies(z3.And(shape, z3.Not(well_formed)), z3.And(cb, z3.Not(is_texts(f.s, dget(f.extras, xb)))))
def _toml(s):
    f = File(s.old, s.old.ghost)
    r, d = s.set(s.result), s.ip.st.fresh("d", V)
    good = z3.And(f.ok, dhas(f.data, PROJ), well_formed)
    yield "exactly what is listed", z3.Implies(good, z3.Select(r, d) == listed(d))
    yield "no message about a good file", z3.Implies(good, slen(s.ghost["told"]) == 0)
    yield "nothing from a bad file", z3.Implies(z3.Not(good), z3.Not(z3.Select(r, d)))
    yield "a message about a bad file", z3.Implies(z3.Not(good), slen(s.ghost["told"]) == 1)
def _toml_tmpl(L_):
    s, f = L_.now, File(L_.fn, L_.fn.ghost)
    q = L_.it.seq() if hasattr(L_.it, "seq") else None
    t, c = f.dep(_i)
    t2, c2 = f.opt(_k, _i)
    x, cx = f.ext(_k)
    yield "extras are texts so far", z3.ForAll([_k], z3.Implies(z3.And(cx, _k < L_.i), is_texts(f.s, dget(f.extras, x))), patterns=[x])
    for nm, v in L_.locals("set"):
        m = s.set(v)
        yield f"{nm} is listed", z3.ForAll([_d], z3.Implies(z3.Select(m, _d), listed(_d)), patterns=[z3.Select(m, _d)])
        for how, rng in ((" so far", _i < L_.i), ("", True)):
            yield f"{nm} has the dependencies{how}", z3.ForAll([_i], z3.Implies(z3.And(c, rng), z3.Select(m, pd(V.vs(t), RUN))), patterns=[t])
        for how, rng in ((" so far", _k < L_.i), *((f" before extra {n}", _k < o) for n, o in enumerate(L_.outer)), ("", True)):
            yield f"{nm} has the optional dependencies{how}", z3.ForAll([_k, _i], z3.Implies(z3.And(c2, rng), z3.Select(m, pd(V.vs(t2), CONSTR))), patterns=[t2])
        if q is not None:
            yield f"{nm} has those of this extra so far", z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < L_.i), z3.Select(m, pd(V.vs(at(q, _i)), CONSTR))), patterns=[at(q, _i)])
Contract(TM + "scan", params=TSELF, props=PROPS, ghosts=MSG + FILE, setup=no_casts, assume=_file_facts, templates=[("file so far", _toml_tmpl)],
    requires=lambda s: [("no messages yet", slen(s.ghost["told"]) == 0)], modifies=lambda s: [("ghost:told", None)], ensures=_toml)
