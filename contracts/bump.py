"""
The bump-recipe command (commands/bump_recipe.py).

The recipe is seen through the edits made to it: the ghost `log` is the sequence of successful edits, and every query of the
recipe is a function of that sequence (what the edits do to the tree is C03/C08's business). The file system and the network
are ghosts as well: files written, downloads tried, seconds slept.
"""
from . import env, world, fetchers
from .world import *
from .fetchers import sha_of, fetched
import sys
from conda_recipe_manager.commands import bump_recipe as BR
from conda_recipe_manager.commands.utils.types import ExitCode
from conda_recipe_manager.fetcher.exceptions import FetchError
from conda_recipe_manager.fetcher.base_artifact_fetcher import BaseArtifactFetcher
from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_reader import RecipeReader
BM = "conda_recipe_manager.commands.bump_recipe:"
RR = "conda_recipe_manager.parser.recipe_reader:RecipeReader."
RP = "conda_recipe_manager.parser.recipe_parser:RecipeParser."
PB = ("C12",)
LOG = [("log", Sq)]
has_, val_ = F("rq_has", Sq, V, B), F("rq_value", Sq, V, V, V)
vhas_, vval_ = F("rq_var_has", Sq, V, B), F("rq_var", Sq, V, V)
refs_, vars_ = F("rq_refs", Sq, V, Sq), F("rq_vars", Sq, Sq)
render_of, app_ = F("rq_render", Sq, Str), F("append_path", V, V, V)
def tup(*xs):
    return V.tup(mktup(VL.seq_of([])) if not xs else mktup(_chain(xs)))
def _chain(xs):
    q = sempty
    for x in xs:
        q = build(q, x if isinstance(x, z3.ExprRef) and x.sort() == V else to_v(x))
    return q
def has(s, p):
    return has_(s.old.ghost["log"], to_v(p))
# ---- the recipe
Contract(RR + "get_value", trusted=True, props=PB, params={"self": RecipeReader}, ghosts=LOG, modifies=lambda s: [],
    raises={KeyError: lambda s: z3.And(z3.Not(has(s, s.path)), to_v(s.default) == to_v(RecipeReader._sentinel))},
    ensures=lambda s: [("the value at the path", to_v(s.result) == z3.If(has(s, s.path), val_(s.old.ghost["log"], to_v(s.path), to_v(s.sub_vars)), to_v(s.default)))])
Contract(RR + "contains_value", trusted=True, props=PB, params={"self": RecipeReader}, ghosts=LOG, modifies=lambda s: [],
    ensures=lambda s: [("there is such a path", s.truth(s.result) == has(s, s.path))])
Contract(RR + "get_variable", trusted=True, props=PB, params={"self": RecipeReader}, ghosts=LOG, modifies=lambda s: [],
    raises={KeyError: lambda s: z3.And(z3.Not(vhas_(s.old.ghost["log"], to_v(s.var))), to_v(s.default) == to_v(RecipeReader._sentinel))},
    ensures=lambda s: [("the value of the variable", to_v(s.result) == z3.If(vhas_(s.old.ghost["log"], to_v(s.var)), vval_(s.old.ghost["log"], to_v(s.var)), to_v(s.default)))])
Contract(RR + "get_variable_references", trusted=True, props=PB, params={"self": RecipeReader}, ghosts=LOG, modifies=lambda s: [], fresh=True,
    ensures=lambda s: [("where it is used", s.seq(s.result) == refs_(s.old.ghost["log"], to_v(s.var)))])
Contract(RR + "list_variables", trusted=True, props=PB, params={"self": RecipeReader}, ghosts=LOG, modifies=lambda s: [], fresh=True,
    ensures=lambda s: [("the variables", s.seq(s.result) == vars_(s.old.ghost["log"]))])
unapp_ = F("appended_to", V, V)
Contract(RR + "append_to_path", trusted=True, props=PB, modifies=lambda s: [], ensures=lambda s: [
    ("the joined path", to_v(s.result) == app_(to_v(s.base_path), to_v(s.ext_path))), ("tells where it was appended", unapp_(to_v(s.result)) == to_v(s.base_path))])
Contract(RR + "render", trusted=True, props=PB, params={"self": RecipeReader}, ghosts=LOG, modifies=lambda s: [],
    ensures=lambda s: [("the text of the recipe", to_v(s.result) == V.str(render_of(s.old.ghost["log"])))])
def blob(s, p):
    d = s.old.dic(p) if hasattr(s, "old") else s.dic(p)
    return tup(*[dget(d, to_v(k)) for k in ("op", "path", "value")])
def logged(s, e):
    return s.ghost["log"] == build(s.old.ghost["log"], e)
same_log = lambda s: s.ghost["log"] == s.old.ghost["log"]
# `patched` is what each path was last patched to
LAST = [("patched", z3.ArraySort(V, V))]
Contract(RP + "patch", trusted=True, props=PB, params={"self": RecipeParser}, ghosts=LOG + LAST, modifies=lambda s: [("ghost:log", None), ("ghost:patched", None)],
    ensures=lambda s: [("a patch is applied or nothing changes", z3.If(s.truth(s.result), z3.And(logged(s, blob(s, s.patch)), patched(s, s.patch)), z3.And(same_log(s), s.ghost["patched"] == s.old.ghost["patched"])))])
def patched(s, p):
    d = s.old.dic(p)
    return s.ghost["patched"] == z3.Store(s.old.ghost["patched"], dget(d, to_v("path")), dget(d, to_v("value")))
Contract(RP + "set_variable", trusted=True, props=PB, params={"self": RecipeParser}, ghosts=LOG, modifies=lambda s: [("ghost:log", None)],
    ensures=lambda s: [("the variable is set", logged(s, tup("set", to_v(s.var), to_v(s.value))))])
Contract(RP + "pre_process_remove_hash_type", trusted=True, props=PB, modifies=lambda s: [])

# ---- the steps
def exits(*codes):
    """leaves the program with one of these codes and without a further edit"""
    return {SystemExit: lambda s: [("with its own status", z3.Or(*[s.ghost["exit_code"] == to_v(c) for c in codes]))]}
EX = [("exit_code", V)]
def leaves(code, extra=()):
    return {SystemExit: lambda s: [("the status says why", s.ghost["exit_code"] == to_v(code)), ("nothing more was edited", same_log(s))] + [f(s) for f in extra]}
GM = lambda *g: (lambda s: [("ghost:" + x, None) for x in g])
Contract(BM + "_exit_on_failed_patch", props=PB, ghosts=LOG + EX + LAST, modifies=GM("log", "exit_code", "patched"), raises=leaves(ExitCode.PATCH_ERROR),
    ensures=lambda s: [("returns only if the patch was applied", logged(s, blob(s, s.patch_blob))), ("it sets that path to that value", patched(s, s.patch_blob))])
Contract(BM + "_exit_on_failed_fetch", props=PB, ghosts=LOG + EX, modifies=GM("exit_code"), raises={SystemExit: lambda s: [("the status says why", s.ghost["exit_code"] == to_v(ExitCode.HTTP_ERROR))]},
    ensures=lambda s: [("never returns", False)])
Contract(BM + "_pre_process_cleanup", props=PB, modifies=lambda s: [])
def _num(v):
    return z3.If(V.is_int(v), V.vi(v), z3.If(V.vb(v), 1, 0))
def build_edit(g, inc):
    """the edit of the build number asked for"""
    n = val_(g["log"], to_v("/build/number"), to_v(False))
    bump = z3.And(inc, has_(g["log"], to_v("/build/number")))
    return bump, n, z3.If(bump, tup("replace", "/build/number", V.int(_num(n) + 1)), tup("add", "/build/number", 0))
def _ubn(s):
    bump, n, e = build_edit(s.old.ghost, s.truth(s.increment_build_num))
    yield "adds one to the build number or resets it, and does nothing else", logged(s, e)
    yield "only an integer is incremented", z3.Implies(bump, z3.Or(V.is_int(n), V.is_bool(n)))
Contract(BM + "_update_build_num", props=PB, ghosts=LOG + EX + LAST, modifies=GM("log", "exit_code", "patched"), ensures=_ubn,
    raises={SystemExit: lambda s: [("a failure", s.ghost["exit_code"] != to_v(ExitCode.SUCCESS)), ("nothing was edited", same_log(s))]})
def version_edit(g, target):
    v = z3.If(vhas_(g["log"], to_v("version")), vval_(g["log"], to_v("version")), V.none)
    op = z3.If(has_(g["log"], to_v("/package/version")), to_v("replace"), to_v("add"))
    return z3.If(v != V.none, tup("set", "version", target), tup(op, "/package/version", target))
Contract(BM + "_update_version", props=PB, ghosts=LOG + EX + LAST, modifies=GM("log", "exit_code", "patched"), raises=leaves(ExitCode.PATCH_ERROR),
    ensures=lambda s: [("sets the version variable if there is one, else the version", logged(s, version_edit(s.old.ghost, to_v(s.target_version))))])

# ---- hashes
SLEEP = [("waits", Sq)]
WEB = fetchers.FETCH + SLEEP
def _sleep(ip, a, kw):
    setg(ip, "waits", build(getg(ip, "waits", Sq), to_v(a[0])))
EXTERNALS[time.sleep] = _sleep
LIMIT = 5
def tries(s):
    return s.ghost["fx_gets"] - s.old.ghost["fx_gets"]
def waited(s, n):
    """the waits so far were 1, 2, ... n times the interval"""
    q, q0, r = s.ghost["waits"], s.old.ghost["waits"], to_v(s.retry_interval)
    yield "longer each time", z3.And(*[z3.Implies(j < n, at(q, slen(q0) + j) == V.flt(wait_(j + 1, V.vf(r)))) for j in range(LIMIT)])
wait_ = lambda k, r: F("u_fMult2", V, V, IT.Flt)(V.int(k), V.flt(r))
def hash_of(s, f):
    """the hash of the archive the fetcher f has downloaded"""
    return sha_of(s.fv(f, "_archive_path"))
def _gs(s):
    yield "tries at most five times", z3.And(1 <= tries(s), tries(s) <= LIMIT)
    yield "the hash is that of an archive that was fetched", z3.And(V.vb(s.fv(s.fetcher, "_successfully_fetched")), to_v(s.result) == hash_of(s, s.fetcher))
    yield from waited(s, tries(s) - 1)
def _gsx(s):
    yield "gives up after five attempts", tries(s) == LIMIT
    yield from waited(s, z3.IntVal(LIMIT))
FM = ("fx_gets", "fx_data", "fx_path", "fx_body", "waits")
def fmod(s, f):
    return [("ghost:" + g, None) for g in FM] + [("_archive_type", f), ("_successfully_fetched", f)]
Contract(BM + "_get_sha256", props=PB, ghosts=WEB, modifies=lambda s: fmod(s, s.fetcher), ensures=_gs, raises={FetchError: _gsx, OSError: lambda s: True})
Contract(BM + "_update_sha256_fetch_one", props=PB, ghosts=WEB, modifies=lambda s: fmod(s, s.fetcher), raises={FetchError: _gsx, OSError: lambda s: True},
    ensures=lambda s: list(_fo(s)) + list(_gs_counts(s)))
def _fo(s):
    p, h = s.result if isinstance(s.result, tuple) else s.ip.tuple_items(s.result)
    yield "the path of the hash of that source", z3.And(to_v(p) == app_(to_v(s.src_path), to_v("/sha256")), unapp_(to_v(p)) == to_v(s.src_path))
    yield "and its hash", to_v(h) == hash_of(s, s.fetcher)
    yield "the archive was fetched", V.vb(s.fv(s.fetcher, "_successfully_fetched"))
def _gs_counts(s):
    yield "tries at most five times", z3.And(1 <= tries(s), tries(s) <= LIMIT)
    yield from waited(s, tries(s) - 1)
# the recipe's sources: what from_recipe() finds in the recipe as it is then
HASH_VARS = ("sha256", "hash", "hash_val", "hash_value")
def is_http(f):
    """f: the reference of a fetcher"""
    return cls(f) == VL.cls_id(HttpArtifactFetcher)
def is_one_of(v, names):
    return z3.Or(*[v == to_v(n) for n in names])
def only(s):
    """the fetcher of the recipe's single source"""
    return dget((s.old or s).dic(s.fetcher_tbl), to_v("/source"))
def _hv(s):
    q, q0, t = s.ghost["log"], s.old.ghost["log"], s.truth(s.result)
    e = V.vt(at(q, slen(q0)))
    yield "either sets the variable or leaves everything as it is", z3.If(t, slen(q) == slen(q0) + 1, q == q0)
    yield "tries nothing otherwise", z3.Implies(z3.Not(t), tries(s) == 0)
    var = at(tseq(e), 1)
    yield "sets one variable", z3.Implies(t, q == build(q0, tup("set", var, sha_of(s.fv(V.vr(only(s)), "_archive_path")))))
    yield "a common hash variable of the recipe", z3.Implies(t, is_one_of(var, HASH_VARS))
    yield "that the source uses", z3.Implies(t, z3.Select(L.selems(refs_(q0, var)), to_v("/source/sha256")))
    yield "to the hash of what was fetched", z3.Implies(t, z3.And(slen(dkeys(s.old.dic(s.fetcher_tbl))) == 1, dhas(s.old.dic(s.fetcher_tbl), to_v("/source")), is_http(V.vr(only(s))), V.vb(s.fv(V.vr(only(s)), "_successfully_fetched"))))
def hmod(s, which):
    """the fetchers (and only those) may have been used"""
    return [("ghost:" + g, None) for g in FM + ("exit_code", "log")] + [("_archive_type", which), ("_successfully_fetched", which)]
Contract(BM + "_update_sha256_check_hash_var", props=PB, ghosts=LOG + WEB + EX, modifies=lambda s: hmod(s, lambda o: z3.And(dhas(s.dic(s.fetcher_tbl), to_v("/source")), o == V.vr(only(s)))), ensures=_hv,
    raises=leaves(ExitCode.HTTP_ERROR) | {OSError: same_log})

# ---- all hashes. Tasks of a thread pool behave as if each ran when its result is read (they share nothing but the network);
# results are read in any order.
import concurrent.futures as cf
task_, task_path, task_fetcher, task_wait = F("task", V, V, V, L.Opq), F("task_path", L.Opq, V), F("task_fetcher", L.Opq, V), F("task_wait", L.Opq, V)
EXTERNALS[cf.ThreadPoolExecutor] = EXTERNALS["concurrent.futures.thread.ThreadPoolExecutor"] = lambda ip, a, kw: opq(ip, "Executor", "pool")
def _submit(ip, o, a, kw):
    if a[0] is not BR._update_sha256_fetch_one and getattr(a[0], "fn", None) is not BR._update_sha256_fetch_one:
        raise IT.Unsupported(f"task {a[0]}")
    p, f, w = (to_v(x) for x in a[1:])
    t = task_(p, f, w)
    ip.st.assume(z3.And(task_path(t) == p, task_fetcher(t) == f, task_wait(t) == w))
    return Sym("opq", t, "Future")
OPQ_METHODS[("Executor", "submit")] = _submit
VL.OPAQUE_CLASSES[cf.Future] = "Future"
def _completed(ip, a, kw):
    d = ip.dct(a[0])
    q, j = ip.st.fresh("done", Sq), z3.Const("j", I)
    ip.st.assume(slen(q) == slen(dkeys(d)))
    ip.st.assume(L.selems(q) == L.selems(dkeys(d)))
    return IT.SeqIt(ip, q, (("opq", "Future"),))
EXTERNALS[cf.as_completed] = EXTERNALS["concurrent.futures._base.as_completed"] = _completed
def _result(ip, o, a, kw):
    t = o.t
    f = ip.from_v(task_fetcher(t), (("ref", HttpArtifactFetcher),))
    return ip.call(BR._update_sha256_fetch_one, [Sym("str", V.vs(task_path(t))), f, Sym("flt", V.vf(task_wait(t)))], {})
OPQ_METHODS[("Future", "result")] = _result
TBL = [("fetchers", Dc), ("fetchers_log", Sq)]
def _from(s):
    d, k = s.dic(s.result), z3.Const("k", V)
    f = V.vr(dget(d, k))
    yield "the fetchers of the recipe as it is now", z3.And(s.ghost["fetchers"] == d, s.ghost["fetchers_log"] == s.old.ghost["log"])
    yield "new ones", z3.ForAll([k], z3.Implies(dhas(d, k), z3.And(V.is_ref(dget(d, k)), f >= s.old.alloc, f < s.ip.st.alloc_now(), z3.Not(V.vb(s.fv(f, "_successfully_fetched"))))), patterns=[dget(d, k)])
    yield "under paths", z3.ForAll([k], z3.Implies(dhas(d, k), V.is_str(k)), patterns=[dhas(d, k)])
Contract("conda_recipe_manager.fetcher.artifact_fetcher:from_recipe", trusted=True, props=PB, ghosts=TBL + LOG, modifies=lambda s: [("ghost:" + g, None) for g, _ in TBL], fresh=True, ensures=_from)
def sha_path(p):
    return app_(p, to_v("/sha256"))
def src_http(g, k):
    return z3.And(dhas(g["fetchers"], k), is_http(V.vr(dget(g["fetchers"], k))))
def src_hash(s, k):
    return sha_of(s.fv(V.vr(dget(s.ghost["fetchers"], k)), "_archive_path"))
def sources(s):
    return s.ghost["fetchers"]
def hash_edit(s, e):
    """the edit e sets the hash of an HTTP source, or a hash variable"""
    g = s.ghost
    return z3.Or(
        z3.And(at(e, 0) == to_v("set"), is_one_of(at(e, 1), HASH_VARS)),
        z3.And(is_one_of(at(e, 0), ("add", "replace")), src_http(g, unapp_(at(e, 1))), at(e, 1) == sha_path(unapp_(at(e, 1))), at(e, 2) == src_hash(s, unapp_(at(e, 1)))))
def _us(s):
    g, g0 = s.ghost, s.old.ghost
    k, j = z3.Const("src", V), z3.Const("j", I)
    q, q0 = g["log"], g0["log"]
    e = tseq(V.vt(at(q, j)))
    new = z3.And(slen(q0) <= j, j < slen(q))
    allk = lambda f: z3.ForAll([k], f, patterns=[dhas(g["fetchers"], k)])
    allj = lambda f: z3.ForAll([j], f, patterns=[at(q, j)])
    yield "the sources are those of the recipe at the time", g["fetchers_log"] == q0
    yield "every HTTP source gets the hash of what was fetched for it", allk(z3.Implies(src_http(g, k), z3.Or(g["patched"][sha_path(k)] == src_hash(s, k),
        z3.And(slen(q) == slen(q0) + 1, slen(dkeys(g["fetchers"])) == 1, k == to_v("/source"), at(tseq(V.vt(at(q, slen(q0)))), 2) == src_hash(s, k), is_one_of(at(tseq(V.vt(at(q, slen(q0)))), 1), HASH_VARS)))))
    yield "each was fetched", allk(z3.Implies(src_http(g, k), V.vb(s.fv(V.vr(dget(g["fetchers"], k)), "_successfully_fetched"))))
    yield "earlier edits stay", z3.And(slen(q0) <= slen(q), allj(z3.Implies(z3.And(0 <= j, j < slen(q0)), at(q, j) == at(q0, j))))
    yield "nothing but hashes is edited", allj(z3.Implies(new, hash_edit(s, e)))
def _fut(g, k, w):
    return task_(k, dget(g["fetchers"], k), w)
def _ust(L_):
    g, g0, i = L_.ghost, L_.fn.ghost, L_.i
    T = g["fetchers"]
    w = to_v(L_.fn.args["retry_interval"])
    k, j = z3.Const("tk", V), z3.Const("tj", I)
    fref = lambda k: V.vr(dget(T, k))
    flag = lambda k: V.vb(z3.Select(L_._arr("_successfully_fetched"), fref(k)))
    sha = lambda k: sha_of(z3.Select(L_._arr("_archive_path"), fref(k)))
    inr = lambda n: z3.And(0 <= j, j < n)
    q, q0 = g["log"], g0["log"]
    o = z3.Const("to", I)
    for h in ("_archive_type", "_successfully_fetched"):
        yield f"{h} of other objects stays", z3.ForAll([o], z3.Implies(z3.And(0 <= o, o < L_.fn.alloc), z3.Select(L_._arr(h), o) == z3.Select(L_.fn.arr(h), o)), patterns=[z3.Select(L_._arr(h), o)])
    yield "the log grows with every round", slen(q) == slen(q0) + i
    yield "earlier edits stay", z3.ForAll([j], z3.Implies(inr(slen(q0)), at(q, j) == at(q0, j)), patterns=[at(q, j)])
    for n, x in L_.locals("dict"):
        D = L_.now.dic(x)
        done = z3.And(src_http(g, k), L.kidx(T, k) < i)
        yield f"{n}: the HTTP sources so far", z3.ForAll([k], z3.And(dhas(D, k) == done, z3.Implies(done, dget(D, k) == dget(T, k))), patterns=[dhas(D, k), dhas(T, k)])
        p = task_path(V.vo(k))
        yield f"{n}: only tasks of HTTP sources", z3.ForAll([k], z3.Implies(dhas(D, k), z3.And(V.is_opq(k), src_http(g, p), task_fetcher(V.vo(k)) == dget(T, p), task_wait(V.vo(k)) == w, dget(D, k) == dget(T, p))), patterns=[dhas(D, k)])
        yield f"{n}: only hashes of HTTP sources", z3.ForAll([k], z3.Implies(dhas(D, k), z3.And(k == sha_path(unapp_(k)), src_http(g, unapp_(k)), dget(D, k) == sha(unapp_(k)), flag(unapp_(k)))), patterns=[dhas(D, k)])
        ks = dkeys(D)
        e = at(q, slen(q0) + j)
        yield f"{n}: edited so far", z3.ForAll([j], z3.Implies(inr(i), z3.And(g["patched"][at(ks, j)] == dget(D, at(ks, j)))), patterns=[at(ks, j)])
        yield f"{n}: by an edit each", z3.ForAll([j], z3.Implies(z3.And(slen(q0) <= j, j < slen(q)), z3.Or(*[at(q, j) == tup(op, at(ks, j - slen(q0)), dget(D, at(ks, j - slen(q0)))) for op in ("add", "replace")])), patterns=[at(q, j)])
        it = L_.it
        while hasattr(it, "base"):
            it = it.base
        if hasattr(it, "seq"):
            o = at(it.seq(), j)
            yield f"{n}: a task each so far", z3.ForAll([j], z3.Implies(inr(i), z3.And(dhas(D, V.opq(_fut(g, o, w))), task_path(_fut(g, o, w)) == o)), patterns=[o])
            yield f"{n}: has the hashes of the tasks read", z3.ForAll([j], z3.Implies(inr(i), z3.And(dhas(D, sha_path(task_path(V.vo(o)))), unapp_(sha_path(task_path(V.vo(o)))) == task_path(V.vo(o)))), patterns=[o])
Contract(BM + "_update_sha256", props=PB, ghosts=LOG + WEB + EX + TBL + LAST, ensures=_us, templates=[("hashes", _ust)],
    modifies=lambda s: [("ghost:" + g, None) for g in FM + ("exit_code", "log", "patched", "fetchers", "fetchers_log")],
    raises={SystemExit: lambda s: [("a failure", is_one_of(s.ghost["exit_code"], (ExitCode.HTTP_ERROR, ExitCode.PATCH_ERROR)))], OSError: lambda s: True})
# ---- the command
FILE = [("writes", I), ("w_text", V), ("w_path", V)]
of_path = F("path_of", V, L.Opq)
def _mkpath(ip, a, kw):
    return Sym("opq", of_path(to_v(a[0])), "Path")
def _write_text(ip, o, a, kw):
    setg(ip, "writes", getg(ip, "writes", I) + 1)
    setg(ip, "w_path", V.opq(o.t))
    setg(ip, "w_text", to_v(a[0]))
    may_raise(ip, (OSError,), "write_text")
    return ip.fresh("n", int)
def _read_text(ip, o, a, kw):
    may_raise(ip, (OSError,), "read_text")
    return any_str(ip)
def use_files(*a):
    OPQ_METHODS[("Path", "write_text")], OPQ_METHODS[("Path", "read_text")] = _write_text, _read_text
    EXTERNALS[Path] = EXTERNALS["pathlib.Path"] = _mkpath
Contract(RP + "__init__", trusted=True, props=PB, params={"self": RecipeParser}, ghosts=LOG, modifies=lambda s: [("ghost:log", None)], raises={Exception: lambda s: True},
    ensures=lambda s: [("a recipe without edits", s.ghost["log"] == sempty)])
def _main(s):
    g, g0 = s.ghost, s.old.ghost
    q, tv = g["log"], to_v(s.target_version)
    full = tv != V.none
    ok = g["exit_code"] == to_v(ExitCode.SUCCESS)
    start = dict(g, log=sempty)
    _, _, e0 = build_edit(start, z3.And(s.truth(s.build_num), z3.Not(full)))
    q1 = build(sempty, e0)
    j, k = s.ip.st.fresh("j", I), s.ip.st.fresh("src", V)
    e = tseq(V.vt(at(q, j)))
    yield "writes nothing unless every step succeeded and this is no dry run", z3.Implies(z3.Or(z3.Not(ok), s.truth(s.dry_run)), g["writes"] == g0["writes"])
    yield "writes the recipe file exactly once", z3.Implies(z3.And(ok, z3.Not(s.truth(s.dry_run))), z3.And(g["writes"] == g0["writes"] + 1, g["w_path"] == V.opq(of_path(to_v(s.recipe_file_path))),
        g["w_text"] == V.str(render_of(q))))
    yield "a build number bump changes the build number by one and nothing else", z3.Implies(z3.And(ok, z3.Not(full)), z3.And(q == q1, s.truth(s.build_num)))
    yield "a new version resets the build number", z3.Implies(z3.And(ok, full), z3.And(slen(q) >= 2, at(q, 0) == tup("add", "/build/number", 0)))
    yield "sets the version", z3.Implies(z3.And(ok, full), at(q, 1) == version_edit(dict(g, log=q1), tv))
    yield "and looks for the sources after that", z3.Implies(z3.And(ok, full), g["fetchers_log"] == build(q1, version_edit(dict(g, log=q1), tv)))
    yield "every HTTP source gets the hash of what was fetched for it", z3.Implies(z3.And(ok, full, src_http(g, k)), z3.And(V.vb(s.fv(V.vr(dget(g["fetchers"], k)), "_successfully_fetched")), z3.Or(g["patched"][sha_path(k)] == src_hash(s, k),
        z3.And(slen(q) == 3, slen(dkeys(g["fetchers"])) == 1, k == to_v("/source"), at(tseq(V.vt(at(q, 2))), 2) == src_hash(s, k), is_one_of(at(tseq(V.vt(at(q, 2))), 1), HASH_VARS)))))
    yield "nothing but hashes is edited otherwise", z3.Implies(z3.And(ok, full, 2 <= j, j < slen(q)), hash_edit(s, e))
Contract(BM + "bump_recipe", props=PB, ghosts=LOG + WEB + EX + TBL + LAST + FILE, setup=use_files, ensures=lambda s: [("ends by leaving the program", False)],
    modifies=lambda s: [("ghost:" + g, None) for g in FM + ("exit_code", "log", "patched", "fetchers", "fetchers_log", "writes", "w_text", "w_path")], raises={SystemExit: _main, OSError: lambda s: True})
