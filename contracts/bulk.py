"""Bulk conversion and bulk build: the statistics and the exit status (commands/convert.py, commands/rattler_bulk_build.py)."""
from . import env, world, convert
from .world import *
from .convert import cnt, L_cnt, _s, _x, CR, table, _Tbl
from pyvc import interp as IT
import ast, multiprocessing as mp, subprocess, re, click, typing
from conda_recipe_manager.commands import rattler_bulk_build as RB
from conda_recipe_manager.commands.utils.types import ExitCode

BM = "conda_recipe_manager.commands.rattler_bulk_build:"
PB = ("C17",)
BR = RB.BuildResult
FIELDS.update({(BR, "code"): (INT, ("enum", ExitCode)), (BR, "errors"): (("ref", ("list", (STR,))),)})
# ------------------------------------------------------------------ one build
SUB = [("sub_timeout", B), ("sub_code", I)]
VL.OPAQUE_CLASSES[subprocess.CompletedProcess] = "Completed"
def _run(ip, a, kw):
    if ip.st.choose(2, "timeout"):
        setg(ip, "sub_timeout", z3.BoolVal(True))
        raise PyExc(ExcVal(subprocess.TimeoutExpired))
    return opq(ip, "Completed", "proc")
EXTERNALS[subprocess.run] = _run
def _rc(ip, o, a, kw):
    return Sym("int", getg(ip, "sub_code", I))
OPQ_METHODS[("Completed", ".returncode")] = _rc
OPQ_METHODS[("Completed", ".stderr")] = any_str
EXTERNALS[(re.Pattern, "findall")] = lambda ip, recv, a, kw: ip.fresh("found", list[str])
OPQ_METHODS[("Path", "relative_to")] = lambda ip, o, a, kw: opq(ip, "Path", "rel")
def _br(s):
    r = s.result if isinstance(s.result, tuple) else tuple(s.ip.tuple_items(s.result))
    c = s.fv(V.vr(to_v(r[1])), "code")
    num = z3.If(V.is_enum(c), z3.IntVal(int(ExitCode.TIMEOUT)), V.vi(c))
    yield "a build that timed out is not a success", z3.Implies(s.ghost["sub_timeout"], c == to_v(ExitCode.TIMEOUT))
    yield "otherwise the result is that of the build", z3.Implies(z3.Not(s.ghost["sub_timeout"]), c == V.int(s.ghost["sub_code"]))
Contract(BM + "build_recipe", props=PB, ghosts=SUB, requires=lambda s: [("no timeout yet", z3.Not(s.ghost["sub_timeout"]))],
    modifies=lambda s: [("ghost:sub_timeout", None)], ensures=_br)

# ------------------------------------------------------------------ the whole run
# The pool hands back one (name, result) pair per file; names are distinct because files are. Recorded in ghosts.
RUN = [("bulk_n", I), ("bulk_res", Dc), ("bulk_out", V), ("exit_code", V)]
EXTERNALS[mp.cpu_count] = lambda ip, a, kw: ip.fresh("cpus", int)
EXTERNALS[mp.Pool] = lambda ip, a, kw: opq(ip, "Pool", "pool")
EXTERNALS["multiprocessing.context.BaseContext.Pool"] = EXTERNALS[mp.Pool]
EXTERNALS["multiprocessing.context.BaseContext.cpu_count"] = EXTERNALS[mp.cpu_count]
EXTERNALS[time.time] = lambda ip, a, kw: Sym("flt", ip.st.fresh("now", IT.Flt))
def _starmap(ip, o, a, kw):
    fn = a[0]
    rt = typing.get_type_hints(fn)["return"]
    vt = typing.get_args(rt)[1]
    a0 = ip.st.alloc_now()
    ip.st.bump_alloc()
    d = ip.fresh("results", dict[str, vt])
    ip.st.assume(z3.And(d.t >= a0, d.t < ip.st.alloc_now()))
    n = IT.BUILTINS[len](ip, [a[1]], {})
    m = ip.st.sel("#dict", d.t)
    ip.st.assume(slen(dkeys(m)) == int_t(n))
    setg(ip, "bulk_n", int_t(n))
    setg(ip, "bulk_res", m)
    return d
OPQ_METHODS[("Pool", "starmap")] = _starmap
def _rglob(ip, o, a, kw):
    return ip.fresh("files", list[Path])
OPQ_METHODS[("Path", "rglob")] = _rglob
def _dumps(ip, a, kw):
    setg(ip, "bulk_out", to_v(a[0]))
    return any_str(ip)
EXTERNALS[json.dumps] = _dumps
VL.OPAQUE_CLASSES[click.Context] = "ClickCtx"
OPQ_METHODS[("ClickCtx", ".args")] = lambda ip, o, a, kw: ip.fresh("args", list[str])
Contract(BM + "create_debug_file", trusted=True, props=PB, modifies=lambda s: [])
_cd, _tb = z3.Const("cd", z3.ArraySort(I, V)), z3.Const("er", z3.ArraySort(I, V))
_ls = z3.Const("ls", z3.ArraySort(I, Sq))
_dd = z3.Const("dd", Dc)
ArrV, ArrS = _cd.sort(), _ls.sort()
def res(d, j):
    return V.vr(dget(d, at(dkeys(d), j)))
def ok_code(c):
    return z3.Or(c == V.int(z3.IntVal(0)), c == to_v(ExitCode.SUCCESS))
okc = RecFn("okc", [ArrV, Dc, I], I, lambda c, d, n: z3.If(n <= 0, z3.IntVal(0), okc(c, d, n - 1) + z3.If(ok_code(z3.Select(c, res(d, n - 1))), z3.IntVal(1), z3.IntVal(0))))
def _rbb(s):
    st, g = s, s.ghost
    out = V.vr(g["bulk_out"])
    D = lambda r: s.ip.st.sel("#dict", r, s.arr("#dict"))
    get = lambda d, k: dget(d, to_v(k))
    stats = D(V.vr(get(D(out), "statistics")))
    ok = okc(s.arr("code"), g["bulk_res"], g["bulk_n"])
    ran = g["bulk_out"] != V.none
    yield "states the number of recipe files", z3.Implies(ran, get(stats, "total_recipe_files") == V.int(g["bulk_n"]))
    yield "every recipe is counted once", z3.Implies(ran, get(stats, "total_recipes_processed") == V.int(g["bulk_n"]))
    yield "failures are the recipes whose build did not succeed", z3.Implies(ran, get(stats, "total_errors") == V.int(g["bulk_n"] - ok))
    share = s.ip.call(round, [Sym("flt", F("fdiv", I, I, IT.Flt)(ok, g["bulk_n"])), 2], {})
    met = s.ip._z(s.ip.compare(ast.GtE(), share, s.min_success_rate))
    yield "reports the share of successes", z3.Implies(ran, get(stats, "percent_success") == to_v(share))
    yield "succeeds iff the share reaches the minimum", z3.Implies(ran, g["exit_code"] == z3.If(met, to_v(ExitCode.SUCCESS), to_v(ExitCode.MISSED_SUCCESS_THRESHOLD)))
    yield "does not succeed without recipes", z3.Implies(z3.Not(ran), g["exit_code"] == to_v(ExitCode.NO_FILES_FOUND))
def _tmpl(L):
    g = L.ghost
    n, d = g["bulk_n"], g["bulk_res"]
    i = L.i
    ok = okc(L._arr("code"), d, i)
    yield "successes", int_t(L.get("total_success")) == ok
    yield "failures", int_t(L.get("total_errors")) == i - ok
Contract(BM + "rattler_bulk_build", props=PB, ghosts=RUN, params={}, requires=lambda s: [("nothing printed yet", s.ghost["bulk_out"] == V.none)],
    modifies=lambda s: [("ghost:" + g, None) for g, _ in RUN], ensures=lambda s: [("ends by leaving the program", False)], raises={SystemExit: _rbb},
    templates=[("statistics", _tmpl), ("one each", lambda L: [(f"{n} one per item", slen(q) == L.i) for n, q in L.lists()])])
