"""Converting one recipe file, and the statistics of bulk runs (commands/convert.py, commands/rattler_bulk_build.py)."""
from . import env, world, reader
from .world import *
from .messages import inv, msgs, tbl
from . import messages as MSG
from conda_recipe_manager.commands import convert as CV
from conda_recipe_manager.commands.utils.types import ExitCode
from conda_recipe_manager.types import MessageCategory, MessageTable
from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.parser.recipe_reader import RecipeReader

CM = "conda_recipe_manager.commands.convert:"
PC = ("C16",)
CR = CV.ConversionResult
FIELDS.update({(CR, "code"): (("enum", ExitCode),), (CR, "content"): (STR,), (CR, "file_path"): (("opq", "Path"),), (CR, "msg_tbl"): (("ref", MessageTable),), (CR, "project_name"): (STR,)})
class _Tbl:
    """the message table `t` (a reference) seen in the state `s`"""
    def __init__(self, s, t):
        self.s, self.t = s, t
    def ref(self):
        return V.vr(self.s.fv(self.t, "_tbl"))
    def d(self):
        return self.s.ip.st.sel("#dict", self.ref(), self.s.arr("#dict"))
    def lst(self, c):
        return V.vr(dget(self.d(), to_v(c)))
    def msgs(self, c):
        return z3.If(dhas(self.d(), to_v(c)), self.s.ip.st.sel("#list", self.lst(c), self.s.arr("#list")), sempty)
    def inv(self):
        a, b = z3.Consts("a b", V)
        d = self.d()
        return z3.And(z3.ForAll([a], z3.Implies(dhas(d, a), V.is_ref(dget(d, a))), patterns=[dget(d, a)]),
                      z3.ForAll([a, b], z3.Implies(z3.And(dhas(d, a), dhas(d, b), a != b), V.vr(dget(d, a)) != V.vr(dget(d, b))), patterns=[MP(dget(d, a), dget(d, b))]))
def table(s, r):
    return _Tbl(s, V.vr(s.fv(r, "msg_tbl")))
ERR, WARN, EXC = MessageCategory.ERROR, MessageCategory.WARNING, MessageCategory.EXCEPTION
def code_of(t, code0):
    """the status the messages decide"""
    return z3.If(slen(t.msgs(ERR)) > 0, to_v(ExitCode.RENDER_ERRORS), z3.If(slen(t.msgs(WARN)) > 0, to_v(ExitCode.RENDER_WARNINGS), code0))
Contract(CM + "ConversionResult.set_return_code", params={"self": CR}, props=PC, modifies=lambda s: [("code", s.self)],
    ensures=lambda s: [("errors before warnings before what was there", s.fv(s.self, "code") == code_of(table(s.old, s.self), s.old.fv(s.self, "code")))])
def _rec(s):
    r = s.conversion_result
    t, t0 = table(s, r), table(s.old, r)
    yield "hands back the result it was given", to_v(s.result) == V.ref(r.t)
    yield "carries the status of the failure", s.fv(r, "code") == to_v(s.exit_code)
    yield "records the failure as one exception message", t.msgs(EXC) == build(t0.msgs(EXC), to_v(s.e_msg))
    yield "keeps the other messages", z3.And(t.msgs(ERR) == t0.msgs(ERR), t.msgs(WARN) == t0.msgs(WARN))
    yield "table is well formed", t.inv()
def _recmod(s):
    t = table(s, s.conversion_result)
    return [("code", s.conversion_result), ("#dict", t.ref()), ("#list", lambda o: z3.And(dhas(t.d(), to_v(EXC)), o == t.lst(EXC)))]
from typing import Optional
Contract(CM + "_record_unrecoverable_failure", props=PC, params={"e": Optional[Exception]}, requires=lambda s: [("table is well formed", table(s, s.conversion_result).inv())],
    modifies=_recmod, ensures=_rec)

# ---- the stages of a conversion; the ghost records which of them failed (0: none)
STAGE = [("cv_failed", I), ("cv_schema", V), ("cv_written", B)]
ST = dict(read=1, prep=2, parse=3, render=4, write=5)
def _stage(name, value):
    def f(ip, *a):
        if ip.st.choose(2, name):
            setg(ip, "cv_failed", z3.IntVal(ST[name]))
            raise PyExc(ExcVal(Exception))
        return value(ip, *a)
    return f
OPQ_METHODS[("Path", "read_text")] = _stage("read", any_str)
def _opened(ip, a, kw):
    if ip.st.choose(2, "open"):
        setg(ip, "cv_failed", z3.IntVal(ST["write"]))
        raise PyExc(ExcVal(OSError))
    return opq(ip, "File", "file")
EXTERNALS[open] = _opened
IT.BUILTINS[open] = _opened
def _fwrite(ip, o, a, kw):
    if ip.st.choose(2, "write"):
        setg(ip, "cv_failed", z3.IntVal(ST["write"]))
        raise PyExc(ExcVal(OSError))
    setg(ip, "cv_written", z3.BoolVal(True))
    return ip.fresh("n", int)
OPQ_METHODS[("File", "write")] = _fwrite
RPC = "conda_recipe_manager.parser.recipe_parser_convert:RecipeParserConvert."
def failed(n):
    return lambda s: s.ghost["cv_failed"] == ST[n]
SMOD = lambda s: [("ghost:cv_failed", None)]
same_stage = lambda s: [("no failure", s.ghost["cv_failed"] == s.old.ghost["cv_failed"])]
Contract(RPC + "pre_process_recipe_text", trusted=True, props=PC, ghosts=STAGE, modifies=SMOD, raises={Exception: failed("prep")}, ensures=same_stage)
FIELDS.update({(RecipeReader, "_schema_version"): (("enum", SchemaVersion),)})
Contract("conda_recipe_manager.parser.recipe_parser_convert:RecipeParserConvert.__init__", trusted=True, props=PC, params={"self": RecipeParserConvert}, ghosts=STAGE,
    modifies=lambda s: SMOD(s) + [("_schema_version", s.self), ("ghost:cv_schema", None)], raises={Exception: failed("parse")},
    ensures=lambda s: same_stage(s) + [("schema", s.ghost["cv_schema"] == s.fv(s.self, "_schema_version"))])
def _r2v(s):
    r = s.result if isinstance(s.result, tuple) else tuple(s.ip.tuple_items(s.result))
    t = _Tbl(s, V.vr(to_v(r[1])))
    yield "no failure", s.ghost["cv_failed"] == s.old.ghost["cv_failed"]
    yield "a table without exception messages", z3.And(V.is_ref(to_v(r[1])), t.inv(), z3.Not(dhas(t.d(), to_v(EXC))), slen(t.msgs(EXC)) == 0)
    q = z3.Const("q", V)
    me = V.vr(to_v(s.self))
    yield "made after the converter was", z3.And(V.vr(to_v(r[1])) >= me, t.ref() >= me, z3.ForAll([q], z3.Implies(dhas(t.d(), q), V.vr(dget(t.d(), q)) >= me), patterns=[dget(t.d(), q)]))
Contract(RPC + "render_to_v1_recipe_format", trusted=True, props=PC, params={"self": RecipeParserConvert}, ghosts=STAGE, modifies=SMOD, raises={Exception: failed("render")}, ensures=_r2v)
CODES = {1: ExitCode.READ_EXCEPTION, 2: ExitCode.PRE_PROCESS_EXCEPTION, 3: ExitCode.PARSE_EXCEPTION, 4: ExitCode.RENDER_EXCEPTION, 5: ExitCode.IO_ERROR}
def _conv(s):
    g = s.ghost
    t, code = table(s, s.result), s.fv(s.result, "code")
    k = g["cv_failed"]
    nfail = k == 0
    foreign = z3.And(nfail, g["cv_schema"] != to_v(SchemaVersion.V0))
    for i, c in CODES.items():
        yield f"a failure to {[n for n in ST if ST[n] == i][0]} has its own status", z3.Implies(k == i, code == to_v(c))
    yield "an already converted recipe is refused", z3.Implies(foreign, code == to_v(ExitCode.ILLEGAL_OPERATION))
    yield "a failure is recorded as exactly one exception message", z3.If(z3.Or(k > 0, foreign), slen(t.msgs(EXC)) == 1, slen(t.msgs(EXC)) == 0)
    yield "otherwise the messages decide the status", z3.Implies(z3.And(nfail, z3.Not(foreign)), code == code_of(t, to_v(ExitCode.SUCCESS)))
    yield "the result is written if and only if there is one to write", z3.Implies(z3.And(nfail, z3.Not(foreign)), g["cv_written"] == (to_v(s.output) != V.none))
    yield "nothing is written for a recipe that can not be converted", z3.Implies(z3.Or(z3.And(k > 0, k < 5), foreign), z3.Not(g["cv_written"]))
Contract(CM + "convert_file", props=PC, ghosts=STAGE, requires=lambda s: [("nothing has failed yet", z3.And(s.ghost["cv_failed"] == 0, z3.Not(s.ghost["cv_written"])))],
    modifies=lambda s: [("ghost:" + g, None) for g, _ in STAGE], ensures=_conv)

# ------------------------------------------------------------------ bulk runs (C17)
PB = ("C17",)
_x = z3.Const("x", V)
_s = z3.Const("s", Sq)
cnt = RecFn("cnt", [Sq, V, I], I, lambda s, x, n: z3.If(n <= 0, z3.IntVal(0), cnt(s, x, n - 1) + z3.If(at(s, n - 1) == x, z3.IntVal(1), z3.IntVal(0))))
L_cnt = Lemma("cnt_nonneg", [_s, _x], lambda n, s, x: cnt(s, x, n) >= 0, lambda n, s, x: [cnt(s, x, n)])
def hist(s, d, x):
    """occurrences recorded for message x in the histogram d"""
    m = s.dic(d)
    return z3.If(dhas(m, x), V.vi(dget(m, x)), 0)
def hist_ok(s, d):
    x = z3.Const("hx", V)
    m = s.dic(d)
    return z3.ForAll([x], z3.Implies(dhas(m, x), z3.And(V.is_int(dget(m, x)), V.vi(dget(m, x)) >= 1)), patterns=[dget(m, x)])
def counted(s, old, d, seq, n, quant=True):
    """every message is recorded as often as before plus its occurrences among the first n of seq"""
    x = z3.Const("cx", V)
    m, m0 = s.dic(d), old.dic(d)
    return z3.ForAll([x], hist(s, d, x) == hist(old, d, x) + cnt(seq, x, n), patterns=[dget(m, x), dhas(m, x)])
def _cis(s):
    seq = s.old.seq(s.issues)
    x = s.ip.st.fresh("msg", V)
    yield "counts every message as often as it occurs", hist(s, s.hist, x) == hist(s.old, s.hist, x) + cnt(seq, x, slen(seq))
    yield "the histogram stays one", hist_ok(s, s.hist)
    yield "lists the recipe once if it has such a message", s.seq(s.recipes_lst) == z3.If(slen(seq) > 0, build(s.old.seq(s.recipes_lst), to_v(s.project_name)), s.old.seq(s.recipes_lst))
    yield "returns the number of messages", int_t(s.result) == slen(seq)
Contract(CM + "_collect_issue_stats", props=PB, uses=[L_cnt],
    requires=lambda s: [("histogram", hist_ok(s, s.hist)), ("separate lists", s.issues.t != s.recipes_lst.t)],
    modifies=lambda s: [("#dict", s.hist), ("#list", s.recipes_lst)], ensures=_cis,
    templates=[("occurrences so far", lambda L: [("counted so far", counted(L.now, L.fn, L.fn.args["hist"], L.fn.seq(L.fn.args["issues"]), L.i)),
                                                  ("histogram so far", hist_ok(L.now, L.fn.args["hist"]))])])
