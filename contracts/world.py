"""
Models of the outside world used by the command and fetcher contracts (trusted; listed in the evidence under external_models).
What a call does to the world is recorded in ghost variables, so that contracts can speak about it.
"""
from . import env, models
import z3, builtins, sys, os, time, logging, pathlib, json, click
from pathlib import Path
from pyvc.contract import *
from pyvc import interp as IT, vals as VL, logic as L

VL.OPAQUE_CLASSES[Path] = "Path"
VL.OPAQUE_CLASSES[pathlib.PurePath] = "Path"
def opq(ip, label, hint="o"):
    return Sym("opq", ip.st.fresh(hint, L.Opq), label)
def may_raise(ip, exc, label=""):
    """one of: returns normally (False), raises one of the exceptions"""
    k = ip.st.choose(1 + len(exc), label)
    if k:
        raise PyExc(ExcVal(exc[k - 1]))
def setg(ip, g, v):
    ip.st.ghost[g] = v
def getg(ip, g, sort):
    if g not in ip.st.ghost:
        ip.st.ghost[g] = ip.st.fresh("g_" + g, sort)
    return ip.st.ghost[g]

# ---- paths
def _path(ip, a, kw):
    if len(a) == 1 and isinstance(a[0], Sym) and a[0].k == "opq" and a[0].c == "Path":
        return a[0]
    return opq(ip, "Path", "path")
EXTERNALS[Path] = _path
EXTERNALS["pathlib.Path"] = _path
def any_str(ip, *a):
    return Sym("str", ip.st.fresh("txt", Str))
OPQ_METHODS[("Path", "__truediv__")] = lambda ip, *a: opq(ip, "Path", "path")
OPQ_METHODS[("Path", ".parent")] = lambda ip, o, a, k: opq(ip, "Path", "path")
OPQ_METHODS[("Path", ".name")] = lambda ip, o, a, k: any_str(ip)

# ---- printing and logging have no effect on what the contracts speak about
def no_op(ip, a, kw):
    return None
EXTERNALS[print] = no_op
IT.BUILTINS[print] = no_op
for _m in ("debug", "info", "warning", "error", "critical", "exception", "log"):
    EXTERNALS[(logging.Logger, _m)] = lambda ip, recv, a, k: None
    EXTERNALS[f"logging.Logger.{_m}"] = no_op
    EXTERNALS[getattr(logging.Logger, _m)] = no_op
MODULE_EXT["logging."] = lambda ip, q, a, k: None

# ---- leaving the program
EXITED = ("exit_code", V)
def _exit(ip, a, kw):
    setg(ip, "exit_code", to_v(a[0] if a else 0))
    raise PyExc(ExcVal(SystemExit, list(a)))
EXTERNALS[sys.exit] = _exit
EXTERNALS[os.path.basename] = lambda ip, a, kw: any_str(ip)
