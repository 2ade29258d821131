"""Models of library functions shared by the contracts (trusted; listed in the evidence under external_models)."""
from . import env
import copy
import z3
from pyvc.contract import *
from pyvc import interp as IT, vals as VL

copy_of = z3.Function("copy_of", V, V, B)     # the first value is a deep copy of the second
def _deepcopy(ip, args, kw):
    x = args[0]
    if not isinstance(x, Sym):
        return x
    if x.k in ("bool", "int", "flt", "str", "enum", "opq"):
        return x
    if x.k != "any" and x.k != "ref":
        raise Unsupported("deepcopy")
    t = to_v(x)
    a0 = ip.st.alloc_now()
    ip.st.bump_alloc()
    r = ip.st.fresh("copy", V)
    ip.st.assume(z3.If(V.is_ref(t), z3.And(V.is_ref(r), V.vr(r) >= a0, V.vr(r) < ip.st.alloc_now(), copy_of(r, t)), r == t))
    return ip.from_v(r, x.c if x.k == "any" else (("ref", x.c),))
EXTERNALS["copy.deepcopy"] = _deepcopy
