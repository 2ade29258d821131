"""Platform tables (parser/platform_types.py)."""
from . import env
import z3
from pyvc.contract import *
from conda_recipe_manager.parser.platform_types import Arch, OperatingSystem, Platform

PM = "conda_recipe_manager.parser.platform_types:"
PROPS = ("C01",)
# the documented platform sets, written down independently of the code: by the name of the platform
_ALL = ["linux-32", "linux-64", "linux-aarch64", "linux-armv6l", "linux-armv7l", "linux-ppc64", "linux-ppc64le", "linux-riscv64", "linux-s390x",
        "osx-64", "osx-arm64", "win-32", "win-64", "win-arm64"]
OS_SETS = {"linux": [p for p in _ALL if p.startswith("linux-")], "osx": [p for p in _ALL if p.startswith("osx-")],
           "win": [p for p in _ALL if p.startswith("win-")], "unix": [p for p in _ALL if not p.startswith("win-")]}
ARCH_SETS = {"s390x": ["linux-s390x"], "x86": ["linux-32", "win-32", "linux-64", "osx-64", "win-64"], "x86_64": ["linux-64", "osx-64", "win-64"],
             "arm64": ["osx-arm64", "win-arm64"], "armv6l": ["linux-armv6l"], "armv7l": ["linux-armv7l"], "ppc64": ["linux-ppc64"], "ppc64le": ["linux-ppc64le"]}

def pset(names):
    t = z3.K(V, False)
    for n in names:
        t = z3.Store(t, to_v(Platform(n)), True)
    return t
def table(x, cls, sets):
    """the set a member or a (case-insensitive, stripped) name stands for; nothing for any other name"""
    r = z3.K(V, False)
    v = to_v(x)
    for n, ps in sets.items():
        is_ = z3.Or(v == to_v(cls(n)), z3.And(V.is_str(v), s_lower(s_strip(V.vs(v))) == lit(n)))
        r = z3.If(is_, pset(ps), r)
    return r
def os_set(x):
    return table(x, OperatingSystem, OS_SETS)
def arch_set(x):
    return table(x, Arch, ARCH_SETS)
def seteq(ip, a, b):
    x = ip.st.fresh("p", V)
    return z3.Select(a, x) == z3.Select(b, x)

for fn, arg, f in (("get_platforms_by_os", "os", os_set), ("get_platforms_by_arch", "arch", arch_set)):
    Contract(PM + fn, props=PROPS,
             fresh=True, ensures=(lambda arg, f: lambda s: [("exactly the documented platforms", s.set(s.result) == f(s.old.args[arg]))])(arg, f))
