"""Recipe variables: an insertion-ordered map (recipe_reader.py, recipe_parser.py)."""
from . import env, models, tree
import z3
from pyvc.contract import *
from conda_recipe_manager.types import SentinelType
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.recipe_parser import RecipeParser

PROPS = ("C08",)
RR, RP = "conda_recipe_manager.parser.recipe_reader:RecipeReader.", "conda_recipe_manager.parser.recipe_parser:RecipeParser."
def vref(s):
    return V.vr(s.fv(s.self, "_vars_tbl"))
def vmap(s):
    return s.ip.st.sel("#dict", vref(s), s.arr("#dict"))
def modified(s):
    return V.vb(s.fv(s.self, "_is_modified"))
K = lambda s: to_v(s.var)

Contract(RR + "list_variables", params={"self": RecipeReader}, props=PROPS + ("C07",), fresh=True,
         ensures=lambda s: [("lists the variables in insertion order", s.seq(s.result) == dkeys(vmap(s.old)))])
Contract(RR + "contains_variable", params={"self": RecipeReader}, props=PROPS + ("C07",),
         ensures=lambda s: [("agrees with the map", s.truth(s.result) == dhas(vmap(s.old), K(s)))])
def _get(s):
    d, r = vmap(s.old), to_v(s.result)
    v = dget(d, K(s))
    yield "a known variable yields its value", z3.Implies(dhas(d, K(s)), z3.If(V.is_ref(v), models.copy_of(r, v), r == v))
    yield "collections are handed out as copies", z3.Implies(z3.And(dhas(d, K(s)), V.is_ref(v)), z3.And(V.is_ref(r), V.vr(r) != V.vr(v)))
    yield "an unknown variable yields the default", z3.Implies(z3.Not(dhas(d, K(s))), r == to_v(s.default))
Contract(RR + "get_variable", params={"self": RecipeReader}, props=PROPS + ("C07",), ensures=_get,
         raises={KeyError: lambda s: z3.And(z3.Not(dhas(vmap(s.old), K(s))), to_v(s.default) == to_v(RecipeReader._sentinel))})
Contract(RP + "set_variable", params={"self": RecipeParser}, props=PROPS + ("C05",),
         modifies=lambda s: [("#dict", vref(s)), ("_is_modified", s.self)],
         ensures=lambda s: [("the last value set wins, order is that of first insertion", vmap(s) == dset(vmap(s.old), K(s), to_v(s.value))),
                            ("flags the recipe as modified", modified(s))])
Contract(RP + "del_variable", params={"self": RecipeParser}, props=PROPS + ("C05",),
         modifies=lambda s: [("#dict", vref(s)), ("_is_modified", s.self)],
         ensures=lambda s: [("a deleted variable is gone, an unknown one changes nothing", vmap(s) == z3.If(dhas(vmap(s.old), K(s)), ddel(vmap(s.old), K(s)), vmap(s.old))),
                            ("flags the recipe as modified iff something was deleted", modified(s) == z3.Or(modified(s.old), dhas(vmap(s.old), K(s))))])
