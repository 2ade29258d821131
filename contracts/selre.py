"""The regular expressions the recipe parser searches with, as functions of the text (trusted)."""
from . import env, models, tree
from .tree import *
import re
from pyvc import logic as L, interp as IT
from conda_recipe_manager.parser import _types as PT
# ------------------------------------------------------------------ the regular expression of selectors (trusted: a function of the text)
found, matches, sel_of = F("sel_found", Str, B), F("sel_matches", Str, B), F("sel_text", Str, Str)
match_ = F("sel_match", Str, L.Opq)
group_ = F("sel_group", L.Opq, Str)
def _regex(pred):
    def f(ip, recv, a, kw):
        if recv is not PT.Regex.SELECTOR:
            raise Unsupported("another regular expression")
        t = S_(ip.resolve(a[0]))
        if not ip.st.branch(pred(t)):
            return None
        m = match_(t) if pred is found else F("sel_match_at_start", Str, L.Opq)(t)
        ip.st.ctx.add(group_(match_(t)) == sel_of(t))
        return Sym("opq", m, "SelMatch")
    return f
EXTERNALS[(re.Pattern, "search")] = _regex(found)
EXTERNALS[(re.Pattern, "match")] = _regex(matches)
def _group(ip, o, a, kw):
    if a and a[0] != 0:
        raise Unsupported("match group")
    return Sym("str", group_(o.t))
OPQ_METHODS[("SelMatch", "group")] = _group
OPQ_METHODS[("SelMatch", "__bool__")] = lambda ip, o, a, kw: True
# ------------------------------------------------------------------ other patterns: whether one is found is a function of the pattern and the text
removed = F("sel_removed", Str, Str)
pat_, re_found = F("re_pattern", Str, L.Opq), F("re_found", L.Opq, Str, B)
def _sub(ip, recv, a, kw):
    if recv is not PT.Regex.SELECTOR or a[0] != "":
        raise Unsupported("another substitution")
    return Sym("str", removed(S_(ip.resolve(a[1]))))
EXTERNALS[(re.Pattern, "sub")] = _sub
VL.OPAQUE_CLASSES[re.Pattern] = "Pattern"
def _compile(ip, a, kw):
    x = ip.resolve(a[0])
    if isinstance(x, Sym) and x.k == "opq":
        return x
    if ip.st.choose(2, "pattern"):
        raise PyExc(ExcVal(re.error))
    return Sym("opq", pat_(S_(x)), "Pattern")
EXTERNALS[re.compile] = _compile
EXTERNALS["re.compile"] = _compile
def _psearch(ip, o, a, kw):
    if not ip.st.branch(re_found(o.t, S_(ip.resolve(a[0])))):
        return None
    return Sym("opq", F("re_match", L.Opq, Str, L.Opq)(o.t, S_(ip.resolve(a[0]))), "SelMatch")
OPQ_METHODS[("Pattern", "search")] = _psearch
