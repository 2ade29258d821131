"""License look-up (licenses/spdx_utils.py)."""
from . import env, world
from .world import *
import difflib
from conda_recipe_manager.licenses import spdx_utils as SP
from conda_recipe_manager.licenses.spdx_utils import SpdxUtils

SM = "conda_recipe_manager.licenses.spdx_utils:SpdxUtils."
PROPS = ("C15",)
CURATED = ["BSD-2-Clause", "NOASSERTION"]      # what the correction table may answer, written down independently
OPS = ["AND", "OR", "WITH"]
DB = dict[str, list[dict[str, str]]]
FIELDS.update({(SpdxUtils, "_raw_spdx_data"): ty(DB), (SpdxUtils, "_license_ids"): ty(set[str]), (SpdxUtils, "_license_matching_table"): ty(dict[str, str]), (SpdxUtils, "_license_matching_patch_tbl"): ty(dict[str, str])})
VL.OPAQUE_CLASSES[type(SP.SPDX_LICENSE_JSON_FILE)] = "Path"
known, mapped = F("db_id", V, B), F("db_text", V, B)      # the identifiers, and the identifiers and names, of the database
# the database: a list of separate dictionaries that all have an identifier and a name (trusted; the oracle checks it on the real file)
_i, _j = z3.Ints("i j")
def entry(s, l, i):
    return s.ip.st.sel("#dict", V.vr(at(l, i)), s.arr("#dict"))
def _loads(ip, a, kw):
    a0 = ip.st.alloc_now()
    ip.st.bump_alloc()
    d = ip.fresh("db", DB)
    m = ip.st.sel("#dict", d.t)
    lic = dget(m, lit_v("licenses"))
    l = ip.st.sel("#list", V.vr(lic))
    e = ip.st.sel("#dict", V.vr(at(l, _i)))
    rng = z3.And(0 <= _i, _i < slen(l))
    st = ip.st
    st.assume(z3.And(d.t >= a0, d.t < st.alloc_now(), dhas(m, lit_v("licenses")), V.is_ref(lic), V.vr(lic) >= a0, V.vr(lic) < st.alloc_now()))
    st.assume(z3.ForAll([_i], z3.Implies(rng, z3.And(V.is_ref(at(l, _i)), V.vr(at(l, _i)) >= a0, V.vr(at(l, _i)) < st.alloc_now(),
                        dhas(e, lit_v("licenseId")), dhas(e, lit_v("name")), V.is_str(dget(e, lit_v("licenseId"))), V.is_str(dget(e, lit_v("name"))),
                        known(dget(e, lit_v("licenseId"))), mapped(dget(e, lit_v("licenseId"))), mapped(dget(e, lit_v("name"))))), patterns=[at(l, _i)]))
    setg(ip, "db_list", V.vr(lic))
    return d
def lit_v(x):
    return to_v(x)
EXTERNALS[json.loads] = _loads
EXTERNALS["pathlib.Path.read_text"] = any_str
def _match(ip, a, kw):
    """difflib.get_close_matches: at most n of the candidates"""
    n = a[2] if len(a) > 2 else kw.get("n", 3)
    a0 = ip.st.alloc_now()
    ip.st.bump_alloc()
    r = ip.fresh("matches", list[str])
    q = ip.st.sel("#list", r.t)
    ip.st.assume(z3.And(r.t >= a0, r.t < ip.st.alloc_now(), slen(q) <= int_t(n)))
    it = ip.iter_of(a[1])
    ip.st.assume(z3.ForAll([_i], z3.Implies(z3.And(0 <= _i, _i < slen(q)), z3.Select(selems(it.seq()), at(q, _i))), patterns=[at(q, _i)]))
    return r
EXTERNALS[difflib.get_close_matches] = _match
def tbls(s):
    o = s.self
    return s.ip.st.sel("#set", V.vr(s.fv(o, "_license_ids")), s.arr("#set")), *(s.ip.st.sel("#dict", V.vr(s.fv(o, f)), s.arr("#dict")) for f in ("_license_matching_table", "_license_matching_patch_tbl"))
_q = z3.Const("q", V)
def is_ref_field(s, f):
    return V.is_ref(s.fv(s.self, f))
def inv(s):
    ids, tab, patch = tbls(s)
    yield "everything a name is mapped to is an identifier", z3.ForAll([_q], z3.Implies(dhas(tab, _q), z3.Select(ids, dget(tab, _q))), patterns=[dget(tab, _q)])
    yield "everything a mistake is corrected to is in the curated table", z3.ForAll([_q], z3.Implies(dhas(patch, _q), z3.Or(*[dget(patch, _q) == lit_v(c) for c in CURATED])), patterns=[dget(patch, _q)])
def _find(s):
    ids, tab, patch = tbls(s.old)
    r, f = to_v(s.result), to_v(s.license_field)
    known = z3.Select(ids, f)
    up = S_(s.ip.method(s.ip.method(s.license_field, "strip", [], {}), "upper", [], {}))
    yield "nothing, a known identifier or a curated correction", z3.Or(r == V.none, z3.Select(ids, r), *[r == lit_v(c) for c in CURATED])
    yield "an identifier is its own match", z3.Implies(known, r == f)
    for o in OPS + [","]:
        yield f"a compound expression is not reduced ({o})", z3.Implies(z3.And(z3.Not(known), s_contains(up, lit(o))), r == V.none)
Contract(SM + "find_closest_license_match", params={"self": SpdxUtils}, props=PROPS, requires=inv, ensures=_find)
def db(s):
    """the database that was read: its list of licenses"""
    return s.ip.st.sel("#list", s.ghost["db_list"], s.arr("#list"))
def prop(s, i, f):
    """a property of the i-th license of the database"""
    return dget(s.ip.st.sel("#dict", V.vr(at(db(s), i)), s.arr("#dict")), lit_v(f))
def _initt(L):
    s = L.now
    o = s.self
    ids = s.ip.st.sel("#set", V.vr(s.fv(o, "_license_ids")), s.arr("#set"))
    tab = s.ip.st.sel("#dict", V.vr(s.fv(o, "_license_matching_table")), s.arr("#dict"))
    i = z3.Const("i", I)
    e = at(db(s), i)
    yield "everything a name is mapped to is an identifier", z3.ForAll([_q], z3.Implies(dhas(tab, _q), z3.Select(ids, dget(tab, _q))), patterns=[dget(tab, _q)])
    yield "every identifier so far is known", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.i), z3.Select(ids, prop(s, i, "licenseId"))), patterns=[e])
    yield "every name and identifier so far is mapped", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.i), z3.And(dhas(tab, prop(s, i, "licenseId")), dhas(tab, prop(s, i, "name")))), patterns=[e])
    yield "every known identifier is one of the database", z3.ForAll([_q], z3.Implies(z3.Select(ids, _q), known(_q)), patterns=[z3.Select(ids, _q)])
    yield "only names and identifiers of the database are mapped", z3.ForAll([_q], z3.Implies(dhas(tab, _q), mapped(_q)), patterns=[dhas(tab, _q)])
GH = [("db_list", I)]
def _init(s):
    yield from inv(s)
    ids, tab, patch = tbls(s)
    i = s.ip.st.fresh("i", I)
    there = z3.And(0 <= i, i < slen(db(s)))
    yield "knows every identifier of the database", z3.Implies(there, z3.Select(ids, prop(s, i, "licenseId")))
    yield "matches every name and identifier of the database", z3.Implies(there, z3.And(dhas(tab, prop(s, i, "licenseId")), dhas(tab, prop(s, i, "name"))))
    x = s.ip.st.fresh("x", V)
    yield "knows no other identifier", z3.Implies(z3.Select(ids, x), known(x))
    yield "matches nothing else", z3.Implies(dhas(tab, x), mapped(x))
Contract(SM + "__init__", params={"self": SpdxUtils}, props=PROPS, ghosts=GH, ensures=_init, templates=[("tables", _initt)],
         modifies=lambda s: [(f, s.self) for f in ("_raw_spdx_data", "_license_matching_table", "_license_ids", "_license_matching_patch_tbl")] + [("ghost:db_list", None)])
