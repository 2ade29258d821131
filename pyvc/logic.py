"""
Logic layer: sorts, theory of sequences / dictionaries / strings (axioms with triggers, after Dafny's prelude),
recursive specification functions (unfolded on demand, ground), and the solver interface.
"""
from __future__ import annotations
import itertools, os, subprocess, tempfile, time
import z3

I, B = z3.IntSort(), z3.BoolSort()
Str = z3.DeclareSort("Str")
Flt = z3.DeclareSort("Flt")
Tup = z3.DeclareSort("Tup")
Opq = z3.DeclareSort("Opq")
Sq = z3.DeclareSort("Sq")
Dc = z3.DeclareSort("Dc")
_V = z3.Datatype("V")
_V.declare("none")
_V.declare("bool", ("vb", B))
_V.declare("int", ("vi", I))
_V.declare("flt", ("vf", Flt))
_V.declare("str", ("vs", Str))
_V.declare("enum", ("ec", I), ("ek", I))
_V.declare("ref", ("vr", I))
_V.declare("tup", ("vt", Tup))
_V.declare("opq", ("vo", Opq))
V = _V.create()
SetV = z3.ArraySort(V, B)
F = z3.Function

# ---------------------------------------------------------------- sequences
slen = F("slen", Sq, I)
at = F("at", Sq, I, V)
sempty = z3.Const("sempty", Sq)
build = F("build", Sq, V, Sq)
app = F("app", Sq, Sq, Sq)
take = F("take", Sq, I, Sq)
drop = F("drop", Sq, I, Sq)
supd = F("supd", Sq, I, V, Sq)
srev = F("srev", Sq, Sq)
srep = F("srep", V, I, Sq)
seq_eq = F("seq_eq", Sq, Sq, B)
seq_df = F("seq_df", Sq, Sq, I)
sidx = F("sidx", Sq, V, I)
selems = F("selems", Sq, SetV)  # set of members
# ---------------------------------------------------------------- dictionaries (insertion ordered)
dempty = z3.Const("dempty", Dc)
dkeys = F("dkeys", Dc, Sq)
dhas = F("dhas", Dc, V, B)
dget = F("dget", Dc, V, V)
dset = F("dset", Dc, V, V, Dc)
ddel = F("ddel", Dc, V, Dc)
kidx = F("kidx", Dc, V, I)
d_eq = F("d_eq", Dc, Dc, B)
d_df = F("d_df", Dc, Dc, V)
# ---------------------------------------------------------------- objects
cls = F("cls", I, I)
card = F("card", SetV, I)
mktup = F("mktup", Sq, Tup)
tseq = F("tseq", Tup, Sq)
opqid = F("opqid", Opq, I)
fltid = F("fltid", Flt, I)
set_order = F("set_order", SetV, Sq)   # iteration order of a set
sorted_of = F("sorted_of", Sq, Sq)
pyeq_u = F("pyeq_u", V, V, B)          # == on values whose kinds are unknown or structured
# ---------------------------------------------------------------- strings
litid = F("litid", Str, I)
cat = F("cat", Str, Str, Str)
cat_tail = F("cat_tail", Str, Str, Str)
cat_head = F("cat_head", Str, Str, Str)
strlen = F("strlen", Str, I)
itoa = F("itoa", I, Str)
atoi = F("atoi", Str, I)
ftoa = F("ftoa", Flt, Str)
ssplit = F("ssplit", Str, Str, Sq)
sjoin = F("sjoin", Str, Sq, Str)
char_at = F("char_at", Str, I, Str)
substr = F("substr", Str, I, I, Str)
s_rev = F("str_rev", Str, Str)
s_chop = F("str_chop", Str, I, Str)     # without its last characters
sreplace = F("sreplace", Str, Str, Str, I, Str)
pystr = F("pystr", V, Str)      # str(x) of other values

UNARY_STR = {}   # z3 func decl name -> (decl, python fn) evaluated on literals
def _unary(name, ret, fn):
    d = F("str_" + name, Str, ret)
    UNARY_STR[d.name()] = (d, fn)
    return d
s_isdigit = _unary("isdigit", B, lambda s: s.isdigit())
s_isdecimal = _unary("isdecimal", B, lambda s: s.isdecimal())
s_lower = _unary("lower", Str, lambda s: s.lower())
s_upper = _unary("upper", Str, lambda s: s.upper())
s_strip = _unary("strip", Str, lambda s: s.strip())
def _isint(s):
    try:
        int(s); return True
    except ValueError:
        return False
s_isint = _unary("isint", B, _isint)
BINARY_STR = {}
def _binary(name, ret, fn):
    d = F("str_" + name, Str, Str, ret)
    BINARY_STR[d.name()] = (d, fn)
    return d
s_startswith = _binary("startswith", B, lambda a, b: a.startswith(b))
s_endswith = _binary("endswith", B, lambda a, b: a.endswith(b))
s_contains = _binary("contains", B, lambda a, b: b in a)
# what comes before and after the last occurrence of a separator
s_rhead, s_rtail = F("str_rhead", Str, Str, Str), F("str_rtail", Str, Str, Str)

_LITS: dict[str, z3.ExprRef] = {}
_LIT_OF: dict[str, str] = {}
def lit(s: str):
    if s not in _LITS:
        n = len(_LITS)
        c = z3.Const(f"L!{n}", Str)
        _LITS[s] = c
        _LIT_OF[f"L!{n}"] = s
    return _LITS[s]

def lit_value(t):
    """Python string if the term is a literal, else None."""
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return _LIT_OF.get(t.decl().name())
    return None

def str_pieces(t) -> list:
    """Flatten a concatenation term to a list of python str / z3 terms."""
    if isinstance(t, str):
        return [t] if t else []
    if z3.is_app(t) and t.decl().eq(cat):
        return str_pieces(t.arg(0)) + str_pieces(t.arg(1))
    v = lit_value(t)
    if v is not None:
        return [v] if v else []
    return [t]

def mk_str(pieces) -> object:
    """Canonical string from pieces (python str or Str terms): returns python str or a z3 term."""
    flat: list = []
    for p in pieces:
        for q in str_pieces(p):
            if isinstance(q, str) and flat and isinstance(flat[-1], str):
                flat[-1] += q
            else:
                flat.append(q)
    flat = [p for p in flat if not (isinstance(p, str) and p == "")]
    if not flat:
        return ""
    if len(flat) == 1:
        return flat[0]
    terms = [lit(p) if isinstance(p, str) else p for p in flat]
    r = terms[-1]
    for p in reversed(terms[:-1]):
        r = cat(p, r)
    return r

_ITE_DEFS: dict = {}      # constant name -> ground if-then-else term it stands for (patterns must not contain ite)
_ITE_ID: dict = {}
_raw_forall = z3.ForAll
def _forall(vs, body, *a, patterns=(), **kw):
    """z3.ForAll; ground conditional terms inside patterns are named, the names are defined by closed_facts"""
    vs_ = vs if isinstance(vs, (list, tuple)) else [vs]
    ids = {v.get_id() for v in vs_}
    subs = {}
    def has_var(x):
        st, seen = [x], set()
        while st:
            y = st.pop()
            if y.get_id() in ids:
                return True
            if y.get_id() not in seen:
                seen.add(y.get_id())
                st.extend(y.children())
        return False
    def scan(x, seen):
        if x.get_id() in seen or not z3.is_app(x):
            return
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and not has_var(x):
            if x.get_id() not in _ITE_ID:
                n = f"ite!{len(_ITE_ID)}_"
                _ITE_ID[x.get_id()] = z3.Const(n, x.sort())
                _ITE_DEFS[n] = x
            subs[x.get_id()] = (x, _ITE_ID[x.get_id()])
            return
        for c in x.children():
            scan(c, seen)
    for p in patterns:
        if isinstance(p, z3.PatternRef):
            continue
        scan(p, set())
    if subs:
        sb = list(subs.values())
        body = z3.substitute(body, *sb)
        patterns = [p if isinstance(p, z3.PatternRef) else z3.substitute(p, *sb) for p in patterns]
    return _raw_forall(vs, body, *a, patterns=list(patterns), **kw)
z3.ForAll = _forall

def _fa(vs, body, *pats, qid=""):
    return z3.ForAll(vs, body, patterns=list(pats), qid=qid)

_KEEP: list = []
def MP(*args):
    """z3.MultiPattern drops its references to the argument terms; keep them alive"""
    _KEEP.append(args)
    return z3.MultiPattern(*args)

def _axioms():
    s, t = z3.Consts("s t", Sq)
    i, n = z3.Ints("i n")
    v, w, k, k2 = z3.Consts("v w k k2", V)
    d, e = z3.Consts("d e", Dc)
    a, b, c = z3.Consts("a b c", Str)
    X, Y = z3.Consts("X Y", SetV)
    Im = z3.Implies
    And, Or, Not, If = z3.And, z3.Or, z3.Not, z3.If
    ax = [
        _fa([s], slen(s) >= 0, slen(s)),
        slen(sempty) == 0,
        _fa([s], Im(slen(s) == 0, s == sempty), slen(s)),
        _fa([s, v], slen(build(s, v)) == slen(s) + 1, build(s, v)),
        _fa([s, v, i], If(i == slen(s), at(build(s, v), i) == v, Im(And(0 <= i, i < slen(s)), at(build(s, v), i) == at(s, i))), at(build(s, v), i)),
        _fa([s, t], slen(app(s, t)) == slen(s) + slen(t), app(s, t)),
        _fa([s, t, i], And(Im(And(0 <= i, i < slen(s)), at(app(s, t), i) == at(s, i)),
                           Im(And(slen(s) <= i, i < slen(s) + slen(t)), at(app(s, t), i) == at(t, i - slen(s)))), at(app(s, t), i)),
        _fa([s, n], Im(And(0 <= n, n <= slen(s)), slen(take(s, n)) == n), take(s, n)),
        _fa([s, n, i], Im(And(0 <= i, i < n, n <= slen(s)), at(take(s, n), i) == at(s, i)), at(take(s, n), i), MP(at(s, i), take(s, n))),
        _fa([s, n], Im(And(0 <= n, n <= slen(s)), slen(drop(s, n)) == slen(s) - n), drop(s, n)),
        _fa([s, n, i], Im(And(0 <= n, 0 <= i, i < slen(s) - n), at(drop(s, n), i) == at(s, i + n)), at(drop(s, n), i)),
        _fa([s, n, i], Im(And(0 <= n, n <= i, i < slen(s)), at(drop(s, n), i - n) == at(s, i)), MP(at(s, i), drop(s, n))),
        _fa([s, n], Im(n == slen(s), take(s, n) == s), take(s, n)),
        _fa([s, n], Im(n == 0, drop(s, n) == s), drop(s, n)),
        _fa([s, n, i], Im(And(0 <= i, i <= n, n <= slen(s)), take(take(s, n), i) == take(s, i)), take(take(s, n), i)),
        _fa([s, t, n], Im(And(0 <= n, n <= slen(s)), take(app(s, t), n) == take(s, n)), take(app(s, t), n)),
        _fa([s, t, n], Im(And(slen(s) <= n, n <= slen(s) + slen(t)), take(app(s, t), n) == app(s, take(t, n - slen(s)))), take(app(s, t), n)),
        _fa([s, t, n], Im(And(0 <= n, n <= slen(s)), drop(app(s, t), n) == app(drop(s, n), t)), drop(app(s, t), n)),
        _fa([s, t, n], Im(And(slen(s) <= n, n <= slen(s) + slen(t)), drop(app(s, t), n) == drop(t, n - slen(s))), drop(app(s, t), n)),
        _fa([s, n, i], Im(And(0 <= n, 0 <= i, n + i <= slen(s)), drop(drop(s, n), i) == drop(s, n + i)), drop(drop(s, n), i)),
        _fa([s], And(app(sempty, s) == s), app(sempty, s)),
        _fa([s], And(app(s, sempty) == s), app(s, sempty)),
        _fa([s, v, n], Im(And(0 <= n, n <= slen(s)), take(build(s, v), n) == take(s, n)), take(build(s, v), n)),
        _fa([s, v, n], Im(And(0 <= n, n <= slen(s)), drop(build(s, v), n) == build(drop(s, n), v)), drop(build(s, v), n)),
        _fa([s, i, v], slen(supd(s, i, v)) == slen(s), supd(s, i, v)),
        _fa([s, i, v, n], Im(And(0 <= n, n < slen(s)), at(supd(s, i, v), n) == If(n == i, v, at(s, n))), at(supd(s, i, v), n)),
        _fa([s], slen(srev(s)) == slen(s), srev(s)),
        _fa([s, i], Im(And(0 <= i, i < slen(s)), at(srev(s), i) == at(s, slen(s) - 1 - i)), at(srev(s), i)),
        _fa([s], srev(srev(s)) == s, srev(srev(s))),
        _fa([v, n], slen(srep(v, n)) == If(n > 0, n, 0), srep(v, n)),
        _fa([v, n, i], Im(And(0 <= i, i < n), at(srep(v, n), i) == v), at(srep(v, n), i)),
        _fa([s, t], seq_eq(s, t) == And(slen(s) == slen(t), Im(And(0 <= seq_df(s, t), seq_df(s, t) < slen(s)), at(s, seq_df(s, t)) == at(t, seq_df(s, t)))), seq_eq(s, t)),
        _fa([s, t], Im(seq_eq(s, t), s == t), seq_eq(s, t)),
        _fa([s, i], Im(And(0 <= i, i < slen(s)), selems(s)[at(s, i)]), MP(selems(s), at(s, i))),
        _fa([s, v], Im(z3.Select(selems(s), v), And(0 <= sidx(s, v), sidx(s, v) < slen(s), at(s, sidx(s, v)) == v)), z3.Select(selems(s), v)),
        selems(sempty) == z3.K(V, False),
        _fa([s, v], selems(build(s, v)) == z3.Store(selems(s), v, True), selems(build(s, v))),
        _fa([s, t], selems(app(s, t)) == z3.SetUnion(selems(s), selems(t)), selems(app(s, t))),
        # dictionaries
        dkeys(dempty) == sempty,
        _fa([k], Not(dhas(dempty, k)), dhas(dempty, k)),
        _fa([d, k, v, k2], dhas(dset(d, k, v), k2) == Or(k2 == k, dhas(d, k2)), dhas(dset(d, k, v), k2)),
        _fa([d, k, v, k2], dget(dset(d, k, v), k2) == If(k2 == k, v, dget(d, k2)), dget(dset(d, k, v), k2)),
        _fa([d, k, v], dkeys(dset(d, k, v)) == If(dhas(d, k), dkeys(d), build(dkeys(d), k)), dkeys(dset(d, k, v))),
        _fa([d, k, v], slen(dkeys(dset(d, k, v))) == If(dhas(d, k), slen(dkeys(d)), slen(dkeys(d)) + 1), dset(d, k, v)),
        _fa([d, k, v], Im(dhas(d, k), kidx(dset(d, k, v), k) == kidx(d, k)), dset(d, k, v)),
        _fa([d, k, k2], dhas(ddel(d, k), k2) == And(k2 != k, dhas(d, k2)), dhas(ddel(d, k), k2)),
        _fa([d, k, k2], Im(k2 != k, dget(ddel(d, k), k2) == dget(d, k2)), dget(ddel(d, k), k2)),
        _fa([d, k], slen(dkeys(ddel(d, k))) == If(dhas(d, k), slen(dkeys(d)) - 1, slen(dkeys(d))), ddel(d, k)),
        _fa([d, k, i], Im(And(dhas(d, k), 0 <= i, i < slen(dkeys(d)) - 1), at(dkeys(ddel(d, k)), i) == If(i < kidx(d, k), at(dkeys(d), i), at(dkeys(d), i + 1))), at(dkeys(ddel(d, k)), i)),
        _fa([d, i], Im(And(0 <= i, i < slen(dkeys(d))), And(dhas(d, at(dkeys(d), i)), kidx(d, at(dkeys(d), i)) == i)), at(dkeys(d), i)),
        _fa([d, k], Im(dhas(d, k), And(0 <= kidx(d, k), kidx(d, k) < slen(dkeys(d)), at(dkeys(d), kidx(d, k)) == k)), dhas(d, k)),
        _fa([d, e], Im(d_eq(d, e), d == e), d_eq(d, e)),
        _fa([d, e], d_eq(d, e) == And(seq_eq(dkeys(d), dkeys(e)), dget(d, d_df(d, e)) == dget(e, d_df(d, e))), d_eq(d, e)),
        _fa([s], tseq(mktup(s)) == s, mktup(s)),
        _fa([z3.Const("tt", Tup)], mktup(tseq(z3.Const("tt", Tup))) == z3.Const("tt", Tup), tseq(z3.Const("tt", Tup))),
        _fa([X], And(selems(set_order(X)) == X, slen(set_order(X)) == card(X)), set_order(X)),
        _fa([X, i, n], Im(And(0 <= i, i < n, n < slen(set_order(X))), at(set_order(X), i) != at(set_order(X), n)), MP(at(set_order(X), i), at(set_order(X), n))),
        _fa([X, i], Im(And(0 <= i, i < slen(set_order(X))), X[at(set_order(X), i)]), at(set_order(X), i)),
        _fa([s], And(slen(sorted_of(s)) == slen(s), selems(sorted_of(s)) == selems(s)), sorted_of(s)),
        _fa([v], pyeq_u(v, v), pyeq_u(v, v)),
        _fa([v, w], pyeq_u(v, w) == pyeq_u(w, v), pyeq_u(v, w)),
        # strings
        _fa([a], strlen(a) >= 0, strlen(a)),
        _fa([a], Im(strlen(a) == 0, a == lit("")), strlen(a)),
        _fa([a, b], strlen(cat(a, b)) == strlen(a) + strlen(b), cat(a, b)),
        _fa([a, b], And(cat_tail(a, cat(a, b)) == b, cat_head(cat(a, b), b) == a), cat(a, b)),
        _fa([i], And(atoi(itoa(i)) == i, strlen(itoa(i)) > 0, s_isint(itoa(i))), itoa(i)),
        _fa([i], Im(i >= 0, And(s_isdigit(itoa(i)), s_isdecimal(itoa(i)))), itoa(i)),
        _fa([a], Im(s_isdecimal(a), And(s_isdigit(a), s_isint(a), atoi(a) >= 0, strlen(a) > 0)), s_isdecimal(a)),
        _fa([a], Im(s_isdigit(a), strlen(a) > 0), s_isdigit(a)),
        _fa([a], s_lower(s_lower(a)) == s_lower(a), s_lower(a)),
        _fa([a], s_strip(s_strip(a)) == s_strip(a), s_strip(a)),
        _fa([a], Im(strlen(s_strip(a)) > 0, strlen(a) > 0), s_strip(a)),
        _fa([a, b], And(slen(ssplit(a, b)) >= 1, sjoin(b, ssplit(a, b)) == a), ssplit(a, b)),
        _fa([a, b], Im(a == b, And(s_startswith(a, b), s_endswith(a, b), s_contains(a, b))), s_startswith(a, b), s_endswith(a, b), s_contains(a, b)),
        _fa([a, b], And(s_startswith(cat(a, b), a), s_endswith(cat(a, b), b)), cat(a, b)),
        # sets
        _fa([X], card(X) >= 0, card(X)),
        card(z3.K(V, False)) == 0,
        _fa([X, v], card(z3.Store(X, v, True)) == If(X[v], card(X), card(X) + 1), card(z3.Store(X, v, True))),
    ]
    return ax
AXIOMS = _axioms()

# ---------------------------------------------------------------- recursive specification functions
RECFNS: dict[str, "RecFn"] = {}
class RecFn:
    """f(args) with a defining equation, instantiated (unfolded) for ground applications only."""
    def __init__(self, name, dom, ran, body, depth=2):
        self.decl = F(name, *dom, ran)
        self.body, self.depth, self.name = body, depth, name
        RECFNS[name] = self
    def __call__(self, *args):
        return self.decl(*args)

LEMMAS: dict[str, object] = {}   # name -> quantified formula, proved separately (see contracts)

def _ite_names(q):
    out, st, seen = [], [q.body()], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x) and x.decl().name() in _ITE_DEFS:
            out.append(x.decl().name())
        st.extend(x.children())
    return out

def closed_facts(exprs, seen: set, depths: dict):
    """
    Ground facts the solver needs about terms in `exprs`: literal identities, string functions applied to literals,
    definitions of recursive spec functions (bounded number of unfoldings). `seen`/`depths` carry state along a path.
    """
    out = []
    todo = [(e, 0) for e in exprs]
    while todo:
        e, dep = todo.pop()
        stack = [e]
        while stack:
            x = stack.pop()
            xid = x.get_id()
            key = (xid, dep)
            if key in seen:
                continue
            seen.add(key)
            if z3.is_quantifier(x):
                # bodies with bound variables are not scanned, except for names of conditional terms
                if _ITE_DEFS and ("q", xid) not in seen:
                    seen.add(("q", xid))
                    for c in _ite_names(x):
                        if ("ite", c) not in seen:
                            seen.add(("ite", c))
                            t = _ITE_DEFS[c]
                            out.append(z3.Const(c, t.sort()) == t)
                            todo.append((t, dep))
                continue
            if not z3.is_app(x):
                continue
            stack.extend(x.children())
            d = x.decl()
            if d.kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            name = d.name()
            if x.num_args() == 0:
                if name in _ITE_DEFS and ("ite", name) not in seen:
                    seen.add(("ite", name))
                    t = _ITE_DEFS[name]
                    out.append(x == t)
                    todo.append((t, dep))
                if name in _LIT_OF and ("lit", name) not in seen:
                    seen.add(("lit", name))
                    fs = _lit_facts(name, seen)
                    out.extend(fs)
                    todo.extend((f, 999) for f in fs)
                continue
            if name in UNARY_STR or name in BINARY_STR:
                if ("fn", name) not in seen:
                    seen.add(("fn", name))
                    fs = _fn_facts(name, seen)
                    out.extend(fs)
                    todo.extend((f, 999) for f in fs)
            elif name in RECFNS:
                r = RECFNS[name]
                got = depths.get(xid)
                if got is None and dep < r.depth:
                    depths[xid] = dep
                    eq = x == r.body(*x.children())
                    out.append(eq)
                    todo.append((eq, dep + 1))
    return out

def _lit_facts(name, seen):
    s = _LIT_OF[name]
    c = _LITS[s]
    out = [litid(c) == int(name[2:]), strlen(c) == len(s)]
    if _isint(s):
        out.append(atoi(c) == int(s))
        if str(int(s)) == s:
            out.append(itoa(int(s)) == c)
    for fname in [k[1] for k in seen if isinstance(k, tuple) and k[0] == "fn"]:
        if fname in UNARY_STR:
            out.append(_un_fact(fname, s))
            r = UNARY_STR[fname][1](s)
        else:
            for o in [k[1] for k in seen if isinstance(k, tuple) and k[0] == "lit"]:
                out.extend(_bin_facts(fname, s, _LIT_OF[o]))
    return [x for x in out if x is not None]

def _un_fact(fname, s):
    d, fn = UNARY_STR[fname]
    r = fn(s)
    return d(lit(s)) == (lit(r) if isinstance(r, str) else z3.BoolVal(r))

def _bin_facts(fname, a, b):
    d, fn = BINARY_STR[fname]
    return [d(lit(a), lit(b)) == z3.BoolVal(fn(a, b)), d(lit(b), lit(a)) == z3.BoolVal(fn(b, a))]

def _fn_facts(fname, seen):
    lits = [_LIT_OF[k[1]] for k in seen if isinstance(k, tuple) and k[0] == "lit"]
    out = []
    if fname in UNARY_STR:
        for s in lits:
            out.append(_un_fact(fname, s))
    else:
        for a in lits:
            for b in lits:
                out.extend(_bin_facts(fname, a, b)[:1])
    return out

# ---------------------------------------------------------------- solver
class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by = {}
        self.hard = 0
STATS = Stats()
TIMEOUT_MS = int(os.environ.get("PYVC_TIMEOUT_MS", "8000"))

def new_solver(timeout=None):
    s = z3.Solver()
    s.set("auto_config", False)
    s.set("mbqi", False)
    s.set("random_seed", 7)
    s.set("timeout", timeout or TIMEOUT_MS)
    s.add(AXIOMS)
    return s

_SK = itertools.count()
def skolemize(goal):
    """a universally quantified goal holds iff it holds for a fresh constant; done here so that definitions get unfolded for it"""
    while z3.is_quantifier(goal) and goal.is_forall():
        cs = [z3.Const(f"sk!{next(_SK)}_{goal.var_name(i)}", goal.var_sort(i)) for i in range(goal.num_vars())]
        goal = z3.substitute_vars(goal.body(), *reversed(cs))
    if z3.is_implies(goal):
        b = skolemize(goal.arg(1))
        return goal if b.eq(goal.arg(1)) else z3.Implies(goal.arg(0), b)
    if z3.is_and(goal) or z3.is_or(goal):
        ch = [skolemize(c) for c in goal.children()]
        if any(not a.eq(b) for a, b in zip(ch, goal.children())):
            return z3.And(ch) if z3.is_and(goal) else z3.Or(ch)
    return goal

class Ctx:
    """A growing set of assumptions with its incremental solver."""
    def __init__(self):
        self.solver = new_solver()
        self.seen: set = set()
        self.depths: dict = {}
        self.facts: list = []
        self.dead = False
        self._keep: list = []
        self.qf = z3.Solver()          # the ground part only: quick answers for inference
        self.qf_seen: set = set()
        self.alloc0 = None
        for f in closed_facts([lit("")], self.seen, self.depths):
            self.solver.add(f)
    def add(self, e):
        if isinstance(e, bool):
            if not e:
                self.dead = True
                self.solver.add(z3.BoolVal(False))
            return
        self._keep.append(e)
        self.facts.append(e)
        self.solver.add(e)
        for f in self._ground(e, self.qf_seen):
            self.qf.add(f)
        fs = self.expand([e])
        for f in fs:
            self.solver.add(f)
            if not self._has_q(f):
                self.qf.add(f)
    def _ground(self, e, seen):
        """e itself if it has no quantifier, and ground instances of basic facts about its terms"""
        out, stack, q = [], [e], False
        while stack:
            x = stack.pop()
            if z3.is_quantifier(x):
                q = True
                continue
            if x.get_id() in seen:
                continue
            if not z3.is_app(x):
                continue
            seen.add(x.get_id())
            self._keep.append(x)
            k = x.decl().kind()
            ch = x.children()
            stack.extend(ch)
            if k == z3.Z3_OP_SELECT and self.alloc0 is not None and x.sort() == V and z3.is_const(ch[0]) and ch[0].decl().name().startswith("H0!"):
                out.append(z3.Implies(z3.And(0 <= ch[1], ch[1] < self.alloc0, V.is_ref(x)), z3.And(0 <= V.vr(x), V.vr(x) < self.alloc0)))
            elif k == z3.Z3_OP_UNINTERPRETED and x.decl().eq(slen):
                out.append(x >= 0)
            elif k == z3.Z3_OP_UNINTERPRETED and x.decl().eq(at) and self.alloc0 is not None:
                b = ch[0]
                if z3.is_select(b) and z3.is_const(b.arg(0)) and b.arg(0).decl().name().startswith("H0!"):
                    out.append(z3.Implies(z3.And(0 <= b.arg(1), b.arg(1) < self.alloc0, 0 <= ch[1], ch[1] < slen(b), V.is_ref(x)), z3.And(0 <= V.vr(x), V.vr(x) < self.alloc0)))
        if not q and not self._has_q(e):
            out.append(e)
        return out
    def _has_q(self, e):
        stack, seen = [e], set()
        while stack:
            x = stack.pop()
            if z3.is_quantifier(x):
                return True
            if x.get_id() not in seen:
                seen.add(x.get_id())
                stack.extend(x.children())
        return False
    def quick(self, goal, timeout=200):
        """True if the ground facts alone imply the goal"""
        t0 = time.time()
        self.qf.push()
        try:
            for f in self._ground(z3.Not(goal), set(self.qf_seen)):
                self.qf.add(f)
            sv = (set(self.seen), dict(self.depths))
            for f in self.expand([goal]):
                if not self._has_q(f):
                    self.qf.add(f)
            self.seen, self.depths = sv
            self.qf.set("timeout", timeout)
            return self.qf.check() == z3.unsat
        finally:
            self.qf.pop()
            STATS.solver_s += time.time() - t0
            STATS.queries += 1
    def expand(self, exprs):
        """closed facts, including facts about literals that appear in facts"""
        new = closed_facts(exprs, self.seen, self.depths)
        self._keep.extend(new)
        return new
    def check(self, *assume, timeout=None):
        t0 = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        self.solver.push()
        try:
            for a in assume:
                self.solver.add(a)
            sv = (set(self.seen), dict(self.depths))
            for f in self.expand([a for a in assume if not isinstance(a, bool)]):
                self.solver.add(f)
            self.seen, self.depths = sv
            r = self.solver.check()
        finally:
            self.solver.pop()
            if timeout:
                self.solver.set("timeout", TIMEOUT_MS)
        STATS.solver_s += time.time() - t0
        STATS.queries += 1
        return r

    def refute_eager(self, goal, timeout):
        """a second opinion from a solver that considers every atom relevant"""
        t0 = time.time()
        s = new_solver(timeout)
        s.set("relevancy", 0)
        s.add(closed_facts([lit("") == lit("")] + list(self.facts) + [z3.Not(goal)], set(), {}))
        s.add(list(self.facts))
        s.add(z3.Not(goal))
        r = s.check()
        STATS.solver_s += time.time() - t0
        STATS.queries += 1
        return r == z3.unsat
    def refute_fresh(self, goal, timeout):
        """the same question put to a solver that has not seen the earlier ones"""
        t0 = time.time()
        s = z3.Solver()
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("timeout", timeout)
        s.add(self.solver.assertions())
        s.add(z3.Not(goal))
        sv = (set(self.seen), dict(self.depths))
        s.add(self.expand([z3.Not(goal)]))
        self.seen, self.depths = sv
        r = s.check()
        STATS.solver_s += time.time() - t0
        STATS.queries += 1
        return r == z3.unsat
    def feasible(self, cond=None, timeout=1500):
        if self.dead:
            return False
        r = self.check(*([] if cond is None else [cond]), timeout=timeout)
        return r != z3.unsat

    def prove(self, goal):
        """returns (ok, backend, detail)"""
        if isinstance(goal, bool):
            if goal:
                return True, "trivial", ""
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True, "simplifier", ""
        goal = skolemize(goal)
        t0 = time.time()
        r = self.check(z3.Not(goal))
        if r == z3.unsat:
            return True, "z3", ""
        if self.refute_eager(goal, 4000):
            return True, "z3", ""
        # further attempts with fresh solvers, other seeds and unfolding depths, then cvc5
        for seed, extra in ((11, 1), (3, 0), (29, 0), (5, -1))[:4 if STATS.hard < 3 else 1]:
            s = new_solver(TIMEOUT_MS)
            s.set("random_seed", seed)
            seen, depths = set(), {}
            allf = [lit("") == lit("")] + list(self.facts) + [z3.Not(goal)]
            for name in RECFNS:
                RECFNS[name].depth += extra
            try:
                tot = list(allf)
                tot.extend(closed_facts(allf, seen, depths))
            finally:
                for name in RECFNS:
                    RECFNS[name].depth -= extra
            s.add(tot)
            t1 = time.time()
            r2 = s.check()
            STATS.solver_s += time.time() - t1
            STATS.queries += 1
            if r2 == z3.unsat:
                return True, "z3", ""
        STATS.hard += 1      # a run in which several obligations fail does not spend the full effort on each further one
        if os.environ.get("PYVC_CVC5", "1") == "1":
            if cvc5_unsat(s):
                return True, "cvc5", ""
        why = s.reason_unknown() if r2 == z3.unknown else "counter-model"
        det = f"z3: {r2} ({why}); goal: {z3.simplify(goal)}"
        try:
            m = s.model()
            det += "; candidate model: " + model_text(m)
        except z3.Z3Exception:
            pass
        return False, "none", det[:6000]

def model_text(m):
    out = []
    for d in m.decls():
        if d.arity() == 0 and not d.name().startswith("L!"):
            out.append(f"{d.name()}={m[d]}")
    return "; ".join(out)[:3000]

def cvc5_unsat(solver, timeout_s=6):
    txt = solver.to_smt2()
    if "(_ map" in txt:
        return False
    txt = "(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info"))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    t0 = time.time()
    try:
        r = subprocess.run(["cvc5", f"--tlimit={timeout_s*1000}", f.name], capture_output=True, text=True, timeout=timeout_s + 5)
        return r.stdout.strip().splitlines()[:1] == ["unsat"]
    except Exception:
        return False
    finally:
        STATS.solver_s += time.time() - t0
        os.unlink(f.name)
