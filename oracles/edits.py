"""Bounded concrete parts of C04 (failed patches), C05 (index and flag), C06 (selector/comment edits), C07 (queries), C08 (variables)."""
import copy, json, re, hashlib
from .lib import *
from . import patches as PT
from .patches import Err, parse_path, resolve, rfc, snapshot, rand_op, rand_value, make
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.enums import SelectorConflictMode
from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
from conda_recipe_manager.parser.selector_parser import SelectorParser
from conda_recipe_manager.parser.enums import SchemaVersion

SEL = re.compile(r"\[.*\]")

# ------------------------------------------------------------------ C04
BAD_PATCHES = [
    {}, {"op": "add"}, {"path": "/a"}, {"op": "nope", "path": "/a", "value": 1}, {"op": "add", "path": "/a"}, {"op": "remove"},
    {"op": "move", "path": "/a"}, {"op": "copy", "path": "/a", "value": 3}, {"op": "add", "path": 3, "value": 1},
    {"op": "move", "path": "/a", "from": 7}, {"op": "replace", "path": "/a", "from": "/b"}, {"op": "test", "path": "/a"}, {"op": ["add"], "path": "/a", "value": 1},
    {"op": "add", "path": None, "value": 1}, {"op": "add", "path": ["a"], "value": 1}, {"op": None, "path": "/a", "value": 1}, [], "x", 3, None,
    {"op": "ADD", "path": "/a", "value": 1}, {"op": "remove", "path": "/a", "value": 2, "from": 3},
]
NASTY_PATHS = ["", "/", "//", "/-", "-", "a", "/a//b", "/0", "/-/-", "/a/-/b", "/a/-1", "/a/99999999999999999999", "/²", "/a/²", "/①", "/~0", "/~1", "/a/ 0", "/ ", "/a/0/0/0/0", "/\n", "/a/None", "/null", "/..", "0", "/a/00", "/a/0x1", "/a/1e3", "/٣"]
NASTY_VALUES = [None, True, 0, -1, 1.5, "", "a", "a: b", "- a", "#c", "a # c", "[x]", "{x", "'", '"', "%x", "@x", "`x", "&a", "*a", "!t", "|", ">", "a\nb", "\n", "\t", "{{ x }}", "${{ x }}", "yes", "1.10", "\u2028", "\x00", "\x07", "é", [], {}, [[]], [{}], {"a": {}}, {"a": []}, [[1]], [None], {"": 1}, {"a b": 1}, {"x": {"y": {"z": [1, {"q": 2}]}}}, ["a", ["b"]], [1.5, True], {"1": 2}]

def c04(run):
    run.rule("patches over random recipes: half random, half hostile (paths, values and payloads that the schema rejects or that address nothing); non-trivial when the patch fails or is rejected; rendering, modified flag, selector index, comments and paths must be as before; only True, False or JsonPatchValidationException may come back")
    g = Gen(run.rnd)
    r = run.rnd
    for i in range(run.n(700)):
        m, t, p = make(g)
        if p.render() != t:
            continue
        if r.random() < 0.5:
            p.patch({"op": "test", "path": "/", "value": 1})
        allp = [path_str(q) for q, _ in walk(m) if q]
        for _ in range(6):
            before = snapshot(p)
            x = r.random()
            if x < 0.2:
                op = copy.deepcopy(r.choice(BAD_PATCHES))
                if isinstance(op, dict) and isinstance(op.get("path"), str) and r.random() < 0.5:
                    op["path"] = r.choice(allp)
                want_exc = True
            else:
                want_exc = False
                if x < 0.5:
                    op = rand_op(g, m)
                else:
                    def np():
                        y = r.random()
                        base = r.choice(allp)
                        if y < 0.3:
                            return r.choice(NASTY_PATHS)
                        if y < 0.6:
                            return base + r.choice(["/", "/-", "/0", "/1", "/zzz", "/²", "/-1", "//", "/x/y", "/-/x", "/999999999999"])
                        if y < 0.8 and "/" in base[1:]:
                            q = base.split("/")
                            q[r.randrange(1, len(q))] = r.choice(["0", "7", "zz", "-", "²", ""])
                            return "/".join(q)
                        return base
                    o = r.choice(["add", "remove", "replace", "move", "copy", "test"])
                    op = {"op": o, "path": np()}
                    if o in ("move", "copy"):
                        op["from"] = np()
                    elif o != "remove":
                        op["value"] = copy.deepcopy(r.choice(NASTY_VALUES))
            if isinstance(op, dict) and op.get("path") == "":
                want_exc = True         # the schema asks for at least one character
            arg = copy.deepcopy(op)
            try:
                res = p.patch(arg)
                exc = None
            except Exception as e:
                res, exc = None, e
            key = (t, json.dumps(op, default=str))
            if exc is not None:
                run.eval("schema-rejected", key, {"patch": op})
                if not run.check(type(exc) is JsonPatchValidationException, f"patch raised {type(exc).__name__}: {exc}", recipe=before[0], patch=op):
                    break
                run.check(want_exc, "a patch that conforms to the schema was rejected as not conforming", recipe=before[0], patch=op)
                run.check(snapshot(p) == before, "a rejected patch changed the recipe", recipe=before[0], patch=op, after=p.render())
                continue
            run.check(not want_exc, "a patch that does not conform to the schema was accepted", recipe=before[0], patch=op)
            run.check(isinstance(res, bool), f"patch returned {res!r}", recipe=before[0], patch=op)
            if op["op"] == "test":
                run.eval("test", key, {"patch": op})
                if not run.check(snapshot(p) == before, "a test operation changed the recipe", recipe=before[0], patch=op):
                    break
                continue
            if res is False:
                run.eval("failed", key, {"recipe": t, "patch": op})
                if not run.check(snapshot(p) == before, "a failed patch changed the recipe", recipe=before[0], patch=op, after=p.render()):
                    break
                run.check(p.is_modified() or p.diff() == "", "diff of an unmodified recipe is not empty", recipe=before[0], patch=op)
            else:
                run.eval("succeeded")
                break           # the model no longer matches
    # the test operation reports equality
    for i in range(run.n(60)):
        m, t, p = make(g)
        if p.render() != t:
            continue
        start = snapshot(p)
        for q, n in walk(m):
            if not q or (isinstance(n, Sc) and n.v is None):
                continue
            v = data(n)
            if isinstance(n, Sc) and not isinstance(v, bool) and isinstance(v, str) and re.fullmatch(r"[\d.]+", v):
                continue
            other = r.choice(["zzz", 12345, None, ["zzz"], {"zzz": 1}])
            a = p.patch({"op": "test", "path": path_str(q), "value": v})
            b = p.patch({"op": "test", "path": path_str(q), "value": other})
            run.eval("test-equality", (t, q))
            run.check(a is True, "test of the value that is there reports False", recipe=t, path=path_str(q), value=v)
            run.check(b is False, "test of a different value reports True", recipe=t, path=path_str(q), value=other)
            if not run.check(p.render() == t, "a test operation changed the recipe", recipe=t, path=path_str(q)):
                break
        run.check(snapshot(p) == start, "test operations changed the recipe", recipe=t)
        run.check(p.patch({"op": "test", "path": "/nope/nope", "value": None}) is False, "test at a path that does not exist reports True", recipe=t)


# ------------------------------------------------------------------ C05
def fresh_index(p):
    """selectors and their locations, computed from the current tree by an independent walk"""
    tbl = {}
    def is_com(n):
        return n.value == type(n)._sentinel and bool(n.comment) and not n.children
    def go(n, path):
        mm = SEL.search(n.comment) if n.comment else None
        if mm:
            tbl.setdefault(mm.group(0), [])
            s = "/" + "/".join(path)
            if s not in tbl[mm.group(0)]:
                tbl[mm.group(0)].append(s)
        v = 0
        for c in n.children:
            com = is_com(c)
            if c.list_member_flag:
                go(c, path + [str(v)])
            elif (c.key_flag and not c.children and not com) or (c.children or com):
                go(c, path + [str(c.value)])
            else:
                go(c, path)
            if not com:
                v += 1
    go(p._root, [])
    return tbl

def reported_index(p):
    return {s: p.get_selector_paths(s) for s in p.list_selectors()}

def has_comment_selectors(p):
    """full-line comments that hold a selector have no path of their own; they are not part of the comparison"""
    return any(l.strip().startswith("#") and SEL.search(l) for l in p.render().split("\n"))

def rand_edit(g, p, m):
    """(name, thunk, args)"""
    r = g.r
    paths = [path_str(q) for q, _ in walk(m) if q] + ["/nope", "/nope/0", "/"]
    x = r.random()
    if x < 0.4:
        op = rand_op(g, m)
        return "patch", (lambda: p.patch(copy.deepcopy(op))), op
    if x < 0.6:
        a = (r.choice(paths), r.choice(SELECTORS + ["osx", "", "[]"]), r.choice(list(SelectorConflictMode)))
        if r.random() < 0.3:
            try:
                sp = SelectorParser(a[1], SchemaVersion.V0)
                return "add_selector", (lambda: p.add_selector(a[0], sp, a[2])), a
            except Exception:
                pass
        return "add_selector", (lambda: p.add_selector(*a)), a
    if x < 0.75:
        a = (r.choice(paths),)
        return "remove_selector", (lambda: p.remove_selector(*a)), a
    if x < 0.9:
        a = (r.choice(paths), r.choice(["note", "# note", "  # padded  ", "", "   ", "[osx]", "see [1]", "# ref [osx] x", "a#b"]))
        return "add_comment", (lambda: p.add_comment(*a)), a
    if x < 0.96:
        a = (r.choice(["name", "version", "x1"]), r.choice(["1.2.3", 4, "foo", True]))
        return "set_variable", (lambda: p.set_variable(*a)), a
    a = (r.choice(["name", "version", "x1", "x2"]),)
    return "del_variable", (lambda: p.del_variable(*a)), a

def model_of(p):
    """re-derive a data model of the current recipe for choosing paths; only a heuristic for the generator"""
    try:
        d = p.render_to_object()
        return of_data(d)
    except Exception:
        return None

def c05(run):
    run.rule("random edit histories (patches, selector, comment and variable edits, valid and invalid) on random recipes; after every step the reported selectors and locations are compared with an independent walk of the tree, and the modified flag with what the step did; non-trivial when the step succeeded")
    g = Gen(run.rnd, jinja=["name", "version"])
    r = run.rnd
    for i in range(run.n(450)):
        m = g.recipe(depth=3)
        t = render(m, {"name": "foo", "version": "1.2.3"} if r.random() < 0.6 else None)
        p = RecipeParser(t)
        hist = []
        # reading does not modify
        run.check(not p.is_modified() and p.diff() == "", "a freshly read recipe is modified or has a diff", recipe=t)
        for k in range(r.randint(1, 7)):
            mm = model_of(p) or m
            name, f, args = rand_edit(g, p, mm)
            hist.append((name, repr(args)))
            was = p.is_modified()
            txt, vars0 = p.render(), p.list_variables()
            res, e = quiet_call(f)
            now = p.render()
            case = dict(recipe=t, history=hist, after=now)
            key = (t, tuple(hist))
            if e is not None:
                run.eval(name + ":raised")
                run.check(isinstance(e, (KeyError, ValueError)) and name in ("add_selector", "remove_selector", "add_comment"), f"{name} raised {type(e).__name__}: {e}", **case)
                run.check(now == txt and p.is_modified() == was, f"{name} raised but changed the recipe or its modified flag", **case)
            elif name == "patch" and res is False:
                run.eval("patch:failed", key)
                run.check(now == txt and p.is_modified() == was, "a failed patch changed the recipe or its modified flag", **case)
            elif name == "patch":
                run.eval("patch:ok", key, {"recipe": t, "history": hist})
                same = args["op"] == "move" and parse_path(args["path"]) == parse_path(args["from"])
                run.check(p.is_modified() or (same and now == txt), "a successful patch did not flag the recipe as modified", **case)
                run.check(not same or (now == txt and p.is_modified() == was), "moving a path onto itself changed the recipe", **case)
            elif name == "remove_selector" and res is None:
                run.eval("remove_selector:none", key)
                run.check(now == txt and p.is_modified() == was, "removing a selector that is not there changed the recipe", **case)
            elif name == "del_variable" and args[0] not in vars0:
                run.eval("del_variable:none", key)
                run.check(now == txt and p.is_modified() == was, "deleting an unknown variable changed the recipe", **case)
            else:
                run.eval(name + ":ok", key, {"recipe": t, "history": hist})
                run.check(p.is_modified(), f"{name} did not flag the recipe as modified", **case)
            if not p.is_modified():
                run.check(p.diff() == "", "diff of an unmodified recipe is not empty", **case)
                run.check(now == txt, "the recipe changed without being flagged as modified", **case)
            if has_comment_selectors(p):
                break   # a list entry whose only key was removed leaves its comment behind on a line of its own
            rep = reported_index(p)
            try:
                want = fresh_index(p)
            except AttributeError:
                want = None
            if want is not None:
                strip = lambda d: {k: [x for x in v if "object at 0x" not in x and "Sentinel" not in x] for k, v in d.items()}
                if not run.check(strip(rep) == strip(want) and list(rep) == list(want), "the selector index differs from the tree", reported=rep, present=want, **case):
                    break
            # black box: the selectors of every rendered line are indexed
            for s in rep:
                run.check(p.contains_selector(s), "list_selectors and contains_selector disagree", selector=s, **case)
            for q in [x for x, _ in walk(mm) if x][:12]:
                ps = path_str(q)
                if p.contains_value(ps) and p.contains_selector_at_path(ps):
                    s = p.get_selector_at_path(ps)
                    run.check(ps in p.get_selector_paths(s), "a selector at a path is missing from the index", path=ps, selector=s, **case)
            # queries leave the flag alone
            was = p.is_modified()
            p.list_value_paths(); p.get_comments_table(); p.search("foo"); p.find_value("foo"); p.calc_sha256(); p.diff(); quiet_call(p.render_to_object)
            run.check(p.is_modified() == was, "a query changed the modified flag", **case)
            if run.failures:
                break

# ------------------------------------------------------------------ C06
def line_path(m, q):
    """path of the line on which the value at q starts"""
    n = get(m, q)
    if isinstance(get(m, q[:-1]), Li) and isinstance(n, Di):
        for e in n.e:
            if e[0] == "k":
                return q + (e[1],)
    return q

def norm(s):
    return " ".join(s.split())

def c06(run):
    run.rule("random recipes x random add_selector / remove_selector / add_comment calls on every kind of line; the whole rendered text is compared with an independent model in which only the comment of the addressed line changes; non-trivial when the call succeeded")
    g = Gen(run.rnd)
    r = run.rnd
    for i in range(run.n(700)):
        m, t, p = make(g)
        if p.render() != t:
            continue
        for step in range(4):
            qs = [q for q, n in walk(m) if q]
            q = r.choice(qs)
            ps = path_str(q)
            lp = line_path(m, q)
            old = comment_of(m, lp)
            f = SEL.search(old)
            osel = f.group(0) if f else None
            rest = norm(old.replace(osel, "") if osel else old).lstrip("# ").strip() if old else ""
            if osel:
                rest = norm(old.replace(osel, "")).lstrip("#").strip()
            else:
                rest = old[1:].strip() if old else ""
            before = p.render()
            x = r.random()
            if x < 0.08:
                # refused calls
                kind = r.randrange(5)
                calls = [(lambda: p.add_selector("/nope/x", "[osx]"), KeyError), (lambda: p.add_selector(ps, r.choice(["osx", "", "osx]", "x [osx]"])), ValueError),
                         (lambda: p.remove_selector(ps + "/nope"), KeyError), (lambda: p.add_comment("/nope", "c"), KeyError),
                         (lambda: p.add_comment(ps, r.choice(["", "  ", "\t", "[osx]", " [win] "])), ValueError)]
                was = p.is_modified(), reported_index(p)
                _, e = quiet_call(calls[kind][0])
                run.eval("refused", (t, ps, kind))
                run.check(isinstance(e, calls[kind][1]), f"expected {calls[kind][1].__name__}, got {e!r}", recipe=before, path=ps, call=kind)
                run.check(p.render() == before and (p.is_modified(), reported_index(p)) == was, "a refused edit changed the recipe", recipe=before, path=ps, call=kind)
                continue
            if x < 0.5:
                sel = r.choice(SELECTORS)
                mode = r.choice(list(SelectorConflictMode))
                call = f"add_selector({ps!r}, {sel!r}, {mode})"
                use_obj = r.random() < 0.25
                p.add_selector(ps, SelectorParser(sel, SchemaVersion.V0) if use_obj else sel, mode)
                if use_obj:
                    sel = SelectorParser(sel, SchemaVersion.V0).render()
                if mode == SelectorConflictMode.REPLACE or not old:
                    want = [f"# {sel}"]
                elif osel:
                    c = f"# [{osel[1:-1]} {'and' if mode == SelectorConflictMode.AND else 'or'} {sel[1:-1]}]"
                    want = [c, (c + " " + rest).strip()]
                else:
                    want = [f"# {sel} {rest}"]
            elif x < 0.75:
                call = f"remove_selector({ps!r})"
                res = p.remove_selector(ps)
                run.check(res == osel, "remove_selector returned something else than the selector of the line", recipe=before, call=call, returned=res, selector=osel)
                want = [f"# {rest}" if rest else ""] if osel else [old]
            else:
                c = r.choice(["note", "# other note", "  padded  ", "#tight", "a # b"])
                call = f"add_comment({ps!r}, {c!r})"
                p.add_comment(ps, c)
                body = c.strip()
                if osel:
                    body = body[1:].strip() if body[0] == "#" else body
                    want = [f"# {osel} {body}"]
                else:
                    want = [body if body[0] == "#" else f"# {body}"]
            got = p.render()
            run.eval(call.split("(")[0], (t, call), {"recipe": before, "call": call})
            m2 = copy.deepcopy(m)
            hit = None
            for w in want:
                set_comment(m2, lp, w)
                if "\n".join(map(norm, render(m2).split("\n"))) == "\n".join(map(norm, got.split("\n"))):
                    hit = w
                    break
            if not run.check(hit is not None, "the comment edit did something else than to change the addressed line's comment as specified", recipe=before, call=call, expected_comment=want, after=got):
                break
            m = m2
            # what is reported agrees
            f = SEL.search(hit)
            run.check(p.contains_selector_at_path(ps) == bool(f), "contains_selector_at_path disagrees with the line", recipe=before, call=call)
            if f:
                run.check(p.get_selector_at_path(ps) == f.group(0), "get_selector_at_path disagrees with the line", recipe=before, call=call)
                run.check(ps in p.get_selector_paths(f.group(0)), "get_selector_paths misses the edited line", recipe=before, call=call)
            line_rest = norm(hit.replace(f.group(0), "") if f else hit)
            tbl = p.get_comments_table()
            have = tbl.get(ps)
            if line_rest in ("", "#"):
                run.check(have is None, "get_comments_table reports a comment that is not there", recipe=before, call=call, reported=have)
            else:
                run.check(have is not None and norm(have).lstrip("# ") == line_rest.lstrip("# "), "get_comments_table misses the comment of the edited line", recipe=before, call=call, reported=have, after=got)
            q2 = RecipeReader(got)
            run.check(q2.render() == got and q2.render_to_object() == p.render_to_object() if quiet_call(q2.render_to_object)[1] is None else True,
                      "a comment edit changed the data", recipe=before, call=call, after=got)

# ------------------------------------------------------------------ C07
def queries(p, m, r):
    paths = [path_str(q) for q, _ in walk(m) if q] + ["/", "/nope", "", "/0"]
    vars_ = p.list_variables() + ["nope"]
    sels = p.list_selectors() + ["[nope]"]
    q = [("render", lambda: p.render()), ("render_to_object", lambda: p.render_to_object()), ("render_to_object(sub)", lambda: p.render_to_object(replace_variables=True)),
         ("list_value_paths", lambda: p.list_value_paths()), ("list_variables", lambda: p.list_variables()), ("list_selectors", lambda: p.list_selectors()),
         ("get_comments_table", lambda: p.get_comments_table()), ("calc_sha256", lambda: p.calc_sha256()), ("get_package_paths", lambda: p.get_package_paths()),
         ("get_dependency_paths", lambda: p.get_dependency_paths()), ("is_multi_output", lambda: p.is_multi_output()), ("get_recipe_name", lambda: p.get_recipe_name()),
         ("str", lambda: str(p)), ("get_schema_version", lambda: p.get_schema_version()), ("is_modified", lambda: p.is_modified()), ("eq", lambda: p == p)]
    if hasattr(p, "diff"):
        q.append(("diff", lambda: p.diff()))
    for s in r.sample(sels, min(len(sels), 3)):
        q.append((f"get_selector_paths({s})", lambda s=s: p.get_selector_paths(s)))
        q.append((f"contains_selector({s})", lambda s=s: p.contains_selector(s)))
    for v in r.sample(vars_, min(len(vars_), 2)):
        q += [(f"get_variable({v})", lambda v=v: p.get_variable(v, ["d"])), (f"contains_variable({v})", lambda v=v: p.contains_variable(v)),
              (f"get_variable_references({v})", lambda v=v: p.get_variable_references(v))]
    for x in r.sample(paths, min(len(paths), 6)):
        q += [(f"get_value({x})", lambda x=x: p.get_value(x, "dflt")), (f"get_value({x},sub)", lambda x=x: p.get_value(x, "dflt", sub_vars=True)),
              (f"contains_value({x})", lambda x=x: p.contains_value(x)), (f"contains_selector_at_path({x})", lambda x=x: p.contains_selector_at_path(x)),
              (f"get_selector_at_path({x})", lambda x=x: p.get_selector_at_path(x, "[dflt]"))]
    for v in [r.choice(WORDS), True, None, 7]:
        q.append((f"find_value({v!r})", lambda v=v: p.find_value(v)))
    for rx in ["foo", "[0-9]+", "osx"]:
        q += [(f"search({rx})", lambda rx=rx: p.search(rx)), (f"search({rx},c)", lambda rx=rx: p.search(rx, True))]
    if hasattr(p, "get_all_dependencies"):
        q += [("get_all_dependencies", lambda: p.get_all_dependencies()), ("get_package_names_to_path", lambda: p.get_package_names_to_path())]
    r.shuffle(q)
    return q

def freeze(x):
    """the whole content of x as text, without object identities"""
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(freeze, x)) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(freeze(k) + ":" + freeze(v) for k, v in x.items()) + "}"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(map(freeze, x))) + "}"
    if isinstance(x, SelectorParser):
        return "SelectorParser:" + str(x)
    if type(x).__name__ == "DependencyVariable" or " object at 0x" in repr(x):
        return type(x).__name__ + ":" + ",".join(f"{k}={freeze(v)}" for k, v in sorted(vars(x).items())) if hasattr(x, "__dict__") else re.sub(" object at 0x[0-9a-f]+", "", repr(x))
    return repr(x)

def spoil(x):
    """alter a returned value in place"""
    try:
        if isinstance(x, list):
            for y in x:
                if isinstance(y, (list, dict)):
                    spoil(y)
            x.reverse(); x.append("spoiled"); x[:1] = []
        elif isinstance(x, dict):
            for y in x.values():
                if isinstance(y, (list, dict)):
                    spoil(y)
            x["spoiled"] = 1
        elif isinstance(x, set):
            x.clear()
    except Exception:
        pass

def attempt(f):
    v, e = quiet_call(f)
    return v, (freeze(v) if e is None else f"{type(e).__name__}: {e}")

FULL = """{{% set name = "foo" %}}
{{% set version = "1.2.3" %}}
{{% set items = [1, 2, 3] %}}

package:
  name: {{{{ name|lower }}}}
  version: {{{{ version }}}}

build:
  number: 0  # [osx]
  skip: true  # [win]  # note
  script:
    - echo {{{{ name }}}}  # [linux]

requirements:
  host:
    - python  # [osx]
    - pip
  run:
    # a comment
    - python >=3.8
    - {{{{ name }}}} =1.*  # [not win]
{extra}
about:
  summary: |
    some long text
    over lines
  license: MIT
"""
OUT = """
outputs:
  - name: out-a
    requirements:
      run:
        - zlib  # [win]
  - name: out-b
    test:
      commands:
        - foo --help
"""

def c07(run):
    from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
    from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
    run.rule("random recipes, fixed realistic recipes and recipes after random edits x all queries in random order; every query is run, its returned value altered in place, then it is run again; rendering, index, flag and every other query must be as before")
    g = Gen(run.rnd, jinja=["name", "version"])
    r = run.rnd
    for i in range(run.n(260)):
        x = r.random()
        if x < 0.25:
            t = FULL.format(extra=OUT if r.random() < 0.5 else "")
            m = of_data({"package": {"name": "x", "version": "y"}, "build": {"number": 0, "skip": True, "script": ["x"]}, "requirements": {"host": ["a", "b"], "run": ["a", "b"]}, "about": {"summary": "s"}})
        else:
            m = g.recipe(depth=3)
            t = render(m, {"name": "foo", "version": "1.2.3"} if r.random() < 0.6 else None)
        p = r.choice([RecipeReader, RecipeReaderDeps, RecipeParserDeps, RecipeParser])(t)
        if isinstance(p, RecipeParser) and r.random() < 0.5:
            for _ in range(2):
                quiet_call(rand_edit(g, p, m)[1])
        base = {}
        qs = queries(p, m, r)
        order = []
        for name, f in qs:
            v, s = attempt(f)
            base[name] = s
            order.append(name)
            spoil(v)
        r.shuffle(qs)
        for name, f in qs:
            v, s = attempt(f)
            run.eval("query", (t, name), {"recipe": t, "query": name, "result": s[:200]})
            if not run.check(s == base[name], f"{name} returned something else the second time", recipe=t, first=base[name], second=s, order=order):
                break
            spoil(v)
        # a second, untouched reader agrees (nothing was spoiled before the first answer either)
        if not (isinstance(p, RecipeParser) and p.is_modified()):
            p2 = type(p)(t)
            for name, f in (("render", lambda z: z.render()), ("list_selectors", lambda z: {s: z.get_selector_paths(s) for s in z.list_selectors()}), ("list_variables", lambda z: [(v, z.get_variable(v)) for v in z.list_variables()]),
                            ("list_value_paths", lambda z: z.list_value_paths()), ("object", lambda z: quiet_call(z.render_to_object)[0]), ("comments", lambda z: z.get_comments_table())):
                run.check(freeze(f(p)) == freeze(f(p2)), f"after the queries, {name} differs from that of a fresh reader", recipe=t, used=f(p), fresh=f(p2))

# ------------------------------------------------------------------ C08
def c08(run):
    run.rule("random histories of set/delete/lookup on recipes with 0-4 initial variables, against an insertion-ordered map; rendered text must start with one set line per variable in that order; non-trivial when the history changes the map")
    g = Gen(run.rnd, jinja=["name", "version", "alpha"])
    r = run.rnd
    NAMES = ["name", "version", "alpha", "beta_2", "_x", "sha256"]
    VALS = ["foo", "1.2.3", 4, True, 2.5, "a b", "x-y_z", None, [1, 2], "0"]
    for i in range(run.n(500)):
        m = g.recipe(depth=2)
        init = {}
        for n in r.sample(NAMES, r.randint(0, 4)):
            init[n] = r.choice(["foo", "1.2.3", 4, True, "a b"])
        t = render(m, init)
        tree = render(m)
        cls = r.choice([RecipeParser, RecipeParser])
        p = cls(t)
        model = dict(init)
        hist = []
        for k in range(r.randint(1, 8)):
            n = r.choice(NAMES)
            if r.random() < 0.6:
                v = copy.deepcopy(r.choice(VALS))
                hist.append(("set", n, v))
                p.set_variable(n, v)
                model[n] = v
            else:
                hist.append(("del", n))
                was = p.is_modified(), p.render()
                p.del_variable(n)
                if n not in model:
                    run.check((p.is_modified(), p.render()) == was, "deleting an unknown variable changed the recipe", recipe=t, history=hist)
                model.pop(n, None)
            case = dict(recipe=t, history=list(hist))
            run.eval("history", (t, repr(hist)), case)
            run.check(p.list_variables() == list(model), "list_variables differs from the ordered map", got=p.list_variables(), want=list(model), **case)
            for v in NAMES + ["nope"]:
                run.check(p.contains_variable(v) == (v in model), "contains_variable differs from the map", var=v, **case)
                d = object.__new__(object)
                for dflt in ("dflt", None, False, 0, [], ""):
                    x, e = quiet_call(p.get_variable, v, dflt)
                    want = model.get(v, dflt)
                    run.check(e is None and type(x) is type(want) and x == want, "get_variable with a default differs from the map", var=v, default=dflt, got=repr(x), error=repr(e), **case)
                x, e = quiet_call(p.get_variable, v)
                run.check((e is None and x == model[v]) if v in model else isinstance(e, KeyError), "get_variable differs from the map", var=v, got=repr(x), error=repr(e), **case)
                if v not in model:
                    run.check(p.get_variable_references(v) == [], "references of an unknown variable are not empty", var=v, **case)
            txt = p.render().split("\n")
            want = ["{%% set %s = %s %%}" % (k, f'"{v}"' if isinstance(v, str) else v) for k, v in model.items()]
            nset = len(model)
            run.check(txt[:nset] == want, "the rendered set lines differ from the variables", got=txt[:nset + 1], want=want, **case)
            body = txt[nset + 1:] if nset else txt
            run.check("\n".join(body) == tree and (not nset or txt[nset] == ""), "the tree is not rendered unchanged after the set lines", got="\n".join(txt), **case)
            if run.failures:
                return
