"""Bounded concrete part of C03 (successful patches), C04 (failed patches) and the patch histories of C05."""
import copy, json
from .lib import *
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.exceptions import JsonPatchValidationException

class Err(Exception):
    pass

def parse_path(s):
    """RFC-like tokens of a recipe path"""
    parts = s.split("/")[1:]
    if parts and parts[-1] == "":
        parts = parts[:-1]
    return parts

def resolve(m, parts):
    """model path (typed) of tokens, all of which must exist"""
    out = ()
    cur = m
    for t in parts:
        if isinstance(cur, Di):
            p = t
        elif isinstance(cur, Li):
            if not t.isdecimal():
                raise Err("not an index")
            p = int(t)
        else:
            raise Err("scalar has no members")
        try:
            cur = get(cur, (p,))
        except KeyError:
            raise Err("missing")
        out += (p,)
    return out

def rfc_add(m, parts, value):
    """-> affected path"""
    if not parts:
        raise Err("root")
    par = resolve(m, parts[:-1])
    c = get(m, par)
    t = parts[-1]
    new = of_data(value)
    if isinstance(c, Di):
        try:
            n = entry_index(c, t)
            c.e[n] = ("k", t, new, "")
        except KeyError:
            c.e.append(("k", t, new, ""))
        return par + (t,)
    if isinstance(c, Li):
        items = [n for n, e in enumerate(c.e) if e[0] == "i"]
        if t == "-":
            c.e.append(("i", new, ""))
            return par + (len(items),)
        if not t.isdecimal() or int(t) > len(items):
            raise Err("index")
        i = int(t)
        pos = items[i] if i < len(items) else len(c.e)
        c.e.insert(pos, ("i", new, ""))
        return par + (i,)
    if isinstance(c, Sc) and c.v is None and par:
        # a key without a value may be turned into a mapping or a list (documented leniency)
        k = get(m, par[:-1])
        n = entry_index(k, par[-1])
        k.e[n] = k.e[n][:-2] + (Li([("i", new, "")]) if t == "-" else Di([("k", t, new, "")]), k.e[n][-1])
        return par + ((0,) if t == "-" else (t,))
    raise Err("parent is a scalar")

def rfc_remove(m, parts):
    if not parts:
        raise Err("root")
    p = resolve(m, parts)
    c = get(m, p[:-1])
    c.e.pop(entry_index(c, p[-1]))
    return p

def rfc_replace(m, parts, value):
    if not parts:
        raise Err("root")
    p = resolve(m, parts)
    c = get(m, p[:-1])
    n = entry_index(c, p[-1])
    c.e[n] = c.e[n][:-2] + (of_data(value), "")
    return p

def rfc(m, op):
    """apply op to a copy of m: (new model, affected path); raises Err when the RFC calls it an error"""
    m = copy.deepcopy(m)
    o, parts = op["op"], parse_path(op["path"])
    if o == "add":
        return m, rfc_add(m, parts, op["value"])
    if o == "remove":
        rfc_remove(m, parts)
        return m, None
    if o == "replace":
        return m, rfc_replace(m, parts, op["value"])
    fp = parse_path(op["from"])
    v = data(get(m, resolve(m, fp)))
    if o == "copy":
        return m, rfc_add(m, parts, v)
    if o == "move":
        if parts[:len(fp)] == fp and len(parts) > len(fp):
            raise Err("move into own child")
        if parts == fp:
            return m, ()
        rfc_remove(m, fp)
        return m, rfc_add(m, parts, v)
    raise Err("op")

def under(path, prefix):
    return path is not None and prefix is not None and path[:len(prefix)] == prefix

def compare_text(m, affected, real):
    """None, or a description of the first line that differs; comments on affected lines are not compared"""
    exp = lines(m)
    got = real.split("\n")
    # trailing blank lines are layout
    while got and got[-1] == "":
        got.pop()
    while exp and str(exp[-1]) == "":
        exp.pop()
    # containers that became empty have no agreed spelling
    for k in range(max(len(exp), len(got))):
        e = exp[k] if k < len(exp) else None
        g = got[k] if k < len(got) else None
        if e is None or g is None:
            return f"line {k}: expected {e!r}, got {g!r}"
        if g == str(e):
            continue
        if affected is not None and under(e.path, affected) and any(g == x or g.startswith(x + "  #") for x in (e.text, e.text + " null" if e.text.endswith(":") else e.text)):
            continue
        return f"line {k}: expected {str(e)!r}, got {g!r}"
    return None

def snapshot(p):
    """everything observable without assuming anything about internals"""
    return (p.render(), p.is_modified(), tuple(p.list_selectors()), tuple((s, tuple(p.get_selector_paths(s))) for s in p.list_selectors()),
            tuple(sorted(p.get_comments_table().items())), tuple(p.list_value_paths()))

def rand_value(g, depth=2, in_list=False):
    r = g.r
    x = r.random()
    if x < 0.6 or depth == 0:
        return g.scalar().v
    if x < 0.8 and not in_list:
        return [g.scalar().v for _ in range(r.randint(1, 3))]
    d = {}
    for n, k in enumerate(g.keys(r.randint(1, 3))):
        d[k] = g.scalar().v if n == 0 else rand_value(g, depth - 1)
    return d

def rand_path(g, m, kind):
    r = g.r
    allp = [p for p, _ in walk(m) if p]
    p = list(r.choice(allp or [("nope",)]))
    x = r.random()
    if kind == "add":
        li = [q for q, n in walk(m) if isinstance(n, Li)]
        di = [q for q, n in walk(m) if isinstance(n, Di)]
        if x < 0.3 and li:
            q = r.choice(li)
            n = len(data(get(m, q)))
            p = list(q) + [r.choice(["-", r.randrange(n + 1), r.randrange(n + 1)])]
        elif x < 0.6 and di:
            p = list(r.choice(di)) + [r.choice(KEYS + ["newkey"])]
    y = r.random()
    if y < 0.08:
        p.append(r.choice([0, 1, "nope", "-", "name"]))
    elif y < 0.12:
        p[-1] = r.choice([0, 7, "nope", "-", -1, "²", "01"])
    elif y < 0.14:
        p.insert(r.randrange(len(p)), r.choice(["nope", 0, 3]))
    s = "/" + "/".join(map(str, p))
    if r.random() < 0.03:
        s += "/"
    return s

def rand_op(g, m):
    r = g.r
    o = r.choice(["add", "add", "add", "remove", "replace", "replace", "move", "copy"])
    path = rand_path(g, m, "add" if o in ("add", "move", "copy") else "")
    op = {"op": o, "path": path}
    if o in ("add", "replace"):
        try:
            par = get(m, resolve(m, parse_path(path)[:-1]))
        except Err:
            par = None
        op["value"] = rand_value(g, in_list=isinstance(par, Li))
    if o in ("move", "copy"):
        op["from"] = rand_path(g, m, "")
    return op

def shape_ok(m):
    """the recipe dialect: no list directly inside a list, no empty container, first key of a list entry has a scalar value"""
    for _, n in walk(m):
        if isinstance(n, (Di, Li)) and not data(n):
            return False
        if isinstance(n, Di) and n is not m and not any(e[0] == "k" for e in n.e):
            return False
        if isinstance(n, Li):
            kinds = {type(e[1]) for e in n.e if e[0] == "i"}
            if Li in kinds:
                return False
            for e in n.e:
                if e[0] == "i" and isinstance(e[1], Di) and (not e[1].e or e[1].e[0][0] != "k" or not isinstance(e[1].e[0][2], Sc) or e[1].e[0][2].v is None):
                    return False
    return True

def make(g):
    m = g.recipe(depth=3)
    t = render(m)
    p = RecipeParser(t)
    return m, t, p

def c03(run):
    run.rule("random recipes (nested mappings, lists of scalars and of mappings, comments, selectors) x random add/remove/replace/move/copy; non-trivial when the patch reports success on a supported shape; the rendered recipe is compared line by line with the RFC 6902 effect on an independent model")
    N = run.n(700)
    g = Gen(run.rnd)
    ok = 0
    for i in range(N):
        m, t, p = make(g)
        if p.render() != t:
            continue
        for _ in range(3):
            op = rand_op(g, m)
            if op["op"] in ("move", "copy"):
                try:
                    src = get(m, resolve(m, parse_path(op["from"])))
                    if isinstance(src, Sc) and src.v is None:
                        continue        # known finding: a key without value is read as its own name
                except Err:
                    pass
            before = snapshot(p)
            caller = copy.deepcopy(op)
            try:
                res = p.patch(op)
            except Exception as e:
                run.fail(f"patch raised {type(e).__name__}: {e}", recipe=before[0], patch=caller)
                break
            run.check(op == caller, "patch altered the caller's patch", recipe=before[0], patch=caller, now=op)
            try:
                m2, aff = rfc(m, op)
                err = None
            except Err as e:
                m2, aff, err = None, None, e
            run.eval("patch:" + op["op"] + (":ok" if res else ":rejected"), (t, json.dumps(op)) if res else None, {"recipe": before[0], "patch": op, "result": res})
            if not res:
                run.check(snapshot(p) == before, "a failed patch changed the recipe", recipe=before[0], patch=op, after=p.render())
                continue
            if op["op"] == "move" and op["path"] == op["from"]:
                # a move onto itself is documented to do nothing, also where there is nothing to move
                run.check(snapshot(p) == before, "moving a path onto itself changed the recipe", recipe=before[0], patch=op, after=p.render())
                continue
            if err is not None:
                run.fail(f"patch reported success although RFC 6902 makes it an error ({err})", recipe=before[0], patch=op, after=p.render())
                break
            if not shape_ok(m2):
                break
            d = compare_text(m2, aff, p.render())
            if d:
                run.fail("the recipe differs from the RFC 6902 effect: " + d, recipe=before[0], patch=op, after=p.render())
                break
            ok += 1
            # continue the history from what is there (comments of replaced lines may differ)
            for ln, line in zip([l for l in lines(m2)], p.render().split("\n")):
                if ln.path is not None and under(ln.path, aff) and aff is not None:
                    c = line[len(ln.text):].strip()
                    try:
                        set_comment(m2, ln.path, c)
                    except KeyError:
                        pass
            m = m2
            if render(m) != p.render():
                break
            t = p.render()
    run.sections["successes compared"] = ok
