"""Bounded concrete parts of C09 (dependency edits) and C10 (dependency map)."""
import copy, json, re
from .lib import *
from .patches import compare_text, snapshot
from .edits import SEL, norm
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.dependency import (Dependency, DependencyConflictMode as Mode, DependencySection, dependency_data_from_str,
                                                    dependency_section_to_str, str_to_dependency_section, dependency_data_render_as_str)
from conda_recipe_manager.parser.enums import SelectorConflictMode as SelMode, SchemaVersion
from conda_recipe_manager.parser.selector_parser import SelectorParser

SECTIONS = {"build": "BUILD", "host": "HOST", "run": "RUN", "run_constrained": "RUN_CONSTRAINTS", "run_constraints": "RUN_CONSTRAINTS", "run_exports": "RUN_EXPORTS", "requires": "TESTS"}
PKGS = ["python", "numpy", "zlib", "pip", "foo-bar", "lib.x", "{{ compiler('c') }}", "openssl", "{{ pin_subpackage('x') }}"]

def dep_text(r, name=None):
    n = name or r.choice(PKGS)
    if n.startswith("{{"):
        return n
    return n + r.choice(["", "", " >=1.2", " 3.10.*", " >=1.0,<2.0a0", " ==1.2.3 h1_0"])

def dep_name(s):
    return s if "{{" in s else s.split()[0]

def section(r, g, lo=0):
    """a section child: a list of requirement lines, or no value"""
    n = r.randint(lo, 5)
    if n == 0:
        return Sc(None)
    li = Li()
    for _ in range(n):
        if r.random() < 0.2:
            li.e.append(("c", r.choice(COMMENTS)))
        li.e.append(("i", Sc(dep_text(r)), g.comment(0.4)))
    return li

def requirements(r, g, v1=False, junk=True, lo=0):
    di = Di()
    names = ["build", "host", "run", "run_constraints" if v1 else "run_constrained"] + (["run_exports"] if v1 else [])
    for s in r.sample(names, r.randint(0, len(names))):
        di.e.append(("k", s, section(r, g, lo), g.comment(0.15)))
    if junk and r.random() < 0.25:
        di.e.insert(r.randint(0, len(di.e)), ("k", r.choice(["junk", "extras", "ignore_run_exports"]), Li([("i", Sc(dep_text(r)), "")]), ""))
    return di if di.e else Sc(None)

def recipe(r, g, v1=False, multi=None, lo=0):
    m = Di()
    multi = r.random() < 0.5 if multi is None else multi
    if v1:
        m.e.append(("k", "schema_version", Sc(1), ""))
        m.e.append(("k", "recipe" if multi else "package", Di([("k", "name", Sc("root-pkg"), ""), ("k", "version", Sc("1.2.3"), "")]), ""))
    else:
        m.e.append(("k", "package", Di([("k", "name", Sc("root-pkg"), ""), ("k", "version", Sc("1.2.3"), "")]), ""))
    m.e.append(("k", "build", Di([("k", "number", Sc(0), "")]), ""))
    if r.random() < 0.8:
        m.e.append(("k", "requirements", requirements(r, g, v1, lo=lo), ""))
    if multi:
        li = Li()
        for i in range(r.randint(1, 3)):
            o = Di()
            nm = ("k", "name", Sc(f"out-{i}"), "")
            if v1:
                # the first key of a list entry has a scalar value in the recipe dialect
                o.e.append(("k", "cache", Sc("x"), ""))
                o.e.append(("k", "package", Di([nm]), ""))
            else:
                o.e.append(nm)
            if r.random() < 0.85:
                o.e.append(("k", "requirements", requirements(r, g, v1, lo=lo), ""))
            if r.random() < 0.2:
                li.e.append(("c", "# an output"))
            li.e.append(("i", o, ""))
        m.e.append(("k", "outputs", li, ""))
    m.e.append(("k", "about", Di([("k", "summary", Sc("text"), "")]), ""))
    return m

VALID = re.compile(r"/requirements/([^/]+)/(\d+)|/outputs/(\d+)/requirements/([^/]+)/(\d+)")

def c09(run):
    run.rule("random recipes (single and multi output, empty and missing sections, comments, selectors) x dependency, conflict mode, selector mode and path (valid, malformed, missing parts); rendered text compared line by line with an independent model of the mode; non-trivial when the call reports a change")
    r = run.rnd
    g = Gen(r)
    for sch, names in ((SchemaVersion.V0, {"BUILD": "build", "HOST": "host", "RUN": "run", "RUN_CONSTRAINTS": "run_constrained", "RUN_EXPORTS": "run_exports", "TESTS": "requires"}),
                       (SchemaVersion.V1, {"BUILD": "build", "HOST": "host", "RUN": "run", "RUN_CONSTRAINTS": "run_constraints", "RUN_EXPORTS": "run_exports", "TESTS": "requires"})):
        for s in DependencySection:
            t = dependency_section_to_str(s, sch)
            run.eval("section names", (sch, s))
            run.check(t == names[s.name] and str_to_dependency_section(t) is s and str_to_dependency_section(f" {t.upper()} ") is s, "a section name does not convert consistently", section=s.name, schema=str(sch), text=t)
    for t in ("", "junk", "runs", "run constrained", "test", "tests", "requirements"):
        run.check(str_to_dependency_section(t) is None, "an unknown section name is recognised", text=t)
    for i in range(run.n(900)):
        m = recipe(r, g)
        t = render(m)
        p = RecipeParserDeps(t)
        if not run.check(p.render() == t, "a simple recipe does not render as it was read", recipe=t, got=p.render()):
            return
        for step in range(3):
            prefix = "" if r.random() < 0.6 else f"/outputs/{r.randrange(4)}"
            sec = r.choice(["build", "host", "run", "run", "run_constrained"])
            idx = r.choice([0, 0, 1, 2, 3, 7])
            path = f"{prefix}/requirements/{sec}/{idx}"
            x = r.random()
            if x < 0.1:
                path = r.choice([path + "/x", path[1:], f"{prefix}/requirements/{sec}", f"{prefix}/requirements/{sec}/-", f"{prefix}/requirements/{sec}/²", f"{prefix}/requirements/{sec}/-1", f"{prefix}/requirements/nope/0",
                                 f"{prefix}/about/{sec}/0", f"/outputs/x/requirements/{sec}/0", "", "/", f"/outputs//requirements/{sec}/0", f"{prefix}/requirements/{sec}/", "x" + path])
            before = snapshot(p)
            cur = m
            if x > 0.85:
                # removal
                name = dep_text(r)
                d = Dependency("root-pkg", path, DependencySection.RUN, dependency_data_from_str(name))
                res, e = quiet_call(p.remove_dependency, d)
                run.check(e is None and isinstance(res, bool), f"remove_dependency raised {e!r}", recipe=before[0], path=path)
                parts = path.split("/")[1:]
                try:
                    q = tuple(int(z) if z.isdecimal() else z for z in parts)
                    par = get(m, q[:-1])
                    ok = isinstance(par, Li) and VALID.fullmatch(path)
                    ok = ok and isinstance(q[-1], int) and q[-1] < len(data(par))
                except (KeyError, IndexError):
                    ok = False
                run.eval("remove:" + str(bool(ok)), (t, path) if ok else None, {"recipe": before[0], "remove": path})
                if not VALID.fullmatch(path) and res:
                    break           # removing something that is no dependency is an ordinary patch
                if not run.check(res is bool(ok), "remove_dependency reports the wrong result", recipe=before[0], path=path, got=res, want=bool(ok)):
                    break
                if not ok:
                    run.check(snapshot(p) == before, "a refused removal changed the recipe", recipe=before[0], path=path)
                    continue
                m2 = copy.deepcopy(m)
                par = get(m2, q[:-1])
                par.e.pop(entry_index(par, q[-1]))
                if not data(par):
                    break           # an emptied list has no agreed spelling
                dd = compare_text(m2, None, p.render())
                if not run.check(dd is None, f"removal did something else than to remove the entry: {dd}", recipe=before[0], path=path, after=p.render()):
                    break
                m = m2
                continue
            name = dep_text(r)
            mode, smode = r.choice(list(Mode)), r.choice(list(SelMode))
            sel = r.choice([None, None] + SELECTORS)
            so = SelectorParser(sel, SchemaVersion.V0) if sel else None
            d = Dependency("root-pkg", path, DependencySection.RUN, dependency_data_from_str(name), so)
            call = f"add_dependency({name!r} at {path}, {mode.name}, {smode.name}, selector={sel})"
            res, e = quiet_call(p.add_dependency, d, mode, smode)
            if not run.check(e is None and isinstance(res, bool), f"add_dependency raised {type(e).__name__}: {e}", recipe=before[0], call=call):
                break
            run.check(dependency_data_render_as_str(d.data) == name, "the dependency itself was altered", call=call)
            # the model
            m2, aff, old = copy.deepcopy(m), None, ""
            mt = VALID.fullmatch(path)
            ok = bool(mt) and (mt.group(1) or mt.group(4)) in SECTIONS
            if ok:
                q = tuple(int(z) if z.isdecimal() else z for z in path.split("/")[1:])
                try:
                    par = get(m2, q[:-2])
                except KeyError:
                    ok = False
            if ok:
                secm = None
                if isinstance(par, Di):
                    try:
                        secm = get(par, q[-2:-1])
                    except KeyError:
                        secm = None
                items = data(secm) if isinstance(secm, Li) else []
                same_name = [k for k, v in enumerate(items) if dep_name(v) == dep_name(name)]
                def append():
                    if secm is None:
                        new = ("k", q[-2], Li([("i", Sc(name), "")]), "")
                        if isinstance(par, Sc):
                            pp = get(m2, q[:-3])
                            n = entry_index(pp, q[-3])
                            pp.e[n] = pp.e[n][:-2] + (Di([new]), pp.e[n][-1])
                        else:
                            par.e.append(new)
                        return q[:-1]
                    if isinstance(secm, Sc):
                        n = entry_index(par, q[-2])
                        par.e[n] = par.e[n][:-2] + (Li([("i", Sc(name), "")]), par.e[n][-1])
                        return q[:-1] + (0,)
                    secm.e.append(("i", Sc(name), ""))
                    return q[:-1] + (len(items),)
                if mode == Mode.EXACT_POSITION:
                    ok = q[-1] < len(items)
                    if ok:
                        n = entry_index(secm, q[-1])
                        old = secm.e[n][2]
                        secm.e[n] = ("i", Sc(name), "")
                        aff = q
                elif mode == Mode.USE_BOTH or not same_name:
                    aff = append()
                elif mode == Mode.IGNORE:
                    ok = False
                else:
                    n = entry_index(secm, same_name[0])
                    old = secm.e[n][2]
                    secm.e[n] = ("i", Sc(name), "")
                    aff = q[:-1] + (same_name[0],)
            run.eval(f"add:{mode.name}:{ok}", (t, call) if ok else None, {"recipe": before[0], "call": call})
            if not run.check(res is ok, "add_dependency reports the wrong result", recipe=before[0], call=call, got=res, want=ok, after=p.render()):
                break
            if not ok:
                if not run.check(snapshot(p) == before, "a refused add changed the recipe", recipe=before[0], call=call, after=p.render()):
                    break
                continue
            dd = compare_text(m2, aff, p.render())
            if not run.check(dd is None, f"add_dependency did something else than the mode says: {dd}", recipe=before[0], call=call, after=p.render()):
                break
            line = aff if len(aff) and isinstance(aff[-1], int) else aff + (0,)
            f = SEL.search(old)
            osel = f.group(0) if f else None
            # what is on a new line is the given selector; on a replaced line the two selectors are combined as asked
            if sel and (smode == SelMode.REPLACE or not osel):
                want = sel
            elif sel:
                want = f"[{osel[1:-1]} {'and' if smode == SelMode.AND else 'or'} {sel[1:-1]}]"
            else:
                want = osel if smode != SelMode.REPLACE else None
            got = p.get_selector_at_path(path_str(line), "[none]")
            run.check(got == (want or "[none]"), "the dependency line carries another selector than asked for", recipe=before[0], call=call, got=got, want=want, after=p.render())
            sec_line = p.get_selector_at_path(path_str(line[:-1]), "[none]")
            oldc = ""
            try:
                oldc = comment_of(m, line[:-1])
            except (KeyError, AttributeError):
                pass
            f = SEL.search(oldc)
            run.check(sec_line == (f.group(0) if f else "[none]"), "the selector of the section changed", recipe=before[0], call=call, after=p.render())
            # continue from what is there
            for ln, text in zip(lines(m2), p.render().split("\n")):
                if ln.path is not None and ln.path[:len(aff)] == aff:
                    c = text[len(ln.text):].strip()
                    try:
                        set_comment(m2, ln.path, c)
                    except KeyError:
                        pass
            m = m2
            if render(m) != p.render():
                break
            t = p.render()
        if run.failures:
            break

# ------------------------------------------------------------------ C10
def c10(run):
    run.rule("random V0 and V1 recipes (single and multi output, junk sections, blank and null requirements, empty sections, selectors, variables) against an independent map built from the model; non-trivial when the recipe has requirements")
    r = run.rnd
    g = Gen(r)
    for i in range(run.n(900)):
        v1 = r.random() < 0.3
        m = recipe(r, g, v1)
        multi = any(e[1] == "outputs" for e in m.e)
        # blanks and variables
        for q, n in list(walk(m)):
            if isinstance(n, Li) and len(q) > 1 and q[-2] == "requirements":
                if v1:
                    # in the V1 format conditions are no comments
                    n.e = [e[:-1] + ("",) if e[0] == "i" else e for e in n.e]
                    n.e = [("i", Sc(e[1].v.replace("{{", "${{")), "") if e[0] == "i" else e for e in n.e]
                for k in range(len(n.e) - 1, -1, -1):
                    if r.random() < 0.12 and n.e[k][0] == "i":
                        n.e.insert(k, ("i", Sc(r.choice([None, '""', '"  "'])), ""))
                    elif r.random() < 0.15 and n.e[k][0] == "i":
                        n.e[k] = ("i", Sc(("${{" if v1 else "{{") + " name }}" + r.choice(["", " >=1.0"])), n.e[k][2])
        vs = {"name": "vname"} if not v1 else None
        t = render(m, vs)
        if v1:
            t = "context:\n  name: vname\n\n" + t
        p = r.choice([RecipeReaderDeps, RecipeParserDeps])(t)
        names = {(): "root-pkg"}
        # faults
        x = r.random()
        outs = get(m, ("outputs",)) if multi else None
        want_err = None
        root_key = "recipe" if (v1 and multi) else "package"
        if x < 0.08 and multi:
            dup = r.choice([e for e in outs.e if e[0] == "i"])
            k = "out-0" if r.random() < 0.5 and sum(e[0] == "i" for e in outs.e) > 1 and dup is not [e for e in outs.e if e[0] == "i"][0] else "root-pkg"
            tgt = dup[1] if not v1 else get(dup[1], ("package",))
            nm = entry_index(tgt, "name")
            tgt.e[nm] = ("k", "name", Sc(k), "")
            want_err = ValueError
        elif x < 0.14:
            tgt = get(m, (root_key,))
            if multi and r.random() < 0.5:
                e = r.choice([e for e in outs.e if e[0] == "i"])
                tgt = e[1] if not v1 else get(e[1], ("package",))
            tgt.e[entry_index(tgt, "name")] = ("k", "nom", Sc("x"), "")
            want_err = KeyError
        if want_err:
            t = ("context:\n  name: vname\n\n" if v1 else "") + render(m, vs)
            p = type(p)(t)
            v, e = quiet_call(p.get_all_dependencies)
            run.eval("errors", t, {"recipe": t, "error": want_err.__name__})
            run.check(type(e) is want_err, f"expected {want_err.__name__} for duplicate or missing names", recipe=t, got=repr(v), error=repr(e))
            continue
        want = {}
        def collect(req, prefix):
            out = []
            if not isinstance(req, Di):
                return out
            for en in req.e:
                if en[0] != "k" or en[1] not in SECTIONS or not isinstance(en[2], Li):
                    continue
                n = 0
                for it in en[2].e:
                    if it[0] != "i":
                        continue
                    v = it[1].v
                    if v is not None and v.strip('" '):
                        f = SEL.search(it[2])
                        v = re.sub(r"\$?\{\{ name \}\}", "vname", v.strip())
                        out.append((f"{prefix}/requirements/{en[1]}/{n}", SECTIONS[en[1]], v.strip().replace("${{", "{{"), f.group(0) if f else None))
                    n += 1
            return out
        def req_of(d):
            try:
                return get(d, ("requirements",))
            except KeyError:
                return None
        top = collect(req_of(m), "")
        want["root-pkg"] = top
        if multi:
            for k, e in enumerate([e for e in outs.e if e[0] == "i"]):
                nm = data(e[1])["package"]["name"] if v1 else data(e[1])["name"]
                want[nm] = collect(req_of(e[1]), f"/outputs/{k}") + top
        v, e = quiet_call(p.get_all_dependencies)
        run.eval("map:" + ("V1" if v1 else "V0") + (":multi" if multi else ""), t if any(want.values()) else None, {"recipe": t, "dependencies": {k: len(x) for k, x in want.items()}})
        if not run.check(e is None, f"get_all_dependencies raised {type(e).__name__}: {e}", recipe=t):
            break
        got = {k: [(d.path, d.type.name, dependency_data_render_as_str(d.data).replace("${{", "{{"), d.selector.render() if d.selector else None) for d in l] for k, l in v.items()}
        if not run.check(list(got) == list(want) and got == want, "the dependency map is not that of the recipe", recipe=t, got=got, want=want):
            break
        run.check(all(d.required_by == k for k, l in v.items() for d in l), "a dependency is recorded as required by another package", recipe=t)
        v2 = p.get_all_dependencies()
        run.check({k: [(d.path, d.type, d.data) for d in l] for k, l in v.items()} == {k: [(d.path, d.type, d.data) for d in l] for k, l in v2.items()}, "asking twice gives different maps", recipe=t)
        # the paths are those that get_dependency_paths lists
        paths = p.get_dependency_paths()
        mine = [d[0] for k, l in want.items() for d in l if k == "root-pkg" or d[0].startswith("/outputs")]
        mine = [x for x in mine if "run_exports" not in x]
        run.check(set(mine) <= set(paths), "get_dependency_paths misses requirements", recipe=t, missing=sorted(set(mine) - set(paths)))
