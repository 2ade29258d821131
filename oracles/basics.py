"""Bounded concrete parts of C01 (selectors), C02 (paths) and C11 (build configuration)."""
import itertools
from .lib import *
from .edits import rand_edit, freeze
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.platform_types import Platform, Arch, OperatingSystem, get_platforms_by_arch, get_platforms_by_os
from conda_recipe_manager.parser.selector_parser import SelectorParser
from conda_recipe_manager.parser.selector_query import SelectorQuery

# the documented platform sets, written down independently
LINUX = {"linux-32", "linux-64", "linux-aarch64", "linux-armv6l", "linux-armv7l", "linux-ppc64", "linux-ppc64le", "linux-riscv64", "linux-s390x"}
OSX = {"osx-64", "osx-arm64"}
WIN = {"win-32", "win-64", "win-arm64"}
EVERY = LINUX | OSX | WIN
OS_SETS = {"linux": LINUX, "osx": OSX, "win": WIN, "unix": LINUX | OSX}
ARCH_SETS = {"s390x": {"linux-s390x"}, "x86": {"linux-32", "win-32", "linux-64", "osx-64", "win-64"}, "x86_64": {"linux-64", "osx-64", "win-64"},
             "arm64": {"osx-arm64", "win-arm64"}, "armv6l": {"linux-armv6l"}, "armv7l": {"linux-armv7l"}, "ppc64": {"linux-ppc64"}, "ppc64le": {"linux-ppc64le"}}
NAMES = {**OS_SETS, **ARCH_SETS, **{p: {p} for p in EVERY}}

def eval_tokens(toks):
    """precedence-climbing evaluation, independent of the code under test"""
    pos = 0
    def p_or():
        nonlocal pos
        v = p_and()
        while pos < len(toks) and toks[pos] == "or":
            pos += 1
            v = v | p_and()
        return v
    def p_and():
        nonlocal pos
        v = p_not()
        while pos < len(toks) and toks[pos] == "and":
            pos += 1
            v = v & p_not()
        return v
    def p_not():
        nonlocal pos
        if toks[pos] == "not":
            pos += 1
            return EVERY - p_not()
        v = NAMES[toks[pos]]
        pos += 1
        return v
    v = p_or()
    assert pos == len(toks)
    return v

def rand_tokens(r, n):
    out = []
    for i in range(n):
        while r.random() < 0.3:
            out.append("not")
        out.append(r.choice(list(NAMES)))
        if i < n - 1:
            out.append(r.choice(["and", "or"]))
    return out

def strs(s):
    return {str(x.value) for x in s}

def check_selector(run, toks, r, section):
    text = (" " if r.random() > 0.2 else "   ").join(t if r.random() > 0.2 else r.choice([t.upper(), t.title()]) for t in toks)
    want = eval_tokens(toks)
    for content, schema in ((f"[{text}]", SchemaVersion.V0), (text, SchemaVersion.V1)):
        p = SelectorParser(content, schema)
        got = p.get_selected_platforms()
        run.eval(section, (text, schema), {"selector": content, "selects": sorted(want)})
        run.check(strs(got) == want and all(type(x) is Platform for x in got), "the selected platforms are not those on which the expression is true", selector=content, got=sorted(strs(got)), want=sorted(want))
        got.clear()
        run.check(strs(p.get_selected_platforms()) == want, "altering the returned set alters the selector", selector=content)
        for pl in (Platform if r.random() < 0.2 else r.sample(list(Platform), 2)):
            run.check(p.does_selector_apply(SelectorQuery(platform=pl)) is (pl.value in want), "does_selector_apply disagrees with the selected platforms", selector=content, platform=pl.value)
        run.check(p.does_selector_apply(SelectorQuery()) is True, "a query without a platform is not satisfied", selector=content)

def c01(run):
    run.rule("every operator skeleton with up to 4 names (each name optionally negated, once or twice) with random names, plus random expressions of up to 14 names, in both schemas and random case; selected platforms compared with an independent precedence-climbing evaluator over an independent platform table")
    r = run.rnd
    run.check({p.value for p in Platform} == EVERY, "the platforms are not the documented ones")
    for n in OperatingSystem:
        for a in (n, n.value, n.value.upper(), f" {n.value} "):
            run.eval("os", a)
            run.check(strs(get_platforms_by_os(a)) == OS_SETS[n.value], "an operating system denotes other platforms than documented", name=repr(a), got=sorted(strs(get_platforms_by_os(a))))
            get_platforms_by_os(a).clear()
    for n in Arch:
        for a in (n, n.value, n.value.upper(), f" {n.value} "):
            run.eval("arch", a)
            run.check(strs(get_platforms_by_arch(a)) == ARCH_SETS[n.value], "an architecture denotes other platforms than documented", name=repr(a), got=sorted(strs(get_platforms_by_arch(a))))
            get_platforms_by_arch(a).clear()
    for bad in ("", "nope", "win-64", "linux64", "and"):
        run.check(get_platforms_by_os(bad) == set() and get_platforms_by_arch(bad) == set(), "an unknown name denotes platforms", name=bad)
    for n in NAMES:
        check_selector(run, [n], r, "single")
        check_selector(run, ["not", n], r, "single")
    for k in (1, 2, 3, 4):
        for ops in itertools.product(["and", "or"], repeat=k - 1):
            for negs in itertools.product([0, 1, 2] if k < 4 else [0, 1], repeat=k):
                for _ in range(run.n(2, 12)):
                    toks = []
                    for i in range(k):
                        toks += ["not"] * negs[i] + [r.choice(list(NAMES))]
                        if i < k - 1:
                            toks.append(ops[i])
                    check_selector(run, toks, r, f"skeleton{k}")
    for _ in range(run.n(600)):
        check_selector(run, rand_tokens(r, r.randint(2, 14)), r, "random")


# ------------------------------------------------------------------ C02
def c02(run):
    from conda_recipe_manager.parser._utils import str_to_stack_path, stack_path_to_str
    run.rule("random path strings (round trip and non-consumption) and every addressable, out-of-range and mis-typed path of random recipes with interleaved comments, compared with an independent model; non-trivial when the path names a value in a list or below one")
    r = run.rnd
    g = Gen(r)
    PARTS = ["a", "b", "0", "1", "12", "package", "{{ x }}", "a b", "-", "²", "None", "é", "a.b", "~", "x\ty"]
    for i in range(run.n(2000)):
        parts = [r.choice(PARTS) for _ in range(r.randint(0, 7))]
        s = "/" + "/".join(parts)
        run.eval("roundtrip", s)
        st = str_to_stack_path(s)
        run.check(st == parts[::-1] + ["/"], "the internal form of a path is not its parts", path=s, got=st)
        for form in (list(st), tuple(st)):
            keep = list(form)
            run.check(stack_path_to_str(form) == s, "converting a path to its internal form and back changes it", path=s, got=stack_path_to_str(list(st)))
            run.check(list(form) == keep, "converting a path alters the caller's data", path=s, left=list(form))
        ext = "/".join(r.choice(PARTS) for _ in range(r.randint(0, 3)))
        if r.random() < 0.2 and ext:
            ext += "/"
        for b in (s, s + "/") if parts else ("/", ""):
            for e in (ext, "/" + ext):
                run.eval("join", (b, e))
                got = RecipeReader.append_to_path(b, e)
                want = (s if parts else "") + "/" + ext
                run.check(got == want, "joining a base path with an extension does not put exactly one slash between the two", base=b, ext=e, got=got, want=want)
    known_value = False
    for i in range(run.n(500)):
        m = g.recipe(depth=r.randint(2, 4))
        t = render(m)
        p = RecipeParser(t) if r.random() < 0.3 else RecipeReader(t)
        if p.render() != t:
            run.fail("reading a simple recipe and rendering it changes it", recipe=t, got=p.render())
            continue
        nodes = {}
        for q, n in walk(m):
            nodes[path_str(q) if q else "/"] = n
        bad = set()
        for q, n in walk(m):
            if isinstance(n, Li):
                L = len(data(n))
                for j in (L, L + 1, L + 7, 10 ** 12):
                    bad.add(path_str(q + (j,)))
            elif q:
                for j in (0, 1, 3):
                    bad.add(path_str(q + (j,)))
            if q:
                bad.add(path_str(q + ("nope",)))
                bad.add(path_str(q + ("²",)))
                bad.add(path_str(q + ("-1",)))
        bad |= {"/0", "/1", "/nope", "/nope/0"}
        for s, n in nodes.items():
            run.eval("value", (t, s) if any(x.isdigit() for x in s.split("/")) else None, {"recipe": t, "path": s})
            run.check(p.contains_value(s) is True, "a value that is there is not found", recipe=t, path=s)
            v, e = quiet_call(p.get_value, s)
            if isinstance(n, Sc) and n.v is None:
                known_value = known_value or v is not None
                continue
            d = data(n)
            if has_null(d):
                known_value = known_value or v != d
                continue
            run.check(e is None and same(v, d), "a path resolves to another value", recipe=t, path=s, got=repr(v), error=repr(e), want=repr(d))
        for s in r.sample(sorted(bad), min(40, len(bad))):
            if s in nodes:
                continue
            run.eval("absent", (t, s))
            v, e = quiet_call(p.contains_value, s)
            if not run.check(e is None and v is False, "a path that names nothing is found", recipe=t, path=s, error=repr(e)):
                break
            v, e = quiet_call(p.get_value, s, "the default")
            run.check(e is None and v == "the default", "a path that names nothing resolves to a value", recipe=t, path=s, got=repr(v), error=repr(e))
            v, e = quiet_call(p.get_value, s)
            run.check(isinstance(e, KeyError), "a path that names nothing does not raise KeyError", recipe=t, path=s, got=repr(v), error=repr(e))
        # the listed paths are those of the leaves
        want = [path_str(q) for q, n in walk(m) if isinstance(n, Sc) or not data(n)]
        got = p.list_value_paths()
        miss = [x for x in want if x not in got and not (isinstance(nodes[x], Sc) and nodes[x].v is None)]
        extra = [x for x in got if x not in nodes]
        run.check(not miss and not extra, "list_value_paths does not list the paths of the values", recipe=t, missing=miss, extra=extra)
        if run.failures:
            break
    # known finding: a key without a value is read as its own name
    p = RecipeReader("package:\n  name:\n  version: 1\n")
    run.known.append(("KF1", p.get_value("/package/name") == "name"))
    p = RecipeReader("package:\n  name: foo\n  version: '3.10'\n")
    run.known.append(("KF2", p.get_value("/package/version") == 3.1 or "3.10" not in str(p.get_value("/package/version"))))

def has_null(d):
    if d is None:
        return True
    if isinstance(d, dict):
        return any(map(has_null, d.values()))
    if isinstance(d, list):
        return any(map(has_null, d))
    return False

def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


# ------------------------------------------------------------------ C11
def c11(run):
    from conda_recipe_manager.parser.cbc_parser import CbcParser
    run.rule("random configuration files (1-5 variables of 1-6 values, each with or without selector; scalars, comments, nested keys in between) x every platform and no platform x defaults incl. None and falsy; compared with an independent first-match over the independent selector evaluator; non-trivial when a selector decides")
    r = run.rnd
    NM = ["python", "numpy", "c_compiler", "perl", "target", "MACOSX", "zip_keys", "r_base", "x"]
    VALS = ["foo", "gcc", "clang_11", 3, 0, 7, True, False, "vs2019", "a b", "1.2.3"]
    for i in range(run.n(350)):
        out, tbl, order = [], {}, []
        for n in r.sample(NM, r.randint(0, 5)):
            kind = r.random()
            if kind < 0.1:
                out.append(f"{n}: {r.choice(['foo', 3])}")
                continue
            if kind < 0.18:
                out += [f"{n}:", "  sub: foo", "  pin: bar"]
                continue
            if n == "zip_keys":
                out += ["zip_keys:", "  - python", "  - numpy"]
                continue
            out.append(f"{n}:" + r.choice(["", "", "  # a comment", "  # [osx]"]))
            tbl[n] = []
            order.append(n)
            for _ in range(r.randint(1, 6)):
                if r.random() < 0.12:
                    out.append("  # " + r.choice(["full line", "note"]))
                v = r.choice(VALS)
                toks = rand_tokens(r, r.choice([1, 1, 2, 3])) if r.random() < 0.65 else None
                com = ""
                if toks:
                    com = f"  # [{' '.join(toks)}]" + r.choice(["", " trailing"])
                elif r.random() < 0.2:
                    com = "  # note"
                out.append(f"  - {scalar_text(v)}{com}")
                tbl[n].append((v, eval_tokens(toks) if toks else None))
        t = "\n".join(out) + "\n"
        p = CbcParser(t)
        run.check(p.list_cbc_variables() == order, "the listed variables are not those that can be looked up", file=t, got=p.list_cbc_variables(), want=order)
        for n in NM + ["nope", "", "0"]:
            run.check((n in p) is (n in tbl), "containment disagrees with the variables of the file", file=t, var=n)
            run.check((n in p.list_cbc_variables()) is (n in tbl), "listing disagrees with the variables of the file", file=t, var=n)
            for pl in [None] + list(Platform):
                q = SelectorQuery(platform=pl) if pl else SelectorQuery()
                want = []
                for v, s in tbl.get(n, []):
                    if s is None or pl is None or pl.value in s:
                        want = [v]
                        break
                run.eval("lookup", (t, n, pl) if n in tbl and len(tbl[n]) > 1 else None, {"file": t, "variable": n, "platform": str(pl), "value": repr(want)})
                x, e = quiet_call(p.get_cbc_variable_value, n, q)
                if want:
                    ok = e is None and same(x, want[0])
                else:
                    ok = type(e) is (ValueError if n in tbl else KeyError)
                run.check(ok, "a lookup does not return the first value that applies", file=t, var=n, platform=str(pl), got=repr(x), error=repr(e), want=want)
                for d in r.sample([None, 0, False, "", "dflt", 7], 2):
                    x, e = quiet_call(p.get_cbc_variable_value, n, q, d)
                    w = want[0] if want else d
                    run.check(e is None and same(x, w), "a lookup with a default does not return the first value that applies, else the default", file=t, var=n, platform=str(pl), default=repr(d), got=repr(x), error=repr(e), want=repr(w))
        run.check(3 not in p and None not in p and ("python",) not in p, "containment of something that is no name", file=t)
        if run.failures:
            break
