"""Bounded concrete part of C19 (dependency scanners)."""
import sys
from pathlib import Path
from .lib import *
from .commands import scratch
from conda.models.match_spec import MatchSpec
from conda_recipe_manager.parser.dependency import DependencySection
from conda_recipe_manager.scanner.dependency.py_dep_scanner import PythonDependencyScanner
from conda_recipe_manager.scanner.dependency.pyproject_dep_scanner import PyProjectDependencyScanner
from conda_recipe_manager.types import MessageCategory

PACKAGE = {"git": "gitpython", "yaml": "pyyaml", "PIL": "pillow", "sklearn": "scikit-learn", "tables": "pytables", "cv": "py-opencv", "cv2": "py-opencv", "OpenGL": "pyopengl"}
STD = ["os", "sys", "json", "collections", "typing", "ast", "__future__", "_thread", "email"]
THIRD = ["requests", "numpy", "Foo_bar", "x", "osx", "sysconf", "json5", "python", "_private", *PACKAGE]
LOCAL = ["mine", "pkg", "helper_mod"]
def text(d):
    return (d.data.original_spec_str if isinstance(d.data, MatchSpec) else d.data.name), d.type

def module(r):
    m = r.choice(STD + THIRD * 2 + LOCAL)
    return m if r.random() < 0.6 else ".".join([m] + [r.choice(["os", "sub", "numpy", "mine"]) for _ in range(r.randrange(1, 3))])
def statement(r):
    """(source of one import statement, modules it imports absolutely)"""
    k = r.randrange(5)
    if k == 0:
        ms = [module(r) for _ in range(r.randrange(1, 4))]
        return "import " + ", ".join(m + (" as q" if r.random() < 0.3 else "") for m in ms), ms
    what = r.choice(["a", "a as b", "a, b", "*", "(a,\n  b)"])
    if k == 1:
        lvl = "." * r.randrange(1, 4)
        return f"from {lvl}{r.choice(['', module(r)])} import {'a' if what == '*' else what}", []
    m = module(r)
    return f"from {m} import {what}", [m]
def py_source(r):
    lines, ms = ["'''import nothing_here'''", "# import nothing_either"], []
    for _ in range(r.randrange(0, 6)):
        s, m = statement(r)
        ms += m
        s = s if "\n" not in s else s.replace("\n", " ")
        wrap = r.randrange(5)
        if wrap == 1 and "*" not in s:
            lines += ["def f():", f"    def g():", f"        {s}"]
        elif wrap == 2:
            lines += ["try:", f"    {s}", "except ImportError:", "    pass"]
        elif wrap == 3:
            lines += [f"if 1: {s}; x = 1"]
        elif wrap == 4 and "*" not in s:
            lines += ["class C:", f"    {s}"]
        else:
            lines += [s]
    return "\n".join(lines) + "\n", ms
def c19(run):
    r = run.rnd
    run.rule("random project trees (nested directories, test files by name, relative imports, imports in functions, files that can not be decoded or parsed) and random project files (missing, unreadable, invalid, of the wrong shape); results compared with a model")
    for n in range(run.n(1500)):
        with scratch() as d:
            run_deps, test_deps, bad, files = set(), set(), 0, []
            local = {m for m in LOCAL if r.random() < 0.6}
            root = d / "src"
            root.mkdir()
            for m in local:
                if m == "pkg":
                    (root / m).mkdir()
                    (root / m / "__init__.py").write_text("")
                else:
                    (root / f"{m}.py").write_text("")
            for k in range(r.randrange(0, 6)):
                name = r.choice([f"m{k}.py", f"test_m{k}.py", f"m{k}_test.py", f"TEST_m{k}.py", f"m{k}_Test.py", f"contest{k}.py", f"m{k}test.py", f"test{k}.py", f"m{k}.txt", f"m{k}.pyi"])
                sub = root / r.choice(["inner", "inner/tests", "pkg"])
                sub.mkdir(parents=True, exist_ok=True)
                f = sub / name
                fault = r.random()
                if not name.endswith(".py"):
                    f.write_text("import notpy\n")
                elif fault < 0.08:
                    f.write_bytes(b"import numpy\n# \xff\xfe\n")
                    bad += 1
                elif fault < 0.16:
                    f.write_text("import numpy\ndef (:\n")
                    bad += 1
                elif fault < 0.2:
                    f.mkdir()
                    bad += 1
                elif fault < 0.24:
                    f.write_text("import numpy\nx = '\0'\n")
                    bad += 1
                else:
                    s, ms = py_source(r)
                    f.write_text(s)
                    files.append((str(f.relative_to(root)), s))
                    low = name.lower()
                    for m in ms:
                        top = m.split(".")[0]
                        if top not in sys.stdlib_module_names and top not in local:
                            (test_deps if low.startswith("test_") or low.endswith("_test.py") else run_deps).add(PACKAGE.get(top, top))
            run_deps.add("python")
            want = {(x, DependencySection.RUN) for x in run_deps} | {(x, DependencySection.TESTS) for x in test_deps - run_deps} | {("python", DependencySection.HOST)}
            case = {"files": files, "local": sorted(local), "unreadable": bad}
            run.eval("python", repr(case) if files else None, case)
            sc = PythonDependencyScanner(r.choice([root, str(root)]))
            got, ex = quiet_call(sc.scan)
            if run.check(ex is None, f"scanning raises {ex!r}", **case):
                got = {text(x) for x in got}
                run.check(got == want, "the reported dependencies are not those imported", extra=sorted(map(str, got - want)), missing=sorted(map(str, want - got)), **case)
                m = sc.get_message_table().get_messages(MessageCategory.EXCEPTION)
                run.check(len(m) == bad, "not one message per file that can not be scanned", got=m, **case)
        if run.failures:
            return
    for n in range(run.n(3000)):
        with scratch() as d:
            spec = lambda: r.choice(["click", "foo >=1.0", "bar[extra]>=2", "baz ; python_version < '3'", "{{ x }}", "a-b ~= 1.0", "", "we ird name"])
            deps, opt, body, bad = [], {}, [], None
            if r.random() < 0.8:
                deps = [spec() for _ in range(r.randrange(0, 4))]
                body.append("dependencies = " + repr(deps))
            if r.random() < 0.6:
                opt = {f"e{k}": [spec() for _ in range(r.randrange(0, 3))] for k in range(r.randrange(0, 3))}
                body.append("[project.optional-dependencies]")
                body += [f"{k} = {v!r}" for k, v in opt.items()]
            t = "[project]\nname = 'x'\n" + "\n".join(body) + "\n[tool.x]\ndependencies = ['no']\n"
            k = r.randrange(14)
            name = r.choice(["pyproject.toml", "other.toml"])
            f = d / name
            if k == 0:
                t, bad = "[tool.x]\ndependencies = ['no']\n", "no project section"
            elif k == 1:
                t, bad = t + "\n[[[", "invalid"
            elif k == 2:
                t, bad = r.choice(["project = 1\n", "project = ['dependencies']\n", "project = 'dependencies'\n", "[[project]]\nname='x'\n"]), "wrong shape"
            elif k == 3:
                t, bad = "[project]\ndependencies = " + r.choice(["1", "'abc'", "{a = 'b'}", "['a', 1]", "[['a']]", "true"]) + "\n", "wrong shape"
            elif k == 4:
                t, bad = "[project]\ndependencies = ['a']\noptional-dependencies = " + r.choice(["1", "'abc'", "['a']", "{a = 'b'}", "{a = ['x'], b = 1}", "{a = ['x', 2]}", "{a = {b = ['x']}}"]) + "\n", "wrong shape"
            f.write_text(t)
            if k == 5:
                f.unlink()
                bad = "missing"
            elif k == 6:
                f.unlink()
                f.mkdir()
                bad = "a directory"
            elif k == 7:
                f.write_bytes(t.encode() + b"# \xff\n")
                bad = "not text"
            want = set() if bad else {(x, DependencySection.RUN) for x in deps} | {(x, DependencySection.RUN_CONSTRAINTS) for v in opt.values() for x in v}
            case = {"file": t, "fault": bad}
            run.eval("project file", t, case)
            sc = PyProjectDependencyScanner(r.choice([d, str(d)]), name) if name != "pyproject.toml" else PyProjectDependencyScanner(d)
            got, ex = quiet_call(sc.scan)
            if run.check(ex is None, f"scanning raises {ex!r}", **case):
                run.check({text(x) for x in got} == want, "the reported dependencies are not those listed", got=sorted(map(str, got)), want=sorted(map(str, want)), **case)
                m = sum(sc.get_message_table().get_message_count(c) for c in MessageCategory)
                run.check(m == (1 if bad else 0), "a message exactly if the file is bad", got=m, **case)
        if run.failures:
            return
