"""Bounded concrete part of C18 (the recipe graph)."""
import warnings
from unittest import mock
from pathlib import Path
from .lib import *
from .commands import scratch, SerialPool
import multiprocessing as mp
from conda_recipe_manager.grapher.recipe_graph import RecipeGraph
from conda_recipe_manager.grapher.recipe_graph_from_disk import RecipeGraphFromDisk
from conda_recipe_manager.grapher.types import GraphType
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps

NAMES = ["aa", "bb", "cc", "dd", "ee-e", "ff", "gg", "hh"]
SECT = {"build": "b", "host": "b", "run": "t", "run_constrained": None, "run_constraints": None, "run_exports": None, "requires": "t", "junk": None}
def reqs(r, v1):
    return {s: [r.choice(NAMES + ["x1", "x2", "{{ compiler('c') }}"]) for _ in range(r.randrange(0, 4))] for s in SECT if r.random() < 0.4 and s != ("run_constrained" if v1 else "run_constraints")}
def block(q, ind, r, v1):
    p = " " * ind
    out = [p + "requirements:"] if q else []
    for s, ds in q.items():
        out.append(p + f"  {s}:")
        for d in ds:
            text = d + (r.choice(["", " >=1.0", " 2.*"]) if "{" not in d else "")
            out.append(p + "    - " + (text if "{" not in d else "$" + d if v1 else f'"{d}"') + r.choice(["", "", "  # note"] + ["  # [linux]"] * (not v1)))
    return out
def make(r, tag):
    """(text, [(package, build names, test names)] or None if the dependencies can not be read, packages named by the recipe or None)"""
    v1 = r.random() < 0.3
    top = r.choice(NAMES)
    multi = r.random() < 0.35
    q = reqs(r, v1)
    lines = (["schema_version: 1", ""] if v1 else []) + (["recipe:" if v1 and multi else "package:", f"  name: {top}", f"  version: 1.{tag}", ""])
    lines += block(q, 0, r, v1)
    names, per = [top], {top: [q]}
    if multi:
        lines += ["outputs:"]
        for o in r.sample(NAMES, r.randrange(1, 3)):
            oq = reqs(r, v1)
            lines += ([f"  - cache: x", "    package:", f"      name: {o}"] if v1 else [f"  - name: {o}"]) + block(oq, 4, r, v1)
            names.append(o)
            per.setdefault(o, [oq, q])
    fault = r.random()
    if fault < 0.12:
        lines = [l for l in lines if not l.startswith("  name:")]
        return "\n".join(lines) + "\n", None, None
    if len(set(names)) < len(names):
        return "\n".join(lines) + "\n", None, None
    side = lambda qs, k: {d for x in qs for s, ds in x.items() if SECT[s] == k for d in ds}
    return "\n".join(lines) + "\n", [(n, side(per[n], "b"), side(per[n], "t")) for n in names], names

def expected(run, order):
    """order: [(id, entry)] of the recipes that could be parsed"""
    owner, dup, b, t, bad = {}, set(), set(), set(), {}
    for ident, (_, pk, names) in order:
        if pk is None:
            bad[ident] = names or ["Unknown"]
            continue
        for n, bs, ts in pk:
            if n in owner:
                dup.add(n)
                continue
            owner[n] = ident
            b |= {(n, d) for d in bs}
            t |= {(n, d) for d in ts}
    return owner, dup, b, t, bad
def judge(run, g, order, failed, case):
    owner, dup, b, t, bad = expected(run, order)
    s = g.get_package_stats()
    known = {n for n in NAMES + ["x1", "x2", "zz"] if g.contains_package_name(n)}
    run.check(known == set(owner), "the recorded packages are not those of the recipes", got=sorted(known), want=sorted(owner), **case)
    run.check(s.package_name_duplicates == dup, "the reported duplicates are not the packages several recipes provide", got=sorted(s.package_name_duplicates), want=sorted(dup), **case)
    run.check(s.total_packages == len(owner), "total packages is not the number of recorded packages", got=s.total_packages, want=len(owner), **case)
    run.check(s.total_parsed_recipes == len(order) and s.total_recipes == len(order) + len(failed), "total recipes is not parsed plus failed", got=repr(s), want=[len(order), len(failed)], **case)
    run.check(s.recipes_failed_to_parse == failed, "the recipes reported as not parsed are others", got=sorted(s.recipes_failed_to_parse), want=sorted(failed), **case)
    run.check(s.recipes_failed_to_parse_dependencies == bad, "the recipes reported with unreadable dependencies are others", got=s.recipes_failed_to_parse_dependencies, want=bad, **case)
    for kind, want in ((GraphType.BUILD, b), (GraphType.TEST, t)):
        got = {(a, x.replace("${{", "{{")) for a, x in g._get_graph(kind).edges()}
        run.check(got == want, f"the {kind} graph has other edges", extra=sorted(got - want), missing=sorted(want - got), **case)
    run.check(bool(g) == bool(order), "a graph with recipes is empty, or the other way round", **case)
def c18(run):
    r = run.rnd
    run.rule("random sets of V0 and V1 recipes over few package names, with duplicate and missing names, in random directory layouts with unreadable files; graphs compared with one built from the models")
    for n in range(run.n(1200)):
        entries = [make(r, f"{n}.{k}") for k in range(r.randrange(0, 7))]
        with scratch() as d:
            disk = n % 2 == 0
            if not disk:
                cache, order = {}, []
                for k, e in enumerate(entries):
                    cache[f"sha{k}"] = RecipeReaderDeps(e[0])
                    order.append((f"sha{k}", e))
                failed = {f"f{k}" for k in range(r.randrange(0, 3))}
                g, ex = quiet_call(RecipeGraph, cache, set(failed))
            else:
                files = {}
                for k, e in enumerate(entries):
                    sub = d / r.choice(["", "a", "b/c"]) / f"p{k}"
                    sub.mkdir(parents=True)
                    f = sub / r.choice(["meta.yaml", "recipe.yaml"])
                    f.write_text(e[0])
                    files[f] = e
                for k in range(r.randrange(0, 3)):
                    f = d / f"bad{k}" / r.choice(["meta.yaml", "recipe.yaml"])
                    f.parent.mkdir()
                    if r.random() < 0.5:
                        f.write_bytes(b"package:\n  name: \xff\xfe\n")
                    else:
                        f.mkdir()
                    files[f] = None
                (d / "other.yaml").write_text("package:\n  name: zz\n")
                order, failed = [], set()
                for f in d.rglob("*.yaml"):
                    if f in files and files[f] is None:
                        failed.add(f.as_posix())
                    elif f in files:
                        order.append((RecipeReaderDeps(f.read_text()).calc_sha256(), files[f]))
                if n % 100 == 0:
                    g, ex = quiet_call(RecipeGraphFromDisk, r.choice([d, str(d)]), 2)
                else:
                    with mock.patch.object(mp, "Pool", SerialPool):
                        g, ex = quiet_call(RecipeGraphFromDisk, r.choice([d, str(d)]), r.choice([0, 1, 3]))
            case = {"recipes": [e[0] for _, e in order], "from": "disk" if disk else "memory"}
            run.eval("disk" if disk else "memory", str(case) if order else None, case)
            if run.check(ex is None, f"building the graph raises {ex!r}", **case):
                judge(run, g, order, failed, case)
        if run.failures:
            break
