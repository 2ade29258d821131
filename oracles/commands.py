"""Bounded concrete parts of C16 (messages, conversion of a file), C17 (bulk runs) and C12 (bump-recipe)."""
import collections, contextlib, inspect, io, json, multiprocessing, os, subprocess, shutil, sys, tempfile
from pathlib import Path
from unittest import mock
from .lib import *
import conda_recipe_manager.commands.convert as CV
import conda_recipe_manager.commands.rattler_bulk_build as RB
from conda_recipe_manager.commands.utils.types import ExitCode
from conda_recipe_manager.types import MessageCategory, MessageTable

CATS = list(MessageCategory)
MSGS = ["a", "b", "missing license", "could not patch /x/0", "", "a b", "Ünïcode", "100% sure {x}"]

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="crm-oracle-")
    try:
        yield Path(d)
    finally:
        os.chmod(d, 0o700)
        shutil.rmtree(d, ignore_errors=True)

@contextlib.contextmanager
def captured():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o, e

def totals(e, w):
    return f"{e} error{'' if e == 1 else 's'} and {w} warning{'' if w == 1 else 's'} were found."

V0_OK = """{% set name = "foo" %}
{% set version = "1.2.3" %}

package:
  name: {{ name }}
  version: {{ version }}

source:
  url: https://example.com/foo-{{ version }}.tar.gz
  sha256: 1111111111111111111111111111111111111111111111111111111111111111

build:
  number: 0
  skip: true  # [win]

requirements:
  host:
    - python
    - pip
  run:
    - python

test:
  imports:
    - foo

about:
  home: https://example.com
  license: MIT
  license_family: MIT
  license_file: LICENSE
  summary: Something
"""
V0_WARN = V0_OK.replace("  license: MIT\n", "  license: NotALicenseAtAll\n")
V1 = "schema_version: 1\n\ncontext:\n  name: foo\n\npackage:\n  name: ${{ name }}\n  version: 1.0\n"
BROKEN = ["{% set x = %}\n: : :\n  - ]\n", "a: b: c\n  - d\n e: f: - g\n", "package:\n  name: [unclosed\n", "\t\tx: y\n", "]"]
STAGE_CODES = {"read": ExitCode.READ_EXCEPTION, "prep": ExitCode.PRE_PROCESS_EXCEPTION, "parse": ExitCode.PARSE_EXCEPTION, "render": ExitCode.RENDER_EXCEPTION, "write": ExitCode.IO_ERROR}

def table_of(r, exceptions=False):
    t = MessageTable()
    for c in CATS:
        if c is MessageCategory.EXCEPTION and not exceptions:
            continue
        for _ in range(r.choice([0, 0, 1, 2, 5])):
            t.add_message(c, r.choice(MSGS))
    return t

def c16(run):
    r = run.rnd
    run.rule("histories of messages against per-category lists; single conversions with a failure injected at every stage")
    # ---- message tables
    for _ in range(run.n(400)):
        t, model, hist = MessageTable(), {c: [] for c in CATS}, []
        others = [(MessageTable(), {c: [] for c in CATS})]
        for _ in range(r.randrange(1, 14)):
            op = r.choice(["add", "add", "add", "get", "count", "totals", "clear", "alias"])
            c = r.choice(CATS)
            if op == "add":
                m = r.choice(MSGS)
                hist.append(("add", str(c), m))
                t.add_message(c, m)
                model[c].append(m)
            elif op == "clear" and r.random() < 0.5:
                hist.append(("clear",))
                t.clear_messages()
                model = {c: [] for c in CATS}
            elif op == "alias":
                got = t.get_messages(c)
                hist.append(("alter a returned list", str(c)))
                got.append("altered")
                got.sort()
                got.clear()
            elif op == "totals":
                t.get_totals_message()
            for c in r.sample(CATS, len(CATS)):
                run.check(t.get_messages(c) == model[c], "the messages of a category are not those added to it in order", history=hist, category=str(c), got=t.get_messages(c), want=model[c])
                run.check(t.get_message_count(c) == len(model[c]), "the count of a category is not the number of its messages", history=hist, category=str(c), got=t.get_message_count(c), want=len(model[c]))
            e, w = len(model[MessageCategory.ERROR]), len(model[MessageCategory.WARNING])
            want = totals(e, w)
            got = t.get_totals_message()
            run.check(got == want or (got == "" and not any(model.values())), "the totals do not state the numbers of errors and warnings", history=hist, got=got, want=want)
            run.eval("messages", tuple(map(tuple, hist)), {"history": list(hist)})
        fresh = MessageTable()
        run.check(all(fresh.get_messages(c) == [] and fresh.get_message_count(c) == 0 for c in CATS), "a new table is not empty", history=hist)
        if run.failures:
            return
    # ---- failures on top of messages that are there already
    for _ in range(run.n(60)):
        t = table_of(r, True)
        before = {c: t.get_messages(c) for c in CATS}
        code = r.choice([ExitCode.IO_ERROR, ExitCode.PARSE_EXCEPTION, ExitCode.ILLEGAL_OPERATION])
        m = r.choice(MSGS)
        cr = CV.ConversionResult(code=ExitCode.SUCCESS, content="", file_path=Path("x"), msg_tbl=t, project_name="")
        with captured():
            out = CV._record_unrecoverable_failure(cr, code, m, r.random() < 0.5, r.choice([None, ValueError("boom")]))
        want = {**before, MessageCategory.EXCEPTION: before[MessageCategory.EXCEPTION] + [m]}
        run.eval("recorded failure", (str(code), m, str(before)))
        run.check(out.code == code and {c: out.msg_tbl.get_messages(c) for c in CATS} == want, "a failure is not recorded as one more exception message with its status", before=str(before), message=m, code=str(code), got=str({c: out.msg_tbl.get_messages(c) for c in CATS}), got_code=str(out.code))
    for e in range(4):
        for w in range(4):
            t = MessageTable()
            for _ in range(e):
                t.add_message(MessageCategory.ERROR, "e")
            for _ in range(w):
                t.add_message(MessageCategory.WARNING, "w")
            cr = CV.ConversionResult(code=ExitCode.SUCCESS, content="", file_path=Path("x"), msg_tbl=t, project_name="")
            cr.set_return_code()
            want = ExitCode.RENDER_ERRORS if e else ExitCode.RENDER_WARNINGS if w else ExitCode.SUCCESS
            run.eval("status", (e, w))
            run.check(cr.code == want, "the status is not decided by the messages", errors=e, warnings=w, got=str(cr.code), want=str(want))
    # ---- one conversion with a failure at every stage
    K = CV.RecipeParserConvert
    with scratch() as d:
        src = d / "meta.yaml"
        for n in range(run.n(160)):
            stage = r.choice(["read", "read", "prep", "parse", "parse", "v1", "render", "write", "none", "none", "none", "real", "real"])
            text, inject, out, tbl = r.choice([V0_OK, V0_WARN]), None, None, None
            path = src
            out = r.choice([None, d / "recipe.yaml", d / "other.yaml"])
            exc = r.choice([ValueError, KeyError, RuntimeError, IndexError, AttributeError, OSError, RecursionError, UnicodeError])("boom")
            raw = None
            with contextlib.ExitStack() as st:
                if stage == "read":
                    how = r.choice(["missing", "directory", "bytes"])
                    if how == "missing":
                        path = d / "nope" / "meta.yaml"
                    elif how == "directory":
                        path = d
                    else:
                        raw = b"package:\n  name: \xff\xfe\xfa\n"
                elif stage == "prep":
                    st.enter_context(mock.patch.object(K, "pre_process_recipe_text", side_effect=exc))
                elif stage == "parse":
                    if r.random() < 0.5:
                        st.enter_context(mock.patch.object(CV, "RecipeParserConvert", side_effect=exc, pre_process_recipe_text=lambda x: x))
                    else:
                        text = r.choice(BROKEN)
                        try:
                            K(K.pre_process_recipe_text(text))
                            continue     # accepted by the parser
                        except Exception:
                            pass
                elif stage == "v1":
                    text = V1
                elif stage == "render":
                    st.enter_context(mock.patch.object(K, "render_to_v1_recipe_format", side_effect=exc))
                elif stage in ("none", "write"):
                    tbl = table_of(r)
                    st.enter_context(mock.patch.object(K, "render_to_v1_recipe_format", return_value=("text: x\n", tbl, None)))
                    if stage == "write":
                        out = r.choice([d / "missing" / "recipe.yaml", d])
                src.write_bytes(raw if raw is not None else text.encode())
                for f in ("recipe.yaml", "other.yaml"):
                    (d / f).unlink(missing_ok=True)
                before = {c: tbl.get_messages(c) for c in CATS} if tbl else None
                pr, dbg = r.random() < 0.5, r.random() < 0.2
                case = dict(stage=stage, text=text, output=str(out), error=repr(exc))
                with captured() as (so, se):
                    try:
                        res = CV.convert_file(path, out, pr, dbg)
                    except Exception as e:
                        run.fail("converting a file raises", exception=repr(e), **case)
                        continue
            got = {c: res.msg_tbl.get_messages(c) for c in CATS}
            run.eval("conversion", (stage, str(out), pr, repr(exc), text[:20], str(got)), case)
            ex = got[MessageCategory.EXCEPTION]
            if stage in STAGE_CODES:
                run.check(res.code == STAGE_CODES[stage], "a failure does not yield its own status", got=str(res.code), **case)
            elif stage == "v1":
                run.check(res.code == ExitCode.ILLEGAL_OPERATION, "an already converted recipe is not refused", got=str(res.code), **case)
            if stage in STAGE_CODES or stage == "v1":
                run.check(len(ex) == 1 and ex[0] != "", "a failed conversion does not record exactly one exception message", got=ex, **case)
                if before is not None:
                    run.check(all(got[c] == before[c] for c in CATS if c is not MessageCategory.EXCEPTION), "messages of the conversion were lost", got=str(got), want=str(before), **case)
                run.check(not (d / "recipe.yaml").exists() and not (d / "other.yaml").exists(), "a failed conversion wrote a recipe", **case)
            else:
                e, w = len(got[MessageCategory.ERROR]), len(got[MessageCategory.WARNING])
                want = ExitCode.RENDER_ERRORS if e else ExitCode.RENDER_WARNINGS if w else ExitCode.SUCCESS
                run.check(res.code == want, "the status is not decided by the messages", got=str(res.code), want=str(want), messages=str(got), **case)
                run.check(ex == [], "a conversion that did not fail has exception messages", got=ex, **case)
                if before is not None:
                    run.check(got == before and res.content == "text: x\n", "messages or text of the conversion were changed", got=str(got), want=str(before), **case)
                if out is not None:
                    run.check(out.exists() and out.read_text() == res.content, "the converted recipe was not written", **case)
                elif pr:
                    run.check(res.content in so.getvalue(), "the converted recipe was not printed", **case)
            run.check(res.file_path == path, "the result names another file", got=str(res.file_path), **case)
            # the command ends with the status of its only file
            if n % 4 == 0 and stage in ("none", "real", "v1") :
                with contextlib.ExitStack() as st, captured():
                    if tbl is not None:
                        st.enter_context(mock.patch.object(K, "render_to_v1_recipe_format", return_value=("text: x\n", tbl, None)))
                    try:
                        CV.convert.callback(path=src, output=None, min_success_rate=0.8, truncate=False, debug=False)
                        got_exit = None
                    except SystemExit as e:
                        got_exit = e.code
                run.eval("exit status", (stage, str(got)))
                run.check(got_exit == res.code, "the exit status is not that of the conversion", got=str(got_exit), want=str(res.code), **case)
            if len(run.failures) > 3:
                return


# ------------------------------------------------------------------ bulk runs
class SerialPool:
    """stands in for mp.Pool: same results, one process"""
    def __init__(self, *a, **k):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def starmap(self, f, items, *a, **k):
        return [f(*i) for i in items]
    def map(self, f, items, *a, **k):
        return [f(i) for i in items]
    imap = imap_unordered = map
    def close(self):
        pass
    join = terminate = close

def share(k, n):
    return round(k / n, 2)

RATES = [0.0, 0.1, 0.25, 0.33, 0.34, 0.5, 0.66, 0.67, 0.75, 0.8, 0.9, 0.99, 1.0]

def c17(run):
    r = run.rnd
    run.rule("random results per recipe (statuses, messages) through the bulk commands, against sums computed separately")
    UN = [ExitCode.IO_ERROR, ExitCode.PARSE_EXCEPTION, ExitCode.RENDER_EXCEPTION, ExitCode.READ_EXCEPTION, ExitCode.PRE_PROCESS_EXCEPTION, ExitCode.ILLEGAL_OPERATION]
    # ---- collecting messages
    for _ in range(run.n(200)):
        hist0 = {m: r.randrange(1, 4) for m in r.sample(MSGS, r.randrange(0, 4))}
        lst0 = ["p"] * r.randrange(0, 3)
        issues = [r.choice(MSGS) for _ in range(r.choice([0, 0, 1, 2, 3, 6]))]
        h, l, i2 = dict(hist0), list(lst0), list(issues)
        n = CV._collect_issue_stats("proj", i2, h, l)
        want = collections.Counter(hist0) + collections.Counter(issues)
        run.eval("collect", (tuple(issues), tuple(hist0)))
        run.check(n == len(issues) and h == dict(want) and l == lst0 + (["proj"] if issues else []) and i2 == issues, "messages of a recipe are not counted as often as they occur", issues=issues, before=hist0, got=h, listed=l, returned=n)
    # ---- bulk conversion
    for n in range(run.n(50)):
        with scratch() as d:
            k = r.choice([2, 2, 3, 4, 5, 6, 7, 9, 12])
            names = [f"feedstock-{i}/recipe" if r.random() < 0.7 else f"proj{i}" for i in range(k)]
            results = {}
            for nm in names:
                (d / nm).mkdir(parents=True)
                (d / nm / "meta.yaml").write_text(V0_OK)
                t = MessageTable()
                kind = r.choice(["ok", "ok", "warn", "err", "un", "io"])
                ms = lambda m: [r.choice(MSGS) for _ in range(m)]
                E = ms(r.choice([1, 2, 4])) if kind == "err" or (kind == "io" and r.random() < 0.5) else []
                W = ms(r.choice([1, 2, 3])) if kind == "warn" or (kind in ("err", "io") and r.random() < 0.5) else []
                X = ms(1) if kind in ("un", "io") else []
                for c, q in ((MessageCategory.ERROR, E), (MessageCategory.WARNING, W), (MessageCategory.EXCEPTION, X)):
                    for m in q:
                        t.add_message(c, m)
                code = r.choice(UN) if kind == "un" else ExitCode.IO_ERROR if kind == "io" else ExitCode.RENDER_ERRORS if E else ExitCode.RENDER_WARNINGS if W else ExitCode.SUCCESS
                results[f"{nm}/meta.yaml"] = (code, E, W, X, t)
            seen = []
            def convert_file(file, output, print_output, debug):
                rel = str(Path(file).relative_to(d))
                seen.append((rel, str(output)))
                code, E, W, X, t = results[rel]
                return CV.ConversionResult(code=code, content="", file_path=file, msg_tbl=t, project_name="")
            rate, trunc = r.choice(RATES), r.random() < 0.3
            with mock.patch.object(CV, "convert_file", convert_file), mock.patch.object(multiprocessing, "Pool", SerialPool), captured() as (so, se):
                try:
                    CV.convert.callback(path=d, output=r.choice([None, "recipe.yaml"]), min_success_rate=rate, truncate=trunc, debug=False)
                    code = None
                except SystemExit as e:
                    code = e.code
            case = dict(results={x: (str(c), E, W, X) for x, (c, E, W, X, t) in results.items()}, min_success_rate=rate)
            run.check(sorted(s for s, _ in seen) == sorted(results), "not every recipe was converted exactly once", converted=seen, **case)
            out = json.loads(so.getvalue())
            s = out["statistics"]
            ok = [x for x, v in results.items() if v[0] in (ExitCode.SUCCESS, ExitCode.RENDER_WARNINGS)]
            ne = sum(len(v[1]) for v in results.values())
            nw = sum(len(v[2]) for v in results.values())
            xs = [x for x, v in results.items() if v[3]]
            es = [x for x, v in results.items() if v[1]]
            ws = [x for x, v in results.items() if v[2]]
            want = dict(total_recipe_files=k, total_recipes_processed=k, total_errors=ne, total_warnings=nw, num_recipe_exceptions=len(xs), num_recipe_errors=len(es),
                        num_recipe_warnings=len(ws), num_recipe_success=len(ok), percent_recipe_success=share(len(ok), k), percent_recipe_exceptions=share(len(xs), k),
                        percent_recipe_errors=share(len(es), k), percent_recipe_warnings=share(len(ws), k))
            for f, v in want.items():
                run.check(s[f] == v, f"{f} is not what the results add up to", got=s[f], want=v, **case)
            for f, i in (("error_histogram", 1), ("warnings_histogram", 2), ("exception_histogram", 3)):
                w = collections.Counter(m for v in results.values() for m in v[i])
                run.check(out[f] == dict(w), f"{f} does not count the occurrences of every message", got=out[f], want=dict(w), **case)
            if not trunc:
                for f, v in (("recipes_with_exceptions", xs), ("recipes_with_errors", es), ("recipes_with_warnings", ws)):
                    run.check(sorted(out[f]) == sorted(v), f"{f} does not list the recipes", got=out[f], want=v, **case)
            want_code = ExitCode.SUCCESS if share(len(ok), k) >= rate else ExitCode.MISSED_SUCCESS_THRESHOLD
            run.eval("bulk conversion", (str(case)), case)
            run.check(code == want_code, "the exit status does not follow from the share of successes", got=str(code), want=str(want_code), share=share(len(ok), k), **case)
            if run.failures:
                return
    # ---- one run with the real converter
    with scratch() as d:
        texts = [V0_OK, V0_WARN, V1, V0_OK.replace("foo", "bar"), BROKEN[2]]
        r.shuffle(texts)
        single = {}
        for i, t in enumerate(texts):
            (d / f"p{i}" / "recipe").mkdir(parents=True)
            (d / f"p{i}" / "recipe" / "meta.yaml").write_text(t)
            with captured():
                single[f"p{i}/recipe/meta.yaml"] = CV.convert_file(d / f"p{i}" / "recipe" / "meta.yaml", None, False, False)
        with captured() as (so, se), mock.patch.object(multiprocessing, "Pool", SerialPool if run.seed % 4 else multiprocessing.Pool):
            try:
                CV.convert.callback(path=d, output=None, min_success_rate=0.5, truncate=False, debug=False)
            except SystemExit as e:
                code = e.code
        s = json.loads(so.getvalue())["statistics"]
        ok = sum(1 for v in single.values() if v.code in (ExitCode.SUCCESS, ExitCode.RENDER_WARNINGS))
        run.eval("real bulk conversion", tuple(texts))
        run.check(s["num_recipe_success"] == ok and s["total_recipes_processed"] == len(texts) and s["total_errors"] == sum(v.msg_tbl.get_message_count(MessageCategory.ERROR) for v in single.values()),
                  "a bulk conversion does not agree with the single conversions", got=s, want={k: str(v.code) for k, v in single.items()})
        for x, v in single.items():
            name, res = CV.process_recipe(d / x, d, None, False)
            run.check(name == x and res.project_name == x.split("/")[0] and res.code == v.code, "a result is not recorded under its recipe", got=(name, res.project_name, str(res.code)), want=x)
    # ---- bulk build
    errs = ["Error:  could not solve", "Error: no space left", "Error:\tbad recipe", "Error: x"]
    for n in range(run.n(50)):
        with scratch() as d:
            k = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12])
            plan = {}
            for i in range(k):
                nm = r.choice([f"f{i}", f"f{i}/recipe"])
                (d / nm).mkdir(parents=True)
                (d / nm / "recipe.yaml").write_text(V1)
                kind = r.choice(["ok", "ok", "ok-noise", "fail", "fail", "silent", "timeout", "signal"])
                found = [r.choice(errs) for _ in range(r.choice([1, 1, 2, 3]))] if kind in ("fail", "ok-noise", "signal") else []
                rc = {"ok": 0, "ok-noise": 0, "fail": r.choice([1, 2, 42, 43, 100]), "silent": 1, "signal": -9}.get(kind)
                plan[f"{nm}/recipe.yaml"] = (kind, rc, found)
            args = r.choice([[], ["--render-only"], ["-c", "conda-forge"]])
            cmds = []
            def fake_run(cmd, *a, **kw):
                text = cmd if isinstance(cmd, str) else " ".join(cmd)
                cmds.append(text)
                rel = [x for x in plan if str(d / x) in text.split()]
                kind, rc, found = plan[rel[0]]
                if kind == "timeout":
                    raise subprocess.TimeoutExpired(cmd, kw.get("timeout"))
                err = "\n".join(["noise"] + [f" ╭─ {m}" if r.random() < 0.3 else m for m in found] + ["done"])
                return subprocess.CompletedProcess(cmd, rc, "out Error: not counted", err)
            rate, trunc = r.choice(RATES), r.random() < 0.3
            log = d / "debug.json" if r.random() < 0.6 else None
            ctx = mock.Mock()
            ctx.args = list(args)
            f = inspect.unwrap(RB.rattler_bulk_build.callback)
            with mock.patch.object(subprocess, "run", fake_run), mock.patch.object(multiprocessing, "Pool", SerialPool), captured() as (so, se):
                try:
                    f(ctx, d, rate, trunc, log)
                    code = None
                except SystemExit as e:
                    code = e.code
            case = dict(builds={x: str(v) for x, v in plan.items()}, min_success_rate=rate)
            run.check(len(cmds) == k and all(c.split()[:3] == ["rattler-build", "build", "-r"] and c.split()[4:] == args for c in cmds), "not every recipe was built exactly once with the arguments given", commands=cmds, **case)
            out = json.loads(so.getvalue())
            s = out["statistics"]
            ok = [x for x, v in plan.items() if v[1] == 0]
            bad = [x for x in plan if x not in ok]
            found = {x: (["Recipe build dry-run timed out."] if v[0] == "timeout" else v[2]) for x, v in plan.items()}
            hist = collections.Counter(m for v in found.values() for m in v)
            want = dict(total_recipe_files=k, total_recipes_processed=k, total_errors=len(bad), percent_errors=share(len(bad), k), percent_success=share(len(ok), k))
            for g, v in want.items():
                run.check(s[g] == v, f"{g} is not what the builds add up to", got=s[g], want=v, **case)
            run.check(out["error_histogram"] == dict(hist), "the histogram does not count the occurrences of every message", got=out["error_histogram"], want=dict(hist), **case)
            if not trunc:
                run.check(sorted(out["recipes_with_build_error_code"]) == sorted(bad), "the recipes that failed are not listed", got=out["recipes_with_build_error_code"], want=bad, **case)
            if log is not None:
                dump = json.loads(log.read_text())["errors"]
                w = {m: sorted(x for x in found if m in found[x]) for m in hist}
                run.check({e["error"]: e["recipes"] for e in dump} == w and all(e["recipe_count"] == len(e["recipes"]) for e in dump) and len(dump) == len(w), "the debug log does not list the recipes of every message", got=dump, want=w, **case)
            want_code = ExitCode.SUCCESS if share(len(ok), k) >= rate else ExitCode.MISSED_SUCCESS_THRESHOLD
            run.eval("bulk build", str(case), case)
            run.check(code == want_code, "the exit status does not follow from the share of successes", got=str(code), want=str(want_code), share=share(len(ok), k), **case)
            if run.failures:
                return

# ------------------------------------------------------------------ bump-recipe (C12)
import hashlib, tarfile, threading, requests
from click.testing import CliRunner

def _bump_text(c):
    """a recipe in the shape c, with its current values"""
    o = []
    if c["name_var"]:
        o.append('{% set name = "foo" %}')
    if c["ver_var"]:
        q = "" if c.get("ver_raw") else '"'
        o.append("{% set version = " + q + c["version"] + q + " %}")
    for n, v in c["hash_vars"].items():
        o.append('{% set ' + n + ' = "' + v + '" %}')
    if o:
        o.append("")
    o += ["package:", "  name: " + ("{{ name }}" if c["name_var"] else "foo")]
    if c["pkg_version"] is not None:
        o.append("  version: " + c["pkg_version"])
    if c["sources"] is not None:
        o += ["", "source:"]
        for i, s in enumerate(c["sources"]):
            pre = "  - " if c["src_list"] else "  "
            for j, (k, v) in enumerate(s):
                o.append((pre if j == 0 else (" " * len(pre))) + f"{k}: {v}")
    if c["build"]:
        o += ["", "build:"] + (["  noarch: python"] if c["build"] != "number" else [])
        if c["number"] is not None:
            o.append(f"  number: {c['number']}" + c["num_comment"])
    o += ["", "requirements:", "  run:", "    - python >=3.8  # [unix]", "    - bar", "", "about:", "  summary: A summary  # comment", ""]
    return "\n".join(o)
def plain(t):
    """without the comment of an edited line, which patches do not keep"""
    return [l.split("  #")[0] if l.lstrip().startswith("number:") else l for l in t.rstrip("\n").split("\n")]
OLD_SHA, SHAS = "0" * 64, "123456789"
def _tarball(url):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w") as t:
        i = tarfile.TarInfo("a")
        d = url.encode()
        i.size = len(d)
        t.addfile(i, io.BytesIO(d))
    return b.getvalue()
class _Resp:
    status_code = 200
    def __init__(self, body):
        self.body, self.content = body, body
    def iter_content(self, chunk_size=1024, **kw):
        for i in range(0, len(self.body), max(1, chunk_size or 1024)):
            yield self.body[i:i + chunk_size]
    def raise_for_status(self):
        return None
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return None

def _case(r):
    ver = r.choice(["1.2.3", "0.1", "2024.01"])
    ver_var = r.random() < 0.6
    c = dict(name_var=r.random() < 0.5, ver_var=ver_var, version=ver, hash_vars={}, src_list=False, num_comment=r.choice(["", "", "  # [linux]", "  # note"]),
             build=r.choice(["number", "both", "both", "both", None] if r.random() < 0.2 else ["number", "both"]), number=r.choice([0, 0, 1, 7, 41]))
    if ver_var and r.random() < 0.15:
        ver = r.choice(["0", "1", "0.0", "2.5"])
        c.update(version=ver, ver_raw=True)
    c["pkg_version"] = r.choice(["{{ version }}", "{{ version }}", ver] if ver_var else [ver, ver, ver, None])
    if r.random() < 0.12:
        c["number"] = r.choice([None, "abc", "1.5", "{{ name }}" if c["name_var"] else "x1", "true", "'1x'"])
    shape = r.choice(["one", "one", "one", "list", "list", "none", "git", "mixed", "var", "var", "twovars", "strayvar", "nosha", "empty"])
    def url(i):
        return r.choice(["https://example.com/foo-{{ version }}.tar.gz" if ver_var else f"https://example.com/foo-{ver}.tar.gz", f"https://example.com/{i}/bar.tar", "https://example.com/{{ version }}/x.zip" if ver_var else "https://example.com/x.zip"]) + f"?{i}"
    git = [("git_url", "https://example.com/foo.git"), ("git_rev", "v1")]
    if shape == "none":
        c["sources"] = None
    elif shape in ("one", "strayvar"):
        c["sources"] = [[("url", url(0)), ("sha256", OLD_SHA.replace("0", "1"))]]
        if shape == "strayvar":
            c["hash_vars"] = {r.choice(["sha256", "hash", "hash_val", "hash_value"]): "2" * 64}
    elif shape == "nosha":
        c["sources"] = [[("url", url(0))]]
    elif shape == "git":
        c["sources"], c["src_list"] = [git], r.random() < 0.5
    elif shape in ("var", "twovars"):
        n = r.choice(["sha256", "hash", "hash_val", "hash_value"])
        c["hash_vars"] = {n: "3" * 64}
        if shape == "twovars":
            c["hash_vars"][r.choice([x for x in ("sha256", "hash", "hash_val", "hash_value") if x != n])] = "4" * 64
        c["sources"], c["src_list"] = [[("url", url(0)), ("sha256", "{{ " + n + " }}")]], r.random() < 0.3
    elif shape == "empty":
        c["sources"], c["src_list"] = [[("path", "./local")]], r.random() < 0.5
    else:
        c["src_list"] = True
        c["sources"] = [git if shape == "mixed" and r.random() < 0.4 else [("url", url(i)), ("sha256", str(i + 1) * 64)] + ([("folder", "x")] if r.random() < 0.3 else []) for i in range(r.choice([1, 2, 3]))]
    return c, shape

def c12(run):
    from conda_recipe_manager.commands import bump_recipe as BMP
    from conda_recipe_manager.parser.recipe_parser import RecipeParser
    from conda_recipe_manager.parser.recipe_reader import RecipeReader
    r = run.rnd
    run.rule("bumps of generated recipes against their expected text, with downloads and patches failing")
    for _ in range(run.n(900)):
        c, shape = _case(r)
        text = _bump_text(c)
        full = r.random() < 0.75
        new = r.choice(["2.0.0", "9.9", c["version"], "3.0.0rc1"])
        flag = r.random() < 0.5 or not full
        dry = r.random() < 0.25
        interval = r.choice([0.5, 1.0, 7.0])
        plan, calls, sleeps, lock = {}, {}, [], threading.Lock()
        p_bad = r.choice([0.0, 0.0, 0.5, 0.9])
        def fails(u):
            if u not in plan:
                plan[u] = (r.choice([1, 2, 3, 4, 4, 5, 6]) if r.random() < p_bad else 0, r.choice(["net", "corrupt"]))
            return plan[u]
        def get(u, *a, **kw):
            with lock:
                n, how = fails(u)
                calls[u] = calls.get(u, 0) + 1
                bad = calls[u] <= n
            if bad and how == "net":
                raise requests.exceptions.ConnectionError("x")
            return _Resp(b"not an archive" + u.encode() if bad else _tarball(u))
        patch_fail = r.randrange(1, 5) if r.random() < 0.12 else 0
        np = [0]
        real_patch = RecipeParser.patch
        def patch(self, p):
            np[0] += 1
            return False if np[0] == patch_fail else real_patch(self, p)
        bad_file = r.choice(["missing-dir", "utf8", "broken"]) if r.random() < 0.1 else None
        with scratch() as d:
            f = d / "recipe.yaml"
            if bad_file == "missing-dir":
                f.mkdir()
            elif bad_file == "utf8":
                f.write_bytes(b"package:\n  name: \xff\xfe\n")
            elif bad_file == "broken":
                text = r.choice(BROKEN)
                f.write_text(text, encoding="utf-8")
            else:
                f.write_text(text, encoding="utf-8")
                if RecipeReader(text).render() != text:
                    continue
            before = None if bad_file == "missing-dir" else f.read_bytes()
            args = [str(f), "-i", str(interval)] + (["-b"] if flag else []) + (["-d"] if dry else []) + (["-t", new] if full else [])
            (d / "tmp").mkdir()
            with mock.patch.object(tempfile, "tempdir", str(d / "tmp")), mock.patch("requests.get", get), mock.patch("time.sleep", lambda s: sleeps.append(s)), mock.patch.object(RecipeParser, "patch", patch):
                res = CliRunner().invoke(BMP.bump_recipe, args)
            after = None if bad_file == "missing-dir" else f.read_bytes()
            case = dict(recipe=text, args=args[1:], shape=shape, downloads={u: list(v) for u, v in plan.items()}, patch_fails=patch_fail, bad_file=bad_file, exit=res.exit_code)
            ok = res.exit_code == 0
            run.eval("bump", (text, tuple(args[1:]), str(plan), patch_fail), case)
            if bad_file or not ok or dry:
                run.check(before == after, "the file was written although nothing may be", **case, after=str(after))
            if bad_file:
                run.check(not ok, "a recipe that can not be read or parsed is reported as success", **case)
                continue
            # what should happen
            run.check(all(n <= 5 for n in calls.values()), "a download was tried more than five times", **case, calls=calls)
            want_sleeps = sorted(k * interval for u in calls for k in range(1, min(plan[u][0], 5) + 1))
            gave_up = any(plan[u][0] >= 5 for u in calls)
            if gave_up:
                run.check(set(sleeps) <= set(k * interval for k in range(1, 6)), "waits are not multiples of the interval", **case, sleeps=sleeps)
            else:
                run.check(sorted(sleeps) == want_sleeps, "waits do not grow with the attempts", **case, sleeps=sleeps, want=want_sleeps)
            exp = dict(c)
            num = c["number"]
            isnum = isinstance(num, int)
            must_fail = c["build"] is None or gave_up or (patch_fail and np[0] >= patch_fail) or (not full and num is not None and not isnum and num != "true")
            if must_fail:
                run.check(not ok, "a bump that failed reports success", **case)
                continue
            if num == "true" or (num is not None and not isnum):
                exp = None if not full else exp
            run.check(ok, "a bump that should succeed failed", **case, output=str(res.output)[-500:], exc=repr(res.exception))
            if not ok:
                continue
            out = res.stdout if dry else after.decode("utf-8")
            if not full:
                run.check(not calls, "a build number bump downloads something", **case)
                if isnum:
                    want = _bump_text(dict(c, number=num + 1))
                    run.check(plain(out) == plain(want), "a build number bump does more or less than adding one", **case, got=out, want=want)
                elif num is None:
                    run.check(RecipeReader(out).get_value("/build/number") == 0, "the build number is not 0", **case, got=out)
                continue
            # a new version
            exp["number"] = 0
            if c["ver_var"]:
                exp.update(version=new, ver_raw=False)
            else:
                exp["pkg_version"] = new
            def resolve(u):
                return u.replace("{{ version }}", new if c["ver_var"] else c["version"])
            shas = {}
            exp["sources"] = None if c["sources"] is None else []
            added = num is None or c["pkg_version"] is None and not c["ver_var"]
            single = c["sources"] is not None and not c["src_list"]
            for i, s in enumerate(c["sources"] or []):
                kv = dict(s)
                if "url" not in kv:
                    exp["sources"].append(s)
                    continue
                u = resolve(kv["url"])
                run.check(calls.get(u) == plan.get(u, (0,))[0] + 1, "a source was not downloaded at its new location", **case, url=u, calls=calls)
                h = hashlib.sha256(_tarball(u)).hexdigest()
                if shape == "var" and single:
                    exp["hash_vars"] = {n: h for n in c["hash_vars"]}
                    exp["sources"].append(s)
                    continue
                if "sha256" not in kv:
                    added = True
                exp["sources"].append([(k, h if k == "sha256" else v) for k, v in s])
                p = "/source/sha256" if single else f"/source/{i}/sha256"
                run.check(str(RecipeReader(out).get_value(p, default=None)) == h, "a source does not have the hash of its new archive", **case, got=out, path=p, want=h)
            run.check(len(calls) == sum("url" in dict(s) for s in c["sources"] or []), "something else was downloaded", **case, calls=calls)
            run.check(RecipeReader(out).get_value("/build/number") == 0, "the build number is not reset", **case, got=out)
            if not added and not RecipeReader(text).render() != text:
                want = _bump_text(exp)
                run.check(plain(out) == plain(want), "a bump changes something else or not enough", **case, got=out, want=want)
            else:
                v = RecipeReader(out).get_value("/package/version", default=None, sub_vars=True)
                run.check(c["pkg_version"] not in ("{{ version }}", None) and c["ver_var"] or str(v) == new, "the version is not set", **case, got=out)
