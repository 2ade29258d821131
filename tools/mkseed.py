"""tools/mkseed.py SPEC.py  -- SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text).
Writes seeded/<ID>; the patch is made in a scratch copy of the working tree's files."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--reverse"], capture_output=True, text=True).stdout.split()[0]
def make(ns):
    d = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    out = ""
    texts = {}
    for f, old, new in ns["EDITS"]:
        t = texts.get(f) or open("/repo/conda_recipe_manager/" + f).read()
        assert t.count(old) == 1, (ns["ID"], f, t.count(old), old)
        texts[f] = t.replace(old, new)
    for f, n in texts.items():
        t = open("/repo/conda_recipe_manager/" + f).read()
        with tempfile.TemporaryDirectory() as td:
            a, b = os.path.join(td, "a"), os.path.join(td, "b")
            open(a, "w").write(t); open(b, "w").write(n)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", a, b], capture_output=True, text=True).stdout
        rel = "conda_recipe_manager/" + f
        lines = r.splitlines(True)
        i = next(i for i, l in enumerate(lines) if l.startswith("@@"))
        out += f"diff --git a/{rel} b/{rel}\n--- a/{rel}\n+++ b/{rel}\n" + "".join(lines[i:])
        base = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{rel}"], capture_output=True, text=True).stdout.splitlines()
        gone = [l[1:].rstrip("\n") for l in lines[i:] if l.startswith("-")]
        if not any(g in base for g in gone):
            print("WARNING: no removed line is an original one:", gone)
    open(os.path.join(d, "patch.diff"), "w").write(out)
    conda = ns.get("CONDA", True)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo' + (':$D/stubs' if conda else '')
        + '"\ncd /repo && exec /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
    if conda:
        subprocess.run(["cp", "-r", os.path.join(V, "stubs"), d])
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
for s in sys.argv[1:]:
    ns = {}
    exec(open(s).read(), ns)
    make(ns)
    print(ns["ID"])
