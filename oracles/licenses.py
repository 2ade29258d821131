"""Bounded concrete part of C15 (licenses), against the database file itself."""
import json
from pathlib import Path
from .lib import *
import conda_recipe_manager.licenses as LP
from conda_recipe_manager.licenses.spdx_utils import SpdxUtils

CURATED = {"BSD-2-Clause", "NOASSERTION"}
def c15(run):
    r = run.rnd
    run.rule("every identifier and name of the database, edits of them, compound expressions over them, and unrelated texts; each looked up twice")
    db = json.loads((Path(LP.__file__).parent / "spdx_licenses.json").read_text(encoding="utf-8"))["licenses"]
    ids, names = [x["licenseId"] for x in db], [x["name"] for x in db]
    idset, u = set(ids), SpdxUtils()
    run.check(all(isinstance(x, str) for x in ids + names), "the database entries have an identifier and a name")
    def look(text, section):
        run.eval(section, sample=text)
        got, e = quiet_call(u.find_closest_license_match, text)
        run.check(e is None, f"looking up a license raises {e!r}", text=text)
        run.check(got is None or (isinstance(got, str) and (got in idset or got in CURATED)), f"looking up a license gives {got!r}, which is no SPDX identifier", text=text)
        if text in idset:
            run.check(got == text, f"an identifier is matched to {got!r} instead of itself", text=text)
        up = text.strip().upper()
        if text not in idset and any(o in up for o in ("AND", "OR", "WITH", ",")):
            run.check(got is None, f"a compound expression is reduced to {got!r}", text=text)
        return got
    for i in ids:
        look(i, "identifiers")
    for n in r.sample(names, run.n(150, len(names))):
        look(n, "names")
    for n in range(run.n(150, 4000)):
        t = r.choice(ids + names)
        how = r.choice(["lower", "upper", "space", "drop", "swap", "add", "junk"])
        k = r.randrange(len(t))
        t = {"lower": t.lower(), "upper": t.upper(), "space": f" {t}\t", "drop": t[:k] + t[k + 1:], "swap": t[:k] + t[k:k + 2][::-1] + t[k + 2:], "add": t[:k] + r.choice("- .vV1x") + t[k:],
             "junk": "".join(r.choice("abcdefgLGPMITx -.0123") for _ in range(r.randrange(0, 12)))}[how]
        g = look(t, "edited texts")
        run.check(look(t, "repeated") == g, "looking a license up again gives another answer", text=t)
    for n in range(run.n(300, 5000)):
        op = r.choice([" AND ", " OR ", " WITH ", " and ", " or ", " with ", ", ", ",", " Or ", " wItH "])
        look(r.choice(ids) + op + r.choice(ids), "compound expressions")
    for t in ["", " ", "unlimited", "UNLIMITED", 'BSD 2-clause "Simplified"', "BSD 2-Clause \"Simplified\" ", "LGPL-2.1-or-later", "none", "ꟊ", "ﬁ"]:
        look(t, "special texts")
