"""
Independent model of recipe files, used by the bounded concrete part of the checks.

A recipe is generated as a model (never by parsing) and rendered to text by this module's own renderer. The model knows
values, comments, paths and line order, so the code under test is compared with an oracle that shares nothing with it.
"""
import copy, random, re, sys, os, json

SELECTORS = ["[osx]", "[win]", "[linux]", "[not win]", "[unix and not osx]", "[py<37]", "[linux and aarch64]", "[win or osx]"]
COMMENTS = ["# note", "# keep this", "# TODO: check", "# see issue 42", "# a b  c"]
WORDS = ["foo", "bar", "baz", "python", "libcurl", "zlib", "abc", "qux", "x64", "alpha", "beta-2", "tool_x"]
KEYS = ["name", "version", "about", "build", "number", "script", "test", "commands", "imports", "home", "license",
        "summary", "requirements", "host", "run", "extra", "maintainers", "tag", "skip", "url"]


class Sc:
    """scalar"""
    def __init__(self, v):
        self.v = v
class Di:
    """mapping: entries are ('k', key, child, comment) or ('c', text)"""
    def __init__(self, e=None):
        self.e = e if e is not None else []
class Li:
    """sequence: entries are ('i', child, comment) or ('c', text)"""
    def __init__(self, e=None):
        self.e = e if e is not None else []


def data(m):
    if isinstance(m, Sc):
        return m.v
    if isinstance(m, Di):
        return {e[1]: data(e[2]) for e in m.e if e[0] == "k"}
    return [data(e[1]) for e in m.e if e[0] == "i"]

def of_data(d):
    """model of plain data, without comments"""
    if isinstance(d, dict):
        return Di([("k", k, of_data(v), "") for k, v in d.items()])
    if isinstance(d, list):
        return Li([("i", of_data(v), "") for v in d])
    return Sc(d)

def scalar_text(v):
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    return str(v)

class Line:
    """one rendered line: the path of the value or key on it (None for comment lines), text before the comment, comment"""
    __slots__ = ("path", "text", "comment")
    def __init__(self, path, text, comment=""):
        self.path, self.text, self.comment = path, text, comment
    def __str__(self):
        return f"{self.text}  {self.comment}".rstrip() if self.comment else self.text
    def __repr__(self):
        return f"<{self.path} {str(self)!r}>"

def _lines(m, ind, path, out):
    sp = "  " * ind
    if isinstance(m, Di):
        for e in m.e:
            if e[0] == "c":
                out.append(Line(None, sp + e[1]))
                continue
            _, k, ch, com = e
            p = path + (k,)
            if isinstance(ch, Sc):
                out.append(Line(p, f"{sp}{k}:" if ch.v is None else f"{sp}{k}: {scalar_text(ch.v)}", com))
            else:
                out.append(Line(p, f"{sp}{k}:", com))
                _lines(ch, ind + 1, p, out)
    else:
        i = 0
        for e in m.e:
            if e[0] == "c":
                out.append(Line(None, sp + e[1]))
                continue
            _, ch, com = e
            p = path + (i,)
            i += 1
            if isinstance(ch, Sc):
                out.append(Line(p, f"{sp}- {scalar_text(ch.v)}", com))
            else:
                sub = []
                _lines(ch, ind + 1, p, sub)
                sub[0].text = sp + "- " + sub[0].text[2 * ind + 2:]
                out.extend(sub)

def lines(m):
    """lines of a top-level mapping"""
    out = []
    for e in m.e:
        if e[0] == "c":
            out.append(Line(None, e[1]))
        else:
            _lines(Di([e]), 0, (), out)
            out.append(Line(None, ""))
    return out

def render(m, variables=None):
    pre = []
    for k, v in (variables or {}).items():
        pre.append("{%% set %s = %s %%}" % (k, f'"{v}"' if isinstance(v, str) else v))
    if pre:
        pre.append("")
    return "\n".join(pre + [str(l) for l in lines(m)])

def path_str(p):
    return "/" + "/".join(str(x) for x in p)

def walk(m, path=()):
    """(path, model) of every addressable value below m, parents first"""
    yield path, m
    if isinstance(m, Di):
        for e in m.e:
            if e[0] == "k":
                yield from walk(e[2], path + (e[1],))
    elif isinstance(m, Li):
        i = 0
        for e in m.e:
            if e[0] == "i":
                yield from walk(e[1], path + (i,))
                i += 1

def get(m, path):
    for p in path:
        if isinstance(m, Di):
            for e in m.e:
                if e[0] == "k" and e[1] == p:
                    m = e[2]
                    break
            else:
                raise KeyError(path)
        elif isinstance(m, Li):
            it = [e for e in m.e if e[0] == "i"]
            if not isinstance(p, int) or not 0 <= p < len(it):
                raise KeyError(path)
            m = it[p][1]
        else:
            raise KeyError(path)
    return m

def entry_index(m, p):
    """position in m.e of the entry addressed by p"""
    if isinstance(m, Di):
        for n, e in enumerate(m.e):
            if e[0] == "k" and e[1] == p:
                return n
    elif isinstance(m, Li):
        i = 0
        for n, e in enumerate(m.e):
            if e[0] == "i":
                if i == p:
                    return n
                i += 1
    raise KeyError(p)

def comment_of(m, path):
    par = get(m, path[:-1])
    e = par.e[entry_index(par, path[-1])]
    return e[-1]

def set_comment(m, path, com):
    par = get(m, path[:-1])
    n = entry_index(par, path[-1])
    par.e[n] = par.e[n][:-1] + (com,)


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, rnd, jinja=None):
        self.r = rnd
        self.jinja = jinja or []
    def comment(self, p=0.35):
        r = self.r
        if r.random() > p:
            return ""
        x = r.random()
        if x < 0.5:
            return "# " + r.choice(SELECTORS)
        if x < 0.75:
            return r.choice(COMMENTS)
        return "# " + r.choice(SELECTORS) + " " + r.choice(COMMENTS)[2:]
    def scalar(self, none=False):
        r = self.r
        x = r.random()
        if self.jinja and x < 0.15:
            return Sc("{{ " + r.choice(self.jinja) + " }}")
        if x < 0.6:
            return Sc(r.choice(WORDS))
        if x < 0.7:
            return Sc(r.choice(WORDS) + " >=" + str(r.randrange(9)) + "." + str(r.randrange(9)) + ".1")
        if x < 0.8:
            return Sc(r.randrange(100))
        if x < 0.88:
            return Sc(r.choice([True, False]))
        if x < 0.92 and none:
            return Sc(None)
        return Sc(r.choice(["https://foo.org/a.tar.gz", "1.2.3", "MIT", "a b c", "foo.bar"]))
    def keys(self, n):
        return self.r.sample(KEYS, n)
    def di(self, depth, lo=1, hi=4, first_simple=False):
        r = self.r
        m = Di()
        for n, k in enumerate(self.keys(r.randint(lo, hi))):
            if n and r.random() < 0.12:
                m.e.append(("c", r.choice(COMMENTS)))
            if first_simple and n == 0:
                ch = self.scalar()
            else:
                ch = self.node(depth - 1, none=True)
            m.e.append(("k", k, ch, self.comment()))
        return m
    def li(self, depth, lo=1, hi=4):
        r = self.r
        m = Li()
        dicts = depth > 1 and r.random() < 0.35
        for n in range(r.randint(lo, hi)):
            if r.random() < 0.15:
                m.e.append(("c", r.choice(COMMENTS)))
            m.e.append(("i", self.di(depth - 1, 1, 3, True) if dicts else self.scalar(), "" if dicts else self.comment()))
        return m
    def node(self, depth, none=False):
        r = self.r
        if depth <= 0 or r.random() < 0.4:
            return self.scalar(none)
        return self.li(depth) if r.random() < 0.5 else self.di(depth)
    def recipe(self, depth=3, lo=2, hi=5):
        r = self.r
        m = Di()
        for n, k in enumerate(self.keys(r.randint(lo, hi))):
            if r.random() < 0.1:
                m.e.append(("c", r.choice(COMMENTS)))
            m.e.append(("k", k, self.node(depth, none=True), self.comment(0.2)))
        return m


# ------------------------------------------------------------------ running a bounded part
class Case(Exception):
    pass

class Run:
    """counts, samples and failures of one bounded run"""
    def __init__(self, pid, seed, tier):
        self.pid, self.tier = pid, tier
        self.seed = seed
        self.rnd = random.Random(f"{pid}-{seed}")
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.rules = []
        self.known = []
        self.sections = {}
    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough or quick * 12)
    def eval(self, section, key=None, sample=None):
        self.evals += 1
        self.sections[section] = self.sections.get(section, 0) + 1
        if key is not None and len(self.distinct) < 2_000_000:
            self.distinct.add(hash((section, key)))
        if sample is not None and self.sections[section] <= 2:
            self.samples.append({"section": section, "case": sample})
    def fail(self, what, **case):
        """record a violation on the real code"""
        if len(self.failures) < 40:
            self.failures.append({"what": what, "case": case})
    def check(self, cond, what, **case):
        if not cond:
            self.fail(what, **case)
        return cond
    def rule(self, s):
        self.rules.append(s)

def quiet_call(f, *a, **k):
    """(result, None) or (None, exception)"""
    try:
        return f(*a, **k), None
    except Exception as e:      # noqa
        return None, e
