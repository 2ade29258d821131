"""Bounded concrete parts of C13 (fetchers) and C14 (fetchers of a recipe)."""
import contextlib, gzip, hashlib, io, lzma, os, shutil, subprocess, tarfile, tempfile, zipfile
from pathlib import Path
from unittest import mock
import requests
from .lib import *
from .commands import scratch
from conda_recipe_manager.fetcher.artifact_fetcher import from_recipe
from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError, FetchUnsupportedError
from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher
from conda_recipe_manager.fetcher.http_artifact_fetcher import ArtifactArchiveType, HttpArtifactFetcher
from conda_recipe_manager.parser.recipe_reader import RecipeReader

@contextlib.contextmanager
def temp_home():
    """all temporary directories of the code under test are made in a scratch directory"""
    with scratch() as d:
        (d / "tmp").mkdir()
        with mock.patch.object(tempfile, "tempdir", str(d / "tmp")):
            yield d

FILES = {"src/a.py": b"print(1)\n", "src/b.txt": b"x" * 3000, "README": b"read me"}
def make_archive(kind, r):
    b = io.BytesIO()
    if kind == "zip" or kind == "zip-stored":
        with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if kind == "zip" else zipfile.ZIP_STORED) as z:
            for n, c in FILES.items():
                z.writestr(n, c)
    else:
        with tarfile.open(fileobj=b, mode={"tar": "w", "gz": "w:gz", "bz2": "w:bz2", "xz": "w:xz"}[kind]) as t:
            for n, c in FILES.items():
                i = tarfile.TarInfo(n)
                i.size = len(c)
                t.addfile(i, io.BytesIO(c))
    return b.getvalue()
KINDS = ["zip", "zip-stored", "tar", "gz", "bz2", "xz"]
def spoil(data, how, r):
    d = bytearray(data)
    if how == "cut":
        return bytes(d[:r.randrange(1, len(d))])
    if how == "flip":
        for _ in range(r.choice([1, 1, 3, 20])):
            d[r.randrange(len(d))] = r.randrange(256)
    if how == "encrypted":       # general purpose bit 0 of every header
        for sig, off in ((b"PK\x03\x04", 6), (b"PK\x01\x02", 8)):
            i = d.find(sig)
            while i >= 0:
                d[i + off] |= 1
                i = d.find(sig, i + 1)
    if how == "method":
        for sig, off in ((b"PK\x03\x04", 8), (b"PK\x01\x02", 10)):
            i = d.find(sig)
            while i >= 0:
                d[i + off] = 99
                i = d.find(sig, i + 1)
    return bytes(d)
X = requests.exceptions
NET_ERRORS = [X.ConnectionError("x"), X.Timeout("x"), X.ChunkedEncodingError("x"), X.ContentDecodingError("x"), X.SSLError("x"), X.TooManyRedirects("x"), X.HTTPError("x"), X.RequestException("x"), X.InvalidURL("x"), OSError("disk"), ConnectionResetError("x")]
class Response:
    status_code = 200
    ok = True
    def __init__(self, data, size, fail_at, exc):
        self.data, self.size, self.fail_at, self.exc = data, size, fail_at, exc
    def raise_for_status(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    def close(self):
        pass
    @property
    def content(self):
        return b"".join(self.iter_content())
    def iter_content(self, chunk_size=1, decode_unicode=False):
        n = 0
        for i in range(0, len(self.data), self.size):
            if n == self.fail_at:
                raise self.exc
            n += 1
            yield self.data[i:i + self.size]
        if self.fail_at is not None and self.fail_at >= n:
            raise self.exc

def before(run, f, case):
    """nothing is exposed"""
    for m in ("get_path_to_source_code", "get_archive_sha256", "get_archive_type"):
        if hasattr(f, m):
            v, e = quiet_call(getattr(f, m))
            run.check(isinstance(e, FetchRequiredError), f"{m}() does not demand a fetch although none has succeeded", got=repr(e or v), **case)
def tree_of(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in Path(d).rglob("*") if p.is_file() and ".git" not in p.relative_to(d).parts}

def c13(run):
    r = run.rnd
    run.rule("sequences of fetches with failures injected into the download and the archive; git clones of local repositories at every kind of target")
    for n in range(run.n(260)):
        with temp_home() as home:
            kind = r.choice(KINDS)
            good = make_archive(kind, r)
            f = HttpArtifactFetcher(r.choice(["foo", "foo_1", "a/b"]), "https://example.com/dl/" + r.choice(["foo.bin", "foo-1.0.tar.gz", "foo.zip?x=1", ""]))
            no_file = not f._archive_url.rsplit("/", 1)[1] if hasattr(f, "_archive_url") else False
            if no_file:
                f = HttpArtifactFetcher("foo", "https://example.com/dl/foo-1.0.tar.gz")
            before(run, f, {"case": "new"})
            hist, ever = [], False
            for _ in range(r.randrange(1, 4)):
                how = r.choice(["ok", "ok", "get", "chunk", "cut", "flip", "empty", "junk", "encrypted", "method", "gone"])
                data, fail_at, exc, at_get = good, None, r.choice(NET_ERRORS), False
                if how == "get":
                    at_get = True
                elif how == "chunk":
                    fail_at = r.choice([0, 1, 2, 50])
                elif how in ("encrypted", "method"):
                    data = spoil(make_archive("zip", r), how, r)
                elif how in ("cut", "flip"):
                    data = spoil(good, how, r)
                elif how == "empty":
                    data = b""
                elif how == "junk":
                    data = b"<html>not found</html>" * 10
                elif how == "gone":
                    for p in (home / "tmp").iterdir():
                        shutil.rmtree(p)
                    ever_before = ever
                urls = []
                def get(url, *a, **k):
                    urls.append(url)
                    if at_get:
                        raise exc
                    return Response(data, 997, fail_at, exc)
                hist.append((how, kind, type(exc).__name__ if how in ("get", "chunk") else ""))
                case = dict(history=list(hist))
                with mock.patch.object(requests, "get", get), mock.patch.object(requests.api, "get", get):
                    _, e = quiet_call(f.fetch)
                run.eval("http", tuple(hist) + (data if how in ("cut", "flip") else b"",), case)
                run.check(e is None or isinstance(e, FetchError), "a failed download or extraction does not surface as a fetch error", got=repr(e), data=data.hex()[:200] if how in ("cut", "flip") else "", **case)
                if how in ("get", "chunk", "empty", "junk", "gone", "encrypted", "method"):
                    run.check(e is not None, "a fetch that can not have succeeded reports success", **case)
                if how == "ok":
                    run.check(e is None or "gone" in [h[0] for h in hist], "a good archive is refused", got=repr(e), **case)
                if e is None:
                    ever = True
                    run.check(urls == [f._archive_url] if hasattr(f, "_archive_url") else len(urls) == 1, "the archive was not downloaded once from its URL", got=urls, **case)
                    got, e2 = quiet_call(f.get_archive_sha256)
                    run.check(got == hashlib.sha256(data).hexdigest(), "the hash is not that of the downloaded archive", got=repr(e2 or got), **case)
                    t, e2 = quiet_call(f.get_archive_type)
                    if how == "ok":
                        run.check(t == (ArtifactArchiveType.ZIP if kind.startswith("zip") else ArtifactArchiveType.TARBALL), "the archive type is wrong", got=repr(e2 or t), **case)
                        p, e2 = quiet_call(f.get_path_to_source_code)
                        if run.check(e2 is None, "a fetched source has no path", got=repr(e2), **case):
                            run.check({k: v for k, v in tree_of(p).items() if k in FILES} == FILES, "the source code at the path is not that of the archive", got=list(tree_of(p)), **case)
                elif not ever:
                    before(run, f, case)
                if run.failures:
                    return
                if how == "gone":
                    break
    # malformed locations
    for u in ["not-a-url", "", "http://", "http://[::1/x", "http://a..b/x.zip", "http://" + "a" * 70 + ".com/x", "file:///etc/hostname", "ftp://x/y.zip", "http://h:abc/x", "http://127.0.0.1:1/x.tar.gz"]:
        with temp_home():
            f, e = quiet_call(HttpArtifactFetcher, "n", u)
            if run.check(e is None, "a malformed URL prevents constructing the fetcher", url=u, got=repr(e)):
                _, e = quiet_call(f.fetch)
                run.check(isinstance(e, FetchError), "a malformed URL does not surface as a fetch error", url=u, got=repr(e))
                before(run, f, {"url": u})
            run.eval("url", u, u)
    git_part(run)

GENV = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
def git(d, *a):
    return subprocess.run(["git", "-C", str(d), *a], env=GENV, check=True, capture_output=True, text=True).stdout.strip()
def make_repo(d):
    d.mkdir()
    git(d, "init", "-q", "-b", "trunk")
    c = {}
    def commit(name):
        (d / "file").write_text(name)
        (d / name).write_text(name)
        git(d, "add", "-A")
        git(d, "commit", "-q", "-m", name)
        c[name] = git(d, "rev-parse", "HEAD")
    commit("c0")
    git(d, "tag", "v1")
    commit("c1")
    git(d, "checkout", "-q", "-b", "dev")
    commit("c2")
    git(d, "tag", "-a", "v2", "-m", "v2")
    git(d, "checkout", "-q", "-b", "rel/1.x", "v1")
    commit("c3")
    git(d, "checkout", "-q", "trunk")
    commit("c4")
    return c

def git_part(run):
    r = run.rnd
    with temp_home() as home:
        src = home / "origin"
        c = make_repo(src)
        (home / "plain").mkdir()
        (home / "plain" / "x").write_text("x")
        at = dict(v1="c0", v2="c2", dev="c2", **{"rel/1.x": "c3"}, trunk="c4")
        with mock.patch.dict(os.environ, GENV):
            for n in range(run.n(26)):
                url = r.choice([str(src)] * 3 + ["file://" + str(src)] * 3 + [str(home / "plain"), str(home / "nowhere"), "file://" + str(home / "nowhere")])
                tag = r.choice([None, None, "v1", "v2", "no-such-tag"])
                rev = r.choice([None, None, c["c1"], c["c3"][:9], "0" * 40])
                br = r.choice([None, None, "dev", "rel/1.x", "no-such-branch"])
                if r.random() < 0.15:
                    tag = rev = br = None
                case = dict(url=url.replace(str(home), ""), branch=br, tag=tag, rev=rev)
                f, e = quiet_call(GitArtifactFetcher, "g", url, branch=br, tag=tag, rev=rev)
                if not run.check(e is None, "a git fetcher can not be constructed", got=repr(e), **case):
                    return
                before(run, f, case)
                want = tag or rev or br
                want = "c4" if want is None else at.get(want) or {c["c1"]: "c1", c["c3"][:9]: "c3"}.get(want)
                if "origin" not in url:
                    want = None
                _, e = quiet_call(f.fetch)
                run.eval("git", tuple(case.values()), case)
                run.check(e is None or isinstance(e, FetchError), "a failed clone or checkout does not surface as a fetch error", got=repr(e), **case)
                if want is None:
                    run.check(e is not None, "a fetch that can not have succeeded reports success", **case)
                    before(run, f, case)
                elif run.check(e is None, "a git source is refused", got=repr(e), **case):
                    p, e = quiet_call(f.get_path_to_source_code)
                    if run.check(e is None, "a fetched source has no path", got=repr(e), **case):
                        run.check(git(p, "rev-parse", "HEAD") == c[want] and (p / "file").read_text() == want, "the source is not checked out at the tag, else the revision, else the branch", want=want, got=(p / "file").read_text(), **case)
                if run.failures:
                    return

# ------------------------------------------------------------------ C14
def source_of(r, v1, i):
    """(key-value lines of one source, what should come of it)"""
    kv, exp = [], None
    urls = ["https://example.com/{}-{}.tar.gz".format(r.choice(["foo", "bar"]), r.choice(["1.0.1", "{{ version }}"])), "http://h.org/x.zip", "https://example.com/y.tgz"]
    key = {"git_url": "git", "git_branch": "branch", "git_tag": "tag", "git_rev": "rev"}
    other = (lambda k: k) if v1 else (lambda k: key[k])
    mine = (lambda k: key[k]) if v1 else (lambda k: k)
    kind = r.choice(["url", "url", "git", "git", "both", "path", "foreign-git"])
    g = {}
    if kind in ("url", "both"):
        u = r.choice(urls)
        kv.append(("url", u))
    if kind in ("git", "both", "foreign-git"):
        k = mine if kind != "foreign-git" else other
        kv.append((k("git_url"), "https://example.com/%s.git" % r.choice(["a", "b"])))
        for x, vs in (("git_branch", ["main", "dev/{{ version }}"]), ("git_tag", ["v{{ version }}", "rel-2"]), ("git_rev", ["abcdef1", 1234567])):
            if r.random() < 0.5:
                kv.append((k(x), r.choice(vs)))
    if kind in ("path", "foreign-git") or r.random() < 0.4:
        kv.append((("path" if kind == "path" else r.choice(["sha256", "folder", "patches_dir"])), "abc%d" % i))
    if v1 and kind != "foreign-git" and r.random() < 0.2 or not v1 and r.random() < 0.1:
        kv.append((other("git_tag"), "foreign"))
    r.shuffle(kv)
    d = dict(kv)
    sub = lambda t: None if t is None else str(t).replace("{{ version }}", "1.2.3").replace("${1.2.3", "1.2.3") if True else t
    if d.get("url") is not None:
        exp = ("http", sub(d["url"]))
    elif d.get(mine("git_url")) is not None:
        exp = ("git", sub(d[mine("git_url")]), sub(d.get(mine("git_branch"))), sub(d.get(mine("git_tag"))), sub(d.get(mine("git_rev"))))
    return kv, exp

def c14(run):
    r = run.rnd
    run.rule("generated source sections of both formats against an independent reading of them")
    for n in range(run.n(500)):
        v1 = r.random() < 0.5
        shape = r.choice(["single", "list", "list", "list", "none", "scalars"])
        srcs = [source_of(r, v1, i) for i in range(1 if shape == "single" else r.randrange(1, 5))] if shape in ("single", "list") else []
        jin = (lambda t: t.replace("{{ version }}", "${{ version }}")) if v1 else (lambda t: t)
        name = r.choice(["foo", "foo-bar", "{{ name }}", None])
        t = ["schema_version: 1", "", "context:", "  name: nn", "  version: 1.2.3", ""] if v1 else ['{% set name = "nn" %}', '{% set version = "1.2.3" %}', ""]
        if name:
            t += ["package:", "  name: " + (name.replace("{{", "${{") if v1 else name), ""]
        if shape == "single":
            t += ["source:"] + [f"  {k}: {jin(str(v))}" if v is not None else f"  {k}: null" for k, v in srcs[0][0]]
        elif shape == "list":
            t.append("source:")
            for kv, _ in srcs:
                for i, (k, v) in enumerate(kv):
                    t.append(("  - " if i == 0 else "    ") + (f"{k}: {jin(str(v))}" if v is not None else f"{k}: null"))
                    if r.random() < 0.1:
                        t.append("    # a comment")
        elif shape == "scalars":
            t += ["source:", "  - just text", "  - more"]
        t += ["", "build:", "  number: 0", ""]
        text = "\n".join(t)
        exp = {("/source" if shape == "single" else f"/source/{i}"): e for i, (_, e) in enumerate(srcs)}
        if shape == "scalars":
            exp = {"/source/0": None, "/source/1": None}
        with temp_home():
            rec = RecipeReader(text)
            for ign in (True, False):
                got, e = quiet_call(from_recipe, rec, ign)
                case = dict(recipe=text, ignore_unsupported=ign)
                run.eval("from_recipe", (text, ign), {"recipe": text, "ignore": ign} if n < 2 else None)
                if not ign and None in exp.values():
                    run.check(isinstance(e, FetchUnsupportedError), "an unsupported source is not reported as unsupported", got=repr(e or got), **case)
                    continue
                if not run.check(e is None, "building the fetchers of a recipe fails", got=repr(e), **case):
                    continue
                want = {k: v for k, v in exp.items() if v is not None}
                seen = {}
                for k, f in got.items():
                    if isinstance(f, HttpArtifactFetcher):
                        seen[k] = ("http", f._archive_url)
                    elif isinstance(f, GitArtifactFetcher):
                        g = f._git_target
                        seen[k] = ("git", g.url, g.branch, g.tag, g.rev)
                    else:
                        seen[k] = repr(f)
                run.check(seen == want, "not every supported source has one fetcher at its path with its location and target", got=seen, want=want, **case)
                run.check(len({id(f) for f in got.values()}) == len(got), "two sources share a fetcher", **case)
        if run.failures:
            return
