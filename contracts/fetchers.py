"""Artifact fetchers (fetcher/*.py): data is exposed after success only, every failure is a FetchError, git targets."""
from . import env, world
from .world import *
import requests, tarfile, zipfile, zlib, lzma, shutil, git
from git import Repo
from tempfile import TemporaryDirectory
from typing import Optional
from conda_recipe_manager.fetcher.base_artifact_fetcher import BaseArtifactFetcher
from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher, ArtifactArchiveType
from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher, _GitTarget
from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError, FetchUnsupportedError

FB = "conda_recipe_manager.fetcher.base_artifact_fetcher:BaseArtifactFetcher."
FH = "conda_recipe_manager.fetcher.http_artifact_fetcher:HttpArtifactFetcher."
FG = "conda_recipe_manager.fetcher.git_artifact_fetcher:GitArtifactFetcher."
PF = ("C13",)
PG = ("C14",)
for _c in (BaseArtifactFetcher, HttpArtifactFetcher, GitArtifactFetcher):
    FIELDS.update({(_c, "_name"): (STR,), (_c, "_temp_dir"): (("opq", "TempDir"),), (_c, "_temp_dir_path"): (("opq", "Path"),), (_c, "_successfully_fetched"): (BOOL,)})
FIELDS.update({(HttpArtifactFetcher, "_archive_url"): (STR,), (HttpArtifactFetcher, "_archive_type"): (("enum", ArtifactArchiveType),), (HttpArtifactFetcher, "_archive_path"): (("opq", "Path"),),
               (HttpArtifactFetcher, "_uncompressed_archive_path"): (("opq", "Path"),), (GitArtifactFetcher, "_is_remote"): (BOOL,), (GitArtifactFetcher, "_git_target"): ty(_GitTarget)})
def gfield(v, name):
    """a field of the git target v"""
    return at(tseq(V.vt(v)), _GitTarget._fields.index(name))
def fetched(s, when=None):
    return V.vb((when or s).fv(s.self, "_successfully_fetched"))
Contract(FB + "_fetch_guard", params={"self": BaseArtifactFetcher}, props=PF, modifies=lambda s: [], raises={FetchRequiredError: lambda s: z3.Not(fetched(s, s.old))},
    ensures=lambda s: [("returns only after a fetch has succeeded", fetched(s, s.old))])

# ---- the network, archives and git: every call may fail in any of the ways its library documents
FETCH = [("fx_gets", I), ("fx_path", V), ("fx_data", Sq), ("fx_body", Sq), ("fx_git", V), ("fx_checkouts", I)]
NET = (requests.exceptions.RequestException,)
ARCHIVE = (tarfile.TarError, zipfile.BadZipFile, zlib.error, lzma.LZMAError, EOFError, ValueError, RuntimeError, NotImplementedError, OSError)
GIT = (git.exc.GitError,)
VL.OPAQUE_CLASSES[requests.Response] = "Response"
def _get(ip, a, kw):
    setg(ip, "fx_gets", getg(ip, "fx_gets", I) + 1)
    may_raise(ip, NET, "requests.get")
    return opq(ip, "Response", "resp")
EXTERNALS[requests.get] = _get
EXTERNALS["requests.api.get"] = _get
def _chunks(ip, o, a, kw):
    l = ip.fresh("chunks", list[str])
    setg(ip, "fx_body", ip.st.sel("#list", l.t))
    return l
OPQ_METHODS[("Response", "iter_content")] = _chunks
def _open(ip, a, kw):
    may_raise(ip, (OSError,), "open")
    setg(ip, "fx_data", sempty)
    setg(ip, "fx_path", to_v(a[0]))
    return opq(ip, "ArchiveFile", "file")
def _write(ip, o, a, kw):
    may_raise(ip, (OSError,) + NET, "write")      # the network error stands for the next chunk not arriving
    setg(ip, "fx_data", build(getg(ip, "fx_data", Sq), to_v(a[0])))
    return ip.fresh("n", int)
OPQ_METHODS[("ArchiveFile", "write")] = _write
def use_open():
    EXTERNALS[open] = IT.BUILTINS[open] = _open
def _q(ip, a, kw):
    may_raise(ip, ARCHIVE, "archive")
    return ip.fresh("is", bool)
EXTERNALS[tarfile.is_tarfile] = EXTERNALS[zipfile.is_zipfile] = _q
VL.OPAQUE_CLASSES[tarfile.TarFile] = VL.OPAQUE_CLASSES[zipfile.ZipFile] = "Archive"
def _aopen(ip, a, kw):
    may_raise(ip, ARCHIVE, "archive")
    return opq(ip, "Archive", "archive")
EXTERNALS[tarfile.open] = EXTERNALS[zipfile.ZipFile] = _aopen
EXTERNALS["tarfile.TarFile.open"] = _aopen
def _ext(ip, o, a, kw):
    may_raise(ip, ARCHIVE, "extract")
OPQ_METHODS[("Archive", "extractall")] = _ext
# ---- hashing
import hashlib
file_of, digest_of, hex_of = F("file_of", V, L.Opq), F("digest_of", L.Opq, V, L.Opq), F("hex_of", L.Opq, Str)
def _hopen(ip, a, kw):
    may_raise(ip, (OSError,), "open")
    return Sym("opq", file_of(to_v(a[0])), "File")
def use_hash_open():
    EXTERNALS[open] = IT.BUILTINS[open] = _hopen
def _digest(ip, a, kw):
    may_raise(ip, (OSError,), "read")
    return Sym("opq", digest_of(a[0].t, to_v(a[1])), "Digest")
EXTERNALS[hashlib.file_digest] = _digest
OPQ_METHODS[("Digest", "hexdigest")] = lambda ip, o, a, kw: Sym("str", hex_of(o.t))
def sha_of(path, algo="sha256"):
    return V.str(hex_of(digest_of(file_of(path), to_v(algo))))
Contract("conda_recipe_manager.utils.cryptography.hashing:hash_file", props=PF, params={"hash_algo": str}, setup=lambda *a: use_hash_open(), modifies=lambda s: [], raises={OSError: lambda s: True},
    ensures=lambda s: [("the digest of the file by that algorithm", to_v(s.result) == V.str(hex_of(digest_of(file_of(to_v(s.file)), to_v(s.hash_algo)))))])
keeps = lambda s: fetched(s) == fetched(s, s.old)
Contract(FH + "_extract", params={"self": HttpArtifactFetcher}, props=PF, modifies=lambda s: [("_archive_type", s.self)], raises={FetchError: lambda s: True},
    ensures=lambda s: [("knows the type of archive", z3.Or(s.fv(s.self, "_archive_type") == to_v(ArtifactArchiveType.TARBALL), s.fv(s.self, "_archive_type") == to_v(ArtifactArchiveType.ZIP)))])
def _hf(s):
    g, j = s.ghost, s.ip.st.fresh("j", I)
    data, body = g["fx_data"], g["fx_body"]
    yield "the data is exposed", fetched(s)
    yield "downloads once", g["fx_gets"] == s.old.ghost["fx_gets"] + 1
    yield "the archive is what was downloaded", g["fx_path"] == s.old.fv(s.self, "_archive_path")
    yield "every part in order", z3.Implies(z3.And(j >= 0, j < slen(data)), at(data, j) == at(body, j))
    yield "nothing is left out before the end", z3.Or(slen(data) == slen(body), at(body, slen(data)) == to_v(""))
    yield "knows the type of archive", z3.Or(s.fv(s.self, "_archive_type") == to_v(ArtifactArchiveType.TARBALL), s.fv(s.self, "_archive_type") == to_v(ArtifactArchiveType.ZIP))
def _parts(L):
    g, j = L.ghost, z3.Const("pj", I)
    yield "as many parts", slen(g["fx_data"]) == L.i
    yield "the same parts", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.i), at(g["fx_data"], j) == at(g["fx_body"], j)), patterns=[at(g["fx_data"], j)])
    yield "the same file", g["fx_path"] == L.fn.fv(L.fn.args["self"], "_archive_path")
Contract(FH + "fetch", templates=[("parts", _parts)], params={"self": HttpArtifactFetcher}, props=PF, ghosts=FETCH, setup=lambda *a: use_open(),
    modifies=lambda s: [("_archive_type", s.self), ("_successfully_fetched", s.self), ("ghost:fx_gets", None), ("ghost:fx_data", None), ("ghost:fx_path", None), ("ghost:fx_body", None)],
    raises={FetchError: lambda s: [("nothing is exposed that was not", keeps(s)), ("tries once", s.ghost["fx_gets"] == s.old.ghost["fx_gets"] + 1)]}, ensures=_hf)
for _m, _f in (("get_path_to_source_code", "_uncompressed_archive_path"), ("get_archive_type", "_archive_type")):
    Contract(FH + _m, params={"self": HttpArtifactFetcher}, props=PF, modifies=lambda s: [], raises={FetchRequiredError: lambda s: z3.Not(fetched(s, s.old))},
        ensures=lambda s, f=_f: [("only after a fetch has succeeded", fetched(s, s.old)), ("what the fetch left", to_v(s.result) == s.old.fv(s.self, f))])
Contract(FH + "get_archive_sha256", params={"self": HttpArtifactFetcher}, props=PF, modifies=lambda s: [], raises={FetchRequiredError: lambda s: z3.Not(fetched(s, s.old)), OSError: lambda s: fetched(s, s.old)},
    ensures=lambda s: [("only after a fetch has succeeded", fetched(s, s.old)), ("the SHA-256 of the archive", to_v(s.result) == sha_of(s.old.fv(s.self, "_archive_path")))])

# ---- git
VL.OPAQUE_CLASSES[Repo] = "Repo"
def _clone(ip, a, kw):
    may_raise(ip, GIT + (OSError,), "clone")
    return opq(ip, "Repo", "repo")
EXTERNALS["git.repo.base.Repo.clone_from"] = _clone
EXTERNALS[Repo] = EXTERNALS["git.repo.base.Repo"] = _clone
def _copy(ip, a, kw):
    may_raise(ip, (OSError,), "copytree")
    return opq(ip, "Path", "dst")
EXTERNALS[shutil.copytree] = _copy
OPQ_METHODS[("Repo", ".git")] = lambda ip, o, a, kw: opq(ip, "GitCmd", "git")
def _checkout(ip, o, a, kw):
    may_raise(ip, GIT, "checkout")
    setg(ip, "fx_git", to_v(a[0]))
    setg(ip, "fx_checkouts", getg(ip, "fx_checkouts", I) + 1)
OPQ_METHODS[("GitCmd", "checkout")] = _checkout
def target(s):
    t = s.old.fv(s.self, "_git_target")
    tag, rev, br = (gfield(t, f) for f in ("tag", "rev", "branch"))
    return z3.If(tag != V.none, tag, z3.If(rev != V.none, rev, br))
Contract(FG + "_clone", params={"self": GitArtifactFetcher}, props=PF, modifies=lambda s: [], raises={git.exc.GitError: lambda s: True, OSError: lambda s: True})
Contract(FG + "_resolve_checkout_target", params={"self": GitArtifactFetcher}, props=PF, modifies=lambda s: [],
    ensures=lambda s: [("the tag, else the revision, else the branch", to_v(s.result) == target(s))])
def _gf(s):
    g, g0, t = s.ghost, s.old.ghost, target(s)
    some = z3.And(t != V.none, t != to_v(""))
    yield "the code is exposed", fetched(s)
    yield "checks out the target exactly once", z3.Implies(some, z3.And(g["fx_git"] == t, g["fx_checkouts"] == g0["fx_checkouts"] + 1))
    yield "stays on the default branch without a target", z3.Implies(z3.Not(some), z3.And(g["fx_git"] == g0["fx_git"], g["fx_checkouts"] == g0["fx_checkouts"]))
Contract(FG + "fetch", params={"self": GitArtifactFetcher}, props=PF, ghosts=FETCH, modifies=lambda s: [("_successfully_fetched", s.self), ("ghost:fx_git", None), ("ghost:fx_checkouts", None)],
    raises={FetchError: lambda s: [("nothing is exposed that was not", keeps(s))]}, ensures=_gf)
Contract(FG + "get_path_to_source_code", params={"self": GitArtifactFetcher}, props=PF, modifies=lambda s: [], raises={FetchRequiredError: lambda s: z3.Not(fetched(s, s.old))},
    ensures=lambda s: [("only after a fetch has succeeded", fetched(s, s.old)), ("what the fetch left", to_v(s.result) == s.old.fv(s.self, "_temp_dir_path"))])

# ------------------------------------------------------------------ fetchers of a recipe (C14)
from urllib.parse import urlparse
from conda_recipe_manager.fetcher import artifact_fetcher as AF
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.enums import SchemaVersion
from .reader import RR
VL.OPAQUE_CLASSES[TemporaryDirectory] = "TempDir"
EXTERNALS[TemporaryDirectory] = lambda ip, a, kw: opq(ip, "TempDir", "tmp")
OPQ_METHODS[("TempDir", ".name")] = any_str
OPQ_METHODS[("Path", "exists")] = lambda ip, o, a, kw: ip.fresh("exists", bool)
def _urlparse(ip, a, kw):
    may_raise(ip, (ValueError,), "urlparse")
    return opq(ip, "Url", "url")
EXTERNALS[urlparse] = _urlparse
OPQ_METHODS[("Url", ".path")] = any_str
PFG = PF + PG
def _new(s):
    yield "keeps its name", s.fv(s.self, "_name") == to_v(s.name)
    yield "nothing is exposed before a fetch", z3.Not(fetched(s))
Contract(FB + "__init__", params={"self": BaseArtifactFetcher}, props=PFG, ensures=_new,
    modifies=lambda s: [(f, s.self) for f in ("_name", "_temp_dir", "_temp_dir_path", "_successfully_fetched")])
BASE = ("_name", "_temp_dir", "_temp_dir_path", "_successfully_fetched")
Contract(FH + "__init__", params={"self": HttpArtifactFetcher}, props=PFG, modifies=lambda s: [(f, s.self) for f in BASE + ("_archive_url", "_archive_type", "_archive_path", "_uncompressed_archive_path")],
    ensures=lambda s: list(_new(s)) + [("fetches from that URL", s.fv(s.self, "_archive_url") == to_v(s.archive_url))])
def _gnew(s):
    yield from _new(s)
    t = s.fv(s.self, "_git_target")
    for f in _GitTarget._fields:
        yield f"has that {f}", gfield(t, f) == to_v(getattr(s, f))
Contract(FG + "__init__", params={"self": GitArtifactFetcher}, props=PFG, modifies=lambda s: [(f, s.self) for f in BASE + ("_is_remote", "_git_target")], ensures=_gnew)
AM = "conda_recipe_manager.fetcher.artifact_fetcher:"
V1KEY = {"git_url": "git", "git_branch": "branch", "git_tag": "tag", "git_rev": "rev"}
def is_v1(s, r):
    return s.old.fv(r, "_schema_version") == to_v(SchemaVersion.V1)
def _rgk(s):
    for k, v in V1KEY.items():
        yield f"the key of {k}", z3.Implies(to_v(s.key) == to_v(k), to_v(s.result) == z3.If(is_v1(s, s.recipe), to_v(v), to_v(k)))
Contract(AM + "_render_git_key", props=PG, inline_at_calls=True, modifies=lambda s: [], ensures=_rgk,
    raises={FetchUnsupportedError: lambda s: z3.And(is_v1(s, s.recipe), *[to_v(s.key) != to_v(k) for k in V1KEY])})

SRC = [("src", V), ("src_seq", Sq), ("src_dicts", z3.ArraySort(I, Dc))]
DICT_ATOM, LIST_ATOM = ("ref", ("dict", (STR,), "JSON")), ("ref", ("list", "JSON"))
isd = lambda v: VL.atom_cond(v, DICT_ATOM, VL.json_ty())
isl = lambda v: VL.atom_cond(v, LIST_ATOM, VL.json_ty())
def _gv(s):
    v, g = to_v(s.result), s.ghost
    j = z3.Const("j", I)
    q = s.ip.st.sel("#list", V.vr(v), s.arr("#list"))
    yield "the value of /source", z3.And(g["src"] == v, g["src_dicts"] == s.arr("#dict"), g["src_seq"] == z3.If(isl(v), q, build(sempty, v)))
    yield "made for the caller", z3.Implies(isd(v), V.vr(v) >= s.old.alloc)
    yield "with new members", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < slen(q), isl(v), V.is_ref(at(q, j))), V.vr(at(q, j)) >= s.old.alloc), patterns=[at(q, j)])
Contract(RR + "get_value", trusted=True, props=PG, params={"self": RecipeReader}, ghosts=SRC, modifies=lambda s: [("ghost:" + g, None) for g, _ in SRC], ensures=_gv)
Contract(RR + "get_recipe_name", trusted=True, props=PG, params={"self": RecipeReader}, modifies=lambda s: [])
DArr = z3.ArraySort(I, Dc)
def entry(dh, v, k):
    """the value of key k of the source v, None if it has none or is no mapping"""
    d = z3.Select(dh, V.vr(v))
    return z3.If(z3.And(isd(v), dhas(d, to_v(k))), dget(d, to_v(k)), V.none)
def gentry(dh, v, v1, k):
    v1 = v1 == to_v(SchemaVersion.V1)
    d = z3.Select(dh, V.vr(v))
    return z3.If(isd(v), z3.If(v1, z3.If(dhas(d, to_v(V1KEY[k])), dget(d, to_v(V1KEY[k])), V.none), z3.If(dhas(d, to_v(k)), dget(d, to_v(k)), V.none)), V.none)
def http(dh, v):
    return entry(dh, v, "url") != V.none
def supported(dh, v, v1):
    return z3.Or(http(dh, v), gentry(dh, v, v1, "git_url") != V.none)
nsup = RecFn("nsup", [DArr, Sq, V, I], I, lambda dh, q, v1, n: z3.If(n <= 0, z3.IntVal(0), nsup(dh, q, v1, n - 1) + z3.If(supported(dh, at(q, n - 1), v1), z3.IntVal(1), z3.IntVal(0))))
_dh, _q, _v1, _k = z3.Const("dh", DArr), z3.Const("q", Sq), z3.Const("v1", V), z3.Const("k", I)
L_nsup = Lemma("nsup_mono", [_dh, _q, _v1, _k], lambda n, dh, q, v1, k: z3.Implies(z3.And(0 <= k, k < n), z3.And(nsup(dh, q, v1, k) >= 0, nsup(dh, q, v1, n) >= nsup(dh, q, v1, k) + z3.If(supported(dh, at(q, k), v1), 1, 0))),
    lambda n, dh, q, v1, k: [MP(nsup(dh, q, v1, n), nsup(dh, q, v1, k))])
def text(v):
    """str() of a JSON value"""
    return z3.If(V.is_str(v), v, V.str(z3.If(V.is_int(v), L.itoa(V.vi(v)), z3.If(V.is_bool(v), z3.If(V.vb(v), lit("True"), lit("False")), z3.If(V.is_flt(v), L.ftoa(V.vf(v)), L.pystr(v))))))
def opt(v):
    return z3.If(v == V.none, v, text(v))
Contract("conda_recipe_manager.utils.typing:optional_str", props=PG, params={"val": "JSON"}, modifies=lambda s: [],
    ensures=lambda s: [("nothing stays nothing, anything else becomes its text", to_v(s.result) == opt(to_v(s.val)))])
def made(arr, D, dh, v, v1, k):
    """the fetcher recorded under key k is the one the source v asks for"""
    f = V.vr(dget(D, k))
    t = z3.Select(arr("_git_target"), f)
    yield "present iff supported", dhas(D, k) == supported(dh, v, v1)
    yield "an HTTP fetcher for its URL", z3.Implies(http(dh, v), z3.And(V.is_ref(dget(D, k)), cls(f) == VL.cls_id(HttpArtifactFetcher), z3.Select(arr("_archive_url"), f) == opt(entry(dh, v, "url"))))
    yield "else a git fetcher with its location and target", z3.Implies(z3.And(z3.Not(http(dh, v)), supported(dh, v, v1)), z3.And(V.is_ref(dget(D, k)), cls(f) == VL.cls_id(GitArtifactFetcher),
        *[gfield(t, n) == opt(gentry(dh, v, v1, "git_" + n)) for n in ("url", "branch", "tag", "rev")]))
def key(islist, j):
    return z3.If(islist, V.str(cat(lit("/source/"), L.itoa(j))), to_v("/source"))
def _fr(s):
    g = s.ghost
    q, dh, v1 = g["src_seq"], g["src_dicts"], s.old.fv(s.recipe, "_schema_version")
    D = s.dic(s.result)
    j = s.ip.st.fresh("j", I)
    rng = z3.And(0 <= j, j < slen(q))
    for n, f in made(s.arr, D, dh, at(q, j), v1, key(isl(g["src"]), j)):
        yield n, z3.Implies(rng, f)
    yield "the paths are those of the supported sources, in order", z3.Implies(z3.And(rng, supported(dh, at(q, j), v1)), at(dkeys(D), nsup(dh, q, v1, j)) == key(isl(g["src"]), j))
    yield "nothing else", slen(dkeys(D)) == nsup(dh, q, v1, slen(q))
    yield "unsupported sources are left out only if that was asked for", z3.Or(s.truth(s.ignore_unsupported), nsup(dh, q, v1, slen(q)) == slen(q))
def _frt(L_):
    g = L_.ghost
    q, dh, v1 = g["src_seq"], g["src_dicts"], L_.fn.fv(L_.fn.args["recipe"], "_schema_version")
    D = L_.now.dic(L_.get("sources"))
    i, j = L_.i, z3.Const("tj", I)
    K = key(isl(g["src"]), j)
    yield "as many sources", L_.it.length() == slen(q)
    for n, f in made(L_._arr, D, dh, at(q, j), v1, K):
        yield n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), f), patterns=[L.itoa(j)])
    yield "order", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i, supported(dh, at(q, j), v1)), at(dkeys(D), nsup(dh, q, v1, j)) == K), patterns=[L.itoa(j)])
    yield "so many", slen(dkeys(D)) == nsup(dh, q, v1, i)
    yield "later paths are free", z3.ForAll([j], z3.Implies(z3.And(j >= i, j < slen(q)), z3.Not(dhas(D, K))), patterns=[L.itoa(j)])
    yield "all or ignored", z3.Or(L_.fn.truth(L_.fn.args["ignore_unsupported"]), nsup(dh, q, v1, i) == i)
Contract(AM + "from_recipe", uses=[L_nsup], props=PG, ghosts=SRC, modifies=lambda s: [("ghost:" + g, None) for g, _ in SRC], ensures=_fr, templates=[("sources so far", _frt)],
    raises={FetchUnsupportedError: lambda s: z3.And(z3.Not(s.truth(s.ignore_unsupported)))})
