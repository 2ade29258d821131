#!/usr/bin/env python3
"""
Decides one property on /repo's current working tree.

  python3-vt bin/check.py C03 [--tier quick|thorough] [--seed N] [--shard K] [--only deductive|bounded] [-v]

1. Deductive part: every contract registered for the property is verified against the source of the function it is attached
   to (symbolic execution of the AST of the function as it stands in /repo, obligations to Z3 and, as a second back end, cvc5).
2. Bounded part: the real code is run against an independent oracle on generated inputs (VERIF_SEED); labelled bounded, never
   counted as proved. It also serves to find a concrete failing input when an obligation fails.
"""
import argparse, collections, json, multiprocessing as mp, os, sys, time, traceback, hashlib, faulthandler, signal
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
T0 = time.time()
from contracts import env                      # noqa: E402  (import paths)
from bin import registry                       # noqa: E402

def _verify_contract(i):
    from pyvc import contract as C
    c = C.ALL[i]
    r = c.verify()
    fn = c.fn
    return dict(path=r.path, name=r.name, status=r.status, reason=r.reason, paths=r.paths, solver_s=r.solver_s, wall=r.wall,
                obls=[dict(name=o.name, ok=o.ok, backend=o.backend, detail=o.detail, path=o.path) for o in r.obls],
                used=sorted(r.used), models=sorted(r.models), inlined=sorted(r.inlined), src=C.source_hash(fn) if fn else "", doc=c.doc)

def _verify_lemma(i):
    from pyvc import contract as C
    l = C.LEMMA_LIST[i]
    l.prove()
    return dict(path="lemma:" + l.name, name=l.name, status=l.status, reason="", paths=0, solver_s=l.wall, wall=l.wall,
                obls=[dict(name=o.name, ok=o.ok, backend=o.backend, detail=o.detail, path="") for o in l.obls], used=[], models=[], inlined=[], src="", doc="")

def _shard(args):
    pid, spec, seed, tier = args
    import importlib
    from oracles import lib
    mod, fn = spec.split(":")
    run = lib.Run(pid, seed, tier)
    mp.current_process()._config["daemon"] = False      # the code under test may itself start worker processes
    t = time.time()
    limit = 700 if tier == "quick" else 6 * 3600
    faulthandler.dump_traceback_later(limit - 5, exit=False)
    def onalarm(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    err = None
    try:
        M = importlib.import_module("oracles." + mod)
        getattr(M, fn)(run)
    except TimeoutError:
        run.fail("the code under test did not finish in time", stack=traceback.format_exc()[-3000:])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        text = traceback.format_exc()[-3000:]
        if any(os.path.realpath(f.filename).startswith(os.path.realpath(env.REPO) + os.sep) for f in tb):
            run.fail(f"unexpected {type(e).__name__} from the code under test: {e}", traceback=text)
        else:
            err = text
    finally:
        signal.alarm(0)
        faulthandler.cancel_dump_traceback_later()
    return dict(spec=spec, seed=seed, evals=run.evals, distinct=len(run.distinct), sections=run.sections, samples=run.samples[:6],
                failures=run.failures, known=run.known, rules=run.rules, wall=time.time() - t, err=err)

def _task(t):
    try:
        if t[0] == "c":
            return t, _verify_contract(t[1])
        if t[0] == "l":
            return t, _verify_lemma(t[1])
        return t, _shard(t[1])
    except Exception:
        return t, dict(crash=traceback.format_exc())

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shard", type=int)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.pid
    P = registry.PROPS[pid]
    import importlib
    tasks = []
    imp_err = None
    if a.only != "bounded":
        try:
            for m in P.get("contracts", ()):
                importlib.import_module("contracts." + m)
        except Exception:
            imp_err = traceback.format_exc()
    else:
        pass
    from pyvc import contract as C
    if a.only != "bounded":
        cs = [i for i, c in enumerate(C.ALL) if pid in c.props]
        for i in cs:        # callers see the contracts of this property
            c = C.ALL[i]
            if c.fn is not None and not c.inline_at_calls and not c.body_only:
                c.register()
        need, todo = set(), [u for i in cs for u in C.ALL[i].uses]
        while todo:
            l = todo.pop()
            if l.name not in need:
                need.add(l.name)
                todo += l.uses
        ls = [i for i, l in enumerate(C.LEMMA_LIST) if l.name in need]
        tasks += [("c", i) for i in cs] + [("l", i) for i in ls]
    shards = P.get("shards", 4) if a.tier == "quick" else P.get("shards_thorough", 8)
    btasks = []
    if a.only != "deductive":
        for spec in P.get("oracle", ()):
            n = shards
            if "@" in spec:
                spec, n = spec.split("@")
                n = int(n)
            for k in range(n):
                if a.shard is None or a.shard == k:
                    btasks.append(("b", (pid, spec, a.seed * 1000 + k, a.tier)))
    results, bounded, crashes = [], [], []
    ctx = mp.get_context("fork")
    late = {("c", i): C.ALL[i] for k, i in tasks if k == "c"}
    end = T0 + (800 if a.tier == "quick" else 12 * 3600)
    with ctx.Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_task, btasks + tasks, chunksize=1)
        while True:
            try:
                t, r = it.next(timeout=max(1.0, end - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                break
            late.pop(t, None)
            if "crash" in r:
                crashes.append((t, r["crash"]))
            elif t[0] == "b":
                bounded.append(r)
            else:
                results.append(r)
    for c in late.values():
        results.append(dict(path=c.path, name=c.name, status="unsupported", reason="no time left", paths=0, solver_s=0, wall=0, obls=[], used=[], models=[], inlined=[], src="", doc=c.doc))
    report(a, pid, P, results, bounded, crashes, imp_err)

TRIVIAL = ("exit reached",)

def known_lines(pid):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding:") and f"property={pid} " in l:
                out.append(l[len("finding:"):].strip())
    return out

def report(a, pid, P, results, bounded, crashes, imp_err):
    results.sort(key=lambda r: r["path"])
    bounded.sort(key=lambda r: (r["spec"], r["seed"]))
    fns = [r for r in results if not r["path"].startswith("lemma:")]
    obls = [(r, o) for r in results for o in r["obls"] if not any(o["name"].endswith(t) for t in TRIVIAL)]
    proved_ok = [(r, o) for r, o in obls if o["ok"] and r["status"] in ("proved", "failed")]
    failed = [(r, o) for r, o in obls if not o["ok"] and r["status"] == "failed"]
    unsupported = [r for r in fns if r["status"] == "unsupported"]
    trusted = [r for r in fns if r["status"] == "trusted"]
    counted = [(r, o) for r, o in obls if r["status"] in ("proved", "failed")]
    fails = [dict(f, seed=b["seed"], spec=b["spec"]) for b in bounded for f in b["failures"]]
    errs = [b["err"] for b in bounded if b["err"]] + [c[1] for c in crashes]
    if imp_err:
        # the package no longer exports what a contract is attached to: out of the verifier's reach, the bounded part stands in
        unsupported.append(dict(path="(contracts)", reason="contract module could not be attached: " + imp_err.strip().split("\n")[-1], status="unsupported"))
    backends = collections.Counter(o["backend"] for _, o in proved_ok)
    kf = known_lines(pid)
    hits = {}
    for b in bounded:
        for kid, ok in b["known"]:
            hits[kid] = hits.get(kid, False) or ok
    for l in kf:
        kid = [w for w in l.split() if w.startswith("id=")]
        if kid and hits.get(kid[0][3:]):
            print("KNOWN-FINDING: " + " ".join(w for w in l.split() if not w.startswith("id=")))
    listed = {w[3:] for l in kf for w in l.split() if w.startswith("id=")}
    for kid, ok in hits.items():
        if ok and kid not in listed:
            fails.append(dict(what=f"finding {kid} is not listed in known-findings.txt", case={}, seed=0, spec=""))
    ev = sum(b["evals"] for b in bounded)
    level = P.get("level", "proof")
    cov = dict(
        obligations=len(counted), discharged=len(proved_ok),
        checker_cmd=f"python3-vt bin/check.py {pid}",
        trusted_base=registry.TRUSTED_BASE + P.get("trusted", []),
        functions_under_contract=[dict(function=r["path"], status=r["status"], obligations=sum(1 for o in r["obls"] if not any(o["name"].endswith(t) for t in TRIVIAL)),
                                       paths=r["paths"], solver_s=round(r["solver_s"], 2), source_sha=r["src"], inlined=r["inlined"],
                                       assumes_contracts=r["used"], external_models=r["models"], **({"reason": r["reason"]} if r["reason"] else {})) for r in fns],
        lemmas=[dict(name=r["name"], status=r["status"], obligations=len(r["obls"])) for r in results if r["path"].startswith("lemma:")],
        back_ends=dict(backends), solver_s=round(sum(r["solver_s"] for r in results), 2),
        not_proved=[dict(function=r["path"], reason=r["reason"]) for r in unsupported],
        assumed_contracts=[r["path"] for r in trusted],
        bounded=dict(label="bounded; not counted as proved", evaluations=ev, distinct_nontrivial=sum(b["distinct"] for b in bounded),
                     sections=dict(sum((collections.Counter(b["sections"]) for b in bounded), collections.Counter())),
                     rule=sorted({x for b in bounded for x in b["rules"]}), shards=[dict(oracle=b["spec"], seed=b["seed"], wall_s=round(b["wall"], 1)) for b in bounded]),
        evaluations=ev, distinct_nontrivial=sum(b["distinct"] for b in bounded), rule="; ".join(sorted({x for b in bounded for x in b["rules"]})) or "deductive only",
        samples=[s for b in bounded for s in b["samples"]][:4] or ["none"],
        explanation=P.get("note", ""), harness_errors=[x.strip().split("\n")[-1] for x in errs],
    )
    e = dict(property=pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed, level=level, coverage=cov,
             assumptions=P.get("assumptions", []) + registry.ASSUMPTIONS, wall_s=round(time.time() - T0, 2), violations=len(fails) + len({o["name"] for _, o in failed}))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(e, f, indent=1, default=str)
    print(f"{pid}: {len(fns)} functions under contract, {len(proved_ok)}/{len(counted)} obligations discharged {dict(backends)}, "
          f"{len(unsupported)} not proved, bounded: {ev} evaluations, {len(fails)} failures, {time.time()-T0:.1f}s")
    if a.v:
        for r in results:
            print("  ", r["status"], r["path"], len(r["obls"]), f"{r['wall']:.1f}s", r["reason"])
        for b in bounded:
            print("  ", b["spec"], b["seed"], b["evals"], b["distinct"], f"{b['wall']:.1f}s", b["sections"])
    for r in unsupported:
        print(f"  not proved (bounded stand-in only): {r['path']}: {r['reason']}")
    if fails or failed:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f"{pid}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, reproduce=f"cd /verif && VERIF_SEED={a.seed} VERIF_TIER={a.tier} python3-vt bin/check.py {pid}",
                           failing_inputs=fails[:20],
                           failed_obligations=[dict(function=r["path"], obligation=o["name"], path=o["path"], backend=o["backend"], verifier_output=o["detail"]) for r, o in failed[:20]]), f, indent=1, default=str)
        for r, o in failed[:5]:
            print(f"  failed obligation: {o['name']} [{r['path']}]")
        for x in fails[:5]:
            print(f"  failing input: {x['what']}")
        print(f"VIOLATION property={pid} replay={rp}" + ("" if fails else " no-failing-input-found"))
        sys.exit(1)
    if errs:      # the harness itself failed (a hook it uses is not there): that part gives no answer, the others do
        print("check error:\n" + errs[0], file=sys.stderr)
        if not counted or len(errs) > len(bounded):
            sys.exit(2)
    if not counted and not ev:
        print("check error: nothing was explored", file=sys.stderr)
        sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    main()
