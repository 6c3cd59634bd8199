"""run.py PID -- decide one property on /repo's current working tree."""
import importlib
import json
import multiprocessing as mp_
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_path():
    for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        if p not in sys.path: sys.path.append(p)
    for p in (os.path.join(REPO, "src"), HERE):
        if p in sys.path: sys.path.remove(p)
        sys.path.insert(0, p)
    sys.setrecursionlimit(20000)


def work(job):
    pid, name, seed, thorough = job
    setup_path()
    t0 = time.time()
    import traceback, resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))     # runaway recursion in changed code must not take the sandbox down
    try:
        mod = importlib.import_module("props." + pid)
        c = mod.contracts()[name]()
        from vc.contract import check_contract, Contract
        import microjax
        assert os.path.realpath(microjax.__file__).startswith(os.path.realpath(REPO)), microjax.__file__
        if isinstance(c, Contract): recs = check_contract(c, seed, thorough)
        else:
            recs = c.run(seed=seed, thorough=thorough)
            for r in recs:
                r.setdefault("contract", name)
                r.setdefault("wall_s", round(time.time() - t0, 2))
        info = {"functions": list(c.functions), "trusted": list(c.trusted), "bounded": c.bounded, "note": c.note}
    except Exception as e:
        recs = [{"contract": name, "name": name + "/load", "status": "unknown", "backend": "", "reason": "%s: %s" % (type(e).__name__, str(e)[:500]), "trace": traceback.format_exc()[-2500:], "wall_s": time.time() - t0}]
        info = {"functions": [], "trusted": [], "bounded": None, "note": ""}
    return name, recs, info, time.time() - t0


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    pid = args[0]
    only = args[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    verbose = "-v" in sys.argv
    setup_path()
    mod = importlib.import_module("props." + pid)
    names = list(mod.contracts().keys())
    if only: names = [n for n in names if any(o in n for o in only)]
    jobs = [(pid, n, seed, thorough) for n in names]
    ctx = mp_.get_context("spawn")
    nproc = min(int(os.environ.get("VERIF_PROCS", "8")), max(1, len(jobs)))
    results, infos = {}, {}
    known = json.load(open(os.path.join(HERE, "known_findings.json"))) if os.path.exists(os.path.join(HERE, "known_findings.json")) else {"findings": []}
    knownset = {(k["property"], k["obligation"]): k for k in known["findings"] if k.get("status") == "open"}
    full = limit = 840 if not thorough else 7200
    with ctx.Pool(nproc) as pool:
        it = pool.imap_unordered(work, jobs, chunksize=1)
        done = 0
        while done < len(jobs):
            try:
                name, recs, info, w = it.next(timeout=max(1, limit - (time.time() - t0)))
            except mp_.TimeoutError:
                break
            done += 1
            results[name], infos[name] = recs, info
            # a violation with a failing input is settled: what has not finished soon after is left out
            if not thorough and limit == full and any(r["status"] == "refuted" and (pid, r["name"]) not in knownset for r in recs): limit = min(full, time.time() - t0 + 150)
            if verbose:
                for r in recs: print("  %-9s %-60s %s %s [%.1fs]" % (r["status"], r["name"], r["backend"], r["reason"][:150] if r["status"] != "proved" else "", r["wall_s"]), flush=True)
                for r in recs:
                    if r.get("trace") and "-vv" in sys.argv: print(r["trace"])
        pool.terminate()
    for n in names:
        if n not in results:
            results[n] = [{"contract": n, "name": n + "/timeout", "status": "unknown", "backend": "", "reason": "wall-clock budget", "wall_s": limit}] if limit == full else []
            infos[n] = {"functions": [], "trusted": [], "bounded": None, "note": ""}
    allr = [r for n in names for r in results[n]]
    proved = [r for r in allr if r["status"] == "proved"]
    bounded = [r for r in allr if r["status"] == "bounded-ok"]
    bad = [r for r in allr if r["status"] not in ("proved", "bounded-ok")]
    viol = []
    for r in bad:
        k = knownset.get((pid, r["name"]))
        if k is not None and r["status"] == "refuted":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            r["status"] = "known-finding"
        else: viol.append(r)
    if not allr or not (proved or bounded):
        if not viol: viol.append({"name": "no-obligations", "status": "unknown", "reason": "zero obligations generated", "contract": "-"})
    backends = {}
    for r in proved: backends[r["backend"]] = backends.get(r["backend"], 0) + 1
    assumptions = sorted({t for n in names for t in infos[n]["trusted"]} | {l for r in allr for l in r.get("vc_log", [])})
    from vc.common import BASE_ASSUMPTIONS, TRUSTED_BASE
    level = getattr(mod, "LEVEL", "proof")
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
        "coverage": {
            "obligations": len(proved) + len(bad), "discharged": len(proved),
            "bounded_obligations_checked": len(bounded),
            "checker_cmd": "bash /verif/check.sh %s" % pid,
            "trusted_base": TRUSTED_BASE,
            "explanation": getattr(mod, "EXPLAIN", ""),
            "discharged_by_back_end": backends,
            "functions_under_contract": sorted({f for n in names for f in infos[n]["functions"]}),
            "bounded": sorted({infos[n]["bounded"] for n in names if infos[n]["bounded"]}),
            "solver_s": round(sum(r.get("stats", {}).get("solver_s", 0) for r in allr), 2),
            "case_split_paths": sum(r.get("stats", {}).get("paths", 0) for r in allr),
            "contracts": {n: {"obligations": len(results[n]), "discharged": sum(r["status"] == "proved" for r in results[n]), "bounded": infos[n]["bounded"]} for n in names},
            "failed": [{k: r.get(k) for k in ("name", "status", "reason")} for r in bad],
        },
        "assumptions": BASE_ASSUMPTIONS + assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if level != "proof":
        ev["coverage"]["evaluations"] = len(bounded) + len(proved)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    rc = 0
    # replayed violations first
    viol.sort(key=lambda r: r["status"] != "refuted")
    for i, r in enumerate(viol[:5]):
        p = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (pid, i))
        json.dump({"property": pid, "obligation": r["name"], "status": r["status"], "verifier_output": r.get("reason", ""), "trace": r.get("trace"), "replay": r.get("replay"),
                   "rerun": "bash /verif/check.sh %s %s -v" % (pid, r["contract"])}, open(p, "w"), indent=1, default=str)
        print("obligation %s: %s %s" % (r["name"], r["status"], str(r.get("reason", ""))[:300]))
        print("VIOLATION property=%s replay=%s%s" % (pid, p, "" if r["status"] == "refuted" else " no-failing-input-found"))
        rc = 1
    print("%s: %d obligations, %d discharged, %d bounded checks ok, %d violations, %.1fs" % (pid, ev["coverage"]["obligations"], len(proved), len(bounded), len(viol), time.time() - t0))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
