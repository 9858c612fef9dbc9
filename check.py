#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]: decide one property on /repo's current source.

1. vc/verify.py generates the obligations of the property's contracts from the current source and discharges them (z3, cvc5).
2. oracle/run.py evaluates the same contracts, executably, on the real code under the repository's own interpreter: it replays
   counter-models, searches a failing input when an obligation fails, and is the bounded stand-in for what the verifier cannot reach.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line.
"""
import sys, os, json, time, subprocess, tempfile, signal
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/venv-pypy/bin/python"
VT = "python3-vt"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")

def popen(cmd):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=HERE, start_new_session=True)

def finish(p, deadline):
    try:
        o, e = p.communicate(timeout=max(1, deadline - time.time()))
        return o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), True

def jsonof(text):
    try:
        return json.loads(text)
    except Exception:
        try:
            return json.loads(text[text.index("{"):])
        except Exception:
            return None

def shards(prop, seed, seconds, n):
    return [popen([PYPY, "oracle/run.py", prop, "--seed", str(seed), "--time", str(seconds), "--shard", "{0}/{1}".format(i, n)]) for i in range(n)]

def gather(procs, deadline):
    tot = dict(cases=0, ok=0, inconclusive=0, violations=[], notes=[], import_error=None, lost=0)
    for p in procs:
        o, e, late = finish(p, deadline)
        d = jsonof(o)
        if d is None:
            tot["lost"] += 1
            tot["notes"].append((e or o)[-400:])
            continue
        for k in ("cases", "ok", "inconclusive"):
            tot[k] += d.get(k, 0)
        tot["violations"] += d.get("violations", [])
        tot["notes"] += d.get("notes", [])
        if d.get("import_error"):
            tot["import_error"] = d["import_error"]
    return tot

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    quick = tier == "quick"
    hascontract = os.path.exists(os.path.join(HERE, "contracts", "c_{0}.py".format(prop.lower())))
    hasoracle = True
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replaypath = os.path.join(evdir, "replay-{0}.json".format(prop))

    ver = popen([VT, "vc/verify.py", prop, "--tier", tier, "--jobs", "6" if quick else "5"]) if hascontract else None
    procs = shards(prop, seed, 25 if quick else 240, 4 if hascontract else 8)
    orc = gather(procs, t0 + (120 if quick else 420))
    v = None
    if ver is not None:
        o, e, late = finish(ver, t0 + (420 if quick else 700))
        v = jsonof(o)
        if v is None:
            v = dict(error="no answer from the verifier: " + (e[-500:] or ("timeout" if late else "")), units=[], obligations=0, discharged=0, failed=[], backends={}, clauses={}, functions=[],
                     called=[], assumptions=[], bounded_notes=[], solver_s=0, wall_s=0, paths=0, queries=0, nfailed=0)

    violation = None         # (kind, payload)
    notes = []
    if orc["violations"]:
        violation = ("input", orc["violations"][0])
    refuted = [r for r in (v or {}).get("failed", []) if r["status"] == "refuted"]
    if violation is None and refuted:
        cases = []
        for r in refuted:
            if r.get("case") is not None and len(cases) < 24:
                cases.append(r["case"])
        replayed = None
        if cases:
            with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
                json.dump(cases, f)
            try:
                d = jsonof(finish(popen([PYPY, "oracle/run.py", prop, "--cases", f.name]), time.time() + 90)[0])
            finally:
                os.unlink(f.name)
            replayed = d
            if d and d["violations"]:
                violation = ("input", d["violations"][0])
        if violation is None:
            # a different search for a failing input, then the bare obligation
            more = gather(shards(prop, seed + 1000003, 40 if quick else 120, 8), time.time() + 170)
            for k in ("cases", "ok", "inconclusive"):
                orc[k] += more[k]
            if more["violations"]:
                violation = ("input", more["violations"][0])
        if violation is None:
            bare = [r for r in refuted if r.get("exact", True) and not (r.get("case") is not None and replayed and replayed["inconclusive"] == 0)]
            if bare:
                violation = ("obligation", bare[0])
            else:
                notes.append("counter-models of {0} obligations did not reproduce on the real code: treated as undecided".format(len(refuted)))

    undecided = []
    if v is not None:
        if v.get("error"):
            undecided.append("verifier: " + v["error"].strip().split("\n")[-1][:300])
        for u in v["units"]:
            if u.get("unsupported"):
                undecided.append("{0}: {1}".format(u["unit"], u["unsupported"]))
        seen = set()
        for r in v["failed"]:
            if violation is None or r["status"] != "refuted":
                k = "{0} / {1}: {2}".format(r.get("unit"), r["name"], r["status"])
                if k not in seen:
                    seen.add(k)
                    undecided.append(k)
    proved = bool(v and v["obligations"] and not undecided and v["discharged"] == v["obligations"])

    cov = dict(bounded=dict(evaluations=orc["cases"], passed=orc["ok"], inconclusive=orc["inconclusive"],
                            role="bounded stand-in and replay: the executable form of the contract on the real code, random inputs; not counted as proved"))
    if v is not None:
        cov.update(obligations=v["obligations"], discharged=v["discharged"],
                   checker_cmd="python3-vt vc/verify.py {0} --tier {1}".format(prop, tier),
                   backends=v["backends"], solver_s=v["solver_s"], verifier_wall_s=v["wall_s"], paths=v["paths"], solver_queries=v["queries"],
                   functions_under_contract=v["functions"], functions_executed=v["called"][:200],
                   units=[dict((k, u[k]) for k in ("unit", "paths", "reached", "obligations", "discharged", "seconds", "unsupported") if k in u) for u in v["units"]],
                   clauses=v["clauses"], undecided=undecided, scope_notes=v["bounded_notes"],
                   trusted_base=["vc/ (loader, symbolic semantics of the Python subset, loop and dict rules)", "vc/npf.py (assumed contracts of numpy)", "z3 5.3.2", "cvc5 1.1.2"])
    else:
        cov.update(evaluations=orc["cases"], distinct_nontrivial=orc["ok"], rule="random instances of the contract's inputs, all executed on the real code",
                   explanation="executable contract only (bounded)", samples=[])
    level = "proof" if proved else "other"
    if not proved:
        cov["explanation"] = "not fully proved on this tree: " + "; ".join(undecided)[:1500] if undecided else cov.get("explanation", "an obligation failed")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=(v or {}).get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    if notes or orc["notes"] or orc["import_error"]:
        ev["coverage"]["notes"] = notes + [str(x)[:400] for x in orc["notes"][:3]] + ([orc["import_error"][-400:]] if orc["import_error"] else [])
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    known = []
    kf = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith("known: property={0} ".format(prop)):
                known.append(line.split(" ", 2)[2].strip())
    for k in known:
        print("KNOWN-FINDING: property={0} {1}".format(prop, k))

    print("{0} {1}: obligations {2}/{3} discharged, {4} undecided; executable contract held on {5}/{6} inputs; {7:.1f} s".format(
        prop, tier, (v or {}).get("discharged", 0), (v or {}).get("obligations", 0), len(undecided), orc["ok"], orc["cases"], time.time() - t0))
    for u in undecided[:8]:
        print("  undecided (bounded stand-in used): {0}".format(u[:300]))
    if violation:
        kind, what = violation
        failing = ["{0} / {1}".format(r.get("unit"), r["name"]) for r in refuted][:10]
        with open(replaypath, "w") as f:
            if kind == "input":
                json.dump(dict(property=prop, case=what["case"], why=what["why"], failed_obligations=failing,
                               replay_cmd="{0} {1}/oracle/run.py {2} --case {3}".format(PYPY, HERE, prop, replaypath)), f, indent=1)
            else:
                json.dump(dict(property=prop, failed_obligations=failing, obligation=what, verifier_output=v["failed"][:10], note="no failing input found"), f, indent=1, default=str)
        print("  " + (what.get("why") or what.get("name") or "").split("\n")[0][:400])
        print("VIOLATION property={0} replay={1}{2}".format(prop, replaypath, "" if kind == "input" else " no-failing-input-found"))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
