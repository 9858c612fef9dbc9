"""Entry of the verifier: verify.py Cxx [--tier quick|thorough]  -> JSON on stdout.

Every unit (a contract applied to a group of functions of the real code) is explored in its own process."""
import sys, os, json, time, importlib, traceback, multiprocessing, signal
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "contracts"))
sys.setrecursionlimit(6000)
import warnings
warnings.simplefilter("ignore")
import core, sym, rt, npf, load

UNITS, ARGS, REQUEST = [], None, {}

def one(i):
    name, fn, functions = UNITS[i][:3]
    expect = UNITS[i][3] if len(UNITS[i]) > 3 else None
    opts = UNITS[i][4] if len(UNITS[i]) > 4 else {}
    quick = ARGS.tier == "quick"
    eng = core.Engine(timeout=opts.get("timeout", 8000 if quick else 30000), seconds=opts.get("seconds", 150 if quick else 500),
                      maxpaths=opts.get("maxpaths", 6000))
    rt.CALLED.clear()
    def path(c):
        rt.SUMMARIES.clear(); rt.LOOPRULES.clear(); rt.ACTIVE.clear(); rt.IH[0] = None; rt.SYMHASH[0] = False; rt.SCAN[0] = None; rt.EMPTYDICT[0] = None; rt.GENERIC[0] = False; npf.HOOKS.clear()
        return fn(c)
    error = None
    try:
        eng.unit(name, path, functions, expect)
    except BaseException as e:
        error = traceback.format_exc()
    return dict(units=eng.units, results=eng.results, paths=eng.paths, queries=eng.queries, solver_s=eng.solver_s, called=sorted(rt.CALLED), error=error)

def main():
    global ARGS
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--unit", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    a = ARGS = ap.parse_args()
    t0 = time.time()
    out = dict(prop=a.prop, error=None)
    units, results, called = [], [], set()
    paths = queries = 0
    solver = 0.0
    mod = None
    try:
        hb = load.load(rt, npf.F)
        mod = importlib.import_module("c_" + a.prop.lower())
        UNITS.extend(u for u in mod.units(hb, a.tier) if not a.unit or a.unit in u[0])
        if len(UNITS) == 1 or a.jobs == 1:
            parts = [one(i) for i in range(len(UNITS))]
        else:
            with multiprocessing.get_context("fork").Pool(min(a.jobs, len(UNITS)), maxtasksperchild=1) as pool:
                parts = pool.map(one, range(len(UNITS)), chunksize=1)
        for p in parts:
            units += p["units"]; results += p["results"]; called.update(p["called"])
            paths += p["paths"]; queries += p["queries"]; solver += p["solver_s"]
            if p["error"]:
                out["error"] = p["error"]
    except BaseException as e:
        out["error"] = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
    out.update(units=units, functions=sorted(set(f for u in units for f in u["functions"])), called=sorted(called), paths=paths, queries=queries,
               solver_s=round(solver, 2), wall_s=round(time.time() - t0, 2))
    out["obligations"] = len(results)
    out["discharged"] = sum(r["status"] == "discharged" for r in results)
    out["backends"] = {}
    names = {}
    for r in results:
        out["backends"][r["backend"]] = out["backends"].get(r["backend"], 0) + 1
        k = "{0}: {1}".format(r["unit"], r["name"])
        names[k] = names.get(k, 0) + 1
    out["clauses"] = names
    bad = [r for r in results if r["status"] != "discharged"]
    bad.sort(key=lambda r: (r["status"] != "refuted", "case" not in r))
    out["failed"] = bad[:60]
    out["nfailed"] = len(bad)
    out["assumptions"] = list(getattr(mod, "ASSUMPTIONS", [])) if mod else []
    out["bounded_notes"] = list(getattr(mod, "BOUNDS", [])) if mod else []
    print(json.dumps(out, indent=1 if a.verbose else None, default=str))

if __name__ == "__main__":
    main()
