"""Driver of the executable contracts.

    run.py C01 --seed 1 --time 20 --shard 0/8      random cases until time is up; prints one JSON object
    run.py C01 --case FILE                          replay one case: exit 1 and the reason if it violates the contract
"""
import argparse, json, os, random, signal, sys, time, traceback, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy
numpy.seterr(all="ignore")

def load():
    import ref
    import importlib
    table = {}
    for mod in ("p_axes", "p_expr", "p_hist", "p_book", "p_plot"):
        try:
            m = importlib.import_module(mod)
        except ImportError as e:
            if mod in str(e):
                continue
            raise
        for n in dir(m):
            if n.startswith("gen_C") or n.startswith("run_C"):
                table[n] = getattr(m, n)
    return ref, table

def innermost(tb):
    frames = traceback.extract_tb(tb)
    return frames[-1].filename if frames else ""

class TooLong(BaseException):
    pass

def on_alarm(signum, frame):
    raise TooLong()

def run_case(ref, table, prop, case, limit=10):
    """returns (status, text): ok | violation | inconclusive"""
    try:
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(limit)
        try:
            table["run_" + prop](case)
        finally:
            signal.alarm(0)
    except ref.Violation as e:
        return "violation", str(e)
    except (TooLong, MemoryError):
        return "inconclusive", "a case took more than {0} s or too much memory".format(limit)
    except Exception as e:
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
        names = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any("/histbook/" in n for n in names) and not os.path.abspath(names[-1]).startswith(os.path.dirname(os.path.abspath(__file__))):
            return "violation", "unexpected {0}: {1}\n{2}".format(type(e).__name__, e, text)
        return "inconclusive", text
    return "ok", ""

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--time", type=float, default=10)
    ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--case")
    ap.add_argument("--cases", help="JSON list of cases to run (counter-models)")
    a = ap.parse_args()
    out = dict(prop=a.prop, cases=0, ok=0, inconclusive=0, violations=[], notes=[])
    try:
        ref, table = load()
    except Exception as e:
        text = traceback.format_exc()
        # the package itself cannot be imported: that is for the build and the tests to say
        print(json.dumps(dict(out, import_error=text)))
        return 3
    if a.case:
        with open(a.case) as f:
            case = json.load(f)
        case = case.get("case", case)
        st, text = run_case(ref, table, a.prop, case)
        print(st, text)
        return 1 if st == "violation" else 0
    if a.cases:
        with open(a.cases) as f:
            cases = json.load(f)
        for case in cases:
            st, text = run_case(ref, table, a.prop, case)
            out["cases"] += 1
            if st == "violation":
                out["violations"].append(dict(case=case, why=text))
            elif st == "ok":
                out["ok"] += 1
            else:
                out["inconclusive"] += 1
                out["notes"] = [text]
        print(json.dumps(out))
        return 0
    i, n = map(int, a.shard.split("/"))
    rng = random.Random("{0}-{1}-{2}-{3}".format(a.prop, a.seed, i, n))
    t0 = time.time()
    while time.time() - t0 < a.time and out["cases"] < a.max:
        case = table["gen_" + a.prop](rng)
        case = json.loads(json.dumps(case))
        st, text = run_case(ref, table, a.prop, case)
        out["cases"] += 1
        if st == "ok":
            out["ok"] += 1
        elif st == "violation":
            out["violations"].append(dict(case=case, why=text))
            if len(out["violations"]) >= 3:
                break
        else:
            out["inconclusive"] += 1
            if len(out["notes"]) < 3:
                out["notes"].append(text)
    print(json.dumps(out))
    return 0

if __name__ == "__main__":
    sys.exit(main())
