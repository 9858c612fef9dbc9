"""Writes MANIFEST.json from properties.jsonl and the contracts present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
# properties over an unbounded family of shapes (expression texts, books, chains of channels): the shapes
# are enumerated up to a bound, each one is proved for every data, length and value
SHAPES = ("C07", "C08", "C09", "C23")

def note(i):
    import ast
    tree = ast.parse(open(os.path.join(H, "contracts", "c_{0}.py".format(i.lower()))).read())
    bounds = [ast.literal_eval(x.value) for x in tree.body if isinstance(x, ast.Assign) and getattr(x.targets[0], "id", "") == "BOUNDS"]
    bounds = bounds[0] if bounds else []
    out = "every obligation generated from the current source is discharged, with symbolic data, numbers of bins and values where not said otherwise"
    if bounds: out += "; enumerated up to a bound: " + "; ".join(bounds)
    return out + "; beside it the executable contract samples the real code (bounded, not counted as proved); assumptions in the evidence file and DESIGN.md"

checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    has = os.path.exists(os.path.join(H, "contracts", "c_{0}.py".format(i.lower())))
    checks.append(dict(property=i, quick_cmd="python3 /verif/check.py {0} quick".format(i), thorough_cmd="python3 /verif/check.py {0} thorough".format(i),
        evidence_file="/verif/evidence/{0}.json".format(i),
        technique="contract-based deductive verification: contracts in contracts/c_{0}.py over the real functions, VCs generated from /repo's current source (vc/), discharged by z3/cvc5; counter-models replayed on the real code".format(i.lower()) if has else
                  "executable contract (oracle/) on the real code, random inputs: bounded stand-in until the functions are brought under the verifier",
        level=("other" if i in SHAPES else "proof") if has else "exploration",
        level_note=note(i) if has else "bounded, never counted as proved"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="check.py exits 0 when the property held on everything explored, 1 with a VIOLATION line otherwise; obligations the verifier cannot decide on a changed tree fall back to the bounded executable contract and are listed as undecided in the evidence")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
