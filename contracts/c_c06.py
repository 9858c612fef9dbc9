"""C06: weights and filters.  The same unit as C05 (constructor, plan, fill), with every way of giving a weight and a filter:

  requires  profile values are finite; kernels as in C05
  ensures   the entry adds  F*w  to the sum of weights, (F*w)**2 to the sum of squared weights and F*w*y, F*w*y**2 to the sums of a
            profile, F = 1 where the filter holds and 0 elsewhere (absent: 1), w the value of the weight expression (absent: 1);
            an entry whose weight is NaN adds zero everywhere
"""
from c_c05 import *
from c_c05 import fill as _fill
import c_c05

ASSUMPTIONS = c_c05.ASSUMPTIONS + ["the filter and weight texts are a sample of the language (every connective, comparison, precedence trap, definition and number type); that a text means its Python value is C07, that the plan computes it is C08"]
BOUNDS = ["texts of weights and filters and numbers of axes are enumerated; data, field values, bin counts, keys and prior contents are unbounded"]

def num(x): return tofloat(x)
def gt(a, b): return zb(lt(num(b), num(a)))
def lt_(a, b): return zb(lt(num(a), num(b)))
def le_(a, b): return zb(Or(lt(num(a), num(b)), eqv(num(a), num(b))))
def eq_(a, b): return zb(eqv(num(a), num(b)))
def mul(*xs):
    out = num(xs[0])
    for x in xs[1:]:
        out = fmul(out, num(x))
    return out
def add(a, b): return fadd(num(a), num(b))
def sub(a, b): return fadd(num(a), fneg(num(b)))

# text of the filter: fields (x: any float, f: finite, b: boolean, i: integer), meaning
FILTERS = [
    (None, {}, lambda v: z3.BoolVal(True)),
    ("a > 2", {"a": "x"}, lambda v: gt(v["a"], 2)),
    ("a <= 2.5", {"a": "x"}, lambda v: le_(v["a"], 2.5)),
    ("a > 0 or b < 1", {"a": "x", "b": "x"}, lambda v: z3.Or(gt(v["a"], 0), lt_(v["b"], 1))),
    ("a > 0 and b < 1", {"a": "x", "b": "x"}, lambda v: z3.And(gt(v["a"], 0), lt_(v["b"], 1))),
    ("a == b", {"a": "f", "b": "f"}, lambda v: eq_(v["a"], v["b"])),
    ("a != 3", {"a": "f"}, lambda v: z3.Not(eq_(v["a"], 3))),
    ("not a < b", {"a": "f", "b": "f"}, lambda v: z3.Not(lt_(v["a"], v["b"]))),
    ("i in {1, 2}", {"i": "i"}, lambda v: z3.Or(zint(v["i"]) == 1, zint(v["i"]) == 2)),
    ("t and a > 0", {"t": "b", "a": "x"}, lambda v: z3.And(zb(asbool(v["t"])), gt(v["a"], 0))),
    ("not t and a > 0", {"t": "b", "a": "x"}, lambda v: z3.And(z3.Not(zb(asbool(v["t"]))), gt(v["a"], 0))),
    ("a > 0 and (b < 1 or c > a)", {"a": "f", "b": "f", "c": "f"}, lambda v: z3.And(gt(v["a"], 0), z3.Or(lt_(v["b"], 1), gt(v["c"], v["a"])))),
]
WEIGHTS = [
    (None, {}, lambda v: num(1.0)),
    (2.5, {}, lambda v: num(2.5)),
    (-3, {}, lambda v: num(-3)),
    (0, {}, lambda v: num(0)),
    ("w", {"w": "x"}, lambda v: num(v["w"])),
    ("w + u", {"w": "f", "u": "f"}, lambda v: add(v["w"], v["u"])),
    ("w - 1", {"w": "f"}, lambda v: sub(v["w"], 1)),
    ("2*w*u", {"w": "f", "u": "f"}, lambda v: mul(2, v["w"], v["u"])),
    ("D", {"w": "f", "u": "f"}, lambda v: mul(v["w"], v["u"])),
    ("a*w", {"a": "f", "w": "f"}, lambda v: mul(v["a"], v["w"])),
]

def product(i, j):
    ftext, ff, fm = FILTERS[i]
    wtext, wf, wm = WEIGHTS[j]
    opts = {"weight": wtext, "filter": ftext}
    if wtext == "D":
        opts["defs"] = {"D": "w*u"}
    fields = dict(ff)
    for n, k in wf.items():
        fields[n] = "f" if "f" in (k, fields.get(n, "x")) else "x"
    def weight(v):
        w = wm(v)
        # a filtered entry has weight zero (NaN counts as zero)
        return ite(mkbool(fm(v)), w, num(0.0))
    return dict(opts=opts, fields=fields, weight=weight, name="weight {0!r}, filter {1!r}".format(wtext, ftext))

def units(hb, tier):
    yield ("lemmas of index arithmetic", lemmas, [], ["lemma"])
    shapes = [(0, 1, 1), (1, 1, 0), (0, 0, 0)]
    n = 0
    for i in range(len(FILTERS)):
        for j in range(len(WEIGHTS)):
            if FILTERS[i][0] is None and WEIGHTS[j][0] is None:
                continue
            if tier == "quick" and i > 3 and j not in (0, 4, (i % len(WEIGHTS))):
                continue
            custom = product(i, j)
            for s in (shapes if tier != "quick" else [shapes[n % len(shapes)]]):
                if s == (0, 0, 0) and (not custom["fields"] or WEIGHTS[j][0] == 0):
                    s = (0, 1, 0)
                yield ("Hist.fill with {0}; {1} group, {2} fixed, {3} profile axes".format(custom["name"], *s), (lambda s, custom: (lambda c: _fill(hb, c, s[0], s[1], s[2], "custom", custom)))(s, custom),
                       ["hist.Hist.__init__", "hist.Hist.fill", "hist.Hist._prefill", "hist.Hist._postfill (fillblock, filldict)", "fill.Fillable.fields", "fill.Fillable._fill", "expr.Expr.parse", "instr.totree", "calc.calculate"],
                       ["contribution to", "the user's arrays"])
            n += 1
