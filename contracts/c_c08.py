"""C08: the fill plan.

  tree form  for every canonical expression of bounded shape with symbolic coefficients, instr.totree(e) has the value of e
  plan       for enumerated sets of expressions sharing subexpressions, the real Hist is built and filled with a generic entry of symbolic
             values: every axis, profile, weight and filter gets exactly the value of its text by Python's rules (a quantity that is used before
             it is computed or after it is discarded shows as a wrong value or an error), no function is applied twice to the same arrays, the
             reported fields are the names in the texts, the user's arrays are not modified
"""
from planmodel import *
import c_c07
from c_c07 import den, req, radd, rmul, rdiv, ONE

ASSUMPTIONS = ["functions of the library other than arithmetic, comparison and logic are functions (equal arguments give equal values); the table unit proves which numpy function each name stands for; the library's own approximations of erf, erfc, gamma, lgamma and factorial are compared with Python's by the executable contract",
               "kernels of the axes: any function of the value and the options",
               "float64 arithmetic is treated as exact real arithmetic"]
BOUNDS = ["sets of expressions: all pairs and a sample (quick: 1/300, thorough: 1/8) of the triples of 46 texts over 4 fields in the roles of axis, cut, profile, weight and filter; data, lengths and values are unbounded",
          "totree: sums of up to 5 terms, products of up to 6 factors with repetitions, 4 alternatives of 3 comparisons; coefficients unbounded"]

TEXTS = ["x", "y", "x + y", "x - y", "x*y", "x/y", "x + 1", "2*x", "x*y + z", "(x + y)*z", "(x + y)**2", "x**2", "x**3*y", "x/(y + z)", "1/x", "sin(x)", "sin(x*y)", "hypot(x, y)",
         "max(x, y, z)", "sqrt(x**2 + y**2)", "x//y", "x % y", "x**0.5", "sqrt(x)*y", "sin(x) + sin(y)", "sin(sin(x))", "x*y*z", "x*x*y*y", "x/y/z", "-x", "3 - x", "x*y/z + 2",
         "where(x < y, x, y)", "sin(x)/cos(x)", "2*x + 3*y - z + 1", "u", "u*(x + y)", "exp(x*y)*exp(x*y)", "hypot(x, x)", "hypot(x + y, x*y)", "pi*x", "1/x + 1/y", "x*x*x*x*x", "2", "sin(2)*x", "2*3 - 1.5"]
CONDS = ["x < y", "x < y and y < z", "x < y or z <= u", "not x < y", "sin(x) < y", "x + y < z"]

# ------------------------------------------------------------------ tree form

def tden(hb, e):
    """value of a tree of calls"""
    E = hb.expr
    if isinstance(e, E.Call) and e.fcn in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.true_divide"):
        if len(e.args) != 2:
            raise Unsupported("arity")
        a, b = tden(hb, e.args[0]), tden(hb, e.args[1])
        return {"numpy.add": lambda: radd(a, b), "numpy.subtract": lambda: radd(a, b, -1), "numpy.multiply": lambda: rmul(a, b), "numpy.true_divide": lambda: rdiv(a, b)}[e.fcn]()
    if isinstance(e, (E.PlusMinus, E.TimesDiv)):
        raise Unsupported("algebra left in the tree")
    return den(hb, e)
def leaves(hb, e):
    """only constants, names and calls are left"""
    E = hb.expr
    if isinstance(e, E.Call):
        return all(leaves(hb, x) for x in e.args)
    return isinstance(e, (E.Const, E.Name)) or isinstance(e, E.Predicate) and e.positive

BIGSHAPES = ["xxy", "xyz", "xxyyz", "x5", "x6y", "xy/zz", "/xyz", "x/yyy", "sum3", "sum5", "sum2-3", "-sum4", "mixed", "nested"]
def bigshape(hb, c, s):
    E = hb.expr
    n = dict((k, E.Name(k)) for k in "xyzuv")
    at = lambda w: tuple(n[k] for k in w)
    T = lambda p, q="", k=None: E.TimesDiv(c_c07.posnum(c, "k") if k is None else k, at(p), at(q))
    sg = lambda: c_c07.signed(c, "s")
    if s == "xxy": return E.TimesDiv(sg(), at("xxy"), ())
    if s == "xyz": return E.TimesDiv(1, at("xyz"), ())
    if s == "xxyyz": return E.TimesDiv(sg(), at("xxyyz"), ())
    if s == "x5": return E.TimesDiv(1, at("xxxxx"), ())
    if s == "x6y": return E.TimesDiv(sg(), at("xxxxxxy"), ())
    if s == "xy/zz": return E.TimesDiv(sg(), at("xy"), at("zz"))
    if s == "/xyz": return E.TimesDiv(sg(), (), at("xyz"))
    if s == "x/yyy": return E.TimesDiv(1, at("x"), at("yyy"))
    cc = c_c07.signed(c, "c", True)
    if s == "sum3": return E.PlusMinus(cc, (T("x"), T("y"), T("z")), ())
    if s == "sum5": return E.PlusMinus(cc, (T("x"), T("y"), T("z"), T("u"), T("xy")), ())
    if s == "sum2-3": return E.PlusMinus(cc, (T("x"), T("yy")), (T("z"), T("u", "x"), T("", "z")))
    if s == "-sum4": return E.PlusMinus(cc, (), (T("x"), T("y"), T("z"), T("u")))
    if s == "mixed": return E.PlusMinus(cc, (T("x", "y"), T("xx", k=1)), (T("", "xy"),))
    if s == "nested":
        p = E.PlusMinus(cc, (T("x"),), (T("y"),))
        return E.PlusMinus(0, (E.TimesDiv(1, (n["x"], p, p), (n["z"],)), E.TimesDiv(c_c07.posnum(c, "k"), (n["x"],), (p, p, n["u"]))), ())
    raise AssertionError(s)

def tree(hb, c, s):
    c.positives, c.polymemo, c.keep = {}, {}, []
    rt.SYMHASH[0] = True
    e = bigshape(hb, c, s) if s in BIGSHAPES else c_c07.operand(hb, c, s, "")
    snap = c_c07.snapshot(hb, e)
    conc = case_text(hb, e)
    t = must_return(c, "totree", hb.instr.totree, e)
    c.prove("only constants, names and calls are left", z3.BoolVal(leaves(hb, t)), concretise=conc)
    c.prove("the tree has the value of the expression", req(tden(hb, t), den(hb, e)), concretise=conc)
    c.prove("the expression is not changed", c_c07.unchanged(hb, snap), concretise=conc)
def case_text(hb, e):
    def conc(m):
        return dict(exprs=[["text", c_c07.show(hb, m, e)]], rows=[dict(x=1.0, y=2.0, z=-1.5, p=True, q=False), dict(x=0.5, y=-3.0, z=4.0, p=False, q=True)], weight=None, extra=None)
    return conc

def truth_tree(hb, e):
    E = hb.expr
    if isinstance(e, E.Call):
        f = e.fcn
        if f in ("numpy.logical_and", "numpy.logical_or"):
            return (z3.And if f.endswith("and") else z3.Or)([truth_tree(hb, x) for x in e.args])
        if f == "numpy.logical_not":
            return z3.Not(truth_tree(hb, e.args[0]))
        if f in ("numpy.equal", "numpy.not_equal", "numpy.less", "numpy.less_equal", "numpy.isin"):
            l = c_c07.val(hb, e.args[0])
            if f == "numpy.isin":
                return c_c07.MEMBER(l, z3.StringVal(repr(sorted(e.args[1].value))))
            r = c_c07.val(hb, e.args[1])
            return {"numpy.equal": l == r, "numpy.not_equal": l != r, "numpy.less": l < r, "numpy.less_equal": l <= r}[f]
    return c_c07.truth(hb, e)
def logictree(hb, c):
    E = hb.expr
    k = c.choose(len(c_c07.CONDS) + 4)
    R = lambda *rs: E.LogicalAnd(*[c_c07.rel(hb, r) for r in rs])
    if k < len(c_c07.CONDS):
        e = c_c07.cond(hb, c_c07.CONDS[k])
    else:
        e = [lambda: E.LogicalOr(R("p"), R("q"), R("x < y"), R("x in s")), lambda: E.LogicalOr(R("p", "q", "x < y"), R("not p", "x != y", "x <= y"), R("x not in s")),
             lambda: R("p", "q", "x < y", "x < 3"), lambda: E.LogicalOr(R("p", "x < 3"), R("q", "x == y"), R("not p", "y < x"), R("x in s", "x <= y", "q"))][k - len(c_c07.CONDS)]()
    want = c_c07.truth(hb, e)
    t = must_return(c, "totree", hb.instr.totree, e)
    c.prove("only constants, names and calls are left", z3.BoolVal(leaves(hb, t)))
    c.prove("the tree has the value of the expression", truth_tree(hb, t) == want)
    c.prove("the expression is not changed", c_c07.truth(hb, e) == want)

# ------------------------------------------------------------------ the function table

TABLE1 = dict(abs="absolute", fabs="absolute", conj="conjugate")
TABLE1.update((n, n) for n in "arccos arccosh arcsin arcsinh arctan arctanh ceil cos cosh deg2rad exp2 exp expm1 floor log10 log1p log2 log rad2deg rint sign sinh sin sqrt tanh tan trunc isnan isinf isfinite".split())
TABLE2 = dict((n, n) for n in "arctan2 copysign hypot logaddexp2 logaddexp heaviside".split())
TABLE2.update(pow="power", mod="remainder", fmod="remainder", fmax="maximum", fmin="minimum", max="maximum", min="minimum")
def table(hb, c):
    """every name of the language stands for the numpy function of that meaning"""
    F = npf.F
    base = Base(length=fresh_int("length", 0, 2**31 - 1))
    arr = lambda n: EArr(fresh_real(n), base, "f")
    x, y, z = arr("x"), arr("y"), arr("z")
    lib = hb.calc.library
    name = (sorted(TABLE1) + sorted(TABLE2) + ["max of three", "min of three", "max of one", "where", "round"])[c.choose(len(TABLE1) + len(TABLE2) + 5)]
    eqarr = lambda a, b: zb(same(a.v, b.v)) if a.kind not in "b" else zb(asbool(a.v)) == zb(asbool(b.v))
    if name in TABLE1:
        got, want = must_return(c, "apply", lib[name], x), getattr(F, TABLE1[name])(x)
    elif name in TABLE2:
        got, want = must_return(c, "apply", lib[name], x, y), getattr(F, TABLE2[name])(x, y)
    elif name.endswith("three"):
        f = TABLE2[name[:3]]
        got, want = must_return(c, "apply", lib[name[:3]], x, y, z), getattr(F, f)(getattr(F, f)(x, y), z)
    elif name == "max of one":
        got, want = must_return(c, "apply", lib["max"], x), x
    elif name == "round":
        got, want = must_return(c, "apply", lib["round"], x), F.rint(x)
    else:
        cond = F.less(x, y)
        got, want = must_return(c, "apply", lib["where"], cond, x, z), EArr(ite(cond.v, x.v, z.v), base, "f")
    txt = name + "(x)" if name in TABLE1 else name + "(x, y)" if name in TABLE2 else name[:3] + "(x, y, z)" if name.endswith("three") else name[:3] + "(x)" if name == "max of one" else "round(x)" if name == "round" else "where(x < y, x, z)"
    if name in ("isnan", "isinf", "isfinite"):
        txt = "where({0}, 1, 2)".format(txt)
    def conc(m):
        return dict(exprs=[["text", txt]], rows=[dict(x=a, y=b, z=d, p=True, q=False) for a, b, d in [(0.5, 0.75, 3.0), (1.5, 0.25, -1.0), (-0.75, 2.0, 0.5), (0.0, 1.5, 0.25), (2.0, -3.0, 1.0)]], weight=None, extra=None)
    c.prove("the function of that name", eqarr(got, want), why=name, concretise=conc)
    c.prove("the arguments are not modified", z3.BoolVal(all(a.version == 0 for a in (x, y, z))), why=name)

# ------------------------------------------------------------------ plans

def plan_set(hb, c, specs):
    """one of the given histograms, filled"""
    spec = specs[c.choose(len(specs))]
    plan = Plan(hb, c)
    def conc(m):
        return dict(exprs=[["text", t] for t in spec.profiles + spec.fixed], rows=[dict(x=1.0, y=2.0, z=-1.5, p=True, q=False), dict(x=0.5, y=3.0, z=4.0, p=False, q=True)], weight=spec.weight, extra=None)
    h = must_return(c, "construct", spec.make, hb)
    flds = must_return(c, "fields", lambda: h.fields)
    c.prove("the reported fields are the names in the texts", z3.BoolVal(sorted(flds) == fieldnames(spec.texts())), concretise=conc)
    prepare(plan, [(h, spec)])
    for i in range(2 if spec.filter and len(spec.profiles) == 1 else 1):
        if i:
            plan.newdata()
        before = run_fill(plan, h, [(h, spec)], "fill", dict((k, v) for k, v in plan.data.items() if k in flds))
        check_hist(plan, h, spec, since=before[id(h)], conc=conc)
        check_once(plan, conc)

def pairs(a):
    """all pairs of texts in alternating roles"""
    out = []
    for b in range(len(TEXTS)):
        s, t = TEXTS[a], TEXTS[b]
        r = (a + b) % 4
        if r == 0: out.append(Spec(fixed=[s], profiles=[t]))
        elif r == 1: out.append(Spec(fixed=[s, t]))
        elif r == 2: out.append(Spec(profiles=[s, t] if s != t else [s]))
        else: out.append(Spec(fixed=[s], weight=t))
    return [x for x in out if fieldnames(x.texts())]          # without fields there is no length
def triples(a, tier):
    out = []
    n = len(TEXTS)
    for b in range(n):
        for d in range(n):
            q = (a*7 + b*13 + d*29) % 97
            if (q != 5 or (a + b) % 3 if tier == "quick" else q % 8 != 5):
                continue
            s, t, u = TEXTS[a], TEXTS[b], TEXTS[d]
            cnd = CONDS[(a + 3*b + d) % len(CONDS)]
            r = (a + b + 2*d) % 5
            if r == 0: out.append(Spec(fixed=[s], profiles=[t, u] if t != u else [t], weight=s))
            elif r == 1: out.append(Spec(fixed=[s], cuts=[cnd], profiles=[t], weight=u))
            elif r == 2: out.append(Spec(profiles=[s, t] if s != t else [s], weight=u, filter=cnd))
            elif r == 3: out.append(Spec(fixed=[s, t], weight=u, filter=cnd))
            else: out.append(Spec(fixed=[s], cuts=[cnd], profiles=[t], filter="0 < x"))
    return [x for x in out if fieldnames(x.texts())]

FN = ["hist.Hist.__init__", "hist.Hist.fill", "fill.Fillable.fields", "fill.Fillable._fill", "hist.Hist._streamline", "instr.CallGraphNode.grow/sources", "instr.walkdown", "instr.instructions", "calc.calculate"]
def units(hb, tier):
    for s in c_c07.SHAPES + BIGSHAPES:
        yield ("tree form of {0}".format(s), (lambda s: lambda c: tree(hb, c, s))(s), ["histbook/instr.py: totree"], ["the tree has the value of the expression"])
    yield ("tree form of conditions", lambda c: logictree(hb, c), ["histbook/instr.py: totree"], ["the tree has the value of the expression"])
    yield ("names of the functions", lambda c: table(hb, c), ["histbook/calc/__init__.py: library"], ["the function of that name", "the arguments are not modified"])
    P = ["contribution to the sum of weights", "every quantity is computed once", "the user's arrays are not modified"]
    for a in range(len(TEXTS)):
        sp = pairs(a)
        yield ("plans with {0} and one other".format(TEXTS[a]), (lambda sp: lambda c: plan_set(hb, c, sp))(sp), FN, P)
        tr = triples(a, tier)
        if tr:
            yield ("plans with {0} and two others".format(TEXTS[a]), (lambda tr: lambda c: plan_set(hb, c, tr))(tr), FN, P)
