"""C07: the canonical form has the value of the expression as written, by induction over the syntax.

Every production of the expression language is run through the real Expr.parse on operands that are arbitrary canonical expressions of bounded
shape (given to it as definitions, which is how parse returns a subexpression), with symbolic non-zero coefficients:

  arithmetic  ensures  value(parse("A + B")) == value(A) + value(B), likewise - * / unary - and ** n, as rational functions of the fields
              ensures  the result is canonical again (the induction hypothesis of the next production); the operands are not changed
  other       ensures  // % ** and calls keep function and arguments in their order
  logic       ensures  truth(parse("A and B")) == truth(A) and truth(B), likewise or, not, comparisons and chains of them, for every truth
                       assignment of comparisons (with not (a < b) == (b <= a): no NaN)
  rejection   ensures  every other kind of Python syntax raises
"""
import ast, itertools
from common import *
import poly

ASSUMPTIONS = ["arithmetic of constants and fields is exact (rounding of floating point is outside the property)",
               "Python's own parser (ast.parse) builds the tree of the text",
               "induction over the syntax: the operands are canonical expressions with the value of their text",
               "compared quantities are not NaN, divisors are not zero (the property's own conditions)"]
BOUNDS = ["operands: sums of up to 2 terms and a constant, terms of up to 2 factors over 2 fields, compound denominators one level deep; conditions of up to 2 alternatives of up to 2 comparisons; coefficients are symbolic (any value), powers -5..5"]

# ------------------------------------------------------------------ values as rational functions

def pmul(p, q):
    out = {}
    for (m, k), (n, l) in itertools.product(p.items(), q.items()):
        d = dict(m)
        for x, e in n:
            d[x] = d.get(x, 0) + e
        t = tuple(sorted(d.items()))
        out[t] = out[t] + k*l if t in out else k*l
    return out
def padd(p, q, s=1):
    out = dict(p)
    for m, k in q.items():
        out[m] = out[m] + s*k if m in out else s*k
    return out
ONE = {(): z3.RealVal(1)}
def rmul(a, b): return pmul(a[0], b[0]), pmul(a[1], b[1])
def rdiv(a, b): return pmul(a[0], b[1]), pmul(a[1], b[0])
def radd(a, b, s=1):
    if same(a[1], b[1]):
        return padd(a[0], b[0], s), a[1]
    return padd(pmul(a[0], b[1]), pmul(b[0], a[1]), s), pmul(a[1], b[1])
def same(p, q):
    return p.keys() == q.keys() and all(p[m].eq(q[m]) for m in p)
def real(k):
    if isinstance(k, bool):
        raise Unsupported("truth value as a number")
    v = tofloat(k)
    if v.nan is not False and not z3.is_false(zb(v.nan)):
        raise Unsupported("possibly NaN constant")
    return poly.nf(v.r if z3.is_expr(v.r) else z3.RealVal(str(v.r)))
def key(hb, e):
    E = hb.expr
    if type(e) is E.Name:
        return e.value
    if isinstance(e, E.Call):
        return "{0}({1})".format(e.fcn, ",".join(key(hb, x) for x in e.args))
    if type(e) is E.Const:
        v = e.value
        if isinstance(v, SNum):
            return "<{0}>".format(real(v))
        return "{0}".format(float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else repr(v))
    raise Unsupported("atom {0}".format(type(e).__name__))
def den(hb, e):
    """value of an expression as (numerator, denominator)"""
    E = hb.expr
    if type(e) is E.Const:
        return {(): real(e.value)}, ONE
    if isinstance(e, E.TimesDiv):
        out = {(): real(e.const)}, ONE
        for x in e.pos:
            out = rmul(out, den(hb, x))
        for x in e.neg:
            out = rdiv(out, den(hb, x))
        return out
    if isinstance(e, E.PlusMinus):
        out = {(): real(e.const)}, ONE
        for x in e.pos:
            out = radd(out, den(hb, x))
        for x in e.neg:
            out = radd(out, den(hb, x), -1)
        return out
    return {((key(hb, e), 1),): z3.RealVal(1)}, ONE
def req(a, b):
    """the same rational function"""
    if same(a[1], b[1]):
        l, r = a[0], b[0]
    else:
        l, r = pmul(a[0], b[1]), pmul(b[0], a[1])
    d = padd(l, r, -1)
    cs = [poly.nf(k) for k in d.values()]
    return z3.And([k == 0 for k in cs]) if cs else z3.BoolVal(True)

def canonical(hb, e, top=True):
    """the induction hypothesis on the form of a result"""
    E = hb.expr
    if type(e) is E.Const:
        return top and not isinstance(e.value, bool)
    if isinstance(e, E.TimesDiv):
        return zb(And(len(e.pos) + len(e.neg) > 0, Not(zb(eqv(tofloat(e.const), tofloat(0)))), *[canonical(hb, x, False) for x in e.pos + e.neg if not type(x) is E.TimesDiv])) if not any(type(x) is E.TimesDiv for x in e.pos + e.neg) else False
    if isinstance(e, E.PlusMinus):
        return zb(And(len(e.pos) + len(e.neg) > 0, *[And(type(x) is E.TimesDiv, lt(tofloat(0), tofloat(x.const)), canonical(hb, x, False)) for x in e.pos + e.neg]))
    return isinstance(e, (E.Name, E.Call))

def snapshot(hb, e):
    E = hb.expr
    if isinstance(e, (E.TimesDiv, E.PlusMinus)):
        return e, type(e), e.const, tuple(snapshot(hb, x) for x in e.pos), tuple(snapshot(hb, x) for x in e.neg)
    if type(e) is E.Const:
        return e, type(e), e.value
    return e,
def unchanged(hb, s):
    e = s[0]
    if len(s) == 1:
        return z3.BoolVal(True)
    if type(e) is not s[1]:
        return z3.BoolVal(False)
    if len(s) == 3:
        return real(e.value) == real(s[2])
    if len(e.pos) != len(s[3]) or len(e.neg) != len(s[4]):
        return z3.BoolVal(False)
    return z3.And(real(e.const) == real(s[2]), *[z3.And(z3.BoolVal(x is y[0]), unchanged(hb, y)) for x, y in zip(e.pos + e.neg, s[3] + s[4])])

# ------------------------------------------------------------------ counter-models as texts for the executable contract

def number(m, k):
    if isinstance(k, SNum) or hasattr(k, "r"):
        v = m.eval(tofloat(k).r, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(12)
        v = float(v.numerator_as_long())/float(v.denominator_as_long())
    else:
        v = k
    return "({0!r})".format(v) if not isinstance(v, set) else "{" + ", ".join(map(repr, sorted(v))) + "}"
def show(hb, m, e):
    E = hb.expr
    sh = lambda x: show(hb, m, x)
    if type(e) is E.Const: return number(m, e.value)
    if isinstance(e, E.TimesDiv):
        return "(" + "*".join([number(m, e.const)] + [sh(x) for x in e.pos]) + "".join("/" + sh(x) for x in e.neg) + ")"
    if isinstance(e, E.PlusMinus):
        return "(" + " + ".join([number(m, e.const)] + [sh(x) for x in e.pos]) + "".join(" - " + sh(x) for x in e.neg) + ")"
    if isinstance(e, E.Call): return "{0}({1})".format(e.fcn, ", ".join(sh(x) for x in e.args))
    if isinstance(e, E.Relation): return "({0} {1} {2})".format(sh(e.left), e.cmp, sh(e.right))
    if isinstance(e, E.Predicate): return e.value if e.positive else "(not {0})".format(e.value)
    if isinstance(e, E.LogicalAnd): return "(" + " and ".join(sh(x) for x in e.args) + ")"
    if isinstance(e, E.LogicalOr): return "(" + " or ".join(sh(x) for x in e.args) + ")"
    return e.value
def conctext(hb, text, defs):
    def conc(m):
        d = dict((n, show(hb, m, e)) for n, e in defs.items())
        return dict(kind="text", expr=" ".join("".join(d.get(ch, ch) for ch in w) if w.strip("()+-*0123456789.").isupper() else w for w in text.split(" ")))
    return conc

# ------------------------------------------------------------------ operands

SHAPES = ["0", "k", "x", "y", "f", "kx", "kxy", "kx/y", "k/x", "kxx", "c+x", "c-x", "x+y", "x-y", "-x-y", "xx+x/y", "c+x-y", "x/(x+y)", "1/(c+x)"]
COMPOUND = ("x/(x+y)", "1/(c+x)")

def posnum(c, name):
    v = fresh_real(name)
    poly.declare_positive(c, v.r)
    return v
def signed(c, name, zero=False):
    n = c.choose(3 if zero else 2)
    v = posnum(c, name)
    return v if n == 0 else (-v if n == 1 else 0)
def operand(hb, c, shape, tag):
    E = hb.expr
    x, y = E.Name("x"), E.Name("y")
    T = lambda p, n=(), s=None: E.TimesDiv(posnum(c, tag + "k") if s is None else s, tuple(p), tuple(n))
    s = lambda zero=False: signed(c, tag + "s", zero)
    if shape == "0": return E.Const(0)
    if shape == "k": return E.Const(s())
    if shape == "x": return x
    if shape == "y": return y
    if shape == "f": return E.Call("sin", x)
    if shape == "kx": return T([x], s=s())
    if shape == "kxy": return T([x, y], s=s())
    if shape == "kxx": return T([x, x], s=s())
    if shape == "kx/y": return T([x], [y], s=s())
    if shape == "k/x": return T([], [x], s=s())
    if shape == "c+x": return E.PlusMinus(s(), (T([x]),), ())
    if shape == "c-x": return E.PlusMinus(s(), (), (T([x]),))
    if shape == "x+y": return E.PlusMinus(0, (T([x]), T([y])), ())
    if shape == "x-y": return E.PlusMinus(0, (T([x]),), (T([y]),))
    if shape == "-x-y": return E.PlusMinus(0, (), (T([x]), T([y])))
    if shape == "xx+x/y": return E.PlusMinus(0, (T([x, x]), T([x], [y])), ())
    if shape == "c+x-y": return E.PlusMinus(s(True), (T([x]),), (T([y]),))
    if shape == "x/(x+y)": return T([x], [E.PlusMinus(0, (T([x]), T([y])), ())], s=s())
    if shape == "1/(c+x)": return T([], [E.PlusMinus(s(), (T([x]),), ())], s=s())
    raise AssertionError(shape)

def arith(hb, c, op, sa, others):
    E = hb.expr
    c.positives, c.polymemo, c.keep = {}, {}, []
    a = operand(hb, c, sa, "a.")
    va = den(hb, a)
    snaps = [snapshot(hb, a)]
    defs = {"A": a}
    if op == "neg":
        text = "-A"
        want = radd(({(): z3.RealVal(0)}, ONE), va, -1)
    elif op == "pos":
        text, want = "+A", va
    elif op.startswith("**"):
        n = others[c.choose(len(others))]
        text = "A**({0})".format(n)
        n = int(float(n))
        want = ONE, ONE
        for _ in range(abs(n)):
            want = rmul(want, va) if n > 0 else rdiv(want, va)
    else:
        sb = others[c.choose(len(others))]
        if sb == "same":
            b = a                           # the same object, as a definition used twice
        else:
            b = operand(hb, c, sb, "b.")
        vb = den(hb, b)
        snaps.append(snapshot(hb, b))
        defs["B"] = b
        text = "A {0} B".format(op)
        want = {"+": lambda: radd(va, vb), "-": lambda: radd(va, vb, -1), "*": lambda: rmul(va, vb), "/": lambda: rdiv(va, vb)}[op]()
    conc = conctext(hb, text, defs)
    out = must_return(c, text, E.Expr.parse, text, defs)
    c.prove("the value is that of the text", req(den(hb, out), want), concretise=conc)
    c.prove("the result is canonical", zb(And(canonical(hb, out))), concretise=conc)
    c.prove("the operands are not changed", z3.And([unchanged(hb, s) for s in snaps]), concretise=conc)

# ------------------------------------------------------------------ functions kept as calls

def kept(hb, c):
    E = hb.expr
    c.positives, c.polymemo, c.keep = {}, {}, []
    shapes = ["k", "x", "kx/y", "c+x"]
    a = operand(hb, c, shapes[c.choose(4)], "a.")
    b = operand(hb, c, shapes[c.choose(4)], "b.")
    op, fcn = [("//", "numpy.floor_divide"), ("%", "fmod"), ("**", "pow")][c.choose(3)]
    if type(a) is E.Const and type(b) is E.Const:
        return
    if op == "**" and type(b) is E.Const:
        b = E.Const([0.5, -0.5, 5, 7, -5, 0, 2.5][c.choose(7)])
    conc = conctext(hb, "A {0} B".format(op), {"A": a, "B": b})
    out = must_return(c, op, E.Expr.parse, "A {0} B".format(op), {"A": a, "B": b})
    ok = isinstance(out, E.Call) and out.fcn == fcn and len(out.args) == 2
    c.prove("function and arguments are kept", z3.BoolVal(False) if not ok else z3.And(req(den(hb, out.args[0]), den(hb, a)), req(den(hb, out.args[1]), den(hb, b))), concretise=conc)

def constants(hb, c):
    """both operands are numbers: the number Python computes"""
    E = hb.expr
    c.positives, c.polymemo, c.keep = {}, {}, []
    op = ["+", "-", "*", "/", "**2", "**3", "**-1", "neg"][c.choose(8)]
    x, y = signed(c, "x", True), signed(c, "y", op not in ("/",))
    if op == "**-1" and not isinstance(x, SNum):
        return
    vx, vy = real(x), real(y)
    text = {"neg": "-A"}.get(op) or ("A" + op if op.startswith("**") else "A {0} B".format(op))
    want = {"+": lambda: vx + vy, "-": lambda: vx - vy, "*": lambda: vx*vy, "/": lambda: vx/vy, "**2": lambda: vx*vx, "**3": lambda: vx*vx*vx, "**-1": lambda: 1/vx, "neg": lambda: -vx}[op]()
    conc = conctext(hb, text, {"A": E.Const(x), "B": E.Const(y)})
    out = must_return(c, text, E.Expr.parse, text, {"A": E.Const(x), "B": E.Const(y)})
    c.prove("the number Python computes", z3.BoolVal(False) if type(out) is not E.Const else real(out.value) == poly.nf(want), concretise=conc)

def literals(hb, c):
    """concrete numbers, texts and sets, and constants computed from them"""
    E = hb.expr
    texts = ["0", "3", "2.5", "1e3", "'abc'", "{1, 2}", "{'a', 'b'}", "True", "False", "None", "-3", "7 // 2", "-7 // 2", "7 % 3", "-7 % 3", "7.5 // 2", "7.5 % 2", "2**10", "2**0.5", "4**-2", "1/4", "1 - 2 - 3", "2*3/4", "+5", "7/2", "6/3", "0*5", "3 - 3", "-0.0 + 1"]
    t = texts[c.choose(len(texts))]
    out = must_return(c, t, E.Expr.parse, t)
    w = eval(t, {})
    ok = type(out) is E.Const and out.value == w and (type(out.value) is type(w) or isinstance(w, (int, float)) and not isinstance(w, bool) and not isinstance(out.value, bool))
    c.prove("the constant Python computes", z3.BoolVal(bool(ok)))

def calls(hb, c):
    """every recognised function, by every name under which it is known"""
    E = hb.expr
    names = sorted(set(E.Expr.recognized.values()))
    n = names[c.choose(len(names))]
    a, b = E.TimesDiv(2, (E.Name("x"),), ()), E.Name("y")
    two = E.PlusMinus(1, (a,), ())
    for args in ([two], [a, b], [b, a]):
        text = "{0}({1})".format(n, ", ".join("AB"[q] for q in range(len(args))))
        st, out = call(E.Expr.parse, text, {"A": args[0], "B": args[-1]})
        if st == "raised":
            if n.isidentifier():
                c.prove("a recognised function is accepted", z3.BoolVal(False), why=repr(out))
            continue
        c.prove("function and arguments are kept", z3.BoolVal(isinstance(out, E.Call) and out.fcn == n and len(out.args) == len(args) and all(x is y for x, y in zip(out.args, args))))
    c.prove("visited", True)

# ------------------------------------------------------------------ conditions

CMP = ["==", "!=", "<", "<=", ">", ">="]
V = {}
def val(hb, e):
    """value of a compared quantity: a real unknown for every field, numbers as they are"""
    E = hb.expr
    if type(e) is E.Const:
        return real(e.value)
    k = key(hb, e)
    return z3.Real("value." + k)
MEMBER = z3.Function("member", z3.RealSort(), z3.StringSort(), z3.BoolSort())
def truth(hb, e):
    E = hb.expr
    if type(e) is E.Const and isinstance(e.value, bool):
        return z3.BoolVal(e.value)
    if type(e) is E.Name:
        return z3.Bool("truth." + e.value)
    if isinstance(e, E.Predicate):
        t = z3.Bool("truth." + e.value)
        return t if e.positive else z3.Not(t)
    if isinstance(e, E.Relation):
        l = val(hb, e.left)
        if e.cmp in ("in", "not in"):
            if not (type(e.right) is E.Const and isinstance(e.right.value, set)):
                return z3.Bool("malformed")
            m = MEMBER(l, z3.StringVal(repr(sorted(e.right.value))))
            return m if e.cmp == "in" else z3.Not(m)
        r = val(hb, e.right)
        return {"==": l == r, "!=": l != r, "<": l < r, "<=": l <= r}[e.cmp]
    if isinstance(e, E.LogicalAnd):
        return z3.And([truth(hb, x) for x in e.args])
    if isinstance(e, E.LogicalOr):
        return z3.Or([truth(hb, x) for x in e.args])
    raise Unsupported("truth of {0}".format(type(e).__name__))

def condition_form(hb, e, top=True):
    E = hb.expr
    if isinstance(e, (E.Name, E.Predicate, E.Relation)):
        return True
    if isinstance(e, E.LogicalAnd):
        return all(isinstance(x, (E.Predicate, E.Relation)) for x in e.args)
    if isinstance(e, E.LogicalOr):
        return all(isinstance(x, E.LogicalAnd) and condition_form(hb, x) for x in e.args)
    return False

RELS = ["p", "not p", "x < y", "y < x", "x <= y", "x == y", "x != y", "x in s", "x not in s", "x < 3", "q"]
def rel(hb, r):
    E = hb.expr
    x, y = E.Name("x"), E.Name("y")
    s = E.Const(set(["a", "b"]))
    return {"p": lambda: E.Predicate("p"), "not p": lambda: E.Predicate("p", False), "q": lambda: E.Predicate("q"),
            "x < y": lambda: E.Relation("<", x, y), "y < x": lambda: E.Relation("<", y, x), "x <= y": lambda: E.Relation("<=", x, y),
            "x == y": lambda: E.Relation("==", x, y), "x != y": lambda: E.Relation("!=", x, y), "x in s": lambda: E.Relation("in", x, s),
            "x not in s": lambda: E.Relation("not in", x, s), "x < 3": lambda: E.Relation("<", x, E.Const(3))}[r]()
CONDS = ["name"] + RELS + ["and1", "and2", "and3", "or1", "or2", "or3", "or4"]
def cond(hb, s):
    E = hb.expr
    R = lambda *rs: E.LogicalAnd(*[rel(hb, r) for r in rs])
    if s == "name": return E.Name("p")
    if s == "and1": return R("p", "x < y")
    if s == "and2": return R("x == y", "x in s", "not p")
    if s == "and3": return R("x < 3", "q")
    if s == "or1": return E.LogicalOr(R("p"), R("x < y"))
    if s == "or2": return E.LogicalOr(R("p", "x < y"), R("q", "x <= y"))
    if s == "or3": return E.LogicalOr(R("not p", "y < x"), R("x != y"))
    if s == "or4": return E.LogicalOr(R("p"), R("q"), R("x not in s", "x < 3"))
    return rel(hb, s)

def csnap(hb, e):
    E = hb.expr
    if isinstance(e, (E.LogicalAnd, E.LogicalOr)):
        return e, tuple(csnap(hb, x) for x in e.args)
    return e, tuple(sorted((k, id(v)) for k, v in vars(e).items()))
def cunchanged(hb, s):
    e, w = s
    if isinstance(e, (hb.expr.LogicalAnd, hb.expr.LogicalOr)):
        return len(e.args) == len(w) and all(x is y[0] and cunchanged(hb, y) for x, y in zip(e.args, w))
    return tuple(sorted((k, id(v)) for k, v in vars(e).items())) == w

def logic(hb, c, op, sa):
    E = hb.expr
    a = cond(hb, sa)
    ta = truth(hb, a)
    defs = {"A": a}
    snaps = [csnap(hb, a)]
    if op == "not":
        text, want = "not A", z3.Not(ta)
    elif op == "andor":
        sb, sc = RELS[c.choose(len(RELS))], CONDS[c.choose(len(CONDS))]
        b, d = cond(hb, sb), cond(hb, sc)
        text, defs["B"], defs["C"] = "A and B or C", b, d
        want = z3.Or(z3.And(ta, truth(hb, b)), truth(hb, d))
        snaps += [csnap(hb, b), csnap(hb, d)]
    elif op in ("and3", "or3"):
        sb, sc = ["p", "x < y", "or1", "or2", "and2"][c.choose(5)], ["q", "y < x", "or3", "and1", "or1"][c.choose(5)]
        b, d = cond(hb, sb), cond(hb, sc)
        defs["B"], defs["C"] = b, d
        text = "A {0} B {0} C".format(op[:-1])
        want = (z3.And if op == "and3" else z3.Or)(ta, truth(hb, b), truth(hb, d))
        snaps += [csnap(hb, b), csnap(hb, d)]
    else:
        b = cond(hb, CONDS[c.choose(len(CONDS))])
        defs["B"] = b
        text = "A {0} B".format(op)
        want = (z3.And if op == "and" else z3.Or)(ta, truth(hb, b))
        snaps.append(csnap(hb, b))
    if op in ("not", "and", "or") and sa in RELS and c.choose(2, "written out") == 1:
        text = text.replace("A", "(" + sa.replace(" s", " {'b', 'a'}") + ")")
    conc = conctext(hb, text, defs)
    out = must_return(c, text, E.Expr.parse, text, defs)
    c.prove("true iff the text is", truth(hb, out) == want, concretise=conc)
    c.prove("the result is a canonical condition", z3.BoolVal(condition_form(hb, out)), concretise=conc)
    c.prove("the operands are not changed", z3.BoolVal(all(cunchanged(hb, s) for s in snaps)), concretise=conc)

def compare(hb, c):
    """every comparison, both orders of the operands, numbers on either side, negated or not, and chains"""
    E = hb.expr
    ops = [E.Name("x"), E.Name("y"), E.Const(3), E.Call("sin", E.Name("x")), E.Const(-1.5)]
    i, j = c.choose(5), c.choose(5)
    a, b = ops[i], ops[j]
    k = c.choose(9)
    sem = lambda op, l, r: {"==": l == r, "!=": l != r, "<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]
    va, vb = val(hb, a), val(hb, b)
    if k < 6:
        text, want = "A {0} B".format(CMP[k]), sem(CMP[k], va, vb)
        n = c.choose(3)
        if n == 1:
            text, want = "not " + text, z3.Not(want)
        elif n == 2:
            text, want = "not not " + text, want
    elif k == 6:
        o1, o2 = CMP[c.choose(6)], CMP[c.choose(6)]
        text, want = "A {0} B {1} C".format(o1, o2), z3.And(sem(o1, va, vb), sem(o2, vb, val(hb, E.Name("z"))))
    elif k == 7:
        text, want = "A in S", MEMBER(va, z3.StringVal(repr(["a", "b"])))
        if c.choose(2):
            text, want = "not " + text, z3.Not(want)
    else:
        text, want = "A not in S", z3.Not(MEMBER(va, z3.StringVal(repr(["a", "b"]))))
        if c.choose(2):
            text, want = "not " + text, z3.Not(want)
    if c.choose(2, "written out") == 1:
        written = ["x", "y", "3", "sin(x)", "-1.5"]
        text = "".join(written[i] if ch == "A" else (written[j] if ch == "B" else ch) for ch in text)
    conc = conctext(hb, text, {"A": a, "B": b, "C": E.Name("z"), "S": E.Const(set(["a", "b"]))})
    out = must_return(c, text, E.Expr.parse, text, {"A": a, "B": b, "C": E.Name("z"), "S": E.Const(set(["a", "b"]))})
    c.prove("true iff the text is", truth(hb, out) == want, concretise=conc)
    c.prove("the result is a canonical condition", z3.BoolVal(condition_form(hb, out)))

# ------------------------------------------------------------------ rejection

BAD = ["[x, y]", "(x, y)", "x[0]", "x.y", "lambda a: a", "x if y else z", "[a for a in x]", "{a for a in x}", "{1: 2}", "{a: a for a in x}", "(a for a in x)",
       "x @ y", "x << y", "x >> y", "x | y", "x & y", "~x", "x is y", "x is not y", "x in y", "x in 3", "x not in y", "{x, 1}", "x + (y < z)", "(x < y) + 1", "-(x < y)", "(x and y)*2", "sin(x < y)",
       "sin(x and y)", "nosuchfunction(x)", "sin(x, y=3)", "x()()", "f'{x}'", "x*(not y)", "...", "(yield)", "x(y)", "(x < y) < z", "x[1:2]", "b'abc' + x", "*x", "(x := 3)", "x == y == (z < 1)", "1 < (x and y)", "where(x, y < z, z)"]
def rejected(hb, c):
    E = hb.expr
    t = BAD[c.choose(len(BAD))]
    st, out = call(E.Expr.parse, t)
    c.prove("not accepted: " + t, z3.BoolVal(st == "raised"))

FN = ["histbook/expr.py: Expr.parse", "histbook/expr.py: RingAlgebra.negate/combine", "histbook/expr.py: RingAlgebraMultLike.normalform/similar",
      "histbook/expr.py: RingAlgebraAddLike.normalform/collect/distribute/simplify", "histbook/expr.py: TimesDiv", "histbook/expr.py: PlusMinus"]
FL = ["histbook/expr.py: Expr.parse", "histbook/expr.py: Logical.normalform/negate", "histbook/expr.py: LogicalAnd", "histbook/expr.py: LogicalOr",
      "histbook/expr.py: Relation.negate", "histbook/expr.py: Predicate.negate"]

def units(hb, tier):
    out = []
    V3 = ["the value is that of the text", "the result is canonical", "the operands are not changed"]
    BIG = ("x+y", "-x-y", "xx+x/y", "c+x-y", "x-y") + COMPOUND
    small2 = ["0", "k", "y", "kx", "kx/y", "c-x", "x-y", "same"]
    small = ["0", "k", "x", "y", "f", "kx", "kxy", "kx/y", "k/x", "c+x", "c-x", "x-y", "same"]
    for op in ("+", "-"):
        for s in SHAPES:
            others = SHAPES + ["same"]
            if tier == "quick" and s in BIG:
                others = (small if op == "+" else small2) + ["xx+x/y"]
            elif tier == "quick" and op == "-":
                others = [t for t in others if t not in ("kxy", "kxx", "f", "x+y")]
            out.append(("{0} {1} B".format(s, op), lambda c, op=op, s=s, o=others: arith(hb, c, op, s, o), FN, V3))
    for s in SHAPES:
        out.append(("{0} * B".format(s), lambda c, s=s: arith(hb, c, "*", s, small if s in ("c+x-y", "xx+x/y") + COMPOUND else SHAPES + ["same"]), FN, V3))
        div = [t for t in SHAPES if t != "0"] + ["same"]
        if s == "0":
            div.remove("same")
        out.append(("{0} / B".format(s), lambda c, s=s, d=div: arith(hb, c, "/", s, d), FN, V3))
        out.append(("-({0})".format(s), lambda c, s=s: arith(hb, c, "neg", s, None), FN, V3))
        out.append(("+({0})".format(s), lambda c, s=s: arith(hb, c, "pos", s, None), FN, V3))
        ns = ["1", "2", "3", "4", "2.0"] + ([] if s == "0" else ["-1", "-2", "-3", "-4", "-1.0"])
        if s not in ("0", "k"):
            out.append(("({0}) ** n".format(s), lambda c, s=s, ns=ns: arith(hb, c, "**", s, ns), FN, V3))
    out.append(("// % ** of expressions", lambda c: kept(hb, c), FN, ["function and arguments are kept"]))
    out.append(("constants", lambda c: constants(hb, c), FN, ["the number Python computes"]))
    out.append(("literals", lambda c: literals(hb, c), FN, ["the constant Python computes"]))
    out.append(("calls", lambda c: calls(hb, c), FN, ["visited"]))
    L3 = ["true iff the text is", "the result is a canonical condition", "the operands are not changed"]
    for s in CONDS:
        for op in ("not", "and", "or", "and3", "or3") + (("andor",) if s in ("p", "x < y", "or2", "and1") or tier != "quick" else ()):
            out.append(("{0}: {1}".format(s, op), lambda c, s=s, op=op: logic(hb, c, op, s), FL, L3))
    out.append(("comparisons", lambda c: compare(hb, c), FL, L3[:2]))
    out.append(("rejected syntax", lambda c: rejected(hb, c), FL, []))
    return out
