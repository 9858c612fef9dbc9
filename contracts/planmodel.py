"""Model for the contracts of the fill plan (C08, C09): real histograms and books are filled with one generic entry whose fields are symbolic
positive reals; arithmetic is done by the real library on these, every other function of the library is uninterpreted (equal arguments, equal
value); a binning kernel is an unknown function of the value it is given.  The reference evaluates the texts by Python's rules."""
import ast, re
from fillmodel import *
import poly

ARITH = ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.true_divide", "numpy.equal", "numpy.not_equal", "numpy.less", "numpy.less_equal",
         "numpy.logical_or", "numpy.logical_and", "numpy.logical_not", "where")
FIELDS = ("x", "y", "z", "u")
PYFCN = {"//": "numpy.floor_divide", "%": "fmod", "**": "pow"}

class Plan(object):
    def __init__(self, hb, c):
        self.hb, self.c = hb, c
        c.positives, c.polymemo, c.keep = {}, {}, []
        c.products = []
        self.uf, self.kern = {}, {}
        self.calls = None
        self.newdata()
    def newdata(self):
        """the data of one fill"""
        c = self.c
        self.base = Base(length=fresh_int("length", 0, 2**31 - 1))
        self.vals, self.data = {}, {}
        for n in FIELDS:
            v = fresh_real(n)
            poly.declare_positive(c, v.r)
            self.vals[n] = v
            self.data[n] = EArr(v, self.base, "f")
        self.zeros = {}
    # ---------------------------------------------------------------- values
    def key(self, v):
        if isinstance(v, EArr):
            v = v.v
        if isinstance(v, (SNum,)):
            f = tofloat(v)
            if f.nan is not False and not z3.is_false(z3.simplify(zb(f.nan))):
                raise Unsupported("possibly undefined value")
            return poly.nf(f.r).sexpr() if z3.is_expr(f.r) else str(f.r)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return z3.RealVal(str(v)).sexpr() if v == v and abs(v) != float("inf") else repr(v)
        if isinstance(v, (str, bool)) or v is None:
            return repr(v)
        if isinstance(v, SBool) or z3.is_expr(v):
            return z3.simplify(zb(asbool(v))).sexpr()
        if isinstance(v, (tuple, list, set, frozenset)):
            return repr([self.key(x) for x in (sorted(v) if isinstance(v, (set, frozenset)) else v)])
        raise Unsupported("key of {0}".format(type(v).__name__))
    def apply(self, name, args):
        k = (name,) + tuple(self.key(a) for a in args)
        if k not in self.uf:
            v = fresh_real("{0}{1}".format(name, len(self.uf)))
            poly.declare_positive(self.c, v.r)
            self.uf[k] = v
        return self.uf[k]
    def kernel(self, name, args):
        """index of the generic entry on an axis: an unknown function of value and options"""
        k = (name,) + tuple(self.key(a) for a in args)
        if k not in self.kern:
            i = fresh_int("index{0}".format(len(self.kern)), 0, 2)
            self.kern[k] = i
        return self.kern[k]
    # ---------------------------------------------------------------- the library
    def install(self):
        lib = self.hb.calc.library
        self.saved = dict(lib)
        for n, f in list(lib.items()):
            lib[n] = self.wrap(n, f)
    def restore(self):
        self.hb.calc.library.clear()
        self.hb.calc.library.update(self.saved)
    def wrap(self, name, f):
        def fcn(*args):
            arrs = [a for a in args if isinstance(a, EArr)]
            if self.calls is not None:
                self.calls.append((name, tuple(("array", id(a)) if isinstance(a, EArr) else ("number", repr(a)) for a in args)))
                self.alive.append(args)
            if name in ARITH:
                out = f(*args)
                if self.calls is not None:
                    self.alive.append(out)
                return out
            if name == "histbook.groupby":
                raise Unsupported("groups in the plan model")
            if name.startswith("histbook.") and name != "histbook.cut":
                out = EArr(self.kernel(name, args), self.base, "i", 32, None, (), True)
                self.alive.append(out)
                return out
            if name == "histbook.cut":
                out = f(*args)
                self.alive.append(out)
                return out
            v = self.apply(name, args)
            if not arrs:
                return v
            out = EArr(v, self.base, "f")
            self.alive.append(out)
            return out
        return fcn
    # ---------------------------------------------------------------- reference
    def value(self, text):
        """value of a text by Python's rules"""
        def rec(n):
            if isinstance(n, ast.Constant):
                return n.value
            if isinstance(n, ast.Name):
                if n.id in self.vals:
                    return self.vals[n.id]
                return self.hb.expr.Expr.maybeconstants[n.id]
            if isinstance(n, ast.UnaryOp):
                v = rec(n.operand)
                if isinstance(n.op, ast.USub): return -v
                if isinstance(n.op, ast.UAdd): return v
                if isinstance(n.op, ast.Not): return mkbool(Not(asbool(v)))
            if isinstance(n, ast.BinOp):
                a, b = rec(n.left), rec(n.right)
                t = type(n.op)
                if t is ast.Add: return a + b
                if t is ast.Sub: return a - b
                if t is ast.Mult: return a * b
                if t is ast.Div: return a / b if isinstance(a, SNum) or isinstance(b, SNum) else float(a)/float(b)
                if not isinstance(a, SNum) and not isinstance(b, SNum):
                    return {ast.FloorDiv: lambda: int(a // b), ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[t]()
                if t is ast.Pow and isinstance(b, int) and 1 <= abs(b) < 5: return a ** b
                return self.apply({ast.FloorDiv: "numpy.floor_divide", ast.Mod: "fmod", ast.Pow: "pow"}[t], [a, b])
            if isinstance(n, ast.Compare):
                xs = [rec(n.left)] + [rec(x) for x in n.comparators]
                out = []
                for o, a, b in zip(n.ops, xs, xs[1:]):
                    a, b = tofloat(a), tofloat(b)
                    out.append({ast.Lt: lambda: lt(a, b), ast.LtE: lambda: Or(lt(a, b), eqv(a, b)), ast.Gt: lambda: lt(b, a), ast.GtE: lambda: Or(lt(b, a), eqv(a, b)),
                                ast.Eq: lambda: eqv(a, b), ast.NotEq: lambda: Not(eqv(a, b))}[type(o)]())
                return mkbool(And(*out))
            if isinstance(n, ast.BoolOp):
                return mkbool((And if isinstance(n.op, ast.And) else Or)(*[asbool(rec(x)) for x in n.values]))
            if isinstance(n, ast.Call):
                args = [rec(x) for x in n.args]
                if n.func.id == "where":
                    return ite(args[0], tofloat(args[1]), tofloat(args[2]))
                return self.apply(n.func.id, args)
            raise AssertionError(ast.dump(n))
        return rec(ast.parse(text, mode="eval").body)

def names(text):
    out = set()
    for n in ast.walk(ast.parse(text, mode="eval")):
        if isinstance(n, ast.Name):
            out.add(n.id)
        if isinstance(n, ast.Call):
            n.func = ast.Constant(0)
    return set(n for n in out)
def fieldnames(texts):
    out = set()
    for t in texts:
        tree = ast.parse(t, mode="eval")
        fcns = set(id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call))
        out |= set(n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and id(n) not in fcns)
    return sorted(out)

class Spec(object):
    """a histogram given by its texts"""
    def __init__(self, fixed=(), cuts=(), profiles=(), weight=None, filter=None, defs=None):
        self.fixed, self.cuts, self.profiles, self.weight, self.filter, self.defs = list(fixed), list(cuts), list(profiles), weight, filter, defs
    def full(self, t):
        """the text with its definitions put in"""
        for n, d in (self.defs or {}).items():
            t = re.sub(r"\b{0}\b".format(n), "({0})".format(d), t)
        return t
    def make(self, hb):
        A = hb.axis
        axes = [A.intbin(t, q, q + 2, underflow=False, overflow=False) for q, t in enumerate(self.fixed)]
        axes += [A.cut(t) for t in self.cuts] + [A.profile(t) for t in self.profiles]
        o = {}
        if self.weight is not None: o["weight"] = self.weight
        if self.filter is not None: o["filter"] = self.filter
        if self.defs: o["defs"] = self.defs
        return hb.hist.Hist(*axes, **o)
    def texts(self):
        return [self.full(t) for t in self.fixed + self.cuts + self.profiles + [t for t in (self.weight, self.filter) if isinstance(t, str)]]
    def expect(self, plan, h, leaf):
        """contribution of the generic entry to the generic cell, per column"""
        conds = []
        cell = leaf.cell
        k = 0
        for q, t in enumerate(self.fixed):
            i = plan.kernel("histbook.intbin__", [plan.value(self.full(t)), q, q + 2])
            conds.append(i.z == zint(cell[k])); k += 1
        for t in self.cuts:
            b = zb(asbool(plan.value(self.full(t))))
            conds.append(z3.If(b, z3.IntVal(1), z3.IntVal(0)) == zint(cell[k])); k += 1
        here = z3.And(conds) if conds else z3.BoolVal(True)
        w = tofloat(1.0) if self.weight is None else tofloat(plan.value(self.full(self.weight)) if isinstance(self.weight, str) else self.weight)
        if self.filter is not None:
            w = ite(plan.value(self.full(self.filter)), w, tofloat(0.0))
        want = {h._sumwindex: ("sum of weights", w)}
        if self.weight is not None or self.filter is not None:
            want[h._sumw2index] = ("sum of squared weights", fmul(w, w))
        for ax, t in zip(h._profile, self.profiles):
            y = tofloat(plan.value(self.full(t)))
            want[ax._sumwxindex] = ("sum of weight*({0})".format(t), fmul(y, w))
            want[ax._sumwx2index] = ("sum of weight*({0})**2".format(t), fmul(fmul(y, y), w))
        return here, want

def caseeq(a, b):
    """equality of two real terms, by cases on the conditions inside them, each case in polynomial normal form"""
    conds = {}
    todo, seen = [a, b], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(e.children()[0]):
            g = e.children()[0]
            if not (z3.is_true(g) or z3.is_false(g)):
                conds[g.get_id()] = g
        todo.extend(e.children())
    conds = list(conds.values())
    if len(conds) > 4:
        return a == b
    cases = []
    for bits in range(2**len(conds)):
        sub = [(g, z3.BoolVal(bool(bits >> i & 1))) for i, g in enumerate(conds)]
        x, y = (z3.simplify(z3.substitute(e, *sub), elim_ite=False) if sub else e for e in (a, b))
        d = poly.nf(x - y)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            continue
        cases.append(z3.Implies(z3.And([g if bits >> i & 1 else z3.Not(g) for i, g in enumerate(conds)] + [z3.BoolVal(True)]), d == 0))
    return z3.And(cases) if cases else z3.BoolVal(True)
def sameval(a, b):
    a, b = tofloat(a), tofloat(b)
    if all(z3.is_false(z3.simplify(zb(q))) for q in (a.nan, b.nan, a.pinf, b.pinf, a.ninf, b.ninf)):
        return caseeq(*[q.r if z3.is_expr(q.r) else z3.RealVal(str(q.r)) for q in (a, b)])
    return zb(same(a, b))

def prepare(plan, pairs):
    """a fresh content for every histogram that is filled: the real code asks numpy.zeros for it"""
    c = plan.c
    def zeros(s, dtype=None):
        if isinstance(s, tuple) and s:
            for h, spec in pairs:
                if s is h._shape or s == h._shape:
                    dims = list(s[:-1])
                    cell = [fresh_int("cell", 0, d - 1) for d in dims]
                    return FillLeaf(s, cell, dims, False)
        return NotImplemented
    npf.HOOKS["zeros"] = [zeros]

def run_fill(plan, target, pairs, clause, data=None):
    plan.calls, plan.alive = [], []
    before = dict((id(h), dict((k, len(v)) for k, v in h._content.contrib.items()) if isinstance(h._content, FillLeaf) else {}) for h, s in pairs)
    plan.install()
    try:
        must_return(plan.c, clause, target.fill, dict(data or plan.data))
    finally:
        plan.restore()
    return before

def check_once(plan, conc=None):
    c = plan.c
    seen = set()
    dup = [k for k in plan.calls if k in seen or seen.add(k)]
    c.prove("every quantity is computed once", z3.BoolVal(not dup), why="twice: {0}".format(dup[:2]), concretise=conc)
    for n, a in plan.data.items():
        c.prove("the user's arrays are not modified", z3.BoolVal(a.version == 0 and a.v is plan.vals[n]), concretise=conc)

def check_hist(plan, h, spec, label="", since=None, conc=None):
    c = plan.c
    leaf = h._content
    ok = isinstance(leaf, FillLeaf)
    c.prove(label + "the histogram has contents", z3.BoolVal(ok), concretise=conc)
    if not ok:
        return
    here, want = spec.expect(plan, h, leaf)
    c.prove(label + "one column per sum", z3.BoolVal(sorted(want) == list(range(h._shape[-1]))), concretise=conc)
    for col, (what, v) in sorted(want.items()):
        total = None
        for cond, x in leaf.contrib.get(col, [])[(since or {}).get(col, 0):]:
            t = ite(mkbool(cond), tofloat(x), tofloat(0.0))
            total = t if total is None else fadd(total, t)
        total = tofloat(0.0) if total is None else total
        c.prove(label + "contribution to the " + ("sum of weights" if what == "sum of weights" else "profile or squared weight"), sameval(total, ite(mkbool(here), v, tofloat(0.0))), why=what, concretise=conc)
