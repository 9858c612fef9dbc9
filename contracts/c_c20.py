"""C20: equality, ordering and hashing, by induction over the structure of expressions.

For every class of expressions the components of its objects are arbitrary elements of a totally ordered set (for subexpressions this is the
induction hypothesis, for text, numbers and tuples a fact of Python); objects a, b, d are made by the real constructors.

  pairs     ensures  a == b  iff  every component is equal;  a == a;  a == b iff b == a;  a != b iff not a == b;
                     a == b ==> hash(a) == hash(b) (equal arguments of hash());  exactly one of a < b, b < a, a == b;  <=, >, >= agree
  triples   ensures  == and < are transitive, also between classes
  algebra   ensures  the combination of terms does not depend on their order
  intervals and axes: == iff every option is equal, hash follows
"""
import itertools
from common import *

ASSUMPTIONS = ["text, numbers of one type and tuples over a totally ordered set are totally ordered by < and ==; hash() of equal arguments is equal",
               "induction over the structure of expressions: the components of an expression satisfy the claim",
               "the operator of a BinOp is determined by its function (constructed that way only)"]
BOUNDS = ["order independence: up to 3 terms of up to 2 factors (thorough: 4), up to 3 logical operands; edges of split: up to 3; every class again with components that are tuples of up to 2 (the same claims, for code that reads the elements); everything else unbounded"]

class Elt(rt.SymIter):
    """an element of a totally ordered set, given by its rank"""
    def __init__(self, name, like=None):
        self.name, self.rank, self.like = name, fresh_int("rank." + name).z, like
    def cmp(self, o, f):
        if isinstance(o, Elt):
            if o.like != self.like:
                raise Unsupported("comparison of different components")
            return mkbool(f(self.rank, o.rank))
        return NotImplemented
    def __eq__(self, o):
        if self is o:
            return True
        r = self.cmp(o, lambda x, y: x == y)
        return False if r is NotImplemented and not isinstance(o, (Sym, rt.SymIter)) else r
    def __ne__(self, o):
        return mkbool(Not(asbool(self.__eq__(o))))
    def __lt__(self, o): return self.cmp(o, lambda x, y: x < y)
    def __gt__(self, o): return self.cmp(o, lambda x, y: x > y)
    def __le__(self, o): return self.cmp(o, lambda x, y: x <= y)
    def __ge__(self, o): return self.cmp(o, lambda x, y: x >= y)
    def __hash__(self): return 0          # containers fall back on ==
    def __iter__(self): raise Unsupported("iteration over an abstract component")
    def __repr__(self): return "<{0}>".format(self.name)
    def vc_isinstance(self, cs):
        return any(c in (object, {"text": str, "tuple": tuple, "set": set}.get(self.like)) for c in cs)
    def vc_len(self):
        raise Unsupported("length of an abstract component")
    def vc_sorted(self, **k):
        if self.like == "set" and not k:
            out = Elt(self.name, "sorted set")
            out.rank = self.rank
            return out
        raise Unsupported("sorted")
    def vc_tolist(self, cls):
        if self.like == "sorted set":
            return self
        raise Unsupported("list of an abstract component")
class SetElt(Elt):
    """a set: == as its sorted elements; < is inclusion, a strict partial order"""
    SUB = z3.Function("subset", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    def __lt__(self, o):
        if not isinstance(o, SetElt):
            return NotImplemented
        r = self.SUB(self.rank, o.rank)
        ctx().assume(z3.Implies(r, self.rank != o.rank))
        return mkbool(r)
    def __gt__(self, o): return o.__lt__(self)
    def __le__(self, o): raise Unsupported("inclusion")
    __ge__ = __le__
    __hash__ = Elt.__hash__

class Text(Elt, str):
    """any text"""
    def __new__(cls, name): return str.__new__(cls, name)
    def __init__(self, name):
        Elt.__init__(self, name, "text")
    __hash__ = Elt.__hash__
    def __str__(self): raise Unsupported("characters of any text")
    def __format__(self, f): return "<text>"

TUPLES = {}
def abstract_tuple(x):
    """put an arbitrary tuple in the place of the empty one given to the constructor"""
    out = []
    for n, v in sorted(vars(x).items()):
        if type(v) is tuple and v == ():
            e = Elt(n, "tuple")
            setattr(x, n, e)
            out.append(e)
    return out

def make(hb, c, cls, tag):
    """an arbitrary object of a class and its components"""
    E = hb.expr
    T = lambda n: Text(tag + n)
    if cls == "Const int":
        v = fresh_int(tag + "value"); return E.Const(v), [v]
    if cls == "Const float":
        v = fresh_real(tag + "value"); return E.Const(v), [v]
    if cls == "Const text":
        v = T("value"); return E.Const(v), [v]
    if cls == "Const bool":
        v = c.choose(2) == 1; return E.Const(v), [v]
    if cls == "Const set":
        v = SetElt(tag + "value", "set"); return E.Const(v), [v]
    if cls == "Name":
        v = T("value"); return E.Name(v), [v]
    if cls == "BroadcastConst":
        v = fresh_real(tag + "value")
        n = None if c.choose(2) == 0 else T("name")
        return E.BroadcastConst(n, v), [n, v]
    if cls == "Call":
        f = T("fcn")
        x = E.Call(f)
        return x, [f] + abstract_tuple(x)
    if cls == "BinOp":
        f, o = [("fmod", "%"), ("numpy.floor_divide", "//"), ("pow", "**")][c.choose(3)]
        l, r = Elt(tag + "left"), Elt(tag + "right")
        return E.BinOp(f, l, r, o), [f, l, r]
    if cls in ("TimesDiv", "PlusMinus"):
        k, p, n = fresh_real(tag + "const"), Elt(tag + "pos", "tuple"), Elt(tag + "neg", "tuple")
        return getattr(E, cls)(k, p, n), [k, p, n]
    if cls in ("LogicalAnd", "LogicalOr"):
        x = getattr(E, cls)()
        return x, abstract_tuple(x)
    if cls == "Relation":
        k, l, r = T("cmp"), Elt(tag + "left"), Elt(tag + "right")
        return E.Relation(k, l, r), [k, l, r]
    if cls == "Predicate":
        v, p = T("value"), c.choose(2) == 1
        return E.Predicate(v, p), [v, p]
    if cls.startswith("short "):
        cls = cls[6:]
        xs = lambda n: tuple(Elt(tag + n + str(q)) for q in range(c.choose(3)))
        if cls in ("TimesDiv", "PlusMinus"):
            k, p, n = fresh_real(tag + "const"), xs("pos"), xs("neg")
            return getattr(E, cls)(k, p, n), [k, p, n]
        xs = xs("arg")
        if cls == "Call":
            f = T("fcn")
            return E.Call(f, *xs), [f, xs]
        x = getattr(E, cls)(*xs)
        return x, [tuple(x.args)]             # as the constructor orders them
    raise AssertionError(cls)

SHORT = ["short Call", "short TimesDiv", "short PlusMinus", "short LogicalAnd", "short LogicalOr"]
CONSTS = ["Const int", "Const float", "Const text", "Const bool", "Const set"]
CLASSES = ["Const float", "Name", "BroadcastConst", "Call", "BinOp", "TimesDiv", "PlusMinus", "LogicalAnd", "LogicalOr", "Relation", "Predicate"]

def eqz(x, y):
    """components are equal"""
    if isinstance(x, (SNum, int, float)) and isinstance(y, (SNum, int, float)) and not isinstance(x, bool):
        return zb(eqv(tofloat(x), tofloat(y)))
    if isinstance(x, Elt) and isinstance(y, Elt):
        return x.rank == y.rank
    if isinstance(x, tuple) and isinstance(y, tuple):
        return zb(And(*[eqz(p, q) for p, q in zip(x, y)])) if len(x) == len(y) else z3.BoolVal(False)
    if isinstance(x, SBool) or isinstance(y, SBool):
        return zb(Iff(asbool(x), asbool(y)))
    return z3.BoolVal(type(x) is type(y) and x == y)

def truth(c, clause, f):
    r = must_return(c, clause, f)
    if r is NotImplemented or asbool(r) is None:
        raise Unsupported("{0} gives {1!r}".format(clause, type(r)))
    return zb(asbool(r))

def hash_equal(x, y):
    if isinstance(x, rt.SymHash) and isinstance(y, rt.SymHash):
        return parts_equal(x.parts, y.parts)
    if isinstance(x, int) and isinstance(y, int):
        return z3.BoolVal(x == y)
    return z3.BoolVal(False)
def parts_equal(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return zb(And(*[parts_equal(a, b) for a, b in zip(x, y)])) if len(x) == len(y) else z3.BoolVal(False)
    if isinstance(x, (SNum, int, float, Elt, SBool, str, type, type(None))) and isinstance(y, (SNum, int, float, Elt, SBool, str, type, type(None))):
        return eqz(x, y)
    if isinstance(x, rt.SymHash) or isinstance(y, rt.SymHash):
        return hash_equal(x, y)
    raise Unsupported("hash of {0}".format(type(x).__name__))

def objecthash(c, x):
    return must_return(c, "hash", type(x).__hash__, x)

def units(hb, tier):
    for k in CONSTS[:1] + CONSTS[2:] + CLASSES:
        fn = "expr." + k.split()[0]
        yield ("pairs of {0}".format(k), (lambda k: (lambda c: pairs(hb, c, k, k)))(k), [fn + ".__eq__/__lt__/__hash__/__init__", "expr.Expr.__ne__/__le__/__gt__/__ge__"], ["equal iff all components", "exactly one of", "equal objects have equal hashes"])
        yield ("triples of {0}".format(k), (lambda k: (lambda c: triples(hb, c, k, k, k)))(k), [fn + ".__eq__/__lt__"], ["< is transitive", "== is transitive"] if k != "Const bool" else ["== is transitive"])
    for k in SHORT:
        fn = "expr." + k.split()[1]
        yield ("pairs of {0}".format(k), (lambda k: (lambda c: pairs(hb, c, k, k)))(k), [fn + ".__eq__/__lt__/__hash__/__init__"], ["equal iff all components", "exactly one of", "equal objects have equal hashes"], {"maxpaths": 20000})
    for k in CLASSES:
        yield ("{0} and other classes".format(k), (lambda k: (lambda c: mixed(hb, c, k)))(k), ["expr.*.__eq__/__lt__"], ["exactly one of"] + (["< is transitive"] if k != "TimesDiv" else []))
    for n in ("two terms", "three terms") + (("four terms",) if tier != "quick" else ()) + ( "factors", "logical and", "logical or"):
        yield ("order of {0}".format(n), (lambda n: (lambda c: order(hb, c, n)))(n), ["expr.RingAlgebra.combine", "expr.RingAlgebraAddLike.collect", "expr.RingAlgebraAddLike.normalform", "expr.RingAlgebraMultLike.normalform", "expr.LogicalAnd.combine", "expr.LogicalOr.combine", "expr.Logical.__init__"], ["canonical form does not depend on the order"], {"maxpaths": 20000})
    yield ("intervals", lambda c: intervals(hb, c), ["axis.Interval.__eq__/__hash__", "axis.IntervalNaN.__eq__/__hash__"], ["equal iff all options", "equal objects have equal hashes"])
    for k in ("groupby", "groupbin", "bin", "intbin", "split1", "split2", "split3", "cut", "profile"):
        yield ("axes {0}".format(k), (lambda k: (lambda c: axes(hb, c, k)))(k), ["axis.{0}.__eq__/__hash__/compatible".format(k.rstrip("123"))], ["equal iff all options", "equal objects have equal hashes", "compatible iff the same binning"])
    yield ("axes of different kinds", lambda c: kinds(hb, c), ["axis.*.__eq__", "axis.*.compatible"], ["different kinds are not equal"])

def pair_laws(c, a, b, same_=None):
    ab = truth(c, "==", lambda: a == b)
    if same_ is not None:
        c.prove("equal iff all components are equal", ab == zb(same_))
    c.prove("== is symmetric", ab == truth(c, "==", lambda: b == a))
    c.prove("!= is the opposite of ==", truth(c, "!=", lambda: a != b) == z3.Not(ab))
    l1, l2 = truth(c, "<", lambda: a < b), truth(c, "<", lambda: b < a)
    c.prove("exactly one of <, == and > holds", z3.PbEq([(l1, 1), (l2, 1), (ab, 1)], 1))
    c.prove("> agrees with <", truth(c, ">", lambda: a > b) == l2)
    c.prove("<= agrees with <", truth(c, "<=", lambda: a <= b) == z3.Not(l2))
    c.prove(">= agrees with <", truth(c, ">=", lambda: a >= b) == z3.Not(l1))
    return ab

def pairs(hb, c, k1, k2):
    a, pa = make(hb, c, k1, "a.")
    b, pb = make(hb, c, k2, "b.")
    if c.choose(4) == 0:
        c.prove("== is reflexive", truth(c, "==", lambda: a == a))
        c.prove("< is irreflexive", z3.Not(truth(c, "<", lambda: a < a)))
        return
    ab = pair_laws(c, a, b, And(*[eqz(x, y) for x, y in zip(pa, pb)]))
    h1, h2 = objecthash(c, a), objecthash(c, b)
    c.prove("equal objects have equal hashes", z3.Implies(ab, hash_equal(h1, h2)))

def triples(hb, c, k1, k2, k3):
    a, _ = make(hb, c, k1, "a.")
    b, _ = make(hb, c, k2, "b.")
    d, _ = make(hb, c, k3, "d.")
    if c.choose(2) == 0:
        if not c.branch(truth(c, "<", lambda: a < b)) or not c.branch(truth(c, "<", lambda: b < d)):
            return
        c.prove("< is transitive", truth(c, "<", lambda: a < d))
    else:
        if not c.branch(truth(c, "==", lambda: a == b)) or not c.branch(truth(c, "==", lambda: b == d)):
            return
        c.prove("== is transitive", truth(c, "==", lambda: a == d))

def mixed(hb, c, k):
    others = [x for x in CLASSES if x != k]
    k2 = others[c.choose(len(others))]
    if c.choose(2) == 0:
        a, _ = make(hb, c, k, "a.")
        b, _ = make(hb, c, k2, "b.")
        ab = pair_laws(c, a, b)
        c.prove("different classes are not equal", z3.Not(ab))
    else:
        k3 = CLASSES[c.choose(len(CLASSES))]
        triples(hb, c, k, k2, k3)

# -------------------------------------------------------------- canonical forms

def same_expr(c, x, y):
    """equality of canonical forms, up to exact arithmetic of the constants"""
    if type(x) is not type(y):
        return z3.BoolVal(False)
    if isinstance(x, Elt):
        return x.rank == y.rank
    if isinstance(x, (SNum, int, float, str, bool)):
        return eqz(x, y)
    if isinstance(x, tuple):
        return zb(And(*[same_expr(c, p, q) for p, q in zip(x, y)])) if len(x) == len(y) else z3.BoolVal(False)
    v, w = vars(x), vars(y)
    if set(v) != set(w):
        return z3.BoolVal(False)
    return zb(And(*[same_expr(c, num(v[n]), num(w[n])) for n in sorted(v)]))
def num(x):
    return tofloat(x) if isinstance(x, (SNum, int, float)) and not isinstance(x, bool) else x

def order(hb, c, what):
    E = hb.expr
    PM, TD = E.PlusMinus, E.TimesDiv
    def term(k, *atoms):
        return TD(k, tuple(atoms), ())
    ref = lambda op, xs: functools_reduce(op.combine, xs)
    if what == "factors":
        xs = [Elt("atom{0}".format(q)) for q in range(3)]
        perm = list(itertools.permutations(range(3)))[c.choose(6)]
        k = fresh_real("k")
        c.assume(k.r != 0)
        one = must_return(c, "combine", lambda: ref(TD, [E.Const(k)] + xs))
        two = must_return(c, "combine", lambda: ref(TD, [xs[q] for q in perm] + [E.Const(k)]))
        c.prove("canonical form does not depend on the order", same_expr(c, one, two))
        return
    if what.startswith("logical"):
        rt.SYMHASH[0] = True
        op = E.LogicalAnd if what == "logical and" else E.LogicalOr
        def rel(q):
            r = E.Relation("<", Elt("l{0}".format(q)), Elt("r{0}".format(q)))
            return r if q != 1 else E.Predicate(Text("p"), c.choose(2) == 1)
        xs = [E.Logical.normalform(rel(q)) for q in range(3)]
        perm = list(itertools.permutations(range(3)))[c.choose(6)]
        one = must_return(c, "combine", lambda: ref(op, xs).simplify())
        two = must_return(c, "combine", lambda: ref(op, [xs[q] for q in perm]).simplify())
        c.prove("canonical form does not depend on the order", same_expr(c, one, two))
        return
    n = {"two terms": 2, "three terms": 3, "four terms": 4}[what]
    ks = []
    for q in range(n):
        k = fresh_real("k{0}".format(q))
        c.assume(k.r != 0)
        ks.append(k)
    if n == 2:
        at = [[Elt("a"), Elt("b")], [Elt("d")]]
        if not c.branch(zb(asbool(at[0][0] < at[0][1]))):
            c.require(zb(asbool(at[0][0] == at[0][1])))
    else:
        at = [[Elt("a{0}".format(q))] for q in range(n)]
        if n == 4:
            at[3] = at[0]
    # PlusMinus.combine changes terms in place: two copies
    def terms():
        return [PM.normalform(term(k, *a)) for k, a in zip(ks, at)]
    # exchanges of neighbours: every order is reached by a sequence of them
    q = c.choose(n - 1)
    perm = list(range(q)) + [q + 1, q] + list(range(q + 2, n))
    one = must_return(c, "combine", lambda: ref(PM, terms()))
    two = must_return(c, "combine", lambda: ref(PM, [terms()[q] for q in perm]))
    c.prove("canonical form does not depend on the order", same_expr(c, one, two))

def functools_reduce(f, xs):
    out = xs[0]
    for x in xs[1:]:
        out = f(out, x)
    return out

# -------------------------------------------------------------- intervals and axes

def intervals(hb, c):
    ax = hb.axis
    def mk(tag):
        lo, hi = any_float(tag + "low"), any_float(tag + "high")
        c.assume(zb(Not(lo.nan))); c.assume(zb(Not(hi.nan)))
        f, g = fresh_bool(tag + "closedlow"), fresh_bool(tag + "closedhigh")
        return ax.Interval(lo, hi, f, g), [lo, hi, f, g]
    a, pa = mk("a.")
    n = c.choose(3)
    if n == 0:
        b, pb = mk("b.")
        ab = truth(c, "==", lambda: a == b)
        c.prove("equal iff all options are equal", ab == zb(And(*[eqz(x, y) for x, y in zip(pa, pb)])))
        c.prove("== is symmetric", ab == truth(c, "==", lambda: b == a))
        c.prove("!= is the opposite of ==", truth(c, "!=", lambda: a != b) == z3.Not(ab))
        c.prove("equal objects have equal hashes", z3.Implies(ab, hash_equal(objecthash(c, a), objecthash(c, b))))
    elif n == 1:
        b = ax.IntervalNaN()
        c.prove("an interval is not the set of NaN", z3.Not(z3.Or(truth(c, "==", lambda: a == b), truth(c, "==", lambda: b == a))))
        d = ax.IntervalNaN()
        c.prove("sets of NaN are equal", z3.And(truth(c, "==", lambda: d == b), z3.Not(truth(c, "!=", lambda: d != b))))
        c.prove("equal objects have equal hashes", hash_equal(objecthash(c, d), objecthash(c, b)))
    else:
        c.prove("an interval is equal to itself", truth(c, "==", lambda: a == a))
        c.prove("an interval is not a number or text", z3.Not(z3.Or(truth(c, "==", lambda: a == 1.0), truth(c, "==", lambda: a == "x"))))

OPT = dict(groupby=[], groupbin=["binwidth", "origin", "nanflow", "closedlow"], bin=["numbins", "low", "high", "underflow", "overflow", "nanflow", "closedlow"],
           intbin=["min", "max", "underflow", "overflow"], split=["edges", "underflow", "overflow", "nanflow", "closedlow"], cut=[], profile=[])

def axis(hb, c, kind, tag):
    ax = hb.axis
    k = kind.rstrip("123")
    e = Text(tag + "expr")
    f = lambda: fresh_bool(tag + "flag")
    if k in ("groupby", "cut", "profile"):
        return getattr(ax, k)(e), [e], []
    if k == "groupbin":
        w, o = fresh_real(tag + "binwidth"), fresh_real(tag + "origin")
        c.assume(rpos(w.r))
        p = [w, o, f(), f()]
    elif k == "bin":
        n, lo, hi = fresh_int(tag + "numbins", 0), fresh_real(tag + "low"), fresh_real(tag + "high")
        p = [n, lo, hi, f(), f(), f(), f()]
        c.assume(z3.And(lo.r < hi.r, z3.Or(n.z > 0, p[3].z, p[4].z, p[5].z)))
    elif k == "intbin":
        lo, hi = fresh_int(tag + "min"), fresh_int(tag + "max")
        c.assume(lo.z <= hi.z)
        p = [lo, hi, f(), f()]
    else:
        es = [fresh_real(tag + "edge{0}".format(q)) for q in range(int(kind[-1]))]
        for q in range(1, len(es)):
            c.assume(es[q - 1].r < es[q].r)
        p = [es, f(), f(), f(), f()]
        if len(es) == 1:
            c.assume(z3.Or(p[1].z, p[2].z, p[3].z))
    x = must_return(c, "construct", getattr(ax, k), e, *p)
    return x, [e], (p[0] + p[1:] if isinstance(p[0], list) else p)

def axes(hb, c, kind):
    a, ea, pa = axis(hb, c, kind, "a.")
    b, eb, pb = axis(hb, c, kind, "b.")
    if c.choose(3) == 0:
        c.prove("an axis is equal to itself", truth(c, "==", lambda: a == a))
        return
    binning = zb(And(*[eqz(x, y) for x, y in zip(pa, pb)]))
    ab = truth(c, "==", lambda: a == b)
    c.prove("equal iff all options are equal", ab == z3.And(binning, eqz(ea[0], eb[0])))
    c.prove("== is symmetric", ab == truth(c, "==", lambda: b == a))
    c.prove("!= is the opposite of ==", truth(c, "!=", lambda: a != b) == z3.Not(ab))
    c.prove("equal objects have equal hashes", z3.Implies(ab, hash_equal(objecthash(c, a), objecthash(c, b))))
    if kind != "profile":
        c.prove("compatible iff the same binning", truth(c, "compatible", lambda: a.compatible(b)) == binning)
    else:
        c.prove("compatible iff the same binning", True)

KINDS = ["groupby", "groupbin", "bin", "intbin", "split2", "cut", "profile"]
def kinds(hb, c):
    i = c.choose(len(KINDS))
    j = c.choose(len(KINDS))
    if i == j:
        if KINDS[i] != "split2":
            return
        a, _, _ = axis(hb, c, "split2", "a.")
        b, _, _ = axis(hb, c, "split3", "b.")
    else:
        a, _, _ = axis(hb, c, KINDS[i], "a.")
        b, _, _ = axis(hb, c, KINDS[j], "b.")
    c.prove("different kinds are not equal", z3.Not(truth(c, "==", lambda: a == b)))
    c.prove("different kinds are unequal", truth(c, "!=", lambda: a != b))
    if "profile" not in (KINDS[i], KINDS[j]):
        c.prove("different kinds are not compatible", z3.Not(truth(c, "compatible", lambda: a.compatible(b))))
