"""Symbolic scalars: SBool, SInt (mathematical integers), SFloat (reals extended with -inf, +inf and NaN)."""
import math, numbers
import z3
from core import Ctx, Unsupported, PathEnd, ctx, imulz
import poly
from poly import nf, sign_form, declare_positive

def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
def And(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)
def Or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)
def Implies(a, b):
    return Or(Not(a), b)
def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b
def IteB(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return Or(And(c, a), And(Not(c), b)) if (isinstance(a, bool) or isinstance(b, bool)) else z3.If(c, a, b)
def IteN(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    return z3.If(c, a, b)

class Sym(object):
    __slots__ = ()
    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

class SBool(Sym):
    __slots__ = ("z",)
    def __init__(self, z):
        self.z = z
    def __bool__(self):
        return ctx().branch(self.z)
    __nonzero__ = __bool__
    def __eq__(self, o):
        o = asbool(o)
        return NotImplemented if o is None else mkbool(Iff(self.z, o))
    def __ne__(self, o):
        o = asbool(o)
        return NotImplemented if o is None else mkbool(Not(Iff(self.z, o)))
    def __hash__(self):
        return hash(bool(self))
    def __and__(self, o):
        return mkbool(And(self.z, asbool(o)))
    __rand__ = __and__
    def __or__(self, o):
        return mkbool(Or(self.z, asbool(o)))
    __ror__ = __or__
    def __invert__(self):
        return mkbool(Not(self.z))
    def __repr__(self):
        return "SBool({0})".format(self.z)
    def __add__(self, o):
        return toint(self) + o
    __radd__ = __add__

def mkbool(z):
    if isinstance(z, bool):
        return z
    return SBool(z)
def asbool(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, SBool):
        return x.z
    return None

class SNum(Sym):
    __slots__ = ()
    def __lt__(self, o): return cmpop(self, o, "lt")
    def __le__(self, o): return cmpop(self, o, "le")
    def __gt__(self, o): return cmpop(o, self, "lt", True)
    def __ge__(self, o): return cmpop(o, self, "le", True)
    def __eq__(self, o): return cmpop(self, o, "eq")
    def __ne__(self, o):
        r = cmpop(self, o, "eq")
        if r is NotImplemented:
            return r
        return mkbool(Not(asbool(r)))
    def __add__(self, o): return arith(self, o, "add")
    def __radd__(self, o): return arith(o, self, "add", True)
    def __sub__(self, o): return arith(self, o, "sub")
    def __rsub__(self, o): return arith(o, self, "sub", True)
    def __mul__(self, o): return arith(self, o, "mul")
    def __rmul__(self, o): return arith(o, self, "mul", True)
    def __truediv__(self, o): return arith(self, o, "div")
    def __rtruediv__(self, o): return arith(o, self, "div", True)
    def __floordiv__(self, o): return arith(self, o, "floordiv")
    def __rfloordiv__(self, o): return arith(o, self, "floordiv", True)
    def __mod__(self, o): return arith(self, o, "mod")
    def __rmod__(self, o): return arith(o, self, "mod", True)
    def __neg__(self): return arith(0, self, "sub", True)
    def __pos__(self): return self
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            out = 1
            for i in range(o):
                out = out * self
            return out
        if isinstance(o, int) and not isinstance(o, bool) and -8 <= o < 0:
            return 1.0 / self**(-o)          # Python raises for zero, as the division does
        raise Unsupported("power")
    def __rpow__(self, o):
        raise Unsupported("power")
    def __float__(self): raise Unsupported("float() of a symbolic value reached C code")
    def __int__(self): raise Unsupported("int() of a symbolic value reached C code")
    def __index__(self): raise Unsupported("index by a symbolic value reached C code")
    def __hash__(self):
        if getattr(ctx(), "numberkeys", False):      # a contract in which containers hold only symbolic numbers: all hash alike, == decides
            return 0
        raise Unsupported("hash of a symbolic number")
    def __format__(self, spec): return "<sym>"
    def __round__(self, n=None):
        return pyround(self)
    def __abs__(self):
        if isinstance(self, SInt):
            return mkint(z3.If(self.z < 0, -self.z, self.z))
        return SFloat(z3.If(self.r < 0, -self.r, self.r), self.nan, Or(self.pinf, self.ninf), False)

class SInt(SNum):
    __slots__ = ("z",)
    def __init__(self, z):
        self.z = z
    def __bool__(self):
        return ctx().branch(self.z != 0)
    def __repr__(self):
        return "SInt({0})".format(self.z)
    __hash__ = SNum.__hash__

class SFloat(SNum):
    __slots__ = ("r", "nan", "pinf", "ninf")
    def __init__(self, r, nan=False, pinf=False, ninf=False):
        self.r, self.nan, self.pinf, self.ninf = r, nan, pinf, ninf
    def fin(self):
        return Not(Or(self.nan, self.pinf, self.ninf))
    def __bool__(self):
        return ctx().branch(zb(Or(Not(self.fin()), self.r != 0)))
    def __repr__(self):
        return "SFloat({0}{1})".format(self.r, "" if self.fin() is True else ",ext")
    __hash__ = SNum.__hash__
    def is_integer(self):
        return mkbool(And(self.fin(), z3.IsInt(self.r)))

numbers.Integral.register(SInt)
numbers.Real.register(SFloat)

def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)

def liftr(x):
    return z3.RealVal(repr(x) if isinstance(x, int) else frac(x))
def frac(x):
    from fractions import Fraction
    f = Fraction(x)
    return "{0}/{1}".format(f.numerator, f.denominator)

def isnum(x):
    return isinstance(x, (SNum, SBool, bool, int, float)) or type(x).__module__ == "numpy" and hasattr(x, "item") and getattr(x, "shape", None) == ()

def plain(x):
    """numpy scalars to Python"""
    if type(x).__module__ == "numpy" and hasattr(x, "item"):
        return x.item()
    return x

def tofloat(x):
    x = plain(x)
    if isinstance(x, SFloat):
        return x
    if isinstance(x, SInt):
        return SFloat(z3.ToReal(x.z))
    if isinstance(x, SBool):
        return SFloat(z3.If(x.z, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, (bool, int)):
        return SFloat(z3.RealVal(int(x)))
    if isinstance(x, float):
        if math.isnan(x):
            return SFloat(z3.RealVal(0), nan=True)
        if math.isinf(x):
            return SFloat(z3.RealVal(0), pinf=x > 0, ninf=x < 0)
        return SFloat(z3.RealVal(frac(x)))
    return None

def toint(x):
    x = plain(x)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, (bool, int)):
        return SInt(z3.IntVal(int(x)))
    return None

def zint(x):
    return toint(x).z

def isint(x):
    x = plain(x)
    return isinstance(x, (SInt, SBool, bool, int))

def sgn(e):
    """sign_form, or a Python number when the sign is known"""
    e = sign_form(e)
    k = poly.const(e)
    if k is None and not poly.active():
        k = poly.const(z3.simplify(e))
    return e if k is None else k
def rlt(x, y):
    if poly.active():
        s = sgn(x - y)
        return s < 0
    return x < y
def req(x, y):
    if poly.active():
        s = sgn(x - y)
        return s == 0
    return x == y
def rz(x):
    s = sgn(x)
    return s == 0
def rpos(x):
    s = sgn(x)
    return s > 0
def rnonneg(x):
    s = sgn(x)
    return s >= 0

def lt(a, b):
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)), And(a.fin(), b.fin(), rlt(a.r, b.r))))
def eqv(a, b):
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.ninf, b.ninf), And(a.pinf, b.pinf), And(a.fin(), b.fin(), req(a.r, b.r))))
def same(a, b):
    """identical, NaN included"""
    a, b = tofloat(a), tofloat(b)
    return Or(And(a.nan, b.nan), eqv(a, b))

def cmpop(a, b, op, swapped=False):
    if not (isnum(a) and isnum(b)):
        if op == "eq" and (isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, (tuple, list, set)) or isinstance(b, (tuple, list, set))):
            return False
        return NotImplemented
    if isint(a) and isint(b):
        x, y = zint(a), zint(b)
        z = {"lt": x < y, "le": x <= y, "eq": x == y}[op]
        return mkbool(z)
    x, y = tofloat(a), tofloat(b)
    if op == "lt":
        z = lt(x, y)
    elif op == "eq":
        z = eqv(x, y)
    else:
        z = Or(lt(x, y), eqv(x, y))
    return mkbool(z)

def fadd(a, b):
    nan = Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
    return SFloat(nf(a.r + b.r), nan, And(Not(nan), Or(a.pinf, b.pinf)), And(Not(nan), Or(a.ninf, b.ninf)))
def fneg(a):
    return SFloat(nf(-a.r), a.nan, a.ninf, a.pinf)
def fmul(a, b):
    if a.fin() is True and b.fin() is True:
        return SFloat(nf(a.r * b.r))
    ai, bi = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
    az, bz = And(a.fin(), rz(a.r)), And(b.fin(), rz(b.r))
    nan = Or(a.nan, b.nan, And(ai, bz), And(bi, az))
    apos = Or(a.pinf, And(a.fin(), rpos(a.r)))
    bpos = Or(b.pinf, And(b.fin(), rpos(b.r)))
    inf = And(Not(nan), Or(ai, bi))
    samesign = Iff(apos, bpos)
    return SFloat(nf(a.r * b.r), nan, And(inf, samesign), And(inf, Not(samesign)))
def fdiv_np(a, b):
    """IEEE division (no exception)"""
    ai, bi = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
    bz = And(b.fin(), rz(b.r))
    az = And(a.fin(), rz(a.r))
    nan = Or(a.nan, b.nan, And(ai, bi), And(az, bz))
    inf = And(Not(nan), Or(ai, bz))
    apos = Or(a.pinf, And(a.fin(), rpos(a.r)))
    bpos = Or(b.pinf, And(b.fin(), rnonneg(b.r)))       # +0.0 assumed
    samesign = Iff(apos, bpos)
    zero = bi
    r = nf(a.r / b.r)
    if zero is not False:
        r = IteN(zero, z3.RealVal(0), r)
    return SFloat(r, nan, And(inf, samesign), And(inf, Not(samesign)))

def arith(a, b, op, swapped=False):
    if not (isnum(a) and isnum(b)):
        return NotImplemented
    if isint(a) and isint(b):
        if op != "div":
            x, y = zint(a), zint(b)
            if op == "add": return mkint(x + y)
            if op == "sub": return mkint(x - y)
            if op == "mul": return mkint(imulz(x, y))
            if ctx().branch(y == 0):
                raise ZeroDivisionError("division by zero")
            if ctx().branch(y > 0):
                return mkint(x / y if op == "floordiv" else x % y)
            return mkint((-x) / (-y) if op == "floordiv" else -((-x) % (-y)))
    x, y = tofloat(a), tofloat(b)
    if op == "add": return fadd(x, y)
    if op == "sub": return fadd(x, fneg(y))
    if op == "mul": return fmul(x, y)
    if op == "div":
        if ctx().branch(zb(And(y.fin(), rz(y.r)))):
            raise ZeroDivisionError("division by zero")
        return fdiv_np(x, y)
    raise Unsupported("float " + op)

def as_int(r, depth=0):
    """the integer term equal to the real term r when r is integral by construction, else None"""
    k = poly.const(r)
    if k is not None:
        return z3.IntVal(k.numerator) if k.denominator == 1 else None
    if depth > 40:
        return None
    d = r.decl().kind()
    ch = r.children()
    if d == z3.Z3_OP_TO_REAL:
        return ch[0]
    if d == z3.Z3_OP_ITE:
        a, b = as_int(ch[1], depth + 1), as_int(ch[2], depth + 1)
        return None if a is None or b is None else z3.If(ch[0], a, b)
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        xs = [as_int(x, depth + 1) for x in ch]
        if any(x is None for x in xs):
            return None
        if d == z3.Z3_OP_UMINUS:
            return -xs[0]
        out = xs[0]
        for x in xs[1:]:
            out = out + x if d == z3.Z3_OP_ADD else out - x if d == z3.Z3_OP_SUB else out * x
        return out
    return None

def split_int(r):
    """r = m + rest with m an integer term: (m, rest), or None when there is no integer part to see"""
    if not poly.active():
        return None
    p = poly.poly(r)
    m, rest, seen = z3.IntVal(0), {}, False
    for mono, k in sorted(p.items()):
        a = Ctx.cur.polymemo.get(("atom", mono[0][0])) if len(mono) == 1 and mono[0][1] == 1 else None
        i = as_int(a) if a is not None else None
        if i is not None and k.denominator == 1:
            m, seen = m + i*k.numerator, True
        elif mono == () and abs(k) >= 1:
            n = round(k)
            m = m + n
            if k != n:
                rest[()] = k - n
        else:
            rest[mono] = k
    return (z3.simplify(m), poly.rebuild(rest)) if seen and rest else None

def floorz(r):
    """floor of a real term as an integer term: a fresh integer defined by k <= r < k + 1"""
    k = as_int(r)
    if k is not None:
        return k
    t = split_int(r)
    if t is not None:
        memo = ctx().__dict__.setdefault("splitmemo", {})
        if r.get_id() not in memo:
            memo[r.get_id()] = (r, ctx().feasible(z3.Not(z3.And(t[1] >= 0, t[1] < 1))) == z3.unsat)
        if memo[r.get_id()][1]:
            return t[0]
    c = ctx()
    memo = c.__dict__.setdefault("floormemo", {})
    i = r.get_id()
    if i not in memo:
        z = z3.Int(c.name("floor"))
        c.assume(z3.And(rle(z3.ToReal(z), r), rlt(r, z3.ToReal(z) + 1)))
        memo[i] = (r, z)
    return memo[i][1]

def rle(x, y):
    return zb(Not(rlt(y, x)))

def ffloor(a):
    return SFloat(z3.ToReal(floorz(a.r)), a.nan, a.pinf, a.ninf)
def fceil(a):
    return SFloat(nf(-z3.ToReal(floorz(nf(-a.r)))), a.nan, a.pinf, a.ninf)
def ftrunc(r):
    k = as_int(r)
    if k is not None:
        return k
    return z3.If(r >= 0, floorz(r), -floorz(nf(-r)))

def fresh_int(n, lo=None, hi=None):
    z = z3.Int(ctx().name(n))
    if lo is not None: ctx().assume(z >= lo)
    if hi is not None: ctx().assume(z <= hi)
    return SInt(z)
def fresh_bool(n):
    return SBool(z3.Bool(ctx().name(n)))
def fresh_real(n):
    return SFloat(z3.Real(ctx().name(n)))
def fresh_float(n):
    """any extended real or NaN"""
    c = ctx()
    n = c.name(n)
    r, nan, pinf, ninf = z3.Real(n), z3.Bool(n + ".nan"), z3.Bool(n + ".pinf"), z3.Bool(n + ".ninf")
    c.assume(z3.Not(z3.And(nan, pinf)))
    c.assume(z3.Not(z3.And(nan, ninf)))
    c.assume(z3.Not(z3.And(pinf, ninf)))
    return SFloat(r, nan, pinf, ninf)

def roundz(r):
    """nearest integer, ties to even"""
    i = as_int(r)
    if i is not None:
        return i
    t = split_int(r)
    if t is not None and ctx().feasible(z3.Not(z3.And(t[1] > z3.Q(-1, 2), t[1] < z3.Q(1, 2)))) == z3.unsat:
        return t[0]
    k = floorz(nf(r + z3.RealVal("1/2")))
    tie = z3.ToReal(k) == r + z3.RealVal("1/2")
    return z3.If(z3.And(tie, k % 2 == 1), k - 1, k)

def pyround(x):
    if isinstance(x, SInt):
        return x
    if ctx().branch(zb(Not(x.fin()))):
        raise ValueError("cannot convert float NaN or infinity to integer")
    return mkint(roundz(x.r))

def pyint(x):
    if isinstance(x, (SInt, SBool)):
        return toint(x) if isinstance(x, SBool) else x
    if ctx().branch(zb(x.nan)):
        raise ValueError("cannot convert float NaN to integer")
    if ctx().branch(zb(Or(x.pinf, x.ninf))):
        raise OverflowError("cannot convert float infinity to integer")
    return mkint(ftrunc(x.r))

def ite(c, a, b):
    """scalar choice"""
    if isinstance(c, SBool):
        c = c.z
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(IteB(c, zb(asbool(a)), zb(asbool(b))))
    if isint(a) and isint(b):
        return mkint(z3.If(c, zint(a), zint(b)))
    x, y = tofloat(a), tofloat(b)
    if x is None or y is None:
        raise Unsupported("choice between {0} and {1}".format(type(a), type(b)))
    return SFloat(z3.If(c, x.r, y.r), IteB(c, x.nan, y.nan), IteB(c, x.pinf, y.pinf), IteB(c, x.ninf, y.ninf))

def mval(model, x):
    """concrete Python value of a scalar in a model"""
    x = plain(x)
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    ev = lambda z: model.eval(zb(z), model_completion=True)
    if isinstance(x, SBool):
        return z3.is_true(ev(x.z))
    if isinstance(x, SInt):
        return ev(x.z).as_long()
    if isinstance(x, SFloat):
        if z3.is_true(ev(x.nan)): return float("nan")
        if z3.is_true(ev(x.pinf)): return float("inf")
        if z3.is_true(ev(x.ninf)): return float("-inf")
        r = model.eval(x.r, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        return float(r.numerator_as_long()) / float(r.denominator_as_long())
    raise Unsupported("model value of {0}".format(type(x)))

def any_float(n):
    """any extended real or NaN, by cases (constant flags keep the formulas small)"""
    k = ctx().choose(4, n)
    if k == 0:
        return fresh_real(n)
    return tofloat([None, float("nan"), float("inf"), float("-inf")][k])


class IdxFn(object):
    """an uninterpreted function of an integer with facts "for all i" and "for all i < j" about it,
    instantiated at every index term the code or the contract uses (so that queries stay quantifier-free)"""
    def __init__(self, name, sort=None, unary=(), binary=()):
        self.f = z3.Function(ctx().name(name), z3.IntSort(), sort if sort is not None else z3.RealSort())
        self.terms, self.ids = [], {}
        self.unary, self.binary = list(unary), list(binary)
        self.depth = 0
    def __call__(self, t):
        t = zint(t) if not z3.is_expr(t) else t
        t = z3.simplify(t)
        if t.get_id() not in self.ids:
            self.ids[t.get_id()] = t
            old = list(self.terms)
            self.terms.append(t)
            if len(self.terms) > 200:
                raise Unsupported("too many index terms")
            c = ctx()
            for u in self.unary:
                c.assume(u(t))
            for b in self.binary:
                for o in old:
                    c.assume(b(o, t))
                    c.assume(b(t, o))
        return self.f(t)
    def add_unary(self, u):
        self.unary.append(u)
        for t in list(self.terms):
            ctx().assume(u(t))
    def add_binary(self, b):
        self.binary.append(b)
        ts = list(self.terms)
        for i, s in enumerate(ts):
            for t in ts[:i]:
                ctx().assume(b(s, t))
                ctx().assume(b(t, s))
