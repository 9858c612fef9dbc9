"""numpy, as the contracts of the functions histbook calls (the assumed library contracts).

Arrays come in two forms:
  EArr   one value per entry of the data, seen at a generic entry p (value, mask, selection)
  Leaf   a bin-content array, seen at a generic cell c and column q (see leaf.py)
Anything that is not listed raises Unsupported when it is given symbolic arguments and
otherwise goes to the real numpy.
"""
import builtins, types
import numpy as real
import z3
from core import Unsupported, ctx, imulz
from sym import *
import sym, rt
from rt import SymIter, SymSeq, rt_len

class ndarray(object):
    """symbolic arrays are instances of this class; real arrays too (see vc_isinstance in the shim)"""

class _meta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or isinstance(x, real.ndarray)
class ndarray(object, metaclass=_meta):
    pass

class DType(object):
    """dtype of a symbolic array"""
    def __init__(self, kind, bits=64):
        self.kind, self.bits = kind, bits
    def __eq__(self, o):
        o = asdtype(o)
        return o is not None and (self.kind, self.bits) == (o.kind, o.bits)
    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): return hash((self.kind, self.bits))
    def __repr__(self): return "dtype({0}{1})".format(self.kind, self.bits)

def asdtype(x):
    if isinstance(x, DType) or x is None:
        return x
    try:
        d = real.dtype(x)
    except TypeError:
        return None
    return DType(d.kind, d.itemsize * 8)

def tokind(v):
    if isinstance(v, (bool, SBool)): return "b"
    if isint(v): return "i"
    if isinstance(v, (SFloat, float)): return "f"
    return "O"

class Masked(object):
    def __add__(self, o): return self
    __radd__ = __add__
    def __repr__(self): return "masked"
masked = Masked()
nomask = False

class SLen(SInt):
    """length of an array: remembers the entries it counts"""
    __slots__ = ("base", "guard")
    __hash__ = SInt.__hash__
    def __init__(self, z, base, guard):
        SInt.__init__(self, z)
        self.base, self.guard = base, tuple(guard)

class Base(object):
    """an index set: the entries of one fill.  uniform: what is assumed of the generic entry holds of every entry"""
    def __init__(self, name="p", length=None, uniform=False):
        self.name = name
        n = length if length is not None else fresh_int("length", 0)
        self.length = SLen(zint(n), self, ())
        self.uniform = uniform

class EArr(ndarray):
    vc_version = True
    def __init__(self, v, base, kind=None, bits=64, mask=None, guard=(), ma=False):
        self.v, self.base, self.mask, self.guard, self.ma = v, base, mask, tuple(guard), ma
        self.kind = kind or tokind(v)
        self.bits = bits
        self.version = 0
    @property
    def dtype(self): return DType(self.kind, self.bits)
    @property
    def shape(self): return (self.vc_len(),)
    @property
    def size(self): return self.vc_len()
    @property
    def ndim(self): return 1
    def vc_len(self):
        if not self.guard:
            return self.base.length
        n = fresh_int("count", 0)
        ctx().assume(n.z <= zint(self.base.length))
        return SLen(n.z, self.base, self.guard)
    def like(self, v, kind=None, mask="same", bits=None):
        return EArr(v, self.base, kind or tokind(v), bits or 64, self.mask if mask == "same" else mask, self.guard, self.ma)
    def copy(self):
        return EArr(self.v, self.base, self.kind, self.bits, self.mask, self.guard, self.ma)
    def astype(self, t):
        t = asdtype(t)
        return EArr(cast(self.v, self.kind, t, self.bits), self.base, t.kind, t.bits, self.mask, self.guard, self.ma)
    def set(self, v):
        """in-place: keeps the dtype"""
        if self.kind == "i" and tokind(v) == "f":
            raise Unsupported("in-place float result into an integer array")
        if self.kind == "f" and tokind(v) != "f":
            v = tofloat(v)
        self.v = v
        self.version += 1
    def __getitem__(self, i):
        if isinstance(i, EArr) and i.kind == "b":
            samebase(self, i)
            return EArr(self.v, self.base, self.kind, self.bits, self.mask, self.guard + (zb(asbool(i.v)),), self.ma)
        if i == slice(None):
            out = self.copy()
            out.viewof = self
            raise Unsupported("view of a symbolic array")
        raise Unsupported("index of a symbolic array by {0}".format(type(i)))
    def __setitem__(self, i, x):
        if isinstance(i, EArr) and i.kind == "b":
            samebase(self, i)
            c = zb(asbool(i.v))
            if i.mask is not None:
                # the underlying data of a masked comparison is not specified
                c = z3.If(zb(i.mask), fresh_bool("maskedcmp").z, c)
            if x is masked:
                if not self.ma:
                    raise Unsupported("masked into a plain array")
                self.mask = Or(self.mask if self.mask is not None else False, c)
                self.version += 1
                return
            if isinstance(x, EArr):
                if x.base is not self.base or len(x.guard) != len(self.guard) + 1 and x.guard != self.guard:
                    raise Unsupported("assignment of another selection")
                if len(x.guard) == len(self.guard) + 1 and not x.guard[-1].eq(zb(asbool(i.v))):
                    raise Unsupported("assignment of another selection")
                v, m = x.v, x.mask
            else:
                v, m = x, None
            if self.kind == "i" and tokind(v) == "f":
                v = cast(v, "f", self.dtype, 64)
            self.v = ite(c, v, self.v)
            if self.ma and self.mask is not None:
                self.mask = IteB(c, m if m is not None else False, self.mask)
            self.version += 1
            return
        if i == slice(None):
            self.set(x.v if isinstance(x, EArr) else x)
            return
        raise Unsupported("assignment to a symbolic array at {0}".format(type(i)))
    def all(self):
        t = truth(self.v)
        if self.base.uniform and ctx().feasible(z3.And(zb(And(*self.guard)), z3.Not(zb(t)))) == z3.unsat:
            return True
        b = fresh_bool("all")
        ctx().assume(z3.Implies(z3.And(b.z, zb(And(*self.guard))), zb(truth(self.v))))
        return b
    def any(self):
        for h in HOOKS.get("any", ()):
            r = h(self)
            if r is not NotImplemented:
                return r
        b = fresh_bool("any")
        ctx().assume(z3.Implies(z3.And(zb(And(*self.guard)), zb(truth(self.v))), b.z))
        return b
    def compressed(self):
        g = self.guard
        if self.mask is not None and self.mask is not False:
            g = g + (zb(Not(self.mask)),)
        return EArr(self.v, self.base, self.kind, self.bits, None, g, False)
    def __repr__(self): return "<array {0}>".format(self.v)
    def __bool__(self): raise ValueError("The truth value of an array with more than one element is ambiguous")
    def __iter__(self): raise Unsupported("iteration over a symbolic array")
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")
    def __lt__(self, o): return U["less"](self, o)
    def __le__(self, o): return U["less_equal"](self, o)
    def __gt__(self, o): return U["greater"](self, o)
    def __ge__(self, o): return U["greater_equal"](self, o)
    def __eq__(self, o): return U["equal"](self, o)
    def __ne__(self, o): return U["not_equal"](self, o)
    def __add__(self, o): return U["add"](self, o)
    def __radd__(self, o): return U["add"](o, self)
    def __sub__(self, o): return U["subtract"](self, o)
    def __rsub__(self, o): return U["subtract"](o, self)
    def __mul__(self, o): return U["multiply"](self, o)
    def __rmul__(self, o): return U["multiply"](o, self)
    def __truediv__(self, o): return U["true_divide"](self, o)
    def __rtruediv__(self, o): return U["true_divide"](o, self)
    def __floordiv__(self, o): return U["floor_divide"](self, o)
    def __mod__(self, o): return U["remainder"](self, o)
    def __pow__(self, o): return U["power"](self, o)
    def __neg__(self): return U["negative"](self)
    def __invert__(self): return U["logical_not"](self)
    def __and__(self, o): return U["logical_and"](self, o)
    def __or__(self, o): return U["logical_or"](self, o)
    def __iadd__(self, o): U["add"](self, o, self); return self
    def __isub__(self, o): U["subtract"](self, o, self); return self
    def __imul__(self, o): U["multiply"](self, o, self); return self
    def __itruediv__(self, o): U["true_divide"](self, o, self); return self

def truth(v):
    return asbool(rt.tobool(v)) if not isinstance(v, SFloat) else Or(Not(v.fin()), v.r != 0)

def samebase(a, b):
    if a.base is not b.base:
        x, y = zint(a.base.length), zint(b.base.length)
        if not a.guard and not b.guard and ctx().feasible(z3.Or(x == y, x == 1, y == 1)) == z3.unsat:
            raise ValueError("operands could not be broadcast together")
        raise Unsupported("arrays of different index sets")
    if len(a.guard) != len(b.guard) or any(not x.eq(y) for x, y in zip(a.guard, b.guard)):
        # different selections have the same length for every data only if they select the same entries
        if ctx().feasible(z3.Not(zb(Iff(zb(And(*a.guard)), zb(And(*b.guard)))))) != z3.unsat:
            raise ValueError("operands could not be broadcast together")

I32 = (-2**31, 2**31 - 1)
def cast(v, kind, t, bits=64):
    """C cast: unspecified value outside of the range of the target"""
    if t.kind == "f":
        return tofloat(v)
    if t.kind == "b":
        return mkbool(truth(v))
    if t.kind in "iu":
        lo, hi = (-2**(t.bits - 1), 2**(t.bits - 1) - 1) if t.kind == "i" else (0, 2**t.bits - 1)
        if kind == "f":
            v = tofloat(v)
            k = ftrunc(v.r)
            ok = And(v.fin(), k >= lo, k <= hi)
        else:
            k = zint(v)
            if kind == "b" or (kind == t.kind and bits <= t.bits) or (kind == "u" and bits < t.bits):
                return mkint(k)
            return wrap(mkint(k), t.kind, t.bits)
        return mkint(z3.If(zb(ok), k, fresh_int("cast").z))
    raise Unsupported("cast to {0}".format(t))

def sv(x):
    return x.v if isinstance(x, EArr) else plain(x)

def any_masked(xs):
    m = False
    for x in xs:
        if isinstance(x, EArr) and x.mask is not None:
            m = Or(m, x.mask)
    return m

def apply(name, fn, xs, out=None):
    arrs = [x for x in xs if isinstance(x, EArr)]
    others = [x for x in xs if isinstance(x, ndarray) and not isinstance(x, EArr)]
    if others and not isinstance(others[0], real.ndarray):
        h = getattr(others[0], "vc_ufunc", None)
        if h is not None:
            return h(name, fn, xs, out)
        raise Unsupported("{0} of {1}".format(name, type(others[0]).__name__))
    for x in xs:
        h = getattr(x, "vc_ufunc", None)
        if h is not None:
            return h(name, fn, xs, out)
    if not arrs:
        if any(isinstance(x, Sym) for x in xs):
            return fn(*[plain(x) for x in xs])
        r = getattr(real, name)
        return r(*xs) if out is None else r(*(tuple(xs) + (out,)))
    for a in arrs[1:]:
        samebase(arrs[0], a)
    v = fn(*[sv(x) for x in xs])
    if out is not None:
        if not isinstance(out, EArr):
            raise Unsupported("out= argument")
        samebase(arrs[0], out)
        # numpy.ma: the data is computed everywhere, masks of the inputs spread to a masked output
        if out.kind == "i" and tokind(v) == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int")
        if tokind(v) == "i" and out.kind in "iu":
            k, bits = int_dtype(arrs, [x for x in xs if not isinstance(x, EArr)])
            v = wrap(v, k, bits)
            if (k, bits) != (out.kind, out.bits):
                v = wrap(v, out.kind, out.bits)
        out.set(v)
        if out.ma:
            m = any_masked(xs)
            if m is not False:
                out.mask = m
        return out
    ma = any(x.ma for x in arrs)
    m = any_masked(xs) if ma else None
    k = tokind(v)
    bits = 64
    if k == "b":
        bits = 8
    if k == "i":
        k, bits = int_dtype([a for a in arrs if not (name == "where" and a is xs[0])], [x for x in xs if not isinstance(x, EArr)])
        if k == "f":
            v = tofloat(v)
        else:
            v = wrap(v, k, bits)
    return EArr(v, arrs[0].base, k, bits, m if ma and m is not False else (None if not ma else m if m is not False else None), arrs[0].guard, ma)

def irange(kind, bits):
    return (-2**(bits - 1), 2**(bits - 1) - 1) if kind == "i" else (0, 2**bits - 1)

def int_dtype(arrs, scalars):
    """numpy (< 2) type of an integer operation: arrays promote, scalars by value"""
    ks = [(a.kind, a.bits) for a in arrs if a.kind in "iu"]
    if not ks:
        return ("i", 64)
    kind, bits = ks[0]
    for k, b in ks[1:]:
        kind, bits = promote(kind, bits, k, b)
    for s in scalars:
        if kind == "f" or isinstance(s, (bool, SBool)):
            continue
        z = zint(s)
        c = ctx()
        if kind == "i":
            for b in (8, 16, 32, 64):
                if b >= bits and c.branch(z3.And(z >= -2**(b - 1), z < 2**(b - 1))):
                    bits = b
                    break
            else:
                raise Unsupported("integer scalar beyond int64")
        elif c.branch(z >= 0):
            for b in (8, 16, 32, 64):
                if b >= bits and c.branch(z < 2**b):
                    bits = b
                    break
            else:
                raise Unsupported("integer scalar beyond uint64")
        else:
            if bits == 64:
                kind, bits = "f", 64
                continue
            for b in (16, 32, 64):
                if b > bits and c.branch(z >= -2**(b - 1)):
                    kind, bits = "i", b
                    break
            else:
                raise Unsupported("integer scalar beyond int64")
    return kind, bits

def promote(k, b, k2, b2):
    if k == k2:
        return k, max(b, b2)
    if "f" in (k, k2):
        return "f", 64
    ub, ib = (b, b2) if k == "u" else (b2, b)
    if ib > ub:
        return "i", ib
    return ("i", 2*ub) if ub < 64 else ("f", 64)

def wrap(v, kind, bits):
    lo, hi = irange(kind, bits)
    z = zint(v)
    if z3.is_int_value(z) and lo <= z.as_long() <= hi:
        return v
    if ctx().feasible(z3.Or(z < lo, z > hi)) == z3.unsat:
        return v
    w = z % (2**bits)
    if kind == "i":
        w = z3.If(w > hi, w - 2**bits, w)
    return mkint(w)

def f2(op):
    return lambda a, b: arr_arith(a, b, op)
def arr_arith(a, b, op):
    if isint(a) and isint(b) and op in ("add", "sub", "mul"):
        x, y = zint(a), zint(b)
        return mkint({"add": x + y, "sub": x - y, "mul": imulz(x, y) if op == "mul" else None}[op])
    a, b = tofloat(a), tofloat(b)
    if a is None or b is None:
        raise Unsupported(op)
    if op == "add": return fadd(a, b)
    if op == "sub": return fadd(a, fneg(b))
    if op == "mul": return fmul(a, b)
    if op == "div": return fdiv_np(a, b)
    raise Unsupported(op)
def fcmp(op, swap=False):
    def f(a, b):
        if swap:
            a, b = b, a
        r = cmpop(a, b, op)
        if r is NotImplemented:
            raise Unsupported("comparison")
        return r
    return f
def fmax(a, b):
    if isint(a) and isint(b):
        return mkint(z3.If(zint(a) >= zint(b), zint(a), zint(b)))
    a, b = tofloat(a), tofloat(b)
    big = Or(lt(b, a), eqv(a, b))
    r = ite(zb(big), a, b)
    return SFloat(r.r, Or(a.nan, b.nan), And(Not(Or(a.nan, b.nan)), r.pinf), And(Not(Or(a.nan, b.nan)), r.ninf))
def fmin(a, b):
    if isint(a) and isint(b):
        return mkint(z3.If(zint(a) <= zint(b), zint(a), zint(b)))
    a, b = tofloat(a), tofloat(b)
    r = ite(zb(Or(lt(a, b), eqv(a, b))), a, b)
    return SFloat(r.r, Or(a.nan, b.nan), And(Not(Or(a.nan, b.nan)), r.pinf), And(Not(Or(a.nan, b.nan)), r.ninf))
def fabs(a):
    return abs(a)
def f1(g):
    return lambda a: g(tofloat(a))
UNINT = {}
def unint(name, n=1):
    """a function about which nothing is assumed but that it is one"""
    def f(*xs):
        key = (name, len(xs))
        if key not in UNINT:
            UNINT[key] = z3.Function("np_" + name, *([z3.RealSort()] * len(xs) + [z3.RealSort()]))
        xs = [tofloat(x) for x in xs]
        nan = Or(*[Not(x.fin()) for x in xs])
        return SFloat(UNINT[key](*[x.r for x in xs]), nan=nan if nan is not False else False)
    return f
def fsqrt(a):
    a = tofloat(a)
    arg = z3.simplify(nf(a.r))
    memo = ctx().__dict__.setdefault("sqrts", [])
    for t, s in memo:
        if t.eq(arg):
            return SFloat(s, Or(a.nan, a.ninf, And(a.fin(), a.r < 0)), a.pinf, False)
    r = z3.Real(ctx().name("sqrt"))
    memo.append((arg, r))
    if ctx().lazy is not None:
        ctx().lazy.append(z3.Implies(a.r >= 0, r * r == a.r))
        ctx().assume(r >= 0)
    else:
        ctx().assume(z3.Implies(a.r >= 0, z3.And(r >= 0, r * r == a.r)))
    return SFloat(r, Or(a.nan, a.ninf, And(a.fin(), a.r < 0)), a.pinf, False)

U = {}
class UFunc(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.__name__ = name
    def __call__(self, *xs, **kw):
        n = self.fn.__code__.co_argcount
        out = kw.pop("out", None)
        if kw:
            raise Unsupported("keyword of numpy." + self.name)
        xs = [rt.res(x) for x in xs]
        if len(xs) == n + 1:
            out, xs = xs[-1], xs[:-1]
        return apply(self.name, self.fn, xs, out)
    def __repr__(self): return "<ufunc {0}>".format(self.name)
    def at(self, a, indices, b=None):
        h = getattr(a, "vc_addat", None)
        if self.name == "add" and h is not None:
            return h(indices, b)
        if isinstance(a, real.ndarray):
            return getattr(real, self.name).at(a, indices, b)
        raise Unsupported("ufunc.at")
    @property
    def reduce(self):
        raise Unsupported("ufunc.reduce")

def deff(name, fn):
    U[name] = UFunc(name, fn)
deff("add", lambda a, b: arr_arith(a, b, "add"))
deff("subtract", lambda a, b: arr_arith(a, b, "sub"))
deff("multiply", lambda a, b: arr_arith(a, b, "mul"))
deff("true_divide", lambda a, b: arr_arith(a, b, "div"))
U["divide"] = U["true_divide"]
def _floordiv(a, b):
    a, b = tofloat(a), tofloat(b)
    r = tofloat(ffloor(fdiv_np(a, b)))
    binf, ainf = Or(b.pinf, b.ninf), Or(a.pinf, a.ninf)
    if binf is False and ainf is False:
        return r
    # the remainder of an infinity is NaN; a finite number below zero in units of an infinity is -1
    minus = And(a.fin(), Or(And(b.pinf, a.r < 0), And(b.ninf, a.r > 0)))
    undefined = And(ainf, b.fin(), b.r != 0)
    return SFloat(z3.If(zb(minus), z3.RealVal(-1), r.r), Or(r.nan, undefined), And(Not(undefined), r.pinf), And(Not(undefined), r.ninf))
deff("floor_divide", lambda a, b: _floordiv(a, b))
deff("less", lambda a, b: fcmp("lt")(a, b))
deff("less_equal", lambda a, b: fcmp("le")(a, b))
deff("greater", lambda a, b: fcmp("lt", True)(a, b))
deff("greater_equal", lambda a, b: fcmp("le", True)(a, b))
deff("equal", lambda a, b: fcmp("eq")(a, b))
deff("not_equal", lambda a, b: mkbool(Not(asbool(fcmp("eq")(a, b)))))
deff("logical_and", lambda a, b: mkbool(And(truth(a), truth(b))))
deff("logical_or", lambda a, b: mkbool(Or(truth(a), truth(b))))
deff("logical_not", lambda a: mkbool(Not(truth(a))))
def _bitnot(a):
    if isinstance(a, (bool, SBool)):
        return mkbool(Not(truth(a)))
    raise Unsupported("bitwise_not of numbers")
deff("bitwise_not", lambda a: _bitnot(a))
U["invert"] = U["bitwise_not"]
deff("maximum", lambda a, b: fmax(a, b))
deff("minimum", lambda a, b: fmin(a, b))
deff("absolute", lambda a: fabs(a))
deff("negative", lambda a: arr_arith(0, a, "sub"))
deff("square", lambda a: arr_arith(a, a, "mul"))
deff("floor", lambda a: ffloor(tofloat(a)))
deff("ceil", lambda a: fceil(tofloat(a)))
deff("trunc", lambda a: SFloat(z3.ToReal(ftrunc(tofloat(a).r)), tofloat(a).nan, tofloat(a).pinf, tofloat(a).ninf))
deff("rint", lambda a: SFloat(z3.ToReal(roundz(tofloat(a).r)), tofloat(a).nan, tofloat(a).pinf, tofloat(a).ninf))
deff("isnan", lambda a: mkbool(tofloat(a).nan))
deff("isinf", lambda a: mkbool(Or(tofloat(a).pinf, tofloat(a).ninf)))
deff("isfinite", lambda a: mkbool(tofloat(a).fin()))
deff("sqrt", lambda a: fsqrt(a))
def _sign(a):
    r = tofloat(ite(mkbool(asbool(cmpop(a, 0, "lt"))), -1.0, ite(cmpop(0, a, "lt"), 1.0, 0.0)))
    return SFloat(r.r, tofloat(a).nan, False, False)
deff("sign", lambda a: _sign(a))
for _n in ("arccos arccosh arcsin arcsinh arctan arctanh cos cosh deg2rad exp2 exp expm1 log10 log1p log2 log rad2deg sinh sin tanh tan conjugate").split():
    deff(_n, (lambda g: (lambda a: g(a)))(unint(_n)))
def bitlogic(name, g):
    u = unint(name)
    return lambda a, b: mkbool(g(truth(a), truth(b))) if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) else u(a, b)
deff("bitwise_and", (lambda g: (lambda a, b: g(a, b)))(bitlogic("bitwise_and", And)))
deff("bitwise_or", (lambda g: (lambda a, b: g(a, b)))(bitlogic("bitwise_or", Or)))
for _n in ("arctan2 copysign fmod hypot logaddexp2 logaddexp power remainder bitwise_xor heaviside").split():
    deff(_n, (lambda g: (lambda a, b: g(a, b)))(unint(_n)))
U["round"] = None

class errstate(object):
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

def hasym(*xs):
    for x in xs:
        if isinstance(x, (Sym, SymIter, DType)) or (isinstance(x, ndarray) and not isinstance(x, real.ndarray)):
            return True
        if isinstance(x, (list, tuple)) and hasym(*x):
            return True
    return False

class MA(object):
    masked = masked
    nomask = nomask
    @staticmethod
    def array(x, dtype=None, copy=True, mask=None):
        x = rt.res(x)
        if isinstance(x, EArr):
            t = asdtype(dtype)
            if t is None:
                out = x.copy()
            else:
                out = x.astype(t)
            out.ma = True
            return out
        h = getattr(x, "vc_ma_array", None)
        if h is not None:
            return h(dtype)
        return real.ma.array(x, dtype=dtype)
    @staticmethod
    def getmask(x):
        if isinstance(x, EArr):
            if not x.ma:
                return nomask
            if x.mask is None or x.mask is False:
                # either no mask at all or an all-False mask: both happen
                k = getattr(ctx(), "nomask", None)          # a contract may choose once per path
                return nomask if (ctx().choose(2, "nomask") if k is None else k) == 0 else EArr(mkbool(False), x.base, "b", 8, None, x.guard)
            return EArr(mkbool(x.mask), x.base, "b", 8, None, x.guard)
        return real.ma.getmask(x)
    @staticmethod
    def getmaskarray(x):
        if isinstance(x, EArr):
            return EArr(mkbool(x.mask if x.mask is not None and x.ma else False), x.base, "b", 8, None, x.guard)
        return real.ma.getmaskarray(x)
    @staticmethod
    def zeros(n, dtype=None):
        h = getattr(n, "vc_base", None)
        if isinstance(n, SLen):
            t = asdtype(dtype) or DType("f", 64)
            return EArr(0 if t.kind == "i" else tofloat(0.0), n.base, t.kind, t.bits, None, n.guard, True)
        if isinstance(n, SNum):
            raise Unsupported("zeros")
        return real.ma.zeros(n, dtype=dtype)
    MaskedArray = real.ma.MaskedArray

class Uniques(SymSeq):
    """sorted distinct values of an array (no NaN among them)"""
    def __init__(self, arr):
        n = fresh_int("nuniques", 0)
        ctx().assume(n.z <= zint(arr.base.length))
        name = ctx().name("uniques")
        p = self.p = z3.Function(name + ".pinf", z3.IntSort(), z3.BoolSort())
        m = self.m = z3.Function(name + ".ninf", z3.IntSort(), z3.BoolSort())
        v = tofloat(arr.v)
        self.fin = v.fin() is True or ctx().feasible(z3.And(zb(And(*arr.guard)), z3.Not(zb(v.fin())))) == z3.unsat and arr.base.uniform
        at = (lambda i: SFloat(f.f(i))) if self.fin else (lambda i: SFloat(f.f(i), False, p(i), m(i)))
        self.raw = at
        f = self.f = IdxFn(name, binary=[lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n.z), zb(lt(at(i), at(j))))],
                           unary=[lambda i: z3.Not(z3.And(p(i), m(i)))])
        self.inv = None
        self.arr = arr
        SymSeq.__init__(self, n, self.el, list)
    def el(self, k):
        k = zint(k)
        if self.inv is not None and z3.simplify(k).eq(self.inv) and ctx().feasible(z3.Not(zb(And(*self.arr.guard)))) == z3.unsat:
            return tofloat(self.arr.v)        # uniques[inverse] == values
        self.f(k)
        return self.raw(z3.simplify(k))
    def as_cls(self, cls):
        return self

class _Facade(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in U and U[n] is not None:
            return U[n]
        r = getattr(real, n)
        if isinstance(r, type) or not callable(r):
            return r
        def guarded(*a, **k):
            for h in HOOKS.get(n, ()):
                out = h(*a, **k)
                if out is not NotImplemented:
                    return out
            a = tuple(rt.res(x) for x in a)
            if hasym(*a) or hasym(*k.values()):
                out = asmethod(n, a, k)
                if out is not NotImplemented:
                    return out
                raise Unsupported("numpy.{0} of symbolic arguments".format(n))
            return r(*a, **k)
        guarded.__name__ = n
        return guarded

def asmethod(n, a, k):
    """numpy.f(x, ...) is x.f(...) for the functions that are methods of arrays too; copies and conversions"""
    if len(a) == 0 or not isinstance(a[0], ndarray) or isinstance(a[0], real.ndarray):
        return NotImplemented
    if n in ("array", "copy") and len(a) == 1 and not [x for x in k if x != "copy"] and k.get("copy", True) is True and hasattr(a[0], "copy"):
        return a[0].copy()
    if n in ("asarray", "asanyarray", "ascontiguousarray") and len(a) == 1 and not k:
        return a[0]
    if n in ("any", "all", "sum", "reshape", "ravel", "compress") and hasattr(type(a[0]), n):
        return getattr(a[0], n)(*a[1:], **k)
    if n in ("zeros_like", "ones_like") and len(a) == 1 and not k and isinstance(a[0], EArr):
        return a[0].like(cast(int(n == "ones_like"), "i", a[0].dtype))
    return NotImplemented

F = _Facade("numpy")
F.ndarray = ndarray
F.ma = MA
F.errstate = errstate
F.bool = bool
HOOKS = {}      # name -> [functions tried first with symbolic arguments]

def define(name):
    def deco(f):
        def g(*a, **k):
            a = tuple(rt.res(x) for x in a)
            for h in HOOKS.get(name, ()):
                out = h(*a, **k)
                if out is not NotImplemented:
                    return out
            if not hasym(*a) and not hasym(*k.values()):
                return getattr(real, name)(*a, **k)
            out = asmethod(name, a, k)
            return f(*a, **k) if out is NotImplemented else out
        g.__name__ = name
        setattr(F, name, g)
        return f
    return deco

@define("clip")
def clip(x, lo, hi):
    return apply("clip", lambda v, l, h: fmin(fmax(v, l), h), [x, lo, hi])
@define("where")
def where(c, a, b):
    return apply("where", lambda c, a, b: ite(zb(truth(c)), a, b), [c, a, b])
@define("result_type")
def result_type(*ts):
    ts = [asdtype(t.dtype if isinstance(t, EArr) else t) for t in ts]
    k, b = ts[0].kind, ts[0].bits
    for t in ts[1:]:
        if "b" in (k, t.kind):
            k, b = (t.kind, t.bits) if k == "b" else (k, b)
        else:
            k, b = promote(k, b, t.kind, t.bits)
    return DType(k, b)
@define("array_equal")
def array_equal(a, b):
    raise Unsupported("array_equal")
@define("round")
def nround(a, *n):
    return apply("rint", lambda a: SFloat(z3.ToReal(roundz(tofloat(a).r)), tofloat(a).nan, tofloat(a).pinf, tofloat(a).ninf), [a])
@define("digitize")
def digitize(values, edges):
    """number of edges <= value; NaN is beyond all of them"""
    if not isinstance(values, EArr) or not isinstance(edges, (SymSeq, tuple, list)):
        raise Unsupported("digitize")
    n = zint(rt_len(edges))
    v = tofloat(values.v)
    k = fresh_int("digit", 0)
    ctx().assume(k.z <= n)
    at = (lambda i: tofloat(edges.at(SInt(i))).r) if isinstance(edges, SymSeq) else (lambda i: pickr(edges, i))
    fin = v.fin()
    ctx().assume(z3.Implies(zb(Or(v.nan, v.pinf)), k.z == n))
    ctx().assume(z3.Implies(zb(v.ninf), k.z == 0))
    ctx().assume(z3.Implies(z3.And(zb(fin), k.z > 0), zb(rle(at(k.z - 1), v.r))))
    ctx().assume(z3.Implies(z3.And(zb(fin), k.z < n), zb(rlt(v.r, at(k.z)))))
    return EArr(k, values.base, "i", 64, None, values.guard)
def pickr(xs, i):
    out = tofloat(xs[-1]).r
    for k in range(len(xs) - 1):
        out = z3.If(i == k, tofloat(xs[k]).r, out)
    return out
@define("isin")
def isin(values, container):
    if not isinstance(values, EArr):
        raise Unsupported("isin")
    v = tofloat(values.v)
    if isinstance(container, SymSeq):
        n = zint(rt_len(container))
        b, j = fresh_bool("isin"), fresh_int("isinat")
        el = lambda i: tofloat(container.at(SInt(i))).r
        ctx().assume(z3.Implies(b.z, z3.And(zb(v.fin()), 0 <= j.z, j.z < n, zb(req(el(j.z), v.r)))))
        idx = getattr(container, "idx", None)
        if idx is None:
            raise Unsupported("isin of this symbolic sequence")
        off = zint(getattr(container, "idxoff", 0))
        idx.add_unary(lambda q: z3.Implies(z3.And(z3.Not(b.z), zb(v.fin()), off <= q, q < off + n), z3.Not(zb(req(el(z3.simplify(q - off)), v.r)))))
        return EArr(b, values.base, "b", 8, None, values.guard)
    cs = [x for x in container]
    return EArr(mkbool(Or(*[eqv(v, tofloat(x)) for x in cs if tofloat(x) is not None])), values.base, "b", 8, None, values.guard)
F.in1d = F.isin
@define("unique")
def unique(values, return_inverse=False):
    """sorted distinct values, and for every entry the position of its value among them"""
    if not isinstance(values, EArr) or not return_inverse:
        raise Unsupported("unique")
    h = getattr(values, "unique_hook", None)
    if h is not None:
        return h(values)
    v = tofloat(values.v)
    g = zb(And(*values.guard))
    if v.nan is not False and ctx().feasible(z3.And(g, zb(v.nan))) != z3.unsat:
        raise Unsupported("unique of values that may be NaN")
    u = Uniques(values)
    k = fresh_int("inverse")
    ctx().assume(z3.Implies(g, z3.And(0 <= k.z, k.z < u.length.z, zb(eqv(u.el(k), v)))))
    u.inv = k.z
    return u, EArr(k, values.base, "i", 64, None, values.guard)
@define("ones")
def ones(n, dtype=None):
    return filled(n, 1, dtype)
def filled(n, v, dtype):
    if isinstance(n, tuple) and len(n) == 1:
        n = n[0]
    if not isinstance(n, SLen):
        raise Unsupported("array of symbolic shape")
    if dtype is None:
        t = DType("f", 64) if v in (0, 1) else None
    else:
        t = asdtype(dtype)
    if t is not None:
        v = cast(v, tokind(v), t)
        return EArr(v, n.base, t.kind, t.bits, None, n.guard)
    return EArr(v, n.base, None, 64, None, n.guard)
@define("zeros")
def zeros(n, dtype=None):
    return filled(n, 0, dtype)
@define("full")
def full(n, v, dtype=None):
    if isinstance(v, EArr):
        raise Unsupported("full")
    return filled(n, plain(v), dtype or (None if plain(v) not in (0, 1) else {"i": real.int64, "f": real.float64, "b": real.bool_}[tokind(plain(v))]))
@define("count_nonzero")
def count_nonzero(x):
    n = fresh_int("count", 0)
    if isinstance(x, EArr) and x.kind == "b":
        ctx().assume(n.z <= zint(x.base.length))
        return SLen(n.z, x.base, x.guard + (zb(asbool(x.v)),))
    return n
@define("array")
def array(x, *a, **k):
    out = asmethod("array", (x,) + a, k)
    if out is not NotImplemented:
        return out
    raise Unsupported("numpy.array of symbolic values")
F.F = F
