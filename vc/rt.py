"""Run-time support of the instrumented code: symbolic iteration, dicts and calls."""
import builtins, functools, sys, types, numbers, string
import z3
import core
from core import Ctx, Unsupported, PathEnd, ctx
from sym import *
import sym

class SymIter(object):
    """base of everything the loop and comprehension rules apply to"""
    def __iter__(self):
        raise Unsupported("iteration over a symbolic {0} reached C code".format(type(self).__name__))
    def loop(self, L):
        raise Unsupported("no loop rule for a symbolic {0} at {1}".format(type(self).__name__, L.key))
    def comp(self, kind, f):
        raise Unsupported("no comprehension rule for a symbolic {0}".format(type(self).__name__))

def unopt(x):
    return getattr(x, "_vc_target__", x)

# ---------------------------------------------------------------- sequences

def smin(a, b):
    return ite(mkbool(zint(a) <= zint(b)), a, b)

class SymSeq(SymIter):
    """an arbitrary-length sequence given by length and element function"""
    def __init__(self, length, get, cls=list):
        self.length, self.get_, self.cls = length, get, cls
    def at(self, i):
        return self.get_(i)
    def __len__(self):
        raise Unsupported("len() of a symbolic sequence reached C code")
    def vc_len(self):
        return self.length
    def norm(self, i):
        n = self.length
        if SPEC[0] and isinstance(i, SInt):
            return i
        if isinstance(i, int) and i < 0:
            i = n + i
        elif isinstance(i, SInt) and ctx().branch(i.z < 0):
            i = n + i
        if not ctx().branch(zb(And(zint(i) >= 0, zint(i) < zint(n)))):
            raise IndexError("index out of range")
        return i
    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        return self.at(self.norm(i))
    def slice(self, s):
        n = self.length
        def bound(x, default):
            if x is None:
                return default
            if isinstance(x, int):
                if x < 0:
                    y = n + x
                    return ite(mkbool(zint(y) < 0), 0, y)
                return smin(x, n)
            if ctx().branch(x.z < 0):
                y = n + x
                return ite(mkbool(zint(y) < 0), 0, y)
            return smin(x, n)
        step = s.step
        lo, hi = bound(s.start, 0), bound(s.stop, n)
        if step is None or step == 1:
            m = hi - lo
            m = ite(mkbool(zint(m) < 0), 0, m)
            out = SymSeq(m, lambda i: self.at(lo + i), self.cls)
            if getattr(self, "idx", None) is not None:
                out.idx, out.idxoff = self.idx, getattr(self, "idxoff", 0) + lo
            if getattr(self, "increasing", False):
                out.increasing = self.increasing
            return out
        m = hi - lo
        m = ite(mkbool(zint(m) <= 0), 0, (m + step - 1) // step)
        return SymSeq(m, lambda i: self.at(lo + i*step), self.cls)
    def __add__(self, o):
        return concat(self, o)
    def __radd__(self, o):
        return concat(o, self)
    def comp(self, kind, f):
        def get(i):
            out = list(f((self.at(i),)))
            if len(out) != 1:
                raise Unsupported("filtering comprehension over a symbolic sequence")
            return out[0]
        if kind not in ("list", "gen"):
            raise Unsupported("set comprehension over a symbolic sequence")
        out = SymSeq(self.length, get, list)
        if getattr(self, "increasing", False):      # [float(x) for x in xs] is still in order
            i = fresh_int("elem", 0)
            x = self.at(i)
            if isinstance(x, SFloat):
                y = list(f((x,)))
                if len(y) == 1 and (y[0] is x or isinstance(y[0], SFloat) and y[0].fin() is True and x.fin() is True and z3.simplify(y[0].r).eq(z3.simplify(x.r))):
                    out.idx, out.idxoff, out.increasing = getattr(self, "idx", None), getattr(self, "idxoff", 0), self.increasing
        out.parents = (self,) + builtins.tuple(getattr(self, "parents", ()))
        return out
    def as_cls(self, cls):
        out = SymSeq(self.length, self.get_, cls)
        out.__dict__.update(dict((k, v) for k, v in self.__dict__.items() if k not in ("cls",)))
        out.cls = cls
        return out
    def vc_all(self, neg=False):
        """all(): decided at a generic element; one witness when it fails"""
        c = ctx()
        i = fresh_int("elem", 0)
        c.assume(i.z < zint(self.length))
        v = tobool(self.at(i))
        if isinstance(v, builtins.bool) and v:
            return True
        b = fresh_bool("all")
        # only one direction is assumed at the generic element; the failing direction has a witness
        w = fresh_int("witness", 0)
        c.assume(z3.Implies(z3.Not(b.z), z3.And(w.z < zint(self.length), z3.Not(zb(asbool(tobool(self.at(w))))))))
        q = z3.Int(c.name("q"))
        body = zb(asbool(tobool(self.at(SInt(q)))))
        c.assume(z3.Implies(b.z, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(self.length)), body))))
        return b
    def vc_sorted(self, **k):
        """sorted(): a non-decreasing permutation"""
        if k:
            raise Unsupported("sorted with a key")
        c = ctx()
        if getattr(self, "increasing", False):
            return self.as_cls(builtins.list)
        probe = self.at(fresh_int("elem", 0))
        if isinstance(probe, builtins.tuple) and probe and isinstance(probe[0], SFloat):
            return Smallest(self)
        if not isinstance(probe, SFloat):
            raise Unsupported("sorted() of a symbolic sequence of {0}".format(type(probe).__name__))
        if probe.fin() is not True:
            raise Unsupported("sorted() of values that may not be finite")
        n = zint(self.length)
        el = lambda q: tofloat(self.at(SInt(q))).r
        inr = lambda q: z3.And(0 <= q, q < n)
        name = c.name("sorted")
        P = z3.Function(name + ".from", z3.IntSort(), z3.IntSort())
        Q = z3.Function(name + ".to", z3.IntSort(), z3.IntSort())
        S = IdxFn(name, binary=[lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), S.f(i) <= S.f(j))],
                  unary=[lambda i: z3.Implies(inr(i), z3.And(inr(P(i)), S.f(i) == el(P(i)), Q(P(i)) == i))])
        out = SymSeq(self.length, lambda q: SFloat(S(q)), builtins.list)
        out.sortedof, out.idx, out.perm = self, S, (P, Q)
        out.increasing = True
        return out
    def vc_toset(self):
        return SymSet(self)
    def vc_in(self, x):
        """some element equals x"""
        c = ctx()
        idx = getattr(self, "idx", None)
        if idx is None or not isinstance(x, SNum) and not isinstance(x, (int, float)):
            raise Unsupported("membership in a symbolic sequence")
        n, off = zint(self.length), zint(getattr(self, "idxoff", 0))
        b, w = fresh_bool("in"), fresh_int("witness", 0)
        el = lambda q: zb(asbool(cmpop(self.at(SInt(q)), x, "eq")))
        c.assume(z3.Implies(b.z, z3.And(w.z < n, el(w.z))))
        idx.add_unary(lambda t: z3.Implies(z3.And(z3.Not(b.z), off <= t, t < off + n), z3.Not(el(z3.simplify(t - off)))))
        return b
    def loop(self, L):
        """a loop that keeps no state: seen at one element, which stands for all"""
        L.parametric(object())
        if ctx().branch(zint(self.length) > 0):
            i = getattr(self, "generic", None)
            if i is None:
                i = fresh_int("elem", 0)
                ctx().assume(i.z < zint(self.length))
            yield self.at(i)
    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("equality of symbolic sequences")
    def __hash__(self):
        raise Unsupported("hash of a symbolic sequence")
    def __repr__(self):
        return "<symbolic sequence>"

class MarkedSeq(SymSeq):
    """a sequence given by a formula; facts about all its elements are instantiated at the indices in use"""
    def __init__(self, length, get, cls=list):
        SymSeq.__init__(self, length, get, cls)
        self.idx, self.terms, self.unary = self, {}, []
    def at(self, i):
        t = z3.simplify(zint(i))
        if t.get_id() not in self.terms:
            self.terms[t.get_id()] = t
            for u in builtins.list(self.unary):
                ctx().assume(u(t))
        return self.get_(i)
    def add_unary(self, u):
        self.unary.append(u)
        for t in builtins.list(self.terms.values()):
            ctx().assume(u(t))
    def as_cls(self, cls):
        self.cls = cls
        return self

class Smallest(SymIter):
    """sorted(tuples), of which only the first is looked at: one whose first component is least"""
    def __init__(self, seq):
        self.seq, self.m = seq, None
    def vc_len(self): return self.seq.length
    def __getitem__(self, i):
        if i != 0:
            raise Unsupported("sorted tuples beyond the first")
        return self.first()
    def first(self):
        c = ctx()
        if self.m is None:
            idx = None
            for x in (self.seq,) + builtins.tuple(getattr(self.seq, "parents", ())):
                idx = idx or getattr(x, "idx", None)
            if idx is None:
                raise Unsupported("least of this symbolic sequence")
            if not c.branch(zint(self.seq.length) > 0):
                raise IndexError("list index out of range")
            self.m = fresh_int("least", 0)
            c.assume(self.m.z < zint(self.seq.length))
            d = tofloat(self.seq.at(self.m)[0])
            off = 0
            for x in (self.seq,) + builtins.tuple(getattr(self.seq, "parents", ())):
                if getattr(x, "idx", None) is not None:
                    off = zint(getattr(x, "idxoff", 0))
                    break
            n = zint(self.seq.length)
            busy = set()
            def least(q):
                if q.get_id() in busy:
                    return z3.BoolVal(True)
                busy.add(q.get_id())
                e = tofloat(self.seq.at(SInt(z3.simplify(q - off)))[0])
                return z3.Implies(z3.And(off <= q, q < off + n), z3.Not(zb(lt(e, d))))
            idx.add_unary(least)
        return self.seq.at(self.m)

class SymSet(SymIter):
    """set(sequence): as long as the sequence iff the elements are distinct"""
    def __init__(self, seq):
        self.seq = seq
        self.n = None
    def vc_len(self):
        c = ctx()
        if getattr(self.seq, "increasing", False) == "strictly":
            return self.seq.length
        if self.n is None:
            n = zint(self.seq.length)
            L = self.n = fresh_int("setlen", 0)
            c.assume(L.z <= n)
            i, j = fresh_int("dup", 0), fresh_int("dup", 0)
            el = lambda q: tofloat(self.seq.at(SInt(q)))
            c.assume(z3.Implies(L.z != n, z3.And(i.z < j.z, j.z < n, zb(eqv(el(i.z), el(j.z))))))
            idx = getattr(self.seq, "idx", None)
            if idx is None:
                raise Unsupported("set() of this symbolic sequence")
            off = zint(getattr(self.seq, "idxoff", 0))
            idx.add_binary(lambda a, b: z3.Implies(z3.And(L.z == n, off <= a, a < b, b < off + n), idx.f(a) != idx.f(b)))
        return self.n

def seqlen(x):
    return x.vc_len() if isinstance(x, SymIter) else builtins.len(x)

def concat(a, b):
    if isinstance(a, (builtins.list, builtins.tuple)) and builtins.len(a) == 0:
        return b
    if isinstance(b, (builtins.list, builtins.tuple)) and builtins.len(b) == 0:
        return a
    na, nb = seqlen(a), seqlen(b)
    def get(i):
        if ctx().branch(zb(asbool(i < na)) if not isinstance(i, int) or not isinstance(na, int) else i < na):
            return a.at(i) if isinstance(a, SymSeq) else pick(a, i)
        j = i - na
        return b.at(j) if isinstance(b, SymSeq) else pick(b, j)
    return SymSeq(na + nb, get, builtins.list if isinstance(a, builtins.list) or isinstance(b, builtins.list) else tuple)

def pick(xs, i):
    if isinstance(i, int):
        return xs[i]
    for k in builtins.range(builtins.len(xs) - 1):
        if ctx().branch(i.z == k):
            return xs[k]
    return xs[builtins.len(xs) - 1]

class FoldSeq(SymSeq):
    """a list of contents, one per group that is summed over.  A function that recurs on parts of the list is checked against the
    contract 'returns the sum of the contents in its argument' (given for strictly shorter, non-empty parts: induction)"""
    def __init__(self, node, get, lo, hi, cls=list, mapped=False, cache=None):
        SymSeq.__init__(self, mkint(z3.If(zint(hi) > zint(lo), zint(hi) - zint(lo), z3.IntVal(0))), None, cls)
        self.node, self.elem, self.lo, self.hi, self.mapped = node, get, lo, hi, mapped
        self.cache = {} if cache is None else cache
    def at(self, i):
        k = z3.simplify(zint(self.lo) + zint(i))
        if k.get_id() not in self.cache:
            self.cache[k.get_id()] = (k, self.elem(mkint(k)))
        return self.cache[k.get_id()][1]
    def slice(self, s):
        t = SymSeq(self.length, lambda i: i, list).slice(s)
        if s.step not in (None, 1):
            raise Unsupported("slice with a step")
        lo = self.lo + t.at(0)
        return FoldSeq(self.node, self.elem, lo, lo + t.length, self.cls, self.mapped, self.cache)
    def comp(self, kind, f):
        def get(i):
            out = list(f((self.elem(i),)))
            if len(out) != 1:
                raise Unsupported("filtering comprehension over a symbolic sequence")
            return out[0]
        if kind not in ("list", "gen"):
            raise Unsupported("set comprehension over a symbolic sequence")
        return FoldSeq(self.node, get, self.lo, self.hi, list, True)
    def as_cls(self, cls):
        return FoldSeq(self.node, self.elem, self.lo, self.hi, cls, self.mapped, self.cache)
    def call(self, qual, f, args, kwargs):
        return self.node.fold(self, qual, f, args, kwargs)
    def looprule(self, L):
        return self.node.looprule(self, L)
    def vc_sum(self, *a):
        raise Unsupported("sum() of contents")

class SymRange(SymSeq):
    def __init__(self, start, stop, step=1):
        if step == 1:
            n = stop - start
            n = ite(mkbool(zint(n) < 0), 0, n)
        else:
            if not ctx().branch(zb(asbool(step > 0))):
                raise Unsupported("range with a non-positive step")
            n = ite(mkbool(zint(stop - start) <= 0), 0, (stop - start + step - 1) // step)
        SymSeq.__init__(self, n, lambda i: start + i*step, builtins.list)

# ---------------------------------------------------------------- keys and dicts

class Key(object):
    """the generic key of a dict: stands for every key"""
    def __init__(self, name, num=None, nan=None):
        self.name, self.num, self.nan = name, num, nan
    def __repr__(self):
        return "<key {0}>".format(self.name)
    def __hash__(self):
        return builtins.id(self)
    def __eq__(self, o):
        if o is self:
            return True
        h = getattr(self, "eq", None)
        if h is not None:
            r = h(o)
            if r is not NotImplemented:
                return r
        if type(o) in (builtins.str, builtins.int, builtins.float, builtins.bool) and self.num is None:
            # the generic key may be this very constant, or not
            k = "{0}=={1!r}".format(self.name, o)
            return SBool(z3.Bool(k))
        raise Unsupported("comparison of a generic key with {0!r}".format(type(o)))
    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(Not(asbool(r)))
    def _ord(self, o, op):
        h = getattr(self, "order", None)
        if h is not None:
            return h(o, op)
        raise Unsupported("ordering of a generic key")
    def __lt__(self, o): return self._ord(o, "<")
    def __le__(self, o): return self._ord(o, "<=")
    def __gt__(self, o): return self._ord(o, ">")
    def __ge__(self, o): return self._ord(o, ">=")
    def _num(self):
        if self.num is None:
            raise Unsupported("arithmetic on a generic key")
        return self.num
    def __sub__(self, o): return self._num() - o
    def __add__(self, o): return self._num() + o
    def __mul__(self, o): return self._num() * o
    def __radd__(self, o): return o + self._num()

class DictLen(SInt):
    """length of a dict seen at a generic key: two of them are comparable only as the sizes of sets of keys"""
    def __init__(self, z, d):
        self.z, self.d = z, d
    def compare(self, o, f):
        if isinstance(o, (DictLen, OpenLen)) and o.d is not self.d:
            if not GENERIC[0] or isinstance(o, DictLen) and self.d.key is not o.d.key:
                raise Unsupported("comparison of lengths of symbolic dicts")
            return f(Iff(self.d.hasz, builtins.int(o) == 1 if isinstance(o, OpenLen) else o.d.hasz))
        return None
    def __eq__(self, o):
        r = self.compare(o, mkbool)
        return SInt.__eq__(self, o) if r is None else r
    def __ne__(self, o):
        r = self.compare(o, lambda x: mkbool(Not(x)))
        return SInt.__ne__(self, o) if r is None else r
    __hash__ = SInt.__hash__

class OpenLen(int):
    """length of a dict that the code fills from {}, where that has at most the generic key"""
    def __new__(cls, n, d):
        out = int.__new__(cls, n)
        out.d = d
        return out
class OpenDict(dict):
    """{} of the code, where contracts judge sizes of dicts at the generic key"""
    def vc_len(self):
        n = builtins.len(self)
        return OpenLen(n, self) if n == 0 or n == 1 and isinstance(next(iter(self)), Key) else n

class SymDict(dict, SymIter):
    """a dict seen at its generic key"""
    def __init__(self, key, has, val, cls=dict):
        dict.__init__(self)
        self.key, self.hasz, self.val_ = key, has, val
        self.n_ = None
    def __bool__(self):
        return bool(self.vc_len() != 0)
    def get_val(self):
        v = self.val_
        if isinstance(v, Lazy):
            v = self.val_ = v.force()
        if isinstance(v, Tree) and v.resolved is not None:
            return v.resolved
        return v
    def check(self, k):
        if k is not self.key:
            raise Unsupported("symbolic dict accessed at another key {0!r}".format(k))
    def __contains__(self, k):
        raise Unsupported("in on a symbolic dict reached C code")
    def vc_in(self, k):
        self.check(k)
        return mkbool(self.hasz)
    def __getitem__(self, k):
        self.check(k)
        if not ctx().branch(self.hasz):
            raise KeyError(k)
        return self.get_val()
    def __setitem__(self, k, v):
        self.check(k)
        if self.hasz is not True:
            self.n_ = None
        self.hasz, self.val_ = True, v
    def __delitem__(self, k):
        self.check(k)
        if not ctx().branch(self.hasz):
            raise KeyError(k)
        self.hasz, self.val_, self.n_ = False, None, None
    def get(self, k, default=None):
        self.check(k)
        return self.get_val() if ctx().branch(self.hasz) else default
    def pop(self, k, *default):
        self.check(k)
        if ctx().branch(self.hasz):
            out = self.get_val()
            self.hasz, self.val_, self.n_ = False, None, None
            return out
        if default:
            return default[0]
        raise KeyError(k)
    def setdefault(self, k, default=None):
        if not ctx().branch(self.hasz):
            self[k] = default
        return self[k]
    def vc_len(self):
        if self.n_ is None:
            self.n_ = fresh_int("len", 0).z
        ctx().assume(z3.Implies(zb(self.hasz), self.n_ > 0))
        return DictLen(self.n_, self)
    def __len__(self):
        raise Unsupported("len of a symbolic dict reached C code")
    def copy(self):
        return SymDict(self.key, self.hasz, self.val_)
    def update(self, o=(), **more):
        o = unwrap_pairs(o)
        if isinstance(o, SymDict):
            if ctx().branch(o.hasz):
                self[o.key] = o.get_val()
        elif isinstance(o, dict):
            for k in o:
                self[k] = o[k]
        else:
            raise Unsupported("dict.update")
    def clear(self):
        self.hasz, self.val_, self.n_ = False, None, None
    def items(self): return DictView(self, "items")
    def keys(self): return DictView(self, "keys")
    def values(self): return DictView(self, "values")
    def __iter__(self):
        raise Unsupported("iteration over a symbolic dict reached C code")
    def loop(self, L): return DictView(self, "keys").loop(L)
    def comp(self, kind, f): return DictView(self, "keys").comp(kind, f)
    def vc_sorted(self, **k): return DictView(self, "keys").vc_sorted(**k)
    def vc_toset(self): return KeySet(self)
    def __eq__(self, o): raise Unsupported("equality of a symbolic dict reached C code")
    def __ne__(self, o): raise Unsupported("equality of a symbolic dict reached C code")
    def __hash__(self): raise TypeError("unhashable type: 'dict'")
    def __repr__(self): return "<symbolic dict>"
    def popitem(self): raise Unsupported("popitem")

def unwrap_pairs(o):
    return o

class DictView(SymIter):
    def __init__(self, d, what):
        self.d, self.what = d, what
    def vc_toset(self):
        if self.what != "keys":
            raise Unsupported("set of the items of a symbolic dict")
        return KeySet(self.d)
    def __eq__(self, o):
        if isinstance(o, DictView) and self.what == o.what == "keys":
            return KeySet(self.d) == KeySet(o.d)
        return NotImplemented
    __hash__ = object.__hash__
    def element(self):
        return {"items": lambda: (self.d.key, self.d.get_val()), "keys": lambda: self.d.key, "values": lambda: self.d.get_val()}[self.what]()
    def vc_len(self):
        return self.d.vc_len()
    def vc_sorted(self, **k):
        return self          # some order: a loop over it visits every key once
    def vc_in(self, k):
        if self.what != "keys":
            raise Unsupported("in on dict items")
        return self.d.vc_in(k)
    def loop(self, L):
        L.parametric(self.d.key)
        if ctx().branch(self.d.hasz):
            yield self.element()
    def comp(self, kind, f):
        return SymComp(self, kind, f)

GENERIC = [False]    # all() over keys and equality of key sets are judged at the generic key (contracts whose claim is that they hold)
class KeySet(SymIter):
    """the set of keys of a symbolic dict"""
    def __init__(self, d):
        self.d = d
    def __eq__(self, o):
        if not isinstance(o, KeySet):
            return False if not isinstance(o, SymIter) else NotImplemented
        if not GENERIC[0]:
            raise Unsupported("comparison of sets of keys")
        a, b = self.d, o.d
        if a.key is not b.key:
            raise Unsupported("sets of keys at different keys")
        return mkbool(Iff(a.hasz, b.hasz))
    def __ne__(self, o):
        return mkbool(Not(asbool(self.__eq__(o))))
    __hash__ = None

class Bag(SymIter):
    """the concatenation of symbolic comprehensions, order not tracked"""
    def __init__(self, *parts):
        self.parts = parts
    def results(self):
        out = []
        for p in self.parts:
            r = p.results() if isinstance(p, (SymComp, Bag)) else builtins.list(p)
            out.extend(r or ())
        return out
    def __add__(self, o): return Bag(self, o)
    def __radd__(self, o): return Bag(o, self)
    def comp(self, kind, f):
        return MapBag(self, f)
    def vc_tolist(self, cls): return self
    def vc_sorted(self, **k):
        if k:
            raise Unsupported("sorted with a key")
        return self
class MapBag(Bag):
    def __init__(self, bag, f):
        self.bag, self.f = bag, f
    def results(self):
        out = []
        for x in self.bag.results():
            out.extend(self.f((x,)))
        return out

class SymComp(SymIter):
    """a comprehension over a symbolic dict view, seen at the generic key"""
    def __init__(self, view, kind, f):
        self.view, self.kind, self.f = view, kind, f
        self.cached = None
    def results(self):
        """list of zero or one results at the generic key (None when the key is absent)"""
        if self.cached is None:
            if ctx().branch(self.view.d.hasz):
                self.cached = builtins.list(self.f((self.view.element(),)))
            else:
                self.cached = None
                return None
        return self.cached
    def todict(self):
        key = self.view.d.key
        r = self.results()
        if r is None:
            return SymDict(key, False, None)
        if builtins.len(r) == 0:
            return SymDict(key, False, None)
        (k, v), = r
        if k is not key:
            # another name of the same key (json): one to one
            if not (isinstance(k, Key) and (getattr(key, "of", None) is k or getattr(k, "of", None) is key)):
                if isinstance(k, float) and hasattr(type(key), "vc_float"):
                    return {k: v}
                raise Unsupported("comprehension changes the key")
        return SymDict(k, True, v)
    def loop(self, L):
        L.parametric(self.view.d.key)
        for x in (self.results() or ()):
            yield x
    def comp(self, kind, f):
        return SymComp(self.view, kind, lambda it: f(tuple(self.f(it))))
    def __add__(self, o): return Bag(self, o)
    def __radd__(self, o): return Bag(o, self)
    def vc_tolist(self, cls): return self
    def vc_sorted(self, **k):
        if k:
            raise Unsupported("sorted with a key")
        return self
    def vc_any(self):
        # some key: arbitrary answer, forced when the generic key says so
        r = self.results()
        b = fresh_bool("any")
        if r:
            ctx().assume(z3.Implies(zb(asbool(tobool(r[0]))), b.z))
        return b
    def vc_all(self):
        r = self.results()
        if GENERIC[0]:
            return mkbool(asbool(tobool(r[0]))) if r else True
        b = fresh_bool("all")
        if r:
            ctx().assume(z3.Implies(b.z, zb(asbool(tobool(r[0])))))
        return b
    def vc_len(self):
        n = fresh_int("len", 0)
        r = self.results()
        if r:
            ctx().assume(n.z > 0)
        return n

def tobool(x):
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, (SInt, int)):
        return mkbool(zint(x) != 0)
    return builtins.bool(x)

class Lazy(object):
    def __init__(self, f):
        self.f = f
    def force(self):
        return self.f()

# ---------------------------------------------------------------- content trees

class Kind(object):
    """leaf or dict: decided once, shared by trees of the same depth"""
    def __init__(self):
        self.k = None
    def get(self):
        if self.k is None:
            self.k = ("leaf", "dict")[ctx().choose(2, "kind of a content node")]
        return self.k

class Tree(SymIter):
    """an arbitrary content tree, seen at a generic path of keys, cell and column"""
    def __init__(self, has, at, owner, kind=None, make=None, name="t"):
        self.has, self.at_, self.owner, self.kind, self.make, self.name = has, at, owner, kind or Kind(), make, name
        self.resolved = None
    def resolve(self):
        if self.resolved is None:
            self.resolved = self.make(self)
        return self.resolved
    def __getattr__(self, n):
        if n.startswith("__") or n in ("has", "at_", "owner", "kind", "make", "resolved"):
            raise AttributeError(n)
        return getattr(self.resolve(), n)
    def vc_len(self):
        return rt_len(self.resolve())
    def vc_in(self, k):
        return _vc_in(k, self.resolve())
    def __getitem__(self, k): return self.resolve()[k]
    def __setitem__(self, k, v): self.resolve()[k] = v
    def loop(self, L): return self.resolve().loop(L)
    def comp(self, kind, f): return self.resolve().comp(kind, f)
    def __add__(self, o): return self.resolve() + res(o)
    def __mul__(self, o): return self.resolve() * o
    def __iadd__(self, o):
        r = self.resolve()
        r += res(o)
        return r
    def __imul__(self, o):
        r = self.resolve()
        r *= o
        return r

def res(x):
    return x.resolve() if isinstance(x, Tree) else x

# ---------------------------------------------------------------- loops

class Poison(object):
    """a variable whose value after a symbolic loop is not tracked"""
    def __init__(self, n):
        object.__setattr__(self, "n_", n)
    def _bad(self, *a, **k):
        raise Unsupported("use of {0}, assigned in a symbolic loop".format(object.__getattribute__(self, "n_")))
    def __getattr__(self, n): self._bad()
    __call__ = __iter__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __contains__ = __iadd__ = __mul__ = __rmul__ = __hash__ = _bad

UNBOUND = object()
LOOPRULES = {}      # key or object -> rule; set by contracts

class Loop(object):
    def __init__(self, it, key, names):
        self.it, self.key, self.names = it, key, names
        self.rule = LOOPRULES.get(key)
        if self.rule is None and hasattr(it, "looprule"):
            self.rule = it.looprule(self)
        self.para = None
        self.gen = None
        self.before = {}
        self.snap = None
        self.entered = {}
    def enter(self, n, loc):
        v = loc.get(n, UNBOUND)
        self.before[n] = v
        if self.rule is not None:
            v = self.rule.enter(self, n, v, loc)
        return Poison(n) if v is UNBOUND else v
    def exit(self, n, loc):
        if self.rule is not None:
            return self.rule.exit(self, n, loc)
        v = loc.get(n, UNBOUND)
        b = self.before.get(n, UNBOUND)
        if v is b and v is not UNBOUND:
            return v
        return Poison(n)
    def parametric(self, key):
        self.para = key
    def __iter__(self):
        return self
    def __next__(self):
        f = sys._getframe(1)
        loc = f.f_locals
        if self.gen is None:
            if self.rule is not None:
                self.gen = self.rule.run(self, lambda: f.f_locals)
            else:
                self.gen = self.it.loop(self)
            self.snapshot(loc)
        else:
            if self.rule is None:
                self.verify(loc)
        return next(self.gen)
    def snapshot(self, loc):
        self.snap = [(n, x, builtins.len(x)) for n, x in loc.items() if type(x) in (builtins.list, builtins.set, builtins.dict)]
        def ver(x):
            return x.__dict__.get("version") if type(x) is not Poison and hasattr(type(x), "vc_version") else None
        self.versions = [(n, x, x.version) for n, x in loc.items() if ver(x) is not None]
        for n, x in loc.items():
            if type(x) in (builtins.list, builtins.tuple):
                self.versions += [(n, y, y.version) for y in x if ver(y) is not None]
    def verify(self, loc):
        for n, x, k in self.versions:
            if x.version != k:
                raise Unsupported("{0} is modified in the symbolic loop {1}".format(n, self.key))
        for n, x, k in self.snap:
            if builtins.len(x) != k:
                if type(x) in (dict, OpenDict) and all(y is self.para for y in builtins.list(x)[k:]):
                    continue
                raise Unsupported("{0} grows in the symbolic loop {1}".format(n, self.key))

SCAN = [None]       # set by contracts: the sequences that while loops walk along
SPEC = [False]      # a condition is being restated, not run

class While(object):
    """a while loop that runs; or, when the contract says so and the loop only moves one integer on by one while its condition holds,
    the rule for such loops: after it, the condition fails at the integer and holds at every one it passed"""
    def __init__(self, key, names, test=None):
        self.key, self.n, self.names, self.test = key, 0, names, test
        self.scan = None
    def enter(self, n, loc):
        v = loc.get(n, UNBOUND)
        if SCAN[0] is not None and self.names == (n,) and v is not UNBOUND and isint(v) and self.test is not None and self.test.__code__.co_varnames[:1] == (n,):
            c = ctx()
            at = self.scan = fresh_int("scan")
            v0 = zint(v)
            c.assume(v0 <= at.z)
            def passed(t):
                SPEC[0] = True
                try:
                    b = zb(asbool(tobool(self.test(SInt(t)))))
                finally:
                    SPEC[0] = False
                return z3.Implies(z3.And(v0 <= t, t < at.z), b)
            for f in SCAN[0]:
                f.add_unary(passed)
            self.var = n
            return at
        return Poison(n) if v is UNBOUND else v
    def tick(self, loc):
        self.n += 1
        if self.scan is not None:
            if self.n > 1:
                v = loc.get(self.var)
                if not isint(v) or ctx().feasible(zint(v) != self.scan.z + 1) != z3.unsat:
                    raise Unsupported("while loop at {0} does not step by one".format(self.key))
                raise PathEnd()
            return True
        if self.n > 400:
            raise Unsupported("while loop at {0} does not end".format(self.key))
        return True

# ---------------------------------------------------------------- calls

SUMMARIES = {}      # qualified name -> function(orig, args, kwargs) -> value or NOTHANDLED
ACTIVE = {}
CALLED = set()
NOTHANDLED = object()
IH = [None]         # induction hypothesis: function(qual, args, kwargs) -> value or NOTHANDLED

def _vc_def(qual):
    def deco(f):
        @functools.wraps(f)
        def wrapper(*args, **kwargs):
            if Ctx.cur is None:
                return f(*args, **kwargs)
            CALLED.add(qual)
            s = SUMMARIES.get(qual)
            if s is not None:
                out = s(f, args, kwargs)
                if out is not NOTHANDLED:
                    return out
            for x in args:
                if isinstance(x, FoldSeq):
                    return x.call(qual, f, args, kwargs)
            if IH[0] is not None and ACTIVE.get(qual, 0) > 0 and any(isinstance(x, Tree) and x.resolved is None for x in args):
                out = IH[0](qual, args, kwargs)
                if out is not NOTHANDLED:
                    return out
            args = tuple(res(x) if isinstance(x, Tree) else x for x in args)
            ACTIVE[qual] = ACTIVE.get(qual, 0) + 1
            try:
                return f(*args, **kwargs)
            finally:
                ACTIVE[qual] -= 1
        wrapper._vc_qual__ = qual
        return wrapper
    return deco

def _vc_issym(it):
    return isinstance(it, SymIter)

def _vc_comp(kind, it, f):
    if isinstance(it, Tree):
        it = it.resolve()
    if kind == "dict":
        if isinstance(it, SymIter):
            return rt_dict(it.comp(kind, lambda i: f(i).items()))
        return OpenDict(f(it))
    if isinstance(it, SymIter):
        return it.comp(kind, f)
    return f(it)

def _vc_loop(it, key, names):
    if isinstance(it, Tree):
        it = it.resolve()
    return Loop(it, key, names)

def _vc_while(key, names, test=None):
    return While(key, names, test)

EMPTYDICT = [None]   # set by contracts: what {} makes
def _vc_emptydict():
    return OpenDict() if EMPTYDICT[0] is None else EMPTYDICT[0]()

def _vc_in(x, c):
    if hasattr(c, "vc_in"):
        return c.vc_in(x)
    if isinstance(c, (dict, set, frozenset)) and type(x) is not Key and isinstance(x, Sym):
        raise Unsupported("membership of a symbolic value in a {0}".format(type(c).__name__))
    if isinstance(x, Key) and isinstance(c, (set, frozenset)) and getattr(x, "open", False):
        return mkbool(Or(*[asbool(x == y) for y in c]))
    if isinstance(c, (builtins.list, builtins.tuple)):
        for y in c:
            if x is y:
                return True
            if x == y:
                return True
        return False
    return x in c

def _vc_notin(x, c):
    r = _vc_in(x, c)
    if isinstance(r, SBool):
        return mkbool(Not(r.z))
    return not r

def issymarg(x):
    return isinstance(x, (SymIter, Sym))

def rt_len(x):
    if isinstance(x, Tree):
        x = x.resolve()
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return builtins.len(x)

def rt_range(*a):
    if any(isinstance(x, SNum) for x in a):
        if builtins.len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    return builtins.range(*a)

def rt_dict(*a, **k):
    if a:
        o = a[0]
        if isinstance(o, Tree):
            o = o.resolve()
        if isinstance(o, SymDict):
            out = o.copy()
        elif isinstance(o, SymComp):
            out = o.todict()
        elif isinstance(o, DictView) and o.what == "items":
            out = o.d.copy()
        elif isinstance(o, SymIter):
            h = getattr(o, "vc_todict", None)
            if h is None:
                raise Unsupported("dict() of a symbolic {0}".format(type(o).__name__))
            out = h()
        else:
            return OpenDict(*a, **k)
        for n in k:
            out[n] = k[n]
        return out
    return OpenDict(*a, **k)

def rt_seq(cls):
    def f(*a):
        if a and isinstance(a[0], SymIter):
            x = a[0]
            if isinstance(x, SymSeq):
                return x.as_cls(cls)
            h = getattr(x, "vc_tolist", None)
            if h is not None:
                return h(cls)
            raise Unsupported("{0}() of a symbolic {1}".format(cls.__name__, type(x).__name__))
        return cls(*a)
    return f

def rt_set(*a):
    if a and isinstance(a[0], builtins.tuple) and builtins.len(a[0]) == 1 and isinstance(a[0][0], SNum):
        return a[0]        # a set of one element
    if a and isinstance(a[0], (builtins.tuple, builtins.list)) and any(isinstance(x, SNum) for x in a[0]) and all(isinstance(x, (SNum, int, float)) for x in a[0]):
        out = []           # a set of a few numbers
        for x in a[0]:
            if not any(builtins.bool(x == y) for y in out):
                out.append(x)
        return builtins.tuple(out)
    if a and isinstance(a[0], SymIter):
        h = getattr(a[0], "vc_toset", None)
        if h is not None:
            return h()
        raise Unsupported("set() of a symbolic {0}".format(type(a[0]).__name__))
    return builtins.set(*a)

def rt_sorted(x, **k):
    if isinstance(x, SymIter):
        h = getattr(x, "vc_sorted", None)
        if h is not None:
            return h(**k)
        raise Unsupported("sorted() of a symbolic {0}".format(type(x).__name__))
    return builtins.sorted(x, **k)

def rt_enumerate(x, start=0):
    if isinstance(x, SymSeq):
        out = SymSeq(x.length, lambda i: (start + i, x.at(i)), builtins.list)
        out.parents = (x,) + builtins.tuple(getattr(x, "parents", ()))
        return out
    if isinstance(x, SymIter):
        h = getattr(x, "vc_enumerate", None)
        if h is not None:
            return h(start)
        raise Unsupported("enumerate")
    return builtins.enumerate(x, start)

def rt_zip(*xs):
    if any(isinstance(x, SymIter) for x in xs):
        if not all(isinstance(x, (SymSeq, builtins.list, builtins.tuple)) for x in xs):
            raise Unsupported("zip")
        n = seqlen(xs[0])
        for x in xs[1:]:
            n = smin(n, seqlen(x))
        return SymSeq(n, lambda i: tuple(x.at(i) if isinstance(x, SymSeq) else pick(x, i) for x in xs), builtins.list)
    return builtins.zip(*xs)

def rt_isinstance(x, c):
    if isinstance(x, Tree):
        x = x.resolve()
    h = getattr(type(x), "vc_isinstance", None)
    if h is not None:
        cs = c if isinstance(c, builtins.tuple) else (c,)
        return h(x, flat(cs))
    if isinstance(x, SymSeq):
        cs = flat(c if isinstance(c, builtins.tuple) else (c,))
        return any(isinstance(y, type) and issubclass(x.cls, y) for y in cs)
    if isinstance(x, (SNum, SBool)):
        cs = flat(c if isinstance(c, builtins.tuple) else (c,))
        py = {SInt: int, SFloat: float, SBool: bool}[type(x)]
        for y in cs:
            if isinstance(y, type) and issubclass(py, y):
                return True
        return False
    return builtins.isinstance(x, c)

def flat(cs):
    out = []
    for c in cs:
        if isinstance(c, builtins.tuple):
            out.extend(flat(c))
        else:
            out.append(c)
    return out

def rt_int(*a):
    if a and isinstance(a[0], (SNum, SBool)):
        return pyint(a[0])
    return builtins.int(*a)
def rt_float(*a):
    if a and isinstance(a[0], (SNum, SBool)):
        return tofloat(a[0])
    if a and isinstance(a[0], Key) and a[0].num is not None:
        return a[0].num
    if a and hasattr(type(a[0]), "vc_float"):
        return a[0].vc_float()
    return builtins.float(*a)
def rt_bool(*a):
    if a and isinstance(a[0], (SBool, SNum)):
        return tobool(a[0]) if not isinstance(a[0], SFloat) else builtins.bool(a[0])
    return builtins.bool(*a)
def rt_round(x, *n):
    if isinstance(x, SNum):
        return pyround(x)
    return builtins.round(x, *n)
def rt_minmax(name):
    orig = getattr(builtins, name)
    def f(*a, **k):
        if builtins.len(a) >= 2 and any(isinstance(x, SNum) for x in a):
            out = a[0]
            for x in a[1:]:
                out = ite((x < out) if name == "min" else (x > out), x, out)
            return out
        if builtins.len(a) == 1 and isinstance(a[0], SymSeq) and name == "min" and not k:
            return a[0].vc_sorted()[0]
        if builtins.len(a) == 1 and isinstance(a[0], SymIter):
            h = getattr(a[0], "vc_" + name, None)
            if h is not None:
                return h()
            raise Unsupported(name)
        return orig(*a, **k)
    return f
def rt_anyall(name):
    orig = getattr(builtins, name)
    def f(x):
        if isinstance(x, SymIter):
            h = getattr(x, "vc_" + name, None)
            if h is None:
                raise Unsupported("{0} over a symbolic {1}".format(name, type(x).__name__))
            return h()
        return orig(x)
    return f
def rt_sum(x, *a):
    if isinstance(x, SymIter):
        h = getattr(x, "vc_sum", None)
        if h is None:
            raise Unsupported("sum")
        return h(*a)
    return builtins.sum(x, *a)
def rt_str(*a):
    if a and isinstance(a[0], (Sym, SymIter)):
        h = getattr(a[0], "vc_str", None)
        if h is not None:
            return h()
        if SYMHASH[0]:
            return "<{0}>".format(getattr(a[0], "z", None) if not isinstance(a[0], SFloat) else (a[0].r, a[0].nan, a[0].pinf, a[0].ninf))
        raise Unsupported("str of a symbolic value")
    return builtins.str(*a)
def rt_repr(x):
    if isinstance(x, (Sym, SymIter)):
        return "<sym>"
    return builtins.repr(x)
def rt_hash(x):
    h = getattr(x, "vc_hash", None)
    if h is not None:
        return h()
    if SYMHASH[0]:
        return builtins.hash(zerohash(x))
    if isinstance(x, builtins.tuple) and hasheable(x) is False:
        return SymHash(x)
    return builtins.hash(x)
SYMHASH = [False]    # symbolic values all hash alike (contracts in which containers never mix a symbolic with another number)
def zerohash(x):
    if isinstance(x, (Sym, SymIter)):
        return 0
    if isinstance(x, builtins.tuple):
        return builtins.tuple(zerohash(y) for y in x)
    return x
def hasheable(x):
    if isinstance(x, (Sym, SymIter)):
        return False
    if isinstance(x, builtins.tuple):
        return all(hasheable(y) is not False for y in x)
    if hasattr(x, "vc_hash"):
        return False
    return True
class SymHash(object):
    """hash of a tuple: equal when the components are equal"""
    def __init__(self, parts):
        self.parts = parts

def rt_map(f, *its):
    if builtins.len(its) == 1 and isinstance(its[0], Tree):
        its = (its[0].resolve(),)
    if any(isinstance(it, SymIter) for it in its):
        if builtins.len(its) > 1:
            return rt_map(lambda xs: _vc_call(f, *xs), rt_zip(*its))
        return _vc_comp("gen", its[0], lambda it: (_vc_call(f, x) for x in it))
    return (_vc_call(f, *xs) for xs in builtins.zip(*its))

def rt_filter(f, it):
    test = (lambda x: x) if f is None else (lambda x: _vc_call(f, x))
    return _vc_comp("gen", it, lambda it: (x for x in it if test(x)))

TABLE = {}
for n, f in dict(map=rt_map, filter=rt_filter, len=rt_len, range=rt_range, dict=rt_dict, list=rt_seq(builtins.list), tuple=rt_seq(builtins.tuple), set=rt_set, sorted=rt_sorted,
                 enumerate=rt_enumerate, zip=rt_zip, isinstance=rt_isinstance, int=rt_int, float=rt_float, bool=rt_bool, round=rt_round,
                 min=rt_minmax("min"), max=rt_minmax("max"), any=rt_anyall("any"), all=rt_anyall("all"), sum=rt_sum, str=rt_str, repr=rt_repr, hash=rt_hash).items():
    TABLE[builtins.id(getattr(builtins, n))] = f
EXTRA = {}          # id(callable) -> shim; used for library functions
def rt_reduce(f, xs, *init):
    if isinstance(xs, FoldSeq):
        return xs.node.reduce(f, xs, *init)
    if isinstance(xs, SymIter):
        raise Unsupported("reduce")
    return functools.reduce(f, xs, *init)
EXTRA[builtins.id(functools.reduce)] = rt_reduce

def _vc_call(f, *args, **kwargs):
    try:
        g = TABLE.get(builtins.id(f)) or EXTRA.get(builtins.id(f))
    except Exception:
        g = None
    if g is not None:
        return g(*args, **kwargs)
    if isinstance(f, type) and issubclass(f, (builtins.tuple, builtins.list)) and args and isinstance(args[0], SymIter):
        return rt_seq(f)(*args)
    if type(f) is BUILTINMETHOD and type(f.__self__) is str and args:
        if f.__name__ == "join" and builtins.len(args) == 1:
            if not isinstance(args[0], (builtins.list, builtins.tuple)) and not isinstance(args[0], (str, SymIter)):
                args = (builtins.list(args[0]),)
            if isinstance(args[0], (builtins.list, builtins.tuple)) and any(hasattr(x, "vc_concat") for x in args[0]):
                parts = []
                for x in args[0]:
                    parts += [f.__self__, x] if parts else [x]
                return joined(parts)
        elif f.__name__ == "format" and any(hasattr(x, "vc_concat") for x in args + builtins.tuple(kwargs.values())):
            parts = formatted(f.__self__, args, kwargs)
            if parts is not None:
                return joined(parts)
    return f(*args, **kwargs)

BUILTINMETHOD = type("".join)
def joined(parts):
    """the text made of these texts"""
    for x in parts:
        if hasattr(x, "vc_concat"):
            return x.vc_concat(parts)
    return "".join(str(x) for x in parts)

def formatted(text, args, kwargs):
    """the parts of text.format(*args, **kwargs), if the fields are plain"""
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(text):
        if lit:
            parts.append(lit)
        if field is not None:
            if spec or conv not in (None, "s"):
                return None
            if field == "":
                parts.append(args[auto])
                auto += 1
            elif field.isdigit():
                parts.append(args[int(field)])
            elif field in kwargs:
                parts.append(kwargs[field])
            else:
                return None
    return parts

def _vc_text(*parts):
    if any(hasattr(x, "vc_concat") for x in parts):
        return joined(parts)
    return "".join(format(x) for x in parts)

def _vc_percent(text, value):
    values = value if isinstance(value, builtins.tuple) else (value,)
    if any(hasattr(x, "vc_concat") for x in values):
        pieces = text.split("%s")
        if "%" in "".join(pieces) or builtins.len(pieces) != builtins.len(values) + 1:
            raise Unsupported("% formatting of a symbolic text")
        parts = [pieces[0]]
        for x, p in builtins.zip(values, pieces[1:]):
            parts += [x, p]
        return joined([p for p in parts if not (type(p) is str and p == "")])
    return text % value
