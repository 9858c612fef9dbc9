"""Content arrays for tables: every array is seen at one generic cell of the histogram; columns apart.  Flattening the cells and shaping
them back, picking columns, compressing by a mask, elementwise arithmetic and the sum over all cells are understood."""
from tree import *

ABSENT = object()        # the generic cell is not in the compressed array

class Pos(object):
    """the cells of a histogram: sizes of the axes and the generic index on each"""
    def __init__(self, c, shape, tags=None):
        self.c, self.shape = c, tuple(shape)
        self.tags = tuple(tags) if tags is not None else tuple(range(len(self.shape)))
        self.rows = fresh_int("rows", 0)
        self.idx = []
        for s in self.shape:
            i = fresh_int("i", 0)
            c.assume(i.z < zint(s))
            self.idx.append(i)
    def is_shape(self, s):
        return len(s) == len(self.shape) and all(a is b or (isinstance(a, int) and isinstance(b, int) and a == b) or (isint(a) and isint(b) and self.c.feasible(zint(a) != zint(b)) == z3.unsat) for a, b in zip(s, self.shape))
    def is_rows(self, n):
        return n is self.rows or (isinstance(n, int) and n == -1)

def positions(shape):
    """(pos, flat) of an array of this shape, or None"""
    for p in WORLD["pos"]:
        if len(shape) == 1 and shape[0] is p.rows:
            return p, True
    for p in WORLD["pos"]:
        if p.is_shape(shape):
            return p, False
    return None
WORLD = {"pos": []}

class Arr(npf.ndarray):
    vc_version = True
    dtype = npf.DType("f", 64)
    def __bool__(self): raise ValueError("The truth value of an array with more than one element is ambiguous")
    def __iter__(self): raise Unsupported("iteration over an array")
    __hash__ = object.__hash__
    def vc_isinstance(self, cs): return any(c in (npf.ndarray, object) for c in cs)
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self): raise Unsupported("size of an array")
    def vc_len(self): return self.shape[0]
    def astype(self, t, copy=True):
        if npf.asdtype(t) != self.dtype:
            raise Unsupported("cast")
        return self.copy()

class Buf(object):
    def __init__(self, vals): self.vals, self.version = list(vals), 0

class Cells(Arr):
    """positions x columns"""
    def __init__(self, pos, flat, buf, names=None):
        self.pos, self.flat, self.buf, self.names = pos, flat, buf, names
    @property
    def version(self): return self.buf.version
    @property
    def vals(self): return self.buf.vals
    @property
    def shape(self):
        s = (self.pos.rows,) if self.flat else self.pos.shape
        return s if self.names else s + (len(self.buf.vals),)
    def copy(self, *a): return Cells(self.pos, self.flat, Buf(self.buf.vals), self.names)
    vc_array = copy
    def reshape(self, *a, **k):
        s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        s = tuple(s)
        n = len(self.buf.vals)
        if self.names is None:
            if not s or not (type(s[-1]) is int and s[-1] in (n, -1)):
                if s and type(s[-1]) is int:
                    raise Unsupported("reshape to {0}".format(s))
                raise Unsupported("reshape")
            s = s[:-1]
        if len(s) == 1 and self.pos.is_rows(s[0]):
            return Cells(self.pos, True, self.buf, self.names)
        if self.pos.is_shape(s):
            return Cells(self.pos, False, self.buf, self.names)
        raise Unsupported("reshape")
    def ravel(self): raise Unsupported("ravel")
    def view(self, t=None, **k):
        if isinstance(t, (list, tuple)) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in t):
            if len(t) != len(self.buf.vals) or len(set(x[0] for x in t)) != len(t):
                raise Unsupported("record view")
            out = Cells(self.pos, self.flat, self.buf, tuple(x[0] for x in t))
            out.viewed = True
            return out
        raise Unsupported("view")
    def split(self, key):
        """(row selector, column)"""
        key = tuple(key) if isinstance(key, (tuple, list)) else (key,)
        full = 1 if self.flat else len(self.pos.shape)
        if key and key[0] is Ellipsis and len(key) == 2:
            return None, key[1]
        if len(key) == full + 1 and all(isinstance(k, slice) and k == slice(None) for k in key[:-1]):
            return None, key[-1]
        if self.flat and len(key) == 2 and isinstance(key[0], Col) or not self.flat and len(key) == 2 and isinstance(key[0], Col) and not key[0].flat:
            return key[0], key[1]
        raise Unsupported("index of an array")
    def column(self, k):
        if isinstance(k, (int, numpy_int)) and not isinstance(k, bool):
            return int(k)
        raise Unsupported("column index")
    def __getitem__(self, key):
        if self.names is not None:
            if isinstance(key, str) and key in self.names:
                return Col(self.pos, self.flat, None, self.buf.vals[self.names.index(key)])
            raise Unsupported("index of a record array")
        m, k = self.split(key)
        if isinstance(k, list):
            if m is not None:
                raise Unsupported("index of an array")
            return Cells(self.pos, self.flat, Buf([self.buf.vals[self.column(x)] for x in k]))
        if isinstance(k, slice):
            if m is not None or k == slice(None):
                raise Unsupported("view of the columns")
            if not all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                raise Unsupported("slice of the columns")
            return ColsView(self, list(range(len(self.buf.vals)))[k])
        k = self.column(k)
        try:
            v = self.buf.vals[k]
        except IndexError:
            raise IndexError("index {0} is out of bounds".format(k))
        if m is None:
            return ColView(self, k)
        return Col(self.pos, self.flat, None, v).compress(m)
    def __setitem__(self, key, x):
        if self.names is not None:
            raise Unsupported("assignment to a record array")
        m, k = self.split(key)
        k = self.column(k)
        if not -len(self.buf.vals) <= k < len(self.buf.vals):
            raise IndexError("index {0} is out of bounds".format(k))
        if isinstance(x, Col):
            if x.pos is not self.pos or x.flat != self.flat:
                raise Unsupported("assignment of other cells")
            samemask(x.mask, m)
            v = x.v
        else:
            v = plain(x)
            if not isinstance(v, (int, float, SNum)):
                raise Unsupported("assignment")
            if m is not None and not m.here():
                v = ABSENT
        if v is not ABSENT:
            self.buf.vals[k] = tofloat(v)
        self.buf.version += 1

class ColsView(Cells):
    def __init__(self, cells, which):
        self.cells, self.which = cells, which
        Cells.__init__(self, cells.pos, cells.flat, Buf([cells.buf.vals[k] for k in which]))
    def __setitem__(self, *a): raise Unsupported("assignment to a view")

numpy_int = npf.real.integer

def samemask(a, b):
    if a is b:
        return
    if a is None or b is None:
        raise Unsupported("compressed and uncompressed arrays combined")
    if a.mask is not b.mask:
        samemask(a.mask, b.mask)
    if a.v is ABSENT and b.v is ABSENT:
        return
    if a.v is ABSENT or b.v is ABSENT or ctx().feasible(zb(asbool(a.v)) != zb(asbool(b.v))) != z3.unsat:
        raise Unsupported("arrays compressed differently")

class Col(Arr):
    """one number per cell (of those where mask holds)"""
    def __init__(self, pos, flat, mask, v):
        self.pos, self.flat, self.mask, self.v_, self.version = pos, flat, mask, v, 0
    @property
    def v(self): return self.v_
    @v.setter
    def v(self, x): self.v_ = x
    @property
    def dtype(self): return npf.DType("b", 8) if isinstance(self.v, (bool, SBool)) else npf.DType("f", 64)
    @property
    def shape(self):
        if self.mask is not None:
            return (fresh_int("compressed", 0),)
        return (self.pos.rows,) if self.flat else self.pos.shape
    def copy(self, *a): return Col(self.pos, self.flat, self.mask, self.v)
    vc_array = copy
    def here(self):
        """does the mask hold at the generic cell? (decided on this path)"""
        return self.v is not ABSENT and ctx().branch(zb(asbool(self.v)))
    def compress(self, m):
        if m.pos is not self.pos or m.flat != self.flat:
            raise Unsupported("mask of other cells")
        samemask(self.mask, m.mask)
        if not isinstance(m.v, (bool, SBool)) and m.v is not ABSENT:
            raise Unsupported("index array")
        return Col(self.pos, self.flat, m, self.v if m.here() else ABSENT)
    def __getitem__(self, k):
        if isinstance(k, Col):
            return self.compress(k)
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            return self
        if self.mask is None and not self.flat and isinstance(k, tuple) and len(k) == len(self.pos.shape) and all(isinstance(x, slice) for x in k):
            return Sub(self, k)
        raise Unsupported("index of an array")
    def __setitem__(self, k, x):
        if isinstance(k, tuple) and self.mask is None and not self.flat and len(k) == len(self.pos.shape) and all(isinstance(y, slice) for y in k):
            s = Sub(self, k)
            if isinstance(x, Sub):
                if x.key != s.key:
                    raise Unsupported("assignment of other cells")
                x = x.v
            if isinstance(x, Arr):
                raise Unsupported("assignment of an array")
            if s.inside:
                self.v = tofloat(x)
            self.version += 1
            return
        if isinstance(k, Col):
            if isinstance(x, Col):
                samemask(x.mask, k)
                x = x.v
            if k.here():
                self.v = tofloat(plain(x))
            self.version += 1
            return
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            self.v = self.other(x)
            self.version += 1
            return
        raise Unsupported("assignment to an array")
    def other(self, x):
        if isinstance(x, Col):
            if x.pos is not self.pos or x.flat != self.flat:
                raise Unsupported("arrays of different cells")
            samemask(x.mask, self.mask)
            return x.v
        x = plain(x)
        if not isinstance(x, (int, float, SNum, bool, SBool)):
            raise Unsupported("array combined with {0}".format(type(x).__name__))
        return x
    def op(self, f, o, swap=False):
        b = self.other(o)
        a = self.v
        if a is ABSENT or b is ABSENT:
            return ABSENT
        return f(b, a) if swap else f(a, b)
    def new(self, v): return Col(self.pos, self.flat, self.mask, v)
    def vc_ufunc(self, name, fn, xs, out):
        vals = [self.other(x) for x in xs]
        v = ABSENT if any(x is ABSENT for x in vals) else fn(*vals)
        if out is not None:
            if not isinstance(out, Col):
                raise Unsupported("out=")
            out[...] = self.new(v)
            return out
        return self.new(v)
    def __neg__(self): return self.new(ABSENT if self.v is ABSENT else fneg(tofloat(self.v)))
    def __invert__(self): return self.new(ABSENT if self.v is ABSENT else rt.mkbool(Not(asbool(self.v))))
    def __and__(self, o): return self.new(self.op(lambda a, b: rt.mkbool(And(asbool(a), asbool(b))), o))
    def __or__(self, o): return self.new(self.op(lambda a, b: rt.mkbool(Or(asbool(a), asbool(b))), o))
    def sum(self, *a, **k):
        if a or k:
            raise Unsupported("sum over an axis")
        return total(self)
    def reshape(self, *a, **k):
        s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        s = tuple(s)
        if self.mask is not None:
            raise Unsupported("reshape")
        if len(s) == 1 and self.pos.is_rows(s[0]):
            return Col(self.pos, True, None, self.v)
        if self.pos.is_shape(s):
            return Col(self.pos, False, None, self.v)
        raise Unsupported("reshape")
    def flatten(self): return self.reshape(-1)
    ravel = flatten
    def __pow__(self, n):
        if isinstance(n, (int, float)) and n == 2:
            return self.new(self.op(lambda a, b: fmul(tofloat(a), tofloat(a)), 0))
        raise Unsupported("power")

def _ar(f):
    return lambda a, b: f(tofloat(a), tofloat(b))
for _n, _f in (("add", fadd), ("sub", lambda a, b: fadd(a, fneg(b))), ("mul", fmul), ("truediv", fdiv_np)):
    setattr(Col, "__{0}__".format(_n), (lambda f: (lambda self, o: self.new(self.op(f, o))))(_ar(_f)))
    setattr(Col, "__r{0}__".format(_n), (lambda f: (lambda self, o: self.new(self.op(f, o, True))))(_ar(_f)))
    def _i(self, o, f=_ar(_f)):
        self[...] = self.new(self.op(f, o))
        return self
    setattr(Col, "__i{0}__".format(_n), _i)
for _n, _f in (("lt", npf.fcmp("lt")), ("le", npf.fcmp("le")), ("gt", npf.fcmp("lt", True)), ("ge", npf.fcmp("le", True)), ("eq", npf.fcmp("eq")), ("ne", lambda a, b: rt.mkbool(Not(asbool(npf.fcmp("eq")(a, b)))))):
    setattr(Col, "__{0}__".format(_n), (lambda f: (lambda self, o: self.new(self.op(f, o))))(_f))
Col.__hash__ = object.__hash__

class ColView(Col):
    """a column of an array, not copied"""
    def __init__(self, cells, k):
        self.cells, self.k = cells, k
        Col.__init__(self, cells.pos, cells.flat, None, None)
    @property
    def v(self): return self.cells.buf.vals[self.k]
    @v.setter
    def v(self, x):
        self.cells.buf.vals[self.k] = tofloat(x)
        self.cells.buf.version += 1

class Sub(Arr):
    """a block of cells"""
    def __init__(self, col, key):
        self.col = col
        pos, c = col.pos, col.pos.c
        self.key, self.inside, self.lo = [], True, []
        for s, n, i in zip(key, pos.shape, pos.idx):
            if s.step not in (None, 1):
                raise Unsupported("slice with a step")
            if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (s.start, s.stop)):
                lo, hi, _ = s.indices(n)
            else:
                t = rt.SymSeq(n, lambda q: q, list).slice(s)
                lo = t.at(0)
                hi = lo + t.length
            self.key.append((lo, hi) if isinstance(lo, int) and isinstance(hi, int) else (str(z3.simplify(zint(lo))), str(z3.simplify(zint(hi)))))
            self.lo.append(lo)
            if not c.branch(z3.And(zint(lo) <= i.z, i.z < zint(hi))):
                self.inside = False
        self.v = col.v if self.inside else ABSENT
    @property
    def shape(self): raise Unsupported("shape of a block")
    def factor(self, x):
        if isinstance(x, Vec):
            return x.at(self)
        x = plain(x)
        if not isinstance(x, (int, float, SNum)):
            raise Unsupported("block combined with {0}".format(type(x).__name__))
        return x
    def __imul__(self, x):
        f = self.factor(x)
        if self.inside:
            self.v = fmul(tofloat(self.v), tofloat(f))
        return self
    def __mul__(self, x):
        f = self.factor(x)
        out = Sub.__new__(Sub)
        out.__dict__.update(self.__dict__)
        if self.inside:
            out.v = fmul(tofloat(self.v), tofloat(f))
        return out

class Vec(Arr):
    """one number per finite bin of an axis, to be broadcast"""
    def __init__(self, seq, back=0): self.seq, self.back = seq, back
    def reshape(self, *a):
        s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        if len(s) >= 1 and s[0] == -1 and all(type(x) is int and x == 1 for x in s[1:]):
            return Vec(self.seq, len(s) - 1)
        raise Unsupported("reshape")
    @property
    def shape(self): return (rt.rt_len(self.seq),) + (1,)*self.back
    def at(self, sub):
        d = len(sub.lo) - 1 - self.back
        if d < 0:
            raise Unsupported("broadcast")
        if not sub.inside:
            return ABSENT
        j = z3.simplify(sub.col.pos.idx[d].z - zint(sub.lo[d]))
        n = rt.rt_len(self.seq)
        sub.col.pos.c.prove("a width for every bin", z3.And(0 <= j, j < zint(n)))
        return self.seq.at(mkint(j)) if isinstance(self.seq, rt.SymSeq) else rt.pick(self.seq, mkint(j))

def total(col):
    """the sum over all cells: a number that depends on what is summed only; equal summands have equal sums"""
    c = col.pos.c
    v = tofloat(col.v)
    memo = c.__dict__.setdefault("totals", [])
    for w, t in memo:
        if c.feasible(z3.Not(zb(same(w, v)))) == z3.unsat:
            return t
    t = fresh_real("total")
    c.assume(t.r != 0)
    memo.append((v, t))
    return t

def install_cells(c, shapes, tags=None):
    """numpy functions on these arrays"""
    install([])
    WORLD["pos"] = [Pos(c, s, None if tags is None else tags[i]) for i, s in enumerate(shapes)]
    def zeros(s, dtype=None, **k):
        s = tuple(s) if isinstance(s, (tuple, list)) else (s,)
        p = positions(s[:-1])
        if p is not None and type(s[-1]) is int:
            return Cells(p[0], p[1], Buf([tofloat(0.0)]*s[-1]))
        p = positions(s)
        if p is not None:
            return Col(p[0], p[1], None, tofloat(0.0))
        return NotImplemented
    def full(s, v, **k):
        s = tuple(s) if isinstance(s, (tuple, list)) else (s,)
        p = positions(s)
        if p is not None:
            return Col(p[0], p[1], None, tofloat(v))
        return NotImplemented
    def arr(x, *a, **k):
        if isinstance(x, rt.SymSeq):
            return Vec(x)
        h = getattr(x, "vc_array", None)
        return h() if h is not None else NotImplemented
    def nsum(x, *a, **k):
        return x.sum(*a, **k) if isinstance(x, Col) else NotImplemented
    def ones(s, **k): return full(s, 1.0)
    npf.HOOKS["zeros"], npf.HOOKS["full"], npf.HOOKS["array"], npf.HOOKS["sum"], npf.HOOKS["ones"] = [zeros], [full], [arr], [nsum], [ones]
    return WORLD["pos"]
for _n in ("sum",):
    if not hasattr(npf.F, "_vcdef_" + _n):
        def _g(_n):
            @npf.define(_n)
            def g(*a, **k):
                raise Unsupported("numpy." + _n)
            setattr(npf.F, "_vcdef_" + _n, True)
        _g(_n)
