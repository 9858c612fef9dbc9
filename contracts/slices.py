"""Content arrays for selection and rebinning: one axis (the active one) in full, as a function of its bin index; the other axes at a
generic bin.  Slices are tracked as offset and size of every dimension."""
from tree import *

class SLeaf(Leaf):
    def __init__(self, dims, fn, n, buf=None, fixed=None):
        """dims: list of [tag, offset, size]; fn(q, i): value of column q at index i of the active axis"""
        Leaf.__init__(self, tuple(d[2] for d in dims) + (n,), [None]*n)
        self.dims, self.fn, self.n, self.fixed = [tuple(d) for d in dims], fn, n, dict(fixed or {})
        self.buf = buf if buf is not None else object()
    def get_shape(self): return tuple(d[2] for d in self.dims) + (self.n,)
    def set_shape(self, s):
        s = tuple(s)
        keep, rest = [], list(self.dims)
        fixed = dict(self.fixed)
        want = list(s[:-1])
        if not s or not (type(s[-1]) is int and s[-1] == self.n):
            raise Unsupported("shape")
        for i, d in enumerate(self.dims):
            more = len(self.dims) - i - 1
            if len(want) > 0 and same_size(want[0], d[2]) and not (is_one(d[2]) and len(want) == more and all(same_size(a, b[2]) for a, b in zip(want, self.dims[i + 1:]))):
                keep.append(d)
                want.pop(0)
            elif is_one(d[2]):
                fixed[d[0]] = d[1]
            else:
                raise ValueError("cannot reshape array")
        if want:
            raise ValueError("cannot reshape array")
        self.dims, self.fixed = keep, fixed
    shape = property(get_shape, set_shape)
    @property
    def ndim(self): return len(self.dims) + 1
    def reshape(self, *a):
        s = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        out = SLeaf(self.dims, self.fn, self.n, self.buf, self.fixed)
        out.shape = s
        return out
    def copy(self, *a): return SLeaf(self.dims, self.fn, self.n, None, self.fixed)
    def vc_len(self): return self.shape[0]
    def __getitem__(self, key):
        key = list(key) if isinstance(key, (tuple, list)) else [key]
        if any(x is Ellipsis for x in key):
            i = [j for j, x in enumerate(key) if x is Ellipsis][0]
            key[i:i + 1] = [slice(None)]*(len(self.dims) + 1 - (len(key) - 1))
        if len(key) > len(self.dims) + 1:
            raise IndexError("too many indices for array")
        key += [slice(None)]*(len(self.dims) + 1 - len(key))
        if key[-1] != slice(None):
            raise Unsupported("index of the columns")
        dims, fixed = [], dict(self.fixed)
        for d, k in zip(self.dims, key):
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("slice with a step")
                t = rt.SymSeq(d[2], lambda i: i, list).slice(k) if isinstance(d[2], SInt) or isinstance(k.start, SInt) or isinstance(k.stop, SInt) else None
                if t is None:
                    lo, hi, _ = k.indices(d[2])
                    dims.append((d[0], d[1] + lo, max(0, hi - lo)))
                else:
                    dims.append((d[0], d[1] + t.at(0), t.length))
            elif isinstance(k, (int, SInt)) and not isinstance(k, bool):
                if isinstance(k, int) and k < 0:
                    k = d[2] + k
                if not ctx().branch(zb(And(zint(k) >= 0, zint(k) < zint(d[2])))):
                    raise IndexError("index out of bounds")
                fixed[d[0]] = d[1] + k
            else:
                raise Unsupported("index of a content array")
        return SLeaf(dims, self.fn, self.n, self.buf, fixed)
    def __setitem__(self, i, x): raise Unsupported("assignment to a content array")
    def op(self, *a): raise Unsupported("arithmetic on a content array")
    def vc_ufunc(self, *a): raise Unsupported("arithmetic on a content array")
    def at(self, q, tag, j):
        """column q at index j of the active axis"""
        if tag in self.fixed:
            return self.fn(q, zint(self.fixed[tag]))
        for t, off, size in self.dims:
            if t == tag:
                return self.fn(q, zint(off) + zint(j))
        raise Unsupported("dimension lost")

def is_one(x):
    return isinstance(x, int) and x == 1 or isinstance(x, SInt) and ctx().feasible(x.z != 1) == z3.unsat
def same_size(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().feasible(zint(a) != zint(b)) == z3.unsat

def colfn(name):
    fs = {}
    def fn(q, i):
        if q not in fs:
            fs[q] = z3.Function("{0}.col{1}".format(name, q), z3.IntSort(), z3.RealSort())
        return fs[q](z3.simplify(i))
    return fn
