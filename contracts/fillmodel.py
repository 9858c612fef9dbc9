"""Model of bin contents while filling: a content array seen at one generic cell, every column apart.

What a fill adds to a cell is kept as a list of contributions of the generic entry: (condition, value).  The cell's sum over all
entries is the sum of these over the entries of the data, so two fills agree if they agree at the generic entry."""
from common import *
from core import imulz

class Col(npf.ndarray):
    def __init__(self, leaf, col):
        self.leaf, self.col = leaf, col
    def vc_addat(self, indices, values):
        c = ctx()
        leaf = self.leaf
        if not isinstance(indices, EArr):
            raise Unsupported("add.at with {0}".format(type(indices)))
        ix = indices
        if isinstance(values, EArr):
            npf.samebase(ix, values)
            v = values.v
        else:
            v = values
        g = And(*ix.guard)
        i = zint(ix.v)
        c.prove("flat index within the content", z3.Implies(zb(g), z3.And(i >= 0, i < leaf.ncells)), leaf.conc)
        leaf.contrib.setdefault(self.col, []).append((zb(And(g, leaf.at(i))), v))
        leaf.version += 1
    def __iadd__(self, x):
        leaf = self.leaf
        x = plain(x)
        if isinstance(x, npf.SLen):
            # the number of entries is the sum of 1 over them
            leaf.contrib.setdefault(self.col, []).append((zb(And(*x.guard)), 1))
            leaf.version += 1
            return self
        if isinstance(x, (int, float)) and not leaf.dims and leaf.nofields:
            # no field at all: the fill counts one entry
            leaf.contrib.setdefault(self.col, []).append((z3.BoolVal(True), x))
            leaf.version += 1
            return self
        raise Unsupported("in-place addition to a content column")

class Flat(npf.ndarray):
    def __init__(self, leaf):
        self.leaf = leaf
    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and isinstance(i[1], int):
            n = self.leaf.shape[-1]
            return Col(self.leaf, i[1] if i[1] >= 0 else n + i[1])
        raise Unsupported("index of flattened content")
    def __setitem__(self, i, x):
        if isinstance(x, Col) and x.leaf is self.leaf:
            return            # content[:, k] += ...
        raise Unsupported("assignment to flattened content")

class FillLeaf(npf.ndarray):
    def __init__(self, shape, cell, dims, prior, conc=None):
        self.shape, self.cell, self.dims, self.prior, self.conc = shape, cell, dims, prior, conc
        self.contrib = {}
        self.version = 0
        self.nofields = False
        n = z3.IntVal(1)
        for d in dims:
            n = imulz(n, zint(d)) if not (z3.is_int_value(n) and n.as_long() == 1) else zint(d)
        self.ncells = n
    def at(self, i):
        """flat index i addresses the generic cell"""
        if not self.dims:
            return i == 0
        f = zint(self.cell[0])
        for d, x in zip(self.dims[1:], self.cell[1:]):
            f = imulz(f, zint(d)) + zint(x)
        return i == f
    def reshape(self, shape):
        if tuple(shape)[0] == -1 and len(shape) == 2 and shape[1] == self.shape[-1]:
            return Flat(self)
        raise Unsupported("reshape")
    def total(self, col):
        """what the generic entry has added to this column of the cell"""
        out = None
        for cond, v in self.contrib.get(col, []):
            t = ite(mkbool(cond), tofloat(v), tofloat(0.0))
            out = t if out is None else fadd(out, t)
        return out if out is not None else tofloat(0.0)
    def copy(self):
        out = FillLeaf(self.shape, self.cell, self.dims, self.prior, self.conc)
        out.contrib = dict((k, list(v)) for k, v in self.contrib.items())
        return out

class GroupKeys(rt.SymIter):
    """the distinct keys of one group axis in this fill, seen at the generic key (present or not, at position idx)"""
    def __init__(self, key, present, idx, n):
        self.key, self.present, self.idx, self.n = key, present, idx, n
    def vc_len(self):
        return self.n
    def vc_enumerate(self, start=0):
        return GroupEnum(self, start)
    def loop(self, L):
        L.parametric(self.key)
        if ctx().branch(self.present):
            yield self.key
    def vc_tolist(self, cls):
        return self
class GroupEnum(rt.SymIter):
    def __init__(self, g, start):
        self.g, self.start = g, start
    def loop(self, L):
        L.parametric(self.g.key)
        if ctx().branch(self.g.present):
            yield (self.start + self.g.idx, self.g.key)

def lemma_range(c, i, n, m):
    """proved in unit 'lemmas': 0 <= i < n, m >= 1  ==>  0 <= i*m <= (n-1)*m = n*m - m"""
    c.assume(z3.Implies(z3.And(0 <= i, i < n, m >= 1), z3.And(0 <= imulz(i, m), imulz(i, m) <= imulz(n, m) - m)))
def lemma_radix(c, a, b, x, y, m):
    """proved in unit 'lemmas': 0 <= x, y < m  ==>  (a*m + x == b*m + y  <==>  a == b and x == y)"""
    c.assume(z3.Implies(z3.And(0 <= x, x < m, 0 <= y, y < m), (imulz(a, m) + x == imulz(b, m) + y) == z3.And(a == b, x == y)))
def lemma_grow(c, n, m):
    """proved in unit 'lemmas': n, m >= 1  ==>  n <= n*m"""
    c.assume(z3.Implies(z3.And(n >= 1, m >= 1), n <= imulz(n, m)))
def lemmas(c):
    i, n, m, a, b, x, y = z3.Ints("i n m a b x y")
    c.prove("lemma: product range", z3.Implies(z3.And(0 <= i, i < n, m >= 1), z3.And(0 <= i*m, i*m <= n*m - m)))
    c.prove("lemma: a product is not smaller", z3.Implies(z3.And(n >= 1, m >= 1), n <= n*m))
    d = z3.Int("d")
    # a - b = d; the cases d >= 1, d <= -1 bound |d*m| from below by m
    for s in (1, -1):
        c.prove("lemma: multiple is at least m", z3.Implies(z3.And(m >= 1, s*d >= 1), s*d*m >= m))
    dm = z3.Int("dm")
    c.prove("lemma: mixed radix is unique", z3.Implies(z3.And(0 <= x, x < m, 0 <= y, y < m, dm == d*m, z3.Implies(d >= 1, dm >= m), z3.Implies(d <= -1, -dm >= m), z3.Implies(d == 0, dm == 0)),
                                                   (dm + x == y) == z3.And(d == 0, x == y)))
