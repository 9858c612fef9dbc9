"""C15: rebinning.

  split._rebinsplit   (any number of old edges E, any subset N(k) = E(p(k)) of them, any options, any contents, other axes and groups)
      loop invariants   at the k-th new edge the integers of the loop are p(k) + c or k + c for constants c, found at the loop's entry and
                        shown to be kept; the k-th pass writes one new cell, the sum of a run of old cells with bounds of that form
      ensures           a new cell is the sum of a run of old cells; for every data value x that the old axis counts at i and every new cell j:
                        i is in the run of j  iff  the new axis counts x at j
                        options, other axes, groups and columns as before; the source is unchanged and shares nothing with the result
      refuses           ValueError if some new edge is not an old one
  bin.split, intbin.bin   ensures   the same bins: every value is counted at the same index by either axis
  bin/intbin._rebinsplit  ensures   that of split._rebinsplit on split()
  _rebinfactor            ensures   that of _rebinsplit at every factor-th edge and the last
  groupbin._rebinfactor   ensures   a group of the result at interval [o + m*f*w, o + (m + 1)*f*w) exists iff one of the source's in it does
                                    and is the sum of those; NaN and infinite keys keep their groups
"""
from slices import *
from c_c14 import kernel, make_axis, one, below, place
from fractions import Fraction

ASSUMPTIONS = ["float64 arithmetic is treated as exact real arithmetic extended with infinities and NaN",
               "numpy.sum(a[lo:hi], axis) is the sum of the elements lo <= i < hi; slices follow Python's slice arithmetic"]
BOUNDS = ["the histogram has the rebinned axis and a listed choice of others; numbers of bins and edges, factors, options and contents are unbounded"]

def units(hb, tier):
    fs = ["proj.Projectable.rebin", "axis.split._rebinsplit", "calc.histbook_split", "axis.split.*"]
    for flags in range(16):
        u, o, na, cl = [bool(flags & b) for b in (1, 2, 4, 8)]
        yield ("rebin split axis{0}{1}{2}{3}".format(", underflow" if u else "", ", overflow" if o else "", ", nanflow" if na else "", ", closed low" if cl else ""),
               (lambda f, memo: (lambda c: rebinsplit(hb, c, f, memo)))((u, o, na, cl), {}), fs, None)
    yield ("rebin at edges that are not there", lambda c: refused(hb, c), fs, None)
    for u in (True, False):
        for cl in (True, False):
            yield ("bin.split keeps the bins, {0} underflow, closed {1}".format("with" if u else "without", "low" if cl else "high"), (lambda u, cl: (lambda c: binsplit(hb, c, u, cl)))(u, cl), ["axis.bin.split", "calc.histbook_bin", "calc.histbook_split"], None)
    yield ("intbin.bin keeps the bins", lambda c: intbinbin(hb, c), ["axis.intbin.bin", "calc.histbook_bin", "calc.histbook_intbin"], None)
    for kind in ("bin", "intbin"):
        yield ("rebin {0} axis as its split".format(kind), (lambda kind: (lambda c: delegate(hb, c, kind)))(kind), ["proj.Projectable.rebin", "axis.{0}._rebinsplit".format(kind)], None)
    for kind in ("bin", "split", "intbin"):
        yield ("rebin {0} axis by a factor".format(kind), (lambda kind: (lambda c: factor(hb, c, kind)))(kind), ["proj.Projectable.rebinby", "axis.{0}._rebinfactor".format(kind)], None)
    for where in range(3):
        yield ("rebin groupbin axis by a factor, {0}".format(["alone", "below a group axis", "above a group axis"][where]), (lambda where: (lambda c: groupbin(hb, c, where)))(where), ["proj.Projectable.rebinby", "axis.groupbin._rebinfactor"], None)
    yield ("axis to rebin", lambda c: lookup(hb, c), ["proj.Projectable.rebin", "proj.Projectable.rebinby"], None)

# ------------------------------------------------------------------ arrays

class Run(object):
    """the sum of old cells lo <= i < hi along the axis, for every column and bin of the other axes"""
    def __init__(self, lo, hi, dims, n):
        self.lo, self.hi, self.dims, self.n = lo, hi, dims, n
    @property
    def shape(self): return tuple(d[2] for d in self.dims) + (self.n,)
    def copy(self): return self

class NLeaf(Leaf):
    """the new contents: what was written to which index of the axis"""
    def __init__(self, W, shape, zero):
        Leaf.__init__(self, shape, [None]*shape[-1])
        self.W, self.zero, self.writes = W, zero, []
    def __setitem__(self, key, v):
        W = self.W
        key = list(key) if isinstance(key, (tuple, list)) else [key]
        if any(k is Ellipsis for k in key):
            i = [j for j, x in enumerate(key) if x is Ellipsis][0]
            key[i:i + 1] = [slice(None)]*(len(self.shape_) - (len(key) - 1))
        key += [slice(None)]*(len(self.shape_) - len(key))
        at = [i for i, k in enumerate(key) if not (isinstance(k, slice) and k == slice(None))]
        if len(at) != 1 or not isint(key[at[0]]):
            raise Unsupported("index of the new contents")
        if not isinstance(v, Run) and not (isinstance(v, SLeaf) and W.tag in v.fixed):
            raise Unsupported("value of the new contents")
        i = key[at[0]]
        n = self.shape_[at[0]]
        if isinstance(i, int) and i < 0:
            i = n + i
        if not ctx().branch(zb(And(zint(i) >= 0, zint(i) < zint(n)))):
            raise IndexError("index out of bounds")
        rest = [(t, s) for j, (t, s) in enumerate(zip(W.tags, self.shape_[:-1])) if j != at[0]]
        if at[0] != W.at or [d[0] for d in v.dims] != [t for t, s in rest] or any(not same_size(d[2], s) or zint(d[1]) is None for d, (t, s) in zip(v.dims, rest)):
            W.c.prove("merged along the rebinned axis only", False)
            raise PathEnd()
        lo, hi = (v.lo, v.hi) if isinstance(v, Run) else (v.fixed[W.tag], v.fixed[W.tag] + 1)
        self.writes.append(("cell", zint(i), zint(lo), zint(hi)))
        self.version += 1
    def __getitem__(self, key): raise Unsupported("reading the new contents")
    def copy(self, *a):
        out = NLeaf(self.W, self.shape_, self.zero)
        out.writes = list(self.writes)
        return out
    def run(self, j):
        """bounds of the run at new index j"""
        if self.zero:
            lo, hi = z3.IntVal(0), z3.IntVal(0)
        else:
            lo, hi = z3.Int(self.W.c.name("unset")), z3.Int(self.W.c.name("unset"))
        for w in self.writes:
            if w[0] == "cell":
                hit, a, b = j == w[1], w[2], w[3]
            else:
                first, count, fa, fb = w[1:]
                k = z3.simplify(j - first)
                hit, a, b = z3.And(0 <= k, k < count), fa(k), fb(k)
            lo, hi = z3.If(hit, a, lo), z3.If(hit, b, hi)
        return lo, hi

class World(object):
    def __init__(self, c, memo):
        self.c, self.memo = c, memo
        n, m = self.n, self.m = fresh_int("old edges", 1, 2**31 - 4), fresh_int("new edges", 1)
        E = self.E = IdxFn("E", binary=[lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n.z), E.f(i) < E.f(j))])
        p = self.p = IdxFn("p", sort=z3.IntSort(), unary=[lambda k: z3.Implies(z3.And(0 <= k, k < m.z), z3.And(0 <= p.f(k), p.f(k) < n.z, p.f(k) >= k, n.z - p.f(k) >= m.z - k))],
                           binary=[lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < m.z), p.f(j) - p.f(i) >= j - i)])
        c.assume(m.z <= n.z)
        self.old = rt.SymSeq(n, lambda q: SFloat(E(q)), tuple)
        self.old.idx, self.old.increasing = E, "strictly"
        self.new = NewEdges(self, m, 0)
    def N(self, k):
        return SFloat(self.E(self.p(k)))

class NewEdges(rt.SymSeq):
    """edges k0 <= k of the new axis"""
    def __init__(self, W, length, k0, cls=list):
        rt.SymSeq.__init__(self, length, lambda i: W.N(zint(i) + zint(k0)), cls)
        self.W, self.k0, self.increasing, self.idx, self.idxoff = W, k0, "strictly", W.p, k0
    def slice(self, s):
        out = rt.SymSeq.slice(self, s)
        if s.step in (None, 1):
            lo = z3.simplify(zint(out.at_offset)) if hasattr(out, "at_offset") else None
            start = s.start if s.start is not None else 0
            if isinstance(start, int) and start >= 0 and s.stop is None:
                r = NewEdges(self.W, out.length, self.k0 + start, self.cls)
                # a start beyond the end: the slice is empty
                return r
        return out
    def comp(self, kind, f):
        out = rt.SymSeq.comp(self, kind, f)
        if getattr(out, "increasing", False):
            return NewEdges(self.W, self.length, self.k0, list)
        return out
    def vc_sorted(self, **k): return self.as_cls(list)
    def as_cls(self, cls):
        return NewEdges(self.W, self.length, self.k0, cls)
    def looprule(self, L):
        return EdgeLoop(self, L)

class EdgeLoop(object):
    """for edge in new edges: integers keep their distance from p(k) or from k; one cell is written per pass"""
    def __init__(self, seq, L):
        self.seq, self.W, self.L = seq, seq.W, L
        self.forms, self.k = {}, None
        self.zero = not ctx().branch(zint(seq.length) > 0)
        if not self.zero:
            self.k = fresh_int("pass", 0)
            ctx().assume(self.k.z < zint(seq.length))
        self.k0 = zint(seq.k0) - 1        # forms are relative to the edge before
    def form(self, v, k, shift=(0,)):
        """(base, c) such that v == base(k) + c"""
        c = ctx()
        for what in ("p", "k"):
            for s in shift:
                for d in (0, 1, -1, 2, -2):
                    if c.feasible(zint(v) != self.at((what, s, d), k)) == z3.unsat:
                        return (what, s, d)
        raise Unsupported("no invariant for the loop {0}".format(self.L.key))
    def at(self, f, k):
        what, s, d = f
        return (self.W.p(z3.simplify(k + self.k0 + s)) if what == "p" else k + s) + d
    def enter(self, L, n, v, loc):
        if self.zero or not isint(v):
            return v
        self.forms[n] = self.form(v, z3.IntVal(0))
        return SInt(z3.simplify(self.at(self.forms[n], self.k.z)))
    def leaves(self, loc):
        return [(n, x) for n, x in sorted(loc.items()) if isinstance(x, NLeaf)]
    def run(self, L, loc):
        if self.zero:
            return
        before = [(n, x, len(x.writes)) for n, x in self.leaves(loc())]
        yield self.seq.at(self.k)
        now = loc()
        c = ctx()
        for n, f in self.forms.items():
            if not isint(now[n]) or c.feasible(zint(now[n]) != self.at(f, self.k.z + 1)) != z3.unsat:
                raise Unsupported("invariant of the loop {0} is not kept by {1}".format(L.key, n))
        found = []
        for n, x, k in before:
            for w in x.writes[k:]:
                if w[0] != "cell":
                    raise Unsupported("nested writes")
                i = self.form(SInt(w[1]), self.k.z)
                if i[0] != "k":
                    raise Unsupported("cells written")
                found.append((n, i, self.form(SInt(w[2]), self.k.z, (0, 1)), self.form(SInt(w[3]), self.k.z, (1, 0))))
        if len(found) > 1:
            raise Unsupported("several cells written per pass")
        memo = self.W.memo
        key = (L.key, tuple(sorted(self.forms.items())))
        if memo.setdefault(key, found) != found:
            raise Unsupported("passes of the loop differ")
        for n, x, k in before:
            mine = [f for f in found if f[0] == n]
            del x.writes[k:]
            for _, i, a, b in mine:
                x.writes.append(("family", z3.IntVal(i[1] + i[2]), zint(self.seq.length), (lambda a: (lambda q: self.at(a, q)))(a), (lambda b: (lambda q: self.at(b, q)))(b)))
    def exit(self, L, n, loc):
        if self.zero:
            return loc.get(n)
        if n in self.forms:
            return SInt(z3.simplify(self.at(self.forms[n], zint(self.seq.length))))
        return rt.Poison(n)

def hooks(W):
    install([])
    def make(zero):
        def f(s, dtype=None, **k):
            s = tuple(s) if isinstance(s, (tuple, list)) else (s,)
            if len(s) == len(W.tags) + 1:
                return NLeaf(W, s, zero)
            return NotImplemented
        return f
    npf.HOOKS["zeros"] = [make(True)]
    npf.HOOKS["empty"] = [make(False)]
    def nsum(x, axis=None, **k):
        if not isinstance(x, SLeaf):
            return NotImplemented
        return total(x, axis)
    npf.HOOKS["sum"] = [nsum]
def total(x, axis):
    if not isinstance(axis, int) or not 0 <= axis < len(x.dims):
        raise Unsupported("sum over an axis")
    d = x.dims[axis]
    return Run(d[1], d[1] + d[2], [e for i, e in enumerate(x.dims) if i != axis], x.n)
SLeaf.sum = lambda self, axis=None, **k: total(self, axis)
SLeaf.dtype = "float64"
for _n in ("empty", "sum"):
    if not hasattr(npf.F, "_vcdef_" + _n) and not (_n in npf.F.__dict__):
        def _f(_n):
            @npf.define(_n)
            def g(*a, **k):
                raise Unsupported("numpy." + _n)
            setattr(npf.F, "_vcdef_" + _n, True)
        _f(_n)

def make_hist(hb, c, ax, where):
    """a histogram with the axis among others; its contents; the position"""
    A = hb.axis
    axes = [[ax], [A.bin("u", 3, 0, 1), ax, A.cut("v")], [A.groupby("g"), ax, A.cut("v")], [A.groupby("g"), A.groupbin("k", 0.5), A.cut("v"), ax]][where]
    h = must_return(c, "construct", hb.hist.Hist, *(axes + [A.profile("y")]), weight="w", filter="q > 0", defs={"d": "e + 1"})
    at = [i for i, a in enumerate(h._fixed) if a._expr == "x"][0]
    src = SLeaf([(i, 0, s) for i, s in enumerate(h._shape[:-1])], colfn("content"), h._shape[-1])
    node, keys, has = src, [], []
    for i in reversed(range(len(h._group))):
        keys.insert(0, NameKey("key{0}".format(i)))
        has.insert(0, z3.Bool("has{0}".format(i)))
        node = rt.SymDict(keys[0], has[0], node)
    h._content = node
    return h, at, src, keys, has

def walk(c, node, keys, has):
    for k, b in zip(keys, has):
        node = below(c, node, k, b)
        if node is None:
            return None
    return node

def same_rest(c, hb, h, out, at):
    c.prove("other axes and options as before", isinstance(out, hb.hist.Hist) and out._group == h._group and out._profile == h._profile and len(out._fixed) == len(h._fixed) and all(i == at or out._fixed[i] == h._fixed[i] for i in range(len(h._fixed)))
            and out._weightoriginal == h._weightoriginal and out._filteroriginal == h._filteroriginal and out._defs == h._defs and out._attachment == h._attachment and right_layout(out) and out._fixed[at]._expr == h._fixed[at]._expr)
    c.prove("nothing is shared with the source", out._defs is not h._defs and out._attachment is not h._attachment)

def rebinsplit(hb, c, flags, memo):
    rt.SYMHASH[0] = True
    u, o, na, cl = flags
    W = World(c, memo)
    c.assume(z3.Or(W.m.z > 1, z3.BoolVal(u or o or na)))
    ax = must_return(c, "construct", hb.axis.split, "x", W.old, u, o, na, cl)
    where = c.choose(4, "position")
    h, at, src, keys, has = make_hist(hb, c, ax, where)
    ax = h._fixed[at]
    W.tags, W.tag, W.at = list(range(len(h._fixed))), at, at
    hooks(W)
    rt.SCAN[0] = [W.E]
    unfilled = where == 0 and c.choose(2, "unfilled") == 1
    content = h._content
    if unfilled:
        h._content = content = None
    t = state(h)
    out = must_return(c, "rebin", h.rebin, "x", W.new)
    c.prove("source is unchanged", h._content is content and src.version == 0 and samestate(h, t))
    same_rest(c, hb, h, out, at)
    new = out._fixed[at]
    c.prove("same options", type(new) is hb.axis.split and (new._underflow, new._overflow, new._nanflow, new._closedlow) == flags)
    k = fresh_int("edge", 0)
    c.prove("the given edges", z3.And(zint(new._edges.length) == W.m.z, z3.Implies(k.z < W.m.z, zb(same(tofloat(new._edges.at(k)), W.N(k.z))))))
    if unfilled:
        c.prove("unfilled stays unfilled", out._content is None)
        return
    c.prove("nothing is shared with the source", not any(i in reach(content) for i in reach(out._content)))
    leaf = walk(c, out._content, keys, has)
    if leaf is None:
        return
    c.prove("contents are an array of all axes", isinstance(leaf, NLeaf) and len(leaf.shape_) == len(h._shape))
    c.prove("as many bins as the axis", z3.And([zint(a) == zint(b) for a, b in zip(leaf.shape_, out._shape)] + [zint(out._shape[at]) == zint(new.totbins)]))
    x = any_float("value")
    m0, i = kernel(hb, ax, x, "split")
    c.require(z3.Not(m0))
    m1, j = kernel(hb, new, x, "split")
    j2 = fresh_int("cell", 0)
    c.assume(j2.z < zint(leaf.shape_[at]))
    lo, hi = leaf.run(j2.z)
    lo2, hi2 = leaf.run(zint(j))
    c.prove("a value's entries go to its new bin", z3.Implies(z3.Not(m1), z3.And(lo2 <= zint(i), zint(i) < hi2)))
    c.prove("and to no other", z3.Implies(z3.Or(m1, zint(j) != j2.z), z3.Not(z3.And(lo <= zint(i), zint(i) < hi))))
    c.prove("sums are over bins of the axis", z3.And(0 <= lo, lo <= hi, hi <= zint(h._shape[at])))

def refused(hb, c):
    rt.SYMHASH[0] = True
    W = World(c, {})
    cl = c.choose(2) == 1
    ax = must_return(c, "construct", hb.axis.split, "x", W.old, True, True, True, cl)
    h, at, src, keys, has = make_hist(hb, c, ax, c.choose(2)*2)
    W.tags, W.tag, W.at = list(range(len(h._fixed))), at, at
    hooks(W)
    rt.SCAN[0] = [W.E]
    bad = fresh_int("bad", 0)
    c.assume(bad.z < W.m.z)
    G = IdxFn("given", binary=[lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < W.m.z), G.f(i) < G.f(j))])
    given = rt.SymSeq(W.m, lambda q: SFloat(G(q)), list)
    given.idx, given.increasing, given.generic = G, "strictly", bad
    v = G(bad.z)
    W.E.add_unary(lambda q: z3.Implies(z3.And(0 <= q, q < W.n.z), W.E.f(q) != v))
    t, content = state(h), h._content
    if c.choose(2, "unfilled"):
        h._content = content = None
    st, out = call(lambda: h.rebin("x", given))
    c.prove("refused with ValueError", st == "raised" and isinstance(out, ValueError), why=repr(out))
    c.prove("source is unchanged", h._content is content and src.version == 0 and samestate(h, t))

# ------------------------------------------------------------------ the other kinds, by way of split

def binsplit(hb, c, hasu, hascl):
    rt.SYMHASH[0] = True
    ax, x, thr, par = make_axis(hb, c, "bin")
    c.require(z3.And(zb(asbool(ax._underflow)) == hasu, zb(asbool(ax._closedlow)) == hascl))
    n, low, w = par["n"], par["low"], par["width"]
    ax._original, ax._parsed = "original", hb.expr.Name("parsed")
    seen = []
    def init(f, args, kwargs):
        import inspect
        b = inspect.signature(f).bind(*args, **kwargs)
        b.apply_defaults()
        e = b.arguments["edges"]
        if seen or not isinstance(e, (rt.SymSeq, list, tuple)):
            raise Unsupported("edges")
        seen.append(e)
        k = fresh_int("edge", 0)
        if isinstance(e, rt.SymSeq):
            c.prove("bin.split: edges of the bins", z3.And(zint(e.length) == zint(n) + 1))
            c.assume(k.z <= zint(n))
            v = tofloat(e.at(k))
            c.prove("bin.split: edges of the bins", zb(same(v, tofloat(low + w*k))))
        else:
            c.prove("bin.split: edges of the bins", len(e) == 1 and zint(n) == 0 and zb(same(tofloat(e[0]), tofloat(low))))
        r = rt.MarkedSeq(n + 1, lambda q: low + w*q, tuple)
        r.increasing = "strictly"
        b.arguments["edges"] = r
        rt.SUMMARIES.clear()
        return f(*b.args, **b.kwargs)
    rt.SUMMARIES["axis.split.__init__"] = init
    S = must_return(c, "split", ax.split)
    rt.SUMMARIES.clear()
    if not seen:
        raise Unsupported("split axis is not made by its constructor")
    c.prove("a split axis with the same names", type(S) is hb.axis.split and S._expr == ax._expr and S._original == ax._original and S._parsed == ax._parsed)
    c.prove("same number of bins", zint(S.totbins) == zint(ax.totbins))
    finite = x.fin() is True
    if finite:
        y = nf(((x - low)/w).r)
    if finite:
        # both counts put the value in the bin around it: cut over that
        cl = zb(asbool(ax._closedlow))
        for b in (cl, zb(asbool(ax._underflow)), zb(asbool(ax._overflow)), zb(asbool(ax._nanflow))):
            c.branch(b)
        u, o, nz = one(ax._underflow), one(ax._overflow), z3.ToReal(zint(n))
        below, above = z3.If(cl, y < 0, y <= 0), z3.If(cl, y >= nz, y > nz)
        case = 0 if c.branch(below) else (2 if c.branch(above) else 1)
        def around(k):
            b = z3.ToReal(k)
            return [k == -1, z3.If(cl, z3.And(b <= y, y < b + 1), z3.And(b < y, y <= b + 1)), k == zint(n)][case]
        counted = [u == 1, z3.BoolVal(True), o == 1][case]
        for axis, kind in ((S, "split"), (ax, "bin")):
            m, k = kernel(hb, axis, x, kind)
            c.prove("{0}: counted iff there is a bin".format(kind), z3.Not(m) == counted)
            c.require(counted)
            c.prove("{0}: the bin around the value".format(kind), around(zint(k) - u))
        I, J = fresh_int("bin"), fresh_int("bin")
        c.prove("at the same bin", z3.Implies(z3.And(around(I.z), around(J.z)), I.z == J.z))
        return
    m0, i = kernel(hb, ax, x, "bin")
    m1, j = kernel(hb, S, x, "split")
    c.prove("a value is counted by both or by neither", m0 == m1)
    c.require(z3.Not(m0))
    c.prove("at the same bin", zint(i) == zint(j))

def intbinbin(hb, c):
    rt.SYMHASH[0] = True
    ax, x, thr, par = make_axis(hb, c, "intbin")
    ax._original, ax._parsed = "original", hb.expr.Name("parsed")
    B = must_return(c, "bin", ax.bin)
    c.prove("a bin axis with the same names", type(B) is hb.axis.bin and B._expr == ax._expr and B._original == ax._original and B._parsed == ax._parsed)
    c.prove("same number of bins", zint(B.totbins) == zint(ax.totbins))
    lo, hi = par["lo"], par["hi"]
    k = fresh_int("bins", 1)
    c.prove("a bin for every integer", z3.And(zint(B._numbins) == hi.z - lo.z + 1, zb(same(tofloat(B._low), tofloat(lo - 0.5))), zb(same(tofloat(B._high), tofloat(hi + 0.5)))))
    c.assume(k.z == hi.z - lo.z + 1)
    declare_positive(c, z3.ToReal(k.z))
    B2 = B.__class__.__new__(B.__class__)
    B2.__dict__.update(B.__dict__)
    B2._numbins, B2._low, B2._high = k, lo - 0.5, lo + k - 0.5
    m0, i = kernel(hb, ax, x, "intbin")
    m1, j = kernel(hb, B2, x, "intbin")
    c.prove("a value is counted by both or by neither", m0 == m1)
    c.require(z3.Not(m0))
    c.prove("at the same bin", zint(i) == zint(j))

class Marker(object):
    """stands for contents that are passed on"""
    def copy(self): raise Unsupported("copy of contents that are passed on")

def setup(hb, c, kind):
    rt.SYMHASH[0] = True
    if kind == "split":
        W = World(c, {})
        ax = must_return(c, "construct", hb.axis.split, "x", W.old, c.choose(2) == 1, True, True, True)
        par = dict(n=W.n, E=W.E)
    else:
        ax, x, thr, par = make_axis(hb, c, kind, False)
    h, at, src, keys, has = make_hist(hb, c, ax, c.choose(3))
    return h, at, h._fixed[at], par, src

def captured(hb, calls, qual, result):
    def f(orig, args, kwargs):
        import inspect
        b = inspect.signature(orig).bind(*args, **kwargs)
        b.apply_defaults()
        calls.append(dict(b.arguments))
        return result
    rt.SUMMARIES[qual] = f

def passed_on(c, hb, h, at, out, calls, newaxis, newcontent, src):
    same_rest(c, hb, h, out, at)
    c.prove("the result of merging is the new axis", out._fixed[at] == newaxis)
    c.prove("the result of merging is the new contents", out._content is newcontent)
    c.prove("all contents are merged, along the axis", calls["content"] is h._content and src.version == 0 and zint(calls["index"]) == at)

def delegate(hb, c, kind):
    h, at, ax, par, src = setup(hb, c, kind)
    install([])
    edges = Marker()
    S = hb.axis.split("x", (1, 2, 3)) if kind == "bin" else hb.axis.bin("x", 3, 0, 1)
    newaxis, newcontent = hb.axis.split("x", (1, 3)), Marker()
    calls, made = [], []
    def conv(orig, args, kwargs):
        made.append(args[0])
        return S
    rt.SUMMARIES["axis.{0}.{1}".format(kind, "split" if kind == "bin" else "bin")] = conv
    captured(hb, calls, "axis.{0}._rebinsplit".format("split" if kind == "bin" else "bin"), (newaxis, newcontent))
    t = state(h)
    out = must_return(c, "rebin", h.rebin, "x", edges)
    if len(calls) != 1 or len(made) != 1:
        raise Unsupported("rebinning is not delegated")
    c.prove("rebins the same bins at the given edges", made[0] is ax and calls[0]["self"] is S and calls[0]["edges"] is edges)
    passed_on(c, hb, h, at, out, calls[0], newaxis, newcontent, src)
    c.prove("source is unchanged", samestate(h, t))

def factor(hb, c, kind):
    h, at, ax, par, src = setup(hb, c, kind)
    install([])
    f = fresh_int("factor", 1, 2**31)
    newaxis, newcontent = hb.axis.split("x", (1, 3)), Marker()
    calls = []
    t = state(h)
    if kind == "intbin":
        B, made = hb.axis.bin("x", 3, 0, 1), []
        def conv(orig, args, kwargs):
            made.append(args[0])
            return B
        rt.SUMMARIES["axis.intbin.bin"] = conv
        captured(hb, calls, "axis.bin._rebinfactor", (newaxis, newcontent))
    else:
        declare_positive(c, z3.ToReal(f.z))
        captured(hb, calls, "axis.{0}._rebinsplit".format(kind), (newaxis, newcontent))
    out = must_return(c, "rebinby", h.rebinby, "x", f)
    if len(calls) != 1:
        raise Unsupported("rebinning is not delegated")
    a = calls[0]
    passed_on(c, hb, h, at, out, a, newaxis, newcontent, src)
    c.prove("source is unchanged", samestate(h, t))
    if kind == "intbin":
        if len(made) != 1:
            raise Unsupported("rebinning is not delegated")
        c.prove("rebins the same bins by the factor", made[0] is ax and a["self"] is B and a["factor"] is f)
        return
    e = a["edges"]
    if not isinstance(e, (rt.SymSeq, list, tuple)):
        raise Unsupported("edges")
    c.prove("rebins the axis", a["self"] is ax)
    edge = (lambda q: tofloat(par["low"] + par["width"]*q)) if kind == "bin" else (lambda q: SFloat(par["E"](zint(q))))
    last = par["n"] if kind == "bin" else par["n"] - 1       # number of bins = index of the last edge
    length = rt.rt_len(e)
    # every factor-th edge, then the last: (length - 2)*factor < last <= (length - 1)*factor
    L = zint(length)
    fz = f.z
    c.prove("as many edges as multiples of the factor, and the last", z3.If(zint(last) == 0, L == 1, z3.And(L >= 2, (L - 2)*fz < zint(last), zint(last) <= (L - 1)*fz)))
    k = fresh_int("edge", 0)
    if c.branch(k.z < L - 1):
        v = tofloat(e.at(k) if isinstance(e, rt.SymSeq) else rt.pick(e, k))
        c.prove("every factor-th edge", zb(same(v, edge(k*f))))
    v = tofloat(e[-1])
    c.prove("and the last edge", zb(same(v, edge(last))))

# ------------------------------------------------------------------ groups
class GroupWorld(object):
    """a dict of groups, its entries in some order, and the result seen at one generic key: whether a group is there and its contents.
    Induction over the entries:  after another entry, the group at the generic key is
        as before                          if the entry belongs to another key
        there, with the entry's contents   if it belongs to this key and was not there
        there, with the sum                if it belongs to this key and was there"""
    def __init__(self, c, kind, key, goes, belowkeys, shape):
        self.c, self.kind, self.key, self.goes, self.belowkeys, self.shape = c, kind, key, goes, belowkeys, shape
        self.loops = 0
    def is_generic(self, k):
        """is k the generic key?"""
        c = self.c
        if isinstance(k, str) or isinstance(self.key, str):
            return type(k) is str and type(self.key) is str and k == self.key
        if not isinstance(k, (int, float, SNum)):
            raise Unsupported("key of a group")
        return c.branch(zb(same(tofloat(k), tofloat(self.key))))
    def tree(self, name):
        """any contents of one group: (node, has, vals)"""
        vals = [fresh_float("{0}.col{1}".format(name, q)) for q in range(self.shape[-1])]
        node, has = Leaf(self.shape, vals), []
        for i in reversed(range(len(self.belowkeys))):
            b = z3.Bool(self.c.name("{0}.has{1}".format(name, i)))
            has.insert(0, b)
            node = rt.SymDict(self.belowkeys[i], b, node)
        return node, has, vals

class GSource(dict):
    def __init__(self, W):
        dict.__init__(self)
        self.W = W
    def items(self): return GItems(self.W, lambda k, x: (k, x))
    def values(self): raise Unsupported("values of the groups")
    def keys(self): raise Unsupported("keys of the groups")
    def __iter__(self): raise Unsupported("iteration over the groups")
    def __len__(self): raise Unsupported("number of groups")
    def vc_len(self): raise Unsupported("number of groups")
    def __getitem__(self, k): raise Unsupported("group at a key")
    def __setitem__(self, k, v):
        self.W.c.prove("source is unchanged", False)
        raise PathEnd()
    def vc_in(self, k): raise Unsupported("group at a key")
    def __eq__(self, o): raise Unsupported("equality of a symbolic dict")
    __hash__ = object.__hash__

class GItems(rt.SymIter):
    def __init__(self, W, mk): self.W, self.mk = W, mk
    def looprule(self, L): return GLoop(self, L)
    def loop(self, L): raise Unsupported("loop over groups")
    def comp(self, kind, f): raise Unsupported("comprehension over groups")
    def results(self): raise Unsupported("all groups")

class GDict(dict):
    """a new dict, seen at the generic key"""
    def __init__(self, W):
        dict.__init__(self)
        self.W, self.hasz, self.val, self.others = W, False, None, []
        W.dicts.append(self)
    def at(self, k):
        """None: the generic key; otherwise a cell of another key (what a previous entry left there is arbitrary)"""
        if self.W.is_generic(k):
            return None
        for cell in self.others:
            if cell[0] is k:
                return cell
        if self.W.loops == 0:
            raise Unsupported("group of another key before the loop")
        node, has, vals = self.W.tree("other")
        cell = [k, z3.Bool(self.W.c.name("other.has")), node]
        self.others.append(cell)
        return cell
    def vc_in(self, k):
        cell = self.at(k)
        return rt.mkbool(self.hasz if cell is None else cell[1])
    def __contains__(self, k): raise Unsupported("in on a symbolic dict reached C code")
    def __getitem__(self, k):
        cell = self.at(k)
        if not self.W.c.branch(zb(self.hasz if cell is None else cell[1])):
            raise KeyError(k)
        return self.val if cell is None else cell[2]
    def get(self, k, default=None):
        cell = self.at(k)
        if not self.W.c.branch(zb(self.hasz if cell is None else cell[1])):
            return default
        return self.val if cell is None else cell[2]
    def setdefault(self, k, default=None):
        if not self.W.c.branch(zb(self.vc_in(k).z if hasattr(self.vc_in(k), "z") else self.vc_in(k))):
            self[k] = default
            return default
        return self[k]
    def __setitem__(self, k, v):
        cell = self.at(k)
        if cell is None:
            self.hasz, self.val = True, v
        else:
            cell[1], cell[2] = True, v
    def __len__(self): raise Unsupported("number of groups")
    def __iter__(self): raise Unsupported("iteration over the groups")
    def __eq__(self, o): raise Unsupported("equality of a symbolic dict")
    __hash__ = object.__hash__

class GLoop(object):
    def __init__(self, it, L):
        self.it, self.W = it, it.W
        if self.W.loops:
            raise Unsupported("several loops over the groups")
        if len(self.W.dicts) != 1:
            raise Unsupported("the dict of the result")
        self.generic = self.W.c.choose(2, "loop") == 1
    def enter(self, L, n, v, loc): return v
    def exit(self, L, n, loc): return rt.Poison(n)
    def run(self, L, loc):
        W, c = self.W, self.W.c
        d = W.dicts[0]
        W.loops += 1
        c.prove("the result starts without groups", z3.Not(zb(d.hasz)))
        has0 = z3.Bool(c.name("before.has"))
        node0, below0, vals0 = W.tree("before")
        if not self.generic:
            d.hasz, d.val = has0, node0
            W.final = (d, has0, below0, vals0)
            return
        d.hasz, d.val = has0, node0
        kind = c.choose(4, "kind of key")
        if kind == 0:
            idx = fresh_int("interval", -2**53, 2**53)
            k = W.oldkey(idx)
        else:
            idx, k = None, ["NaN", float("inf"), float("-inf")][kind - 1]
        x, has1, vals1 = W.tree("entry")
        snap = snapshot(x)
        yield self.it.mk(k, x)
        c.prove("source is unchanged", unchanged(x, snap))
        hit = W.goes(idx, k)
        was = c.branch(has0)
        goes = c.branch(zb(hit))
        if not goes:
            c.prove("an entry changes its own group only", z3.And(zb(d.hasz) == has0, z3.BoolVal(not was or (d.val is node0))))
            now = view(c, d.val, W.belowkeys) if was else None
            expect, evals = below0, vals0
        else:
            c.prove("the group of an entry is there", zb(d.hasz))
            c.prove("nothing is shared with the source", not any(i in reach(x) for i in reach(d.val)))
            now = view(c, d.val, W.belowkeys)
            expect = [z3.Or(z3.And(z3.BoolVal(was), *below0[:i + 1]), z3.And(has1[:i + 1])) for i in range(len(below0))]
            e0, e1 = z3.And(z3.BoolVal(was), *below0), z3.And(*has1) if has1 else z3.BoolVal(True)
            evals = [fite(e0, fite(e1, fadd(a, b), a), b) for a, b in zip(vals0, vals1)]
        if now is not None:
            for i, b in enumerate(now.has):
                c.prove("groups below", z3.Implies(zb(And(*now.has[:i])), zb(b) == (z3.And(expect[:i + 1]) if not goes else expect[i])))
            if now.vals is not None:
                for q, (a, b) in enumerate(zip(now.vals.vals, evals)):
                    c.prove("contents of merged groups are the sum", zb(same(tofloat(a), tofloat(b))))
        raise PathEnd()

def fite(b, x, y):
    from sym import ite
    return tofloat(ite(rt.mkbool(b), x, y)) if not (z3.is_true(z3.simplify(b)) or z3.is_false(z3.simplify(b))) else (x if z3.is_true(z3.simplify(b)) else y)

def groupbin(hb, c, where):
    rt.SYMHASH[0] = True
    A = hb.axis
    install([])
    w, origin = fresh_real("width"), fresh_real("origin")
    declare_positive(c, w.r)
    f = fresh_int("factor", 1, 2**31)
    declare_positive(c, z3.ToReal(f.z))
    na, cl = c.choose(2) == 1, c.choose(2) == 1
    ax = must_return(c, "construct", A.groupbin, "x", w, origin, na, cl)
    axes = [[ax, A.cut("v")], [A.groupby("g"), ax, A.cut("v")], [ax, A.groupby("g"), A.cut("v")]][where]
    h = must_return(c, "construct", hb.hist.Hist, *(axes + [A.profile("y")]), weight="w", filter="q > 0", defs={"d": "e + 1"})
    at = 1 if where == 1 else 0
    ax = h._group[at]
    kind = c.choose(4, "kind of the generic key")
    m = fresh_int("newinterval", -2**53, 2**53)
    key = (origin + w*f*m) if kind == 0 else ["NaN", float("inf"), float("-inf")][kind - 1]
    def goes(idx, k):
        """the interval m of the result covers the interval idx of the source:  m*f <= idx < (m + 1)*f"""
        if kind != 0 or idx is None:
            return (kind != 0 and idx is None and k == key)
        q = idx//f
        return q.z == m.z if hasattr(q, "z") else zint(q) == m.z
    other = NameKey("group")
    W = GroupWorld(c, kind, key, goes, [other] if where == 2 else [], h._shape)
    W.dicts, W.final = [], None
    W.oldkey = lambda idx: origin + w*idx
    src = GSource(W)
    top = z3.Bool("top")
    h._content = content = rt.SymDict(other, top, src) if where == 1 else src
    if c.choose(2, "unfilled") == 1:
        h._content = content = None
    t = state(h)
    def run(orig, args, kwargs):
        rt.EMPTYDICT[0] = lambda: GDict(W)
        try:
            return orig(*args, **kwargs)
        finally:
            rt.EMPTYDICT[0] = None
    rt.SUMMARIES["axis.groupbin._rebinfactor"] = run
    out = must_return(c, "rebinby", h.rebinby, "x", f)
    c.prove("source is unchanged", h._content is content and samestate(h, t))
    new = out._group[at] if len(out._group) > at else None
    c.prove("intervals of the new axis", type(new) is A.groupbin and new._expr == ax._expr and new._parsed == ax._parsed and getattr(new, "_original", None) == getattr(ax, "_original", None) and z3.And(zb(same(tofloat(new._binwidth), tofloat(w*f))), zb(same(tofloat(new._origin), tofloat(origin)))))
    c.prove("same options", bool(new._nanflow) == na and bool(new._closedlow) == cl)
    c.prove("other axes and options as before", len(out._group) == len(h._group) and all(i == at or out._group[i] == h._group[i] for i in range(len(h._group))) and out._fixed == h._fixed and out._profile == h._profile
            and out._weightoriginal == h._weightoriginal and out._filteroriginal == h._filteroriginal and out._defs == h._defs and out._attachment == h._attachment and right_layout(out))
    c.prove("nothing is shared with the source", out._defs is not h._defs and out._attachment is not h._attachment)
    if content is None:
        c.prove("unfilled stays unfilled", out._content is None)
        return
    node = out._content
    if where == 1:
        c.prove("nothing is shared with the source", node is not content)
        node = below(c, node, other, top)
        if node is None:
            return
    c.prove("groups are those of the merged intervals", W.final is not None and node is W.final[0])
    d, has, bel, vals = W.final
    c.prove("groups are those of the merged intervals", zb(d.hasz) == has)
    c.require(has)
    leaf = d.val
    if where == 2:
        leaf = below(c, leaf, other, bel[0])
        if leaf is None:
            return
    c.prove("contents are those of the merged intervals", isinstance(leaf, Leaf) and leaf.shape_ == h._shape and z3.And([zb(same(tofloat(a), tofloat(b))) for a, b in zip(leaf.vals, vals)]))

def lookup(hb, c):
    A = hb.axis
    install([])
    axes = [A.groupby("g"), A.groupbin("b", 1.0), A.bin("u", 4, 0, 4), A.cut("v"), A.split("x", (1, 2, 3)), A.intbin("z", 0, 3), A.profile("y")]
    h = must_return(c, "construct", hb.hist.Hist, *axes, weight="w")
    allaxis = h._group + h._fixed
    which = c.choose(6)
    ax = allaxis[which]
    how = c.choose(4)
    name = [ax, ax._expr, allaxis.index(ax), {"bin": lambda: A.bin(ax._expr, 4, 0, 4), "split": lambda: A.split(ax._expr, (1, 2, 3)), "intbin": lambda: A.intbin(ax._expr, 0, 3), "groupby": lambda: A.groupby(ax._expr), "groupbin": lambda: A.groupbin(ax._expr, 1.0), "cut": lambda: A.cut(ax._expr)}[type(ax).__name__]()][how]
    byfactor = c.choose(2) == 1
    ok = type(ax).__name__ in (("bin", "split", "intbin", "groupbin") if byfactor else ("bin", "split", "intbin"))
    calls = []
    newaxis, newcontent = {"groupbin": A.groupbin(ax._expr, 2.0)}.get(type(ax).__name__, A.split(ax._expr, (1, 3))), Marker()
    for kind in ("bin", "split", "intbin", "groupbin"):
        captured(hb, calls, "axis.{0}._rebin{1}".format(kind, "factor" if byfactor else "split"), (newaxis, newcontent))
    st, out = call(lambda: h.rebinby(name, 2) if byfactor else h.rebin(name, (1, 3)))
    if not ok:
        c.prove("an axis that cannot be rebinned is refused", st == "raised" and isinstance(out, (IndexError, ValueError, TypeError)) and not calls, why=repr(out))
        return
    c.prove("the axis is found", st != "raised" and len(calls) == 1 and calls[0]["self"] is ax and calls[0]["index"] == (which if which < len(h._group) else which - len(h._group)), why=repr(out))
    c.prove("and replaced", out._group + out._fixed == tuple(newaxis if a is ax else a for a in allaxis) and out._content is newcontent)
