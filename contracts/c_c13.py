"""C13: projection.

  Projectable.project    requires  contents are None or trees as deep as there are group axes, with any number of any keys at every level
                         ensures   the kept axes, in their order, and all profiles; every cell of every column is the sum over all groups and
                                   bins of the removed axes; a kept group exists iff it exists below some group of the removed axes;
                                   source unchanged, no array or dict shared with it
                         raises    IndexError for something that is not a binned axis of the histogram
  project.addall         (or whichever function recurs on the list of groups) returns the sum of the contents in the list; induction on its length

A removed group axis is a dict of n >= 0 groups, numbered 0..n-1; S(lo, hi) is the sum of the projected contents of the groups lo..hi-1, given
by S(i, i+1) = the i-th and S(a, c) = S(a, b) + S(b, c).  A content array is seen at one generic cell of the kept axes, summed over the removed
ones: adding up a removed axis leaves that number alone and takes the dimension away; adding up a kept axis gives some other number.
"""
from tree import *

ASSUMPTIONS = ["float64 addition is the addition of reals: rounding is ignored, contents are finite",
               "numpy.sum over a tuple of axes sums over exactly these and returns a new array, also for no axes",
               "a projection equals one fill of the kept axes: follows with C05, as each entry contributes to its own cell only, and entries outside of the removed axes are excluded by the statement"]
BOUNDS = ["up to 3 group axes, 3 fixed axes, 2 profiles in a listed choice of combinations, with every subset of them kept; keys, numbers of groups, numbers of bins and contents are unbounded"]

class TLeaf(Leaf):
    """content array with named dimensions, at the observed cell"""
    def __init__(self, shape, vals, tags, world):
        Leaf.__init__(self, shape, vals)
        self.tags, self.world = tuple(tags), world
    def like(self, vals): return TLeaf(self.shape_, vals, self.tags, self.world)
    def copy(self, *a): return self.like(self.vals)
    def pair(self, o):
        if isinstance(o, TLeaf):
            if o.tags != self.tags:
                if len(o.tags) == len(self.tags):
                    raise Unsupported("arrays of different shapes")
                raise ValueError("operands could not be broadcast together")
            return o.vals
        return Leaf.pair(self, o)
    def __add__(self, o): return self.like(self.op(fadd, o))
    def __radd__(self, o): return self.like(self.op(fadd, o, True))
    def __mul__(self, o): return self.like(self.op(fmul, o))
    def __rmul__(self, o): return self.like(self.op(fmul, o, True))
    def __sub__(self, o): return self.like(self.op(lambda a, b: fadd(a, fneg(b)), o))
    def sum(self, axis=None, **k):
        if k:
            raise Unsupported("keyword of sum")
        if axis is None:
            raise Unsupported("sum over everything")
        axes = (axis,) if isinstance(axis, int) else tuple(axis)
        n = len(self.tags)
        axes = [a + n + 1 if a < 0 else a for a in axes]
        if len(set(axes)) != len(axes):
            raise ValueError("duplicate value in 'axis'")
        if any(a < 0 or a >= n for a in axes):
            raise Unsupported("sum over the columns")
        vals = list(self.vals)
        for a in axes:
            if self.tags[a] in self.world.kept:
                vals = [fresh_real("othersum") for v in vals]
        return TLeaf([s for i, s in enumerate(self.shape_) if i not in axes], vals, [t for i, t in enumerate(self.tags) if i not in axes], self.world)
    def vc_ufunc(self, name, fn, xs, out):
        r = Leaf.vc_ufunc(self, name, fn, xs, out)
        return r if out is not None else self.like(r.vals)

class World(object):
    """one histogram with generic contents and a choice of kept axes"""
    def __init__(self, c, h, kept):
        self.c, self.h = c, h
        self.G, self.Fx = h._group, h._fixed
        self.keptg = [i for i, x in enumerate(self.G) if x in kept]
        self.kept = set(i for i, x in enumerate(self.Fx) if x in kept)
        self.keys = generic_keys(len(self.G))
        self.tags = list(range(len(self.Fx)))
        self.n = h._shape[-1]
        self.outshape = tuple(s for i, s in enumerate(h._shape[:-1]) if i in self.kept) + (self.n,)
        self.levels = {}
        self.nodes = []
    def fn(self, name, args, sort):
        if not args:
            return z3.Const(name, sort)
        return z3.Function(name, *([z3.IntSort()]*len(args) + [sort]))(*args)
    def leafvals(self, args):
        return [SFloat(self.fn("content.col{0}".format(q), args, z3.RealSort())) for q in range(self.n)]
    def count(self, level, args):
        n = self.fn("groups{0}".format(level), args, z3.IntSort())
        self.c.assume(n >= 0)
        return mkint(n) if z3.is_int_value(n) else SInt(n)
    def has(self, level, args):
        return self.fn("has{0}".format(level), args, z3.BoolSort())
    # the source
    def node(self, level=0, args=()):
        if level == len(self.G):
            out = TLeaf(self.h._shape, self.leafvals(args), self.tags, self)
        elif level in self.keptg:
            out = rt.SymDict(self.keys[level], self.has(level, args), rt.Lazy(lambda: self.node(level + 1, args)))
            out.has0 = out.hasz
        else:
            out = SeqDict(self, level, args)
        self.nodes.append(out)
        return out
    # the specification of its projection, at the generic keys of the kept levels: (presence per kept level from here, values)
    def spec(self, level=0, args=()):
        if level == len(self.G):
            return [], [v.r for v in self.leafvals(args)]
        if level in self.keptg:
            has, vals = self.spec(level + 1, args)
            return [self.has(level, args)] + has, vals
        n = self.count(level, args)
        return self.S(level, args, z3.IntVal(0), zint(n))
    def below(self, level):
        return [l for l in self.keptg if l > level]
    def S(self, level, args, lo, hi):
        """sum of the projections of the groups lo..hi-1 of this dict"""
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        ks = self.below(level)
        A = list(args) + [lo, hi]
        H = [self.fn("S{0}.has{1}".format(level, l), A, z3.BoolSort()) for l in ks]     # cumulative presence
        W = [self.fn("S{0}.col{1}".format(level, q), A, z3.RealSort()) for q in range(self.n)]
        c = self.c
        for x, y in zip(H, H[1:]):
            c.assume(z3.Implies(y, x))
        if H:
            c.assume(z3.And([z3.Implies(z3.Not(H[-1]), w == 0) for w in W]))
        c.assume(z3.Implies(lo >= hi, z3.And([w == 0 for w in W] + [z3.Not(x) for x in H])))
        return H, W
    def single(self, level, args, i):
        """S(i, i+1) is the projection of the i-th group"""
        H, W = self.S(level, args, i, i + 1)
        has, vals = self.spec(level + 1, tuple(args) + (z3.simplify(i),))
        cum = [z3.And(has[:k + 1]) if k else has[0] for k in range(len(has))]
        for a, b in zip(H, cum):
            self.c.assume(a == b)
        e = cum[-1] if cum else z3.BoolVal(True)
        for a, b in zip(W, vals):
            self.c.assume(a == z3.If(e, b, z3.RealVal(0)))
    def tree(self, level, has, vals):
        """a content with these presences (cumulative) and values, below this level"""
        out = TLeaf(self.outshape, [SFloat(v) for v in vals], sorted(self.kept), self)
        for l, h in reversed(list(zip(self.below(level), has))):
            out = rt.SymDict(self.keys[l], h, out)
        return out
    def expect(self, what, R, level, has, vals):
        """R is the content specified by presence (cumulative along the levels below) and values"""
        c = self.c
        keys = [self.keys[l] for l in self.below(level)]
        V = view(c, R, keys, what)
        for i in range(1, len(V.has) + 1):
            c.prove(what + ": a kept group exists iff it exists below a group summed over", has[i - 1] == z3.BoolVal(all(V.has[:i])))
        if V.vals is None:
            return
        leaf = V.vals
        c.prove(what + ": dimensions are the kept axes", isinstance(leaf, TLeaf) and list(leaf.tags) == sorted(self.kept))
        for q in range(self.n):
            x = tofloat(leaf.vals[q])
            c.prove(what + ": column {0} is the sum over the removed axes".format(q), z3.And(zb(x.fin()), x.r == vals[q]))
    # a function given the list of groups
    def fold(self, node, seq, qual, f, args, kwargs):
        c = self.c
        L, A = node.level, node.args
        lo, hi = zint(seq.lo), zint(seq.hi)
        if not seq.mapped:
            raise Unsupported("unprojected groups passed to {0}".format(qual))
        me = (qual, L, tuple(str(a) for a in A))
        if me in self.levels:
            lo0, hi0, used = self.levels[me]
            c.prove("{0}: recurs on a shorter non-empty part".format(qual), z3.And(lo < hi, hi - lo < hi0 - lo0, lo >= lo0, hi <= hi0))
            has, vals = self.S(L, A, lo, hi)
            used.append((lo, hi))
            return self.tree(L, has, vals)
        if c.choose(2, "element") == 1:
            # what is in the list: the projection of a generic group
            i = fresh_int("group", 0)
            c.assume(z3.And(i.z >= lo, i.z < hi))
            has, vals = self.spec(L + 1, tuple(A) + (i.z,))
            R = seq.at(i - seq.lo)
            self.expect("each group", R, L, self.cumulative(has), vals)
            raise PathEnd()
        used = []
        self.levels[me] = (lo, hi, used)
        try:
            R = f(*args, **kwargs)
        finally:
            del self.levels[me]
        for a, b in used:
            self.single(L, A, a)
        for a, b in used:
            for x, y in used:
                if a is not x or b is not y:
                    self.c.assume(z3.Implies(b == x, self.splitz(L, A, a, b, y)))
        self.single(L, A, lo)
        has, vals = self.S(L, A, lo, hi)
        self.expect("{0}: sum of the list".format(qual), R, L, has, vals)
        return self.tree(L, has, vals)      # nested dicts: presence given the levels above; cumulative is as good
    def splitz(self, level, args, a, b, d):
        H, W = self.S(level, args, a, d)
        H1, W1 = self.S(level, args, a, b)
        H2, W2 = self.S(level, args, b, d)
        return z3.Implies(z3.And(a <= b, b <= d), z3.And([x == z3.Or(y, w) for x, y, w in zip(H, H1, H2)] + [x == y + w for x, y, w in zip(W, W1, W2)]))
    def cumulative(self, has):
        return [z3.And(has[:k + 1]) if k else has[0] for k in range(len(has))]

class SeqDict(dict, rt.SymIter):
    """the dict of a removed group axis: n groups in some order"""
    def __init__(self, world, level, args):
        dict.__init__(self)
        self.world, self.level, self.args = world, level, tuple(args)
    def vc_len(self): return self.world.count(self.level, self.args)
    def __len__(self): raise Unsupported("len of a symbolic dict reached C code")
    def __bool__(self): return bool(self.vc_len() != 0)
    def seq(self, mk):
        w = self.world
        def get(i):
            return mk(i, w.node(self.level + 1, self.args + (z3.simplify(zint(i)),)))
        return rt.FoldSeq(self, get, 0, self.vc_len())
    def key(self, i): return rt.Key("group{0}".format(i))
    def values(self): return self.seq(lambda i, x: x)
    def items(self): return self.seq(lambda i, x: (self.key(i), x))
    def keys(self): raise Unsupported("keys of a group axis that is summed over")
    def __iter__(self): raise Unsupported("iteration over a symbolic dict reached C code")
    def loop(self, L): raise Unsupported("loop over the keys of a group axis that is summed over")
    def comp(self, kind, f): raise Unsupported("comprehension over the keys of a group axis that is summed over")
    def __getitem__(self, k): raise Unsupported("a group of an axis that is summed over")
    def __setitem__(self, k, v): raise Unsupported("assignment to a group of an axis that is summed over")
    def get(self, *a): raise Unsupported("a group of an axis that is summed over")
    def vc_in(self, k): raise Unsupported("a group of an axis that is summed over")
    def __contains__(self, k): raise Unsupported("in on a symbolic dict reached C code")
    def copy(self): raise Unsupported("copy of a dict that is summed over")
    def __eq__(self, o): raise Unsupported("equality of a symbolic dict")
    __hash__ = object.__hash__
    def fold(self, seq, qual, f, args, kwargs):
        return self.world.fold(self, seq, qual, f, args, kwargs)
    def looprule(self, seq, L):
        return FoldLoop(self, seq, L)
    def reduce(self, f, seq, *init):
        """functools.reduce(f, groups): the loop  acc = f(acc, x)"""
        if init:
            raise Unsupported("reduce with an initial value")
        w, c, lv, A = self.world, self.world.c, self.level, self.args
        lo, hi = zint(seq.lo), zint(seq.hi)
        if not c.branch(lo < hi):
            raise TypeError("reduce() of empty sequence with no initial value")
        w.single(lv, A, lo)
        if c.choose(2, "reduce") == 1:
            t = fresh_int("t").z
            if c.choose(2, "first") == 1:
                has, vals = w.S(lv, A, lo, lo + 1)
                w.expect("first of the groups", seq.elem(mkint(lo)), lv, has, vals)
                raise PathEnd()
            c.require(z3.And(lo < t, t < hi))
            has, vals = w.S(lv, A, lo, t)
            x = f(w.tree(lv, has, vals), seq.elem(mkint(t)))
            w.single(lv, A, t)
            c.assume(w.splitz(lv, A, lo, t, t + 1))
            has, vals = w.S(lv, A, lo, t + 1)
            w.expect("reduce over the groups", x, lv, has, vals)
            raise PathEnd()
        has, vals = w.S(lv, A, lo, hi)
        return w.tree(lv, has, vals)

class FoldLoop(object):
    """for x in <groups>: acc = acc + x, in whatever way: acc is S(start, t) before the group t, when it was nothing or S(start, lo) to begin with"""
    def __init__(self, node, seq, L):
        self.node, self.seq, self.w = node, seq, node.world
        self.c = self.w.c
        self.generic = self.c.choose(2, "loop") == 1
        self.start = {}
        self.lo, self.hi = zint(seq.lo), zint(seq.hi)
        if self.generic:
            self.t = fresh_int("t").z
            self.c.assume(z3.And(self.lo <= self.t, self.t < self.hi))
    def begin(self, v):
        """start of the sum that v is before the loop; None: not an accumulator"""
        if v is None:
            return self.lo
        if isinstance(v, (TLeaf, rt.SymDict)):
            for i, x in self.seq.cache.values():
                if x is v and self.c.feasible(i + 1 != self.lo) == z3.unsat:
                    return i
            raise Unsupported("accumulator of a loop over groups")
        if isinstance(v, dict):
            raise Unsupported("accumulator of a loop over groups")
        return None
    def acc(self, n, t):
        v, s = self.start[n]
        w, L, A = self.w, self.node.level, self.node.args
        if v is None and self.c.branch(t == s):
            return None
        if v is not None and self.c.branch(t == self.lo):
            return v
        has, vals = w.S(L, A, s, t)
        return w.tree(L, has, vals)
    def enter(self, L, n, v, loc):
        if v is rt.UNBOUND:
            return v
        s = self.begin(v)
        if s is None:
            return rt.UNBOUND
        self.start[n] = (v, s)
        return self.acc(n, self.t) if self.generic else v
    def run(self, L, loc):
        if not self.generic:
            return
        yield self.seq.elem(mkint(self.t))
        w, lv, A, c = self.w, self.node.level, self.node.args, self.c
        for n, (v, s) in self.start.items():
            x = loc()[n]
            w.single(lv, A, self.t)
            w.single(lv, A, s)
            c.assume(w.splitz(lv, A, s, self.t, self.t + 1))
            has, vals = w.S(lv, A, s, self.t + 1)
            c.prove("loop over the groups: something is kept", x is not None)
            w.expect("loop over the groups", x, lv, has, vals)
        raise PathEnd()
    def exit(self, L, n, loc):
        if n not in self.start:
            return rt.Poison(n)
        v, s = self.start[n]
        if v is not None:
            self.w.single(self.node.level, self.node.args, s)
        return self.acc(n, self.hi)

# --------------------------------------------------------------

def combos(tier):
    out = [(0, 0, 0), (0, 1, 0), (0, 2, 1), (0, 3, 0), (1, 0, 0), (1, 1, 1), (1, 2, 0), (2, 0, 0), (2, 1, 0), (2, 2, 1), (3, 0, 0), (3, 1, 1)]
    return out if tier != "quick" else out

def units(hb, tier):
    for s in combos(tier):
        for w in ("none", "weight"):
            if w == "weight" and s not in ((0, 2, 1), (1, 1, 1), (2, 1, 0)):
                continue
            yield ("project with {0} group, {1} fixed, {2} profile axes, {3}".format(*(s + (w,))), (lambda s, w: (lambda c: project(hb, c, s, w)))(s, w),
                   ["proj.Projectable.project", "proj.Projectable.project.projcontent", "proj.Projectable.project.projarray", "proj.Projectable.project.addall", "proj.Projectable.project.addany", "proj.AxisTuple.__getitem__", "hist.Hist.__init__"],
                   ["the projection: column 0"])
    yield ("project: axes that are not there", lambda c: refused(hb, c), ["proj.Projectable.project", "proj.AxisTuple.__getitem__"], ["refused"])

def hooks(W):
    def zeros(s, dtype=None, **k):
        if sameshape(tuple(s), W.outshape):
            return TLeaf(W.outshape, [tofloat(0.0)]*W.n, sorted(W.kept), W)
        return NotImplemented
    def nsum(x, axis=None, **k):
        if isinstance(x, TLeaf):
            return x.sum(axis, **k)
        return NotImplemented
    install([])
    npf.HOOKS["zeros"] = [zeros]
    npf.HOOKS["sum"] = [nsum]

if not hasattr(npf.F, "_vcdef_sum"):
    @npf.define("sum")
    def _sum(*a, **k):
        raise Unsupported("numpy.sum")
    npf.F._vcdef_sum = True

def equal_axis(x):
    """another axis object with the same options"""
    out = x.__class__.__new__(x.__class__)
    out.__dict__.update(x.__dict__)
    return out

def project(hb, c, s, w):
    h = make_hist(hb, c, s[0], s[1], s[2], w)
    alla = h._group + h._fixed
    kept = [x for x in alla if c.choose(2, "kept") == 0]
    how = c.choose(4, "named by") if len(alla) < 4 else 0
    args = [x if how == 0 else (str(x.expr) if how == 1 else (alla.index(x) if how == 2 else equal_axis(x))) for x in kept]
    if how == 1:
        args = list(reversed(args))
    if how == 2 and args:
        args = args + args[:1]
    W = World(c, h, kept)
    hooks(W)
    none = c.choose(2, "unfilled") == 1
    h._content = None if none else W.node()
    src = h._content
    t = state(h)
    out = must_return(c, "project", h.project, *args)
    c.prove("kept axes in their order, and all profiles", isinstance(out, hb.hist.Hist) and out is not h and list(out._group + out._fixed + out._profile) == [x for x in alla if any(x is y for y in kept)] + list(h._profile))
    c.prove("weight, filter, definitions and attachments as before", out._weightoriginal == h._weightoriginal and out._filteroriginal == h._filteroriginal and out._defs == h._defs and out._attachment == h._attachment and out._defs is not h._defs and out._attachment is not h._attachment)
    c.prove("layout of the result", right_layout(out) and sameshape(out._shape, W.outshape))
    c.prove("source is unchanged", h._content is src and samestate(h, t) and all(x.version == 0 for x in W.nodes if isinstance(x, TLeaf)) and all(x.hasz is x.has0 for x in W.nodes if isinstance(x, rt.SymDict)))
    if none:
        c.prove("unfilled stays unfilled", out._content is None)
        return
    mine = set(map(id, W.nodes))
    c.prove("nothing is shared with the source", not any(i in mine for i in reach(out._content)))
    has, vals = W.spec()
    W.expect("the projection", out._content, -1, W.cumulative(has), vals)

def refused(hb, c):
    h = make_hist(hb, c, 1, 2, 1, "none")
    other = make_hist(hb, c, 1, 3, 2, "none")
    W = World(c, h, [])
    hooks(W)
    h._content = W.node()
    ax = hb.axis
    for a in (h._profile[0], other._profile[1], other._fixed[2], ax.bin("x0", 6, -1, 4), ax.bin("x9", 5, -1, 4), ax.groupby("g9"), "nosuch", 99, ax.bin("x0", 5, -1, 4, closedlow=False)):
        st, e = call(lambda: h.project(a))
        c.prove("refused: {0!r}".format(a), st == "raised" and isinstance(e, IndexError))
        st, e = call(lambda: h.project(h._fixed[0], a))
        c.prove("refused: {0!r} among others".format(a), st == "raised" and isinstance(e, IndexError))
