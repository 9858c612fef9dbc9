"""C17: fraction tables, checked against the contracts of drop (C16) and project (C13) and the code of _selectaxis.

  Projectable.fraction   requires  any contents with non-negative total weights, any choice and order of cut axes, any options
                         ensures   at every cell of the axes that are not among the cuts, with T the sum over all the cuts' axes and P(c) the
                                   part of it that passes the cut c (summed over all the other cuts):
                                     count() = T, c = P(c)/T
                                     err(c) = z*sqrt(p*(1 - p)/T)                                                  (error="normal"), p = P(c)/T
                                     err(c) = (p + z**2/2T + z*sqrt(p*(1 - p)/T + z**2/4T**2))/(1 + z**2/T)        (error="wilson")
                                     with z the number of standard deviations of the level, per level
                                     zeros if T is zero
                                   groups as in the histogram; profiles have no influence; the histogram is unchanged
"""
from cells import *
import itertools, math

ASSUMPTIONS = ["float64 arithmetic is treated as exact real arithmetic extended with infinities and NaN; numpy.sqrt is the exact square root",
               "project sums over the removed axes (C13), drop removes the profiles' columns only (C16)",
               "standard deviations of a level: the code's approximation is within 1% at the levels 0.5, 0.683 and 0.25 (evaluated, not proved for all levels)"]
BOUNDS = ["up to 3 cut axes among up to 2 other fixed axes and 2 group axes (bins and contents unbounded)"]

def units(hb, tier):
    fs = ["proj.Projectable.fraction", "proj.Projectable._fraction", "proj.Projectable._fraction.handlearray", "proj.Projectable._selectaxis", "hist.Hist._prefill"]
    for i in range(len(LAYOUTS)):
        for w in (False, True):
            yield ("fraction, axes {0}, {1}".format(" ".join(LAYOUTS[i]), "weighted" if w else "unweighted"), (lambda i, w: (lambda c: fraction(hb, c, LAYOUTS[i], w)))(i, w), fs, None)
    yield ("fraction refuses what is not a cut", lambda c: refused(hb, c), fs, None)

LAYOUTS = [("c",), ("c", "x", "c"), ("x", "c", "c", "c"), ("g", "c", "x", "c"), ("g", "h", "x", "c", "c"), ("c", "y", "x"), ("x", "c", "p"), ("g", "c", "c", "p", "p")]
SIGMA1 = math.erf(math.sqrt(0.5))
LEVELS = [(None, (SIGMA1,)), (0.5, (0.5,)), ((0.25, SIGMA1), (0.25, SIGMA1))]

class FLeaf(Arr):
    """contents summed over all axes but `kept`, seen at the generic cell of the remaining axes"""
    def __init__(self, W, kept, dims, fixed=None, buf=None):
        self.W, self.kept, self.dims, self.fixed = W, kept, list(dims), dict(fixed or {})
        self.buf = buf if buf is not None else object()
        self.version = 0
    @property
    def shape(self): return tuple(d[2] for d in self.dims) + (self.W.n,)
    def copy(self, *a): return FLeaf(self.W, self.kept, self.dims, self.fixed)
    vc_array = copy
    def __getitem__(self, key):
        key = list(key) if isinstance(key, (tuple, list)) else [key]
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key[i:i + 1] = [slice(None)]*(len(self.dims) + 1 - (len(key) - 1))
        key += [slice(None)]*(len(self.dims) + 1 - len(key))
        if len(key) != len(self.dims) + 1 or key[-1] != slice(None):
            raise Unsupported("index of contents")
        dims, fixed = [], dict(self.fixed)
        for (t, off, size), k in zip(self.dims, key):
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)) and k.step in (None, 1):
                if k == slice(None):
                    dims.append((t, off, size))
                    continue
                lo, hi, _ = k.indices(size)
                dims.append((t, off + lo, max(0, hi - lo)))
            elif type(k) is int:
                fixed[t] = off + range(size)[k]
            else:
                raise Unsupported("index of contents")
        return FLeaf(self.W, self.kept, dims, fixed, self.buf)
    def reshape(self, *a):
        s = tuple(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        W = self.W
        if len(s) != 2 or not (type(s[0]) is int and s[0] == -1) or not (type(s[1]) is int and s[1] == W.n):
            raise Unsupported("reshape")
        fixed = dict(self.fixed)
        rest = []
        for t, off, size in self.dims:
            if t in W.rest:
                if off != 0 or size != W.sizes[t]:
                    raise Unsupported("part of an axis")
                rest.append(t)
            elif size == 1:
                fixed[t] = off
            else:
                raise Unsupported("rows of another shape")
        if rest != W.rest:
            raise Unsupported("rows of another shape")
        return Cells(W.pos, True, Buf(W.values(self.kept, fixed)))

class World(object):
    def __init__(self, c, hb, h, cuts):
        self.c, self.hb, self.h = c, hb, h
        self.cuts = cuts
        self.rest = [a._expr for a in h._fixed if a._expr not in cuts]
        self.sizes = dict((a._expr, s) for a, s in zip(h._fixed, h._shape))
        self.keys, self.zero, self.memo = {}, False, {}
        self.n = 2 if h._weightparsed is not None else 1
        for i, a in enumerate(h._group):
            self.keys[a._expr] = (NameKey("key{0}".format(i)), z3.Bool("has{0}".format(i)))
    def values(self, kept, fixed):
        if self.zero:
            return [SFloat(z3.RealVal(0))]*self.n
        key = (frozenset(kept), tuple(sorted(fixed.items())))
        if key not in self.memo:
            self.memo[key] = [fresh_real("sum{0}.col{1}".format(len(self.memo), q)) for q in range(self.n)]
        return self.memo[key]
    def tree(self, h):
        node = FLeaf(self, [a._expr for a in h._fixed], [(a._expr, 0, self.sizes[a._expr]) for a in h._fixed])
        for a in reversed(h._group):
            k, b = self.keys[a._expr]
            node = rt.SymDict(k, b, node)
        return node
    def drop(self, f, args, kwargs):
        me, names = args[0], [x if isinstance(x, str) else x._expr for x in args[1:]]
        self.c.prove("all profiles are dropped", set(names) == set(a._expr for a in me._profile) and len(names) > 0 and not kwargs)
        return self.make(me, me._group + me._fixed)
    def project(self, f, args, kwargs):
        me = args[0]
        if kwargs or me._profile:
            raise Unsupported("projection of a histogram with profiles")
        axes = [x for x in me._group + me._fixed if any(x == y or x._expr == y for y in args[1:])]
        if len(axes) != len(args) - 1:
            raise Unsupported("projection")
        return self.make(me, axes)
    def make(self, me, axes):
        out = self.hb.hist.Hist(*axes, weight=me._weightoriginal, filter=me._filteroriginal, defs=dict(me._defs), attachment=dict(me._attachment))
        if me._content is not None:
            out._content = self.tree(out)
            if isinstance(me._content, dict) and not isinstance(me._content, rt.SymDict):
                out._content = {} if out._group else out._content
        return out

def fraction(hb, c, layout, weighted):
    A = hb.axis
    axes, n = [], 0
    for i, k in enumerate(layout):
        e = "{0}{1}".format(k, i)
        axes.append({"c": lambda: A.cut(e if i % 2 else "{0} < 3".format(e)), "x": lambda: A.bin(e, 4, 0, 2), "y": lambda: A.split(e, (1, 2, 4)), "g": lambda: A.groupby(e), "h": lambda: A.groupbin(e, 0.5), "p": lambda: A.profile(e)}[k]())
    h = must_return(c, "construct", hb.hist.Hist, *axes, weight="w" if weighted else None, defs={"d": "e + 1"})
    allcuts = [a for a in h._fixed if isinstance(a, A.cut)]
    perms = [p for k in range(1, len(allcuts) + 1) for p in itertools.permutations(range(len(allcuts)), k)]
    which = perms[c.choose(len(perms), "cuts")]
    cuts = [allcuts[i] for i in which]
    W = World(c, hb, h, [a._expr for a in cuts])
    c.lazy = []
    W.pos, = install_cells(c, [tuple(W.sizes[t] for t in W.rest)])
    def zeros(s, dtype=None, **k):
        if sameshape(s, h._shape) and len(s) > 1 and s is h._shape:
            W.zero = True
            return FLeaf(W, [a._expr for a in h._fixed], [(a._expr, 0, W.sizes[a._expr]) for a in h._fixed])
        return NotImplemented
    npf.HOOKS["zeros"].insert(0, zeros)
    unfilled = c.choose(2, "unfilled") == 1
    source = h._content = None if unfilled else W.tree(h)
    error = ["normal", "wilson", None][c.choose(3, "error")]
    given, levels = LEVELS[c.choose(3, "levels") if error else 0]
    count = c.choose(2, "count") == 0
    rec = (len(which) + len(levels) + count) % 2 == 0
    kw = dict(columns=True, recarray=rec)
    if not count:
        kw["count"] = False
    if error != "normal":
        kw["error"] = error
    if given is not None:
        kw["level"] = given
    sig = {}
    if error == "wilson":
        for lv in levels:
            sig[lv] = fresh_real("z")
            declare_positive(c, sig[lv].r)
        def l2s(f, args, kwargs):
            if len(args) != 1 or args[0] not in sig:
                raise Unsupported("level {0!r}".format(args))
            sig["used"] = True
            return sig[args[0]]
        rt.SUMMARIES["proj.Projectable._fraction.level2sigmas"] = l2s
    rt.SUMMARIES["proj.Projectable.drop"] = W.drop
    rt.SUMMARIES["proj.Projectable.project"] = W.project
    # contents: T, then the passing part of every cut
    if unfilled or c.choose(2, "empty") == 1:
        T = None
        declare_positive(c, z3.Real("unused"))
        if not unfilled:
            key = (frozenset(W.rest), ())
            W.memo[key] = [SFloat(z3.RealVal(0))] + [fresh_real("sumw2")]*(W.n - 1)
    else:
        T = W.values(W.rest, {})[0]
        declare_positive(c, T.r)
    t = state(h)
    args = [[a, a._expr][(i + len(which)) % 2] for i, a in enumerate(cuts)]
    out = must_return(c, "fraction", h.fraction, *args, **kw)
    c.prove("source is unchanged", (h._content is source or unfilled) and samestate(h, t))
    c.prove("table and its columns", isinstance(out, tuple) and len(out) == 2)
    names = ["count()"] if count else []
    for a in cuts:
        names.append(str(a.expr))
        if error:
            for lv in levels:
                names.append("err({0})".format(str(a.expr)) if lv == SIGMA1 else "err({0}, {1:3g})".format(str(a.expr), lv))
    c.prove("labels of the columns", out[1] == names, why=repr(out[1]))
    node = out[0]
    if unfilled and h._group:
        c.prove("no groups", node == {})
        return
    for a in h._group:
        k, b = W.keys[a._expr]
        if not isinstance(node, dict):
            c.prove("a dict for every group axis", False)
            raise PathEnd()
        here = c.branch(zb(node.hasz)) if isinstance(node, rt.SymDict) else (k in node)
        c.prove("groups as in the histogram", z3.BoolVal(bool(here)) == b)
        if not here:
            return
        node = node.get_val() if isinstance(node, rt.SymDict) else dict.__getitem__(node, k)
    if not isinstance(node, Cells):
        raise Unsupported("table of another kind")
    c.prove("a row for every cell", node.pos is W.pos and not node.flat and len(node.buf.vals) == len(names))
    c.prove("labels of the columns", node.names == (tuple(names) if rec else None))
    row = list(node.buf.vals)
    zero = tofloat(0.0)
    def equal(clause, a, b):
        c.prove(clause, zb(same(tofloat(a), tofloat(b))))
    if count:
        equal("count() is the total", row.pop(0), T if T is not None else zero)
    for a in cuts:
        p = zero
        if T is not None:
            P = W.values(W.rest + [a._expr], {a._expr: 1})[0]
            p = fdiv_np(P, T)
        equal("fraction that passes the cut", row.pop(0), p)
        for lv in (levels if error else ()):
            e = tofloat(row.pop(0))
            if T is None:
                equal("zeros in empty cells", e, zero)
                continue
            pq = fdiv_np(fmul(p, fadd(tofloat(1.0), fneg(p))), T)
            if error == "normal":
                s = npf.fsqrt(pq)
                k = sigma(lv)
                c.prove("error of the fraction", z3.And(zb(s.nan) == zb(e.nan), z3.Implies(z3.Not(zb(s.nan)), z3.And(zb(e.fin()), e.r >= liftr(0.99*k)*s.r, e.r <= liftr(1.01*k)*s.r))))
            else:
                if not sig.get("used"):
                    raise Unsupported("standard deviations of a level")
                z_ = sig[lv]
                z2 = fmul(z_, z_)
                half = fdiv_np(fmul(z2, tofloat(0.5)), T)
                quarter = fdiv_np(fmul(z2, tofloat(0.25)), fmul(T, T))
                s = npf.fsqrt(fadd(pq, quarter))
                num = fadd(fadd(p, half), fmul(z_, s))
                den = fadd(tofloat(1.0), fdiv_np(z2, T))
                equal("Wilson's upper limit", e, fdiv_np(num, den))

def sigma(level):
    lo, hi = 0.0, 10.0
    for _ in range(200):
        mid = (lo + hi)/2
        if math.erf(mid/math.sqrt(2)) < level:
            lo = mid
        else:
            hi = mid
    return (lo + hi)/2

def refused(hb, c):
    A = hb.axis
    h = must_return(c, "construct", hb.hist.Hist, A.groupby("g"), A.bin("x", 4, 0, 2), A.cut("q"), A.profile("y"))
    install_cells(c, [(4,)])
    h._content = {}
    bad = [A.cut("other"), "other", h._fixed[0], "x", h._profile[0], h._group[0]][c.choose(6)]
    args = [h._fixed[1], bad] if c.choose(2) else [bad]
    st, out = call(lambda: h.fraction(*args))
    c.prove("refused", st == "raised" and isinstance(out, (IndexError, KeyError, ValueError, TypeError)), why=repr(out))
    c.prove("source is unchanged", h._content == {})
    st, out = call(lambda: h.fraction("q", other=True))
    c.prove("unknown options are refused", st == "raised" and isinstance(out, TypeError), why=repr(out))
