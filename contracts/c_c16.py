"""C16: tables.

  Projectable.table   requires  any contents with a non-negative sum of weights (and a positive sum of squares where that is positive), any
                                choice and order of profiles, any options
                      ensures   at every cell, with the columns in the order of their labels:
                                  count() = sumw, err(count()) = sqrt(sumw2) (weighted) or sqrt(sumw)
                                  effcount() = sumw**2/sumw2 (weighted) or sumw
                                  x = sumwx/sumw, err(x) = sqrt(max(sumwx2/sumw - x**2, 0)/effcount)
                                  effcount and profiles are zero if sumw is
                                normalized: count and its error divided by width*T, where T = sum over all cells of count/width and the width
                                of a cell is the product of its bins' widths, infinite for a flow bin (so finite cells sum to 1)
                                groups as in the histogram, cells in the axes' order; the histogram is unchanged and shares nothing
  Projectable.drop    ensures   the remaining profiles' columns, sumw and sumw2 as before, in the new layout
"""
from cells import *
import itertools

ASSUMPTIONS = ["float64 arithmetic is treated as exact real arithmetic extended with infinities and NaN; numpy.sqrt is the exact square root",
               "bin.binwidth is (high - low)/numbins up to rounding (its loop over neighbouring floating point numbers is outside exact arithmetic); the executable contract checks it on examples",
               "array.view with named columns labels the columns in order; array.sum() depends on the summed elements only"]
BOUNDS = ["up to 3 profiles, 2 group axes and 2 fixed axes of every kind (numbers of bins, edges and contents unbounded)"]

LAYOUTS = [(0, 1), (1, 0), (2, 1), (0, 2)]      # group axes, fixed axes

def units(hb, tier):
    fs = ["proj.Projectable.table", "proj.Projectable.table.handlearray", "hist.Hist._prefill"]
    for w in ("none", "weight", "filter"):
        for p in range(4):
            yield ("table of {0} profiles, {1}".format(p, {"none": "unweighted", "weight": "weighted", "filter": "filtered"}[w]), (lambda w, p: (lambda c: table(hb, c, w, p)))(w, p), fs, None)
    for w in ("none", "weight"):
        for f in range(1, 4):
            yield ("normalized table, {0} axes, {1}".format(f, {"none": "unweighted", "weight": "weighted"}[w]), (lambda w, f: (lambda c: normalized(hb, c, w, f)))(w, f), fs + ["axis.*.finiteslice", "axis.split.binwidth", "axis.intbin.binwidth", "axis.cut.binwidth"], None)
    for p in range(1, 4):
        yield ("drop from {0} profiles".format(p), (lambda p: (lambda c: drop(hb, c, p)))(p), ["proj.Projectable.drop"], None)
    yield ("table and drop refuse what is not a profile", lambda c: refused(hb, c), ["proj.Projectable.table", "proj.Projectable.drop"], None)

def columns(c, p, weighted):
    """contents of the generic cell: any number of profile sums, a non-negative sum of weights"""
    c.lazy = []
    vals = [fresh_real("col{0}".format(q)) for q in range(2*p)]
    if c.choose(2, "empty") == 1:
        sumw = SFloat(z3.RealVal(0))
        sumw2 = fresh_real("sumw2")
        c.assume(sumw2.r >= 0)
        declare_positive(c, z3.Real("unused"))
    else:
        sumw, sumw2 = fresh_real("sumw"), fresh_real("sumw2")
        declare_positive(c, sumw.r, sumw2.r)
    return vals + [sumw] + ([sumw2] if weighted else []), sumw, sumw2 if weighted else sumw

def expected(h, which, vals, sumw, sumw2, o, fac=None):
    """the row of the generic cell and its labels"""
    names, row = [], []
    empty = z3.is_rational_value(sumw.r)
    def put(n, v):
        names.append(n)
        row.append(tofloat(v))
    eff = SFloat(z3.RealVal(0)) if empty else fdiv_np(fmul(sumw, sumw), sumw2)
    if o["count"]:
        put("count()", sumw if fac is None else fdiv_np(sumw, fac))
        if o["error"]:
            e = npf.fsqrt(sumw2)
            put("err(count())", e if fac is None else fdiv_np(e, fac))
    if o["effcount"]:
        put("effcount()", eff)
    for i in which:
        n = str(h._profile[i].expr)
        if empty:
            put(n, 0.0)
            if o["error"]:
                put("err({0})".format(n), 0.0)
            continue
        x, x2 = fdiv_np(vals[2*i], sumw), fdiv_np(vals[2*i + 1], sumw)
        put(n, x)
        if o["error"]:
            var = fadd(x2, fneg(fmul(x, x)))
            put("err({0})".format(n), npf.fsqrt(fdiv_np(npf.fmax(var, tofloat(0.0)), eff)))
    return names, row

def options(c, norm=False, all=True):
    o = dict(count=True if norm else c.choose(2, "count") == 0, effcount=c.choose(2, "effcount") == 1, error=c.choose(2, "error") == 0) if all else dict(count=True, effcount=True, error=True)
    kw = {}
    for n, d in (("count", True), ("effcount", False), ("error", True)):
        if o[n] != d or n == "count":
            kw[n] = o[n]
    if norm:
        kw["normalized"] = True
    return o, kw

def ask(c, h, which):
    """profiles by axis, by name or by an equal axis"""
    how = sum(which)*5 + len(which)
    how %= 3
    return [[h._profile[i], h._profile[i]._original if hasattr(h._profile[i], "_original") else h._profile[i]._expr, h._profile[i].__class__(h._profile[i]._expr)][how] for i in which]

def run(c, h, which, o, kw, vals, sumw, sumw2, pos, keys, has, cells, fac=None):
    rec = (sum(which) + o["effcount"] + o["error"]) % 2 == 0
    kw = dict(kw, columns=True, recarray=rec)
    names, row = expected(h, which, vals, sumw, sumw2, o, fac() if fac else None)
    if not names:
        raise PathEnd()
    t, content = state(h), h._content
    out = must_return(c, "table", h.table, *ask(c, h, which), **kw)
    c.prove("source is unchanged", (content is None or h._content is content) and (cells is None or cells.buf.version == 0) and samestate(h, t))
    c.prove("table and its columns", isinstance(out, tuple) and len(out) == 2 and out[1] == names, why=repr(out[1] if isinstance(out, tuple) else None))
    node = out[0]
    for k, b in zip(keys, has):
        if not isinstance(node, dict):
            c.prove("a dict for every group axis", False)
            raise PathEnd()
        here = c.branch(zb(node.hasz)) if isinstance(node, rt.SymDict) else (k in node)
        c.prove("groups as in the histogram", z3.BoolVal(bool(here)) == b)
        if not here:
            return
        node = node.get_val() if isinstance(node, rt.SymDict) else dict.__getitem__(node, k)
    if not isinstance(node, Cells):
        raise Unsupported("table of another kind")
    c.prove("a row for every cell", node.pos is pos and not node.flat and len(node.buf.vals) == len(row))
    c.prove("labels of the columns", node.names == (tuple(names) if rec else None))
    c.prove("nothing is shared with the source", cells is None or node.buf is not cells.buf)
    # the error of a count is compared before others so that the square roots are known
    for n, a, b in zip(names, node.buf.vals, row):
        c.prove("column {0}".format(n if "(" in n and n in ("count()", "err(count())", "effcount()") else ("mean" if not n.startswith("err") else "error of the mean")), zb(same(tofloat(a), b)))

def table(hb, c, w, p):
    lay = c.choose(len(LAYOUTS), "axes")
    g, f = LAYOUTS[lay]
    h = make_hist(hb, c, g, f, p, w)
    pos, = install_cells(c, [h._shape[:-1]])
    keys = generic_keys(g)
    unfilled = c.choose(2, "unfilled") == 1
    weighted = h._weightparsed is not None
    perms = [x for k in range(min(p, 2) + 1) for x in itertools.permutations(range(p), k)] + ([(2, 0, 1)] if p == 3 else [])
    if lay and len(perms) > 1:
        perms = perms[-2:]
    which = perms[c.choose(len(perms), "profiles")]
    o, kw = options(c, all=lay == 0)
    if unfilled:
        if g:
            raise PathEnd()
        h._content = None
        vals, sumw, sumw2 = [SFloat(z3.RealVal(0))]*(2*p), SFloat(z3.RealVal(0)), SFloat(z3.RealVal(0))
        run(c, h, which, o, kw, vals, sumw, sumw2, pos, [], [], None)
        return
    vals, sumw, sumw2 = columns(c, p, weighted)
    cells = Cells(pos, False, Buf(vals))
    node, has = cells, []
    for i in reversed(range(g)):
        has.insert(0, z3.Bool("has{0}".format(i)))
        node = rt.SymDict(keys[i], has[0], node)
    h._content = node
    run(c, h, which, o, kw, vals, sumw, sumw2, pos, keys, has, cells)

class Gap(object):
    """edges of a split axis; at the generic bin j, the upper edge is written as E(j) + gap with a positive gap"""
    def __init__(self, c, E, n, gap): self.c, self.E, self.n, self.gap, self.j = c, E, n, gap, None
    def edge(self, q):
        q = zint(q)
        if self.j is not None:
            d = z3.simplify(q - self.j)
            if z3.is_int_value(d) and d.as_long() == 1:
                return SFloat(nf(self.E(self.j) + self.gap.r))
        return SFloat(self.E(q))
    def width(self, j):
        if self.j is None:
            self.j = j
            self.c.assume(self.E(z3.simplify(j + 1)) == self.E(j) + self.gap.r)
        return self.gap

def normalized(hb, c, w, f):
    rt.SYMHASH[0] = True
    A = hb.axis
    kinds = ["bin", "split", "cut", "intbin"]
    mine = [c.choose(4, "kind")]
    mine += [mine[0] + (2*c.choose(2, "kind") + 1 if f == 2 else i) for i in range(1, f)]
    mine = [kinds[k % 4] for k in mine]
    axes, widths = [], []
    for i, k in enumerate(mine):
        u, ov, na = c.choose(2) == 1 if i == 0 else i == 1, i % 2 == 0, i % 2 == 1
        e = "x{0}".format(i)
        if k == "bin":
            n = fresh_int("numbins", 1, 2**31 - 4)
            axes.append(must_return(c, "construct", A.bin, e, n, float(i), 5.5, u, ov, na, True))
            width = fresh_real("width")
            declare_positive(c, width.r)
            widths.append((n, u, (lambda v: (lambda j: v))(width)))
            axes[-1].vcwidth = width
        elif k == "split":
            n = fresh_int("nedges", 2, 2**31 - 4)
            E = IdxFn("E{0}".format(i))
            E.binary.append((lambda E, n: (lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < n.z), E.f(a) < E.f(b))))(E, n))
            gap = fresh_real("gap")
            declare_positive(c, gap.r)
            G = Gap(c, E, n, gap)
            edges = rt.SymSeq(n, G.edge, tuple)
            edges.idx, edges.increasing = E, "strictly"
            axes.append(must_return(c, "construct", A.split, e, edges, u, ov, na, True))
            widths.append((n - 1, u, G.width))
        elif k == "cut":
            axes.append(A.cut(e))
            widths.append((2, False, lambda j: SFloat(z3.RealVal(1))))
        else:
            lo, n = fresh_int("min", -2**53, 2**53), fresh_int("numbins", 1, 2**31 - 4)
            axes.append(must_return(c, "construct", A.intbin, e, lo, lo + n - 1, u, ov))
            widths.append((n, u, lambda j: SFloat(z3.RealVal(1))))
    def binwidth(f, args, kwargs): return args[0].vcwidth if hasattr(args[0], "vcwidth") else f(*args, **kwargs)
    rt.SUMMARIES["axis.bin.binwidth"] = binwidth
    h = must_return(c, "construct", hb.hist.Hist, *(axes + [A.profile("y0")]), weight="w" if w == "weight" else None)
    for x, a in zip(h._fixed, axes):
        if hasattr(a, "vcwidth"):
            x.vcwidth = a.vcwidth
    pos, = install_cells(c, [h._shape[:-1]])
    o, kw = options(c, True)
    vals, sumw, sumw2 = columns(c, 1, w == "weight")
    cells = Cells(pos, False, Buf(vals))
    h._content = cells
    def fac():
        """width of the cell times the sum over all cells of count/width"""
        v, finite = SFloat(z3.RealVal(1)), True
        for (n, u, wd), i in zip(widths, pos.idx):
            off = 1 if u else 0
            j = z3.simplify(i.z - off)
            if finite and c.branch(z3.And(j >= 0, j < zint(n))):
                v = fmul(v, wd(j))
            else:
                finite = False
        if not finite:
            v = tofloat(float("inf"))
        T = total(Col(pos, True, None, fdiv_np(sumw, v)))
        declare_positive(c, T.r)
        return fmul(v, T)
    run(c, h, (0,) if o["effcount"] else (), o, kw, vals, sumw, sumw2, pos, [], [], cells, fac)

def drop(hb, c, p):
    g, f = LAYOUTS[c.choose(len(LAYOUTS), "axes")]
    w = ["none", "weight"][c.choose(2, "weight")]
    h = make_hist3(hb, c, g, f, p, w)
    pos, = install_cells(c, [h._shape[:-1]])
    keys = generic_keys(g)
    perms = [x for k in range(1, p + 1) for x in itertools.permutations(range(p), k) if k < 3 or x == (1, 2, 0)]
    if g + f > 1:
        perms = perms[:p]
    gone = perms[c.choose(len(perms), "profiles")]
    vals = [fresh_float("col{0}".format(q)) for q in range(h._shape[-1])]
    cells = Cells(pos, False, Buf(vals))
    node, has = cells, []
    for i in reversed(range(g)):
        has.insert(0, z3.Bool("has{0}".format(i)))
        node = rt.SymDict(keys[i], has[0], node)
    h._content = None if c.choose(2, "unfilled") else node
    t, content = state(h), h._content
    out = must_return(c, "drop", h.drop, *ask(c, h, gone))
    rest = [i for i in range(p) if i not in gone]
    c.prove("source is unchanged", h._content is content and cells.buf.version == 0 and samestate(h, t))
    c.prove("remaining profiles in order", out._profile == tuple(h._profile[i] for i in rest) and out._group == h._group and out._fixed == h._fixed and right_layout(out))
    c.prove("options as before", isinstance(out, hb.hist.Hist) and out._weightoriginal == h._weightoriginal and out._filteroriginal == h._filteroriginal and out._defs == h._defs and out._attachment == h._attachment)
    c.prove("nothing is shared with the source", out._defs is not h._defs and out._attachment is not h._attachment)
    if content is None:
        c.prove("unfilled stays unfilled", out._content is None)
        return
    node = out._content
    for k, b in zip(keys, has):
        if not isinstance(node, dict):
            c.prove("a dict for every group axis", False)
            raise PathEnd()
        here = c.branch(zb(node.hasz)) if isinstance(node, rt.SymDict) else (k in node)
        c.prove("groups as in the histogram", z3.BoolVal(bool(here)) == b)
        if not here:
            return
        node = node.get_val() if isinstance(node, rt.SymDict) else dict.__getitem__(node, k)
    if not isinstance(node, Cells):
        raise Unsupported("contents of another kind")
    c.prove("cells as before", node.pos is pos and not node.flat and node.names is None)
    c.prove("nothing is shared with the source", node.buf is not cells.buf)
    want = [x for i in rest for x in vals[2*i:2*i + 2]] + vals[2*p:]
    c.prove("remaining columns as before", len(node.buf.vals) == len(want) and z3.And([zb(same(tofloat(a), tofloat(b))) for a, b in zip(node.buf.vals, want)]))

def make_hist3(hb, c, g, f, p, w):
    ax = hb.axis
    return must_return(c, "construct", hb.hist.Hist, *(axes(hb, g, f, 0) + [ax.profile("y{0}".format(i)) for i in range(p)]), weight="w" if w == "weight" else None, filter="x0 > 0", defs={"d": "e + 1"})
_make = make_hist
def make_hist(hb, c, g, f, p, w):
    ax = hb.axis
    return must_return(c, "construct", hb.hist.Hist, *(axes(hb, g, f, 0) + [ax.profile("y{0}".format(i)) for i in range(p)]), weight="w" if w == "weight" else None, filter="x0 > 0" if w == "filter" else None)

def refused(hb, c):
    h = make_hist(hb, c, 1, 1, 2, "none")
    install_cells(c, [h._shape[:-1]])
    h._content = {}
    bad = [hb.axis.profile("other"), "other", "x0", hb.axis.groupby("g0"), h._fixed[0]][c.choose(5)]
    which = c.choose(2)
    args = [h._profile[1], bad] if c.choose(2) else [bad]
    st, out = call(lambda: h.table(*args) if which else h.drop(*args))
    c.prove("refused", st == "raised" and isinstance(out, (IndexError, KeyError, ValueError, TypeError)), why=repr(out))
    c.prove("source is unchanged", h._content == {})
    st, out = call(lambda: h.table(other=True))
    c.prove("unknown options are refused", st == "raised" and isinstance(out, TypeError), why=repr(out))
