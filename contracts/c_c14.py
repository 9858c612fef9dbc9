"""C14: selection.  Projectable.select on a histogram whose axis (any options, any number of bins) is asked about, composed with the old and
the new axis's kernels at a generic data value x, with any threshold T, written on either side of the comparison:

  accepted   there is a number E (the new outer edge) with |T - E| < tolerance such that for every x
             the new axis counts x  iff  the old axis counts x and x satisfies the comparison with E
             and then, at the same bin: the new contents at the new index are the old contents at the old index, every column
             contents and axis have the same number of bins; other axes, groups, profiles and options as before; nothing shared
  must be accepted   T exactly an edge and the inequality that the closed side of the bins decides, if bins are left over
  refused    ValueError; nothing changed
  groupby    a group is kept iff its key satisfies the comparison, membership, or combination of them by and/or
  groupbin   a group is kept iff the numbers in its interval satisfy the comparison with E, as above
  cut        the cut's axis is gone and its True (or False) half is left
"""
from slices import *
from fractions import Fraction

ASSUMPTIONS = ["float64 arithmetic is treated as exact real arithmetic extended with infinities and NaN",
               "thresholds within the tolerance of an edge stand for the edge (documented in select)",
               "slices of numpy arrays follow Python's slice arithmetic; copy() gives a new array"]
BOUNDS = ["the histogram has the selected axis and a listed choice of others; conditions are of the listed forms (comparison either way round, nan, inf, and, or, in, not in, not); axis options, numbers of bins, thresholds and contents are unbounded"]

OPS = ["<", "<=", ">", ">=", "==", "!="]
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}

def units(hb, tier):
    fs = ["proj.Projectable.select", "proj.Projectable._select", "proj.Projectable._selectaxis"]
    for kind in ("bin", "split", "intbin"):
        for op in OPS:
            yield ("select {0} axis, {1}".format(kind, op), (lambda kind, op: (lambda c: fixed(hb, c, kind, op)))(kind, op), fs + ["axis.{0}._select".format(kind), "axis.{0}.*".format(kind), "calc.histbook_{0}".format(kind)], None)

        yield ("select {0} axis at an edge".format(kind), (lambda kind: (lambda c: edge(hb, c, kind)))(kind), fs + ["axis.{0}._select".format(kind)], None)
    for case in CASES:
        yield ("select groups by key, {0}".format(case[0]), (lambda case: (lambda c: groupby(hb, c, case)))(case), fs + ["axis.groupby._select", "hist.Hist._copycontent"], None)
    for op in OPS:
        yield ("select bins of a groupbin axis, {0}".format(op), (lambda op: (lambda c: groupbin(hb, c, op)))(op), fs + ["axis.groupbin._select", "hist.Hist._copycontent"], None)
    yield ("select bins of a groupbin axis at an edge", lambda c: edgegroup(hb, c), fs + ["axis.groupbin._select"], None)
    for case in CUTS:
        yield ("select on a cut {0}, {1}".format(*case[:2]), (lambda case: (lambda c: cuts(hb, c, case)))(case), fs + ["axis.cut._select"], None)
    for how in ("range", "cut", "group", "three"):
        yield ("several conditions, {0}".format(how), (lambda how: (lambda c: both(hb, c, how)))(how), fs + ["axis.intbin._select", "axis.cut._select", "axis.groupby._select"], None)
    yield ("conditions that no axis can select", lambda c: other(hb, c), fs, None)

def cmp_z(op, x, e):
    """x op e for extended reals"""
    x, e = tofloat(x), tofloat(e)
    return zb({"<": lambda: lt(x, e), "<=": lambda: Or(lt(x, e), eqv(x, e)), ">": lambda: lt(e, x), ">=": lambda: Or(lt(e, x), eqv(x, e)), "==": lambda: eqv(x, e), "!=": lambda: Not(eqv(x, e))}[op]())

def kernel(hb, axis, x, kind):
    goals = axis._goals(hb.expr.Name("x"))
    out = hb.calc.calculate(goals[0].goal, {"x": EArr(x, Base(), "i" if kind == "intbin" else "f")})
    return zb(out.mask if out.mask is not None else False), out.v

def make_axis(hb, c, kind, flags=True):
    """any axis of the kind, any value of the data, and how to get thresholds"""
    if kind == "intbin":
        lo, hi = fresh_int("min", -2**53, 2**53), fresh_int("max", -2**53, 2**53)
        c.assume(z3.And(lo.z <= hi.z, hi.z - lo.z < 2**31 - 4))
        u, o = (fresh_bool("underflow"), fresh_bool("overflow")) if flags else (True, True)
        x = fresh_int("value", -2**62, 2**62)
        ax = must_return(c, "construct", hb.axis.intbin, "x", lo, hi, u, o)
        return ax, x, lambda: fresh_real("T"), dict(lo=lo, hi=hi)
    u, o, na, cl = [fresh_bool(n) for n in ("underflow", "overflow", "nanflow", "closedlow")]
    if not flags:
        u, o, na = True, True, True
    if kind == "bin":
        n, low, width = fresh_int("numbins", 0, 2**31 - 4), fresh_real("low"), fresh_real("width")
        declare_positive(c, width.r)
        if c.branch(n.z > 0):
            declare_positive(c, z3.ToReal(n.z))
            high = low + n*width
        else:
            n, high = 0, low
        c.assume(z3.Or(zint(n) > 0, zb(asbool(u)), zb(asbool(o)), zb(asbool(na))))
        x = any_float("y")
        if x.fin() is True:
            x = low + width*x
        ax = must_return(c, "construct", hb.axis.bin, "x", n, low, high, u, o, na, cl)
        return ax, x, lambda: low + width*fresh_real("t"), dict(n=n, low=low, width=width, cl=cl)
    n = fresh_int("nedges", 1, 2**31 - 4)
    E = IdxFn("E", binary=[lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n.z), E.f(i) < E.f(j))])
    edges = rt.SymSeq(n, lambda q: SFloat(E(q)), tuple)
    edges.idx, edges.increasing = E, "strictly"
    c.assume(z3.Or(n.z > 1, zb(asbool(u)), zb(asbool(o)), zb(asbool(na))))
    x = any_float("value")
    ax = must_return(c, "construct", hb.axis.split, "x", edges, u, o, na, cl)
    return ax, x, lambda: fresh_real("T"), dict(n=n, E=E, cl=cl)

def texts(op, name="x"):
    return [("{1} {0} T".format(op, name), op), ("T {0} {1}".format(FLIP[op], name), op)]

PI, EU = 3.141592653589793, 2.718281828459045
FORMS = [None, ("(T - pi)", lambda T: T + PI), ("(T + pi)", lambda T: T - PI), ("(pi*T)", lambda T: T/PI), ("(T/pi)", lambda T: T*PI), ("(T - (e + pi))", lambda T: T + EU + PI), ("(T/(pi*e))", lambda T: T*PI*EU)]

def fixed(hb, c, kind, op):
    rt.SYMHASH[0] = True
    main = c.choose(3, "histogram")
    ax, x, thr, par = make_axis(hb, c, kind, main == 0)
    special = c.choose(3 if kind != "intbin" else 2, "threshold") if main == 0 else 0
    if special == 1 and op in ("==", "!=") or special == 2 and op not in ("==", "!="):
        raise PathEnd()
    T = thr() if special == 0 else (float("nan") if special == 2 else (float("inf") if op in ("<", "<=") else float("-inf")))
    text = texts(op)[1 if main == 1 else 0][0]
    K = T
    if main == 1 and kind == "split":
        # the threshold written with a constant that has a name
        form = c.choose(len(FORMS), "form")
        if form > 0:
            written, back = FORMS[form]
            text, K = text.replace("T", written), back(T)
    A = hb.axis
    others = [A.bin("u", 3, 0, 1), A.cut("v")]
    fx = [[others[0], ax, others[1]], [ax], [others[1], ax]][main]
    h = must_return(c, "construct", hb.hist.Hist, *(fx + [A.profile("y")]), weight="w", defs={"T": hb.expr.Const(K)})
    at = [i for i, a in enumerate(h._fixed) if a is not None and a._expr == "x"][0]
    ax = h._fixed[at]
    fn = colfn("content")
    src = SLeaf([(i, 0, s) for i, s in enumerate(h._shape[:-1])], fn, h._shape[-1])
    install([])
    h._content = src if main != 2 else None
    t = state(h)
    st, out = call(lambda: h.select(text))
    c.prove("source is unchanged", (h._content is src or h._content is None) and src.version == 0 and samestate(h, t))
    tol = 1e-12
    if st == "raised":
        c.prove("refused with ValueError", isinstance(out, ValueError), why=repr(out))
        return
    c.prove("a new histogram with an axis like the old", isinstance(out, hb.hist.Hist) and len(out._fixed) == len(h._fixed) and len(out._profile) == 1 and type(out._fixed[at]) is type(ax))
    new = out._fixed[at]
    c.prove("other axes and options as before", all(i == at or out._fixed[i] == h._fixed[i] for i in range(len(h._fixed))) and out._profile == h._profile and out._weightoriginal == "w" and out._defs == h._defs and right_layout(out) and new._expr == ax._expr)
    if h._content is None:
        c.prove("unfilled stays unfilled", out._content is None)
        return
    leaf = out._content
    c.prove("contents are an array of all axes", isinstance(leaf, SLeaf) and [d[0] for d in leaf.dims] == list(range(len(h._fixed))) and not leaf.fixed)
    c.prove("nothing is shared with the source", leaf.buf is not src.buf)
    tot = new.totbins
    c.prove("as many bins as the axis", z3.And([zint(d[2]) == zint(s) for d, s in zip(leaf.dims, out._shape)] + [zint(out._shape[at]) == zint(tot)]))
    c.prove("bins of the other axes untouched", z3.And([zint(d[1]) == 0 for d in leaf.dims if d[0] != at] + [z3.BoolVal(True)]))
    # the edge
    m0, i = kernel(hb, ax, x, kind)
    off = leaf.dims[at][1]
    if kind == "bin" and not (type(new._numbins) is int and new._numbins == 0):
        new = restate(c, new, ax, off, par)
    m1, j = kernel(hb, new, x, kind)
    xf = tofloat(x)
    if special == 2:
        passes = zb(xf.nan) if op == "==" else z3.Not(zb(xf.nan))
    elif special == 1:
        passes = z3.Not(zb(xf.nan))
    else:
        if op in ("==", "!="):
            c.prove("a condition that cuts through bins is refused", False)
            return
        low_side = op in (">", ">=")
        if kind == "intbin":
            E = (new.min if low_side else new.max)
            E = E - 1 if op == ">" else (E + 1 if op == "<" else E)
        else:
            E = new.low if low_side else new.high
        E = tofloat(E)
        d = fadd(tofloat(T), fneg(E))
        c.prove("decided at an edge within the tolerance", z3.And(d.r < tofloat(tol).r, -d.r < tofloat(tol).r))
        passes = cmp_z(op, x, E)
    c.prove("the new axis counts exactly what the old one counts and satisfies the condition", z3.Not(m1) == z3.And(z3.Not(m0), passes))
    c.require(z3.And(z3.Not(m1), z3.Not(m0)))
    c.prove("same bin", zint(i) == zint(off) + zint(j))
    for q in range(h._shape[-1]):
        c.prove("same contents at the bin of a value, column {0}".format(q), leaf.at(q, at, j) == fn(q, zint(i)))

def one(flag):
    return z3.If(zb(asbool(flag)), z3.IntVal(1), z3.IntVal(0))

def restate(c, new, ax, off, par):
    """the new axis with its bins written as a run of the old one's: shown equal, attribute by attribute"""
    n, e = new._numbins, zint(off) + one(new._underflow) - one(ax._underflow)
    lo, hi = tofloat(new._low), tofloat(new._high)
    w, low = par["width"], par["low"]
    c.prove("edges are edges of the old axis", z3.And(lo.r == (low + w*SInt(e)).r, hi.r == (low + w*(SInt(e) + n)).r))
    out = new.__class__.__new__(new.__class__)
    out.__dict__.update(new.__dict__)
    if c.branch(zint(n) > 0):
        k = fresh_int("bins left", 1)
        c.assume(k.z == zint(n))
        declare_positive(c, z3.ToReal(k.z))
        m = fresh_int("first bin")
        c.assume(m.z == e)
        out._numbins, out._low, out._high = k, low + w*m, low + w*m + w*k
    return out

def edge(hb, c, kind):
    """a threshold that is an edge, and an inequality that the closed side of the bins decides: must be accepted if bins are left"""
    rt.SYMHASH[0] = True
    ax, x, thr, par = make_axis(hb, c, kind)
    if kind == "intbin":
        op = ["<", "<=", ">", ">="][c.choose(4)]
        e = fresh_int("edge")
        c.assume(z3.And(par["lo"].z <= e.z, e.z <= par["hi"].z))
        T = e
        left = {"<": e.z - par["lo"].z, "<=": e.z - par["lo"].z + 1, ">": par["hi"].z - e.z, ">=": par["hi"].z - e.z + 1}[op]
    else:
        op = (["<", ">="] if c.branch(par["cl"].z) else [">", "<="])[c.choose(2)]
        e = fresh_int("edge", 0)
        n = zint(par["n"]) - (1 if kind == "split" else 0)
        c.assume(e.z <= n)
        T = par["low"] + par["width"]*e if kind == "bin" else SFloat(par["E"](e.z))
        left = e.z if op in ("<", "<=") else n - e.z
    c.assume(left + (one(ax._underflow if op in ("<", "<=") else ax._overflow) if kind != "intbin" else 0) > 0)
    h = must_return(c, "construct", hb.hist.Hist, ax, defs={"T": hb.expr.Const(T)})
    install([])
    h._content = SLeaf([(i, 0, s) for i, s in enumerate(h._shape[:-1])], colfn("content"), h._shape[-1])
    out = must_return(c, "a condition at an edge is accepted", h.select, texts(op)[c.choose(2)][0])
    new = out._fixed[0]
    c.prove("as many finite bins as lie on that side", zint(new._numbins if kind == "bin" else new.numbins) == left)

# ------------------------------------------------------------------ groups

def place(keys, key):
    return [i for i, k in enumerate(keys) if k is key][0]

class OpenKey(rt.Key):
    """a key of any type: how it compares with a constant is arbitrary"""
    open = True
    def rel(self, o, op):
        return SBool(z3.Bool("key {0} {1}".format(op, o if isinstance(o, (str, int, float)) else tofloat(o).r)))
    def eq(self, o): return self.rel(o, "==")
    def order(self, o, op): return self.rel(o, op)

def K(op, v):
    if op == "!=":
        return z3.Not(K("==", v))
    return z3.Bool("key {0} {1}".format(op, v))

CASES = [("g == 1", lambda: K("==", 1)), ("1 == g", lambda: K("==", 1)), ("g != 1", lambda: K("!=", 1)), ("g < 3", lambda: K("<", 3)), ("3 > g", lambda: K("<", 3)), ("g <= 3", lambda: K("<=", 3)),
         ("3 >= g", lambda: K("<=", 3)), ("g > 3", lambda: K(">", 3)), ("3 < g", lambda: K(">", 3)), ("g >= 3", lambda: K(">=", 3)), ("3 <= g", lambda: K(">=", 3)), ("g == 'a'", lambda: K("==", "a")), ("g < 'a'", lambda: K("<", "a")),
         ("g in {1, 2}", lambda: z3.Or(K("==", 1), K("==", 2))), ("g not in {1, 2}", lambda: z3.Not(z3.Or(K("==", 1), K("==", 2)))), ("g in {'a', 'b', 'c'}", lambda: z3.Or(K("==", "a"), K("==", "b"), K("==", "c"))),
         ("g == 1 or g == 2", lambda: z3.Or(K("==", 1), K("==", 2))), ("g == 1 or g == 2 or g > 7", lambda: z3.Or(K("==", 1), K("==", 2), K(">", 7))),
         ("g > 1 and g < 4", lambda: z3.And(K(">", 1), K("<", 4))), ("g > 1 and g < 4 and g != 2", lambda: z3.And(K(">", 1), K("<", 4), K("!=", 2))),
         ("(g == 1 or g > 3) and g != 5", lambda: z3.And(z3.Or(K("==", 1), K(">", 3)), K("!=", 5))), ("g > 1 and g < 4 or g > 6 and g < 8", lambda: z3.Or(z3.And(K(">", 1), K("<", 4)), z3.And(K(">", 6), K("<", 8)))),
         ("not g == 1", lambda: K("!=", 1)), ("not (g == 1 or g == 2)", lambda: z3.And(K("!=", 1), K("!=", 2))), ("not g in {1, 2}", lambda: z3.Not(z3.Or(K("==", 1), K("==", 2)))), ("g == T", lambda: K("==", "T")), ("g < T", lambda: K("<", "T")), ("T <= g", lambda: K(">=", "T"))]

def grouphist(hb, c, where, ax, key, extra=None):
    """a histogram with the group axis at a position among others; contents seen at its generic key (and generic other keys)"""
    A = hb.axis
    other = [NameKey("other0"), NameKey("other1")]
    layout = [([ax], [key]), ([A.groupby("k"), ax], [other[0], key]), ([ax, A.groupbin("k", 0.5)], [key, other[1]])][where]
    h = must_return(c, "construct", hb.hist.Hist, *(layout[0] + [A.bin("u", 3, 0, 1), A.profile("y")]), **dict({"weight": "w"}, **(extra or {})))
    install([h._shape])
    h._content, has, vals = make_content(c, h, layout[1], "h")
    return h, layout[1], has, vals

def keeps(c, h, content, keys, has, vals, at, passes, out, t, snap):
    c.prove("source is unchanged", h._content is content and unchanged(content, snap) and samestate(h, t))
    c.prove("axes and options as before", out._group == h._group and out._fixed == h._fixed and out._profile == h._profile and out._weightoriginal == h._weightoriginal and right_layout(out))
    c.prove("nothing is shared with the source", not any(i in reach(content) for i in reach(out._content)))
    v = view(c, out._content, keys)
    want = lambda i: z3.And([zb(b) for b in has[:i + 1]] + ([passes] if i >= at else []) + [z3.BoolVal(True)])
    if v is NOTHING:
        c.prove("a group is kept iff its key satisfies the condition", False)
        return
    for i in range(len(v.has)):
        c.prove("a group is kept iff its key satisfies the condition", z3.BoolVal(bool(v.has[i])) == want(i))
    if v.vals is not None:
        c.prove("contents as before", z3.And([zb(same(a, b)) for a, b in zip(v.vals.vals, vals)]))
        c.prove("contents are an array of all axes", sameshape(v.vals.shape, h._shape))

def groupby(hb, c, case):
    text, want = case
    rt.SYMHASH[0] = True
    key = OpenKey("key")
    T = fresh_real("T")
    h, keys, has, vals = grouphist(hb, c, c.choose(3), hb.axis.groupby("g"), key, {"defs": {"T": hb.expr.Const(T)}} if "T" in text else {})
    content, snap, t = h._content, snapshot(h._content), state(h)
    if c.choose(2, "unfilled"):
        h._content = None
        out = must_return(c, "select", h.select, text)
        c.prove("unfilled stays unfilled", out._content is None)
        return
    out = must_return(c, "select", h.select, text)
    keeps(c, h, content, keys, has, vals, place(keys, key), want(), out, t, snap)

def groupbin(hb, c, op):
    rt.SYMHASH[0] = True; c.numberkeys = True
    w, origin, cl = fresh_real("binwidth"), fresh_real("origin"), fresh_bool("closedlow")
    declare_positive(c, w.r)
    ax = must_return(c, "construct", hb.axis.groupbin, "g", w, origin, True, cl)
    nan = c.choose(2, "key is NaN") == 1
    k = fresh_int("bin")
    key = "NaN" if nan else origin + w*k
    # any threshold is the nearest edge m and a distance from it, in bins
    m, r = fresh_int("edge"), fresh_real("off")
    c.assume(z3.And(r.r > z3.Q(-1, 2), r.r < z3.Q(1, 2)))      # halfway: no edge within the tolerance, or bins narrower than it
    T = origin + w*m + w*r if c.choose(2, "threshold is nan") == 0 else float("nan")
    h, keys, has, vals = grouphist(hb, c, c.choose(3), ax, key, {"defs": {"T": hb.expr.Const(T)}})
    content, snap, t = h._content, snapshot(h._content), state(h)
    st, out = call(lambda: h.select(texts(op, "g")[c.choose(2)][0]))
    if st == "raised":
        c.prove("refused with ValueError", isinstance(out, ValueError), why=repr(out))
        c.prove("source is unchanged", h._content is content and unchanged(content, snap) and samestate(h, t))
        return
    if isinstance(T, float):
        passes = z3.BoolVal(nan if op == "==" else not nan)
        c.prove("comparison with nan", op in ("==", "!="))
    else:
        low = op in (">", ">=")
        c.prove("a condition that cuts through bins is refused", op in ("<", "<=", ">", ">=") and z3.BoolVal(op in ("<", ">=")) == cl.z)
        d = w*r
        c.prove("decided at an edge within the tolerance", z3.And(d.r < tofloat(1e-12).r, -d.r < tofloat(1e-12).r))
        passes = z3.BoolVal(False) if nan else (k.z >= m.z if low else k.z < m.z)
    keeps(c, h, content, keys, has, vals, place(keys, key), passes, out, t, snap)

def edgegroup(hb, c):
    rt.SYMHASH[0] = True
    w, origin, cl = fresh_real("binwidth"), fresh_real("origin"), fresh_bool("closedlow")
    declare_positive(c, w.r)
    ax = must_return(c, "construct", hb.axis.groupbin, "g", w, origin, True, cl)
    op = (["<", ">="] if c.branch(cl.z) else [">", "<="])[c.choose(2)]
    h = must_return(c, "construct", hb.hist.Hist, ax, defs={"T": hb.expr.Const(origin + w*fresh_int("edge"))})
    out = must_return(c, "a condition at an edge is accepted", h.select, texts(op, "g")[c.choose(2)][0])
    c.prove("a condition at an edge is accepted", isinstance(out, hb.hist.Hist))

# ------------------------------------------------------------------ cuts, groups above, several conditions

CUTS = [("p", "p", 1), ("p", "not p", 0), ("p", "p == True", 1), ("p", "p == False", 0), ("p", "p != True", 0), ("p", "p != False", 1), ("a < 3", "a < 3", 1), ("a < 3", "3 > a", 1), ("a*b", "a*b == True", 1), ("a*b", "b*a == False", 0)]
def cuts(hb, c, case):
    expr, text, half = case
    A = hb.axis
    where = c.choose(4)
    ax = A.cut(expr)
    fx = [[ax], [A.bin("u", 3, 0, 1), ax], [ax, A.intbin("v", 0, 3)], [A.groupby("k"), A.bin("u", 3, 0, 1), ax, A.intbin("v", 0, 3)]][where]
    h = must_return(c, "construct", hb.hist.Hist, *(fx + [A.profile("y")]))
    at = [i for i, a in enumerate(h._fixed) if type(a) is A.cut][0]
    fn = colfn("content")
    src = SLeaf([(i, 0, s) for i, s in enumerate(h._shape[:-1])], fn, h._shape[-1])
    key = NameKey("key")
    has = z3.Bool("has")
    install([])
    h._content = src if where != 3 else rt.SymDict(key, has, src)
    t, content = state(h), h._content
    out = must_return(c, "select", h.select, text)
    c.prove("source is unchanged", h._content is content and src.version == 0 and samestate(h, t))
    c.prove("the cut's axis is gone and the others are as before", out._group == h._group and out._fixed == tuple(a for i, a in enumerate(h._fixed) if i != at) and out._profile == h._profile and right_layout(out))
    leaf = below(c, out._content, key, has) if where == 3 else out._content
    if leaf is None:
        return
    c.prove("contents are an array of the other axes", isinstance(leaf, SLeaf) and [d for d in leaf.dims] == [(i, 0, s) for i, s in enumerate(h._shape[:-1]) if i != at] and leaf.n == h._shape[-1])
    c.prove("nothing is shared with the source", leaf.buf is not src.buf)
    for q in range(leaf.n):
        c.prove("the half that satisfies the condition is left", leaf.at(q, at, 0) == fn(q, z3.IntVal(half)))

def below(c, node, key, has):
    """the content of the generic group"""
    if not isinstance(node, dict):
        c.prove("a dict for every group axis", False)
        raise PathEnd()
    v = c.branch(zb(node.hasz)) if isinstance(node, rt.SymDict) else (key in node)
    c.prove("all groups are kept", z3.BoolVal(bool(v)) == has)
    if not v:
        return None
    return node.get_val() if isinstance(node, rt.SymDict) else dict.__getitem__(node, key)

def both(hb, c, how):
    """two conditions on an axis below a group axis, or on two axes"""
    rt.SYMHASH[0] = True
    A = hb.axis
    lo, hi = fresh_int("min", -2**53, 2**53), fresh_int("max", -2**53, 2**53)
    c.assume(z3.And(lo.z <= hi.z, hi.z - lo.z < 2**31 - 4))
    ax = must_return(c, "construct", A.intbin, "x", lo, hi, True, True)
    S, T = fresh_int("S"), fresh_int("T")
    x = fresh_int("value", -2**62, 2**62)
    key, has = OpenKey("key"), z3.Bool("has")
    fx = [A.groupby("g"), A.cut("p"), ax]
    text = {"range": "x >= S and x < T", "cut": "p and x <= T", "group": "g == 1 and x > S", "three": "x > S and not p and x <= T and g != 1"}[how]
    h = must_return(c, "construct", hb.hist.Hist, *fx, defs={"S": hb.expr.Const(S), "T": hb.expr.Const(T)})
    at = [i for i, a in enumerate(h._fixed) if type(a) is A.intbin][0]
    other = 1 - at
    fn = {}
    def cell(q, i):
        fn.setdefault(q, z3.Function("col{0}".format(q), z3.IntSort(), z3.RealSort()))
        return fn[q](z3.simplify(i))
    src = SLeaf([(i, 0, s) for i, s in enumerate(h._shape[:-1])], cell, h._shape[-1])
    install([])
    h._content = rt.SymDict(key, has, src)
    t, content = state(h), h._content
    st, out = call(lambda: h.select(text))
    c.prove("source is unchanged", h._content is content and src.version == 0 and samestate(h, t))
    if st == "raised":
        c.prove("refused with ValueError", isinstance(out, ValueError), why=repr(out))
        inside = {"range": z3.And(lo.z <= S.z, S.z < T.z, T.z <= hi.z), "cut": z3.And(lo.z <= T.z, T.z <= hi.z), "group": z3.And(lo.z <= S.z, S.z < hi.z), "three": z3.And(lo.z <= S.z, S.z < T.z, T.z <= hi.z)}[how]
        c.prove("conditions at edges are accepted", z3.Not(inside))
        return
    keep = {"range": z3.BoolVal(True), "cut": z3.BoolVal(True), "group": K("==", 1), "three": K("!=", 1)}[how]
    node = out._content
    if not isinstance(node, dict):
        c.prove("a dict for every group axis", False)
        raise PathEnd()
    v = c.branch(zb(node.hasz)) if isinstance(node, rt.SymDict) else (key in node)
    c.prove("a group is kept iff its key satisfies the condition", z3.BoolVal(bool(v)) == z3.And(has, keep))
    if not v:
        return
    leaf = node.get_val() if isinstance(node, rt.SymDict) else dict.__getitem__(node, key)
    drops = how in ("cut", "three")
    new = [a for a in out._fixed if type(a) is A.intbin][0]
    c.prove("axes", len(out._fixed) == (1 if drops else 2) and len(leaf.dims) == len(out._fixed))
    if drops:
        c.prove("the half that satisfies the condition is left", zint(leaf.fixed.get(other, 7)) == (1 if how == "cut" else 0))
    m0, i = kernel(hb, ax, x, "intbin")
    m1, j = kernel(hb, new, x, "intbin")
    passes = {"range": z3.And(x.z >= S.z, x.z < T.z), "cut": x.z <= T.z, "group": x.z > S.z, "three": z3.And(x.z > S.z, x.z <= T.z)}[how]
    c.prove("the new axis counts exactly what the old one counts and satisfies the condition", z3.Not(m1) == z3.And(z3.Not(m0), passes))
    c.require(z3.And(z3.Not(m1), z3.Not(m0)))
    off = [d for d in leaf.dims if d[0] == at][0][1]
    c.prove("same bin", zint(i) == zint(off) + zint(j))
    c.prove("nothing is shared with the source", leaf.buf is not src.buf)

def other(hb, c):
    """what cannot be selected is refused, and a condition on nothing that the histogram has"""
    A = hb.axis
    h = must_return(c, "construct", hb.hist.Hist, A.groupby("g"), A.bin("x", 3, 0, 1), A.cut("p"), A.profile("y"), filter="z > 0")
    install([])
    text = ["z > 1", "x > 5 or x < 2", "q", "not q", "x + 1 < 2", "y > 0", "x in {1, 2}", "x == 'a'", "p < 1", "p in {True}"][c.choose(10)]
    t = state(h)
    st, out = call(lambda: h.select(text))
    c.prove("refused with ValueError", st == "raised" and isinstance(out, ValueError), why=repr(out))
    c.prove("source is unchanged", samestate(h, t))
