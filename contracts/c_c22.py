"""C22: rejected fills.

  Hist.fill, Book.fill   requires  a field that the histogram(s) need is missing, or is an array of another length (1, 0 or any other)
                         raises    an exception
                         ensures   every bin content of every histogram is as before (unfilled: still nothing counted); a following valid
                                   fill adds exactly what C05 says, as if nothing had happened
  and single numbers     requires  some fields are single numbers (Python or 0-dimensional)
                         ensures   what C05 says for the array that repeats the number
"""
from fillmodel import *
import c_c05
from c_c05 import lemmas

ASSUMPTIONS = c_c05.ASSUMPTIONS + ["numpy.full(n, x) repeats x n times; combining arrays of different lengths, neither of which is 1, raises"]
BOUNDS = ["numbers of axes are enumerated as in C05; one field at a time is wrong (any field), in the quick tier one, all but one or all of the fields are single numbers, in the thorough tier any subset; lengths, data and prior contents are unbounded"]

CONFIGS = [(0, 1, 0, "none"), (0, 2, 0, "none"), (0, 1, 1, "expr"), (1, 0, 0, "expr"), (1, 1, 1, "none"), (2, 1, 1, "expr"), (1, 1, 0, "const"), (0, 0, 2, "const"), (0, 3, 1, "expr")]

def fields(cfg):
    g, f, p, w = cfg
    return ["g%d" % i for i in range(g)] + ["x%d" % i for i in range(f)] + ["y%d" % i for i in range(p)] + (["w"] if w == "expr" else [])

def units(hb, tier):
    yield ("lemmas of index arithmetic", lemmas, [], ["lemma"])
    for cfg in CONFIGS:
        if tier == "quick" and cfg == (0, 3, 1, "expr"):
            continue
        names = fields(cfg)
        for bad in names:
            for mode in ("missing", "length", "one"):
                if mode != "missing" and len(names) == 1:
                    continue          # a single array has no other to disagree with
                if tier == "quick" and mode == "one" and bad not in (names[0], names[-1]):
                    continue
                yield ("Hist.fill with {0} group, {1} fixed, {2} profile axes, weight {3}; field {4}: {5}".format(*(cfg + (bad, mode))), (lambda cfg, bad, mode: (lambda c: rejected(hb, c, cfg, bad, mode)))(cfg, bad, mode),
                       ["hist.Hist.fill", "hist.Hist._prefill", "fill.Fillable._fill", "fill.Fillable.fields", "hist.Hist._postfill (fillblock, filldict)"], ["rejected", "contents as before", "contribution to"])
        yield ("Hist.fill with {0} group, {1} fixed, {2} profile axes, weight {3}; single numbers".format(*cfg), (lambda cfg: (lambda c: scalars(hb, c, cfg, tier)))(cfg),
               ["hist.Hist.fill", "fill.Fillable._fill (full)"], ["contribution to"])
    for bad in ("a", "b", "w"):
        for mode in ("missing", "length", "one"):
            for nested in (False, True):
                if tier == "quick" and nested != (mode == "length"):
                    continue
                yield ("Book.fill, {2} book; field {0}: {1}".format(bad, mode, "nested" if nested else "flat"), (lambda bad, mode, nested: (lambda c: book(hb, c, bad, mode, nested)))(bad, mode, nested),
                       ["book.Book.fill", "book.Book.fields", "book.Book._goals", "book.Book._streamline", "fill.Fillable._fill", "hist.Hist._prefill"], ["rejected", "contents as before", "valid fill"])

def spoil(c, base, data, bad, mode):
    out = dict(data)
    a = data[bad]
    if mode == "missing":
        del out[bad]
        return out
    if mode == "length":
        n = fresh_int("otherlength", 0, 2**31 - 1)
        c.assume(z3.And(n.z != zint(base.length), n.z != 1, zint(base.length) != 1))
    else:
        n = fresh_int("otherlength", 1, 1)
        c.assume(n.z == 1)
        c.assume(zint(base.length) != 1)
    if c.feasible(z3.BoolVal(True)) == z3.unsat:
        raise PathEnd()
    out[bad] = EArr(a.v, Base(length=n), a.kind, a.bits)
    return out

def as_before(c, h, content, leaf0, dicts, before):
    if content is None:
        now = h._content
        empty = now is None or (isinstance(now, FillLeaf) and not now.contrib and now.prior is False) or (isinstance(now, dict) and not isinstance(now, rt.SymDict) and len(now) == 0)
        c.prove("contents as before: nothing is counted", empty)
    else:
        c.prove("contents as before: the same arrays", h._content is content and leaf0.version == 0 and not leaf0.contrib)
        c.prove("contents as before: the same groups", all(d.hasz is hz and d.val_ is v for d, hz, v in before))

def rejected(hb, c, cfg, bad, mode):
    def first(c, h, base, data, leaf0, dicts):
        wrong = spoil(c, base, data, bad, mode)
        content = h._content
        before = [(d, d.hasz, d.val_) for d in dicts]
        st, e = call(h.fill, wrong)
        c.prove("rejected: field {0} {1}".format(bad, mode), st == "raised", why="accepted")
        as_before(c, h, content, leaf0, dicts, before)
        c.prove("the user's arrays are not modified by a rejected fill", all(a.version == 0 for a in wrong.values()))
    c_c05.fill(hb, c, *cfg, first=first)

class Scalar0(npf.ndarray):
    """a 0-dimensional array, or a number about to become one"""
    def __init__(self, arr, base):
        self.arr, self.shape, self.dtype, self.base = arr, (), arr.dtype, base
    def vc_len(self): raise TypeError("len() of unsized object")

def scalars(hb, c, cfg, tier):
    hooks = {}
    def modes(c, base, data):
        given, arrays = {}, 0
        names = sorted(data)
        subsets = [[n] for n in names] + ([[m for m in names if m != n] for n in names] if len(names) > 2 else []) + ([names] if len(names) > 1 else [])
        chosen = subsets[c.choose(len(subsets))] if tier == "quick" else None
        for n in names:
            if (n in chosen if chosen is not None else c.choose(2) == 0):
                given[n] = Scalar0(data[n], base)
            else:
                given[n] = data[n]
                arrays += 1
        if arrays == 0:
            # nothing but numbers: one entry
            c.assume(zint(base.length) == 1)
        def full(n, x, dtype=None):
            if isinstance(n, npf.SLen) or (type(n) is int and n == 1 and arrays == 0):
                if isinstance(x, Scalar0):
                    return EArr(x.arr.v, base, x.arr.kind, x.arr.bits)
                if type(n) is int and isinstance(plain(x), (int, float)):
                    return EArr(tofloat(plain(x)) if isinstance(plain(x), float) else plain(x), base)
            return NotImplemented
        def ones(n, dtype=None):
            if type(n) is int and n == 1 and arrays == 0 and dtype is None:
                return EArr(tofloat(1.0), base, "f")
            return NotImplemented
        npf.HOOKS["full"] = [full]
        npf.HOOKS["ones"] = [ones]
        return given
    try:
        c_c05.fill(hb, c, *cfg, modes=modes)
    finally:
        npf.HOOKS.pop("full", None)
        npf.HOOKS.pop("ones", None)

def book(hb, c, bad, mode, nested):
    """two histograms with a shared field; the wrong field may be one that only the last one needs"""
    H = hb.hist.Hist
    h1 = H(hb.axis.intbin("a", 1, 3, underflow=False, overflow=False))
    h2 = H(hb.axis.intbin("b", 1, 3, underflow=False, overflow=False), hb.axis.profile("a"))
    h3 = H(hb.axis.intbin("a", 1, 3, underflow=False, overflow=False), weight="w")
    hs = [h1, h2, h3]
    bk = hb.book.Book()
    for n, h in zip(("one", "n/two", "n/three") if nested else ("one", "two", "three"), hs):
        bk[n] = h
    base = Base(length=fresh_int("length", 0, 2**31 - 1))
    cell = [fresh_int("cell", 0, 2)]
    ia, ib = fresh_int("ia", 0, 2), fresh_int("ib", 0, 2)
    y, w = fresh_real("aval"), fresh_float("w")
    data = {"a": EArr(y, base, "f"), "b": EArr(fresh_real("bval"), base, "f"), "w": EArr(w, base, "f")}
    kern = {id(data["a"].v): ia, id(data["b"].v): ib}
    def kernel(values, *more):
        if not isinstance(values, EArr) or id(values.v) not in kern:
            raise Unsupported("kernel called with something else than a field")
        return EArr(kern[id(values.v)], values.base, "i", 32, None, (), True)
    lib = hb.calc.library
    saved = lib["histbook.intbin__"]
    lib["histbook.intbin__"] = kernel
    def zeros(s, dtype=None):
        for h in hs:
            if s is h._shape:
                return FillLeaf(s, cell, [3], False)
        return NotImplemented
    npf.HOOKS["zeros"] = [zeros]
    leaves = {}
    for i, h in enumerate(hs):
        if c.choose(2) == 1:
            leaves[i] = h._content = FillLeaf(h._shape, cell, [3], True)
    before = [h._content for h in hs]
    try:
        wrong = spoil(c, base, data, bad, mode)
        st, e = call(bk.fill, wrong)
        c.prove("rejected: field {0} {1}".format(bad, mode), st == "raised", why="accepted")
        for i, h in enumerate(hs):
            as_before(c, h, before[i], leaves.get(i), [], [])
        must_return(c, "fill", bk.fill, data)
    finally:
        lib["histbook.intbin__"] = saved
    one = tofloat(1.0)
    wt = ite(mkbool(zb(w.nan)), tofloat(0.0), w)
    wt2 = ite(mkbool(zb(w.nan)), tofloat(0.0), fmul(w, w))
    want = {0: {h1._sumwindex: (ia, one)}, 1: {h2._sumwindex: (ib, one), h2._profile[0]._sumwxindex: (ib, y), h2._profile[0]._sumwx2index: (ib, fmul(y, y))}, 2: {h3._sumwindex: (ia, wt), h3._sumw2index: (ia, wt2)}}
    for i, h in enumerate(hs):
        for col, (ix, v) in want[i].items():
            c.prove("valid fill after a rejected one: histogram {0}, column {1}".format(i, col), isinstance(h._content, FillLeaf) and zb(same(h._content.total(col), ite(mkbool(ix.z == cell[0].z), v, tofloat(0.0)))))
