"""C11: scaling of histograms and books.

  Hist.__mul__, __rmul__, __imul__    requires  value any float (also NaN, infinite), int or numpy number; contents None or any tree
                                      ensures   the same groups; every column of every cell is the product; options and axes the same;
                                                unfilled stays unfilled; the original unchanged unless in place (shared contents unchanged even then)
                                      raises    TypeError if the value is not a number; nothing changed
  GenericBook.__mul__, __rmul__, __imul__   the same, member by member, at any depth
"""
from tree import *
import numpy as real

ASSUMPTIONS = ["float64 multiplication is the multiplication of extended reals (rounding ignored)",
               "loops over the keys of a dict treat keys independently (checked: only the entry of the loop's own key is modified)"]
BOUNDS = ["up to 3 group axes, listed choices of fixed and profile axes, names and nesting of books are representative; keys, presence of groups, values and the factor are unbounded"]

def units(hb, tier):
    for s in SHAPES:
        for w in WEIGHTS:
            if tier == "quick" and w != "none" and s not in [(0, 1, 2), (1, 1, 1), (2, 2, 1)]:
                continue
            for op in ("h*v", "v*h", "h*=v"):
                yield ("Hist {0} with {1} group, {2} fixed, {3} profile axes, {4}".format(op, s[0], s[1], s[2], w), (lambda s, w, op: (lambda c: scaling(hb, c, s, w, op)))(s, w, op),
                       ["hist.Hist.__mul__", "hist.Hist.__rmul__", "hist.Hist.__imul__", "hist.Hist.cleared", "hist.Hist._unshare", "hist.Hist._copycontent", "hist.Hist.__init__"], ["product in column"])
    yield ("Hist scaling refused", lambda c: refused(hb, c), ["hist.Hist.__mul__", "hist.Hist.__imul__", "book.GenericBook.__mul__", "book.GenericBook.__imul__"], ["refused"])
    for op in ("h*v", "v*h", "h*=v"):
        yield ("Book {0}".format(op), (lambda op: (lambda c: books(hb, c, op)))(op), ["book.GenericBook.__mul__", "book.GenericBook.__rmul__", "book.GenericBook.__imul__", "book.GenericBook.fromdicts", "book.GenericBook._iteritems"], ["members"])

def factor(c):
    k = c.choose(5)
    if k == 0:
        return fresh_float("factor")
    if k == 1:
        return fresh_int("factor", -2**62, 2**62)
    return [real.float32(2.5), real.int16(-3), True][k - 2]

def scale(op, h, v):
    if op == "h*v":
        return h * v
    if op == "v*h":
        return h.__rmul__(v)
    h *= v
    return h

def expect_product(c, A, v, R, ncols, what=""):
    if A is NOTHING or R is NOTHING:
        c.prove(what + "unfilled stays unfilled", A is NOTHING and R is NOTHING)
        return
    for i in range(1, len(R.has) + 1):
        c.prove(what + "the same groups", A.exists(i) == z3.BoolVal(all(R.has[:i])))
    if R.vals is None:
        return
    for q in range(ncols):
        c.prove(what + "product in column {0}".format(q), zb(same(tofloat(R.vals.vals[q]), fmul(tofloat(A.vals[q]), tofloat(plain(v))))))

def scaling(hb, c, s, w, op):
    g, f, p = s
    keys = generic_keys(g)
    h = make_hist(hb, c, g, f, p, w)
    install([h._shape])
    A = contents(c, h, keys, "h")
    h._copyonfill = c.choose(2) == 1
    content = h._content
    snap, st = snapshot(content), state(h)
    v = factor(c)
    out = must_return(c, op, scale, op, h, v)
    if op == "h*=v":
        c.prove("in place", out is h)
        c.prove("options are unchanged", samestate(h, st, flags=False))
        if st["_copyonfill"]:
            c.prove("shared contents are unchanged", content is None or unchanged(content, snap))
    else:
        c.prove("a new histogram", isinstance(out, hb.hist.Hist) and out is not h)
        c.prove("original is unchanged", h._content is content and unchanged(content, snap) and samestate(h, st))
        c.prove("same options", (out._weightoriginal, out._filteroriginal, out._defs, out._attachment) == (h._weightoriginal, h._filteroriginal, h._defs, h._attachment))
    c.prove("same axes", out._group == h._group and out._fixed == h._fixed and out._profile == h._profile and sameshape(out._shape, h._shape) and right_layout(out))
    expect_product(c, A, v, view(c, out._content, keys), h._shape[-1])

def refused(hb, c):
    for g in range(3):
        for bad in ("2", None, [2], (1,), 1j, {}, real.array([1.0, 2.0])):
            for op in ("h*v", "v*h", "h*=v"):
                for book in (False, True):
                    keys = generic_keys(g)
                    h = make_hist(hb, c, g, 1, 1, "none")
                    install([h._shape])
                    h._content, has, vals = make_content(c, h, keys, "h")
                    content = h._content
                    snap = snapshot(content)
                    target = h if not book else hb.book.Book(a=h)
                    st, e = call(scale, op, target, bad)
                    c.prove("refused: {0} with {1!r}".format(op, bad), st == "raised" and isinstance(e, TypeError), why=str(e) if st == "raised" else "accepted")
                    c.prove("nothing changed by a refused product", h._content is content and unchanged(content, snap))

def books(hb, c, op):
    keys = generic_keys(1)
    names = ["a", "n/x", "n/m/y", "z"]
    which = names[c.choose(len(names))]
    H, V = {}, {}
    book = hb.book.Book()
    for n in names:
        h = make_hist(hb, c, 1, 1, 1, "weight")
        install([h._shape])
        if n == which:
            V[n] = contents(c, h, keys, n)
        else:
            h._content, has, vals = make_content(c, h, keys, n)
            h._content.hasz = True
            V[n] = View([True], vals)
        H[n] = h
        book[n] = h
    book.attach("k", 1)
    order = book.allkeys()
    snaps = dict((n, (H[n]._content, snapshot(H[n]._content), state(H[n]))) for n in names)
    v = factor(c)
    out = must_return(c, op, scale, op, book, v)
    got = dict(out.allitems(onlyhist=True))
    c.prove("members are the same", out.allkeys() == order and out.__class__ is book.__class__ and all(isinstance(got[n], hb.hist.Hist) for n in got))
    if op == "h*=v":
        c.prove("in place", out is book and all(got[n] is H[n] for n in names))
    else:
        c.prove("original book is unchanged", out is not book and book.allkeys() == order and all(book[n] is H[n] for n in names))
        for n in names:
            content, snap, st = snaps[n]
            c.prove("members of the original are unchanged", H[n]._content is content and unchanged(content, snap) and samestate(H[n], st) and got[n] is not H[n])
    for n in names:
        expect_product(c, V[n], v, view(c, got[n]._content, keys), H[n]._shape[-1], what="member {0}: ".format(n))
