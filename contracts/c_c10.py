"""C10: addition of histograms and books.

  Hist.__add__, Hist.__iadd__    requires  contents are None or trees as deep as there are group axes (any keys, any float values)
                                 ensures   a group exists in the sum iff it exists in an operand; every column of every cell is the sum of the
                                           operands' (absent: zero); right operand unchanged (left too, for +); options of both unchanged
                                 raises    TypeError for other axes, weighted with unweighted, or something that is no histogram; nothing changed
  GenericBook.__add__/__iadd__   ensures   members of both sides, member by member, with the members' sums; members of one side kept
"""
from tree import *

ASSUMPTIONS = ["float64 addition is the addition of extended reals (rounding ignored)",
               "loops over the keys of a dict treat keys independently (checked: only the entry of the loop's own key is modified)",
               "a + b equal to one fill with both data sets follows with C05: each entry adds its own contribution to a cell, whatever was there"]
BOUNDS = ["up to 3 group axes, a listed choice of fixed and profile axes (addition does not look at bins), member names and nesting of books are representative; keys, presence of groups and values are unbounded"]

def units(hb, tier):
    for s in SHAPES:
        for w in WEIGHTS:
            if tier == "quick" and w != "none" and s not in [(0, 1, 2), (1, 1, 1), (2, 2, 1)]:
                continue
            for op in ("+", "+=", "h += h", "h + h"):
                yield ("Hist {0} with {1} group, {2} fixed, {3} profile axes, {4}".format(op, s[0], s[1], s[2], w), (lambda s, w, op: (lambda c: addition(hb, c, s, w, op)))(s, w, op),
                       ["hist.Hist.__add__" if "=" not in op else "hist.Hist.__iadd__", "hist.Hist._copycontent", "hist.Hist.cleared", "hist.Hist._unshare", "hist.Hist.__init__"], ["sum of"] if s[0] == 0 else ["a group exists"])
    yield ("Hist addition refused", lambda c: refused(hb, c), ["hist.Hist.__add__", "hist.Hist.__iadd__", "axis.*.__eq__"], ["refused"])
    for op in ("+", "+="):
        yield ("Book {0}".format(op), (lambda op: (lambda c: books(hb, c, op)))(op), ["book.GenericBook.__add__", "book.GenericBook.__iadd__", "book.GenericBook.fromdicts", "book.GenericBook._set", "book.GenericBook._get", "book.GenericBook._iteritems"], ["members", "member a: sum of", "member n/x: sum of", "member n/y: sum of", "member n/z: sum of", "member only: sum of", "member other: sum of"])

def expect_sum(c, A, B, R, ncols, what=""):
    """R (decided on this path) is the sum of A and B"""
    sides = [X for X in (A, B) if X is not NOTHING]
    if R is NOTHING:
        # unfilled: stands for zero everywhere
        for X in sides:
            c.prove("{0}a group exists iff it exists in an operand".format(what), z3.Not(X.exists(1)) if X.has else False)
        return
    for i in range(1, len(R.has) + 1):
        want = zb(Or(*[X.exists(i) for X in sides])) if sides else z3.BoolVal(False)
        c.prove("{0}a group exists iff it exists in an operand".format(what), want == z3.BoolVal(all(R.has[:i])))
    if R.vals is None:
        return
    g = len(R.has)
    for q in range(ncols):
        parts = [(X.exists(g), tofloat(X.vals[q])) for X in sides]
        total = tofloat(0.0)
        for e, v in parts:
            total = fadd(total, ite(mkbool(e), v, tofloat(0.0)))
        c.prove("{0}sum of column {1}".format(what, q), zb(same(tofloat(R.vals.vals[q]), total)))

def addition(hb, c, s, w, op):
    g, f, p = s
    keys = generic_keys(g)
    a, b = make_hist(hb, c, g, f, p, w), make_hist(hb, c, g, f, p, w)
    install([a._shape])
    if "h" in op:
        b = a
        A = B = contents(c, a, keys, "a")
    else:
        A, B = contents(c, a, keys, "a"), contents(c, b, keys, "b")
        b._copyonfill = c.choose(2) == 1
    a._copyonfill = c.choose(2) == 1
    ac, bc = a._content, b._content
    sa, sb, ta, tb = snapshot(ac), snapshot(bc), state(a), state(b)
    n = a._shape[-1]
    if op in ("+", "h + h"):
        out = must_return(c, "+", lambda: a + b)
        c.prove("left operand is unchanged", a._content is ac and unchanged(ac, sa) and samestate(a, ta))
        c.prove("a new histogram", isinstance(out, hb.hist.Hist) and out is not a and out is not b)
    else:
        def inplace():
            x = a
            x += b
            return x
        out = must_return(c, "+=", inplace)
        c.prove("in place", out is a)
        c.prove("options of the left operand are unchanged", samestate(a, ta, flags=False))
        if ta["_copyonfill"]:
            c.prove("shared contents are unchanged", unchanged(ac, sa) if ac is not None else True)
    if b is not a:
        c.prove("right operand is unchanged", b._content is bc and unchanged(bc, sb) and samestate(b, tb))
    c.prove("same axes", out._group == a._group and out._fixed == a._fixed and out._profile == a._profile and sameshape(out._shape, a._shape) and right_layout(out))
    expect_sum(c, A, B, view(c, out._content, keys), n)

def refused(hb, c):
    ax = hb.axis
    variants = [
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10)),
        lambda: hb.hist.Hist(ax.bin("y", 5, 0, 10)),
        lambda: hb.hist.Hist(ax.bin("x", 6, 0, 10)),
        lambda: hb.hist.Hist(ax.bin("x", 5, 1, 10)),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 11)),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10, underflow=False)),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10, overflow=False)),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10, nanflow=False)),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10, closedlow=False)),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10), weight="w"),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10), filter="w > 0", defs={}),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10), ax.profile("y")),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10), ax.cut("y")),
        lambda: hb.hist.Hist(ax.groupby("y"), ax.bin("x", 5, 0, 10)),
        lambda: hb.hist.Hist(ax.intbin("x", 0, 7)),
        lambda: hb.hist.Hist(ax.split("x", [0, 2, 4, 6, 8, 10])),
        lambda: hb.hist.Hist(ax.split("x", [0, 2, 4, 6, 8, 11])),
        lambda: hb.hist.Hist(ax.split("x", [0, 2, 4, 6, 8, 10], closedlow=False)),
        lambda: hb.hist.Hist(ax.groupbin("x", 1)),
        lambda: hb.hist.Hist(ax.groupbin("x", 1, origin=0.5)),
        lambda: hb.hist.Hist(ax.groupbin("x", 2)),
        lambda: hb.hist.Hist(ax.groupbin("x", 1, closedlow=False)),
        lambda: hb.hist.Hist(ax.groupbin("x", 1, nanflow=False)),
        lambda: hb.hist.Hist(ax.bin("x", 5, 0, 10), ax.profile("z")),
        lambda: hb.hist.Hist(),
        lambda: 3, lambda: None, lambda: "x",
    ]
    same_ = {(9, 10), (10, 9)}           # both weighted: same columns
    def filled(h):
        if isinstance(h, hb.hist.Hist):
            install([h._shape])
            keys = generic_keys(len(h._group))
            content, has, vals = make_content(c, h, keys, "h")
            h._content = content
        return h
    for i, mk in enumerate(variants):
        for j, mk2 in enumerate(variants):
            if i == j or (i, j) in same_ or (i and j and abs(i - j) != 1):
                continue
            for iadd in (False, True):
                a, b = filled(mk()), filled(mk2())
                if not isinstance(a, hb.hist.Hist):
                    continue
                sa = snapshot(a._content)
                sb = snapshot(b._content) if isinstance(b, hb.hist.Hist) else None
                st, out = call((lambda: a.__iadd__(b)) if iadd else (lambda: a + b))
                what = "refused: {0!r} and {1!r}".format(a, b)
                c.prove(what, st == "raised" and isinstance(out, TypeError), why="" if st == "raised" else "accepted")
                c.prove("nothing changed by a refused sum", unchanged(a._content, sa) and (sb is None or unchanged(b._content, sb)))

def books(hb, c, op):
    Book = hb.book.Book
    keys = generic_keys(1)
    shapes = []
    # one member in all generality; the others have some group
    names = ["a", "n/x", "n/y", "n/z", "only", "other"]
    which = names[c.choose(len(names))]
    def mk(name):
        h = make_hist(hb, c, 1, 1, 1, "weight")
        shapes.append(h._shape)
        content, has, vals = make_content(c, h, keys, name)
        if name.split()[1] != which:
            content.hasz = True
            has = [True]
        h._content = content
        return h, View(has, vals)
    L = dict((n, mk("left " + n)) for n in ("a", "n/x", "n/y", "only"))
    R = dict((n, mk("right " + n)) for n in ("n/y", "n/z", "a", "other"))
    install(shapes)
    def book(d):
        out = Book()
        for n, (h, _) in d.items():
            out[n] = h
        return out
    left, right = book(L), book(R)
    left.attach("k", 1)
    right.attach("k2", 2)
    order = list(left.allkeys()) + []
    lnest, rnest = left["n"], right["n"]
    snaps = dict((id(h), (h, h._content, snapshot(h._content), state(h))) for h, _ in list(L.values()) + list(R.values()))
    def iadd():
        x = left
        x += right
        return x
    out = must_return(c, op, (lambda: left + right) if op == "+" else iadd)
    if op == "+=":
        c.prove("in place", out is left)
    got = dict(out.allitems(onlyhist=True))
    c.prove("members of both sides, each once", sorted(got) == sorted(set(L) | set(R)) and len(out.allkeys(onlyhist=True)) == len(got))
    c.prove("members of the left side come first, in order", [n for n in out.allkeys() if n in order] == order)
    c.prove("right book is unchanged", right.allkeys() == ["n", "n/y", "n/z", "a", "other"] and all(right[n] is R[n][0] for n in R) and right["n"] is rnest)
    for n in R:
        h, content, s, t = snaps[id(R[n][0])]
        c.prove("members of the right book are unchanged", h._content is content and unchanged(content, s) and samestate(h, t))
    if op == "+":
        c.prove("left book is unchanged", left.allkeys() == order and all(left[n] is L[n][0] for n in L) and left["n"] is lnest)
        for n in L:
            h, content, s, t = snaps[id(L[n][0])]
            c.prove("members of the left book are unchanged", h._content is content and unchanged(content, s) and samestate(h, t))
    n = which
    c.prove("members are histograms", isinstance(got[n], hb.hist.Hist))
    expect_sum(c, L[n][1] if n in L else NOTHING, R[n][1] if n in R else NOTHING, view(c, got[n]._content, keys), shapes[0][-1], what="member {0}: ".format(n))
    st, e = call(lambda: left + 3)
    c.prove("members: something else than a book is refused", st == "raised" and isinstance(e, TypeError))
