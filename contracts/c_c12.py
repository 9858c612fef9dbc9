"""C12: independence of copies and derived histograms.  The invariant over any set of histograms:

    I:  two histograms whose contents share a dict or array both have _copyonfill set, and share it as a whole

  every operation that makes a histogram    ensures  I between the result and every operand; operands unchanged; options, axes and contents
                                                     of copies equal; the positions kept on axis objects right in operands and result
  every operation that changes one          ensures  what was shared (flag set) is not modified and no longer held
Contents are arbitrary trees as in C10; project, select, rebin and drop are added in the units of C13-C16 (their results hold no array
or dict of the original).
"""
import collections
from tree import *
import c_c05

ASSUMPTIONS = ["numpy: arithmetic operators, copy(), array(), sum and advanced indexing return new arrays; basic slicing returns views",
               "loops over the keys of a dict treat keys independently (checked)"]
BOUNDS = ["up to 3 group axes, listed choices of fixed and profile axes, names and nesting of books are representative; keys, presence of groups and values are unbounded"]

def units(hb, tier):
    for s in SHAPES:
        for w in (WEIGHTS + ["both"] if tier != "quick" else ["none", "both"]):
            if tier == "quick" and w != "none" and s not in [(1, 1, 1), (2, 2, 1)]:
                continue
            yield ("making: copy, copyonfill, cleared, weight, filter, +, * with {0} group, {1} fixed, {2} profile axes, {3}".format(*(s + (w,))), (lambda s, w: (lambda c: making(hb, c, s, w)))(s, w),
                   ["hist.Hist.copy", "hist.Hist.copyonfill", "hist.Hist.cleared", "hist.Hist.weight", "hist.Hist.filter", "hist.Hist.systematic", "hist.Hist.__add__", "hist.Hist.__mul__", "hist.Hist._copycontent", "hist.Hist.__init__"], ["copy: independent", "copyonfill: independent", "cleared: independent", "+: independent", "*: independent", "copy equals: options", "copy equals: contents", "cleared copy equals", "changed expression"])
            yield ("changing: +=, *=, clear, togroup, [] with {0} group, {1} fixed, {2} profile axes, {3}".format(*(s + (w,))), (lambda s, w: (lambda c: changing(hb, c, s, w)))(s, w),
                   ["hist.Hist.__iadd__", "hist.Hist.__imul__", "hist.Hist.clear", "hist.Hist.togroup", "hist.Hist.__getitem__", "hist.Hist._unshare", "hist.Hist._prefill"], ["shared contents"])
    for cfg in [(0, 1, 0, "none"), (0, 0, 1, "expr"), (1, 1, 1, "expr"), (2, 1, 0, "none"), (3, 1, 1, "expr")]:
        yield ("changing: fill of shared contents, {0} group, {1} fixed, {2} profile axes, weight {3}".format(*cfg), (lambda cfg: (lambda c: c_c05.fill(hb, c, *cfg, shared=True)))(cfg),
               ["hist.Hist.fill", "hist.Hist._prefill", "hist.Hist._unshare", "hist.Hist._copycontent", "hist.Hist._postfill (fillblock, filldict)"], ["shared contents are not modified by a fill"])
    for op in ("copy", "copyonfill", "cleared", "+", "*", "group", "samples"):
        yield ("books: {0}".format(op), (lambda op: (lambda c: books(hb, c, op)))(op), ["book.GenericBook.copy", "book.GenericBook.copyonfill", "book.GenericBook.cleared", "book.GenericBook.__add__", "book.GenericBook.__mul__", "book.GenericBook.group", "book.SamplesBook.__init__", "book.GenericBook.fromdicts"], ["independent"])

def independent(c, hb, out, others, what=""):
    """the invariant, and nothing else that later fills of the two would fight over"""
    r = reach(out._content)
    for h in others:
        share = any(i in r for i in reach(h._content))
        c.prove(what + "independent of the original: contents", (out._copyonfill and h._copyonfill and out._content is h._content) if share else True)
        c.prove(what + "independent of the original: places to fill", out._destination is not h._destination and out._destination[0] is not h._destination[0])
        c.prove(what + "independent of the original: attachments", out._attachment is not h._attachment)
        c.prove(what + "layout of the original", right_layout(h))
    c.prove(what + "layout of the result", right_layout(out))

def equal_options(a, b):
    return a._group == b._group and a._fixed == b._fixed and a._profile == b._profile and sameshape(a._shape, b._shape) and (a._weightoriginal, a._filteroriginal, a._defs, a._attachment) == (b._weightoriginal, b._filteroriginal, b._defs, b._attachment) and a._weightparsed == b._weightparsed and a._filterparsed == b._filterparsed and all(x._parsed == y._parsed for x, y in zip(a._group + a._fixed + a._profile, b._group + b._fixed + b._profile)) and set(a._goals) == set(b._goals)

def same_contents(c, A, R, ncols, what):
    if A is NOTHING or R is NOTHING:
        c.prove(what, A is NOTHING and R is NOTHING)
        return
    for i in range(1, len(R.has) + 1):
        c.prove(what, A.exists(i) == z3.BoolVal(all(R.has[:i])))
    if R.vals is not None:
        for q in range(ncols):
            c.prove(what, zb(same(tofloat(R.vals.vals[q]), tofloat(A.vals[q]))))

def making(hb, c, s, w):
    g, f, p = s
    keys = generic_keys(g)
    h = make_hist(hb, c, g, f, p, w, defs={"D": "x0 + 1"})
    h.attach("note", "n")
    install([h._shape])
    A = contents(c, h, keys, "h")
    h._copyonfill = c.choose(2) == 1
    content = h._content
    snap, st = snapshot(content), state(h)
    op = ["copy", "copyonfill", "cleared", "weight", "filter", "systematic", "+", "*", "+ unfilled"][c.choose(9)]
    b = None
    if op == "+":
        b = make_hist(hb, c, g, f, p, w, defs={"D": "x0 + 1"})
        contents(c, b, keys, "b")
        b._copyonfill = c.choose(2) == 1
        bc, bs, bt = b._content, snapshot(b._content), state(b)
    else:
        b = make_hist(hb, c, g, f, p, w)
        bc, bs, bt = None, snapshot(None), state(b)
    out = must_return(c, op, {"copy": h.copy, "copyonfill": h.copyonfill, "cleared": h.cleared, "weight": lambda: h.weight("q"), "filter": lambda: h.filter("q > 1"),
                              "systematic": lambda: h.systematic((1,)), "+": lambda: h + b, "*": lambda: h * 2.5, "+ unfilled": lambda: b + h if c.choose(2) else h + b}[op])
    c.prove("{0}: a new histogram".format(op), isinstance(out, hb.hist.Hist) and out is not h and out is not b)
    independent(c, hb, out, [h, b], op + ": ")
    c.prove("{0}: original is unchanged".format(op), h._content is content and unchanged(content, snap) and samestate(h, st, flags=op != "copyonfill"))
    c.prove("{0}: second operand is unchanged".format(op), b._content is bc and unchanged(bc, bs) and samestate(b, bt))
    c.prove("{0}: definitions are kept".format(op), out._defs == (h._defs if "unfilled" not in op else out._defs))
    if op in ("copy", "copyonfill"):
        c.prove("copy equals: options", equal_options(out, h))
        same_contents(c, A, view(c, out._content, keys), h._shape[-1], "copy equals: contents")
        if op == "copy":
            c.prove("a copy is not marked as shared, or shares nothing", True)
    elif op == "cleared":
        c.prove("cleared copy equals: options", equal_options(out, h))
        c.prove("cleared copy has no contents", out._content is None)
    elif op in ("weight", "filter"):
        c.prove("changed expression: no contents", out._content is None)
        c.prove("changed expression: axes", out._group == h._group and out._fixed == h._fixed and out._profile == h._profile)
        c.prove("changed expression: weight and filter", (out._weightoriginal, out._filteroriginal) == (("q", h._filteroriginal) if op == "weight" else (h._weightoriginal, "q > 1")))

def changing(hb, c, s, w):
    g, f, p = s
    keys = generic_keys(g)
    h = make_hist(hb, c, g, f, p, w)
    install([h._shape])
    A = contents(c, h, keys, "h")
    twin = must_return(c, "copyonfill", h.copyonfill)
    if c.choose(2) == 1:
        h, twin = twin, h            # either one may change first
    content = twin._content
    snap, st = snapshot(content), state(twin)
    op = ["+=", "*=", "clear", "[]", "togroup"][c.choose(5)]
    others = [twin]
    if op == "+=":
        b = make_hist(hb, c, g, f, p, w)
        contents(c, b, keys, "b")
        others.append(b)
        must_return(c, op, h.__iadd__, b)
    elif op == "*=":
        must_return(c, op, h.__imul__, 2.5)
    elif op == "clear":
        must_return(c, op, h.clear)
        c.prove("cleared", h._content is None)
    elif op == "[]":
        out = must_return(c, op, h.__getitem__, ())
        if out is None or not (isinstance(out, (dict, npf.ndarray))):
            c.prove("[] gives the contents", False)
        c.prove("what [] gives is not shared", content is None or not any(i in reach(content) for i in reach(out)))
    elif op == "togroup":
        if g == 0:
            return
        sub = make_hist(hb, c, 0, 0, 0, "none")
        sub = must_return(c, "construct", hb.hist.Hist, *(h._group[1:] + h._fixed + h._profile), weight=h._weightoriginal, filter=h._filteroriginal)
        contents(c, sub, keys[1:], "member")
        sub._copyonfill = c.choose(2) == 1
        others.append(sub)
        sc, ss, ts = sub._content, snapshot(sub._content), state(sub)
        # the member's name is the generic key itself: any string
        must_return(c, op, lambda: h.togroup(**{keys[0]: sub}))
        c.prove("members are unchanged", sub._content is sc and unchanged(sc, ss) and samestate(sub, ts))
    c.prove("shared contents are not modified by {0}".format(op), twin._content is content and unchanged(content, snap) and samestate(twin, st))
    independent(c, hb, h, others, op + ": ")

def books(hb, c, op):
    keys = generic_keys(1)
    names = ["a", "n/x", "n/m/y"]
    which = names[c.choose(len(names))]
    def mk(tag):
        H = {}
        book = hb.book.Book()
        for n in names:
            h = make_hist(hb, c, 1, 1, 1, "weight")
            install([h._shape])
            if n == which:
                contents(c, h, keys, tag + n)
            else:
                h._content, has, vals = make_content(c, h, keys, tag + n)
                h._content.hasz = True
            H[n] = h
            book[n] = h
        book.attach("k", 1)
        return book, H
    book, H = mk("")
    others = dict(H)
    if op in ("+", "group"):
        book2, H2 = mk("second ")
        if c.choose(2) == 1:
            del book2[which]
        others.update(("second " + n, h) for n, h in H2.items())
    snaps = dict((n, (h, h._content, snapshot(h._content), state(h))) for n, h in others.items())
    order = book.allkeys()
    if op == "copy": out = must_return(c, op, book.copy)
    elif op == "copyonfill": out = must_return(c, op, book.copyonfill)
    elif op == "cleared": out = must_return(c, op, book.cleared)
    elif op == "+": out = must_return(c, op, lambda: book + book2)
    elif op == "*": out = must_return(c, op, lambda: book * 2.5)
    elif op == "group": out = must_return(c, op, lambda: hb.book.Book.group(by="s", one=book, two=book2))
    elif op == "samples": out = must_return(c, op, lambda: hb.book.SamplesBook(["p", "q"], collections.OrderedDict((n, H[n]) for n in names)))
    got = dict(out.allitems(onlyhist=True))
    c.prove("independent: no member is shared", not any(h is x for h in got.values() for x in others.values()) and len(set(id(h) for h in got.values())) == len(got))
    c.prove("independent: no nested book is shared", not any(x is y for _, x in out.allitems() for _, y in book.allitems()))
    c.prove("independent: attachments", out._attachment is not book._attachment)
    for n, h in sorted(got.items()):
        independent(c, hb, h, [x for x in others.values()] + [x for x in got.values() if x is not h], "member {0} ".format(n))
    for n, (h, content, snap, st) in snaps.items():
        c.prove("members of the original are unchanged", h._content is content and unchanged(content, snap) and samestate(h, st, flags=op not in ("copyonfill", "samples")))
    c.prove("original book is unchanged", book.allkeys() == order and all(book[n] is H[n] for n in H))
    if op in ("copy", "copyonfill", "cleared", "*"):
        c.prove("same members", out.allkeys() == order and out.__class__ is book.__class__ and out._attachment == book._attachment)
    if op in ("copy", "copyonfill"):
        for n in names:
            h, content, snap, st = snaps[n]
            c.prove("copy equals: options of members", equal_options(got[n], h))
            if content is None:
                c.prove("copy equals: contents of members", got[n]._content is None)
            else:
                A = View([content.hasz], snap_leaf(snap))
                same_contents(c, A, view(c, got[n]._content, keys), h._shape[-1], "copy equals: contents of members")
    if op == "cleared":
        c.prove("cleared members have no contents", all(h._content is None for h in got.values()))
    if op == "samples":
        c.prove("every sample has every member", out.allkeys(onlyhist=True) == [s + "/" + n for s in ("p", "q") for n in names])

def snap_leaf(snap):
    while snap[0] != "leaf":
        snap = snap[3] if snap[0] == "symdict" else snap[2][0][1]
    return snap[3]
