"""C21: grouping.

  Hist.group(by, **members)    requires  members with equal axes and columns; names any strings (one generic name; up to three others)
                               ensures   axes are groupby(by) followed by the members'; the group of each name holds exactly that member's
                                         contents (zeros / no groups if unfilled); no other groups; members unchanged
                               raises    TypeError for other axes, weighted with unweighted or non-histograms; ValueError if the axis exists or no member
  Hist.togroup(**members)      ensures   existing name: cell by cell sum; missing name: the member's contents; other names unchanged
  GenericBook.group            the same, member by member; names that only some books have are kept
  Hist.groupkeys(axis)         ensures   a key is in the set iff it occurs at that level under some key of the levels above
"""
from tree import *
from c_c10 import expect_sum
from c_c12 import same_contents

ASSUMPTIONS = ["loops over the keys of a dict treat keys independently (checked)", "float64 addition is the addition of extended reals (rounding ignored)"]
BOUNDS = ["up to 3 members and 2 (members) or 3 (groupkeys) group axes, representative fixed and profile axes; names, keys, presence and values are unbounded"]

SUBS = [(0, 0, 0), (0, 2, 1), (1, 0, 0), (1, 1, 1), (2, 1, 0)]

def units(hb, tier):
    for s in SUBS:
        for w in ("none", "weight", "filter"):
            if tier == "quick" and w != "none" and s not in [(0, 2, 1), (1, 1, 1)]:
                continue
            for n in (1, 2, 3):
                if n == 3 and s != (1, 1, 1):
                    continue
                yield ("Hist.group of {4} with {0} group, {1} fixed, {2} profile axes, {3}".format(*(s + (w, n))), (lambda s, w, n: (lambda c: group(hb, c, s, w, n)))(s, w, n),
                       ["hist.Hist.group", "hist.Hist._copycontent", "hist.Hist._prefill", "hist.Hist.__init__"], ["member"])
            yield ("Hist.togroup with {0} group, {1} fixed, {2} profile axes, {3}".format(*(s + (w,))), (lambda s, w: (lambda c: togroup(hb, c, s, w)))(s, w),
                   ["hist.Hist.togroup", "hist.Hist._prefill", "hist.Hist._copycontent"], ["named group", "other groups"])
    yield ("grouping refused", lambda c: refused(hb, c), ["hist.Hist.group", "hist.Hist.togroup", "book.GenericBook.group"], ["refused"])
    yield ("Book.group", lambda c: books(hb, c), ["book.GenericBook.group", "hist.Hist.group"], ["member"])
    for g in (1, 2, 3):
        for i in range(g):
            yield ("Hist.groupkeys of axis {0} of {1}".format(i, g), (lambda g, i: (lambda c: groupkeys(hb, c, g, i)))(g, i), ["hist.Hist.groupkeys"], ["group keys"])

def grouped_axes(hb, h, out, by):
    return len(out._group) == len(h._group) + 1 and out._group[0] == hb.axis.groupby(by) and isinstance(out._group[0], hb.axis.groupby) and out._group[1:] == h._group and out._fixed == h._fixed and out._profile == h._profile and sameshape(out._shape, h._shape) and right_layout(out)

def zeros_view(g, ncols):
    return View([False] if g else [], [tofloat(0.0)]*ncols if g == 0 else None)

def member_view(c, M, R, g, ncols, what):
    """contents of one group against those of the member; an unfilled member counts as zero"""
    if M is NOTHING:
        if g == 0:
            for q in range(ncols):
                c.prove(what, zb(same(tofloat(R.vals.vals[q]), tofloat(0.0))))
        else:
            c.prove(what, not R.has[0])
        return
    same_contents(c, M, R, ncols, what)

def group(hb, c, s, w, n):
    g, f, p = s
    names = [NameKey("name{0}".format(i)) for i in range(n)]
    for k in names:
        k.__dict__["eq"] = lambda o, k=k: False if (type(o) is str and o in ("self", "cls", "by")) or isinstance(o, NameKey) else NotImplemented
    keys = generic_keys(g)
    H, M = [], []
    for i in range(n):
        h = make_hist(hb, c, g, f, p, w, defs={"D{0}".format(i): "x0 + 1"})
        if i > 0 and w == "weight":
            h = must_return(c, "construct", hb.hist.Hist, *axes(hb, g, f, p), weight="u{0}".format(i))
        install([h._shape])
        M.append(contents(c, h, keys, "member{0}".format(i)))
        h._copyonfill = c.choose(2) == 1 if i == 0 else False
        H.append(h)
    snaps = [(h._content, snapshot(h._content), state(h)) for h in H]
    # once, and again with the same members
    for round_ in range(2):
        check_group(hb, c, s, w, n, names, keys, H, M, snaps)

def check_group(hb, c, s, w, n, names, keys, H, M, snaps):
    g, f, p = s
    out = must_return(c, "group", lambda: hb.hist.Hist.group(by="src", **dict(zip(names, H))))
    c.prove("axes are the new group axis and the members' axes", grouped_axes(hb, H[0], out, "src"))
    c.prove("as many columns as the members", sameshape(out._shape, H[0]._shape))
    content = out._content
    c.prove("members are the groups", isinstance(content, dict) and not isinstance(content, rt.SymIter) and len(content) == n and all(any(x is k for k in names) for x in content))
    for h, (ct, sn, st) in zip(H, snaps):
        c.prove("members are unchanged", h._content is ct and unchanged(ct, sn) and samestate(h, st))
    for k, m in zip(names, M):
        member_view(c, m, view(c, content[k], keys), g, out._shape[-1], "member's contents in its group")
    c.prove("definitions of all members", all(out._defs.get(d) == x for h in H for d, x in h._defs.items()))

def togroup(hb, c, s, w):
    g, f, p = s
    keys = generic_keys(g)
    other = generic_keys(1)[0]           # a generic existing group
    sub = make_hist(hb, c, g, f, p, w)
    M = contents(c, sub, keys, "member")
    sub._copyonfill = c.choose(2) == 1
    h = must_return(c, "construct", hb.hist.Hist, *([hb.axis.groupby("src")] + axes(hb, g, f, p)), weight=sub._weightoriginal, filter=sub._filteroriginal)
    install([h._shape])
    A = contents(c, h, [other] + keys, "h")
    # the member's name is the generic group, or another name
    same_name = c.choose(2) == 0
    name = other
    if not same_name:
        name = NameKey("name")
        for k in (name, other):
            k.__dict__["eq"] = lambda o: False if (type(o) is str and o in ("self", "cls", "by")) or isinstance(o, NameKey) else NotImplemented
        if h._content is not None:
            # the generic group is another one: whether the name exists does not matter to it
            h._content = d = TwoKeys(other, h._content, name, sub)
    sc, ss, ts = sub._content, snapshot(sub._content), state(sub)
    must_return(c, "togroup", lambda: h.togroup(**{name: sub}))
    c.prove("members are unchanged", sub._content is sc and unchanged(sc, ss) and samestate(sub, ts))
    n = h._shape[-1]
    if same_name:
        if M is NOTHING:
            R = view(c, h._content, [other] + keys)
            if A is NOTHING:
                c.prove("named group: nothing added by an unfilled member", R is NOTHING or not R.has[0] or (R.vals is not None and all(same_now(v, tofloat(0.0)) for v in R.vals.vals)))
            elif A is not NOTHING:
                same_contents(c, A, R, n, "named group: nothing added by an unfilled member")
        else:
            B = View([True] + list(M.has), M.vals)
            expect_sum(c, A, B, view(c, h._content, [other] + keys), n, "named group: ")
    elif A is not NOTHING:
        d.check_other(c, keys, A, n)
    elif A is NOTHING:
        content = h._content
        c.prove("other groups: none appear", content is None or all(x is name for x in content))

class TwoKeys(dict):
    """a dict with a generic key and, apart from it, another name"""
    def __init__(self, other, symdict, name, sub):
        dict.__init__(self)
        self.other = symdict
        self.okey = other
        if ctx().branch(zb(symdict.hasz)):
            self.present = True
            dict.__setitem__(self, other, symdict.get_val())
            self.value = symdict.get_val()
            self.snap = snapshot(self.value)
        else:
            self.present = False
        # the other name may exist too: its contents do not matter here
        self.name = name
    def check_other(self, c, keys, A, n):
        c.prove("other groups are unchanged", (dict.__contains__(self, self.okey) == self.present) and (not self.present or (dict.__getitem__(self, self.okey) is self.value and unchanged(self.value, self.snap))))

def refused(hb, c):
    H, ax = hb.hist.Hist, hb.axis
    base = lambda: H(ax.bin("x", 5, 0, 10))
    bad = [lambda: H(ax.bin("x", 6, 0, 10)), lambda: H(ax.bin("x", 5, 0, 10, overflow=False)), lambda: H(ax.bin("x", 5, 0, 10), weight="w"), lambda: H(ax.bin("x", 5, 0, 10), filter="w > 1"),
           lambda: H(ax.groupby("y"), ax.bin("x", 5, 0, 10)), lambda: H(ax.bin("x", 5, 0, 10), ax.profile("y")), lambda: H(ax.bin("y", 5, 0, 10)), lambda: 3, lambda: hb.book.Book(a=base())]
    for mk in bad:
        for order in (0, 1, 2):
            m = [base(), mk()] if order == 0 else [mk(), base()] if order == 1 else [base(), base(), mk()]
            st, e = call(lambda: H.group(by="s", **dict(("m{0}".format(i), x) for i, x in enumerate(m))))
            c.prove("refused: grouping of {0}".format(m), st == "raised" and isinstance(e, TypeError), why=str(e) if st == "raised" else "accepted")
            if isinstance(m[0], H):
                b = [hb.book.Book(h=x) if isinstance(x, H) else x for x in m]
                st, e = call(lambda: hb.book.Book.group(by="s", **dict(("m{0}".format(i), x) for i, x in enumerate(b))))
                if not isinstance(m[-1], hb.book.Book):
                    c.prove("refused: grouping of books of {0}".format(m), st == "raised" and isinstance(e, TypeError), why=str(e) if st == "raised" else "accepted")
        g = H(ax.groupby("s"), ax.bin("x", 5, 0, 10))
        for m in (dict(a=mk()), dict(a=base(), b=mk())):
            before = g._content
            st, e = call(lambda: g.togroup(**m))
            c.prove("refused: togroup of {0}".format(m), st == "raised" and isinstance(e, TypeError) and g._content is before, why=str(e) if st == "raised" else "accepted")
    st, e = call(lambda: H.group(by="s"))
    c.prove("refused: no members", st == "raised" and isinstance(e, ValueError))
    st, e = call(lambda: H.group(by="s", a=H(ax.groupby("s"), ax.bin("x", 5, 0, 10))))
    c.prove("refused: the axis exists already", st == "raised" and isinstance(e, ValueError))
    for h in (base(), H(ax.groupbin("s", 1), ax.bin("x", 5, 0, 10)), H()):
        st, e = call(lambda: h.togroup(a=base()))
        c.prove("refused: togroup without a leading groupby axis", st == "raised" and isinstance(e, ValueError))

def books(hb, c):
    keys = generic_keys(1)
    Book = hb.book.Book
    H, V = {}, {}
    B = {}
    names = {"p": ["a", "n/x", "n/y"], "q": ["n/x", "a", "z"]}
    which = ["a", "n/x", "n/y", "z"][c.choose(4)]
    for b in names:
        B[b] = Book()
        for n in names[b]:
            h = make_hist(hb, c, 1, 1, 1, "weight")
            install([h._shape])
            if n == which:
                V[b, n] = contents(c, h, keys, b + n)
            else:
                h._content, has, vals = make_content(c, h, keys, b + n)
                h._content.hasz = True
                V[b, n] = View([True], vals)
            H[b, n] = h
            B[b][n] = h
        B[b].attach(b, 1)
    snaps = dict((k, (h._content, snapshot(h._content), state(h))) for k, h in H.items())
    out = must_return(c, "group", lambda: Book.group(by="src", **B))
    c.prove("members of every book", sorted(out.allkeys(onlyhist=True)) == ["a", "n/x", "n/y", "z"])
    for n, h in out.allitems(onlyhist=True):
        have = [b for b in ("p", "q") if n in names[b]]
        c.prove("groups are the books that have the member", set(h._content) == set(have) and grouped_axes(hb, H[have[0], n], h, "src"))
        for b in have:
            member_view(c, V[b, n], view(c, h._content[b], keys), 1, h._shape[-1], "member's contents in its group")
    for k, (ct, sn, st) in snaps.items():
        c.prove("members are unchanged", H[k]._content is ct and unchanged(ct, sn) and samestate(H[k], st))

def groupkeys(hb, c, g, i):
    """at a generic key of the axis; the levels above have any keys, seen at two different generic keys each"""
    keys = generic_keys(g)
    h = make_hist(hb, c, g, 1, 0, "none")
    install([h._shape])
    h._content, has, vals = make_content(c, h, keys, "h")
    axis = h._group[i] if c.choose(2) == 0 else i
    snap = snapshot(h._content)
    R = SetOf(keys[i])
    saved = rt.TABLE[id(set)]
    rt.TABLE[id(set)] = lambda *a: R if not a else saved(*a)
    try:
        out = must_return(c, "groupkeys", h.groupkeys, axis)
    finally:
        rt.TABLE[id(set)] = saved
    if out is not R:
        raise Unsupported("groupkeys returns something else")
    want = zb(And(*has[:i + 1]))
    c.prove("group keys contain every key of the level", z3.Implies(want, zb(R.hasz)))
    c.prove("group keys contain no other key", z3.Implies(zb(R.hasz), want))
    c.prove("contents are unchanged", unchanged(h._content, snap))

class SetOf(object):
    """a set seen at a generic element"""
    def __init__(self, key):
        self.key, self.hasz = key, z3.BoolVal(False)
    def update(self, *xs):
        for x in xs:
            if isinstance(x, rt.DictView) and x.what == "keys":
                if x.d.key is self.key:
                    self.hasz = z3.Or(self.hasz, zb(x.d.hasz))
                else:
                    raise Unsupported("keys of another level")
            else:
                raise Unsupported("set.update")
    def __ior__(self, o):
        self.update(o)
        return self
    def add(self, x):
        if x is self.key:
            self.hasz = z3.BoolVal(True)
        else:
            raise Unsupported("set.add")
