"""C18: JSON and pickle round trips.

  J(x)  what json.loads(json.dumps(x)) gives: lists for tuples, text for the keys of dicts, new containers, the same text and numbers
        (axiom: float(text of a number) is that number); TypeError for what JSON cannot hold
  P(x)  what pickle.loads(pickle.dumps(x)) gives: a copy, objects restored by their reduce protocol (__getstate__, __setstate__ of the real code)

  axis      ensures  every option of Hist.fromjson(J(h.tojson())).axis[0] and of P(h).axis[0] is that of h, for all values of the options
  histogram ensures  same options; contents at the generic path and cell the same; the original unchanged and not shared;
                     the result == the original by the real __eq__; the plan of the restored object delivers into the restored object
  book      ensures  same class, members, order, attachments; each member as above
"""
import collections
from tree import *
import c_c12

ASSUMPTIONS = ["json: numbers, text, booleans and None come back as they were (NaN and infinities included), tuples as lists, number keys as their text; float(text of a number) is that number",
               "pickle: copies built-in containers and arrays and restores objects through __reduce_ex__(2), __getstate__ and __setstate__",
               "loops over the keys of a dict treat keys independently (checked); two numbers with the same text are the same"]
BOUNDS = ["up to 3 group axes, 3 edges, listed choices of axes, expressions, definitions, attachments and shapes of books; numeric options, flags, keys, presence of groups and contents are unbounded"]

def units(hb, tier):
    for kind in ("groupby", "groupbin", "bin", "intbin", "split1", "split2", "split3", "cut", "profile"):
        for how in ("json", "pickle"):
            yield ("axis {0} through {1}".format(kind, how), (lambda k, m: (lambda c: axis_options(hb, c, k, m)))(kind, how),
                   ["axis.{0}.tojson/fromjson/_pack/__init__/__eq__".format(kind.rstrip("123")), "axis.Axis.fromjson", "axis.Axis._unpack", "hist.Hist.tojson", "hist.Hist.fromjson"], ["axis read back"])
    for s in SHAPES:
        for w in WEIGHTS + ["both", "const"]:
            if tier == "quick" and w in ("weight", "const") and s not in [(1, 1, 1), (2, 2, 1), (0, 0, 0)]:
                continue
            for how in ("json", "pickle"):
                yield ("histogram with {0} group, {1} fixed, {2} profile axes, {3}, through {4}".format(*(s + (w, how))), (lambda s, w, m: (lambda c: histogram(hb, c, s, w, m)))(s, w, how),
                       ["hist.Hist.tojson", "hist.Hist.fromjson", "hist.Hist.__getstate__", "hist.Hist.__setstate__", "hist.Hist.__init__", "hist.Hist.__eq__"], ["same options", "same contents", "original is unchanged", "not shared", "plan delivers", "equal to the original"])
    for how in ("json", "pickle"):
        for kind in ("Book", "GenericBook", "ChannelsBook", "SamplesBook", "SystematicsBook", "ViewBook"):
            yield ("{0} through {1}".format(kind, how), (lambda k, m: (lambda c: book(hb, c, k, m)))(kind, how),
                   ["book.GenericBook.tojson", "book.GenericBook.fromjson", "book.GenericBook.fromdicts", "book.Book.__getstate__", "book.Book.__setstate__", "book.GenericBook.__setitem__"], ["same class", "same members", "member same options", "member same contents"])

# -------------------------------------------------------------- what json and pickle do

class NumberKey(rt.Key):
    """a generic number used as a key"""
    def vc_isinstance(self, cs):
        import numbers
        return any(c in (float, object, numbers.Real, numbers.Number) for c in cs)
    def eq(self, o):
        return False if isinstance(o, str) or o is None else NotImplemented
    def vc_float(self): return self
    def vc_jsonkey(self): return TextKey(self)
class TextKey(rt.Key, str):
    """the text of a generic number"""
    def __new__(cls, of): return str.__new__(cls, "<number>")
    def __init__(self, of):
        rt.Key.__init__(self, of.name + ".text")
        self.of = of
    def eq(self, o):
        if type(o) is str:
            try:
                float(o)
            except ValueError:
                return False
            if o in ("NaN", "nan"):
                return False
        return NotImplemented
    def vc_float(self): return self.of
    def vc_jsonkey(self): return self
    def __str__(self): raise Unsupported("text of a generic key")
    def __format__(self, f): return "<number>"
class WordKey(NameKey):
    """any text used as a key"""
    def vc_float(self): raise Unsupported("number of any text")
    def vc_jsonkey(self): return self
class NaNKey(NameKey):
    """the key of entries without a number: the text NaN"""
    def eq(self, o):
        return o == "NaN" if type(o) is str else NotImplemented
    def vc_float(self): return float("nan")
    def vc_jsonkey(self): return self

def J(x):
    if x is None or isinstance(x, (bool, SBool)) or type(x) in (str, int, float) or isinstance(x, SNum):
        return x
    if isinstance(x, JList):
        return x
    if isinstance(x, rt.SymDict):
        return rt.SymDict(jkey(x.key), x.hasz, J(x.get_val()) if x.hasz is not False else None)
    if isinstance(x, rt.SymSeq):
        return x.as_cls(list)
    if isinstance(x, dict):
        return (rt.OpenDict if isinstance(x, rt.OpenDict) else dict)((jkey(k), J(v)) for k, v in dict.items(x))
    if isinstance(x, (list, tuple)):
        return [J(y) for y in x]
    if isinstance(x, str):
        return x
    if isinstance(x, (Leaf, set, frozenset, type)) or isinstance(x, npf.ndarray) or type(x).__module__.startswith("histbook"):
        raise TypeError("Object of type {0} is not JSON serializable".format(type(x).__name__))
    raise Unsupported("JSON of {0}".format(type(x).__name__))
def jkey(k):
    if isinstance(k, rt.Key):
        return k.vc_jsonkey()
    if type(k) is str:
        return k
    if type(k) in (int, float):
        return repr(k)
    if k is True or k is False or k is None:
        return {True: "true", False: "false", None: "null"}[k]
    if isinstance(k, Sym):
        raise Unsupported("symbolic key")
    raise TypeError("keys must be str, int, float, bool or None")

def P(x, memo=None):
    memo = {} if memo is None else memo
    if x is None or isinstance(x, (bool, int, float, str, bytes, type, rt.Key, Sym)) or callable(x) and not hasattr(x, "__dict__"):
        return x
    if id(x) in memo:
        return memo[id(x)][0]
    def keep(y):
        memo[id(x)] = (y, x)
        return y
    if isinstance(x, Leaf):
        return keep(x.copy())
    if isinstance(x, rt.SymDict):
        out = keep(rt.SymDict(x.key, x.hasz, None))
        if x.hasz is not False:
            out.val_ = P(x.get_val(), memo)
        return out
    if isinstance(x, collections.OrderedDict):
        out = keep(collections.OrderedDict())
        for k, v in x.items():
            out[P(k, memo)] = P(v, memo)
        return out
    if type(x) in (dict, rt.OpenDict):
        out = keep(type(x)())
        for k, v in x.items():
            out[P(k, memo)] = P(v, memo)
        return out
    if type(x) is list:
        out = keep([])
        out.extend(P(y, memo) for y in x)
        return out
    if type(x) is tuple:
        return keep(tuple(P(y, memo) for y in x))
    if type(x) in (set, frozenset):
        return keep(type(x)(P(y, memo) for y in x))
    if isinstance(x, rt.SymIter) or isinstance(x, npf.ndarray):
        if isinstance(x, rt.SymSeq):
            return x
        raise Unsupported("pickle of {0}".format(type(x).__name__))
    import types
    if isinstance(x, types.FunctionType):
        if "<locals>" in x.__qualname__ or "<lambda>" in x.__qualname__:
            raise TypeError("cannot pickle {0}".format(x.__qualname__))
        return x
    red = x.__reduce_ex__(2)
    if isinstance(red, str):
        return x
    red = tuple(red) + (None,)*(5 - len(red))
    out = keep(red[0](*P(red[1], memo)))
    state = P(red[2], memo)
    if state is not None:
        if hasattr(out, "__setstate__"):
            out.__setstate__(state)
        elif isinstance(state, tuple) and len(state) == 2:
            for s in state:
                for k, v in (s or {}).items():
                    setattr(out, k, v)
        else:
            out.__dict__.update(state)
    for y in red[3] or ():
        out.append(P(y, memo))
    for k, v in red[4] or ():
        out[P(k, memo)] = P(v, memo)
    return out

def through(hb, c, x, how):
    cls = hb.hist.Hist if isinstance(x, hb.hist.Hist) else hb.book.GenericBook
    if how == "json":
        obj = must_return(c, "writing", x.tojson)
        obj = must_return(c, "writing", J, obj)
        return must_return(c, "reading", cls.fromjson, obj)
    return must_return(c, "pickling", P, x)

# -------------------------------------------------------------- contracts

OPTIONS = dict(groupby=[], groupbin=["binwidth", "origin", "nanflow", "closedlow"], bin=["numbins", "low", "high", "underflow", "overflow", "nanflow", "closedlow"],
               intbin=["min", "max", "underflow", "overflow"], split=["edges", "underflow", "overflow", "nanflow", "closedlow"], cut=[], profile=[])
EXPRS = ["x", "x + 2*y", "sqrt(x**2 + y**2)"]

def axis_options(hb, c, kind, how):
    rt.SYMHASH[0] = True
    ax = hb.axis
    k = kind.rstrip("123")
    e = ["p", "p and not q", "x < 3"][c.choose(3)] if k == "cut" else EXPRS[c.choose(3)]
    f = lambda: fresh_bool("flag")
    if k in ("groupby", "cut", "profile"):
        given = dict()
        a = getattr(ax, k)(e)
    elif k == "groupbin":
        w, o = fresh_real("binwidth"), fresh_real("origin")
        c.assume(rpos(w.r))
        given = dict(binwidth=w, origin=o, nanflow=f(), closedlow=f())
        a = must_return(c, "construct", ax.groupbin, e, w, origin=o, nanflow=given["nanflow"], closedlow=given["closedlow"])
    elif k == "bin":
        n, lo, hi = fresh_int("numbins", 0), fresh_real("low"), fresh_real("high")
        given = dict(numbins=n, low=lo, high=hi, underflow=f(), overflow=f(), nanflow=f(), closedlow=f())
        c.assume(z3.And(lo.r < hi.r, z3.Or(n.z > 0, given["underflow"].z, given["overflow"].z, given["nanflow"].z)))
        a = must_return(c, "construct", ax.bin, e, n, lo, hi, **dict((q, given[q]) for q in OPTIONS["bin"][3:]))
    elif k == "intbin":
        lo, hi = fresh_int("min", -2**53, 2**53), fresh_int("max", -2**53, 2**53)
        c.assume(lo.z <= hi.z)
        given = dict(min=lo, max=hi, underflow=f(), overflow=f())
        a = must_return(c, "construct", ax.intbin, e, lo, hi, underflow=given["underflow"], overflow=given["overflow"])
    elif k == "split":
        es = [fresh_real("edge{0}".format(q)) for q in range(int(kind[-1]))]
        for q in range(1, len(es)):
            c.assume(es[q - 1].r < es[q].r)
        given = dict(edges=tuple(es), underflow=f(), overflow=f(), nanflow=f(), closedlow=f())
        if len(es) == 1:
            c.assume(z3.Or(given["underflow"].z, given["overflow"].z, given["nanflow"].z))
        a = must_return(c, "construct", ax.split, e, es, **dict((q, given[q]) for q in OPTIONS["split"][1:]))
    h = must_return(c, "construct", hb.hist.Hist, a)
    a = (h._group + h._fixed + h._profile)[0]
    out = through(hb, c, h, how)
    got = out._group + out._fixed + out._profile
    c.prove("axis read back: one axis of the same kind", len(got) == 1 and type(got[0]) is type(a))
    b = got[0]
    c.prove("axis read back: a new object", b is not a)
    c.prove("axis read back: expression", b.expr == e)
    for n in OPTIONS[k]:
        x, y, z_ = given[n], getattr(b, n), getattr(a, n)
        if n == "edges":
            c.prove("axis read back: {0}".format(n), isinstance(y, tuple) and len(y) == len(x) and zb(And(*[And(zb(same(tofloat(p), tofloat(q))), zb(same(tofloat(r), tofloat(q)))) for p, q, r in zip(x, y, z_)])))
        elif isinstance(x, SBool):
            c.prove("axis read back: {0}".format(n), isinstance(y, (bool, SBool)) and zb(And(Iff(asbool(x), asbool(y)), Iff(asbool(x), asbool(z_)))))
        else:
            c.prove("axis read back: {0}".format(n), isint(x) == isint(y) and zb(And(same(tofloat(x), tofloat(y)), same(tofloat(x), tofloat(z_)))))
    eq = must_return(c, "==", lambda: a == b)
    c.prove("axis read back: equal", zb(asbool(eq)))
    ne = must_return(c, "!=", lambda: a != b)
    c.prove("axis read back: not unequal", zb(Not(asbool(ne))))

ATT = [{}, {"note": "n", "list": [1, 2.5, {"x": None}]}]
DEFS = [None, {"D": "x0 + 1", "c": 2.5, "n": 3}]

def equal_arrays():
    def array_equal(a, b):
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            if not sameshape(a.shape_, b.shape_):
                return False
            return mkbool(And(*[eqv(tofloat(x), tofloat(y)) for x, y in zip(a.vals, b.vals)]))
        return NotImplemented
    npf.HOOKS["array_equal"] = [array_equal]

def keys_of(c, g):
    out = []
    for i in range(g):
        if i == 1:
            out.append(NumberKey("key1") if c.choose(2) == 0 else NaNKey("key1"))
        else:
            out.append(WordKey("key{0}".format(i)))
    return out

def axes_with_options(hb, g, f, p):
    """as tree.axes, with every option away from its default somewhere"""
    ax = hb.axis
    groups = [ax.groupby("g0"), ax.groupbin("g1", 0.5, origin=0.25, nanflow=True, closedlow=False), ax.groupby("g2 + D" if False else "g2")]
    fixed = [ax.bin("x0 + c" if False else "x0", 5, -1, 4, underflow=False, closedlow=False), ax.split("x1", (1, 2, 4), overflow=False), ax.cut("x2"), ax.intbin("x3", -2, 3)]
    profs = [ax.profile("y0"), ax.profile("y1 + 2*y0")]
    return groups[:g] + fixed[:f] + profs[:p]

def build(hb, c, s, w, defs, att):
    opts = {"weight": {"none": None, "weight": "w", "const": 2.5, "filter": None, "both": "w"}[w], "filter": "x0 > 0" if w in ("filter", "both") else None}
    if defs is not None:
        opts["defs"] = dict(defs)
    if att:
        opts["attachment"] = dict(att)
    return must_return(c, "construct", hb.hist.Hist, *axes_with_options(hb, *s), **opts)

def restored(hb, c, h, out, A, keys, content, snap, st, how, defs, att, what=""):
    c.prove(what + "a histogram", isinstance(out, hb.hist.Hist) and out is not h)
    c.prove(what + "same options", c_c12.equal_options(out, h))
    c.prove(what + "same options: definitions and attachments", out._defs == (defs or {}) and out._attachment == att and h._defs == (defs or {}) and h._attachment == att)
    c.prove(what + "layout of the result", right_layout(out))
    c.prove(what + "original is unchanged", h._content is content and unchanged(content, snap) and samestate(h, st))
    R = view(c, out._content, keys, what + "same contents: well formed")
    if R is not NOTHING and R.vals is not None:
        c.prove(what + "same contents: shape", sameshape(R.vals.shape_, h._shape))
        ty = R.vals.dtype
    c_c12.same_contents(c, A, R, h._shape[-1], what + "same contents")
    r = reach(out._content)
    c.prove(what + "not shared with the original", not any(i in r for i in reach(h._content)) and out._destination is not h._destination and (out._attachment is not h._attachment or not att) and not out._copyonfill)
    # what a fill computes for the axes is delivered to the restored histogram itself
    c.prove(what + "plan delivers into the restored object", isinstance(out._destination, list) and len(out._destination) == 1)

def plan_ok(hb, c, obj, hists, what):
    """the plan used by the next fill is that of these histograms: exports go to their own places"""
    fields = must_return(c, what + "fields", lambda: obj.fields)
    want = set()
    for x in hists:
        want |= set(must_return(c, what + "fields", lambda: x.copy().fields))
    c.prove(what + "plan delivers: fields", set(fields) == want)
    if isinstance(obj, hb.book.Book):
        d = obj._destination
        c.prove(what + "plan delivers: into the members", len(d) == len(hists) and all(a is x._destination[0] for a, x in zip(d, hists)))

def histogram(hb, c, s, w, how):
    g, f, p = s
    keys = keys_of(c, g)
    k = c.choose(2)
    defs, att = DEFS[k], ATT[k]
    h = build(hb, c, s, w, defs, att)
    install([h._shape])
    equal_arrays()
    A = contents(c, h, keys, "h")
    if c.choose(2) == 1:
        if not (g or f or p):
            return
        must_return(c, "fields", lambda: h.fields)    # a plan has been made before
    content = h._content
    snap, st = snapshot(content), state(h)
    out = through(hb, c, h, how)
    restored(hb, c, h, out, A, keys, content, snap, st, how, defs, att)
    # read back is equal by the real comparison (of the contents that are numbers)
    if A is not NOTHING:
        for v in A.vals:
            c.assume(zb(Not(tofloat(v).nan)))
        R = view(c, out._content, keys)
        if R.vals is None:
            return
    rt.GENERIC[0] = True
    eq = must_return(c, "==", lambda: out == h)
    c.prove("equal to the original", zb(asbool(eq)))
    ne = must_return(c, "!=", lambda: out != h)
    c.prove("not unequal to the original", zb(Not(asbool(ne))))
    rt.GENERIC[0] = False
    if g or f or p:
        plan_ok(hb, c, out, [out], "")

def book(hb, c, kind, how):
    keys = keys_of(c, 2)
    names = dict(Book=["a", "n/x", "n/m/y"], GenericBook=["a", "n/x", "n/m/y"], ChannelsBook=["a", "n/x"], SamplesBook=["p/a", "q/a"], SystematicsBook=["v0", "v1"], ViewBook=["a", "n/x"])[kind]
    which = names[c.choose(len(names))]
    H = collections.OrderedDict()
    k = c.choose(2)
    for i, n in enumerate(names):
        att = dict(ATT[k], **({"systematic": (i,)} if kind == "SystematicsBook" and how == "pickle" else {"systematic": [i]} if kind == "SystematicsBook" else {}))
        h = build(hb, c, (2, 1, 1), "both" if k else "none", DEFS[k], att)
        install([h._shape])
        equal_arrays()
        H[n] = (h, att)
    cls = getattr(hb.book, kind)
    if kind == "SamplesBook":
        b = must_return(c, "construct", cls, ["p", "q"], {"a": H["p/a"][0]})
        for n in names:
            H[n] = (b[n], H[n][1])
    else:
        b = must_return(c, "construct", cls)
        if kind == "GenericBook":
            b["n"] = hb.book.GenericBook()
        for n in names:
            b[n] = H[n][0]
    A = {}
    for n in names:
        h = H[n][0]
        if n == which:
            A[n] = contents(c, h, keys, n)
        else:
            h._content, has, vals = make_content(c, h, keys, n)
            A[n] = View(has, vals)
            h._content.hasz = False
            A[n] = View([z3.BoolVal(False)]*len(keys), None)
    if k:
        b.attach("k", [1, {"z": "t"}])
    if isinstance(b, hb.book.Book) and c.choose(2) == 1:
        must_return(c, "fields", lambda: b.fields)    # it was filled before: a plan has been made
    snaps = dict((n, (h, h._content, snapshot(h._content), state(h))) for n, (h, a) in H.items())
    order = b.allkeys()
    kinds = [type(x) for _, x in b.allitems()]
    out = through(hb, c, b, how)
    c.prove("same class", type(out) is type(b))
    c.prove("same members", out.allkeys() == order and [type(x) for _, x in out.allitems()] == kinds)
    c.prove("same attachments", out._attachment == b._attachment == ({"k": [1, {"z": "t"}]} if k else {}))
    c.prove("original is unchanged: members", b.allkeys() == order and all(b[n] is H[n][0] for n in names))
    new = [out[n] for n in names]
    c.prove("members are distinct new histograms", len(set(id(x) for x in new)) == len(new) and not any(x is H[m][0] for x in new for m in names))
    for n in names:
        h, content, snap, st = snaps[n]
        restored(hb, c, h, out[n], A[n], keys, content, snap, st, how, DEFS[k], H[n][1], "member ")
    if isinstance(out, hb.book.Book):
        plan_ok(hb, c, out, [out[n] for n in out.allkeys(onlyhist=True)], "")
    else:
        for n in names:
            plan_ok(hb, c, out[n], [out[n]], "")
