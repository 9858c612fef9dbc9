"""Model of bin contents for arithmetic, copies and grouping: nested dicts at one generic key per group axis, ending in arrays seen at one
generic cell, every column apart.  Arrays and dicts keep their identity, so sharing and in-place changes are visible."""
from common import *

class Leaf(npf.ndarray):
    """a content array: shape (last: number of columns), values of the generic cell; views share .buf"""
    vc_version = True
    def __init__(self, shape, vals):
        self.shape_, self.vals, self.version = tuple(shape), list(vals), 0
        self.dtype = npf.DType("f", 64)
    @property
    def shape(self): return self.shape_
    @property
    def ndim(self): return len(self.shape_)
    @property
    def size(self): raise Unsupported("size of a content array")
    def vc_len(self): return self.shape_[0]
    def vc_isinstance(self, cs):
        return any(c is npf.ndarray or c is object or c is Leaf for c in cs)
    def copy(self, *a): return Leaf(self.shape_, self.vals)
    def vc_array(self, dtype=None): return self.copy()
    def astype(self, t, copy=True):
        if npf.asdtype(t) != self.dtype:
            raise Unsupported("content cast")
        return self.copy()
    def pair(self, o):
        if isinstance(o, Leaf):
            if not (len(o.shape_) == len(self.shape_) and all(a is b or (type(a) is int and a == b) for a, b in zip(self.shape_, o.shape_))):
                raise Unsupported("arrays of different shapes")
            return o.vals
        o = plain(o)
        if isinstance(o, (int, float, SNum)):
            return [o]*len(self.vals)
        raise Unsupported("content array combined with {0}".format(type(o).__name__))
    def op(self, f, o, swap=False):
        b = self.pair(o)
        return [f(tofloat(y), tofloat(x)) if swap else f(tofloat(x), tofloat(y)) for x, y in zip(self.vals, b)]
    def store(self, vals):
        self.vals, self.version = list(vals), self.version + 1
        return self
    def __add__(self, o): return Leaf(self.shape_, self.op(fadd, o))
    def __radd__(self, o): return Leaf(self.shape_, self.op(fadd, o, True))
    def __sub__(self, o): return Leaf(self.shape_, self.op(lambda a, b: fadd(a, fneg(b)), o))
    def __mul__(self, o): return Leaf(self.shape_, self.op(fmul, o))
    def __rmul__(self, o): return Leaf(self.shape_, self.op(fmul, o, True))
    def __truediv__(self, o): return Leaf(self.shape_, self.op(fdiv_np, o))
    def __iadd__(self, o): return self.store(self.op(fadd, o))
    def __isub__(self, o): return self.store(self.op(lambda a, b: fadd(a, fneg(b)), o))
    def __imul__(self, o): return self.store(self.op(fmul, o))
    def __itruediv__(self, o): return self.store(self.op(fdiv_np, o))
    def __getitem__(self, i):
        if i is Ellipsis or i == slice(None) or (isinstance(i, tuple) and all(x is Ellipsis or x == slice(None) for x in i)):
            raise Unsupported("view of a content array")
        raise Unsupported("index of a content array")
    def __setitem__(self, i, x):
        if i is Ellipsis or i == slice(None):
            self.store(self.pair(x))
            return
        raise Unsupported("assignment to a content array")
    def vc_ufunc(self, name, fn, xs, out):
        n = len(self.vals)
        cols = [x.vals if isinstance(x, Leaf) else [plain(x)]*n for x in xs]
        for x in xs:
            if isinstance(x, Leaf):
                self.pair(x)
            elif not isinstance(plain(x), (int, float, SNum)):
                raise Unsupported(name)
        vals = [fn(*[c[q] for c in cols]) for q in range(n)]
        if out is not None:
            if not isinstance(out, Leaf):
                raise Unsupported("out=")
            return out.store(vals)
        return Leaf(self.shape_, vals)
    def tolist(self): return JList(self)
    def reshape(self, *a): raise Unsupported("reshape of a content array")
    def __eq__(self, o): raise Unsupported("== of a content array")
    __hash__ = object.__hash__
    def __bool__(self): raise ValueError("The truth value of an array with more than one element is ambiguous")
    def __iter__(self): raise Unsupported("iteration over a content array")
    def __repr__(self): return "<content>"

class JList(object):
    """array.tolist(): nested lists of the same numbers"""
    def __init__(self, leaf):
        self.shape, self.vals = leaf.shape_, list(leaf.vals)
    def vc_isinstance(self, cs):
        return any(c in (list, object) for c in cs)
    def vc_array(self, dtype=None):
        return Leaf(self.shape, self.vals)

def zeros_like(x, *a, **k):
    if isinstance(x, Leaf):
        return Leaf(x.shape_, [tofloat(0.0)]*len(x.vals))
    return NotImplemented
def sameshape(s, shape):
    return isinstance(s, tuple) and len(s) == len(shape) and all(a is b or (type(a) is type(b) is int and a == b) for a, b in zip(s, shape))
def install(shapes):
    """numpy functions on content arrays; shapes: those of the histograms at hand"""
    def zeros(s, dtype=None, **k):
        for shape in shapes:
            if sameshape(s, shape):
                return Leaf(shape, [tofloat(0.0)]*shape[-1])
        return NotImplemented
    def arr(x, *a, **k):
        h = getattr(x, "vc_array", None)
        return h() if h is not None else NotImplemented
    def copy(x, *a, **k):
        return x.copy() if isinstance(x, Leaf) else NotImplemented
    def asarray(x, *a, **k):
        if isinstance(x, Leaf):
            return x
        return arr(x)
    npf.HOOKS["zeros"] = [zeros]
    npf.HOOKS["array"] = [arr]
    npf.HOOKS["copy"] = [copy]
    npf.HOOKS["asarray"] = [asarray]
    npf.HOOKS["zeros_like"] = [zeros_like]

for _n in ("copy", "asarray", "zeros_like"):
    if not hasattr(npf.F, "_vcdef_" + _n):
        def _f(_n):
            @npf.define(_n)
            def g(*a, **k):
                raise Unsupported("numpy." + _n)
            setattr(npf.F, "_vcdef_" + _n, True)
        _f(_n)

# -------------------------------------------------------------- contents

def make_content(c, h, keys, name):
    """arbitrary contents of h, seen at the keys and a generic cell: dicts, whether the key is there, values"""
    shape = h._shape
    leaf = Leaf(shape, [fresh_float("{0}.col{1}".format(name, q)) for q in range(shape[-1])])
    node, has, nodes = leaf, [], [leaf]
    for i in reversed(range(len(keys))):
        b = z3.Bool("{0}.has{1}".format(name, i))
        has.insert(0, b)
        node = rt.SymDict(keys[i], b, node)
        nodes.insert(0, node)
    return node, has, list(leaf.vals)

class View(object):
    """what a content is at the generic path: has[i] that the key of level i is there (given those above), values at the end"""
    def __init__(self, has, vals):
        self.has, self.vals = has, vals
    def exists(self, i):
        return zb(And(*self.has[:i]))

NOTHING = "no contents"

def view(c, content, keys, clause="well formed"):
    """walk a content to the generic path; presence is decided on this path of the proof"""
    if content is None:
        return NOTHING
    node, depth = content, 0
    for i, k in enumerate(keys):
        if isinstance(node, rt.SymDict):
            if not c.branch(zb(node.hasz)):
                return View([True]*i + [False], None)
            c.prove("{0}: no other keys".format(clause), node.key is k)
            node = node.get_val()
        elif isinstance(node, dict):
            extra = [x for x in dict.__iter__(node) if x is not k]
            c.prove("{0}: no other keys".format(clause), not extra)
            if k not in node:
                return View([True]*i + [False], None)
            node = dict.__getitem__(node, k)
        else:
            c.prove("{0}: a dict for every group axis".format(clause), False)
            raise PathEnd()
    if not isinstance(node, Leaf):
        c.prove("{0}: an array below the group axes".format(clause), False)
        raise PathEnd()
    return View([True]*len(keys), node)

def reach(content):
    """identities of everything mutable in a content"""
    out = {}
    def rec(x):
        if x is None or id(x) in out:
            return
        if isinstance(x, rt.SymDict):
            out[id(x)] = x
            if x.hasz is not False:
                rec(x.get_val())
        elif isinstance(x, dict):
            out[id(x)] = x
            for y in dict.values(x):
                rec(y)
        elif isinstance(x, npf.ndarray):
            out[id(x)] = x
            b = getattr(x, "buf", None)
            if b is not None:
                out[id(b)] = b
    rec(content)
    return out

def snapshot(content):
    def rec(x):
        if isinstance(x, rt.SymDict):
            return ("symdict", x, x.hasz, None if x.hasz is False else rec(x.get_val()))
        if isinstance(x, dict):
            return ("dict", x, [(k, rec(v)) for k, v in dict.items(x)])
        if isinstance(x, Leaf):
            return ("leaf", x, x.version, list(x.vals))
        return ("other", x)
    return rec(content)
def unchanged(content, snap):
    """identical nodes with identical values"""
    kind = snap[0]
    if content is not snap[1]:
        return False
    if kind == "symdict":
        a, b = content.hasz, snap[2]
        if not (a is b or (not isinstance(a, bool) and not isinstance(b, bool) and a.eq(b))):
            return False
        return True if snap[3] is None else unchanged(content.get_val(), snap[3])
    if kind == "dict":
        return list(dict.keys(content)) == [k for k, _ in snap[2]] and all(unchanged(dict.__getitem__(content, k), s) for k, s in snap[2])
    if kind == "leaf":
        return all(zb(same(x, y)) is not None and same_now(x, y) for x, y in zip(content.vals, snap[3]))
    return True
def same_now(x, y):
    if x is y:
        return True
    s = zb(same(tofloat(x), tofloat(y)))
    return ctx().feasible(z3.Not(s)) == z3.unsat

STATE = ("_weightoriginal", "_filteroriginal", "_defs", "_attachment", "_copyonfill")
def state(h):
    """the rest of a histogram: options, axes and their positions"""
    return dict([(n, getattr(h, n)) for n in STATE] + [("axes", tuple(h._group + h._fixed + h._profile)), ("layout", layout(h)), ("defs", dict(h._defs)), ("attachment", dict(h._attachment)), ("shape", h._shape)])
def layout(h):
    return ([x._dictindex for x in h._group], [x._shapeindex for x in h._fixed], [(x._sumwxindex, x._sumwx2index) for x in h._profile], h._sumwindex, getattr(h, "_sumw2index", None))
def right_layout(h):
    p = len(h._profile)
    w = h._weightparsed is not None
    return layout(h) == (list(range(len(h._group))), list(range(len(h._fixed))), [(2*i, 2*i + 1) for i in range(p)], 2*p, 2*p + 1 if w else None) if w else layout(h)[:4] == (list(range(len(h._group))), list(range(len(h._fixed))), [(2*i, 2*i + 1) for i in range(p)], 2*p)
def samestate(h, s, flags=True):
    t = state(h)
    for n in s:
        if n == "_copyonfill" and not flags:
            continue
        if n == "axes":
            if len(t[n]) != len(s[n]) or any(a is not b for a, b in zip(t[n], s[n])):
                return False
        elif n == "shape":
            if t[n] is not s[n] and not sameshape(t[n], s[n]):
                return False
        elif n in ("_defs", "_attachment"):
            if t[n] is not s[n]:
                return False
        elif t[n] != s[n]:
            return False
    return True

# -------------------------------------------------------------- histograms

def axes(hb, g, f, p):
    """representative axes of every kind; their binning plays no part in the properties that use them"""
    ax = hb.axis
    groups = [ax.groupby("g0"), ax.groupbin("g1", 0.5, origin=0.25), ax.groupby("g2")]
    fixed = [ax.bin("x0", 5, -1, 4), ax.split("x1", (1, 2, 4), overflow=False), ax.cut("x2"), ax.intbin("x3", -2, 3)]
    profs = [ax.profile("y0"), ax.profile("y1")]
    return groups[:g] + fixed[:f] + profs[:p]

def make_hist(hb, c, g, f, p, w, defs=None):
    opts = {"weight": {"none": None, "weight": "w", "const": 2.5, "filter": None, "both": "w"}[w], "filter": "x0 > 0" if w in ("filter", "both") else None}
    if defs is not None:
        opts["defs"] = defs
    return must_return(c, "construct", hb.hist.Hist, *axes(hb, g, f, p), **opts)

class NameKey(rt.Key, str):
    """a generic key that is a string: also stands for the name of a keyword argument"""
    def __new__(cls, name):
        return str.__new__(cls, name)
    def eq(self, o):
        if type(o) is str and o in ("self", "cls", "by"):
            return False          # names of parameters (Python decides which argument is meant)
        return NotImplemented
    def __str__(self): raise Unsupported("text of a generic key")
    def __format__(self, f): return "<key>"

def generic_keys(g):
    return [NameKey("key{0}".format(i)) for i in range(g)]

def contents(c, h, keys, name):
    """unfilled or any contents; returns (content, view)"""
    if c.choose(2, "unfilled") == 1:
        h._content = None
        return NOTHING
    content, has, vals = make_content(c, h, keys, name)
    h._content = content
    return View(has, vals)

SHAPES = [(0, 0, 0), (0, 2, 0), (0, 1, 2), (1, 0, 0), (1, 1, 1), (2, 1, 0), (2, 2, 1), (3, 1, 1), (3, 0, 0)]
WEIGHTS = ["none", "weight", "filter"]
