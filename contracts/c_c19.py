"""C19: a book behaves as an ordered mapping from paths.

The books are real ones of bounded shape whose member names are arbitrary texts without a slash (symbolic: any two may be equal or not, siblings
differ); a path is a sequence of such texts; whether a wildcard pattern matches a path is an arbitrary predicate on paths.  From any such state
one operation is run; the reference is an ordered tree:

  assignment  ensures  the path holds the value, every other path what it held, new members last, intermediate books are created; below a
                       histogram: KeyError and nothing changed
  deletion    ensures  the path and what lies below it is gone, every other path holds what it held; missing: KeyError and nothing changed
  lookup, in  ensures  the member last assigned, or KeyError / False
  wildcards   ensures  lookup: exactly the members whose full path matches, in order; deletion: exactly these are gone; view: exactly the
                       matching histograms, ValueError if none
  listings    ensures  every member once, in order, under its full path; keys, values, items, iteration and len agree
Because the state is arbitrary, one operation stands for any operation of any history.
"""
from common import *

ASSUMPTIONS = ["the standard dictionary keeps order and finds a key iff it equals it (collections.OrderedDict)",
               "fnmatch.fnmatchcase decides whether a text matches a pattern (an arbitrary predicate here)",
               "plain paths contain no wildcard character; member names contain no slash (a path has as many steps as slashes plus one)"]
BOUNDS = ["books of up to 5 members, up to 3 levels deep, in 10 shapes; paths of up to 4 steps; names, patterns and what they match are symbolic (unbounded)"]

class Seg(object):
    """an arbitrary text without slash"""
    def __init__(self, name):
        self.name, self.rank = name, fresh_int("name." + name).z

class Slash(object):
    """position of a slash"""
    def __init__(self, at, after=False):
        self.at, self.after = at, after
    def __add__(self, n):
        if n == 1 and not self.after:
            return Slash(self.at, True)
        raise Unsupported("position")
    __radd__ = __add__
    def _cmp(self, o):
        if isinstance(o, int) and o <= 0 and not isinstance(o, bool):
            return True
        raise Unsupported("position")
    def __ge__(self, o): return self._cmp(o)
    def __gt__(self, o):
        if o < 0: return True
        raise Unsupported("position")
    def __lt__(self, o): return not self._cmp(o)
    def __eq__(self, o):
        if isinstance(o, int) and o < 0: return False
        raise Unsupported("position")
    def __ne__(self, o): return not self == o
    def __hash__(self): return 0

class Text(str):
    """some text with an arbitrary name in it (messages)"""
    def __new__(cls): return str.__new__(cls, "<text>")
    def _no(self, *a, **k): raise Unsupported("text made of an arbitrary name")
    def __add__(self, o): return self
    def __radd__(self, o): return self
    def vc_concat(self, parts): return self
    vc_in = __contains__ = __eq__ = __ne__ = __hash__ = index = find = split = partition = startswith = endswith = __getitem__ = __len__ = __iter__ = _no

class PT(str):
    """a text made of segments and slashes, or a wildcard pattern (tokens = None)"""
    def __new__(cls, *a): return str.__new__(cls, "<path>")
    def __init__(self, tokens, pattern=None):
        self.tokens, self.pattern = tokens, pattern
    def toks(self):
        if self.tokens is None:
            raise Unsupported("the text of a pattern")
        return self.tokens
    def steps(self):
        out = [[]]
        for t in self.toks():
            if t == "/":
                out.append([])
            else:
                out[-1].append(t)
        if not all(len(x) == 1 and isinstance(x[0], Seg) for x in out):
            raise Unsupported("path with concrete or empty steps")
        return [x[0] for x in out]
    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, PT):
            a, b = self.steps(), o.steps()
            return mkbool(zb(And(*[x.rank == y.rank for x, y in zip(a, b)]))) if len(a) == len(b) else False
        if isinstance(o, str):
            if o == "" and len(self.toks()) > 1:
                return False
            raise Unsupported("an arbitrary name against {0!r}".format(str(o)))
        return False
    def __ne__(self, o): return mkbool(Not(asbool(self == o)))
    def __hash__(self): return 0
    def at(self):
        for q, t in enumerate(self.toks()):
            if t == "/":
                return Slash(q)
        return None
    def rat(self):
        for q in reversed(range(len(self.toks()))):
            if self.tokens[q] == "/":
                return Slash(q)
        return None
    def onlyslash(self, s):
        if type(s) is not str or s != "/":
            raise Unsupported("search in an arbitrary name")
    def index(self, s):
        self.onlyslash(s)
        p = self.at()
        if p is None:
            raise ValueError("substring not found")
        return p
    def find(self, s):
        self.onlyslash(s)
        p = self.at()
        return -1 if p is None else p
    def rindex(self, s):
        self.onlyslash(s)
        p = self.rat()
        if p is None:
            raise ValueError("substring not found")
        return p
    def rfind(self, s):
        self.onlyslash(s)
        p = self.rat()
        return -1 if p is None else p
    def partition(self, s):
        self.onlyslash(s)
        p = self.at()
        return (self, "", "") if p is None else (self[:p], "/", self[p + 1:])
    def rpartition(self, s):
        self.onlyslash(s)
        p = self.rat()
        return ("", "", self) if p is None else (self[:p], "/", self[p + 1:])
    def split(self, s=None, maxsplit=-1):
        self.onlyslash(s)
        xs = [PT((t,)) for t in self.steps()]
        if maxsplit >= 0 and len(xs) > maxsplit + 1:
            xs = xs[:maxsplit] + [join(xs[maxsplit:])]
        return xs
    def rsplit(self, s=None, maxsplit=-1):
        self.onlyslash(s)
        xs = [PT((t,)) for t in self.steps()]
        if maxsplit >= 0 and len(xs) > maxsplit + 1:
            xs = [join(xs[:-maxsplit])] + xs[-maxsplit:] if maxsplit else [self]
        return xs
    def count(self, s):
        self.onlyslash(s)
        return len(self.steps()) - 1
    def __getitem__(self, s):
        if isinstance(s, slice) and s.step is None:
            a, b = s.start, s.stop
            if a is None and isinstance(b, Slash) and not b.after:
                return PT(self.toks()[:b.at])
            if isinstance(a, Slash) and a.after and b is None:
                return PT(self.toks()[a.at + 1:])
            if a is None and b is None:
                return self
        raise Unsupported("characters of an arbitrary name")
    def __add__(self, o):
        if isinstance(o, PT):
            return PT(self.toks() + o.toks())
        if type(o) is str and o.strip("/") == "":
            return PT(self.toks() + tuple(o))
        return Text()
    def __radd__(self, o):
        if type(o) is str and o.strip("/") == "":
            return PT(tuple(o) + self.toks())
        return Text()
    def vc_concat(self, parts):
        """the text made of these parts"""
        out = ()
        for x in parts:
            if isinstance(x, PT):
                out += x.toks()
            elif type(x) is str and x.strip("/") == "":
                out += tuple(x)
            else:
                return Text()
        return PT(out)
    def vc_in(self, s):
        if type(s) is str and s in ("*", "?", "["):
            return self.pattern == s
        if type(s) is str and s == "/":
            return self.at() is not None
        raise Unsupported("search in an arbitrary name")
    def __contains__(self, s): return self.vc_in(s)
    def startswith(self, s, *a):
        if isinstance(s, PT) and not a:
            t = s.toks()
            if t and t[-1] == "/":
                a, b = self.steps(), PT(t[:-1]).steps()
                return mkbool(zb(And(*[x.rank == y.rank for x, y in zip(a, b)]))) if len(a) > len(b) else False
        raise Unsupported("characters of an arbitrary name")
    def __len__(self): raise Unsupported("length of an arbitrary name")
    def __bool__(self):
        if self.tokens is None or len(self.tokens) > 1:
            return True
        return ctx().branch(z3.Bool("nonempty." + self.tokens[0].name)) if len(self.tokens) == 1 else False
    def __iter__(self): raise Unsupported("characters of an arbitrary name")
    def __format__(self, f): return "<text>"
    def __str__(self): return self
    def __repr__(self): return "<path>"
    def _no(self, *a, **k): raise Unsupported("characters of an arbitrary name")
    strip = lstrip = rstrip = lower = upper = replace = endswith = encode = join = isidentifier = isdigit = splitlines = title = __mod__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = _no

def join(xs):
    out = ()
    for q, x in enumerate(xs):
        out += (("/",) if q else ()) + x.toks()
    return PT(out)

MATCHED = {}
class Pattern(PT):
    def __init__(self, name, kind):
        PT.__init__(self, None, kind)
        self.name, self.asked = name, []
    def matches(self, steps):
        """arbitrary but the same for equal paths"""
        n = len(steps)
        f = z3.Function("match.{0}.{1}".format(self.name, n), *([z3.IntSort()]*n + [z3.BoolSort()]))
        return f(*[s.rank for s in steps])
    def __eq__(self, o): return self is o              # no member is named by a pattern
    def __ne__(self, o): return self is not o
    def __hash__(self): return 0
    def at(self): return None
    rat = at

class Fnmatch(object):
    def fnmatchcase(self, name, pat):
        if isinstance(pat, Pattern) and isinstance(name, PT):
            return mkbool(pat.matches(name.steps()))
        raise Unsupported("fnmatchcase")
    def filter(self, names, pat):
        raise Unsupported("fnmatch.filter: depends on the operating system")
    def __getattr__(self, n):
        raise Unsupported("fnmatch." + n)

# ------------------------------------------------------------------ states

H = "h"
SHAPES = {"empty": [], "h": [H], "hh": [H, H], "b": [[]], "b(h) h": [[H], H], "h b(h h)": [H, [H, H]], "b(b(h)) h": [[[H]], H], "b(h) b(h)": [[H], [H]], "b(b(h) h)": [[[H], H]], "h h h": [H, H, H]}

class Node(object):
    """reference: an ordered tree of names"""
    def __init__(self):
        self.kids = []                       # (Seg, Node or object)
    def listing(self, path=()):
        out = []
        for s, x in self.kids:
            out.append((path + (s,), x))
            if isinstance(x, Node):
                out += x.listing(path + (s,))
        return out
    def find(self, c, seg):
        for q, (s, x) in enumerate(self.kids):
            if s is seg or c.branch(s.rank == seg.rank):
                return q
        return None

def build(hb, c, shape, cls):
    """the real book and its reference"""
    n = [0]
    def rec(sh, cls):
        node, book = Node(), cls()
        for x in sh:
            n[0] += 1
            s = Seg("n{0}".format(n[0]))
            for t, _ in node.kids:
                c.assume(t.rank != s.rank)
            if x == H:
                v = w = hist(hb)
            else:
                w, v = rec(x, hb.book.Book)
                w.book = v
            node.kids.append((s, w))
            book[PT((s,))] = v
        return node, book
    node, book = rec(SHAPES[shape], cls)
    node.book = book
    return node, book

def hist(hb):
    return hb.hist.Hist.__new__(hb.hist.Hist)

def objof(x):
    return x.book if isinstance(x, Node) else x

def agrees(hb, node, got):
    """the listing of the real book is that of the reference"""
    want = node.listing()
    if not isinstance(got, list) or len(got) != len(want):
        return z3.BoolVal(False)
    cl = []
    for (p, x), g in zip(want, got):
        if not isinstance(g, tuple) or len(g) != 2:
            return z3.BoolVal(False)
        cl.append(samepath(p, g[0]))
        cl.append(z3.BoolVal(sameobj(hb, x, g[1])))
    return z3.And(cl) if cl else z3.BoolVal(True)
def samepath(p, g):
    if not isinstance(g, PT):
        return z3.BoolVal(False)
    s = g.steps()
    return z3.And([a.rank == b.rank for a, b in zip(p, s)]) if len(s) == len(p) else z3.BoolVal(False)
def sameobj(hb, x, v):
    if isinstance(x, Node):
        if getattr(x, "book", None) is None:
            x.book = v                       # a new book: this object from now on
            return isinstance(v, hb.book.Book) and isinstance(v, hb.book.GenericBook)
        return v is x.book
    return v is x

def anypath(c, n):
    return PT(tuple(t for q in range(n) for t in (["/"] if q else []) + [Seg("p{0}".format(q))]))

ROOTS = ["Book", "GenericBook", "ChannelsBook"]
def start(hb, c, shape, roots=3):
    hb.book.fnmatch = Fnmatch()
    r = ROOTS[c.choose(roots)]
    return build(hb, c, shape, getattr(hb.book, r)) + (r,)

def letters(m, node, root, path=None):
    names = {}
    def name(s):
        v = m.eval(s.rank, model_completion=True).as_long()
        return names.setdefault(v, "abcdefghijk"[len(names)])
    ops = []
    for p, x in node:
        ops.append(dict(k="setbook" if isinstance(x, list) else "set", path="/".join(name(s) for s in p), pat="*", pick=0))
    if path is not None:
        path = "/".join(name(s) for s in path.steps())
    return ops, path
def case(node, root, k, path):
    before = [(p, [] if isinstance(x, Node) else 0) for p, x in node.listing()]
    def conc(m):
        ops, p = letters(m, before, root, path)
        ops.append(dict(k=k, path=p, pat="*", pick=1))
        ops += [dict(k="list", path="a", pat="*", pick=0), dict(k="get", path=p, pat="*", pick=0)]
        return dict(ops=ops, cls=root, init=[])
    return conc

def refset(c, node, steps, v):
    """reference assignment; False when it lies below a histogram"""
    q = node.find(c, steps[0])
    if len(steps) == 1:
        if q is None:
            node.kids.append((steps[0], v))
        else:
            node.kids[q] = (node.kids[q][0], v)
        return True
    if q is None:
        n = Node()
        node.kids.append((steps[0], n))
        return refset(c, n, steps[1:], v)
    x = node.kids[q][1]
    return refset(c, x, steps[1:], v) if isinstance(x, Node) else False
def refget(c, node, steps):
    q = node.find(c, steps[0])
    if q is None:
        return None
    x = node.kids[q][1]
    if len(steps) == 1:
        return x
    return refget(c, x, steps[1:]) if isinstance(x, Node) else None
def refdel(c, node, steps):
    q = node.find(c, steps[0])
    if q is None:
        return False
    if len(steps) == 1:
        del node.kids[q]
        return True
    x = node.kids[q][1]
    return refdel(c, x, steps[1:]) if isinstance(x, Node) else False

# ------------------------------------------------------------------ units

def assign(hb, c, shape, n):
    node, book, root = start(hb, c, shape)
    p = anypath(c, n)
    kind = c.choose(3)
    if kind == 0:
        v = w = hist(hb)
    else:
        v, w = hb.book.Book(), Node()
        w.book = v
        if kind == 2:
            s, h = Seg("inner"), hist(hb)
            v[PT((s,))] = h
            w.kids.append((s, h))
    conc = case(node, root, "set" if kind == 0 else "setbook", p)
    ok = refset(c, node, p.steps(), w)
    st, out = call(book.__setitem__, p, v)
    if ok:
        c.prove("an assignment is accepted", z3.BoolVal(st == "ok"), concretise=conc)
    else:
        c.prove("an assignment below a histogram raises KeyError", z3.BoolVal(st == "raised" and isinstance(out, KeyError)), concretise=conc)
    c.prove("each path holds what was last assigned to it", agrees(hb, node, must_return(c, "listing", book.allitems)), concretise=conc)
    if ok:
        got = must_return(c, "lookup", book.__getitem__, p)
        c.prove("the assigned path gives the assigned value", z3.BoolVal(got is v), concretise=conc)

def delete(hb, c, shape, n):
    node, book, root = start(hb, c, shape)
    p = anypath(c, n)
    conc = case(node, root, "del", p)
    ok = refdel(c, node, p.steps())
    st, out = call(book.__delitem__, p)
    if ok:
        c.prove("a deletion is accepted", z3.BoolVal(st == "ok"), concretise=conc)
    else:
        c.prove("deletion of a missing path raises KeyError", z3.BoolVal(st == "raised" and isinstance(out, KeyError)), concretise=conc)
    c.prove("exactly the path is gone", agrees(hb, node, must_return(c, "listing", book.allitems)), concretise=conc)

def lookup(hb, c, shape, n):
    node, book, root = start(hb, c, shape)
    p = anypath(c, n)
    conc = case(node, root, "get", p)
    x = refget(c, node, p.steps())
    st, out = call(book.__getitem__, p)
    if x is not None:
        c.prove("lookup gives the member", z3.BoolVal(st == "ok" and out is objof(x)), concretise=conc)
    else:
        c.prove("a missing path raises KeyError", z3.BoolVal(st == "raised" and isinstance(out, KeyError)), concretise=conc)
    inn = must_return(c, "in", lambda: book.__contains__(p))
    c.prove("in tells whether the path is there", z3.BoolVal(inn is (x is not None)), concretise=conc)
    c.prove("a lookup changes nothing", agrees(hb, node, must_return(c, "listing", book.allitems)), concretise=conc)

def wild(hb, c, shape, what):
    node, book, root = start(hb, c, shape)
    pat = Pattern("w", "*?["[c.choose(3)])
    if what == "lookup":
        want = [objof(x) for p, x in node.listing() if c.branch(pat.matches(p))]
        got = must_return(c, "lookup", book.__getitem__, pat)
        c.prove("exactly the members whose path matches, in order", z3.BoolVal(isinstance(got, list) and len(got) == len(want) and all(x is y for x, y in zip(got, want))))
    else:
        def prune(n, path):
            kids = []
            for s, x in n.kids:
                p = path + (s,)
                if c.branch(pat.matches(p)):
                    continue
                if isinstance(x, Node):
                    prune(x, p)
                kids.append((s, x))
            n.kids = kids
        prune(node, ())
        st, out = call(book.__delitem__, pat)
        c.prove("a wildcard deletion is accepted", z3.BoolVal(st == "ok"))
        c.prove("exactly the matching members are gone", agrees(hb, node, must_return(c, "listing", book.allitems)))
    c.prove("done", True)

def view(hb, c, shape):
    hb.book.fnmatch = Fnmatch()
    node, book = build(hb, c, shape, hb.book.ChannelsBook)
    pat = Pattern("w", "*")
    def keep(n, path):
        out = Node()
        for s, x in n.kids:
            p = path + (s,)
            if isinstance(x, Node):
                k = keep(x, p)
                if k.kids:
                    out.kids.append((s, k))
            elif c.branch(pat.matches(p)):
                out.kids.append((s, x))
        return out
    want = keep(node, ())
    st, out = call(book.view, pat)
    if want.kids:
        c.prove("a view is made", z3.BoolVal(st == "ok" and isinstance(out, hb.book.Book)))
        if st == "ok":
            c.prove("a view has exactly the matching histograms", agrees(hb, want, must_return(c, "listing", out.allitems)))
    else:
        c.prove("a view of nothing raises ValueError", z3.BoolVal(st == "raised" and isinstance(out, ValueError)))
    c.prove("the book itself is not changed", agrees(hb, node, must_return(c, "listing", book.allitems)))

def listings(hb, c, shape):
    node, book, root = start(hb, c, shape)
    rec, only = c.choose(2) == 1, c.choose(2) == 1
    want = [(p, x) for p, x in node.listing() if (rec or len(p) == 1) and not (only and isinstance(x, Node))]
    def same_(xs, what):
        xs = list(xs)
        if len(xs) != len(want):
            return z3.BoolVal(False)
        out = []
        for (p, x), g in zip(want, xs):
            if what == "items":
                if not isinstance(g, tuple) or len(g) != 2:
                    return z3.BoolVal(False)
                out += [samepath(p, g[0]), z3.BoolVal(g[1] is objof(x))]
            elif what == "keys":
                out.append(samepath(p, g))
            else:
                out.append(z3.BoolVal(g is objof(x)))
        return z3.And(out) if out else z3.BoolVal(True)
    for what in ("items", "keys", "values"):
        for n in ("iter" + what, what):
            got = must_return(c, n, lambda: list(getattr(book, n)(recursive=rec, onlyhist=only)))
            c.prove("{0} lists each member once in order".format(n), same_(got, what))
        if rec:
            got = must_return(c, "all" + what, lambda: list(getattr(book, "all" + what)(onlyhist=only)))
            c.prove("all{0} lists each member once in order".format(what), same_(got, what))
        elif not only:
            got = must_return(c, what, lambda: list(getattr(book, what)()))
            c.prove("{0} lists the book's own members".format(what), same_(got, what))
    if rec and only:
        got = must_return(c, "iteration", lambda: list(book.__iter__()))
        c.prove("iteration lists each histogram once in order", same_(got, "items"))
    c.prove("len counts the book's own members", z3.BoolVal(must_return(c, "len", book.__len__) == len(node.kids)))

def construct(hb, c):
    B = hb.book
    cls = getattr(B, ROOTS[c.choose(3)])
    k = c.choose(5)
    h = [hist(hb) for _ in range(3)]
    inner = B.Book()
    names = lambda b: [(n, x) for n, x in b.allitems()]
    eq = lambda got, want: len(got) == len(want) and all(a == b and x is y for (a, x), (b, y) in zip(got, want))
    if k == 0:
        b = must_return(c, "construct", cls, h[0], h[1], inner)
        c.prove("constructed members", z3.BoolVal(eq(names(b), [("0", h[0]), ("1", h[1]), ("2", inner)])))
    elif k == 1:
        b = must_return(c, "construct", lambda: cls({"a": h[0], "b/c": h[1]}, d=h[2]))
        g = names(b)
        c.prove("constructed members", z3.BoolVal(len(g) == 4 and isinstance(g[1][1], B.Book) and g[1][0] == "b" and eq([g[0], g[2], g[3]], [("a", h[0]), ("b/c", h[1]), ("d", h[2])])))
    elif k == 2:
        b = must_return(c, "construct", lambda: cls(x=h[0], y=h[1]))
        c.prove("constructed members", z3.BoolVal(eq(names(b), [("x", h[0]), ("y", h[1])])))
    elif k == 3:
        bad = [(5, h[0]), ("a", 5), (None, h[0]), ("a", None)][c.choose(4)]
        b = must_return(c, "construct", cls)
        st, out = call(b.__setitem__, *bad)
        c.prove("constructed members", z3.BoolVal(st == "raised" and isinstance(out, TypeError) and names(b) == []))
    else:
        st, out = call(cls, h[0], 5)
        st2, out2 = call(cls, {"a": h[0]}, h[1])
        st3, out3 = call(cls, 5)
        c.prove("constructed members", z3.BoolVal(st == st2 == st3 == "raised" and all(isinstance(x, TypeError) for x in (out, out2, out3))))

FN = ["histbook/book.py: GenericBook.__getitem__/_get/__contains__", "histbook/book.py: GenericBook.__setitem__/_set", "histbook/book.py: GenericBook.__delitem__/_del",
      "histbook/book.py: GenericBook._iteritems/iteritems/items/keys/values/all*", "histbook/book.py: GenericBook.__init__", "histbook/book.py: ViewableBook.view", "histbook/book.py: GenericBook.fromdicts"]

def units(hb, tier):
    out = []
    for s in SHAPES:
        depth = lambda sh: 1 + max([depth(x) for x in sh if x != H] or [0])
        for n in range(1, min(4, depth(SHAPES[s]) + 2) + 1):
            out.append(("assign {0} steps in {1}".format(n, s), lambda c, s=s, n=n: assign(hb, c, s, n), FN, ["each path holds what was last assigned to it"]))
            out.append(("delete {0} steps in {1}".format(n, s), lambda c, s=s, n=n: delete(hb, c, s, n), FN, ["exactly the path is gone"]))
            out.append(("lookup {0} steps in {1}".format(n, s), lambda c, s=s, n=n: lookup(hb, c, s, n), FN, ["in tells whether the path is there", "a lookup changes nothing"]))
        out.append(("wildcard lookup in {0}".format(s), lambda c, s=s: wild(hb, c, s, "lookup"), FN, ["exactly the members whose path matches, in order"]))
        out.append(("wildcard deletion in {0}".format(s), lambda c, s=s: wild(hb, c, s, "delete"), FN, ["exactly the matching members are gone"]))
        out.append(("view of {0}".format(s), lambda c, s=s: view(hb, c, s), FN, ["the book itself is not changed"]))
        out.append(("listings of {0}".format(s), lambda c, s=s: listings(hb, c, s), FN, ["len counts the book's own members"]))
    out.append(("constructors", lambda c: construct(hb, c), FN, ["constructed members"]))
    return out
