"""C09: filling a book = filling each of its histograms alone.

Real books of real histograms are filled with one generic entry of symbolic values (planmodel); after every fill each histogram in the book must
have received exactly the contribution its own texts prescribe, whatever the other histograms of the book are, and every histogram that is not in
the book none.  Histories of structural changes (at the top, through a path, through an inner book, by wildcard) between the fills are enumerated;
values, data length and weights are unbounded.
"""
import itertools
from planmodel import *

ASSUMPTIONS = ["functions of the library other than arithmetic, comparison and logic are functions (equal arguments give equal values)",
               "kernels of the axes: any function of the value and the options",
               "float64 arithmetic is treated as exact real arithmetic"]
BOUNDS = ["books of up to 4 histograms from 16 texts/roles, nested up to 3 deep; histories: every pair of 14 structural changes with fills before, between and after; data, lengths and values are unbounded",
          "group axes in books, data frames and scalars: by the executable contract only"]

POOL = [lambda: Spec(fixed=["x"]), lambda: Spec(fixed=["y"], weight="x"), lambda: Spec(fixed=["x + y"], profiles=["x"]), lambda: Spec(profiles=["x + y", "x*y"]), lambda: Spec(fixed=["x", "x + y"], filter="x < y"),
        lambda: Spec(fixed=["x"], weight="x + y", filter="0 < z"), lambda: Spec(cuts=["x < y"], profiles=["z"]), lambda: Spec(fixed=["sin(x)"], profiles=["sin(x)"], weight="sin(x)"), lambda: Spec(fixed=["z"], cuts=["sin(x) < y"]),
        lambda: Spec(fixed=["x*y*z"], profiles=["x*y"]), lambda: Spec(fixed=["(x + y)*z"]), lambda: Spec(weight="x*y"), lambda: Spec(fixed=["x"], weight=2.5), lambda: Spec(fixed=["u"], profiles=["x**2"]),
        lambda: Spec(fixed=["dd"], defs={"dd": "x + y"}), lambda: Spec(fixed=["dd"], profiles=["x*dd"], defs={"dd": "x*y"})]

class World(object):
    """a book, its histograms by path, and those that were in it"""
    def __init__(self, hb, c, kind=None):
        self.hb, self.c, self.plan = hb, c, Plan(hb, c)
        self.now, self.gone, self.made = {}, [], []
        some = bool(c.choose(2))        # whether some other entry has an undefined weight, and whether the indexes carry a mask
        c.nomask = int(some)
        def hook(arr):
            if z3.is_false(z3.simplify(zb(npf.truth(arr.v)))):
                return some
            return NotImplemented
        npf.HOOKS["any"] = [hook]
        self.log = []
    def make(self, k):
        spec = POOL[k % len(POOL)]()
        h = must_return(self.c, "construct", spec.make, self.hb)
        self.made.append((h, spec))
        prepare(self.plan, self.made)
        return h, spec
    def put(self, path, k, book=None, inner=None):
        h, spec = self.make(k)
        if path in self.now:
            self.gone.append(self.now.pop(path))
        self.now[path] = (h, spec)
        self.log.append(("set", path, k))
        must_return(self.c, "set", (self.book if book is None else book).__setitem__, path if inner is None else inner, h)
    def drop(self, paths):
        for p in paths:
            self.gone.append(self.now.pop(p))
    def conc(self, m):
        return None
    def fill(self, target=None, inside=None, how=0):
        c, plan = self.c, self.plan
        target = self.book if target is None else target
        inside = sorted(self.now) if inside is None else inside
        plan.newdata()
        plan.calls, plan.alive = [], []
        before = dict((id(h), (h._content, contribs(h))) for h, s in self.made)
        plan.install()
        try:
            if how == 0:
                must_return(c, "fill", target.fill, dict(plan.data))
            elif how == 1:
                must_return(c, "fill", lambda: target.fill(**plan.data))
            else:
                must_return(c, "fill", lambda: target.fill({"x": plan.data["x"], "z": plan.data["z"]}, y=plan.data["y"], u=plan.data["u"]))
        finally:
            plan.restore()
        filled = set()
        for p in inside:
            h, spec = self.now[p]
            filled.add(id(h))
            check_hist(plan, h, spec, since=before[id(h)][1])
        for h, s in self.made:
            if id(h) not in filled:
                old, n = before[id(h)]
                c.prove("a histogram outside the filled book is not touched", z3.BoolVal(h._content is old and contribs(h) == n))
        for n, a in plan.data.items():
            c.prove("the user's arrays are not modified", z3.BoolVal(a.version == 0 and a.v is plan.vals[n]))

def contribs(h):
    return dict((k, len(v)) for k, v in h._content.contrib.items()) if isinstance(h._content, FillLeaf) else {}

# ------------------------------------------------------------------ sets of histograms

def sets(hb, c, a, three):
    w = World(hb, c)
    b = c.choose(len(POOL))
    ks = [a, b] + ([(a*5 + b*3 + 1) % len(POOL)] if three else [])
    style = (a + b) % 4
    B = hb.book.Book
    hs = [w.make(k) for k in ks]
    names_ = ["b", "a", "c"]
    if style == 0:
        w.book = must_return(c, "construct", B, dict(zip(names_, [h for h, s in hs])))
        paths = names_
    elif style == 1:
        w.book = must_return(c, "construct", B, *[h for h, s in hs])
        paths = ["0", "1", "2"]
    elif style == 2:
        w.book = must_return(c, "construct", lambda: B(**dict(zip(names_, [h for h, s in hs]))))
        paths = names_
    else:
        w.book = must_return(c, "construct", B)
        paths = ["d/x", "a", "d/e/f"]
        for p, (h, s) in zip(paths, hs):
            must_return(c, "set", w.book.__setitem__, p, h)
    for p, hs_ in zip(paths, hs):
        w.now[p] = hs_
    want = sorted(set(n for h, s in hs for n in fieldnames(s.texts())))
    c.prove("the fields of the book are those of its histograms", z3.BoolVal(list(must_return(c, "fields", lambda: w.book.fields)) == want))
    w.fill(how=b % 3)
    if a % 4 == 0:
        w.fill()

# ------------------------------------------------------------------ histories

def op_set(w, k): w.put("a", k)
def op_new(w, k): w.put("z", k)
def op_newdeep(w, k): w.put("d/g/h", k)
def op_setdeep(w, k): w.put("d/e", k)
def op_inner(w, k): w.put("d/f", k, w.book["d"], "f") if "d" in w.book else w.put("d/f", k)
def op_innernew(w, k): w.put("d/n", k, w.book["d"], "n") if "d" in w.book else w.put("d/n", k)
def op_del(w, k):
    if "a" in w.now:
        must_return(w.c, "delete", w.book.__delitem__, "a")
        w.drop(["a"])
def op_deldeep(w, k):
    if "d/e" in w.now:
        must_return(w.c, "delete", w.book.__delitem__, "d/e")
        w.drop(["d/e"])
def op_delinner(w, k):
    if "d/f" in w.now:
        must_return(w.c, "delete", w.book["d"].__delitem__, "f")
        w.drop(["d/f"])
def op_delwild(w, k):
    ps = [p for p in w.now if p.startswith("d/")]
    must_return(w.c, "delete", w.book.__delitem__, "d/*")
    w.drop(ps)
def op_subbook(w, k):
    """a whole inner book is replaced"""
    w.drop([p for p in w.now if p.startswith("d/")])
    h, spec = w.make(k)
    h2, spec2 = w.make(k + 3)
    must_return(w.c, "set", w.book.__setitem__, "d", w.hb.book.Book(q=h, e=h2))
    w.now["d/q"], w.now["d/e"] = (h, spec), (h2, spec2)
def op_swap(w, k):
    """two histograms change places inside their book"""
    if "d/e" in w.now and "d/f" in w.now:
        e, f = w.now["d/e"], w.now["d/f"]
        must_return(w.c, "set", w.book.__setitem__, "d/e", f[0])
        must_return(w.c, "set", w.book.__setitem__, "d/f", e[0])
        w.now["d/e"], w.now["d/f"] = f, e
def op_alone(w, k):
    """one histogram is filled on its own in between"""
    ps = sorted(w.now)
    if ps:
        p = ps[k % len(ps)]
        w.fill(w.now[p][0], [p])
def op_innerfill(w, k):
    """the inner book is filled on its own in between"""
    ps = [p for p in sorted(w.now) if p.startswith("d/")]
    if ps:
        w.fill(w.book["d"], ps)
OPS = [op_set, op_new, op_newdeep, op_setdeep, op_inner, op_innernew, op_del, op_deldeep, op_delinner, op_delwild, op_subbook, op_swap, op_alone, op_innerfill]

def histories(hb, c, i, tier):
    w = World(hb, c)
    j = c.choose(len(OPS))
    k = (i*3 + j*5) % len(POOL)
    w.book = must_return(c, "construct", hb.book.Book)
    for q, p in enumerate(["a", "d/e", "d/f"]):
        w.put(p, k + q*(1 + (i + j) % 3))
    if c.choose(2):
        w.fill()
    OPS[i](w, k + 7)
    if (i + j) % 2 or tier != "quick":
        w.fill()
    OPS[j](w, k + 2)
    w.fill()

# ------------------------------------------------------------------ books of samples, channels and systematics

def samples(hb, c, a):
    w = World(hb, c)
    b = c.choose(len(POOL)//2)*2
    pat = c.choose(4)
    hs = [POOL[a](), POOL[b]()]
    templ = must_return(c, "construct", lambda: dict(zip("pq", [s.make(hb) for s in hs])))
    top = must_return(c, "construct", hb.book.SamplesBook, ["s1", "s2"], templ)
    for s in ("s1", "s2"):
        for n, spec in zip("pq", hs):
            h = top[s + "/" + n]
            w.now[s + "/" + n] = (h, spec)
            w.made.append((h, spec))
    prepare(w.plan, w.made)
    check_views(w, top, pat)
def check_views(w, top, pat):
    c = w.c
    pattern, inside = [("*", sorted(w.now)), ("s1/*", ["s1/p", "s1/q"]), ("*/q", ["s1/q", "s2/q"]), ("s2/p", ["s2/p"])][pat]
    v = must_return(c, "view", top.view, pattern)
    w.fill(v, inside)
    v2 = must_return(c, "view", top.view, "s2/*")
    w.fill(v2, ["s2/p", "s2/q"])
    w.fill(v, inside)
def channels(hb, c, a):
    w = World(hb, c)
    b = c.choose(len(POOL)//2)*2 + 1
    pat = c.choose(4)
    top = must_return(c, "construct", hb.book.ChannelsBook)
    w.book = top
    for q, p in enumerate(["s1/p", "s1/q", "s2/p", "s2/q"]):
        w.put(p, (a, b, a + 1, b + 2)[q])
    check_views(w, top, pat)
def systematics(hb, c, a):
    w = World(hb, c)
    spec = POOL[a]()
    n = 2 + c.choose(2)
    hs = [must_return(c, "construct", lambda q=q: spec.make(hb).attach("systematic", (q,))) for q in range(n)]
    w.book = must_return(c, "construct", hb.book.SystematicsBook, dict(("v%d" % q, h) for q, h in enumerate(hs)))
    for q, h in enumerate(hs):
        w.now["v%d" % q] = (h, spec)
        w.made.append((h, spec))
    prepare(w.plan, w.made)
    w.fill()
    w.fill()

# ------------------------------------------------------------------ quantities shared between histograms, one of which replaces undefined values

def nanshare(hb, c):
    """a quantity that may be NaN, in three roles: as a weight it counts as zero, as a profiled value it does not, in whatever order the histograms are filled"""
    plan = Plan(hb, c)
    u = SFloat(fresh_real("value").r, fresh_bool("undefined").z)
    plan.vals["u"], plan.data["u"] = u, EArr(u, plan.base, "f")
    specs = [Spec(fixed=["x"], weight="u"), Spec(fixed=["x"], profiles=["u"]), Spec(fixed=["y"], profiles=["u"], weight="u"), Spec(fixed=["x"], weight="u", profiles=["x"])]
    order = list(itertools.permutations(range(4), 2))[c.choose(12)]
    made = [(must_return(c, "construct", specs[k].make, hb), specs[k]) for k in order]
    prepare(plan, made)
    book = must_return(c, "construct", hb.book.Book, dict(zip("pq", [h for h, s in made])))
    plan.calls, plan.alive = [], []
    plan.install()
    try:
        must_return(c, "fill", book.fill, dict(plan.data))
    finally:
        plan.restore()
    for h, spec in made:
        leaf = h._content
        i = plan.kernel("histbook.intbin__", [plan.value(spec.fixed[0]), 0, 2])
        here = mkbool(i.z == zint(leaf.cell[0]))
        w = ite(mkbool(u.nan), tofloat(0.0), u) if spec.weight else tofloat(1.0)
        w2 = fmul(w, w)
        want = {h._sumwindex: w}
        if spec.weight:
            want[h._sumw2index] = w2
        for ax, t in zip(h._profile, spec.profiles):
            y = tofloat(plan.value(t))
            want[ax._sumwxindex], want[ax._sumwx2index] = fmul(y, w), fmul(fmul(y, y), w)
        for col, v in sorted(want.items()):
            total = tofloat(0.0)
            for cond, x in leaf.contrib.get(col, []):
                total = fadd(total, ite(mkbool(cond), tofloat(x), tofloat(0.0)))
            c.prove("contribution of a value that may be undefined", zb(same(total, ite(here, v, tofloat(0.0)))), why="column {0} of {1}".format(col, vars(spec)))
    for n, a in plan.data.items():
        c.prove("the user's arrays are not modified", z3.BoolVal(a.version == 0 and a.v is plan.vals[n]))

FN = ["book.Book.fill", "book.Book.fields", "book.Book._goals", "book.Book._streamline", "book.GenericBook._set/_del/_get/__setitem__/__delitem__", "hist.Hist._streamline/_prefill/_postfill", "fill.Fillable.fields/_fill"]
def units(hb, tier):
    P = ["contribution to the sum of weights", "the user's arrays are not modified"]
    for a in range(len(POOL)):
        yield ("two histograms, the first of kind {0}".format(a), (lambda a: lambda c: sets(hb, c, a, False))(a), FN, P)
        yield ("three histograms, the first of kind {0}".format(a), (lambda a: lambda c: sets(hb, c, a, True))(a), FN, P)
    yield ("undefined values shared between histograms", lambda c: nanshare(hb, c), FN, ["contribution of a value that may be undefined", "the user's arrays are not modified"])
    for i, f in enumerate(OPS):
        yield ("history with {0}".format(f.__name__[3:]), (lambda i: lambda c: histories(hb, c, i, tier))(i), FN, P)
    for a in range(0, len(POOL), 3 if tier == "quick" else 1):
        yield ("samples of kind {0}".format(a), (lambda a: lambda c: samples(hb, c, a))(a), FN + ["book.SamplesBook.__init__", "book.ViewableBook.view"], P + ["a histogram outside"])
        yield ("channels of kind {0}".format(a), (lambda a: lambda c: channels(hb, c, a))(a), FN + ["book.ViewableBook.view"], P + ["a histogram outside"])
    for a in range(len(POOL)):
        yield ("systematics of kind {0}".format(a), (lambda a: lambda c: systematics(hb, c, a))(a), FN + ["book.SystematicsBook._changed"], P)
