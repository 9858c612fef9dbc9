"""C23: plots and exports, against the contracts of project (C13), table (C16), fraction (C17) and of the axes' labels (C01-C04).

Plotable1d/2d.vegalite   requires  any chain of channels; every axis has any bins (seen as up to four generic ones: finite ones with any edges in
                                   the axis's range and wider than 1e-9 of it, flow bins, NaN), any table
                         ensures   one row per cell that the plot displays, with its bins' labels (on a numeric axis: centre of the bin, or its low
                                   edge for steps and areas), its count or profile mean and its error; zero rows at the outer edges of steps and
                                   areas; no row for bins without extent on a numeric axis, nor for values that are not positive on a
                                   logarithmic scale; nothing else
                                   the channels name the columns that hold this; error bars reach from value - error to value + error at the bin's
                                   centre; colours are declared for the labels in the rows, stacking orders them
overlay, beside, below, grid   ensures   every plot of the combination shows exactly its own rows
pandas                   ensures   one row per cell, indexed by its bins, with the table's (fraction's) columns
root                     ensures   bins with the axis's edges; contents, errors, entries, means of the table; flow bins in ROOT's
"""
import itertools, re, types
import load
from tree import *

ASSUMPTIONS = ["project, table, fraction and the bins of the axes satisfy the contracts proved under C13, C16, C17 and C01-C04",
               "Vega-Lite draws what the specification says; pandas and ROOT, which are not installed, keep what they are given (recording stand-ins)",
               "a loop over the bins of an axis treats them alike (checked with up to four generic bins, so that one bin's rows do not depend on another's)"]
BOUNDS = ["plots: chains of up to 3 channels over every kind of axis, bins generic (edges, contents unbounded); exports: axes of up to 3 bins with every choice of flow bins, contents unbounded",
          "axis ranges are representative"]

class Stop(Exception): pass

class World(object):
    def __init__(self, c, hb):
        self.c, self.hb = c, hb
        self.elems, self.memo, self.tokens = {}, {}, {}
        self.sign = None         # with many cells: all positive or none (rows are kept or left out one by one where there are few)
    def key(self, expr, i, kind, rng=None, prev=None):
        A, c = self.hb.axis, self.c
        if kind == "n":
            k = A.IntervalNaN()
        elif kind == "u":
            k = A.Interval(float("-inf"), rng[0], closedlow=True, closedhigh=False)
        elif kind == "o":
            k = A.Interval(rng[1], float("inf"), closedlow=True, closedhigh=False)
        elif kind == "f":
            lo, hi = fresh_real("low"), fresh_real("high")
            c.assume(hi.r > lo.r + (liftr(1e-9*(rng[1] - rng[0])) if rng is not None else 0))
            if rng is not None:
                c.assume(z3.And(lo.r >= liftr(rng[0]), hi.r <= liftr(rng[1])))
            if prev is not None:
                c.assume(lo.r >= prev)
            k = A.Interval(lo, hi, closedlow=True, closedhigh=False)
        else:
            return kind          # a category or truth value as it is
        self.tokens[id(k)] = ("<{0}:{1}>".format(expr, i), k)
        return k
    def axis(self, kind, expr, elems):
        A = self.hb.axis
        a = {"bin": lambda: A.bin(expr, 4, 0, 4), "split": lambda: A.split(expr, (0, 1, 4)), "intbin": lambda: A.intbin(expr, 0, 3), "cut": lambda: A.cut(expr),
             "groupby": lambda: A.groupby(expr), "groupbin": lambda: A.groupbin(expr, 0.5)}[kind]()
        rng = dict(bin=(0.0, 4.0), split=(0.0, 4.0), intbin=(-0.5, 3.5)).get(kind)
        ks, prev = [], None
        for i, e in enumerate(elems):
            k = self.key(expr, i, e, rng, prev)
            ks.append(k)
            if e == "f":
                prev = k._high.r
        self.elems[expr] = ks
        return a
    def raw(self, expr, i):
        k = self.elems[expr][i]
        if isinstance(k, self.hb.axis.IntervalNaN):
            return "NaN"
        return k if isinstance(k, str) else 0.5*i
    def val(self, path, col):
        if (path, col) not in self.memo:
            v = self.memo[path, col] = fresh_real("{0}{1}".format("v", len(self.memo)))
            if self.sign is not None:
                self.c.assume(v.r > 0 if self.sign else v.r <= 0)
        return self.memo[path, col]
    def label(self, k):
        if isinstance(k, bool):
            return "pass" if k else "fail"
        return self.tokens[id(k)][0] if id(k) in self.tokens else str(k)
    def columns(self, profiles, count, error, effcount, normalized):
        out = []
        if count:
            out.append("count()")
            if error:
                out.append("err(count())")
        if effcount:
            out.append("effcount()")
        for p in profiles:
            out.append(str(p._expr))
            if error:
                out.append("err({0})".format(p._expr))
        return [(n, bool(normalized)) for n in out]
    def nested(self, axes, cols, path=()):
        if not axes:
            return [self.val(path, q) for q in cols]
        e = axes[0]._expr
        kids = [self.nested(axes[1:], cols, path + ((e, i),)) for i in range(len(self.elems[e]))]
        if isinstance(axes[0], self.hb.axis.GroupAxis):
            return dict((self.raw(e, i), x) for i, x in enumerate(kids))
        return kids
    def install(self):
        S, A, W = rt.SUMMARIES, self.hb.axis, self
        rt.SYMHASH[0] = True
        self.c.numberkeys = True
        def project(f, args, kw):
            me, want = args[0], args[1:]
            if kw:
                raise Unsupported("projection")
            axes = [x for x in me._group + me._fixed if any(x is y or y == x or x._expr == y for y in want)]
            if len(axes) != len(want):
                raise Unsupported("projection onto {0}".format(want))
            return W.hb.hist.Hist(*(axes + list(me._profile)), weight=me._weightoriginal)
        def table(f, args, kw):
            me, profs = args[0], args[1:]
            kw = dict(kw)
            count, error, eff, norm = kw.pop("count", True), kw.pop("error", True), kw.pop("effcount", False), kw.pop("normalized", False)
            rec, columns = kw.pop("recarray", True), kw.pop("columns", False)
            if kw or any(p not in me._profile for p in profs):
                raise Unsupported("options of table")
            cols = W.columns(profs, count, error, eff, norm)
            return W.out(me._group + me._fixed, cols, rec, columns)
        def keys(f, args, kw):
            if args[0]._expr not in W.elems:
                raise Unsupported("bins of another axis")
            return A.IntervalTuple(W.elems[args[0]._expr])
        def items(f, args, kw):
            me, content = args[0], args[1]
            e = me._expr
            if e not in W.elems:
                raise Unsupported("bins of another axis")
            ks = W.elems[e]
            if isinstance(content, dict):
                return [A.IntervalPair((k, content[W.raw(e, i)])) for i, k in enumerate(ks) if W.raw(e, i) in content]
            if len(ks) != len(content):
                raise Unsupported("contents of another axis")
            return [A.IntervalPair((k, x)) for k, x in zip(ks, content)]
        S["proj.Projectable.project"] = project
        S["proj.Projectable.table"] = table
        for n in ("FixedAxis", "groupby", "groupbin"):
            S["axis.{0}.items".format(n)] = items
        for n in ("groupby", "groupbin", "bin", "split", "cut", "intbin"):
            S["axis.{0}.keys".format(n)] = keys
        order = lambda k: [i for ks in W.elems.values() for i, x in enumerate(ks) if x is k][0]
        for n in ("Interval", "IntervalNaN"):
            S["axis.{0}.__str__".format(n)] = lambda f, a, kw: W.tokens[id(a[0])][0] if id(a[0]) in W.tokens else rt.NOTHANDLED
            S["axis.{0}.__hash__".format(n)] = lambda f, a, kw: 1
            S["axis.{0}.__eq__".format(n)] = lambda f, a, kw: a[0] is a[1]
            S["axis.{0}.__lt__".format(n)] = lambda f, a, kw: order(a[0]) < order(a[1]) if id(a[0]) in W.tokens and id(a[1]) in W.tokens else rt.NOTHANDLED
    def out(self, axes, cols, rec, columns):
        t = self.nested(axes, cols)
        if rec:
            t = record(self.hb, t, axes, [q[0] for q in cols])
        return (t, [q[0] for q in cols]) if columns else t

USED = []        # the facts by which the last row was matched: they are the obligation
def valid(c, g):
    if z3.is_true(z3.simplify(g)) or c.feasible(z3.Not(g)) == z3.unsat:
        USED.append(g)
        return True
    return False

def equalnum(c, a, b):
    a, b = tofloat(a), tofloat(b)
    if a is None or b is None:
        return False
    return valid(c, zb(same(a, b)))

def nearnum(c, a, b, tol):
    a, b = tofloat(a), tofloat(b)
    if a is None or b is None:
        return False
    d = a.r - b.r
    t = liftr(tol)
    return valid(c, z3.And(zb(a.fin()), zb(b.fin()), d <= t, -d <= t))

ELEMS = dict(bin=[["f"], ["f", "f"], ["u", "f", "f", "o"], ["f", "o", "n"], []], split=[["f", "f"], ["u", "f", "n"]], intbin=[["u", "f", "o"], ["f", "f"]], cut=[[False, True]],
             groupby=[["a", "b"], []], groupbin=[["f", "n"], ["f", "f"]])
CHAN = dict(bin=["f", "n"], split=["u", "f"], intbin=["f", "o"], cut=[False, True], groupby=["k", "l"], groupbin=["f", "n"])

def build(hb, c, W, spec, weighted=False):
    """the histogram and the plot of a specification: dict(mark, last, chain, error, prof, norm, yscale)"""
    A = hb.axis
    n = spec.get("tag", "")
    axes = []
    for i, (k, elems) in enumerate(spec["last"]):
        axes.append(W.axis(k, "x{0}{1}".format(n, i), elems))
    for i, (ch, k) in enumerate(spec["chain"]):
        axes.append(W.axis(k, "c{0}{1}".format(n, i), CHAN[k]))
    order = list(axes)
    if spec.get("reverse"):
        order.reverse()
    h = hb.hist.Hist(*(order + [W.axis("bin", "other" + n, ["f"]), A.profile("y"), A.profile("q")]), weight="w" if weighted else None)
    get = dict((a._expr, a) for a in h._group + h._fixed + h._profile)
    ch = h
    for i, (name, k) in enumerate(spec["chain"]):
        ch = getattr(ch, name)(get["c{0}{1}".format(n, i)])
    kw = {}
    prof = None
    if spec.get("prof"):
        prof = get["q"]
        kw["profile"] = prof
    if spec.get("yscale") is not None:
        kw["yscale"] = spec["yscale"]
    last = [get["x{0}{1}".format(n, i)] for i in range(len(spec["last"]))]
    if spec["mark"] == "heatmap":
        return h, ch.heatmap(*last, **kw), last, prof
    kw["error"] = spec.get("error", False)
    if spec.get("norm"):
        kw["normalized"] = True
    return h, getattr(ch, spec["mark"])(last[0], **kw), last, prof

def wanted(c, W, spec, h, last, prof):
    """rows: (labels and positions by axis, [value, error?], centre or None), order of the axes"""
    A = W.hb.axis
    n = spec.get("tag", "")
    names = [a._expr for a in last] + ["c{0}{1}".format(n, i) for i in range(len(spec["chain"]))]
    axes = [a for a in h._group + h._fixed if a._expr in names]
    col = "count()" if prof is None else str(prof._expr)
    cols = [(col, bool(spec.get("norm")))] + ([("err({0})".format(col), bool(spec.get("norm")))] if spec.get("error") else [])
    where = [axes.index(a) for a in last]
    islog = spec["mark"] != "heatmap" and (spec.get("yscale") == "log" or isinstance(spec.get("yscale"), dict) and spec["yscale"].get("type") == "log")
    rows = []
    def put(labels, vals, mid):
        if islog:
            v = tofloat(vals[0])
            if not c.branch(zb(lt(tofloat(0.0), v))):
                return
        rows.append((list(labels), list(vals), mid))
    half = tofloat(0.5)
    for idx in itertools.product(*[range(len(W.elems[a._expr])) for a in axes]):
        ks = [W.elems[a._expr][i] for a, i in zip(axes, idx)]
        path = tuple((a._expr, i) for a, i in zip(axes, idx))
        vals = [W.val(path, q) for q in cols]
        lab = [W.label(k) for k in ks]
        isnum = lambda k: isinstance(k, A.Interval) and not isinstance(k, A.IntervalNaN) and isinstance(k._low, SFloat) and isinstance(k._high, SFloat)
        mid = lambda k: fmul(half, fadd(tofloat(k._low), tofloat(k._high)))
        if spec["mark"] == "heatmap":
            ok = True
            for j in where:
                if isinstance(ks[j], A.Interval):
                    if not isnum(ks[j]):
                        ok = False
                        break
                    lab[j] = mid(ks[j])
            if ok:
                put(lab, vals, None)
            continue
        j = where[0]
        if not isinstance(axes[j], (A.bin, A.split, A.intbin)) or spec["mark"] == "bar":
            put(lab, vals, None)
            continue
        k = ks[j]
        if not isnum(k):
            continue
        m = mid(k)
        if spec["mark"] in ("line", "marker"):
            lab[j] = m
            put(lab, vals, m)
        else:
            rng = (-0.5, 3.5) if isinstance(axes[j], A.intbin) else (0.0, 4.0)
            lab[j] = k._low
            put(lab, vals, m)
            if c.branch(z3.simplify(k._low.r == liftr(rng[0]))):
                lab[j] = tofloat(rng[0])
                put(lab, [0.0]*len(vals), None)
            if c.branch(z3.simplify(k._high.r == liftr(rng[1]))):
                lab[j] = tofloat(rng[1])
                put(lab, [0.0]*len(vals), None)
    return axes, where, rows

def judge(c, W, spec, h, last, prof, data, layers, what=""):
    axes, where, want = wanted(c, W, spec, h, last, prof)
    n = spec.get("tag", "")
    enc = layers[0]["encoding"]
    field = {}
    field[where[0]] = enc["x"]["field"]
    if spec["mark"] == "heatmap":
        field[where[1]] = enc["y"]["field"]
        value = enc["color"]["field"]
    else:
        value = enc["y"]["field"]
    names = [a._expr for a in axes]
    for i, (ch, k) in enumerate(spec["chain"]):
        field[names.index("c{0}{1}".format(n, i))] = enc[dict(overlay="color", stack="color", beside="column", below="row")[ch]]["field"]
    c.prove(what + "a column for every channel", len(field) == len(axes) and len(set(field.values()) | set([value])) == len(axes) + 1)
    c.prove(what + "layers", len(layers) == (2 if spec.get("error") else 1))
    if spec.get("error"):
        e2 = layers[1]["encoding"]
        cx = e2["x"]["field"]
        calc = dict((t["as"], t["calculate"]) for t in layers[1]["transform"] if "calculate" in t)
        def bar(where_, row):
            m = re.match(r"^datum\.(\w+) ([-+]) datum\.(\w+)$", calc[e2[where_]["field"]])
            if m is None:
                raise Unsupported("text of an error bar")
            a, b = tofloat(row[m.group(1)]), tofloat(row[m.group(3)])
            return fadd(a, b if m.group(2) == "+" else fneg(b))
    rows = list(data)
    tol = 4.0*1e-9
    def fits(row, w):
        labels, vals, mid = w
        for j, l in enumerate(labels):
            g = row.get(field[j])
            if isinstance(l, str):
                if not isinstance(g, str) or g != l:
                    return False
            elif isinstance(g, str) or not nearnum(c, g, l, tol):
                return False
        if value not in row or isinstance(row[value], str) or not equalnum(c, row[value], vals[0]):
            return False
        if spec.get("error"):
            v, e = tofloat(vals[0]), tofloat(vals[1])
            if not equalnum(c, bar("y", row), fadd(v, fneg(e))) or not equalnum(c, bar("y2", row), fadd(v, e)):
                return False
            if mid is not None and (cx not in row or isinstance(row[cx], str) or not nearnum(c, row[cx], mid, tol)):
                return False
        return True
    for w in want:
        for i, r in enumerate(rows):
            del USED[:]
            if fits(r, w):
                del rows[i]
                break
        else:
            c.prove(what + "every displayed cell has its row", False, why=repr(w))
            return
        c.prove(what + "every displayed cell has its row", z3.And(*(USED + [z3.BoolVal(True)])))
    c.prove(what + "no other rows", not rows, why=repr(rows))
    for i, (ch, k) in enumerate(spec["chain"]):
        if ch in ("overlay", "stack") and "domain" in enc["color"].get("scale", {}):
            j = names.index("c{0}{1}".format(n, i))
            labels = set(r[0][j] for r in want)
            dom = enc["color"]["scale"]["domain"]
            c.prove(what + "colours are declared for the labels in the rows", len(set(dom)) == len(dom) and labels <= set(dom), why=repr((dom, labels)))
            if ch == "stack":
                calc = [t["calculate"] for t in layers[0]["transform"] if t.get("as") == "stackorder"]
                if calc:
                    pos = [stackpos(calc[0], field[j], l) for l in reversed(dom)]
                    c.prove(what + "stacked in the order of the labels", pos == sorted(set(pos)), why=repr((dom, pos)))

def stackpos(text, field, label):
    t = text.strip()
    while t.startswith("if("):
        m = re.match(r"^if\(datum\.(\w+) === (\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\.)*'), ([0-9]+), (.*)\)$", t)
        if m is None:
            raise Unsupported("text of the stacking order")
        if m.group(1) == field and eval(m.group(2)) == label:
            return int(m.group(3))
        t = m.group(4).strip()
    return int(t)

def plot(hb, c, mark, kind):
    W = World(c, hb)
    W.install()
    spec = dict(mark=mark, last=[], chain=[])
    conf = ELEMS[kind]
    spec["last"].append((kind, conf[c.choose(len(conf), "bins")]))
    if mark == "heatmap":
        k2 = ["bin", "intbin", "groupby", "cut"][c.choose(4, "vertical")]
        spec["last"].append((k2, ELEMS[k2][0 if k2 != "bin" else 2]))
    chains = CHAINS2 if mark == "heatmap" else CHAINS
    spec["chain"] = chains[c.choose(len(chains), "chain")]
    if any(ch == "stack" for ch, k in spec["chain"]) and mark not in ("bar", "area"):
        raise PathEnd()
    opts = [dict(), dict(prof=True), dict(error=True, reverse=True), dict(error=True, prof=True), dict(yscale="log"), dict(norm=True, error=True, reverse=True), dict(yscale={"type": "log"}, error=True), dict(yscale={"type": "sqrt"}, reverse=True)]
    if mark == "heatmap":
        opts = [dict(), dict(prof=True), dict(reverse=True)]
    spec.update(opts[c.choose(len(opts), "options")])
    if spec.get("error") and any(ch in ("beside", "below") for ch, k in spec["chain"]):
        raise PathEnd()
    if spec.get("norm") and any(k in ("groupby", "groupbin") for k in [kind] + [k for ch, k in spec["chain"]]):
        raise PathEnd()
    n = 1
    for e in [e for k, e in spec["last"]] + [CHAN[k] for ch, k in spec["chain"]]:
        n *= len(e)
    if n > 3:
        W.sign = c.choose(2, "sign") == 0
    h, p, last, prof = build(hb, c, W, spec)
    if mark == "heatmap" and any(k == "split" for k, e in spec["last"]):
        st, out = call(p.vegalite)
        c.prove("heatmaps of split axes are refused", st == "raised" and isinstance(out, NotImplementedError), why=repr(out))
        return
    out = must_return(c, "vegalite", p.vegalite)
    c.prove("the histogram is unchanged", h._content is None)
    layers = out["layer"] if "layer" in out else [out]
    judge(c, W, spec, h, last, prof, out["data"]["values"], layers)

CHAINS = [[], [("overlay", "cut")], [("overlay", "bin")], [("overlay", "intbin")], [("stack", "cut")], [("stack", "groupby")], [("overlay", "groupbin")], [("beside", "split"), ("below", "cut")], [("stack", "intbin"), ("beside", "groupby")]]
CHAINS2 = [[], [("beside", "cut")], [("below", "bin"), ("beside", "groupby")]]

SIMPLE = [dict(mark="marker", last=[("bin", ["u", "f", "f"])], chain=[], error=True), dict(mark="bar", last=[("intbin", ["f", "o"])], chain=[("overlay", "cut")]),
          dict(mark="line", last=[("split", ["f"])], chain=[], prof=True, error=True), dict(mark="area", last=[("groupby", ["a", "b"])], chain=[("stack", "bin")]),
          dict(mark="heatmap", last=[("bin", ["f"]), ("intbin", ["f"])], chain=[])]

def combination(hb, c, kind):
    W = World(c, hb)
    W.install()
    V = hb.vega
    made = []
    def one(i):
        if kind == "overlay" or i < 0:
            i = abs(i) % 4
        spec = dict(SIMPLE[i % 5], tag="t{0}_".format(len(made)))
        h, p, last, prof = build(hb, c, W, spec)
        made.append((spec, h, last, prof))
        return p
    first = c.choose(5, "first")
    W.sign = True
    many = c.choose(3, "how many")
    parts = []
    for q in range([1, 2, 3][many]):
        parts.append(one(first + 2*q))
    if kind in ("beside", "below", "grid") and c.choose(2, "nested") == 1:
        parts.append(V.overlay(one(-4), one(-3 - first)))
    if kind in ("beside", "below") and c.choose(2, "nested twice") == 1:
        parts.insert(1, (V.below if kind == "beside" else V.beside)(one(first + 1), V.overlay(one(-1), one(-4))))
        made.insert(1, made.pop(-3)); made.insert(2, made.pop(-2)); made.insert(3, made.pop(-1))
    if kind == "many":
        made[:] = []
        parts = [one(i % 2) for i in range(30)]
    cls = dict(overlay=V.overlay, beside=V.beside, below=V.below, many=V.beside, grid=lambda *a: V.grid(2, *a))[kind]
    comb = must_return(c, "combine", cls, *parts)
    out = must_return(c, "vegalite", comb.vegalite)
    data = out["data"]["values"]
    def specs(node):
        for w in ("hconcat", "vconcat"):
            if w in node:
                return [y for x in node[w] for y in specs(x)]
        return [node["layer"]] if "layer" in node else [[node]]
    groups, k = [], 0
    for ls in specs(out):
        i = 0
        while i < len(ls):
            n = 2 if len(groups) < len(made) and made[len(groups)][0].get("error") else 1
            groups.append(ls[i:i + n])
            i += n
    c.prove("every plot is shown once", len(groups) == len(made))
    if len(groups) != len(made):
        return
    ids = []
    for (spec, h, last, prof), layers in zip(made, groups):
        sel = set()
        for l in layers:
            f = [t["filter"] for t in l.get("transform", []) if "filter" in t]
            sel.add(f[0]["equal"] if len(f) == 1 and f[0].get("field") == "id" else None)
        c.prove("layers show the rows of one plot", len(sel) == 1 and None not in sel, why=repr(sel))
        me = sel.pop()
        ids.append(me)
        if kind == "many" and len(ids) not in (1, 2, 26, 27, 30):
            continue
        judge(c, W, spec, h, last, prof, [r for r in data if r.get("id") == me], layers, "combined: ")
    c.prove("plots show different rows", len(set(ids)) == len(ids) and all(r.get("id") in ids for r in data))

######## exports

class DT(object):
    def __init__(self, names): self.names = tuple(names)
    def __getitem__(self, n): return ("column type", n)

class Record(list):
    """one cell of a table with named columns"""
    def __init__(self, vals, names):
        list.__init__(self, vals)
        self.dtype = DT(names)
    def __getitem__(self, n):
        return list.__getitem__(self, self.dtype.names.index(n) if isinstance(n, str) else n)

class Recs(list):
    """an array of cells with named columns: a list (of lists ...) of Record"""
    def __init__(self, kids, names):
        list.__init__(self, kids)
        self.dtype = DT(names)
    def __getitem__(self, n):
        if isinstance(n, str):
            return Vec([x[n] for x in self])
        return list.__getitem__(self, n)
    def flat(self):
        for x in self:
            if isinstance(x, Recs):
                for y in x.flat():
                    yield y
            else:
                yield x
    def view(self, t):
        if not (isinstance(t, tuple) and t[0] == "column type"):
            raise Unsupported("view")
        return Flat([v for r in self.flat() for v in r])

class Flat(object):
    def __init__(self, vals): self.vals = vals
    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        if len(s) != 2:
            raise Unsupported("reshape")
        n, m = s
        if m == -1:
            if n == 0 or len(self.vals) % n:
                raise ValueError("cannot reshape array")
            m = len(self.vals)//n
        if n == -1:
            n = len(self.vals)//m
        if n*m != len(self.vals):
            raise ValueError("cannot reshape array")
        return [self.vals[i*m:(i + 1)*m] for i in range(n)]

class Vec(npf.ndarray):
    """one column"""
    def __init__(self, vals): self.vals = list(vals)
    def vc_len(self): return len(self.vals)
    def __len__(self): return len(self.vals)
    def __iter__(self): return iter(self.vals)
    def __getitem__(self, i): return Vec(self.vals[i]) if isinstance(i, slice) else self.vals[i]
    def __setitem__(self, i, x):
        if isinstance(i, slice):
            x = list(x.vals) if isinstance(x, Vec) else [x]*len(self.vals[i])
            if len(x) != len(self.vals[i]):
                raise ValueError("could not broadcast input array")
            self.vals[i] = x
        else:
            self.vals[i] = x
    def op(self, o, f):
        o = o.vals if isinstance(o, Vec) else [o]*len(self.vals)
        if len(o) != len(self.vals):
            raise ValueError("operands could not be broadcast together")
        return Vec([f(tofloat(a), tofloat(b)) for a, b in zip(self.vals, o)])
    def __mul__(self, o): return self.op(o, fmul)
    __rmul__ = __mul__
    def __add__(self, o): return self.op(o, fadd)
    __radd__ = __add__
    def __sub__(self, o): return self.op(o, lambda a, b: fadd(a, fneg(b)))
    def __truediv__(self, o): return self.op(o, fdiv_np)
    def __pow__(self, n):
        if n != 2:
            raise Unsupported("power")
        return self.op(self, fmul)
    def sum(self):
        t = tofloat(0.0)
        for x in self.vals:
            t = fadd(t, tofloat(x))
        return t
    __hash__ = object.__hash__

def record(hb, t, axes, names):
    if not axes:
        return Record(t, names)
    if isinstance(t, dict):
        return dict((k, record(hb, x, axes[1:], names)) for k, x in t.items())
    return Recs([record(hb, x, axes[1:], names) for x in t], names)

class PInterval(object):
    def __init__(self, left, right, closed="right"):
        self.t = (float(left), float(right), closed)

def standins(c):
    pd = types.ModuleType("pandas")
    pd.Interval = PInterval
    class Frame(object):
        def __init__(self, data=None, index=None, columns=None):
            self.data, self.index, self.columns = data, index, columns
    pd.DataFrame = Frame
    pd.MultiIndex = type("MultiIndex", (object,), dict(from_arrays=staticmethod(lambda arrays, names=None: ([list(a) for a in arrays], list(names)))))
    def cat(xs, *a, **k):
        if a or k or not isinstance(xs, (list, tuple)) or not all(isinstance(x, Recs) for x in xs):
            return NotImplemented
        return Recs([y for x in xs for y in x], xs[0].dtype.names)
    def arr(x, *a, **k):
        if isinstance(x, list) and len(x) == 1 and isinstance(x[0], Record):
            return Recs(x, x[0].dtype.names)
        return NotImplemented
    npf.HOOKS.setdefault("concatenate", []).insert(0, cat)
    npf.HOOKS.setdefault("array", []).insert(0, arr)
    return pd

class Fixed(World):
    """axes with bins of their own (the real keys)"""
    def install(self):
        S, W = rt.SUMMARIES, self
        World.install(self)
        for k in list(S):
            if k.startswith("axis."):
                del S[k]
        def fraction(f, args, kw):
            me, cut, opts, ret = args
            opts = dict(opts)
            if not opts.pop("recarray", True) or not opts.pop("columns", False) or opts or kw:
                raise Unsupported("options of fraction")
            left = [x for x in me._group + me._fixed if x not in cut]
            den = W.hb.hist.Hist(*left) if left else None
            cols = [("count()", False)] + [q for x in cut for q in ((str(x._expr), False), ("err({0})".format(x._expr), False))]
            out = W.out(left, cols, True, True)
            return (out, den) if ret else out
        S["proj.Projectable._fraction"] = fraction
    def nested(self, axes, cols, path=()):
        if not axes:
            return [self.val(path, q) for q in cols]
        e = axes[0]._expr
        if isinstance(axes[0], self.hb.axis.GroupAxis):
            ks = self.groups[e]
            return dict((k, self.nested(axes[1:], cols, path + ((e, i),))) for i, k in enumerate(ks))
        return [self.nested(axes[1:], cols, path + ((e, i),)) for i in range(axes[0].totbins)]
    def bins(self, a):
        """(index label in pandas) of every bin, in order"""
        A, inf = self.hb.axis, float("inf")
        if isinstance(a, A.GroupAxis):
            return [k if isinstance(a, A.groupby) else ("{NaN}" if k == "NaN" else (k, k + 0.5, "left" if a.closedlow else "right")) for k in self.groups[a._expr]]
        if isinstance(a, A.cut):
            return [False, True]
        if isinstance(a, A.intbin):
            return ([(-inf, float(a.min), "left")] if a.underflow else []) + [str(i) for i in range(a.min, a.max + 1)] + ([(float(a.max), inf, "right")] if a.overflow else [])
        cl = "left" if a.closedlow else "right"
        edges = list(a.edges) if isinstance(a, A.split) else [a.low + (a.high - a.low)*i/float(a.numbins) for i in range(a.numbins + 1)]
        return ([(-inf, edges[0], cl)] if a.underflow else []) + [(x, y, cl) for x, y in zip(edges, edges[1:])] + ([(edges[-1], inf, cl)] if a.overflow else []) + (["{NaN}"] if a.nanflow else [])

def makeaxis(hb, c, kind, e, W):
    A = hb.axis
    fl = c.choose(5, "flags")
    u, o, n, cl = [(True, True, True, True), (False, True, False, True), (True, False, True, False), (False, False, False, False), (True, True, False, False)][fl]
    if kind == "bin":
        return A.bin(e, 2, -1, 3, underflow=u, overflow=o, nanflow=n, closedlow=cl)
    if kind == "split":
        return A.split(e, (0, 1, 4), underflow=u, overflow=o, nanflow=n, closedlow=cl)
    if kind == "intbin":
        return A.intbin(e, 2, 3, underflow=u, overflow=o)
    if kind == "cut":
        return A.cut(e)
    if kind == "groupby":
        W.groups[e] = [["b", "a"], ["only"], []][fl % 3]
        return A.groupby(e)
    W.groups[e] = [[0.5, "NaN"], ["NaN", 1.0, -0.5], []][fl % 3]
    return A.groupbin(e, 0.5, closedlow=cl)

LAYOUTS = [("bin",), ("split",), ("intbin",), ("cut",), ("groupby",), ("groupbin",), ("bin", "cut"), ("groupby", "bin"), ("groupby", "groupbin"), ("groupbin", "intbin", "cut"), ("cut", "split", "cut"), ("groupby", "cut")]

def pandas(hb, c, layout):
    W = Fixed(c, hb)
    W.groups = {}
    W.install()
    axes = [makeaxis(hb, c, k, "e{0}".format(i), W) for i, k in enumerate(layout)]
    h = hb.hist.Hist(*(axes + [hb.axis.profile("y"), hb.axis.profile("q")]))
    cuts = [a for a in h._fixed if isinstance(a, hb.axis.cut)]
    mode = c.choose(4, "columns")
    if mode == 3 and (not cuts or len(cuts) == len(h._group + h._fixed)):
        raise PathEnd()
    args = [[], [h._profile[1]], [h._profile[1], "y"], cuts][mode]
    pd = standins(c)
    load.STANDINS["pandas"] = pd
    df = must_return(c, "pandas", h.pandas, *args)
    left = [a for a in h._group + h._fixed if not (mode == 3 and a in cuts)]
    cols = [("count()", False), ("err(count())", False)] if mode < 3 else [("count()", False)]
    for a in ([] if mode == 0 else [x if not isinstance(x, str) else h._profile[0] for x in args]):
        cols += [(str(a._expr), False), ("err({0})".format(a._expr), False)]
    arrays, names = df.index
    c.prove("an index for every axis", len(arrays) == len(left) and len(set(len(a) for a in arrays)) == 1)
    c.prove("the table's columns", list(df.columns) == [q[0] for q in cols], why=repr(df.columns))
    got = list(zip(*[[x.t if isinstance(x, PInterval) else x for x in a] for a in arrays]))
    if got:
        c.prove("axes are named by their expressions", names == [str(a._expr) for a in left], why=repr(names))
    want = {}
    for idx in itertools.product(*[range(len(W.bins(a))) for a in left]):
        want[tuple(W.bins(a)[i] for a, i in zip(left, idx))] = tuple((a._expr, i) for a, i in zip(left, idx))
    c.prove("one row per cell, indexed by its bins", sorted(map(repr, got)) == sorted(map(repr, want)), why=repr((got, list(want))))
    if sorted(map(repr, got)) != sorted(map(repr, want)):
        return
    c.prove("as many rows of numbers", (df.data is None and not got) or (df.data is not None and len(df.data) == len(got)))
    for k, row in zip(got, df.data or []):
        path = want[k]
        c.prove("a row has the numbers of its cell", len(row) == len(cols) and all(tofloat(x) is tofloat(W.val(path, q)) or equalnum(c, x, W.val(path, q)) for x, q in zip(row, cols)), why=repr(k))

class Histo(object):
    def __init__(self, *args):
        self.args, self.set, self.bins = args, {}, {}
    def GetName(self): return self.args[0]
    def SetContent(self, x): self.set["content"] = x
    def SetError(self, x): self.set["error"] = x
    def SetEntries(self, x): self.set["entries"] = x
    def SetBinEntries(self, i, x): self.bins["entries", i] = x
    def SetBinContent(self, i, x): self.bins["content", i] = x
    def SetBinError(self, i, x): self.bins["error", i] = x

def root(hb, c, kind):
    W = Fixed(c, hb)
    W.groups = {}
    W.install()
    a = makeaxis(hb, c, kind, "e0", W)
    weighted = c.choose(2, "weighted") == 1
    h = hb.hist.Hist(a, hb.axis.cut("other"), hb.axis.profile("y"), hb.axis.profile("q"), weight="w" if weighted else None)
    a = h._fixed[0]
    prof = [h._profile[1]] if c.choose(2, "profile") else []
    ROOT = types.ModuleType("ROOT")
    ROOT.TH1D, ROOT.TProfile = type("TH1D", (Histo,), {}), type("TProfile", (Histo,), {})
    def zeros(n, dtype=None, **k):
        return Vec([tofloat(0.0)]*n) if isinstance(n, int) else NotImplemented
    roots = []
    def hook(name):
        def f(x, *r, **k):
            if not isinstance(x, Vec):
                return NotImplemented
            roots.append(x.vals)
            return Vec([("sqrt", tofloat(v)) for v in x.vals])
        return f
    npf.HOOKS.setdefault("zeros", []).insert(0, zeros)
    saved = npf.F.__dict__.get("sqrt")
    realsqrt = npf.F.sqrt
    npf.F.sqrt = lambda x, *r, **k: hook("sqrt")(x) if isinstance(x, Vec) else realsqrt(x, *r, **k)
    load.STANDINS["ROOT"] = ROOT
    try:
        out = must_return(c, "root", h.root, a, *prof, name="n", title="t")
    finally:
        if saved is None:
            del npf.F.sqrt
        else:
            npf.F.sqrt = saved
    edges = list(a.edges) if kind == "split" else ([-1.0, 1.0, 3.0] if kind == "bin" else [1.5, 2.5, 3.5])
    n = len(edges) - 1
    args = out.args[2:]
    if len(args) == 3:
        mine = [args[1] + (args[2] - args[1])*i/float(args[0]) for i in range(args[0] + 1)]
    else:
        mine = [float(x) for x in args[1]] if len(args) == 2 else None
    c.prove("bins have the axis's edges", mine is not None and args[0] == n and mine == edges, why=repr(args))
    c.prove("the right kind of ROOT histogram", isinstance(out, ROOT.TProfile if prof else ROOT.TH1D))
    src = {}
    for i, k in enumerate(W.bins(a)):
        if k == "{NaN}":
            continue
        b = i if a.underflow else i + 1
        src[b] = ((a._expr, i),)
    cell = lambda b, q: W.val(src[b], (q, False)) if b in src else tofloat(0.0)
    total = tofloat(0.0)
    for b in range(n + 2):
        if prof:
            ent, mean, err = (tofloat(cell(b, q)) for q in ("count()", "q", "err(q)"))
            c.prove("entries of a bin", equalnum(c, out.bins.get(("entries", b)), ent))
            c.prove("ROOT's sum is mean times entries", equalnum(c, out.bins.get(("content", b)), fmul(mean, ent)))
            e = out.bins.get(("error", b))
            c.prove("ROOT's error is that of the mean", isinstance(e, tuple) and e[0] == "sqrt" and equalnum(c, e[1], fmul(fadd(fmul(fmul(err, err), ent), fmul(mean, mean)), ent)))
        else:
            x = out.set["content"]
            c.prove("contents of a bin", len(x) == n + 2 and equalnum(c, x[b], cell(b, "count()")))
            if weighted:
                x = out.set.get("error")
                c.prove("error of a bin", x is not None and len(x) == n + 2 and equalnum(c, x[b], cell(b, "err(count())")))
            else:
                c.prove("ROOT's own error for counts", out.set.get("error") is None or equalnum(c, out.set["error"][b], cell(b, "err(count())")))

def units(hb, tier):
    out = []
    for mark in ("bar", "step", "area", "line", "marker"):
        for kind in ("bin", "split", "intbin", "cut", "groupby", "groupbin"):
            out.append(("vega.{0} on {1}".format(mark, kind), lambda c, m=mark, k=kind: plot(hb, c, m, k), ["vega.Plotable1d.vegalite", "vega.Plotable1d._data", "vega.Plotable1d._vegalite"]))
    for kind in ("bin", "split", "intbin", "cut", "groupby"):
        out.append(("vega.heatmap on {0}".format(kind), lambda c, k=kind: plot(hb, c, "heatmap", k), ["vega.Plotable2d.vegalite", "vega.Plotable2d._data", "vega.Plotable2d._vegalite"]))
    for kind in ("overlay", "beside", "below", "grid", "many"):
        out.append(("vega combination: " + kind, lambda c, k=kind: combination(hb, c, k), ["vega.Combination._collectdata", "vega.{0}.vegalite".format("beside" if kind == "many" else kind)]))
    for l in LAYOUTS:
        out.append(("pandas of {0}".format(", ".join(l)), lambda c, l=l: pandas(hb, c, l), ["export.Exportable.pandas"]))
    for kind in ("bin", "split", "intbin"):
        out.append(("root of {0}".format(kind), lambda c, k=kind: root(hb, c, k), ["export.Exportable.root"]))
    return out
