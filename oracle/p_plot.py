"""Executable contract of C23: what plots and exports contain is what the projected histogram's table contains.

pandas and ROOT are not installed: stand-ins that record what they are given take their place.  Labels and numbers are compared with
project (C13) and table (C16), fraction (C17), on the real code."""
import itertools, math, sys, types
import numpy
from ref import *
from p_hist import filled, snapshot, unchanged
import histbook.axis as A
from histbook.vega import overlay, beside, below, grid

class Rec(object):
    def __init__(self, *args, **kw):
        self.args, self.kw, self.log = args, kw, {}
        self.bins = {}
    def GetName(self):
        return self.args[0]
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        def put(*a):
            if n.startswith("SetBin") and len(a) == 2:
                self.bins[n, int(a[0])] = float(a[1])
            else:
                self.log[n] = [numpy.array(x) for x in a]
        return put

class PInterval(object):
    def __init__(self, left, right, closed="right"):
        self.t = (float(left), float(right), closed)

def standins():
    pd = types.ModuleType("pandas")
    pd.Interval = PInterval
    pd.DataFrame = type("DataFrame", (Rec,), {})
    pd.MultiIndex = type("MultiIndex", (Rec,), dict(from_arrays=staticmethod(lambda arrays, names=None: (list(map(list, arrays)), list(names) if names is not None else None))))
    ROOT = types.ModuleType("ROOT")
    for n in ("TH1D", "TProfile", "TH2D", "TH3D", "THnD"):
        setattr(ROOT, n, type(n, (Rec,), {}))
    return pd, ROOT

MARKS = ["bar", "step", "area", "line", "marker"]

def gen_plot(rng, h=None, twod=None):
    if h is None:
        h = gen_hist(rng, maxfixed=2, maxgroup=1, maxprof=1)
        if rng.randrange(3):
            h["axes"] = [s for s in h["axes"] if s["k"] not in ("groupby", "groupbin")] or h["axes"]
    binned = [s for s in h["axes"] if s["k"] != "profile"]
    if not binned:
        h["axes"].append(gen_axis(rng, "bin", "x + z"))
    g, f, p = order(h["axes"])
    n = len(g) + len(f)
    perm = list(range(n))
    rng.shuffle(perm)
    use = perm[:rng.randint(1, min(n, 4))]
    if twod is None:
        twod = rng.randrange(4) == 0
    twod = twod and len(use) >= 2
    k = 2 if twod else 1
    chan = ["beside", "below"] if twod else ["overlay", "beside", "below"]
    rng.shuffle(chan)
    if not twod and rng.randrange(2) and "overlay" in chan:
        chan[chan.index("overlay")] = "stack"
    use = use[:k + len(chan)]
    mark = rng.choice(["bar", "area"] if "stack" in chan[:len(use) - k] else MARKS)
    chain = [[c, a] for c, a in zip(chan, use[k:])]
    return dict(hist=h, twod=twod, last=use[:k], chain=chain, mark=mark, error=(not twod) and not any(c in ("beside", "below") for c, a in chain) and bool(rng.randrange(2)),
                prof=bool(p) and bool(rng.randrange(2)), norm=(not g) and rng.randrange(5) == 0, log=rng.choice([None, None, "log", {"type": "log"}, {"type": "linear"}, "sqrt"]))

def gen_C23(rng):
    d = gen_data(rng, size(rng, [0, 1, 5, 14, 30]), nans=rng.randrange(2) == 0)
    d["w"] = dict(dt="f8", v=[abs(x) + 0.25 if isinstance(x, (int, float)) else x for x in d["w"]["v"]])
    mode = rng.choice(["plot", "plot", "plot", "combo", "pandas", "root"])
    if mode == "plot":
        return dict(mode=mode, plot=gen_plot(rng), data=d)
    if mode == "combo":
        def tree(kind, depth):
            subs = dict(overlay=[], beside=["overlay", "below"], below=["overlay", "beside"], grid=["overlay"])[kind]
            out = []
            for i in range(rng.randint(1, 3)):
                if depth and subs and rng.randrange(3) == 0:
                    out.append(tree(rng.choice(subs), depth - 1))
                else:
                    out.append(gen_plot(rng, twod=False if kind == "overlay" else None))
            return dict(kind=kind, parts=out, numcol=rng.randint(1, 3))
        return dict(mode=mode, tree=tree(rng.choice(["overlay", "beside", "below", "grid"]), 2), data=d)
    h = gen_hist(rng, maxfixed=3 if mode == "pandas" else 1, maxgroup=2 if mode == "pandas" else 0, maxprof=2)
    if isinstance(h.get("weight"), (int, float)):
        h["weight"] = abs(h["weight"])
    if mode == "root":
        if not [s for s in h["axes"] if s["k"] in ("bin", "intbin", "split")]:
            h["axes"].append(gen_axis(rng, rng.choice(["bin", "intbin", "split"]), "i + j" if False else "j"))
        if rng.randrange(2):
            h["axes"].append(gen_axis(rng, "cut", "x < y"))
    g, f, p = order(h["axes"])
    return dict(mode=mode, hist=h, data=d, fraction=bool(rng.randrange(2)), profs=[i for i in range(len(p)) if rng.randrange(2)], unfilled=rng.randrange(8) == 0, pick=rng.randrange(8))

def make(pl, data):
    h = pl["hist"]
    hist = filled(h, data)
    axes = hist._group + hist._fixed
    c = hist
    for kind, a in pl["chain"]:
        c = getattr(c, kind)(axes[a])
    kw = {}
    prof = hist._profile[0] if pl["prof"] and hist._profile else None
    if prof is not None:
        kw["profile"] = prof
    if pl["log"] is not None:
        kw["yscale"] = pl["log"]
    if pl["twod"]:
        return hist, c.heatmap(axes[pl["last"][0]], axes[pl["last"][1]], **kw), prof
    if pl["error"]:
        kw["error"] = True
    elif pl["mark"] == "marker":
        kw["error"] = False
    if pl["norm"]:
        kw["normalized"] = True
    return hist, getattr(c, pl["mark"])(axes[pl["last"][0]], **kw), prof

def keylabel(k):
    if isinstance(k, (bool, numpy.bool_)):
        return "pass" if k else "fail"
    return str(k)

def cells(axes, content):
    """(keys, row) of every cell of a table without record names; an integer axis shows as the intervals around its integers"""
    if not axes:
        yield (), [float(x) for x in content]
        return
    axis, rest = axes[0], axes[1:]
    if isinstance(content, dict):
        ks = axis.keys(content)
        vals = dict((str(k), v) for k, v in axis.items(content))
        pairs = [(k, v) for k, v in axis.items(content)]
    else:
        ks = (axis.bin() if isinstance(axis, A.intbin) else axis).keys()
        if len(ks) != len(content):
            raise Violation("axis {0} has {1} bins, its table {2}".format(axis, len(ks), len(content)))
        pairs = zip(ks, content)
    for k, v in pairs:
        for kk, row in cells(rest, v):
            yield (k,) + kk, row

def finite(k):
    return isinstance(k, A.Interval) and math.isfinite(k.low) and math.isfinite(k.high)

def expected(pl, hist, prof):
    """multiset of rows: ([labels or numbers of every axis], [values], extra) and the axes' order"""
    axes = hist._group + hist._fixed
    wanted = [axes[a] for c, a in pl["chain"]] + [axes[a] for a in pl["last"]]
    proj = hist.project(*wanted)
    order_ = proj._group + proj._fixed
    with numpy.errstate(all="ignore"):
        tab = proj.table(*([prof] if prof is not None else []), count=prof is None, error=pl["error"], normalized=pl["norm"] and not pl["twod"], recarray=False)
    last = [order_.index(axes[a]) for a in pl["last"]]
    rows_ = []
    islog = (not pl["twod"]) and (pl["log"] == "log" or isinstance(pl["log"], dict) and pl["log"]["type"] == "log")
    def put(x, v, c):
        if not islog or v[0] > 0:
            rows_.append((tuple(x), tuple(v), c))
    for ks, v in cells(order_, tab):
        lab = [keylabel(k) for k in ks]
        if pl["twod"]:
            ok = True
            for j in last:
                if isinstance(ks[j], A.Interval):
                    ok = ok and finite(ks[j])
                    lab[j] = 0.5*(ks[j].low + ks[j].high)
            if ok:
                put(lab, v, None)
            continue
        j = last[0]
        quant = isinstance(order_[j], (A.bin, A.intbin, A.split)) and pl["mark"] != "bar"
        if not quant:
            put(lab, v, lab[j])
            continue
        k = ks[j]
        if not finite(k):
            continue
        mid = 0.5*(k.low + k.high)
        if pl["mark"] in ("line", "marker"):
            lab[j] = mid
            put(lab, v, mid)
        else:
            fin = [x for x in (order_[j].bin() if isinstance(order_[j], A.intbin) else order_[j]).keys() if finite(x)]
            lo, hi = fin[0].low, fin[-1].high
            lab[j] = k.low
            put(lab, v, mid)
            if k.low == lo:
                lab[j] = lo
                put(lab, [0.0]*len(v), None)
            if k.high == hi:
                lab[j] = hi
                put(lab, [0.0]*len(v), None)
    return order_, last, rows_

def same(a, b, tol):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or a != a and b != b or abs(a - b) <= tol*(abs(a) + abs(b)) or abs(a - b) <= 1e-12

def match(got, want, scale, what):
    """bijection between two lists of rows: labels equal or (numbers) within the shift that step plots make"""
    if len(got) != len(want):
        raise Violation("{0}: {1} rows, expected {2}".format(what, len(got), len(want)))
    def key(r):
        return tuple(x if isinstance(x, str) else "#" for x in r[0]), tuple((0, "") if isinstance(x, str) else (1, round(x/(scale or 1.0), 7)) for x in r[0]), tuple("nan" if v != v else "{0:.9e}".format(v) for v in r[1])
    left = sorted(got, key=key)
    for a, b in zip(left, sorted(want, key=key)):
        if any(not (same(x, y, 1e-9) or not isinstance(x, str) and not isinstance(y, str) and abs(x - y) <= 2e-10*scale) for x, y in zip(a[0], b[0])) or any(not same(x, y, 1e-9) for x, y in zip(a[1], b[1])) or len(a[1]) != len(b[1]):
            raise Violation("{0}: row {1} where {2} is expected".format(what, a[:2], b[:2]))
        if b[2] is not None and a[2] is not None and any(a[1]) and not same(a[2], b[2], 1e-9):
            raise Violation("{0}: error bar of {1} at {2}, expected {3}".format(what, a[:2], a[2], b[2]))

def check_plot(pl, hist, prof, data, layers, what):
    """data: the rows of this plot; layers: its layers (dicts with encoding and transform)"""
    order_, last, want = expected(pl, hist, prof)
    enc = layers[0]["encoding"]
    fields = {}
    axes = hist._group + hist._fixed
    def col(name, where, a):
        f = enc[where]["field"]
        if fields.setdefault(a, f) != f:
            raise Violation("{0}: axis {1} in two columns".format(what, a))
    col("x", "x", last[0])
    if pl["twod"]:
        col("y", "y", last[1])
        value = enc["color"]["field"]
    else:
        value = enc["y"]["field"]
    for c, a in pl["chain"]:
        col(c, dict(overlay="color", stack="color", beside="column", below="row")[c], order_.index(axes[a]))
    if len(set(fields.values()) | set([value])) != len(order_) + 1 or sorted(fields) != list(range(len(order_))):
        raise Violation("{0}: the channels use the columns {1}, {2}".format(what, fields, value))
    errs = []
    cx = None
    if pl["error"]:
        if len(layers) != 2:
            raise Violation("{0}: {1} layers, expected marks and error bars".format(what, len(layers)))
        env = dict((t["as"], t["calculate"]) for t in layers[1]["transform"] if "calculate" in t)
        e2 = layers[1]["encoding"]
        cx = e2["x"]["field"]
        def ev_(f, row):
            text = env[e2[f]["field"]]
            return eval(text, {"datum": types.SimpleNamespace(**dict((k, v) for k, v in row.items() if k.isidentifier()))})
    elif len(layers) != 1:
        raise Violation("{0}: {1} layers, expected 1".format(what, len(layers)))
    got = []
    for r in data:
        try:
            v = [r[value]]
            if pl["error"]:
                lo, hi = ev_("y", r), ev_("y2", r)
                v.append(0.5*(hi - lo))
                if not same(0.5*(hi + lo), r[value], 1e-6) and r[value] == r[value] and abs(0.5*(hi + lo) - r[value]) > 1e-9*(abs(hi) + abs(lo)):
                    raise Violation("{0}: error bars from {1} to {2} around {3}".format(what, lo, hi, r[value]))
            got.append(([r[fields[j]] for j in range(len(order_))], v, r[cx] if cx is not None else None))
        except KeyError as e:
            raise Violation("{0}: a row {1} without column {2}".format(what, r, e))
    if pl["error"]:
        want = [(x, (v[0], v[1]), c) for x, v, c in want]
    nums = [abs(x) for r in want for x in r[0] if not isinstance(x, str)]
    j = last[0]
    span = 0.0
    if not pl["twod"] and isinstance(order_[j], (A.bin, A.intbin, A.split)):
        fin = [x for x in (order_[j].bin() if isinstance(order_[j], A.intbin) else order_[j]).keys() if finite(x)]
        if fin:
            span = fin[-1].high - fin[0].low
    match(got, want, span, what)
    for c, a in pl["chain"]:
        if c in ("overlay", "stack"):
            j = order_.index(axes[a])
            labels = set(r[0][j] for r in got)
            dom = enc["color"].get("scale", {}).get("domain")
            if dom is not None:
                if len(set(dom)) != len(dom) or not labels <= set(dom):
                    raise Violation("{0}: the colours are for {1}, the rows have {2}".format(what, dom, sorted(labels)))
            if c == "stack" and dom is not None:
                calc = [t["calculate"] for t in layers[0]["transform"] if t.get("as") == "stackorder"]
                if calc:
                    pos = dict((l, stackpos(calc[0], fields[j], l)) for l in dom)
                    if [l for l in sorted(dom, key=lambda l: pos[l])] != list(reversed(dom)) or len(set(pos.values())) != len(pos):
                        raise Violation("{0}: stacking order {1} of {2}".format(what, pos, dom))

def stackpos(text, field, label):
    def go(t):
        t = t.strip()
        if t.startswith("if("):
            body = t[3:-1]
            head = "datum.{0} === ".format(field)
            if not body.startswith(head):
                raise Violation("stacking by {0}, not {1}".format(body[:40], field))
            body = body[len(head):]
            q = body[0]
            i = 1
            while body[i] != q or body[i - 1] == "\\":
                i += 1
            lit = body[1:i]
            rest = body[i + 1:].lstrip(", ")
            a, b = rest.split(",", 1)
            return go(a) if eval(q + lit + q) == label else go(b)
        return int(t)
    return go(text)

def specs(node):
    """plots of a specification, in order: (filter id or None, [layers])"""
    if "hconcat" in node or "vconcat" in node:
        out = []
        for x in node.get("hconcat", []) + node.get("vconcat", []):
            out += specs(x)
        return out
    if "layer" in node:
        return [("layer", node["layer"])]
    return [("single", [node])]

def ident(layer):
    for t in layer.get("transform", []):
        if "filter" in t and t["filter"].get("field") == "id":
            return t["filter"]["equal"]
    return None

def run_plot(case):
    pl = case["plot"]
    hist, plot, prof = make(pl, case["data"])
    snap = snapshot(hist)
    try:
        spec = plot.vegalite()
    except NotImplementedError:
        axes = hist._group + hist._fixed
        if pl["twod"] and any(isinstance(axes[a], A.split) for a in pl["last"]):
            return
        raise
    unchanged(hist, snap, "histogram after plotting")
    layers = spec["layer"] if "layer" in spec else [spec]
    check_plot(pl, hist, prof, spec["data"]["values"], layers, "plot")

def run_combo(case):
    made = []
    def build(t):
        parts = []
        for x in t["parts"]:
            if "kind" in x:
                parts.append(build(x))
            else:
                hist, plot, prof = make(x, case["data"])
                made.append((x, hist, prof))
                parts.append(plot)
        if t["kind"] == "grid":
            return grid(t["numcol"], *parts)
        return dict(overlay=overlay, beside=beside, below=below)[t["kind"]](*parts)
    c = build(case["tree"])
    try:
        spec = c.vegalite()
    except NotImplementedError:
        if any(pl["twod"] and any(isinstance((h._group + h._fixed)[a], A.split) for a in pl["last"]) for pl, h, p in made):
            return
        raise
    data = spec["data"]["values"]
    groups = []
    for kind, layers in specs(spec):
        # an error-bar plot on its own is a layer of two; an overlay is a layer of the plots' layers
        i = 0
        while i < len(layers):
            pl = made[len(groups)][0] if len(groups) < len(made) else None
            n = 2 if pl and pl["error"] else 1
            groups.append(layers[i:i + n])
            i += n
    if len(groups) != len(made):
        raise Violation("{0} plots in the combination of {1}".format(len(groups), len(made)))
    ids = []
    for (pl, hist, prof), layers in zip(made, groups):
        sel = set(ident(l) for l in layers)
        if len(sel) != 1 or None in sel:
            raise Violation("layers of one plot show the rows {0}".format(sel))
        me = sel.pop()
        ids.append(me)
        check_plot(pl, hist, prof, [r for r in data if r.get("id") == me], layers, "plot {0} of the combination".format(me))
    if len(set(ids)) != len(ids):
        raise Violation("two plots show the same rows: {0}".format(ids))
    if any(r.get("id") not in ids for r in data):
        raise Violation("rows of no plot")

def run_pandas(case):
    pd, ROOT = standins()
    h = case["hist"]
    hist = build_hist(h) if case["unfilled"] else filled(h, case["data"])
    cuts = [x for x in hist._fixed if isinstance(x, A.cut)]
    frac = case["fraction"] and cuts
    chosen = [c for i, c in enumerate(cuts) if (case["pick"] >> i) & 1] or cuts[:1] if frac else [hist._profile[i] for i in case["profs"]]
    axes = [x for x in hist._group + hist._fixed if not (frac and x in chosen)]
    if not axes:
        return
    snap = snapshot(hist) if not case["unfilled"] else None
    sys.modules["pandas"] = pd
    try:
        df = hist.pandas(*chosen)
    finally:
        del sys.modules["pandas"]
    if snap is not None:
        unchanged(hist, snap, "histogram after export")
    with numpy.errstate(all="ignore"):
        tab, cols = (hist.fraction if frac else hist.table)(*chosen, columns=True)
    arrays, names = df.kw["index"]
    if (arrays and arrays[0] and names != [str(x.expr) for x in axes]) or len(arrays) != len(axes):
        raise Violation("data frame indexed by {0}, axes are {1}".format(names, axes))
    if list(df.kw["columns"]) != list(cols):
        raise Violation("columns {0}, expected {1}".format(df.kw["columns"], cols))
    want = []
    def label_(axis, k):
        if isinstance(axis, A.groupby):
            return k
        if isinstance(axis, A.groupbin):
            if isinstance(k, A.IntervalNaN):
                return "{NaN}"
            return (float(k.low), float(k.high), "left" if axis.closedlow else "right")
        if isinstance(axis, A.cut):
            return bool(k)
        if isinstance(axis, A.intbin):
            if isinstance(k, A.Interval):
                return (float(k.low), float(k.high), "left" if k.low == -float("inf") else "right")
            return str(k)
        if isinstance(k, A.IntervalNaN):
            return "{NaN}"
        return (float(k.low), float(k.high), "left" if axis.closedlow else "right")
    def walk(j, t, key):
        if j == len(axes):
            want.append((key, [float(t[c]) for c in cols] if getattr(t, "dtype", None) is not None and t.dtype.names else [float(x) for x in t]))
        elif isinstance(t, dict):
            for k, v in axes[j].items(t):
                walk(j + 1, v, key + (label_(axes[j], k),))
        else:
            ks = axes[j].keys()
            if len(ks) != len(t):
                raise Violation("table of another shape")
            for k, v in zip(ks, t):
                walk(j + 1, v, key + (label_(axes[j], k),))
    walk(0, tab, ())
    n = len(arrays[0])
    if any(len(a) != n for a in arrays):
        raise Violation("index arrays of different lengths")
    data = df.kw.get("data")
    got = []
    for i in range(n):
        got.append((tuple(a[i].t if isinstance(a[i], PInterval) else a[i] for a in arrays), [float(x) for x in data[i]]))
    if n != len(want):
        raise Violation("{0} rows, expected {1}".format(n, len(want)))
    def eqlab(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a[2] == b[2] and same(a[0], b[0], 1e-9) and same(a[1], b[1], 1e-9)
        return type(a) == type(b) and a == b or a == b and isinstance(a, str) == isinstance(b, str)
    for g in got:
        for i, w in enumerate(want):
            if all(eqlab(a, b) for a, b in zip(g[0], w[0])):
                break
        else:
            raise Violation("row {0} is no cell of the histogram".format(g[0]))
        w = want.pop(i)
        if len(g[1]) != len(w[1]) or any(not same(a, b, 1e-12) for a, b in zip(g[1], w[1])):
            raise Violation("row {0} has {1}, the table {2}".format(g[0], g[1], w[1]))

def run_root(case):
    pd, ROOT = standins()
    h = case["hist"]
    hist = filled(h, case["data"])
    axes = [x for x in hist._fixed if isinstance(x, (A.bin, A.intbin, A.split))]
    axis = axes[case["pick"] % len(axes)]
    prof = [hist._profile[i] for i in case["profs"][:1]]
    sys.modules["ROOT"] = ROOT
    try:
        th = hist.root(axis, *prof, name="n", title="t")
    finally:
        del sys.modules["ROOT"]
    proj = hist.project(axis)
    with numpy.errstate(all="ignore"):
        tab, cols = proj.table(*prof, count=True, error=True, recarray=False, columns=True)
    src = axis.bin() if isinstance(axis, A.intbin) else axis
    fin = [k for k in src.keys() if finite(k)]
    edges = [k.low for k in fin] + [fin[-1].high] if fin else []
    if not fin:
        return
    a = th.args[2:]
    n = int(a[0])
    if len(a) == 3:
        mine = [a[1] + (a[2] - a[1])*i/float(n) for i in range(n + 1)]
    elif len(a) == 2:
        mine = [float(x) for x in a[1]]
    else:
        raise Violation("ROOT histogram made with {0}".format(th.args))
    scale = abs(edges[0]) + abs(edges[-1])
    if len(mine) != len(edges) or any(abs(x - y) > 1e-9*scale for x, y in zip(mine, edges)):
        raise Violation("bin edges {0}, expected {1}".format(mine, edges))
    rowof = {}
    for i, k in enumerate(src.keys()):
        if isinstance(k, A.IntervalNaN):
            continue
        if finite(k):
            rowof[1 + fin.index(k)] = tab[i]
        else:
            rowof[0 if k.low == -float("inf") else n + 1] = tab[i]
    for b in range(n + 2):
        c = [float(x) for x in rowof[b]] if b in rowof else [0.0]*len(cols)
        if prof:
            ent = th.bins["SetBinEntries", b]
            if not same(ent, c[0], 1e-9):
                raise Violation("bin {0}: {1} entries, expected {2}".format(b, ent, c[0]))
            s, e = th.bins["SetBinContent", b], th.bins["SetBinError", b]
            mean = s/ent if ent else 0.0
            var = e*e/ent - mean*mean if ent else 0.0
            err = math.sqrt(max(0.0, var)/ent) if ent > 0 else 0.0
            if not same(mean, c[2], 1e-9):
                raise Violation("bin {0}: mean {1}, expected {2}".format(b, mean, c[2]))
            if not same(err, c[3], 1e-6) and abs(err*err - c[3]*c[3]) > 1e-9*(mean*mean/ent if ent else 0) + 1e-12:
                raise Violation("bin {0}: error {1}, expected {2}".format(b, err, c[3]))
        else:
            v = float(th.log["SetContent"][0][b])
            if not same(v, c[0], 1e-12):
                raise Violation("bin {0}: {1}, expected {2}".format(b, v, c[0]))
            if weighted(h):
                if not same(float(th.log["SetError"][0][b]), c[1], 1e-12):
                    raise Violation("bin {0}: error {1}, expected {2}".format(b, th.log["SetError"][0][b], c[1]))

def run_C23(case):
    dict(plot=run_plot, combo=run_combo, pandas=run_pandas, root=run_root)[case["mode"]](case)
