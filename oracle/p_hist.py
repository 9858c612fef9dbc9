"""Executable contracts: operations on filled histograms (C10-C17, C21)."""
import copy as _copy
import itertools
import math
import numpy
from ref import *

################################################################ helpers

def filled(h, data):
    hist = build_hist(h)
    if data is not None:
        fill(hist, data)
    return hist

def refcells(h, *datas):
    out = Cells(ncols(h))
    for d in datas:
        if d is not None:
            ref_fill(h, rows(d), out)
    return out

def addcells(a, b):
    out = dict((k, list(v)) for k, v in a.items())
    for k, v in b.items():
        out[k] = [x + y for x, y in zip(out[k], v)] if k in out else list(v)
    return out

def scalecells(a, f):
    return dict((k, [x*f for x in v]) for k, v in a.items())

def snapshot(hist):
    """everything observable of the contents, bit for bit"""
    out = {}
    for path, a in leaves(hist):
        out[tuple(norm(x) for x in path)] = (a.shape, a.tobytes())
    return out if hist._content is not None else None

def unchanged(hist, snap, what):
    now = snapshot(hist)
    if now != snap:
        raise Violation("{0} changed".format(what))

def gen_maybe(rng, n=None, p=6, nans=True):
    if rng.randrange(p) == 0:
        return None
    return gen_data(rng, size(rng, [0, 1, 3, 7, 10]) if n is None else n, nans=nans)

def sameaxes(hist, specs, what):
    g, f, p = order(specs)
    want = [build_axis(s) for s in g + f + p]
    have = list(hist._group + hist._fixed + hist._profile)
    if have != want:
        raise Violation("{0}: axes are {1}, expected {2}".format(what, have, want))

def wellformed(hist, what):
    """index positions held by the axes are those of this histogram's contents"""
    for i, x in enumerate(hist._fixed):
        if getattr(x, "_shapeindex", i) != i or hist._shape[i] != x.totbins:
            raise Violation("{0}: axis {1} has position {2}".format(what, x, x._shapeindex))
    cols = columns_of(hist)
    if sorted(cols) != list(range(hist._shape[-1])):
        raise Violation("{0}: columns {1} of shape {2}".format(what, cols, hist._shape))

def change_axis(rng, axes):
    """axes that differ in one option"""
    axes = _copy.deepcopy(axes)
    i = rng.randrange(len(axes))
    s = axes[i]
    opts = [n for n in s if n != "k"]
    f = rng.choice(opts)
    if f == "e":
        s["e"] = {"bin": "x + y + z", "split": "x + y + z", "intbin": "i - j", "cut": "q and p and x > 0", "groupby": "s" if s["e"] != "s" else "g", "groupbin": "x + y + z", "profile": "a + b + 3"}[s["k"]]
    elif f in ("u", "o", "nan", "cl"):
        s[f] = not s[f]
        if s["k"] == "split" and len(s["edges"]) == 1 and not (s["u"] or s["o"] or s["nan"]):
            return None
    elif f == "lo":
        s[f] -= 1
    elif f == "hi":
        s[f] += 1
    elif f == "n":
        s[f] += 1
    elif f == "edges":
        s[f] = list(s[f]) + [50.0]
    elif f == "w":
        s[f] *= 2
    elif f == "org":
        s[f] += 0.125
    return axes

################################################################ C10

def gen_C10(rng):
    if rng.randrange(4) == 0:
        return gen_bookadd(rng)
    h = gen_hist(rng)
    case = dict(kind="hist", hist=h, a=gen_maybe(rng, nans=False), b=gen_maybe(rng, nans=False), inplace=bool(rng.randrange(2)), share=rng.choice(["", "", "a", "b"]), extra=gen_data(rng, 3, nans=False))
    r = rng.randrange(4)
    if r == 0:
        ax = change_axis(rng, h["axes"])
        if ax is not None:
            case["other"] = dict(h, axes=ax)
    elif r == 1:
        o = dict(h)
        if weighted(h):
            o["weight"] = o["filter"] = None
        else:
            o["weight"] = "w"
        case["other"] = o
    return case

def gen_tree(rng, depth=2):
    out = []
    for name in rng.sample(["a", "b", "c", "d", "e"], rng.randrange(1, 4)):
        if depth > 0 and rng.randrange(3) == 0:
            out.append([name, "book", gen_tree(rng, depth - 1)])
        else:
            out.append([name, "hist", gen_hist(rng, maxfixed=2, maxgroup=1, maxprof=1)])
    return out

def build_tree(t, cls=None):
    b = (cls or histbook.book.Book)()
    for name, k, x in t:
        b[name] = build_hist(x) if k == "hist" else build_tree(x)
    return b

def tree_hists(t, pre=""):
    out = []
    for name, k, x in t:
        if k == "hist":
            out.append((pre + name, x))
        else:
            out += tree_hists(x, pre + name + "/")
    return out

def prune(rng, t):
    out = []
    for name, k, x in t:
        if rng.randrange(4) == 0:
            continue
        out.append([name, k, x if k == "hist" else prune(rng, x)])
    return out

def gen_bookadd(rng):
    t = gen_tree(rng)
    ta, tb = prune(rng, t), prune(rng, t)
    if rng.randrange(2):
        tb = list(tb)
        rng.shuffle(tb)
    return dict(kind="book", ta=ta, tb=tb, a=gen_maybe(rng, nans=False), b=gen_maybe(rng, nans=False), inplace=bool(rng.randrange(2)), att=rng.randrange(3))

def run_C10(case):
    if case["kind"] == "book":
        A, B = build_tree(case["ta"]), build_tree(case["tb"])
        if case["att"]:
            A.attach("k", 1)
            B.attach("k" if case["att"] == 1 else "k2", 2)
        for bk, d in ((A, case["a"]), (B, case["b"])):
            if d is not None:
                for h in bk.itervalues(recursive=True, onlyhist=True):
                    fill(h, d)
        snapb = [(n, snapshot(h)) for n, h in B.iteritems(recursive=True, onlyhist=True)]
        snapa = [(n, snapshot(h)) for n, h in A.iteritems(recursive=True, onlyhist=True)]
        if case["inplace"]:
            out = A
            out += B
            if out is not A:
                raise Violation("in-place addition made a new book")
        else:
            out = A + B
            if [(n, snapshot(h)) for n, h in A.iteritems(recursive=True, onlyhist=True)] != snapa:
                raise Violation("left operand of book addition changed")
            if case["att"] and out.attachment != {"k": 2} and out.attachment != {"k": 1, "k2": 2}:
                raise Violation("attachments of the sum are {0}".format(out.attachment))
        ha, hb = dict(tree_hists(case["ta"])), dict(tree_hists(case["tb"]))
        want = set(ha) | set(hb)
        got = dict(out.iteritems(recursive=True, onlyhist=True))
        if set(got) != want:
            raise Violation("sum of books has members {0}, expected {1}".format(sorted(got), sorted(want)))
        for n in want:
            spec = ha.get(n) or hb.get(n)
            ref = refcells(spec, case["a"] if n in ha else None, case["b"] if n in hb else None)
            check_hist(got[n], ref, "member {0} of the sum".format(n))
        if [(n, snapshot(h)) for n, h in B.iteritems(recursive=True, onlyhist=True)] != snapb:
            raise Violation("right operand of book addition changed")
        # independence of members that only one side has
        for n in hb:
            for m in dict(B.iteritems(recursive=True, onlyhist=True)).values():
                if got[n] is m:
                    raise Violation("member {0} of the sum is the operand's own histogram".format(n))
        return
    h = case["hist"]
    o = case.get("other", h)
    A, B = filled(h, case["a"]), filled(o, case["b"])
    if case["share"] == "a":
        keep = A
        A = A.copyonfill()
    elif case["share"] == "b":
        keep = B
        B = B.copyonfill()
    snapa, snapb = snapshot(A), snapshot(B)
    if "other" in case:
        for op in ("add", "iadd"):
            try:
                if op == "add":
                    A + B
                else:
                    A += B
            except TypeError:
                pass
            else:
                raise Violation("{0} of histograms that differ was accepted: {1!r} {2!r}".format(op, A, B))
            unchanged(A, snapa, "left operand of a refused addition")
            unchanged(B, snapb, "right operand of a refused addition")
        for x in (1, None, "a", [1]):
            try:
                A + x
            except TypeError:
                pass
            else:
                raise Violation("adding {0!r} was accepted".format(x))
        return
    if case["inplace"]:
        out = A
        out += B
        if out is not A:
            raise Violation("in-place addition made a new histogram")
    else:
        out = A + B
        unchanged(A, snapa, "left operand")
    unchanged(B, snapb, "right operand")
    ref = refcells(h, case["a"], case["b"])
    check_hist(out, ref, "sum")
    if case["a"] is None and case["b"] is None and out._content is not None and leaves(out):
        raise Violation("sum of unfilled histograms has contents")
    sameaxes(out, h["axes"], "sum")
    wellformed(out, "sum")
    # later fills of the sum
    fill(out, case["extra"])
    ref_fill(h, rows(case["extra"]), ref)
    check_hist(out, ref, "sum after a further fill")
    unchanged(B, snapb, "right operand after filling the sum")
    if case["share"] == "b":
        unchanged(keep, snapb, "histogram sharing with the right operand")
    elif case["share"] == "a":
        unchanged(keep, snapa, "histogram sharing with the left operand")

################################################################ C11

def gen_C11(rng):
    book = rng.randrange(4) == 0
    case = dict(a=gen_maybe(rng, nans=False), f=rng.choice([2, 0.5, -1.5, 0, 3.25, 1, -2]), ty=rng.choice(["py", "np", "py", "npi"]), op=rng.choice(["mul", "rmul", "imul"]), share=bool(rng.randrange(3) == 0))
    if book:
        case["tree"] = gen_tree(rng)
    else:
        case["hist"] = gen_hist(rng)
    return case

def run_C11(case):
    f = case["f"]
    num = f if case["ty"] == "py" else (numpy.float64(f) if case["ty"] == "np" else (numpy.int64(f) if f == int(f) else numpy.float32(f)))
    if "tree" in case:
        A = build_tree(case["tree"])
        pairs = [(h, A[n]) for n, h in tree_hists(case["tree"])]
    else:
        A = build_hist(case["hist"])
        pairs = [(case["hist"], A)]
    if case["a"] is not None:
        for s, x in pairs:
            fill(x, case["a"])
    keep = None
    if case["share"]:
        keep = A
        A = A.copyonfill()
        pairs = [(h, A[n]) for n, h in tree_hists(case["tree"])] if "tree" in case else [(case["hist"], A)]
    snaps = [snapshot(x) for s, x in pairs]
    if case["op"] == "mul":
        out = A * num
    elif case["op"] == "rmul":
        out = A.__rmul__(num) if case["ty"] != "py" else num * A
    else:
        out = A
        out *= num
        if out is not A:
            raise Violation("in-place multiplication made a new object")
    outs = [(n, h) for n, h in (out.iteritems(recursive=True, onlyhist=True) if "tree" in case else [("", out)])]
    names = [n for n, h in tree_hists(case["tree"])] if "tree" in case else [""]
    if [n for n, h in outs] != names:
        raise Violation("members after multiplication: {0}".format([n for n, h in outs]))
    for (s, x), (n, y), snap in zip(pairs, outs, snaps):
        ref = refcells(s, case["a"])
        ref.cells = scalecells(ref.cells, f)
        check_hist(y, ref, "multiple by {0}".format(f))
        sameaxes(y, s["axes"], "multiple")
        if case["a"] is None and y._content is not None:
            raise Violation("multiple of an unfilled histogram has contents")
        if case["op"] != "imul":
            unchanged(x, snap, "original of a multiple")
    if keep is not None:
        ks = [keep[n] for n, h in tree_hists(case["tree"])] if "tree" in case else [keep]
        for x, snap in zip(ks, snaps):
            unchanged(x, snap, "histogram sharing with a multiple")
    for bad in (None, "2", [2], (1,), 1j, A):
        for op in ("__mul__", "__imul__", "__rmul__"):
            if "tree" in case and not pairs:
                continue
            now = [snapshot(x) for s, x in pairs]
            try:
                getattr(A, op)(bad)
            except TypeError:
                pass
            else:
                raise Violation("multiplying by {0!r} was accepted".format(bad))
            if [snapshot(x) for s, x in pairs] != now:
                raise Violation("refused multiplication changed the contents")

################################################################ C12

def gen_C12(rng):
    if rng.randrange(4) == 0:
        return gen_C12book(rng)
    h = gen_hist(rng, allflow=bool(rng.randrange(2)))
    ops = []
    n = 1
    for _ in range(rng.randrange(4, 10)):
        op = rng.choice(["fill", "fill", "fill", "copy", "copyonfill", "copyonfill", "cleared", "clear", "add", "iadd", "mul", "imul", "project", "drop", "rebinby", "select", "table", "group", "index", "weight"])
        o = dict(op=op, i=rng.randrange(1000), j=rng.randrange(1000), f=rng.choice([2, 0.5, -1.0]), r=rng.randrange(1000))
        if op == "fill":
            o["data"] = gen_data(rng, size(rng, [1, 3, 6]), nans=False)
        ops.append(o)
    return dict(kind="hist", hist=h, ops=ops)

def optionsame(a, b, what):
    for n in ("_weightoriginal", "_filteroriginal", "_defs", "_attachment"):
        if getattr(a, n) != getattr(b, n):
            raise Violation("{0}: {1} is {2!r}, expected {3!r}".format(what, n, getattr(a, n), getattr(b, n)))
    if list(a._group + a._fixed + a._profile) != list(b._group + b._fixed + b._profile):
        raise Violation("{0}: axes differ".format(what))

def run_C12(case):
    if case["kind"] == "book":
        return run_C12book(case)
    h = case["hist"]
    objs = [dict(x=build_hist(h), spec=h, cells={}, empty=True)]
    objs[0]["x"].attach("note", 1)
    def check(what):
        for k, o in enumerate(objs):
            same_cells(cells_of(o["x"]), o["cells"], "object {0} after {1}".format(k, what))
    def new(x, spec, cells):
        objs.append(dict(x=x, spec=spec, cells=dict((k, list(v)) for k, v in cells.items())))
    for n, op in enumerate(case["ops"]):
        o = objs[op["i"] % len(objs)]
        x, k = o["x"], op["op"]
        what = "{0} ({1})".format([p["op"] for p in case["ops"][:n + 1]], k)
        if k == "fill":
            fill(x, dict(op["data"], source=dict(dt="U1", v=["A"]*len(op["data"]["x"]["v"]))))
            if o["spec"] is not None and len(x.fields) > 0:
                r = Cells(ncols(o["spec"]))
                r.cells = o["cells"]
                ref_fill(o["spec"], rows(op["data"]), r)
            else:
                o["cells"] = cells_of(x)
        elif k == "copy":
            new(x.copy(), o["spec"], o["cells"])
            if not (objs[-1]["x"] == x) or objs[-1]["x"] != x:
                raise Violation("a copy is not equal to its original")
            optionsame(objs[-1]["x"], x, "copy")
            if objs[-1]["x"].attachment is x.attachment:
                raise Violation("a copy shares its attachment with the original")
        elif k == "copyonfill":
            new(x.copyonfill(), o["spec"], o["cells"])
            if not (objs[-1]["x"] == x):
                raise Violation("a copy-on-fill copy is not equal to its original")
            optionsame(objs[-1]["x"], x, "copyonfill")
        elif k == "cleared":
            y = x.cleared()
            if y._content is not None:
                raise Violation("a cleared copy has contents")
            optionsame(y, x, "cleared")
            new(y, o["spec"], {})
        elif k == "clear":
            x.clear()
            o["cells"] = {}
        elif k in ("add", "iadd"):
            mates = [p for p in objs if p["spec"] is o["spec"] and p["spec"] is not None]
            if not mates:
                continue
            p = mates[op["j"] % len(mates)]
            tot = addcells(o["cells"], p["cells"])
            if k == "add":
                new(x + p["x"], o["spec"], tot)
            else:
                x += p["x"]
                if p is o:
                    pass
                o["cells"] = tot
        elif k == "mul":
            new(x * op["f"], o["spec"], scalecells(o["cells"], op["f"]))
        elif k == "imul":
            x *= op["f"]
            o["cells"] = scalecells(o["cells"], op["f"])
        elif k == "project" and o["spec"] is not None:
            g, f, p = order(o["spec"]["axes"])
            gf = g + f
            keep = [i for i in range(len(gf)) if (op["r"] >> i) & 1]
            spec = dict(o["spec"], axes=[gf[i] for i in keep] + p)
            new(x.project(*[x.axis[i] for i in keep]), spec, projcells(o["cells"], len(gf), keep))
        elif k == "drop" and o["spec"] is not None:
            g, f, p = order(o["spec"]["axes"])
            if not p:
                continue
            dropi = op["r"] % len(p)
            spec = dict(o["spec"], axes=g + f + [s for i, s in enumerate(p) if i != dropi])
            new(x.drop(x._profile[dropi]), spec, dict((kk, v[:2*dropi] + v[2*dropi + 2:]) for kk, v in o["cells"].items()))
        elif k in ("rebinby", "select"):
            if o["spec"] is None:
                continue
            g, f, p = order(o["spec"]["axes"])
            done = False
            for i, s in enumerate(g + f):
                if k == "rebinby" and s["k"] in ("bin", "split", "intbin", "groupbin"):
                    y = x.rebinby(x.axis[i], 2)
                    done = True
                elif k == "select" and s["k"] == "groupby":
                    y = x.select(s["e"] + " != 'zz'")
                    done = True
                elif k == "select" and s["k"] == "intbin" and s["hi"] > s["lo"]:
                    y = x.select("{0} <= {1}".format(s["e"], s["lo"]))
                    done = True
                elif k == "select" and s["k"] == "bin" and s["n"] > 1:
                    e = edges_of(s)
                    y = x.select("{0} {1} {2!r}".format(s["e"], ">=" if s["cl"] else ">", e[1]))
                    done = True
                if done:
                    new(y, None, cells_of(y))
                    break
        elif k == "table":
            if x._content is not None or not x._group:
                x.table(*x._profile)
        elif k == "group":
            if o["spec"] is None:
                continue
            y = histbook.hist.Hist.group(by="source", A=x, B=x)
            new(y, None, addcells(dict((("A",) + kk, v) for kk, v in o["cells"].items()), dict((("B",) + kk, v) for kk, v in o["cells"].items())))
        elif k == "weight":
            y = x.weight("w")
            if y._content is not None:
                raise Violation("reweighted copy has contents")
            y.attach("other", 1)
            if x.has("other"):
                raise Violation("reweighted copy shares its attachment with the original")
        else:
            x[()] if k == "index" else None
        check(what)

def gen_C12book(rng):
    ops = []
    for _ in range(rng.randrange(3, 8)):
        op = rng.choice(["fill", "fill", "copy", "copyonfill", "copyonfill", "cleared", "clear", "add", "iadd", "mul", "imul", "del", "fillone"])
        o = dict(op=op, i=rng.randrange(1000), j=rng.randrange(1000), f=rng.choice([2, 0.5, -1.0]))
        if op in ("fill", "fillone"):
            o["data"] = gen_data(rng, rng.choice([1, 3]), nans=False)
        ops.append(o)
    return dict(kind="book", tree=gen_tree(rng, 1), ops=ops)

def run_C12book(case):
    objs = []
    def new(b, cells):
        objs.append((b, dict((n, dict((k, list(v)) for k, v in c.items())) for n, c in cells.items())))
    specs = dict(tree_hists(case["tree"]))
    first = build_tree(case["tree"])
    first.attach("note", 1)
    new(first, dict((n, {}) for n in specs))
    for m, op in enumerate(case["ops"]):
        b, cells = objs[op["i"] % len(objs)]
        k = op["op"]
        if k == "fill":
            fill(b, op["data"])
            for n in cells:
                r = Cells(ncols(specs[n]))
                r.cells = cells[n]
                ref_fill(specs[n], rows(op["data"]), r)
        elif k == "fillone" and cells:
            n = sorted(cells)[op["j"] % len(cells)]
            fill(b[n], op["data"])
            r = Cells(ncols(specs[n]))
            r.cells = cells[n]
            ref_fill(specs[n], rows(op["data"]), r)
        elif k in ("copy", "copyonfill"):
            c = getattr(b, k)()
            if not (c == b) or c != b:
                raise Violation("{0} of a book is not equal to it".format(k))
            new(c, cells)
        elif k == "cleared":
            new(b.cleared(), dict((n, {}) for n in cells))
        elif k == "clear":
            b.clear()
            for n in cells:
                cells[n] = {}
        elif k == "add":
            b2, cells2 = objs[op["j"] % len(objs)]
            new(b + b2, dict((n, addcells(cells.get(n, {}), cells2.get(n, {}))) for n in list(cells) + [n for n in cells2 if n not in cells]))
        elif k == "iadd":
            b2, cells2 = objs[op["j"] % len(objs)]
            tot = dict((n, addcells(cells.get(n, {}), cells2.get(n, {}))) for n in list(cells) + [n for n in cells2 if n not in cells])
            b += b2
            cells.clear()
            cells.update(tot)
        elif k == "mul":
            new(b * op["f"], dict((n, scalecells(c, op["f"])) for n, c in cells.items()))
        elif k == "imul":
            b *= op["f"]
            for n in cells:
                cells[n] = scalecells(cells[n], op["f"])
        elif k == "del" and len(cells) > 1:
            n = sorted(cells)[op["j"] % len(cells)]
            del b[n]
            del cells[n]
        for q, (bb, cc) in enumerate(objs):
            have = dict(bb.iteritems(recursive=True, onlyhist=True))
            if set(have) != set(cc):
                raise Violation("book {0} has members {1}, expected {2} after {3}".format(q, sorted(have), sorted(cc), [p["op"] for p in case["ops"][:m + 1]]))
            for n in cc:
                same_cells(cells_of(have[n]), cc[n], "book {0} member {1} after {2}".format(q, n, [p["op"] for p in case["ops"][:m + 1]]))

################################################################ C13

def projcells(cells, naxes, keep):
    out = {}
    for k, v in cells.items():
        kk = tuple(k[i] for i in keep)
        out[kk] = [a + b for a, b in zip(out[kk], v)] if kk in out else list(v)
    return out

def gen_C13(rng):
    h = gen_hist(rng, allflow=True, maxfixed=3, maxgroup=3, minaxes=1)
    n = len([s for s in h["axes"] if s["k"] != "profile"])
    keep = [i for i in range(n) if rng.randrange(2)]
    if rng.randrange(5) == 0:
        keep = list(range(n))
    return dict(hist=h, data=gen_maybe(rng, n=rng.choice([0, 1, 4, 9, 14]), p=10), keep=keep, how=rng.choice(["axis", "index", "expr", "equal"]), shuffle=rng.randrange(3), dup=rng.randrange(4))

def run_C13(case):
    h, keep = case["hist"], case["keep"]
    hist = filled(h, case["data"])
    snap = snapshot(hist)
    g, f, p = order(h["axes"])
    gf = g + f
    arg = list(keep)
    if case["shuffle"]:
        arg = arg[::-1]
    if case["dup"] == 0 and arg:
        arg = arg + arg[:1]
    args = [hist.axis[i] if case["how"] == "axis" else (i if case["how"] == "index" else (build_axis(gf[i]) if case["how"] == "equal" else gf[i]["e"])) for i in arg]
    if case["how"] == "expr" and len(set(str(s["e"]) for s in h["axes"])) != len(h["axes"]):
        args = [hist.axis[i] for i in arg]
    out = hist.project(*args)
    unchanged(hist, snap, "original of a projection")
    spec = dict(h, axes=[gf[i] for i in keep] + p)
    sameaxes(out, spec["axes"], "projection")
    wellformed(out, "projection")
    ref = refcells(h, case["data"])
    want = projcells(ref.cells, len(gf), keep)
    same_cells(cells_of(out), want, "projection")
    # the same as filling only those axes (no axis drops entries here)
    if case["data"] is not None and len(build_hist(spec).fields) > 0:
        direct = filled(spec, case["data"])
        same_cells(cells_of(out), cells_of(direct), "projection against direct fill")
        check_groups(out, refcells(spec, case["data"]), "projection")
    if case["data"] is None and out._content is not None:
        raise Violation("projection of an unfilled histogram has contents")
    if keep == list(range(len(gf))) and not (out == hist):
        raise Violation("projection onto all axes differs from the histogram")
    try:
        hist.project(histbook.axis.bin("nosuch", 3, 0, 1))
    except IndexError:
        pass
    else:
        raise Violation("projection onto a missing axis was accepted")

################################################################ C14

def bin_labels(s):
    """displayed bins of a fixed axis by the documented rules"""
    if s["k"] == "cut":
        return [False, True]
    if s["k"] == "intbin":
        return ([("I", -inf, s["lo"], True, False)] if s["u"] else []) + list(range(s["lo"], s["hi"] + 1)) + ([("I", s["hi"], inf, False, True)] if s["o"] else [])
    e = edges_of(s)
    return ([("I", -inf, e[0], True, not s["cl"])] if s["u"] else []) + [("I", a, b, s["cl"], not s["cl"]) for a, b in zip(e[:-1], e[1:])] + ([("I", e[-1], inf, s["cl"], True)] if s["o"] else []) + (["NaN"] if s["nan"] else [])

def decide(lab, cmp, t, integer):
    """does the whole bin satisfy 'x cmp t'?  True, False or None if the condition cuts through it"""
    if t != t:
        return (lab == "NaN") if cmp == "==" else (lab != "NaN")
    if lab == "NaN":
        return False
    f = {"<": lambda a: a < t, "<=": lambda a: a <= t, ">": lambda a: a > t, ">=": lambda a: a >= t, "==": lambda a: a == t, "!=": lambda a: a != t}[cmp]
    if not isinstance(lab, tuple):
        return f(lab)
    _, lo, hi, cl, ch = lab
    # sample the distinguishable points of the interval
    pts = []
    if integer:
        if lo == -inf:
            pts = [hi - 1, hi - 2, hi - 10**6, min(hi - 1, math.floor(t)), min(hi - 1, math.ceil(t) - 1), min(hi - 1, math.ceil(t))]
        else:
            pts = [lo + 1, lo + 2, lo + 10**6, max(lo + 1, math.ceil(t)), max(lo + 1, math.floor(t)), max(lo + 1, math.floor(t) + 1)]
    else:
        if cl:
            pts.append(lo)
        if ch:
            pts.append(hi)
        a = lo if lo != -inf else (min(hi, t) - 10)
        b = hi if hi != inf else (max(lo, t) + 10)
        pts += [a + (b - a)*q for q in (1e-9, 0.25, 0.5, 0.75, 1 - 1e-9)]
        if lo < t < hi:
            pts += [t, t + (b - t)/2, t - (t - a)/2]
        if lo == -inf:
            pts.append(a)
        if hi == inf:
            pts.append(b)
    r = set(bool(f(x)) for x in pts)
    return r.pop() if len(r) == 1 else None

CMPS = ["<", "<=", ">", ">="]
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}

def gen_cond(rng, s):
    k = s["k"]
    if k in ("bin", "split"):
        e = edges_of(s)
        t = rng.choice(e + e + [e[0] - 0.5, e[-1] + 0.5, e[0] + 0.0625])
        cmp = rng.choice(CMPS + ["<" if s["cl"] else "<=", ">=" if s["cl"] else ">"]*2 + ["==", "!="])
        if rng.randrange(8) == 0:
            return dict(cmp=rng.choice(["==", "!="]), t=nan, text="nan", flip=False)
        return dict(cmp=cmp, t=t, flip=rng.randrange(3) == 0, form=max(0, rng.randrange(-8, 6)))
    if k == "intbin":
        t = rng.choice(list(range(s["lo"] - 1, s["hi"] + 2)) + [s["lo"] + 0.5])
        return dict(cmp=rng.choice(CMPS + CMPS + ["==", "!="]), t=t, flip=rng.randrange(3) == 0, form=max(0, rng.randrange(-8, 6)))
    if k == "cut":
        return dict(cmp=rng.choice(["pos", "pos", "neg", "==T", "==F", "!=T"]), t=True, flip=False)
    if k == "groupby":
        vals = {"g": ["one", "two", "abc", "zz", "other"], "s": ["A", "B", "C"], "k": [0, 1, 2, 3]}[s["e"]]
        c = rng.choice(["==", "!=", "in", "not in", "<", ">=", ">", "<="])
        if c in ("in", "not in"):
            return dict(cmp=c, t=rng.sample(vals, 2), flip=False)
        return dict(cmp=c, t=rng.choice(vals), flip=c in ("<", ">=") and rng.randrange(3) == 0)
    m = rng.randrange(-4, 8)
    t = s["org"] + m*s["w"] if rng.randrange(5) else s["org"] + m*s["w"] + 0.0625
    cmp = rng.choice(CMPS + ["<" if s["cl"] else "<=", ">=" if s["cl"] else ">"]*2 + ["==", "!="])
    if rng.randrange(8) == 0:
        return dict(cmp=rng.choice(["==", "!="]), t=nan, text="nan", flip=False)
    return dict(cmp=cmp, t=t, flip=rng.randrange(3) == 0, form=max(0, rng.randrange(-8, 6)))

def num(t):
    if t != t:
        return "nan"
    return repr(t)

def cond_text(s, c):
    e = s["e"]
    if s["k"] == "cut":
        return {"pos": e, "neg": "not " + e, "==T": e + " == True", "==F": e + " == False", "!=T": e + " != True"}[c["cmp"]]
    if c["cmp"] in ("in", "not in"):
        return "{0} {1} {{{2}}}".format(e, c["cmp"], ", ".join(repr(x) for x in c["t"]))
    t = num(c["t"])
    if c.get("form"):
        t = {1: lambda t: "{0!r} - pi".format(t + math.pi), 2: lambda t: "pi + {0!r}".format(t - math.pi), 3: lambda t: "{0!r}*pi".format(t/math.pi), 4: lambda t: "{0!r}/pi".format(t*math.pi), 5: lambda t: "{0!r} - (pi + e)".format(t + math.pi + math.e)}[c["form"]](c["t"])
    if c["flip"]:
        return "{0} {1} {2}".format(t, FLIP[c["cmp"]], e)
    return "{0} {1} {2}".format(e, c["cmp"], t)

def gen_C14(rng):
    axes = gen_axes(rng, maxfixed=3, maxgroup=2, maxprof=1, minaxes=1)
    for s in axes:
        if s["k"] == "cut" and s["e"] not in ("p", "q"):
            s["e"] = rng.choice([e for e in ("p", "q") if not any(e == x["e"] for x in axes)] or [s["e"]])
    axes = [s for s in axes if s["k"] != "cut" or s["e"] in ("p", "q")]
    axes = [s for i, s in enumerate(axes) if s["e"] not in [x["e"] for x in axes[:i]]]
    if not [s for s in axes if s["k"] != "profile"]:
        axes.append(gen_axis(rng, "bin", "x + z"))
    # canonical axis expressions only
    sel = [i for i, s in enumerate(axes) if s["k"] != "profile"]
    h = dict(axes=axes)
    if rng.randrange(3) == 0:
        h["weight"] = "w"
    conds = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        i = rng.choice(sel)
        if axes[i]["k"] == "cut" and any(c[0] == i for c in conds):
            continue
        conds.append([i, gen_cond(rng, axes[i])])
    case = dict(hist=h, data=gen_maybe(rng, n=size(rng, [0, 3, 10, 14]), p=12), conds=conds, extra=gen_data(rng, 5), mode="and")
    grp = [i for i in sel if axes[i]["k"] in ("groupby", "groupbin")]
    if grp and rng.randrange(3) == 0:
        i = rng.choice(grp)
        case["mode"] = "or"
        case["alts"] = [[gen_cond(rng, axes[i]) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
        case["conds"] = [[i, None]]
    return case

def group_keep(s, c, key):
    """True/False/None (cut through, or refused)"""
    t, cmp = c["t"], c["cmp"]
    if s["k"] == "groupby":
        f = {"<": lambda a: a < t, "<=": lambda a: a <= t, ">": lambda a: a > t, ">=": lambda a: a >= t, "==": lambda a: a == t, "!=": lambda a: a != t, "in": lambda a: a in t, "not in": lambda a: a not in t}[cmp]
        return bool(f(key))
    if t != t:
        return (key == "NaN") if cmp == "==" else (key != "NaN")
    if key == "NaN":
        return False
    if abs(key) == inf:
        return {"<": key < t, "<=": key <= t, ">": key > t, ">=": key >= t, "==": False, "!=": True}[cmp]
    return decide(("I", key, key + s["w"], s["cl"], not s["cl"]), cmp, t, False)

def must_group(s, c):
    """a bin edge can decide it with the right inequality"""
    if s["k"] == "groupby":
        return True
    if c["t"] != c["t"]:
        return True
    m = (c["t"] - s["org"])/s["w"]
    return abs(m - round(m)) < 1e-13 and c["cmp"] in (("<", ">=") if s["cl"] else ("<=", ">"))

def run_C14(case):
    h = case["hist"]
    hist = filled(h, case["data"])
    snap = snapshot(hist)
    g, f, p = order(h["axes"])
    gf = g + f
    pos = dict((i, gf.index(s)) for i, s in enumerate(h["axes"]) if s["k"] != "profile")
    labs = [bin_labels(s) if j >= len(g) else None for j, s in enumerate(gf)]
    for j in range(len(g), len(gf)):
        shown = [label(x) for x in hist.axis[j].keys()]
        if len(shown) != len(labs[j]) or any(not _samelabel(a, b) for a, b in zip(shown, labs[j])):
            raise Violation("axis {0} shows {1}, expected {2}".format(hist.axis[j], shown, labs[j]))
    kept = dict((j, list(range(len(labs[j])))) for j in range(len(g), len(gf)))
    gtests = []
    removed = set()
    may_refuse = False          # refusal is allowed
    must_refuse = False         # a bin is cut through
    if case["mode"] == "or":
        i = case["conds"][0][0]
        s = h["axes"][i]
        text = " or ".join("(" + " and ".join(cond_text(s, c) for c in alt) + ")" for alt in case["alts"])
        keys = set(k[pos[i]] for k in cells_of(hist, False)) if case["data"] is not None else set()
        if not all(must_group(s, c) for alt in case["alts"] for c in alt):
            may_refuse = True
        keepkey = {}
        def ok(key, s=s):
            rs = [[group_keep(s, c, key) for c in alt] for alt in case["alts"]]
            return any(all(r) for r in rs) if all(x is not None for r in rs for x in r) else None
        gtests.append((pos[i], ok))
        if any(ok(k) is None for k in keys):
            must_refuse = True
    else:
        text = " and ".join("(" + cond_text(h["axes"][i], c) + ")" for i, c in case["conds"])
        for i, c in case["conds"]:
            s, j = h["axes"][i], pos[i]
            if j < len(g):
                if not must_group(s, c):
                    may_refuse = True
                gtests.append((j, lambda key, s=s, c=c: group_keep(s, c, key)))
                continue
            if s["k"] == "cut":
                want = c["cmp"] in ("pos", "==T")
                kept[j] = [q for q in kept[j] if labs[j][q] == want]
                removed.add(j)
                continue
            ds = [decide(labs[j][q], c["cmp"], c["t"], s["k"] == "intbin") for q in kept[j]]
            if None in ds:
                must_refuse = True
            new = [q for q, d in zip(kept[j], ds) if d]
            fin = [labs[j][q] for q in new if not isinstance(labs[j][q], tuple) or (abs(labs[j][q][1]) != inf and abs(labs[j][q][2]) != inf)]
            isedge = (c["t"] != c["t"] and s["nan"]) if c["t"] != c["t"] else (c["t"] in ([labs[j][q][1] for q in kept[j] if isinstance(labs[j][q], tuple)] + [labs[j][q][2] for q in kept[j] if isinstance(labs[j][q], tuple)]) if s["k"] != "intbin" else s["lo"] <= c["t"] <= s["hi"])
            right = (c["cmp"] in (("<", ">=") if s.get("cl") else ("<=", ">"))) if s["k"] != "intbin" else (c["cmp"] in CMPS and c["t"] == int(c["t"]))
            if c["t"] != c["t"]:
                right = True
            if not (isedge and right) or len(new) == 0 or (s["k"] == "intbin" and not fin) or len(case["conds"]) > 1:
                may_refuse = True
            kept[j] = new
    try:
        out = hist.select(text)
    except (ValueError, TypeError, AttributeError) as e:
        if may_refuse or must_refuse or (case["mode"] == "or" and False):
            unchanged(hist, snap, "original of a refused selection")
            return
        raise Violation("select({0!r}) on {1!r} was refused: {2}".format(text, hist, e))
    if must_refuse:
        raise Violation("select({0!r}) cuts through a bin of {1!r} but was accepted".format(text, hist))
    unchanged(hist, snap, "original of a selection")
    ref = refcells(h, case["data"])
    def pick(cells):
        want = {}
        for k, v in cells.items():
            good = True
            kk = []
            for j, q in enumerate(k):
                if j < len(g):
                    for jj, test in gtests:
                        if jj == j:
                            r = test(q)
                            if r is None:
                                raise Violation("select({0!r}) cuts through group {1} but was accepted".format(text, q))
                            if not r:
                                good = False
                    kk.append(q)
                else:
                    if q not in kept[j]:
                        good = False
                    elif j not in removed:
                        kk.append(kept[j].index(q))
            if good:
                want[tuple(kk)] = v
        return want
    same_cells(cells_of(out), pick(ref.cells), "select({0!r})".format(text))
    # labels
    left = [j for j in range(len(gf)) if j not in removed]
    if len(out._group) + len(out._fixed) != len(left):
        raise Violation("select({0!r}) left axes {1}".format(text, out._group + out._fixed))
    for j, a in zip(left, out._group + out._fixed):
        if j < len(g):
            if build_axis(gf[j]) != a:
                raise Violation("select({0!r}) changed group axis to {1}".format(text, a))
        else:
            shown = [label(x) for x in a.keys()]
            want = [labs[j][q] for q in kept[j]]
            if gf[j]["k"] == "intbin" and len(want) != len(shown):
                pass
            if len(shown) != len(want) or any(not _samelabel(x, y) for x, y in zip(shown, want)):
                raise Violation("select({0!r}): axis {1} shows {2}, expected {3}".format(text, a, shown, want))
            if str(a.expr) != gf[j]["e"]:
                raise Violation("select({0!r}): axis {1} has expression {2}".format(text, a, a.expr))
    if [str(x.expr) for x in out._profile] != [s["e"] for s in p]:
        raise Violation("select({0!r}) changed the profiles".format(text))
    if out._content is None and case["data"] is not None:
        raise Violation("selection has no contents")
    # later fills with the selected axes keep the same rule
    if not gtests and not removed:
        fill(out, case["extra"])
        both = refcells(h, case["data"], case["extra"])
        same_cells(cells_of(out), pick(both.cells), "select({0!r}) and then fill".format(text))
        unchanged(hist, snap, "original after filling a selection")

def _samelabel(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return close(float(a[1]), float(b[1])) and close(float(a[2]), float(b[2])) and bool(a[3]) == bool(b[3]) and bool(a[4]) == bool(b[4])
    return type(a) is not tuple and type(b) is not tuple and a == b

################################################################ C15

def gen_C15(rng):
    if rng.randrange(6) == 0:
        w, org = rng.choice([0.1, 0.3, 1.0/3, 0.7, 1e-3, 1.1]), rng.choice([0.0, 0.1, 0.7, -0.3, 1.0/3, 1000.1, -12.6])
        return dict(kind="awkward", w=w, org=org, cl=bool(rng.randrange(2)), factor=rng.choice([2, 3, 5]), v=[org + (rng.randrange(-40, 40) + 0.5)*w for _ in range(20)], inner=bool(rng.randrange(2)))
    kinds = rng.choice(["bin", "split", "intbin", "groupbin", "bin", "split"])
    axes = gen_axes(rng, maxfixed=2, maxgroup=2, maxprof=1, minaxes=0)
    axes = [s for s in axes if s["e"] not in ("x + z", "i - j")]
    s = gen_axis(rng, kinds, "i - j" if kinds == "intbin" else "x + z")
    if kinds == "bin":
        s["n"] = rng.randrange(1, 8)
        s["hi"] = s["lo"] + s["n"]*rng.choice([0.25, 0.5, 1.0])
    elif kinds == "split":
        s["edges"] = sorted(rng.sample([x / 2.0 for x in range(-6, 9)], rng.randrange(1, 7)))
        if len(s["edges"]) == 1:
            s["o"] = True
    elif kinds == "intbin":
        s["hi"] = s["lo"] + rng.randrange(0, 8)
    axes.insert(rng.randrange(len(axes) + 1), s)
    h = dict(axes=axes)
    if rng.randrange(3) == 0:
        h["weight"] = "w"
    if kinds != "groupbin" and rng.randrange(2):
        e = edges_of(s) if kinds != "intbin" else [x - 0.5 for x in range(s["lo"], s["hi"] + 2)]
        k = rng.randrange(1, len(e) + 1)
        new = sorted(rng.sample(e, k))
        bad = None
        if rng.randrange(4) == 0:
            bad = rng.choice([e[0] + 0.0625, e[-1] + 1, e[0] - 1])
        return dict(hist=h, axis=s, how="edges", edges=new, bad=bad, data=gen_maybe(rng, n=rng.choice([0, 5, 14]), p=12), by=rng.choice(["axis", "expr", "index", "equal"]))
    return dict(hist=h, axis=s, how="factor", factor=rng.choice([1, 2, 2, 3, 4, 10]), data=gen_maybe(rng, n=rng.choice([0, 5, 14]), p=12), by=rng.choice(["axis", "expr", "index", "equal"]), badfactor=rng.choice([0, -1, 1.5, "2", None]) if rng.randrange(5) == 0 else "no")

def run_awkward(case):
    """widths and origins that are not multiples of a power of two: bins keep together"""
    w, org, f = case["w"], case["org"], case["factor"]
    axes = [histbook.axis.groupbin("x", w, origin=org, closedlow=case["cl"])] + ([histbook.axis.groupby("g")] if case["inner"] else [])
    h = histbook.hist.Hist(*axes)
    d = {"x": numpy.array(case["v"]), "g": numpy.arange(len(case["v"])) % 3}
    h.fill(d)
    out = h.rebinby("x", f)
    def count(x):
        return sum(count(y) for y in x.values()) if isinstance(x, dict) else float(x.sum())
    want, got = {}, {}
    for k, x in h._content.items():
        n = int(round((k - org)/w)) // f
        want[n] = want.get(n, 0) + count(x)
    for k, x in out._content.items():
        n = int(round((k - org)/(w*f)))
        if n in got or abs(k - (org + n*w*f)) > 1e-9*(1 + abs(k)):
            raise Violation("rebinning groupbin({0!r}, origin={1!r}) by {2} gives the key {3!r}".format(w, org, f, k))
        got[n] = count(x)
    if want != got:
        raise Violation("rebinning groupbin({0!r}, origin={1!r}) by {2} gives {3}, expected {4}".format(w, org, f, sorted(got.items()), sorted(want.items())))

def run_C15(case):
    if case.get("kind") == "awkward":
        return run_awkward(case)
    h, s = case["hist"], case["axis"]
    hist = filled(h, case["data"])
    snap = snapshot(hist)
    g, f, p = order(h["axes"])
    j = (g + f).index(s)
    arg = {"axis": hist.axis[j], "expr": s["e"], "index": j, "equal": build_axis(s)}[case["by"]]
    e = None
    if s["k"] in ("bin", "split"):
        e = edges_of(s)
    elif s["k"] == "intbin":
        e = [x - 0.5 for x in range(s["lo"], s["hi"] + 2)]
    if case["how"] == "edges":
        new = list(case["edges"])
        if case["bad"] is not None:
            try:
                hist.rebin(arg, new + [case["bad"]])
            except ValueError:
                unchanged(hist, snap, "original of a refused rebinning")
                return
            raise Violation("rebinning {0!r} to {1} was accepted".format(hist.axis[j], new + [case["bad"]]))
        call = lambda: hist.rebin(arg, new)
    else:
        n = case["factor"]
        if case["badfactor"] != "no":
            try:
                hist.rebinby(arg, case["badfactor"])
            except TypeError:
                unchanged(hist, snap, "original of a refused rebinning")
                return
            raise Violation("rebinning by {0!r} was accepted".format(case["badfactor"]))
        if e is not None:
            new = [e[i] for i in range(0, len(e) - 1, n)] + [e[-1]]
        call = lambda: hist.rebinby(arg, n)
    if s["k"] == "groupbin":
        ns = dict(s, w=s["w"]*case["factor"])
    else:
        ns = dict(k="split", e=s["e"], edges=new, u=s["u"], o=s["o"], nan=s.get("nan", False), cl=s.get("cl", True))
        if len(new) == 1 and not (ns["u"] or ns["o"] or ns["nan"]):
            try:
                call()
            except ValueError:
                return
            raise Violation("rebinning to no bins was accepted")
    out = call()
    unchanged(hist, snap, "original of a rebinning")
    spec = dict(h, axes=[ns if x == s else x for x in h["axes"]])
    sameaxes(out, spec["axes"], "rebinning")
    wellformed(out, "rebinning")
    if case["data"] is None:
        if out._content is not None:
            raise Violation("rebinning an unfilled histogram gives contents")
        return
    direct = refcells(spec, case["data"])
    check_hist(out, direct, "rebinning {0!r} to {1!r}".format(hist.axis[j], out.axis[j]))
    before = cells_of(out)
    fill(out, case["data"])
    twice = refcells(spec, case["data"], case["data"])
    check_hist(out, twice, "rebinned histogram after a further fill")
    unchanged(hist, snap, "original after filling a rebinning")

################################################################ C16

def gen_C16(rng):
    h = gen_hist(rng, maxfixed=3, maxgroup=2, maxprof=3)
    norm_ = rng.randrange(4) == 0
    if norm_:
        h["axes"] = [s for s in h["axes"] if s["k"] not in ("groupby", "groupbin")]
        h["axes"] = [s for s in h["axes"] if not (s["k"] == "split" and len(s["edges"]) == 1)]
        if not [s for s in h["axes"] if s["k"] != "profile"]:
            h["axes"].append(gen_axis(rng, "bin", "x + z"))
    np_ = len([s for s in h["axes"] if s["k"] == "profile"])
    profs = [i for i in range(np_) if rng.randrange(3)]
    rng.shuffle(profs)
    d = gen_data(rng, size(rng, [0, 1, 5, 14, 20]), nans=False)
    d["w"] = dict(dt="f8", v=[abs(x) + 0.25 for x in d["w"]["v"]])
    if isinstance(h.get("weight"), (int, float)):
        h["weight"] = abs(h["weight"])
    odd = rng.randrange(4) == 0
    if odd:
        d["a"] = dict(dt="f8", v=[0.1]*len(d["a"]["v"]))
    return dict(hist=h, data=d, profs=profs, count=bool(rng.randrange(4)), error=bool(rng.randrange(3)), effcount=bool(rng.randrange(2)), normalized=norm_, recarray=bool(rng.randrange(2)), dropk=rng.randrange(8))

def table_rows(hist, tab, cols, shape, rec):
    out = {}
    def walk(path, t):
        if isinstance(t, dict):
            for n in t:
                walk(path + (norm(n),), t[n])
        else:
            if t.shape[:len(shape)] != tuple(shape):
                raise Violation("table of shape {0}, expected {1}".format(t.shape, shape))
            for idx in itertools.product(*[range(n) for n in shape]):
                row = t[idx]
                if rec:
                    out[path + idx] = [float(row[c]) for c in cols]
                else:
                    out[path + idx] = [float(x) for x in row]
    walk((), tab)
    return out

def tclose(a, b):
    return close(a, b, 1e-7)

def run_C16(case):
    h = case["hist"]
    hist = filled(h, case["data"])
    snap = snapshot(hist)
    g, f, p = order(h["axes"])
    profs = [p[i] for i in case["profs"]]
    if not case["count"] and not case["effcount"] and not profs:
        return
    opts = dict(count=case["count"], error=case["error"], effcount=case["effcount"], normalized=case["normalized"], recarray=case["recarray"], columns=True)
    with numpy.errstate(all="ignore"):
        tab, cols = hist.table(*[hist._profile[i] for i in case["profs"]], **opts)
    unchanged(hist, snap, "histogram after a table")
    want = []
    if case["count"]:
        want.append("count()")
        if case["error"]:
            want.append("err(count())")
    if case["effcount"]:
        want.append("effcount()")
    for s in profs:
        want.append(s["e"])
        if case["error"]:
            want.append("err({0})".format(s["e"]))
    if cols != want:
        raise Violation("columns are {0}, expected {1}".format(cols, want))
    shape = [nbins(s) for s in f]
    got = table_rows(hist, tab, cols, shape, case["recarray"])
    ref = refcells(h, case["data"])
    wt = weighted(h)
    widths = {}
    total = 0.0
    if case["normalized"]:
        def width(idx):
            w = 1.0
            for s, i in zip(f, idx):
                lab = bin_labels(s)[i]
                if isinstance(lab, tuple):
                    w *= lab[2] - lab[1]
                elif lab == "NaN":
                    return inf
            return w
        for idx in itertools.product(*[range(n) for n in shape]):
            widths[idx] = width(idx)
            if idx in ref.cells:
                total += ref.cells[idx][2*len(p)]/widths[idx]
        if total == 0:
            return
    paths = set(k[:len(g)] for k in got)
    for k, row in got.items():
        c = ref.cells.get(k, [0.0]*ncols(h))
        sumw = c[2*len(p)]
        sumw2 = c[2*len(p) + 1] if wt else sumw
        exp = []
        slack = {}          # rounding of a difference of two nearly equal sums, under a square root
        if case["count"]:
            fac = 1.0
            if case["normalized"]:
                fac = total*widths[k]
            exp.append(sumw/fac)
            if case["error"]:
                exp.append(math.sqrt(sumw2)/fac)
        if case["effcount"]:
            exp.append(sumw*sumw/sumw2 if sumw > 0 else 0.0)
        for i in case["profs"]:
            mean = c[2*i]/sumw if sumw > 0 else 0.0
            exp.append(mean)
            if case["error"]:
                exp.append(math.sqrt(max(0.0, c[2*i + 1]/sumw - mean*mean)/(sumw*sumw/sumw2)) if sumw > 0 else 0.0)
                slack[len(exp) - 1] = 1e-12*(abs(c[2*i + 1]/sumw) + mean*mean)/(sumw*sumw/sumw2) if sumw > 0 else 0.0
        if len(exp) != len(row) or any(not tclose(a, b) and not abs(a*a - b*b) <= slack.get(i, 0.0) for i, (a, b) in enumerate(zip(row, exp))):
            raise Violation("table row of cell {0} is {1}, expected {2} ({3})".format(k, row, exp, cols))
    for k in ref.cells:
        if k not in got:
            raise Violation("cell {0} is not in the table".format(k))
    if case["normalized"] and case["count"]:
        s = sum(r[0] for k, r in got.items() if widths[k] != inf)
        if not tclose(s, 1.0):
            raise Violation("normalized counts sum to {0}".format(s))
    # dropping profiles
    if p and not case["normalized"]:
        gone = [i for i in range(len(p)) if (case["dropk"] >> i) & 1]
        if gone:
            less = hist.drop(*[hist._profile[i] if case["dropk"] % 2 else p[i]["e"] for i in gone])
            unchanged(hist, snap, "histogram after dropping a profile")
            rest = [i for i in range(len(p)) if i not in gone]
            if [str(x.expr) for x in less._profile] != [p[i]["e"] for i in rest]:
                raise Violation("profiles left are {0}".format(less._profile))
            same_cells(cells_of(less), dict((k, [x for i in rest for x in v[2*i:2*i + 2]] + v[2*len(p):]) for k, v in ref.cells.items()), "after dropping profiles")
            wellformed(less, "drop")
            with numpy.errstate(all="ignore"):
                t1, c1 = less.table(*less._profile, columns=True, recarray=False)
                t2, c2 = hist.table(*[hist._profile[i] for i in rest], columns=True, recarray=False)
            if c1 != c2 or table_rows(less, t1, c1, shape, False) != table_rows(hist, t2, c2, shape, False):
                raise Violation("dropping profiles changed the table")

################################################################ C17

def gen_C17(rng):
    axes = [s for s in gen_axes(rng, maxfixed=2, maxgroup=2, maxprof=2) if s["k"] != "cut"]
    ncut = rng.choice([1, 1, 2, 3])
    exprs = rng.sample(["p", "q", "x < 1", "y >= 0.5", "x < y"], ncut)
    used = [s["e"] for s in axes]
    for e in exprs:
        if e not in used:
            axes.insert(rng.randrange(len(axes) + 1), dict(k="cut", e=e))
    h = dict(axes=axes)
    if rng.randrange(3) == 0:
        h["weight"] = rng.choice(["w", 2])
    if rng.randrange(6) == 0:
        h["filter"] = "i != 1"
    d = gen_data(rng, size(rng, [0, 1, 6, 14, 20]), nans=False)
    d["w"] = dict(dt="f8", v=[abs(x) + 0.25 for x in d["w"]["v"]])
    nc = len([s for s in axes if s["k"] == "cut"])
    order_ = list(range(nc))
    rng.shuffle(order_)
    return dict(hist=h, data=d, cuts=order_[:rng.randrange(1, nc + 1)], count=bool(rng.randrange(4)), error=rng.choice(["normal", "normal", "wilson", None]), level=rng.choice([None, 0.5, [0.5, 0.25]]), recarray=bool(rng.randrange(2)), how=rng.choice(["axis", "expr"]))

def run_C17(case):
    h = case["hist"]
    hist = filled(h, case["data"])
    snap = snapshot(hist)
    g, f, p = order(h["axes"])
    cutpos = [j for j, s in enumerate(f) if s["k"] == "cut"]
    chosen = [cutpos[i] for i in case["cuts"]]
    opts = dict(count=case["count"], error=case["error"], recarray=case["recarray"], columns=True)
    levels = [math.erf(math.sqrt(0.5))]
    if case["level"] is not None:
        opts["level"] = case["level"]
        levels = case["level"] if isinstance(case["level"], list) else [case["level"]]
    with numpy.errstate(all="ignore"):
        tab, cols = hist.fraction(*[hist._fixed[j] if case["how"] == "axis" else f[j]["e"] for j in chosen], **opts)
    unchanged(hist, snap, "histogram after a fraction table")
    ncol = (1 if case["count"] else 0) + len(chosen)*(1 + (len(levels) if case["error"] else 0))
    if len(cols) != ncol:
        raise Violation("columns of the fraction table are {0}".format(cols))
    want = (["count()"] if case["count"] else [])
    k = len(want)
    for j in chosen:
        if cols[k] != f[j]["e"]:
            raise Violation("column {0} of the fraction table is {1!r}, expected {2!r}".format(k, cols[k], f[j]["e"]))
        k += 1 + (len(levels) if case["error"] else 0)
    if len(set(cols)) != len(cols):
        return
    rest = [j for j in range(len(f)) if j not in chosen]
    shape = [nbins(f[j]) for j in rest]
    got = table_rows(hist, tab, cols, shape, case["recarray"])
    ref = refcells(h, case["data"])
    tot, num_ = {}, {}
    for key, v in ref.cells.items():
        gk, fk = key[:len(g)], key[len(g):]
        kk = gk + tuple(fk[j] for j in rest)
        tot[kk] = tot.get(kk, 0.0) + v[2*len(p)]
        for j in chosen:
            if fk[j] == 1:
                num_[(kk, j)] = num_.get((kk, j), 0.0) + v[2*len(p)]
    sig = {levels[0]: None}
    for key, row in got.items():
        t = tot.get(key, 0.0)
        i = 0
        if case["count"]:
            if not close(row[0], t):
                raise Violation("count of cell {0} is {1}, expected {2}".format(key, row[0], t))
            i = 1
        for j in chosen:
            pr = num_.get((key, j), 0.0)/t if t > 0 else 0.0
            if not close(row[i], pr):
                raise Violation("fraction of {0} in cell {1} is {2}, expected {3}".format(f[j]["e"], key, row[i], pr))
            i += 1
            if case["error"]:
                for lv in levels:
                    if case["error"] == "wilson":
                        zz = sigma(lv)
                        e = (pr + 0.5*zz**2/t + zz*math.sqrt(max(0.0, pr*(1 - pr))/t + 0.25*zz**2/t**2))/(1.0 + zz**2/t) if t > 0 else 0.0
                    else:
                        e = (math.sqrt(max(0.0, pr*(1 - pr))/t)*sigma(lv)) if t > 0 else 0.0
                    slack = 1e-12*sigma(lv)**2/t if t > 0 else 0.0
                    if abs(row[i] - e) > 0.01*e + 1e-7 and not abs(row[i]**2 - e**2) <= slack or (t == 0 and row[i] != 0):
                        raise Violation("error of the fraction of {0} in cell {1} is {2}, expected {3}".format(f[j]["e"], key, row[i], e))
                    i += 1
    for kk in tot:
        if kk not in got:
            raise Violation("cell {0} is not in the fraction table".format(kk))

def sigma(level):
    """number of standard deviations of a two-sided confidence level"""
    lo, hi = 0.0, 10.0
    for _ in range(80):
        mid = (lo + hi)/2
        if math.erf(mid/math.sqrt(2)) < level:
            lo = mid
        else:
            hi = mid
    return lo

################################################################ C21

def gen_C21(rng):
    h = gen_hist(rng, maxfixed=2, maxgroup=2, maxprof=1)
    names = rng.sample(["A", "B", "C", "D"], rng.randrange(1, 4))
    members = [dict(name=n, data=gen_maybe(rng, p=4, nans=False)) for n in names]
    late = [dict(name=rng.choice(["A", "B", "C", "D", "E"]), data=gen_maybe(rng, p=5, nans=False)) for _ in range(rng.randrange(0, 3))]
    late = [m for i, m in enumerate(late) if m["name"] not in [x["name"] for x in late[:i]]]
    case = dict(hist=h, members=members, late=late, mode=rng.choice(["hist", "hist", "book"]), extra=gen_data(rng, 3, nans=False))
    r = rng.randrange(4)
    if r == 0 and len(names) > 1:
        ax = change_axis(rng, h["axes"])
        if ax is not None:
            case["other"] = dict(h, axes=ax)
    elif r == 1 and len(names) > 1:
        case["other"] = dict(h, weight=None, filter=None) if weighted(h) else dict(h, weight="w")
    return case

def run_C21(case):
    h = case["hist"]
    g, f, p = order(h["axes"])
    hists = {}
    for k, m in enumerate(case["members"]):
        hists[m["name"]] = filled(h if k or "other" not in case else case["other"], m["data"])
    snaps = dict((n, snapshot(x)) for n, x in hists.items())
    if case["mode"] == "book":
        books = dict((n, histbook.book.Book({"m": x, "in/k": x.copy()} if i % 2 == 0 else {"m": x})) for i, (n, x) in enumerate(sorted(hists.items())))
        def make():
            b = histbook.book.Book.group(by="source", **books)
            want = ["m"] + (["in/k"] if books else [])
            if sorted(b.iterkeys(recursive=True, onlyhist=True)) != sorted(want):
                raise Violation("group of books has members {0}".format(sorted(b.iterkeys(recursive=True))))
            ik = b["in/k"]
            for i, (n, x) in enumerate(sorted(hists.items())):
                if i % 2 == 0:
                    same_cells(cells_of_group(ik, n), cells_of(x), "nested member of a group of books")
                elif n in (ik._content or {}):
                    raise Violation("group of books invented a member")
            return b["m"]
    else:
        make = lambda: histbook.hist.Hist.group(by="source", **hists)
    if "other" in case:
        try:
            make()
        except TypeError:
            for n, x in hists.items():
                unchanged(x, snaps[n], "member of a refused group")
            return
        raise Violation("histograms that differ were grouped: {0}".format(list(hists.values())))
    out = make()
    for n, x in hists.items():
        unchanged(x, snaps[n], "member of a group")
    if not isinstance(out._group[0], histbook.axis.groupby) or out._group[0].expr != "source" or list(out._group[1:] + out._fixed + out._profile) != list(list(hists.values())[0]._group + list(hists.values())[0]._fixed + list(hists.values())[0]._profile):
        raise Violation("axes of the group are {0}".format(out._group + out._fixed + out._profile))
    want = {}
    def check(what):
        names = set(m["name"] for m in case["members"]) | set(want)
        if set(out._content) != names:
            raise Violation("{0}: group keys are {1}, expected {2}".format(what, sorted(out._content), sorted(names)))
        got = cells_of(out)
        exp = {}
        for n, c in want.items():
            for k, v in c.items():
                exp[(n,) + k] = v
        same_cells(got, exp, what)
        if hasattr(out, "groupkeys"):
            if set(norm(k) for k in out.groupkeys("source")) != names:
                raise Violation("{0}: groupkeys are {1}".format(what, out.groupkeys("source")))
            for i, s in enumerate(g):
                ks = set()
                for n in out._content:
                    level = [out._content[n]]
                    for _ in range(i):
                        level = [x for d in level for x in d.values()]
                    for d in level:
                        ks |= set(d)
                if set(out.groupkeys(i + 1)) != ks:
                    raise Violation("{0}: groupkeys of axis {1} are {2}, expected {3}".format(what, s["e"], out.groupkeys(i + 1), ks))
    for m in case["members"]:
        want[m["name"]] = refcells(h, m["data"]).cells
    check("group")
    late = {}
    for m in case["late"]:
        late[m["name"]] = filled(h, m["data"])
    lsnaps = dict((n, snapshot(x)) for n, x in late.items())
    out.togroup(**late)
    for m in case["late"]:
        if m["data"] is not None:
            want[m["name"]] = addcells(want.get(m["name"], {}), refcells(h, m["data"]).cells)
        elif m["name"] not in want and m["name"] in out._content:
            want[m["name"]] = {}
    check("togroup")
    for n, x in list(hists.items()):
        unchanged(x, snaps[n], "member of a group after togroup")
        fill(x, case["extra"])
    for n, x in late.items():
        unchanged(x, lsnaps[n], "member added to a group")
        fill(x, case["extra"])
    check("group after filling its members")
    try:
        out.togroup(Z=out)
    except TypeError:
        pass
    else:
        raise Violation("togroup accepted a histogram with other axes")
    if list(hists.values())[0]._group == () or not isinstance(list(hists.values())[0]._group[0], histbook.axis.groupby):
        try:
            list(hists.values())[0].togroup(Z=out)
        except ValueError:
            pass
        else:
            raise Violation("togroup accepted a histogram without a group axis")

def cells_of_group(hist, name):
    return dict((k[1:], v) for k, v in cells_of(hist).items() if k[0] == name)
