"""Independent reference semantics of histbook (executable contracts), used for replaying counterexamples on the real
code, for the directed search after a failed proof obligation, and for the bounded stand-ins.

Runs under the project's own interpreter (PyPy + numpy) with PYTHONPATH=/repo.  Nothing here is derived from the code
under test: bins are computed from the axis options by the documented rules.
"""
import math
import numpy

import histbook
from histbook import *          # noqa
import histbook.axis
import histbook.hist
import histbook.book
import histbook.expr

inf, nan = float("inf"), float("nan")

def isnan(v):
    return isinstance(v, float) and v != v

################################################################ specifications (JSON-able)

def build_axis(s):
    k = s["k"]
    if k == "bin":
        return histbook.axis.bin(s["e"], s["n"], s["lo"], s["hi"], underflow=s["u"], overflow=s["o"], nanflow=s["nan"], closedlow=s["cl"])
    if k == "split":
        return histbook.axis.split(s["e"], s["edges"], underflow=s["u"], overflow=s["o"], nanflow=s["nan"], closedlow=s["cl"])
    if k == "intbin":
        return histbook.axis.intbin(s["e"], s["lo"], s["hi"], underflow=s["u"], overflow=s["o"])
    if k == "cut":
        return histbook.axis.cut(s["e"])
    if k == "groupby":
        return histbook.axis.groupby(s["e"])
    if k == "groupbin":
        return histbook.axis.groupbin(s["e"], s["w"], origin=s["org"], nanflow=s["nan"], closedlow=s["cl"])
    if k == "profile":
        return histbook.axis.profile(s["e"])
    raise AssertionError(k)

def build_hist(h):
    opts = {}
    for n in ("weight", "filter"):
        if h.get(n) is not None:
            opts[n] = h[n]
    if h.get("defs"):
        opts["defs"] = dict(h["defs"])
    if h.get("att"):
        opts["attachment"] = dict(h["att"])
    return histbook.hist.Hist(*[build_axis(s) for s in h["axes"]], **opts)

def order(axes):
    """group axes first, then fixed, then profiles (each in the order given)"""
    g = [s for s in axes if s["k"] in ("groupby", "groupbin")]
    f = [s for s in axes if s["k"] in ("bin", "split", "intbin", "cut")]
    p = [s for s in axes if s["k"] == "profile"]
    return g, f, p

def flag(x):
    return 1 if x else 0

def edges_of(s):
    if s["k"] == "split":
        return sorted(float(x) for x in s["edges"])
    if s["n"] == 0:
        return [s["lo"]]
    return [s["lo"] + (s["hi"] - s["lo"]) * i / float(s["n"]) for i in range(s["n"])] + [s["hi"]]

def nbins(s):
    k = s["k"]
    if k in ("bin", "split"):
        return len(edges_of(s)) - 1 + flag(s["u"]) + flag(s["o"]) + flag(s["nan"])
    if k == "intbin":
        return s["hi"] - s["lo"] + 1 + flag(s["u"]) + flag(s["o"])
    return 2

def ref_index(s, v):
    """stored bin index of value v on a fixed axis, or None if it is dropped"""
    k = s["k"]
    if k == "cut":
        return 1 if v else 0
    if k == "intbin":
        v = int(v)
        if v < s["lo"]:
            return 0 if s["u"] else None
        if v > s["hi"]:
            return s["hi"] - s["lo"] + 1 + flag(s["u"]) if s["o"] else None
        return v - s["lo"] + flag(s["u"])
    e = edges_of(s)
    nf = len(e) - 1
    v = float(v)
    if v != v:
        return nf + flag(s["u"]) + flag(s["o"]) if s["nan"] else None
    if (v < e[0]) if s["cl"] else (v <= e[0]):
        return 0 if s["u"] else None
    if (v >= e[-1]) if s["cl"] else (v > e[-1]):
        return nf + flag(s["u"]) if s["o"] else None
    for i in range(nf):
        if (e[i] <= v < e[i + 1]) if s["cl"] else (e[i] < v <= e[i + 1]):
            return i + flag(s["u"])
    raise AssertionError((s, v))

def ref_allowed(s, v):
    """set of allowed indexes; values within rounding error of an edge may go to either side"""
    out = set([ref_index(s, v)])
    if s["k"] == "bin" and v == v and abs(v) != inf:
        e = edges_of(s)
        eps = 1e-12 * (max(abs(e[0]), abs(e[-1]), abs(v)) + (e[-1] - e[0]))
        if any(abs(v - x) <= eps for x in e) and not s.get("exact"):
            out.add(ref_index(s, v - 2*eps))
            out.add(ref_index(s, v + 2*eps))
    return out

def ref_group(s, v):
    """group key of value v; None if dropped"""
    if s["k"] == "groupby":
        return v
    v = float(v)
    if v != v:
        return "NaN" if s["nan"] else None
    if abs(v) == inf:
        return v
    t = (v - s["org"]) / s["w"]
    k = math.floor(t) if s["cl"] else math.ceil(t) - 1
    return float(k * s["w"] + s["org"])

################################################################ expressions

ENV = {"abs": abs, "max": max, "min": min, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "exp": math.exp, "floor": math.floor, "ceil": math.ceil,
       "where": lambda c, a, b: a if c else b, "pi": math.pi, "e": math.e, "arctan2": math.atan2, "hypot": math.hypot, "log": math.log, "tanh": math.tanh, "pow": pow}

def _sq(x):
    return math.sqrt(x) if x >= 0 else nan

def ev(expr, row, defs=None):
    env = dict(ENV)
    env["sqrt"] = _sq
    if defs:
        for n, x in defs.items():
            env[n] = ev(x, row) if isinstance(x, str) else x
    env.update(row)
    return eval(expr, {"__builtins__": {}}, env)

################################################################ data

def arr(col):
    return numpy.array(col["v"], dtype=col["dt"])

def arrays(data):
    return dict((n, arr(c)) for n, c in data.items())

def rows(data):
    n = max([len(c["v"]) for c in data.values()] or [0])
    out = []
    for i in range(n):
        r = {}
        for name, c in data.items():
            v = c["v"][i]
            if c["dt"].startswith("f"):
                v = float(v)
            elif c["dt"] == "bool":
                v = bool(v)
            r[name] = v
        out.append(r)
    return out

################################################################ reference contents: {(group keys..., bin indexes...): [columns]}

class Cells(object):
    """expected contents"""
    def __init__(self, ncol):
        self.ncol = ncol
        self.cells = {}
        self.combos = set()            # group key prefixes that occur
        self.levels = {}               # group level -> values that occur

def weighted(h):
    return h.get("weight") is not None or h.get("filter") is not None

def ncols(h):
    return 2*len(order(h["axes"])[2]) + (2 if weighted(h) else 1)

def ref_fill(h, rws, into=None):
    g, f, p = order(h["axes"])
    defs = h.get("defs")
    out = into if into is not None else Cells(ncols(h))
    for r in rws:
        key = []
        ok = True
        for j, s in enumerate(g):
            k = ref_group(s, ev(s["e"], r, defs))
            if k is None:
                ok = False
                continue
            out.levels.setdefault(j, set()).add(k)
            if ok:
                key.append(k)
                out.combos.add(tuple(key))
        if not ok:
            continue
        for s in f:
            i = ref_index(s, ev(s["e"], r, defs))
            if i is None:
                ok = False
                break
            key.append(i)
        if not ok:
            continue
        w = 1.0
        if h.get("weight") is not None:
            w = h["weight"] if not isinstance(h["weight"], str) else ev(h["weight"], r, defs)
            w = float(w)
        if h.get("filter") is not None:
            w = w if ev(h["filter"], r, defs) else 0.0
        if w != w:
            w = 0.0
        cols = []
        for s in p:
            x = float(ev(s["e"], r, defs))
            cols += [w*x, w*x*x]
        cols.append(w)
        if weighted(h):
            cols.append(w*w)
        cell = out.cells.setdefault(tuple(key), [0.0]*out.ncol)
        for i, x in enumerate(cols):
            cell[i] += x
    return out

################################################################ observing the real object

def columns_of(hist):
    idx = []
    for p in hist._profile:
        idx += [p._sumwxindex, p._sumwx2index]
    idx.append(hist._sumwindex)
    if hist._weightparsed is not None:
        idx.append(hist._sumw2index)
    return idx

def leaves(hist):
    """[(group key path, array)]"""
    out = []
    def walk(path, node):
        if node is None:
            return
        if isinstance(node, dict):
            for n in node:
                walk(path + (n,), node[n])
        else:
            out.append((path, node))
    walk((), hist._content)
    return out

def cells_of(hist, check_shape=True):
    """nonzero cells {(groups..., indexes...): [columns]}; also checks that the shape matches the axes"""
    out = {}
    cols = columns_of(hist)
    for path, a in leaves(hist):
        if check_shape:
            want = tuple(x.totbins for x in hist._fixed)
            if tuple(a.shape[:-1]) != want or a.shape[-1] != len(cols):
                raise Violation("contents of shape {0} do not match axes {1} with {2} columns".format(a.shape, want, len(cols)))
            if len(path) != len(hist._group):
                raise Violation("contents have {0} levels of groups, axes have {1}".format(len(path), len(hist._group)))
        flat = a.reshape((-1, a.shape[-1]))[:, cols].tolist()
        shp = a.shape[:-1]
        for i, vals in enumerate(flat):
            if any(v != 0 for v in vals):
                idx = []
                k = i
                for n in reversed(shp):
                    idx.append(k % n)
                    k //= n
                out[tuple(norm(x) for x in path) + tuple(reversed(idx))] = vals
    return out

def norm(k):
    if isinstance(k, numpy.generic):
        k = k.item()
    if isinstance(k, float) and k == 0:
        return 0.0
    return k

class Violation(Exception):
    pass

def close(a, b, tol=1e-9):
    if a == b or (a != a and b != b):
        return True
    if a != a or b != b or abs(a) == inf or abs(b) == inf:
        return False
    return abs(a - b) <= tol*(1 + abs(a) + abs(b))

def nonzero(cells):
    return dict((tuple(norm(x) for x in k), v) for k, v in cells.items() if any(x != 0 for x in v))

def same_cells(got, want, what=""):
    got, want = nonzero(got), nonzero(want)
    if set(got) != set(want):
        # tolerate cells that are zero within rounding
        for k in set(got) ^ set(want):
            vals = got.get(k) or want.get(k)
            if any(not close(x, 0.0) for x in vals):
                raise Violation("{0}: cell {1} is {2}, expected {3}".format(what, k, got.get(k), want.get(k)))
    for k in want:
        if k in got:
            if len(got[k]) != len(want[k]) or any(not close(x, y) for x, y in zip(got[k], want[k])):
                raise Violation("{0}: cell {1} holds {2}, expected {3}".format(what, k, got[k], want[k]))

def check_groups(hist, ref, what=""):
    """group keys: only values that occur, and all combinations that occur"""
    if len(hist._group) == 0 or hist._content is None:
        return
    have = set()
    def walk(path, node):
        if isinstance(node, dict):
            for n in node:
                k = norm(n)
                if len(path) in ref.levels:
                    if k not in ref.levels[len(path)]:
                        raise Violation("{0}: group {1} was never filled".format(what, path + (k,)))
                else:
                    raise Violation("{0}: group {1} was never filled".format(what, path + (k,)))
                have.add(path + (k,))
                walk(path + (k,), node[n])
    walk((), hist._content)
    missing = set(tuple(norm(x) for x in c) for c in ref.combos) - have
    if missing:
        raise Violation("{0}: groups {1} are missing".format(what, sorted(missing, key=repr)))

def check_hist(hist, ref, what=""):
    same_cells(cells_of(hist), ref.cells, what)
    check_groups(hist, ref, what)

################################################################ labels

def label(x):
    if isinstance(x, histbook.axis.IntervalNaN):
        return "NaN"
    if isinstance(x, histbook.axis.Interval):
        return ("I", x.low, x.high, x.closedlow, x.closedhigh)
    return norm(x)

def contains(lab, v):
    """does the displayed bin contain v?"""
    if lab == "NaN":
        return isnan(v)
    if isinstance(lab, tuple):
        _, lo, hi, cl, ch = lab
        if v != v:
            return False
        return (v >= lo if cl else v > lo) and (v <= hi if ch else v < hi)
    return v == lab

def near(lab, v, eps):
    if not isinstance(lab, tuple) or v != v or abs(v) == inf:
        return False
    return abs(v - lab[1]) <= eps or abs(v - lab[2]) <= eps

################################################################ random generation

QUART = [x / 4.0 for x in range(-16, 29)]

def gen_flags(rng):
    return dict((n, bool(rng.randrange(2))) for n in ("u", "o", "nan", "cl"))

def gen_axis(rng, kind, expr, allflow=False):
    if kind == "bin":
        fl = gen_flags(rng)
        if allflow:
            fl.update(u=True, o=True, nan=True)
        n = rng.randrange(1, 5)
        w = rng.choice([0.25, 0.5, 1.0, 2.0])
        lo = float(rng.randrange(-3, 3))
        return dict(k="bin", e=expr, n=n, lo=lo, hi=lo + n*w, **fl)
    if kind == "split":
        fl = gen_flags(rng)
        if allflow:
            fl.update(u=True, o=True, nan=True)
        ne = rng.randrange(1, 5)
        edges = rng.sample([x / 2.0 for x in range(-6, 9)], ne)
        if ne == 1 and not (fl["u"] or fl["o"] or fl["nan"]):
            fl["u"] = True
        return dict(k="split", e=expr, edges=sorted(edges), **fl)
    if kind == "intbin":
        lo = rng.randrange(-3, 3)
        return dict(k="intbin", e=expr, lo=lo, hi=lo + rng.randrange(0, 4), u=allflow or bool(rng.randrange(2)), o=allflow or bool(rng.randrange(2)))
    if kind == "cut":
        return dict(k="cut", e=expr)
    if kind == "groupby":
        return dict(k="groupby", e=expr)
    if kind == "groupbin":
        return dict(k="groupbin", e=expr, w=rng.choice([0.5, 1.0, 2.0]), org=rng.choice([0.0, 0.25, -1.0, 0.5, 1.5]), nan=allflow or bool(rng.randrange(2)), cl=bool(rng.randrange(2)))
    if kind == "profile":
        return dict(k="profile", e=expr)
    raise AssertionError(kind)

FLOATS = ["x", "y", "z"]
FEXPR = ["x", "y", "z", "x + y", "x - y", "2*x", "x*y", "y/2", "x + 1", "-z", "x*x", "z - 0.5"]
IEXPR = ["i", "j", "i + j", "2*i", "j - 1"]
CEXPR = ["p", "q", "x < 1", "y >= 0.5", "not p", "p and q", "x < y", "i == 1", "p or x > 1"]

def gen_axes(rng, maxfixed=3, maxgroup=2, maxprof=2, allflow=False, minaxes=1, distinct=True):
    axes = []
    used = set()
    def pick(pool):
        for _ in range(20):
            e = rng.choice(pool)
            if not distinct or e not in used:
                used.add(e)
                return e
        return None
    for _ in range(rng.randrange(0, maxfixed + 1)):
        k = rng.choice(["bin", "bin", "split", "intbin", "cut"])
        e = pick({"bin": FEXPR, "split": FEXPR, "intbin": IEXPR, "cut": CEXPR}[k])
        if e is not None:
            axes.append(gen_axis(rng, k, e, allflow))
    for _ in range(rng.randrange(0, maxgroup + 1)):
        k = rng.choice(["groupby", "groupbin"])
        e = pick({"groupby": ["g", "s", "k"], "groupbin": FEXPR}[k])
        if e is not None:
            axes.append(gen_axis(rng, k, e, allflow))
    for _ in range(rng.randrange(0, maxprof + 1)):
        e = pick(["a", "b", "a + b", "2*a", "a*b", "a - 1"])
        if e is not None:
            axes.append(dict(k="profile", e=e))
    rng.shuffle(axes)
    if len(axes) < minaxes:
        axes.append(gen_axis(rng, "bin", "x", allflow))
    return axes

def gen_hist(rng, w=True, **kw):
    h = dict(axes=gen_axes(rng, **kw))
    if w:
        r = rng.randrange(8)
        if r == 0:
            h["weight"] = rng.choice([2, 0.5, -1.5, 3])
        elif r in (1, 2):
            h["weight"] = rng.choice(["w", "2*w", "w + 1", "w*w"])
        if rng.randrange(5) == 0:
            h["filter"] = rng.choice(["x < 1", "p and p", "not q", "y > 0.5 and p", "i != 1"])
    return h

def hints():
    """numbers and words that occur in the source under test: a case that singles one out is worth trying"""
    import ast, glob, os
    nums, words = set(), set(["", "NaN", "nan", "None", "a b", "x/y", "0", "-1"])
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(histbook.__file__)), "**", "*.py"), recursive=True)):
        if os.path.basename(f) in ("vega.py", "export.py", "version.py"):
            continue
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except Exception:
            continue
        for n in ast.walk(tree):
            v = getattr(n, "value", None) if n.__class__.__name__ == "Constant" else getattr(n, "n", None)
            if isinstance(v, bool):
                continue
            if isinstance(v, (int, float)) and abs(v) <= 4096 and v*8 == int(v*8):
                nums.update([float(v), v - 1.0, v + 1.0, float(-v), v + 0.25, v - 0.25])
            elif isinstance(v, str) and 0 < len(v) <= 10 and v.replace("_", "").isalnum():
                words.add(v)
    return sorted(nums), sorted(words)

HINTS = None
LONG = [17, 31, 33, 64, 65, 100, 129, 257, 1025]

def size(rng, xs):
    """number of entries: mostly small"""
    return rng.choice(LONG) if rng.randrange(60) == 0 else rng.choice(xs)

def gen_data(rng, n, nans=True):
    d = {}
    for name in FLOATS:
        v = [rng.choice(QUART) for _ in range(n)]
        if nans:
            for i in range(n):
                r = rng.randrange(24)
                if r == 0:
                    v[i] = nan
                elif r == 1:
                    v[i] = rng.choice([inf, -inf, 1e30, -1e30])
        d[name] = dict(dt="f8", v=v)
    for name in ("a", "b"):
        d[name] = dict(dt="f8", v=[rng.choice(QUART) for _ in range(n)])
    d["w"] = dict(dt="f8", v=[rng.choice(QUART[8:]) for _ in range(n)])
    for name in ("i", "j"):
        d[name] = dict(dt=rng.choice(["i8", "i4", "i8"]), v=[rng.randrange(-5, 7) for _ in range(n)])
    for name in ("p", "q"):
        d[name] = dict(dt="bool", v=[bool(rng.randrange(2)) for _ in range(n)])
    d["g"] = dict(dt="U4", v=[rng.choice(["one", "two", "abc", "zz"]) for _ in range(n)])
    d["s"] = dict(dt="U2", v=[rng.choice(["A", "B"]) for _ in range(n)])
    d["k"] = dict(dt="i8", v=[rng.randrange(3) for _ in range(n)])
    r = rng.randrange(6)
    if r == 0 and n > 0:
        # values singled out by the source
        global HINTS
        if HINTS is None:
            HINTS = hints()
        nums, words = HINTS
        for name in FLOATS + ["a", "b", "w"]:
            for q in range(n):
                if rng.randrange(8) == 0:
                    x = rng.choice(nums)
                    if name != "w" or 0 <= x <= 64:
                        d[name]["v"][q] = x
        for name in ("i", "j", "k"):
            for q in range(n):
                if rng.randrange(8) == 0:
                    d[name]["v"][q] = int(rng.choice(nums))
        for name in ("g", "s"):
            d[name]["dt"] = "U10"
            for q in range(n):
                if rng.randrange(3) == 0:
                    d[name]["v"][q] = rng.choice(words)
    elif r == 1 and n > 8:
        # many groups
        m = min(2*n, 50)
        for name in ("g", "s"):
            d[name] = dict(dt="U6", v=["k%d" % rng.randrange(m) for _ in range(n)])
        d["k"]["v"] = [rng.randrange(m) for _ in range(n)]
    return d

def bad_rows(h, rws):
    """rows with undefined (nan from inf-inf) intermediate are fine; rows outside the contract's precondition are removed by the caller"""
    return rws

def fill(hist, data):
    with numpy.errstate(all="ignore"):
        hist.fill(arrays(data))

def split_data(data, cuts):
    out = []
    last = 0
    n = max([len(c["v"]) for c in data.values()] or [0])
    for c in list(cuts) + [n]:
        out.append(dict((k, dict(dt=x["dt"], v=x["v"][last:c])) for k, x in data.items()))
        last = c
    return out
