"""Executable contracts: axes and filling (C01-C06, C22)."""
import numpy
from ref import *

SPECIAL = [inf, -inf, nan, 1e30, -1e30, 1e300, -1e300, 0.0, -0.0, 3e9, -3e9, 2147483648.0, -2147483649.0]

def _landed(axis_spec, col, extra=None):
    """fill one axis with pow2 weights; returns (hist, [bin index or None for each entry])"""
    n = len(col["v"])
    h = histbook.hist.Hist(build_axis(axis_spec), weight="w")
    with numpy.errstate(all="ignore"):
        h.fill({axis_spec["e"]: arr(col), "w": numpy.array([2.0**i for i in range(n)])})
    content = h._content[:, h._sumwindex].tolist()
    where = [None]*n
    for b, tot in enumerate(content):
        tot = int(tot)
        for i in range(n):
            if (tot >> i) & 1:
                if where[i] is not None:
                    raise Violation("value {0!r} counted in two bins {1} and {2}".format(col["v"][i], where[i], b))
                where[i] = b
    return h, where

def _run_axis(case):
    s, col = case["axis"], case["col"]
    h, where = _landed(s, col)
    axis = h.axis[0]
    keys = [label(x) for x in axis.keys()]
    if len(keys) != h._content.shape[0] or len(keys) != axis.totbins or len(keys) != nbins(s):
        raise Violation("{0} displayed bins, {1} stored, totbins {2}, expected {3}".format(len(keys), h._content.shape[0], axis.totbins, nbins(s)))
    for v, b in zip(col["v"], where):
        if col["dt"].startswith("f"):
            v = float(numpy.array(v, dtype=col["dt"]))
        allowed = ref_allowed(s, v)
        if b not in allowed:
            raise Violation("value {0!r} on {1!r} is counted in bin {2}, expected {3}".format(v, axis, b if b is None else (b, keys[b]), sorted(allowed, key=repr)))
        if s["k"] == "cut":
            shown = [i for i, k in enumerate(keys) if k == bool(v)]
        elif s["k"] == "intbin":
            shown = [i for i, k in enumerate(keys) if contains(k, int(v))]
        else:
            shown = [i for i, k in enumerate(keys) if contains(k, v)]
        if len(allowed) == 1 and shown != ([] if b is None else [b]):
            if not any(near(k, v, 1e-9*(1 + abs(v))) for k in keys) or s.get("exact") or s["k"] != "bin":
                raise Violation("value {0!r} is counted in bin {1} but displayed bins {2} contain it".format(v, b, [keys[i] for i in shown]))

def gen_C01(rng):
    s = gen_axis(rng, "bin", "x")
    if rng.randrange(3) == 0:
        s["lo"] = rng.uniform(-10, 10)
        s["hi"] = s["lo"] + rng.choice([0.3, 1.0, 7.7, 100.0, 1e-3, 1e6])
        s["n"] = rng.choice([1, 2, 3, 7, 10, 100, 1000])
    elif rng.randrange(12) == 0 and (s["u"] or s["o"] or s["nan"]):
        s["n"] = 0
        s["hi"] = s["lo"]
        s["exact"] = True
    else:
        s["exact"] = True
    e = edges_of(s)
    pool = SPECIAL + [rng.choice(e) for _ in range(6)] + [rng.uniform(e[0] - 1, e[-1] + 1) for _ in range(10)] + [e[0] - 1, e[-1] + 1, (e[0] + e[-1])/2, e[0], e[-1]]
    dt = rng.choice(["f8", "f8", "f8", "i8"])
    n = rng.choice([0, 1, 3, 20, 30])
    if dt == "i8":
        vals = [rng.choice([0, 1, -1, 2, 3, 10**12, -10**12, 2**31, -2**31 - 1, 2**40]) for _ in range(n)]
    else:
        vals = [rng.choice(pool) for _ in range(n)]
    return dict(axis=s, col=dict(dt=dt, v=vals))

def gen_C02(rng):
    s = gen_axis(rng, "split", "x")
    if rng.randrange(3) == 0:
        s["edges"] = sorted(set(rng.uniform(-5, 5) for _ in range(rng.randrange(1, 7))))
    if rng.randrange(3) == 0:
        s["edges"] = list(s["edges"])
        rng.shuffle(s["edges"])
    if len(s["edges"]) == 1 and not (s["u"] or s["o"] or s["nan"]):
        s["o"] = True
    e = sorted(s["edges"])
    pool = SPECIAL + [rng.choice(e) for _ in range(12)] + [rng.uniform(e[0] - 1, e[-1] + 1) for _ in range(8)] + [e[0] - 1, e[-1] + 1, e[0], e[-1]]
    return dict(axis=s, col=dict(dt="f8", v=[rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 25]))]))

BOUNDS = {"i8": (-2**63, 2**63 - 1), "i4": (-2**31, 2**31 - 1), "i2": (-2**15, 2**15 - 1), "i1": (-128, 127), "u1": (0, 255), "u2": (0, 65535), "u4": (0, 2**32 - 1)}

def gen_C03(rng):
    if rng.randrange(4) == 0:
        s = dict(k="cut", e="x")
        return dict(axis=s, col=dict(dt="bool", v=[bool(rng.randrange(2)) for _ in range(rng.choice([0, 1, 5, 20]))]))
    s = gen_axis(rng, "intbin", "x")
    if rng.randrange(4) == 0:
        s["lo"] = rng.choice([-100, -128, 0, 100, -1000, 2**31 - 5, -2**31, 10**12, 2**40])
        s["hi"] = s["lo"] + rng.choice([0, 1, 5, 120, 226, 255])
    dt = rng.choice(["i8", "i8", "i4", "i2", "i1", "u1", "u2", "u4"])
    lo, hi = BOUNDS[dt]
    pool = [lo, hi, 0, 1, -1, s["lo"], s["lo"] - 1, s["lo"] + 1, s["hi"], s["hi"] + 1, s["hi"] - 1, 2**32, 2**32 + 1, -2**32, 2**31, 2**31 - 1, -2**31 - 1, 10**15, 2**33 + s["lo"], s["lo"] - 2**32, s["hi"] + 2**32,
            2**62, -2**62, 2**16 + s["lo"], 2**16, -2**16, s["lo"] - 256, s["hi"] + 256]
    pool = [v for v in pool if lo <= v <= hi] or [lo]
    vals = [rng.choice(pool) if rng.randrange(3) else max(lo, min(hi, rng.randrange(s["lo"] - 3, s["hi"] + 4))) for _ in range(rng.choice([0, 1, 4, 25]))]
    return dict(axis=s, col=dict(dt=dt, v=vals))

run_C01 = run_C02 = run_C03 = _run_axis

################################################################ C04

def gen_C04(rng):
    n = rng.choice([0, 1, 4, 12, 25, 40])
    if rng.randrange(2):
        s = dict(k="groupby", e="x")
        dt = rng.choice(["U3", "i8", "f8", "bool", "S3"])
        if dt == "U3":
            v = [rng.choice(["a", "b", "abc", "", "A", "ab"]) for _ in range(n)]
        elif dt == "S3":
            v = [rng.choice(["a", "b", "abc", "A", "ab"]) for _ in range(n)]
        elif dt == "i8":
            v = [rng.choice([0, 1, -1, 2**40, 7, 3]) for _ in range(n)]
        elif dt == "f8":
            v = [rng.choice([0.0, 1.5, -1.0, inf, -inf, 2.25]) for _ in range(n)]
        else:
            v = [bool(rng.randrange(2)) for _ in range(n)]
        return dict(axis=s, col=dict(dt=dt, v=v))
    s = gen_axis(rng, "groupbin", "x")
    if rng.randrange(3) == 0:
        s["w"] = rng.choice([0.1, 3.0, 0.7, 10.0])
        s["org"] = rng.choice([0.0, 0.3, -2.0])
        v = [rng.choice([rng.uniform(-20, 20), nan, rng.uniform(-20, 20)]) for _ in range(n)]
    else:
        s["exact"] = True
        pool = QUART + [nan, nan, s["org"], s["org"] + s["w"], s["org"] - 2*s["w"], 100.0]
        v = [rng.choice(pool) for _ in range(n)]
    dt = "f8"
    if rng.randrange(6) == 0:
        dt = "i8"
        v = [rng.randrange(-6, 7) for _ in range(n)]
    return dict(axis=s, col=dict(dt=dt, v=v))

def run_C04(case):
    s, col = case["axis"], case["col"]
    n = len(col["v"])
    h = histbook.hist.Hist(build_axis(s), weight="w")
    h.fill(x=arr(col), w=numpy.array([2.0**i for i in range(n)]))
    content = h._content
    axis = h.axis[0]
    items = axis.items(content)
    keys = list(axis.keys(content))
    if len(items) != len(content) or len(keys) != len(content):
        raise Violation("axis lists {0} keys and {1} items of {2} groups".format(len(keys), len(items), len(content)))
    where = [[] for _ in range(n)]
    for (k, c), k2 in zip(items, keys):
        if label(k) != label(k2):
            raise Violation("keys and items disagree: {0} {1}".format(k, k2))
        tot = int(c[h._sumwindex])
        if tot == 0:
            raise Violation("group {0} exists but no entry has it".format(k))
        for i in range(n):
            if (tot >> i) & 1:
                where[i].append(label(k))
    vals = arr(col).tolist() if s["k"] == "groupby" else [float(v) for v in col["v"]]
    for v, w in zip(vals, where):
        if s["k"] == "groupby":
            if w != [v]:
                raise Violation("value {0!r} is in groups {1}".format(v, w))
        else:
            if v != v:
                if w != (["NaN"] if s["nan"] else []):
                    raise Violation("NaN is in groups {0} (nanflow={1})".format(w, s["nan"]))
                continue
            if len(w) != 1:
                raise Violation("value {0!r} is in groups {1}".format(v, w))
            lab = w[0]
            if lab == "NaN":
                raise Violation("value {0!r} is in the NaN group".format(v))
            if not close(lab[2] - lab[1], s["w"]) or lab[3] != s["cl"] or lab[4] == s["cl"]:
                raise Violation("value {0!r} is in group {1} on {2!r}".format(v, lab, axis))
            k = (lab[1] - s["org"])/s["w"]
            if abs(k - round(k)) > 1e-6:
                raise Violation("group {0} is not aligned with the origin of {1!r}".format(lab, axis))
            if not contains(lab, v) and not (not s.get("exact") and near(lab, v, 1e-9)):
                raise Violation("value {0!r} is in group {1}".format(v, lab))
            if s.get("exact") and lab[1] != ref_group(s, v):
                raise Violation("value {0!r} is in group {1}, expected low edge {2}".format(v, lab, ref_group(s, v)))
    if len(set(label(k) for k in keys)) != len(keys):
        raise Violation("two groups have the same label: {0}".format(keys))

################################################################ C05, C06

def gen_C05(rng):
    h = gen_hist(rng)
    h.pop("filter", None) if rng.randrange(2) else None
    n = size(rng, [0, 1, 2, 5, 10, 14])
    data = gen_data(rng, n, nans=rng.randrange(2) == 0)
    cuts = sorted(rng.randrange(0, n + 1) for _ in range(rng.choice([0, 0, 1, 2, 3])))
    return dict(hist=h, data=data, cuts=cuts)

def clean(h, data):
    """precondition: finite weights are not required, profile values are finite; inf-inf etc. in axis expressions are allowed"""
    return data

def run_C05(case):
    h, data, cuts = case["hist"], case["data"], case["cuts"]
    hist = build_hist(h)
    ref = Cells(ncols(h))
    for part in split_data(data, cuts):
        fill(hist, part)
        ref_fill(h, rows(part), ref)
        check_hist(hist, ref, "after a batch")
    one = build_hist(h)
    fill(one, data)
    same_cells(cells_of(hist), cells_of(one), "batches against one fill")

def gen_C06(rng):
    h = gen_hist(rng, w=False, maxfixed=2, maxgroup=1, maxprof=2)
    r = rng.randrange(4)
    if r == 0:
        h["weight"] = rng.choice([2, 0.5, -1.5, 3, 0, 1, True] if False else [2, 0.5, -1.5, 3, 0, 1])
    elif r >= 2:
        h["weight"] = rng.choice(["w", "2*w", "w + 1", "w*w", "v", "v*2", "v + w", "where(p, w, 0)", "1", "2.5", "w/2"])
    if r == 1 or rng.randrange(3) == 0:
        h["filter"] = rng.choice(["x < 1", "p and p", "not q", "y > 0.5 and p", "i != 1", "p or q", "not (x < 1)" if False else "x <= 1", "i in {1, 2}", "i not in {0, 3}", "-1 < x < 1", "True"])
    n = size(rng, [0, 1, 3, 8, 14])
    data = gen_data(rng, n, nans=False)
    data["v"] = dict(dt="f8", v=[rng.choice([nan, nan, 1.0, 2.5, -0.5, 0.0]) for _ in range(n)])
    return dict(hist=h, data=data, cuts=sorted(rng.randrange(0, n + 1) for _ in range(rng.choice([0, 0, 1]))))

def run_C06(case):
    run_C05(case)
    h, data = case["hist"], case["data"]
    if h.get("filter") is not None:
        # a filter is the same as filling only the entries that pass
        rws = rows(data)
        keep = [i for i, r in enumerate(rws) if ev(h["filter"], r)]
        part = dict((k, dict(dt=c["dt"], v=[c["v"][i] for i in keep])) for k, c in data.items())
        a, b = build_hist(h), build_hist(dict(h, filter=None, weight=1 if h.get("weight") is None else h["weight"]))
        fill(a, data)
        fill(b, part)
        same_cells(cells_of(a), cells_of(b), "filter against filtered data")

################################################################ C22

def gen_C22(rng):
    nh = rng.choice([1, 1, 2, 3])
    hs = [gen_hist(rng, maxfixed=2, maxgroup=1, maxprof=2) for _ in range(nh)]
    steps = []
    for _ in range(rng.randrange(2, 5)):
        n = size(rng, [1, 2, 5])
        data = gen_data(rng, n, nans=False)
        kind = rng.choice(["ok", "missing", "length", "scalar"])
        steps.append(dict(kind=kind, data=data, n=n, pick=rng.randrange(1000), delta=rng.choice([1, 2, -1]), sv=rng.choice([0.5, 1.0, 2.0])))
    steps.append(dict(kind="ok", data=gen_data(rng, 3, nans=False), n=3, pick=0, delta=1, sv=1.0))
    return dict(hists=hs, book=nh > 1, steps=steps)

def run_C22(case):
    hists = [build_hist(h) for h in case["hists"]]
    refs = [Cells(ncols(h)) for h in case["hists"]]
    target = histbook.book.Book(dict(("h%d" % i, x) for i, x in enumerate(hists))) if case["book"] else hists[0]
    for step in case["steps"]:
        fields = [f for f in target.fields]
        arrs = arrays(step["data"])
        data = dict(step["data"])
        kind = step["kind"]
        if len(fields) == 0:
            continue
        name = fields[step["pick"] % len(fields)]
        if kind == "missing":
            del arrs[name]
        elif kind == "length":
            if len(fields) < 2:
                continue
            m = step["n"] + step["delta"]
            if m < 0:
                m = step["n"] + 1
            arrs[name] = numpy.resize(arrs[name], m) if step["n"] else arrs[name]
        elif kind == "scalar":
            if len(fields) < 2 or data[name]["dt"] != "f8":
                kind = "ok"
            else:
                arrs[name] = step["sv"]
                data[name] = dict(dt="f8", v=[step["sv"]]*step["n"])
        before = [cells_of(x) for x in hists]
        keys = [sorted(map(repr, [p for p, a in leaves(x)])) for x in hists]
        if kind in ("missing", "length"):
            try:
                with numpy.errstate(all="ignore"):
                    target.fill(arrs)
            except ValueError:
                pass
            else:
                raise Violation("fill with {0} {1!r} was accepted".format("no" if kind == "missing" else "wrong length of", name))
            for x, b, k in zip(hists, before, keys):
                same_cells(cells_of(x), b, "after a rejected fill")
                if [q for q in sorted(map(repr, [p for p, a in leaves(x)])) if q not in k and q != "()"]:
                    raise Violation("a rejected fill created groups")
        else:
            with numpy.errstate(all="ignore"):
                target.fill(arrs)
            for h, r in zip(case["hists"], refs):
                ref_fill(h, rows(data), r)
            for x, r in zip(hists, refs):
                check_hist(x, r, "after a valid fill following {0}".format([s["kind"] for s in case["steps"]]))
