"""Executable contracts: books (C09, C19) and persistence (C18)."""
import collections
import fnmatch
import json
import pickle
import numpy
from ref import *
from p_hist import gen_tree, build_tree, tree_hists, snapshot, refcells

################################################################ C09

def gen_small(rng):
    return gen_hist(rng, maxfixed=2, maxgroup=1, maxprof=1)

def gen_C09(rng):
    kind = rng.choice(["book", "book", "book", "book", "samples", "channels", "syst"])
    nh = rng.randrange(1, 5)
    hs = [gen_small(rng) for _ in range(nh)]
    if rng.randrange(2):
        # share expressions
        for h in hs[1:]:
            if rng.randrange(2):
                h["axes"] = [dict(s) for s in hs[0]["axes"]]
    if rng.randrange(3) == 0:
        for h in hs:
            h["defs"] = {"dd": "x + y"}
            h["axes"] = h["axes"] + [dict(k="bin", e="dd*2", n=2, lo=-1.0, hi=3.0, u=True, o=True, nan=True, cl=True)]
    steps = []
    paths = ["a", "b", "c", "d/e", "d/f", "g/h/i"]
    for _ in range(rng.randrange(2, 7)):
        k = rng.choice(["fill", "fill", "fill", "set", "del", "setin", "delin", "alone", "swap"])
        st = dict(k=k, path=rng.choice(paths), pick=rng.randrange(1000))
        if k in ("fill", "alone"):
            st["data"] = gen_data(rng, size(rng, [0, 1, 3, 5]), nans=False)
            st["scalar"] = rng.randrange(6) == 0
        if k in ("set", "setin", "swap"):
            st["hist"] = gen_small(rng)
        steps.append(st)
    steps.append(dict(k="fill", path="", pick=0, data=gen_data(rng, 3, nans=False), scalar=False))
    return dict(kind=kind, hists=hs, paths=rng.sample(paths, nh), steps=steps, pattern=rng.choice(["*", "s1/*", "*a", "s?/*"]))

def run_C09(case):
    kind = case["kind"]
    B = histbook.book.Book
    specs = {}            # path -> (hist, spec, cells)
    if kind == "book":
        top = B()
        for p, h in zip(case["paths"], case["hists"]):
            top[p] = build_hist(h)
            specs[p] = (top[p], h, Cells(ncols(h)))
        target = top
    elif kind == "syst":
        h = case["hists"][0]
        top = histbook.book.SystematicsBook()
        for i in range(3):
            x = build_hist(h)
            x = x.systematic((i,)) if i else build_hist(h).attach("systematic", (0,))
            top["v%d" % i] = x
            specs["v%d" % i] = (x, h, Cells(ncols(h)))
        target = top
    elif kind == "samples":
        inner = dict((p, build_hist(h)) for p, h in zip(case["paths"], case["hists"]))
        top = histbook.book.SamplesBook(["s1", "s2", "t1"], inner)
        for s in ("s1", "s2", "t1"):
            for p, h in zip(case["paths"], case["hists"]):
                specs[s + "/" + p] = (top[s + "/" + p], h, Cells(ncols(h)))
        target = None
    else:
        top = histbook.book.ChannelsBook()
        for s in ("s1", "s2"):
            b = B()
            for p, h in zip(case["paths"], case["hists"]):
                b[p] = build_hist(h)
            top[s] = b
            for p, h in zip(case["paths"], case["hists"]):
                specs[s + "/" + p] = (top[s + "/" + p], h, Cells(ncols(h)))
        target = None
    done = []
    for st in case["steps"]:
        k = st["k"]
        done.append(k)
        what = "after {0}".format(done)
        if k in ("fill", "alone"):
            arrs = arrays(st["data"])
            data = st["data"]
            n = len(data["x"]["v"])
            if st["scalar"] and n:
                arrs["x"] = 0.75
                data = dict(data, x=dict(dt="f8", v=[0.75]*n))
            hit = list(specs)
            obj = target
            if k == "alone":
                if not specs:
                    continue
                hit = [sorted(specs)[st["pick"] % len(specs)]]
                obj = specs[hit[0]][0]
            elif target is None:
                pat = case["pattern"]
                hit = [p for p in specs if fnmatch.fnmatchcase(p, pat)]
                if not hit:
                    try:
                        top.view(pat)
                    except ValueError:
                        continue
                    raise Violation("a view of nothing was made")
                obj = top.view(pat)
                got = [q for q in obj.iterkeys(recursive=True, onlyhist=True)]
                if sorted(got) != sorted(hit):
                    raise Violation("view {0} has members {1}, expected {2}".format(pat, got, hit))
            if not any(len(specs[p][0].fields) for p in hit):
                continue
            if k == "alone" and len(obj.fields) == 0:
                continue
            if st["scalar"] and n and len(set(obj.fields) - set(["x"])) == 0:
                # only scalars given: by design that is one entry
                arrs["x"] = numpy.full(n, 0.75)
            # a histogram without fields counts one entry per entry of the others
            with numpy.errstate(all="ignore"):
                if st["pick"] % 2:
                    obj.fill(arrs)
                else:
                    obj.fill(**arrs)
            for p in hit:
                if len(specs[p][0].fields) == 0:
                    continue
                ref_fill(specs[p][1], rows(data), specs[p][2])
        elif kind != "book":
            continue
        elif k in ("set", "swap"):
            path = st["path"]
            if k == "swap" and specs:
                path = sorted(specs)[st["pick"] % len(specs)]
            x = build_hist(st["hist"])
            top[path] = x
            specs[path] = (x, st["hist"], Cells(ncols(st["hist"])))
        elif k == "del":
            if len(specs) < 2:
                continue
            path = sorted(specs)[st["pick"] % len(specs)]
            del top[path]
            del specs[path]
        elif k in ("setin", "delin"):
            # through a reference to the inner book, without telling the outer one
            inner = [n for n, b in top.iteritems(recursive=True) if not isinstance(b, histbook.hist.Hist)]
            if not inner:
                continue
            n = inner[st["pick"] % len(inner)]
            b = top[n]
            if k == "setin":
                x = build_hist(st["hist"])
                b["new"] = x
                specs[n + "/new"] = (x, st["hist"], Cells(ncols(st["hist"])))
            else:
                own = [m for m, y in b.iteritems() if isinstance(y, histbook.hist.Hist)]
                if not own or len(specs) < 2:
                    continue
                del b[own[0]]
                del specs[n + "/" + own[0]]
        for p, (x, h, ref) in specs.items():
            if len(x.fields) == 0:
                continue
            check_hist(x, ref, "histogram {0} {1}".format(p, what))
        if kind == "book":
            want = set()
            for p, (x, h, ref) in specs.items():
                if top[p] is not x:
                    raise Violation("{0} is not the histogram that was assigned".format(p))
                want |= set(x.fields)
            if specs and set(top.fields) != want:
                raise Violation("fields of the book are {0}, expected {1}".format(top.fields, sorted(want)))

################################################################ C18

def gen_C18(rng):
    def one():
        h = gen_hist(rng, maxfixed=3, maxgroup=2, maxprof=2)
        for s in h["axes"]:
            if s["k"] == "groupby":
                s["e"] = rng.choice(["g", "s"])
        seen = []
        h["axes"] = [s for s in h["axes"] if not (s["k"] == "groupby" and (s["e"] in seen or seen.append(s["e"])))]
        if not h["axes"]:
            h["axes"] = [gen_axis(rng, "bin", "x")]
        if rng.randrange(3) == 0:
            h["defs"] = rng.choice([{"dd": "x + y"}, {"dd": "x*2", "cc": 2.5}, {"cc": 3}])
            h["axes"] = h["axes"] + [gen_axis(rng, "bin", "dd + 1" if "dd" in h["defs"] else "cc*x")]
        if rng.randrange(3) == 0:
            h["att"] = rng.choice([{"a": 1}, {"a": [1, 2, "x"], "b": {"c": None}}, {"systematic": [1, 0]}])
        return h
    case = dict(data=gen_data(rng, size(rng, [0, 1, 5, 10]), nans=rng.randrange(2) == 0) if rng.randrange(5) else None, extra=gen_data(rng, 4), how=rng.choice(["json", "pickle", "json"]))
    if rng.randrange(3):
        case["hist"] = one()
    else:
        def tree(d):
            out = []
            for n in rng.sample(["a", "b", "c"], rng.randrange(0 if d < 2 else 1, 3)):
                if d > 0 and rng.randrange(3) == 0:
                    out.append([n, "book", tree(d - 1)])
                else:
                    out.append([n, "hist", one()])
            return out
        case["tree"] = tree(2)
        case["cls"] = rng.choice(["Book", "Book", "Book", "ChannelsBook", "GenericBook", "SamplesBook", "SystematicsBook"])
        if case["cls"] == "SystematicsBook":
            h = one()
            case["tree"] = [[n, "hist", dict(h, att={"systematic": [q]})] for q, n in enumerate(["a", "b", "c"][:rng.randrange(1, 4)])]
        if case["cls"] == "SamplesBook":
            case["tree"] = [x for x in case["tree"] if x[1] == "hist"]
        case["batt"] = rng.choice([{}, {"k": 1}, {"k": [1, {"z": "t"}]}])
    return case

def run_C18(case):
    if "hist" in case:
        A = build_hist(case["hist"])
        pairs = [("", A, case["hist"])]
    else:
        if case["cls"] == "SamplesBook":
            A = histbook.book.SamplesBook(["p", "q"], collections.OrderedDict((n, build_hist(h)) for n, _, h in case["tree"]))
            case = dict(case, tree=[[m, "book", case["tree"]] for m in ("p", "q")])
        else:
            A = build_tree(case["tree"], getattr(histbook.book, case["cls"]))
        for k, v in case["batt"].items():
            A.attach(k, v)
        pairs = [(n, A[n], h) for n, h in tree_hists(case["tree"])]
    # filled as a book, if it can be
    whole = isinstance(A, histbook.book.Book) and len(pairs) > 0 and all(len(x.fields) for n, x, h in pairs)
    if case["data"] is not None:
        for n, x, h in pairs if not whole else [("", A, None)]:
            fill(x, case["data"])
    snaps = [snapshot(x) for n, x, h in pairs]
    if case["how"] == "json":
        obj = json.loads(json.dumps(A.tojson()))
        C = histbook.hist.Hist.fromjson(obj) if "hist" in case else histbook.book.GenericBook.fromjson(obj)
    else:
        C = pickle.loads(pickle.dumps(A))
    if [snapshot(x) for n, x, h in pairs] != snaps:
        raise Violation("writing changed the contents")
    if C.__class__ is not A.__class__:
        raise Violation("a {0} came back as a {1}".format(A.__class__.__name__, C.__class__.__name__))
    nanfree = case["data"] is None or True
    if not (C == A) or C != A:
        finite = all(numpy.isfinite(a).all() for n, x, h in pairs for p, a in leaves(x))
        if finite:
            raise Violation("the object read back differs from the original")
    if "hist" in case:
        back = [("", C, case["hist"])]
    else:
        if [n for n in C.iterkeys(recursive=True)] != [n for n in A.iterkeys(recursive=True)]:
            raise Violation("members read back are {0}, expected {1}".format(C.keys(recursive=True), A.keys(recursive=True)))
        if C.attachment != case["batt"]:
            raise Violation("attachment read back is {0}".format(C.attachment))
        back = [(n, C[n], h) for n, x, h in pairs]
    refs = []
    for (n, x, h), (m, y, h2) in zip(pairs, back):
        for f in ("_weightoriginal", "_filteroriginal", "_defs", "_attachment", "_shape", "_weightparsed", "_filterparsed"):
            if getattr(x, f) != getattr(y, f):
                raise Violation("{0} read back as {1!r}, expected {2!r}".format(f, getattr(y, f), getattr(x, f)))
        if h.get("att", {}) != y.attachment:
            raise Violation("attachment read back as {0}".format(y.attachment))
        if list(x._group + x._fixed + x._profile) != list(y._group + y._fixed + y._profile):
            raise Violation("axes read back as {0}".format(y._group + y._fixed + y._profile))
        for a, b in zip(x._group + x._fixed + x._profile, y._group + y._fixed + y._profile):
            if a._parsed != b._parsed or repr(a) != repr(b):
                raise Violation("axis {0!r} read back as {1!r}".format(a, b))
        if (x._content is None) != (y._content is None):
            raise Violation("unfilled and filled are confused")
        ref = refcells(h, case["data"])
        check_hist(y, ref, "read back")
        if x._fixed != () and [label(k) for k in x._fixed[0].keys()] != [label(k) for k in y._fixed[0].keys()]:
            raise Violation("bins read back differ")
        refs.append(ref)
    if whole:
        fill(C, case["extra"])
    for (n, y, h), ref in zip(back, refs):
        if not whole:
            fill(y, case["extra"])
        if len(y.fields):
            ref_fill(h, rows(case["extra"]), ref)
            check_hist(y, ref, "filled after being read back")
    if [snapshot(x) for n, x, h in pairs] != snaps:
        raise Violation("filling the object read back changed the original")

################################################################ C19

NAMES = ["a", "b", "c", "ab"]

def gen_path(rng):
    return "/".join(rng.choice(NAMES) if rng.randrange(14) else "" for _ in range(rng.choice([1, 1, 2, 2, 3])))

def gen_pattern(rng):
    return rng.choice(["*", "a*", "?", "*/b", "a/*", "[ab]", "[ab]/*", "*b", "a/?", "b/*/c", "*c*", "??", "[!a]*"])

def gen_C19(rng):
    ops = []
    for _ in range(rng.randrange(4, 14)):
        k = rng.choice(["set", "set", "set", "setbook", "del", "del", "get", "wget", "wdel", "list", "in"])
        ops.append(dict(k=k, path=gen_path(rng), pat=gen_pattern(rng), pick=rng.randrange(100)))
    return dict(ops=ops, cls=rng.choice(["Book", "GenericBook", "ChannelsBook", "Book"]), init=[gen_path(rng) for _ in range(rng.randrange(0, 3))])

class M(object):
    """model: ordered tree"""
    def __init__(self):
        self.d = collections.OrderedDict()
    def get(self, path):
        head, _, rest = path.partition("/")
        if not _:
            return self.d.get(head)
        x = self.d.get(head)
        return x.get(rest) if isinstance(x, M) else None
    def set(self, path, v):
        head, s, rest = path.partition("/")
        if not s:
            self.d[head] = v
            return True
        if head not in self.d:
            # assignment below a missing name always succeeds
            self.d[head] = M()
        x = self.d[head]
        return x.set(rest, v) if isinstance(x, M) else False
    def remove(self, path):
        head, s, rest = path.partition("/")
        if not s:
            if head in self.d:
                del self.d[head]
                return True
            return False
        x = self.d.get(head)
        return x.remove(rest) if isinstance(x, M) else False
    def items(self, pre=""):
        out = []
        for n, x in self.d.items():
            out.append((pre + n, x))
            if isinstance(x, M):
                out += x.items(pre + n + "/")
        return out
    def copy(self):
        out = M()
        for n, x in self.d.items():
            out.d[n] = x.copy() if isinstance(x, M) else x
        return out

def run_C19(case):
    cls = getattr(histbook.book, case["cls"])
    count = [0]
    def newhist():
        count[0] += 1
        return histbook.hist.Hist(histbook.axis.bin("x", 2, 0.0, float(count[0])))
    m = M()
    init = collections.OrderedDict()
    for p in case["init"]:
        if p not in init:
            x = newhist()
            if m.copy().set(p, x):
                init[p] = x
                m.set(p, x)
    b = cls(init)
    done = []
    for op in case["ops"]:
        k = op["k"]
        done.append((k, op["pat"] if k in ("wget", "wdel") else op["path"]))
        if k in ("set", "setbook"):
            if k == "set":
                x = v = newhist()
            else:
                x = histbook.book.Book()
                v = M()
                if op["pick"] % 2:
                    y = newhist()
                    x["b"] = y
                    v.set("b", y)
            trial = m.copy()
            if trial.set(op["path"], v):
                b[op["path"]] = x
                m.set(op["path"], v)
            else:
                try:
                    b[op["path"]] = x
                except KeyError:
                    pass
                else:
                    raise Violation("assignment below a histogram was accepted: {0}".format(done))
        elif k == "del":
            if m.get(op["path"]) is not None:
                del b[op["path"]]
                m.remove(op["path"])
            else:
                try:
                    del b[op["path"]]
                except KeyError:
                    pass
                else:
                    raise Violation("deletion of a missing path was accepted: {0}".format(done))
        elif k == "get":
            want = m.get(op["path"])
            try:
                got = b[op["path"]]
            except KeyError:
                if want is not None:
                    raise Violation("{0} is missing: {1}".format(op["path"], done))
            else:
                if want is None:
                    raise Violation("{0} was found but never assigned: {1}".format(op["path"], done))
                if not isinstance(want, M) and got is not want:
                    raise Violation("{0} holds another histogram: {1}".format(op["path"], done))
        elif k == "wget":
            want = [x for n, x in m.items() if fnmatch.fnmatchcase(n, op["pat"])]
            got = b[op["pat"]]
            if len(got) != len(want) or any((y is not x) if not isinstance(x, M) else isinstance(y, histbook.hist.Hist) for x, y in zip(want, got)):
                raise Violation("lookup of {0} gives {1}, expected {2}: {3}".format(op["pat"], len(got), [n for n, x in m.items() if fnmatch.fnmatchcase(n, op["pat"])], done))
        elif k == "wdel":
            del b[op["pat"]]
            for n in [n for n, x in m.items() if fnmatch.fnmatchcase(n, op["pat"])]:
                m.remove(n)
        elif k == "in":
            if (op["path"] in b) != (m.get(op["path"]) is not None):
                raise Violation("{0} in book is {1}: {2}".format(op["path"], op["path"] in b, done))
        want = m.items()
        got = b.items(recursive=True)
        if [n for n, x in got] != [n for n, x in want]:
            raise Violation("members are {0}, expected {1}: {2}".format([n for n, x in got], [n for n, x in want], done))
        for (n, x), (n2, y) in zip(want, got):
            if (isinstance(x, M) == isinstance(y, histbook.hist.Hist)) or (not isinstance(x, M) and x is not y):
                raise Violation("{0} holds something else: {1}".format(n, done))
            if b[n] is not y:
                raise Violation("{0} is looked up differently from the listing: {1}".format(n, done))
        if b.keys(recursive=True) != [n for n, x in want] or b.allkeys() != [n for n, x in want] or b.values(recursive=True) != [y for n, y in got] or len(b) != len(m.d):
            raise Violation("listings disagree: {0}".format(done))
        if [n for n, x in b.allitems(onlyhist=True)] != [n for n, x in want if not isinstance(x, M)] or [n for n, x in iter(b)] != [n for n, x in want if not isinstance(x, M)]:
            raise Violation("listing of histograms is {0}: {1}".format(b.allkeys(onlyhist=True), done))
        if b.keys() != list(m.d):
            raise Violation("listing of own members is {0}: {1}".format(b.keys(), done))
    for bad in (1, None, ("a",)):
        for f in (lambda: b[bad], lambda: b.__setitem__(bad, newhist()), lambda: b.__delitem__(bad)):
            try:
                f()
            except TypeError:
                pass
            else:
                raise Violation("key {0!r} was accepted".format(bad))
    try:
        b["a"] = 3
    except TypeError:
        pass
    else:
        raise Violation("a number was accepted as a member")
