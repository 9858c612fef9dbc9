"""C05: filling.  Hist.fill (constructor layout, plan, _fill, _prefill, _postfill with fillblock and filldict) on any data, seen at a
generic entry, a generic cell and a generic key of every group axis; the axis kernels and the weight are callees, used through the
contracts proved for them (C01-C04):

  requires  the axes' kernels return an index in [0, totbins) or masked; group kernels return distinct keys and each entry's position
            among them (-1: dropped); number of cells < 2**31
  ensures   in every column the entry adds to the cell exactly: weight if all its indexes are the cell's and its keys the generic keys,
            else 0 (squared weight, weight*x, weight*x**2 in the other columns); prior contents are kept; groups exist exactly where they
            existed or occur in the data; the user's arrays and the shared kernel outputs are not modified
"""
from fillmodel import *

ASSUMPTIONS = ["a sum over entries is determined by the contribution of each entry (addition of exact reals; float rounding of sums ignored)",
               "numpy.add.at adds one value per index; numpy.ma.compressed/getmask and boolean indexing follow their documented contracts (vc/npf.py)",
               "kernels of the axes satisfy the contracts proved under C01-C04",
               "iterations of the loop over distinct group keys are independent (checked: nothing but the entry of its own key is modified)"]
BOUNDS = ["numbers of axes are enumerated (up to 4 fixed, 3 group, 3 profile in the listed combinations; weight absent/number/expression); data length, bin counts, keys, values and prior contents are unbounded"]

def configs(tier):
    out = []
    for g, f, p in [(0, 0, 0), (0, 1, 0), (0, 2, 0), (0, 3, 0), (0, 0, 1), (0, 1, 1), (0, 2, 2), (1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 2, 0), (2, 1, 0), (2, 0, 1), (2, 2, 1), (0, 0, 2), (1, 0, 2), (0, 4, 0), (1, 3, 1), (3, 1, 1), (0, 1, 3), (2, 3, 2)]:
        for w in ("none", "const", "expr"):
            if (g, f, p) == (0, 0, 0) and w != "expr":
                continue         # no field: counts one entry per fill by design
            if w == "const" and (g, f, p) not in [(0, 1, 0), (1, 1, 1), (2, 0, 1), (0, 0, 1), (1, 0, 0)]:
                continue
            out.append((g, f, p, w))
    return out

def units(hb, tier):
    yield ("lemmas of index arithmetic", lemmas, [], ["lemma"])
    for cfg in configs(tier):
        yield ("Hist.fill with {0} group, {1} fixed, {2} profile axes, weight {3}".format(*cfg), (lambda cfg: (lambda c: fill(hb, c, *cfg)))(cfg),
               ["hist.Hist.__init__", "hist.Hist.fill", "hist.Hist._prefill", "hist.Hist._postfill (fillblock, filldict)", "fill.Fillable.fields", "fill.Fillable._fill", "hist.Hist._streamline", "instr.sources", "instr.instructions", "calc.calculate"],
               ["contribution to", "the user's arrays"])

def make_hist(hb, c, g, f, p, w, custom=None):
    axes = []
    for i in range(g):
        axes.append(hb.axis.groupby("g{0}".format(i)))
    dims = []
    for i in range(f):
        n = fresh_int("bins{0}".format(i), 1, 2**31 - 1)
        dims.append(n)
        axes.append(hb.axis.intbin("x{0}".format(i), 1, 3, underflow=False, overflow=False))
    for i in range(p):
        axes.append(hb.axis.profile("y{0}".format(i)))
    opts = {}
    if w == "const":
        opts["weight"] = 2.5
    elif w == "expr":
        opts["weight"] = "w"
    elif w == "custom":
        opts.update(custom["opts"])
    # the number of bins is a callee: any positive number
    orig = hb.axis.intbin.totbins
    hb.axis.intbin.totbins = property(lambda self: dims[int(self._expr[1:])])
    try:
        h = must_return(c, "construct", hb.hist.Hist, *axes, **opts)
    finally:
        hb.axis.intbin.totbins = orig
    return h, dims

def fill(hb, c, g, f, p, w, custom=None, shared=False, first=None, modes=None):
    c.products = []
    h, dims = make_hist(hb, c, g, f, p, w, custom)
    ncols = h._shape[-1]
    base = Base(length=fresh_int("length", 0, 2**31 - 1))
    cell = [fresh_int("cell{0}".format(i), 0) for i in range(f)]
    n = None
    for d, x in zip(dims, cell):
        c.assume(x.z < d.z)
        n = d.z if n is None else imulz(n, d.z)
    if n is not None:
        c.assume(n < 2**31)
    data, kern = {}, {}
    idx, msk = [], []
    for i in range(f):
        data["x{0}".format(i)] = EArr(fresh_int("xval{0}".format(i), -2**62, 2**62), base, "i")
        ix = fresh_int("idx{0}".format(i), -2**31, 2**31 - 1)
        m = fresh_bool("dropped{0}".format(i)) if c.choose(2) == 0 else None
        inr = z3.And(0 <= ix.z, ix.z < dims[i].z)
        c.assume(inr if m is None else z3.Or(m.z, inr))
        idx.append(ix)
        msk.append(m)
        kern[id(data["x{0}".format(i)].v)] = EArr(ix, base, "i", 32, None if m is None else m.z, (), True)
    # instantiate the index lemmas along the flattening
    if f >= 2:
        fl, fc, nn = idx[0].z, cell[0].z, dims[0].z
        for i in range(1, f):
            m = dims[i].z
            lemma_grow(c, nn, m)
            lemma_range(c, fl, nn, m)
            lemma_range(c, fc, nn, m)
            lemma_radix(c, fl, fc, idx[i].z, cell[i].z, m)
            fl, fc, nn = imulz(fl, m) + idx[i].z, imulz(fc, m) + cell[i].z, imulz(nn, m)
    invs, keys, gks = [], [], []
    for i in range(g):
        a = data["g{0}".format(i)] = EArr(fresh_real("gval{0}".format(i)), base, "f")
        nk = fresh_int("ngroups{0}".format(i), 0, 2**31 - 1)
        key = rt.Key("key{0}".format(i))
        present, pos = z3.Bool("key{0}.occurs".format(i)), fresh_int("key{0}.pos".format(i), 0)
        inv = fresh_int("inv{0}".format(i), -1)
        c.assume(pos.z < nk.z)
        c.assume(inv.z < nk.z)
        c.assume(z3.Implies(inv.z == pos.z, present))     # pos is the position of the key when it occurs
        gk = GroupKeys(key, present, pos, nk)
        invs.append(inv); keys.append(key); gks.append(gk)
        kern[id(a.v)] = (gk, EArr(inv, base, "i", 32))
    ys = []
    for i in range(p):
        y = fresh_float("y{0}".format(i)) if custom is None else fresh_real("y{0}".format(i))
        ys.append(y)
        data["y{0}".format(i)] = EArr(y, base, "f")
    wv = None
    if w == "expr":
        wv = fresh_float("w")
        data["w"] = EArr(wv, base, "f")
    if w == "custom":
        vals = {}
        for n_, kind in custom["fields"].items():
            vals[n_] = fresh_bool(n_) if kind == "b" else fresh_int(n_, -2**31, 2**31) if kind == "i" else fresh_float(n_) if kind == "x" else fresh_real(n_)
            data[n_] = EArr(vals[n_], base, "b" if kind == "b" else "i" if kind == "i" else "f", 8 if kind == "b" else 64)
    def kernel(values, *more):
        if not isinstance(values, EArr) or id(values.v) not in kern:
            raise Unsupported("kernel called with something else than a field")
        return kern[id(values.v)]
    saved = {}
    lib = hb.calc.library
    for k in ("histbook.intbin__", "histbook.groupby"):
        saved[k] = lib[k]
        lib[k] = kernel
    shape = h._shape
    def zeros(s, dtype=None):
        if isinstance(s, tuple) and s and s[-1] == ncols and len(s) == f + 1 and all(a is b for a, b in zip(s, shape)):
            return FillLeaf(s, cell, dims, False)
        return NotImplemented
    npf.HOOKS["zeros"] = [zeros]
    # prior contents: none, or anything
    prior = shared or c.choose(2) == 1
    leaf0, dicts, had = None, [], []
    if prior:
        leaf0 = FillLeaf(shape, cell, dims, True)
        content = leaf0
        for i in reversed(range(g)):
            b = z3.Bool("key{0}.before".format(i))
            had.insert(0, b)
            content = rt.SymDict(keys[i], b, content)
            dicts.insert(0, content)
        h._content = content
        if shared:
            h._copyonfill = True
            before = [(d, d.hasz, d.val_) for d in dicts]
    given = data
    if modes is not None:
        given = modes(c, base, data)
    try:
        if first is not None:
            first(c, h, base, data, leaf0, dicts)
        must_return(c, "fill", h.fill, given)
    finally:
        lib.update(saved)
    if shared:
        c.prove("shared contents are not modified by a fill", leaf0.version == 0 and not leaf0.contrib and all(d.hasz is hz and d.val_ is v for d, hz, v in before))
        c.prove("filled contents are not shared any more", h._content is not content and not h._copyonfill)
    # specification, at the generic entry
    node, present, created = h._content, z3.BoolVal(True), None
    kept = And(*[Not(m.z) for m in msk if m is not None])
    occurs = []
    for i in range(g):
        occ = gks[i].present
        was = had[i] if prior else z3.BoolVal(False)
        if isinstance(node, rt.SymDict):
            hasz = zb(node.hasz) if not isinstance(node.hasz, bool) else z3.BoolVal(node.hasz)
        elif isinstance(node, dict):
            hasz = z3.BoolVal(keys[i] in node)
            c.prove("only the keys of the data", all(k is keys[i] for k in node))
        else:
            c.prove("groups are kept in a dict", False)
            raise PathEnd()
        occurs.append(occ)
        c.prove("a group exists iff it existed or occurs", hasz == z3.Or(was, z3.And(*occurs)))
        if c.branch(hasz):
            if prior and c.branch(z3.Not(was)):
                prior = False
            node = node.val_ if isinstance(node, rt.SymDict) else node[keys[i]]
            if isinstance(node, rt.Lazy):
                raise Unsupported("lazy content")
        else:
            return
    c.prove("contents are an array", isinstance(node, FillLeaf))
    if not isinstance(node, FillLeaf):
        return
    c.prove("prior contents are kept", (node is not leaf0 and node.prior if shared else node is leaf0) if prior else node.prior is False)
    ing = And(kept, *[invs[i].z == gks[i].idx.z for i in range(g)])
    here = zb(And(ing, *[idx[i].z == cell[i].z for i in range(f)]))
    if w == "none":
        wt, wt2 = tofloat(1.0), None
    elif w == "const":
        wt, wt2 = tofloat(2.5), tofloat(6.25)
    else:
        if w == "custom":
            wv = custom["weight"](vals)
        nan = zb(wv.nan)
        wt = ite(mkbool(nan), tofloat(0.0), wv)
        wt2 = ite(mkbool(nan), tofloat(0.0), fmul(wv, wv))
    want = {}
    for i, ax in enumerate(h._profile):
        want[ax._sumwxindex] = ("sum of weight*value of profile {0}".format(i), fmul(ys[i], wt))
        want[ax._sumwx2index] = ("sum of weight*value**2 of profile {0}".format(i), fmul(fmul(ys[i], ys[i]), wt))
    want[h._sumwindex] = ("sum of weights", wt)
    if w != "none":
        want[h._sumw2index] = ("sum of squared weights", wt2)
    known = []
    for contribs in node.contrib.values():
        for k, (cond, v) in enumerate(contribs):
            # a step of the proof, not a clause: the code may add in several parts
            for x, y in known:
                if cond.eq(x):
                    break
            else:
                y = here if c.feasible(z3.Not(cond == here)) == z3.unsat else cond
                known.append((cond, y))
            contribs[k] = (y, v)
    c.prove("one column per sum", sorted(want) == list(range(ncols)))
    for col, (what, v) in sorted(want.items()):
        c.prove("contribution to the " + what, zb(same(node.total(col), ite(mkbool(here), v, tofloat(0.0)))))
    for n_, a in data.items():
        c.prove("the user's arrays are not modified", a.version == 0)
    for k in kern.values():
        for a in (k if isinstance(k, tuple) else (k,)):
            if isinstance(a, EArr):
                c.prove("shared kernel outputs are not modified", a.version == 0)
    c.prove("no array is kept after the fill", all(x is None for x in h._destination[0]))
