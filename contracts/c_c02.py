"""C02: split axis.  Contract of axis.split (constructor, keys, totbins, _goals) composed with the kernel that calc.library
dispatches to, at a generic entry of the data, for any number of edges in any order:

  requires  len(edges) >= 1, edges finite and pairwise distinct, flags arbitrary (at least one bin), value any extended real or NaN
  ensures   the stored edges are strictly increasing and are the given edges
            len(keys) == totbins
            not masked ==> 0 <= index < totbins and value in keys[index]
            for every j in [0, totbins): value in keys[j] ==> not masked and index == j
"""
from common import *

ASSUMPTIONS = ["sorted() returns a non-decreasing permutation; len(set(xs)) == len(xs) iff the elements are distinct",
               "numpy.digitize, numpy.isin and numpy.ma follow their documented elementwise contracts (vc/npf.py)",
               "an array is represented by a generic entry: the kernels are elementwise by those contracts",
               "edges are finite numbers; len(edges) + 2 < 2**31 (index type is int32)"]

def units(hb, tier):
    for single in (False, True):
        yield make(hb, single)

def make(hb, single):
    def axis_contract(c):
        u, o, na, cl = [fresh_bool(x) for x in ("underflow", "overflow", "nanflow", "closedlow")]
        if single:
            e0 = fresh_real("edge")
            n, edges, el = 1, e0, (lambda q: e0.r)
        else:
            n = fresh_int("nedges", 1, 2**31 - 4)
            E = IdxFn("E", binary=[lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n.z), E.f(i) != E.f(j))])
            edges = rt.SymSeq(n, lambda q: SFloat(E(q)), list)
            edges.idx = E
            def refine():
                c.solver.add(n.z <= 5)
                for q in range(5):
                    E(z3.IntVal(q))
                    if hasattr(c, "stored"):
                        c.stored(q)
            c.refine = refine
            el = E
        c.assume(z3.Or(zint(n) > 1, u.z, o.z, na.z))
        v = any_float("value")
        isf = v.fin() is not True or c.choose(2) == 0
        if not isf:
            vi = fresh_int("ivalue", -2**53, 2**53)
            v = vi
        c.watch.update(nedges=zint(n), u=u.z, o=o.z, nan=na.z, cl=cl.z)
        def conc(m):
            k = mval(m, n)
            if k > 1000:
                raise ValueError("too many edges to replay")
            es = [mval(m, SFloat(el(z3.IntVal(q)))) for q in range(k)]
            if len(set(es)) != len(es):
                raise ValueError("edges collide as float64")
            s = dict(k="split", e="x", edges=es, u=mval(m, u), o=mval(m, o), nan=mval(m, na), cl=mval(m, cl))
            return dict(axis=s, col=dict(dt="f8" if isf else "i8", v=[mval(m, v)]))
        axis = must_return(c, "construct", hb.axis.split, "x", edges, u, o, na, cl)
        st = axis._edges
        c.prove("as many edges as given", zint(rt.rt_len(st)) == zint(n), conc)
        at = lambda q: tofloat(st.at(q) if isinstance(st, rt.SymSeq) else rt.pick(st, q)).r
        if not single:
            c.stored = at
            a = fresh_int("a", 0); b = fresh_int("b", 0)
            c.prove("stored edges strictly increase", z3.Implies(z3.And(a.z < b.z, b.z < zint(n)), at(a) < at(b)), conc)
            if hasattr(st, "perm"):
                w = st.perm[0](a.z)
                c.prove("stored edges are given edges", z3.Implies(a.z < zint(n), z3.And(0 <= w, w < zint(n), at(a) == el(w))), conc)
        goals = axis._goals(hb.expr.Name("x"))
        base = Base()
        data = EArr(v, base, "f" if isf else "i")
        out = must_return(c, "fill", hb.calc.calculate, goals[0].goal, {"x": data})
        keys = must_return(c, "keys", axis.keys)
        tot = axis.totbins
        c.prove("as many displayed as stored bins", zint(rt.rt_len(keys)) == zint(tot), conc)
        c.prove("the data array is not modified", data.version == 0, conc)
        masked = zb(out.mask if out.mask is not None else False)
        idx = out.v
        if c.choose(2) == 0:
            c.require(z3.Not(masked))
            c.prove("index within the stored bins", z3.And(zint(idx) >= 0, zint(idx) < zint(tot)), conc)
            k = keys.at(idx) if isinstance(keys, rt.SymSeq) else rt.pick(keys, idx)
            c.prove("counted in a bin that contains the value", contains(hb, k, v), conc)
        else:
            j = fresh_int("j", 0)
            c.require(j.z < zint(tot))
            k = keys.at(j) if isinstance(keys, rt.SymSeq) else rt.pick(keys, j)
            c.require(contains(hb, k, v))
            c.prove("the bin that contains the value counts it", z3.And(z3.Not(masked), zint(idx) == j.z), conc)
    return ("axis.split with its kernel" + (" (one edge given as a number)" if single else ""), axis_contract,
            ["axis.split.__init__", "axis.split.totbins", "axis.split.keys", "axis.split._goals", "calc.calculate", "calc.histbook_split.split (16 instances)"],
            ["as many displayed", "index within", "counted in a bin", "the bin that contains"])
