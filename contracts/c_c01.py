"""C01: bin axis.  Contract of axis.bin (constructor, keys, totbins, _goals) composed with the kernel that
calc.library dispatches to, at a generic entry of the data:

  requires  numbins >= 0, low < high (low == high if numbins == 0), numbins + 3 < 2**31, flags arbitrary,
            value any extended real or NaN
  ensures   len(keys) == totbins
            not masked ==> 0 <= index < totbins and value in keys[index]
            for every j in [0, totbins): value in keys[j] ==> not masked and index == j
"""
from common import *

ASSUMPTIONS = ["float64 arithmetic is treated as exact real arithmetic extended with infinities and NaN (values within rounding error of an edge are outside the property)",
               "numpy ufuncs, numpy.clip and numpy.ma follow their documented elementwise contracts (vc/npf.py)",
               "an array is represented by a generic entry: the kernels are elementwise by those contracts",
               "numbins + 3 < 2**31 (index type is int32)"]

def units(hb, tier):
    def axis_contract(c):
        n = fresh_int("numbins", 0, 2**31 - 4)
        low = fresh_real("low")
        # ghosts: every low < high is low + numbins*width with width > 0, every value is low + width*y
        width = fresh_real("width")
        declare_positive(c, width.r)
        if c.branch(n.z > 0):
            declare_positive(c, z3.ToReal(n.z))
            high = low + n*width
        else:
            n = 0
            high = low
        u, o, na, cl = [fresh_bool(x) for x in ("underflow", "overflow", "nanflow", "closedlow")]
        c.assume(z3.Or(zint(n) > 0, u.z, o.z, na.z))
        v = any_float("y")
        if v.fin() is True:
            v = low + width*v
        isint = v.fin() is True and c.choose(2) == 1
        if isint:      # integer data
            vi = fresh_int("ivalue", -2**63, 2**63 - 1)
            c.assume(z3.ToReal(vi.z) == v.r)
        c.watch.update(numbins=zint(n), low=low.r, high=high.r, u=u.z, o=o.z, nan=na.z, cl=cl.z, value=v.r)
        def conc(m):
            s = dict(k="bin", e="x", n=mval(m, n), lo=mval(m, low), hi=mval(m, high), u=mval(m, u), o=mval(m, o), nan=mval(m, na), cl=mval(m, cl))
            if s["n"] > 100000:
                raise ValueError("too many bins to replay")
            return dict(axis=s, col=dict(dt="i8" if isint else "f8", v=[mval(m, vi if isint else v)]))
        axis = must_return(c, "construct", hb.axis.bin, "x", n, low, high, u, o, na, cl)
        goals = axis._goals(hb.expr.Name("x"))
        c.prove("one quantity per axis", len(goals) == 1, conc)
        base = Base()
        data = EArr(v, base, "i" if isint else "f")
        out = must_return(c, "fill", hb.calc.calculate, goals[0].goal, {"x": data})
        keys = must_return(c, "keys", axis.keys)
        tot = axis.totbins
        nk = rt.rt_len(keys)
        c.prove("as many displayed as stored bins", zint(nk) == zint(tot), conc)
        c.prove("the data array is not modified", data.version == 0, conc)
        masked = zb(out.mask if out.mask is not None else False)
        idx = out.v
        which = c.choose(2)
        if which == 0:
            c.require(z3.Not(masked))
            c.prove("index within the stored bins", z3.And(zint(idx) >= 0, zint(idx) < zint(tot)), conc)
            k = keys.at(idx) if isinstance(keys, rt.SymSeq) else rt.pick(keys, idx)
            c.prove("counted in a bin that contains the value", contains(hb, k, v), conc)
        else:
            j = fresh_int("j", 0)
            c.require(j.z < zint(tot))
            k = keys.at(j) if isinstance(keys, rt.SymSeq) else rt.pick(keys, j)
            c.require(contains(hb, k, v))
            c.prove("the bin that contains the value counts it", z3.And(z3.Not(masked), zint(idx) == j.z), conc)
    yield ("axis.bin with its kernel", axis_contract,
           ["axis.bin.__init__", "axis.bin.totbins", "axis.bin.keys", "axis.bin._goals", "instr.totree", "calc.calculate", "calc.histbook_bin.bin (16 instances)"],
           ["as many displayed", "index within", "counted in a bin", "the bin that contains"])
