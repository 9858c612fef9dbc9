"""C03: intbin and cut axes, constructor to kernel, at a generic entry.

intbin   requires  min <= max, |min|, |max| < 2**53, max - min + 3 < 2**31, value any value of an integer dtype (i1..i8, u1..u8)
         ensures   len(keys) == totbins; not masked ==> index in range and keys[index] is the value or an interval around it;
                   for every j: keys[j] matches the value ==> not masked and index == j
cut      ensures   keys == [False, True] and keys[index] is the value
"""
from common import *

ASSUMPTIONS = ["numpy.clip, numpy.ma, ufuncs follow their documented elementwise contracts, integers wrap around at the width of their type (vc/npf.py)",
               "an array is represented by a generic entry: the kernels are elementwise by those contracts",
               "|min|, |max| < 2**53 and max - min + 3 < 2**31 (index type is int32)"]

def units(hb, tier):
    for kind, bits in [("i", 8), ("i", 16), ("i", 32), ("i", 64), ("u", 8), ("u", 16), ("u", 32), ("u", 64)]:
        yield intbin(hb, kind, bits)
    yield ("axis.cut with its kernel", lambda c: cut(hb, c), ["axis.cut.__init__", "axis.cut.totbins", "axis.cut.keys", "axis.cut._goals", "calc.library['histbook.cut']"],
           ["displayed as False, True", "counted in the bin of its value"])

def intbin(hb, kind, bits):
    def axis_contract(c):
        lo = fresh_int("min", -2**53, 2**53)
        hi = fresh_int("max", -2**53, 2**53)
        c.assume(z3.And(lo.z <= hi.z, hi.z - lo.z < 2**31 - 4))
        u, o = fresh_bool("underflow"), fresh_bool("overflow")
        a, b = npf.irange(kind, bits)
        v = fresh_int("value", a, b)
        c.watch.update(min=lo.z, max=hi.z, u=u.z, o=o.z, value=v.z)
        def refine():
            c.solver.add(hi.z - lo.z <= 300)
        c.refine = refine
        def conc(m):
            s = dict(k="intbin", e="x", lo=mval(m, lo), hi=mval(m, hi), u=mval(m, u), o=mval(m, o))
            if s["hi"] - s["lo"] > 100000:
                raise ValueError("too many bins to replay")
            return dict(axis=s, col=dict(dt=kind + str(bits//8), v=[mval(m, v)]))
        axis = must_return(c, "construct", hb.axis.intbin, "x", lo, hi, u, o)
        goals = axis._goals(hb.expr.Name("x"))
        data = EArr(v, Base(), kind, bits)
        out = must_return(c, "fill", hb.calc.calculate, goals[0].goal, {"x": data})
        keys = must_return(c, "keys", axis.keys)
        tot = axis.totbins
        c.prove("as many displayed as stored bins", zint(rt.rt_len(keys)) == zint(tot), conc)
        c.prove("the data array is not modified", data.version == 0, conc)
        masked = zb(out.mask if out.mask is not None else False)
        idx = out.v
        def matches(k):
            if isinstance(k, (int, SInt)):
                return zint(k) == v.z
            return contains(hb, k, v)
        if c.choose(2) == 0:
            c.require(z3.Not(masked))
            c.prove("index within the stored bins", z3.And(zint(idx) >= 0, zint(idx) < zint(tot)), conc)
            c.prove("counted in a bin that contains the value", matches(keys.at(idx) if isinstance(keys, rt.SymSeq) else rt.pick(keys, idx)), conc)
        else:
            j = fresh_int("j", 0)
            c.require(j.z < zint(tot))
            c.require(matches(keys.at(j) if isinstance(keys, rt.SymSeq) else rt.pick(keys, j)))
            c.prove("the bin that contains the value counts it", z3.And(z3.Not(masked), zint(idx) == j.z), conc)
    return ("axis.intbin with its kernel, {0}{1} data".format("int" if kind == "i" else "uint", bits), axis_contract,
            ["axis.intbin.__init__", "axis.intbin.totbins", "axis.intbin.keys", "axis.intbin._goals", "calc.calculate", "calc.histbook_intbin.intbin (4 instances)"],
            ["as many displayed", "index within", "counted in a bin", "the bin that contains"])

def cut(hb, c):
    v = fresh_bool("value")
    conc = lambda m: dict(axis=dict(k="cut", e="x"), col=dict(dt="bool", v=[mval(m, v)]))
    axis = must_return(c, "construct", hb.axis.cut, "x")
    goals = axis._goals(hb.expr.Name("x"))
    data = EArr(v, Base(), "b", 8)
    out = must_return(c, "fill", hb.calc.calculate, goals[0].goal, {"x": data})
    keys = must_return(c, "keys", axis.keys)
    c.prove("displayed as False, True", list(keys) == [False, True] and axis.totbins == 2, conc)
    c.prove("nothing is dropped", zb(Not(out.mask if out.mask is not None else False)), conc)
    c.prove("counted in the bin of its value", zint(out.v) == z3.If(v.z, 1, 0), conc)
    c.prove("the data array is not modified", data.version == 0, conc)
