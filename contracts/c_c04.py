"""C04: group axes, constructor to kernel, at a generic entry, and their display at a generic key.

groupby   ensures  uniques[inverse] == value (numpy.unique: uniques strictly increase and all occur), so two entries share a group iff
                   their values are equal; a generic key is displayed as itself
groupbin  requires width > 0, any origin, value any extended real or NaN
          ensures  finite value: key = uniques[inverse] with value in [key, key + width) (or (key, key + width]), (key - origin)/width integer
                   NaN: uniques[inverse] == "NaN" if nanflow, else no index matches (inverse == -1); without NaN in the data no "NaN" group
                   a generic numeric key is displayed as the interval [key, key + width), "NaN" as the NaN interval
"""
from common import *

ASSUMPTIONS = ["float64 arithmetic is treated as exact real arithmetic extended with infinities and NaN",
               "numpy.unique(values, return_inverse=True) returns the strictly increasing distinct values, each of which occurs, and the position of every entry's value among them; strings order like any other total order",
               "sorted() of dict keys keeps each key once; fewer than 2**31 groups (index type is int32)"]

def units(hb, tier):
    yield ("axis.groupby with its kernel", lambda c: groupby(hb, c), ["axis.groupby._goals", "calc.histbook_groupby", "axis.groupby.items", "axis.groupby.keys"], ["labelled by the value", "displayed as itself"])
    yield ("axis.groupbin with its kernel", lambda c: groupbin(hb, c, False), ["axis.groupbin.__init__", "axis.groupbin._goals", "calc.histbook_groupbin.groupbin (4 instances)"],
           ["group interval contains the value", "low edge congruent", "NaN"])
    yield ("axis.groupbin, data without NaN", lambda c: groupbin(hb, c, True), ["calc.histbook_groupbin.groupbin (4 instances)"], ["no group without entries"])
    yield ("axis.groupbin display", lambda c: display(hb, c), ["axis.groupbin.items", "axis.groupbin.keys"], ["displayed interval", "NaN group displayed"])

def groupby(hb, c):
    axis = must_return(c, "construct", hb.axis.groupby, "x")
    v = fresh_real("value")
    data = EArr(v, Base(length=fresh_int("length", 1, 2**31 - 2)), "f")
    conc = lambda m: dict(axis=dict(k="groupby", e="x"), col=dict(dt="f8", v=[mval(m, v)]))
    goals = axis._goals(hb.expr.Name("x"))
    uniques, inverse = must_return(c, "fill", hb.calc.calculate, goals[0].goal, {"x": data})
    c.prove("index within the groups", z3.And(zint(inverse.v) >= 0, zint(inverse.v) < zint(rt.rt_len(uniques))), conc)
    c.prove("labelled by the value", zb(eqv(tofloat(uniques.at(inverse.v)), v)), conc)
    c.prove("groups are the values that occur", isinstance(uniques, npf.Uniques) and uniques.arr is data, conc)
    c.prove("the data array is not modified", data.version == 0, conc)
    # display
    key = rt.Key("k")
    val = object()
    d = rt.SymDict(key, z3.Bool("present"), val)
    keys = must_return(c, "keys", axis.keys, d)
    items = must_return(c, "items", axis.items, d)
    c.require(z3.Bool("present"))
    ks, its = keys.results(), items.results()
    c.prove("displayed as itself", len(ks) == 1 and ks[0] is key and len(its) == 1 and its[0][0] is key and its[0][1] is val)

def groupbin(hb, c, uniform):
    width, origin = fresh_real("width"), fresh_real("origin")
    declare_positive(c, width.r)
    na, cl = fresh_bool("nanflow"), fresh_bool("closedlow")
    v = any_float("y") if not uniform else fresh_real("y")
    fin = v.fin() is True
    if c.choose(2) == 0:
        origin = 0
    else:
        c.assume(origin.r != 0)
    if fin:
        v = origin + width*v
    isint = fin and c.choose(2) == 1
    if isint:
        vi = fresh_int("ivalue", -2**53, 2**53)
        c.assume(z3.ToReal(vi.z) == v.r)
    def conc(m):
        f = int if isint else float
        return dict(axis=dict(k="groupbin", e="x", w=mval(m, width), org=mval(m, origin), nan=mval(m, na), cl=mval(m, cl)), col=dict(dt="i8" if isint else "f8", v=[mval(m, vi if isint else v)] + [f(mval(m, origin) + x*mval(m, width)) for x in (0.5, 5.5, 10.5, -3.5)]))
    axis = must_return(c, "construct", hb.axis.groupbin, "x", width, origin, na, cl)
    data = EArr(v, Base(length=fresh_int("length", 1, 2**31 - 2), uniform=uniform), "i" if isint else "f")
    goals = axis._goals(hb.expr.Name("x"))
    uniques, inverse = must_return(c, "fill", hb.calc.calculate, goals[0].goal, {"x": data})
    n = rt.rt_len(uniques)
    c.prove("the data array is not modified", data.version == 0, conc)
    k = zint(inverse.v)
    nan = c.branch(na.z)
    if uniform:
        c.prove("no group without entries", isinstance(uniques, npf.Uniques), conc)
        return
    if v.nan is True and not nan:
        c.prove("NaN entries belong to no group when disabled", z3.Or(k < 0, k >= zint(n)), conc)
        return
    c.prove("index within the groups", z3.And(k >= 0, k < zint(n)), conc)
    key = uniques.at(inverse.v)
    if v.nan is True:
        c.prove("NaN entries share the NaN group", isinstance(key, str) and key == "NaN", conc)
        return
    c.prove("numbers are not in the NaN group", not isinstance(key, str), conc)
    key = tofloat(key)
    if not fin:
        c.prove("infinite values are labelled by themselves", zb(eqv(key, v)), conc)
        return
    hi = key + width
    clz = c.branch(cl.z)
    c.prove("group interval contains the value", zb(And(Not(lt(v, key)), lt(v, hi)) if clz else And(lt(key, v), Not(lt(hi, v)))), conc)
    q = (key - origin)/width
    c.prove("low edge congruent to the origin", as_int(q.r) is not None or z3.IsInt(q.r), conc)

def display(hb, c):
    width = fresh_real("width")
    c.assume(width.r > 0)
    na, cl = fresh_bool("nanflow"), fresh_bool("closedlow")
    axis = must_return(c, "construct", hb.axis.groupbin, "x", width, fresh_real("origin"), na, cl)
    val = object()
    if c.choose(2) == 0:
        num = fresh_real("key")
        key = rt.Key("k", num=num)
        key.eq = lambda o: False if isinstance(o, str) else NotImplemented
    else:
        num = None
        key = "NaN"
    d = rt.SymDict(key, z3.Bool("present"), val)
    items = must_return(c, "items", axis.items, d)
    keys = must_return(c, "keys", axis.keys, d)
    c.require(z3.Bool("present"))
    its, ks = items.results(), keys.results()
    c.prove("each group displayed once", len(its) == 1 and len(ks) == 1 and its[0][1] is val)
    for iv in (its[0][0], ks[0]):
        if num is None:
            c.prove("NaN group displayed as NaN", isinstance(iv, hb.axis.IntervalNaN))
        else:
            ok = isinstance(iv, hb.axis.Interval) and not isinstance(iv, hb.axis.IntervalNaN)
            c.prove("displayed as an interval", ok)
            low = iv.low.num if isinstance(iv.low, rt.Key) else iv.low
            c.prove("displayed interval", z3.And(zb(eqv(tofloat(low), num)), zb(eqv(tofloat(iv.high), num + width)), zb(Iff(asbool(iv.closedlow), cl.z)), zb(Iff(asbool(iv.closedhigh), Not(cl.z)))))
