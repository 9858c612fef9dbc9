#!/usr/bin/env python3-vt
"""Compares the assumed contracts of numpy (vc/npf.py) with the numpy of the repository's interpreter on a grid of special values.

    python3-vt tools/conform.py          exit 0 if every contract allows exactly what numpy computes, 1 with the list otherwise

Every argument is an unknown that is only known to equal the special value, so the general clause of the contract is used; the proof
obligation is that its result is numpy's. Functions about which nothing is assumed (uninterpreted) need no comparison.
"""
import itertools, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "vc"), os.path.join(HERE, "contracts")]
PY = "/opt/venv-pypy/bin/python"

F = [float("nan"), float("inf"), float("-inf"), 0.0, 0.5, 1.0, -1.0, 1.5, -1.5, 2.5, -2.5, 3.0, -3.25, 1048576.0, -4194304.5]
I = [0, 1, -1, 2, -3, 7, 1000, -1000, 2**31 - 1, -2**31]
B = [False, True]
EDGES = [-1.5, 0.0, 0.5, 3.0]
SPLIT = {"binary": ["add", "subtract", "multiply", "true_divide", "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "maximum", "minimum", "floor_divide"],
         "unary": ["absolute", "negative", "square", "floor", "ceil", "trunc", "rint", "isnan", "isinf", "isfinite", "sign"],
         "intbinary": ["add", "subtract", "multiply", "less", "less_equal", "equal", "maximum", "minimum"],
         "logic": ["logical_and", "logical_or", "bitwise_and", "bitwise_or"]}

def cases():
    for n in SPLIT["binary"]:
        for a, b in itertools.product(F, F):
            yield [n, "ff", [a, b]]
    for n in SPLIT["unary"]:
        for a in F:
            yield [n, "f", [a]]
    for n in SPLIT["intbinary"]:
        for a, b in itertools.product(I, I):
            yield [n, "ii", [a, b]]
    for n in SPLIT["logic"]:
        for a, b in itertools.product(B, B):
            yield [n, "bb", [a, b]]
    for a in B:
        yield ["logical_not", "b", [a]]
        yield ["bitwise_not", "b", [a]]
    for a in F:
        yield ["sqrt", "f", [a]]
        yield ["digitize", "f", [a]]
        yield ["isin", "f", [a]]
        for lo, hi in ((-1.0, 3.0), (0, 5)):
            yield ["clip", "f", [a, lo, hi]]
        for b in F:
            for c in B:
                yield ["where", "bff", [c, a, b]]
        if a == a and abs(a) < 2**31:
            yield ["int32", "f", [a]]
    for a in I + [2**32 + 5, -2**33 - 1, 2**40]:
        yield ["int32", "i", [a]]

REFERENCE = r'''
import sys, json, numpy, warnings
warnings.simplefilter("ignore")
EDGES = [-1.5, 0.0, 0.5, 3.0]
T = {"f": numpy.float64, "i": numpy.int64, "b": numpy.bool_}
out = []
for name, kinds, args in json.load(sys.stdin):
    xs = [numpy.array([float(a) if k == "f" else a], dtype=T[k]) for k, a in zip(kinds, args)] + args[len(kinds):]
    with numpy.errstate(all="ignore"):
        if name == "digitize": r = numpy.digitize(xs[0], EDGES)
        elif name == "isin": r = numpy.isin(xs[0], EDGES)
        elif name == "int32": r = xs[0].astype(numpy.int32)
        else: r = getattr(numpy, name)(*xs)
    v = r.tolist()[0]
    out.append([r.dtype.kind, repr(v) if isinstance(v, float) else v])
json.dump(out, sys.stdout)
'''

def main():
    cs = list(cases())
    text = json.dumps([[n, k, [repr(a) if isinstance(a, float) else a for a in xs]] if False else [n, k, xs] for n, k, xs in cs])
    p = subprocess.run([PY, "-c", REFERENCE], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        sys.exit(p.stderr.decode())
    want = json.loads(p.stdout.decode())
    from common import z3, core, npf, EArr, Base, SFloat, SInt, SBool, fresh_real, fresh_int, fresh_bool, tofloat, asbool, zb, zint, And, Not, Or, Unsupported
    bad, unsupported, checked = [], {}, 0
    eng = core.Engine(timeout=4000)
    def arg(c, kind, a, base):
        if kind == "b":
            x = fresh_bool("b")
            c.assume(zb(asbool(x)) == a)
            return EArr(x, base, "b", 8)
        if kind == "i":
            x = fresh_int("i")
            c.assume(x.z == a)
            return EArr(x, base, "i")
        x = fresh_real("r")
        if a != a:
            return EArr(SFloat(x.r, True, False, False), base, "f")
        if abs(a) == float("inf"):
            return EArr(SFloat(x.r, False, a > 0, a < 0), base, "f")
        c.assume(x.r == z3.RealVal(repr(a)))
        return EArr(x, base, "f")
    for (name, kinds, args), (rk, rv) in zip(cs, want):
        def unit(c):
            base = Base()
            xs = [arg(c, k, a, base) for k, a in zip(kinds, args)] + args[len(kinds):]
            if name == "digitize":
                r = npf.F.digitize(xs[0], EDGES)
            elif name == "isin":
                r = npf.F.isin(xs[0], EDGES)
            elif name == "int32":
                r = xs[0].astype(npf.DType("i", 32))
            else:
                r = getattr(npf.F, name)(*xs)
            if rk == "b":
                c.prove("value", zb(asbool(r.v)) == bool(rv))
            elif rk in "iu":
                c.prove("value", zint(r.v) == int(rv))
            else:
                v, w = tofloat(r.v), float(rv)
                if w != w:
                    c.prove("value", zb(v.nan))
                elif abs(w) == float("inf"):
                    c.prove("value", zb(And(Not(v.nan), v.pinf if w > 0 else v.ninf)))
                elif name == "sqrt":
                    c.prove("value", zb(And(v.fin(), v.r >= 0, v.r*v.r == z3.RealVal(repr(args[0])))))
                elif name == "true_divide":
                    from fractions import Fraction
                    q = Fraction(args[0])/Fraction(args[1]) if abs(args[1]) != float("inf") else Fraction(0)
                    c.prove("value", zb(And(v.fin(), v.r == z3.RealVal(str(q)))))
                else:
                    c.prove("value", zb(And(v.fin(), v.r == z3.RealVal(rv))))
        n = len(eng.results)
        info = eng.unit("{0}{1}".format(name, tuple(args)), unit)
        if "unsupported" in info:
            unsupported.setdefault(name + "/" + kinds, []).append((args, info["unsupported"]))
            continue
        checked += 1
        if any(x["status"] != "discharged" for x in eng.results[n:]):
            bad.append("{0}{1}: numpy gives {2}".format(name, tuple(args), rv))
    print("{0} of {1} comparisons with numpy agree; not expressible: {2}".format(checked - len(bad), len(cs), dict((k, (len(v), v[0][1][:80])) for k, v in unsupported.items()) or "none"))
    for b in bad[:40]:
        print("  differs: " + b)
    return 1 if bad else 0

if __name__ == "__main__":
    sys.exit(main())
