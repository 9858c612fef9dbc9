"""Executable contracts: expressions and the compiled fill plan (C07, C08, C20)."""
import itertools
import math
import numpy
from ref import *
from histbook.expr import Expr, Const, Name, Predicate, Call, PlusMinus, TimesDiv, LogicalAnd, LogicalOr, Relation, BroadcastConst
import histbook.instr

class Skip(Exception):
    pass

LIMIT = 1e5

################################################################ expression trees: ["num", v] ["name", n] ["bin", op, l, r] ["neg", x] ["call", f, args] ["cmp", ops, args] ["and", [..]] ["or", [..]] ["not", x] ["in", x, [..], positive]

def gen_num(rng):
    return ["num", rng.choice([0, 1, 2, 3, 5, 0.5, 2.5, 4, 1, 2])]

def _round(x):
    return float(round(x))
# every other function of the library: value and an argument at which it is defined
FNS = {"cos": math.cos, "tan": math.tan, "arctan": math.atan, "arcsinh": math.asinh, "deg2rad": math.radians, "rad2deg": math.degrees, "ceil": math.ceil, "trunc": math.trunc, "rint": _round, "round": _round,
       "sign": lambda x: float((x > 0) - (x < 0)), "conj": lambda x: x, "exp": math.exp, "exp2": lambda x: 2.0**x, "expm1": math.expm1, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
       "heaviside": lambda x, m=0.5: 0.0 if x < 0 else float(m) if x == 0 else 1.0,
       "arcsin": math.asin, "arccos": math.acos, "arctanh": math.atanh, "arccosh": math.acosh, "log": math.log, "log2": lambda x: math.log(x)/math.log(2), "log10": math.log10, "log1p": math.log1p,
       "arctan2": math.atan2, "copysign": math.copysign, "logaddexp": lambda a, b: math.log(math.exp(a) + math.exp(b)), "logaddexp2": lambda a, b: math.log(2.0**a + 2.0**b)/math.log(2),
       "fmax": max, "fmin": min, "fabs": abs, "mod": lambda a, b: a % b, "fmod": lambda a, b: a % b,
       "isnan": lambda x: x != x, "isinf": lambda x: abs(x) == float("inf"), "isfinite": lambda x: x == x and abs(x) != float("inf")}
APPROX = {"erf": math.erf, "erfc": math.erfc, "gamma": math.gamma, "lgamma": math.lgamma, "factorial": lambda x: float(math.factorial(round(x)))}     # approximations in the code: 1e-6
def gen_fn(rng, names, fcns=sorted(FNS)):
    f = rng.choice(fcns)
    a = ["name", rng.choice(names)] if rng.randrange(6) else ["num", rng.choice([1, 2, 0.5, 3])]
    b = ["name", rng.choice(names)] if rng.randrange(6) else ["num", rng.choice([1, 2, 0.5, 3])]
    if f in ("arctan2", "copysign", "logaddexp", "logaddexp2", "fmax", "fmin", "mod", "fmod"):
        return ["call", f, [a, b]]
    if f in ("arcsin", "arccos", "arctanh"):
        return ["call", f, [["bin", "*", ["num", 0.9], ["call", "sin", [a]]]]]
    if f in ("arccosh", "log", "log2", "log10", "log1p", "gamma", "lgamma"):
        return ["call", f, [["bin", "+", ["call", "abs", [a]], ["num", 1.25]]]]
    if f == "factorial":
        return ["call", f, [["call", "floor", [["call", "abs", [a]]]]]]
    if f == "heaviside" and rng.randrange(2):
        return ["call", f, [a, ["num", rng.choice([0, 1, 0.5])]]]
    if f in ("isnan", "isinf", "isfinite"):
        return ["call", "where", [["call", f, [a]], ["num", 2], b]]
    return ["call", f, [a]]

ALLFNS = dict(FNS, **APPROX)
def gen_arith(rng, depth, names):
    r = rng.randrange(13)
    if r == 12 and depth > 0:
        return gen_fn(rng, names)
    if depth <= 0 or r == 0:
        return gen_num(rng) if rng.randrange(3) == 0 else ["name", rng.choice(names)]
    if r <= 6:
        op = rng.choice(["+", "-", "*", "/", "+", "-", "*", "/", "**", "//", "%"])
        if op == "**":
            if rng.randrange(5):
                return ["bin", "**", gen_arith(rng, depth - 1, names), ["num", rng.choice([0, 1, 2, 3, 4, 5, -1, -2, -3, 2])]]
            return ["bin", "**", ["call", "abs", [gen_arith(rng, depth - 1, names)]], ["num", rng.choice([0.5, 1.5])]]
        return ["bin", op, gen_arith(rng, depth - 1, names), gen_arith(rng, depth - 1, names)]
    if r == 7:
        return ["neg", gen_arith(rng, depth - 1, names)]
    if r == 8:
        # repeated factors: makes cancellation and collection likely
        a, b = gen_arith(rng, depth - 2, names), gen_arith(rng, depth - 2, names)
        return rng.choice([["bin", "/", ["bin", "*", a, b], ["bin", "*", a, b]], ["bin", "-", ["bin", "+", a, b], a], ["bin", "*", ["bin", "+", a, b], ["bin", "-", a, b]],
                           ["bin", "/", ["bin", "*", ["bin", "*", a, b], a], b], ["bin", "+", ["bin", "*", a, ["num", 2]], ["bin", "*", ["num", 3], a]], ["bin", "/", a, ["bin", "+", a, b]]])
    f = rng.choice(["abs", "max", "min", "sin", "sqrt", "floor", "where", "pow", "max", "hypot"])
    if f in ("max", "min"):
        return ["call", f, [gen_arith(rng, depth - 1, names) for _ in range(rng.choice([2, 2, 3]))]]
    if f == "sqrt":
        return ["call", "sqrt", [["call", "abs", [gen_arith(rng, depth - 1, names)]]]]
    if f == "where":
        return ["call", "where", [gen_logic(rng, min(1, depth - 1), names), gen_arith(rng, depth - 1, names), gen_arith(rng, depth - 1, names)]]
    if f == "pow":
        return ["call", "pow", [gen_arith(rng, depth - 1, names), ["num", rng.choice([1, 2, 3])]]]
    if f == "hypot":
        return ["call", "hypot", [gen_arith(rng, depth - 1, names), gen_arith(rng, depth - 1, names)]]
    return ["call", f, [gen_arith(rng, depth - 1, names)]]

def gen_logic(rng, depth, names):
    r = rng.randrange(10)
    if depth <= 0 or r <= 3:
        k = rng.randrange(8)
        if k == 0:
            return ["name", rng.choice(["p", "q"])]
        if k == 1:
            return ["in", gen_arith(rng, 0, names), [rng.choice([0, 1, 2, -1, 0.5]) for _ in range(rng.randrange(1, 4))] + ([3, -2, 1.5, 2.5, 4, 5, 6, -3, 0.25, -0.5] if rng.randrange(5) == 0 else []), bool(rng.randrange(2))]
        if k == 2:
            return ["cmp", [rng.choice(["<", "<=", ">", ">="]) for _ in range(2)], [gen_arith(rng, min(depth, 1), names) for _ in range(3)]]
        return ["cmp", [rng.choice(["<", "<=", ">", ">=", "==", "!="])], [gen_arith(rng, min(depth, 2), names) for _ in range(2)]]
    if r <= 5:
        return ["and", [gen_logic(rng, depth - 1, names) for _ in range(rng.choice([2, 2, 3]))]]
    if r <= 7:
        return ["or", [gen_logic(rng, depth - 1, names) for _ in range(rng.choice([2, 2, 3]))]]
    return ["not", gen_logic(rng, depth - 1, names)]

def text(t):
    k = t[0]
    if k == "num":
        return repr(t[1]) if t[1] >= 0 else "(" + repr(t[1]) + ")"
    if k == "name":
        return t[1]
    if k == "bin":
        return "(" + text(t[2]) + " " + t[1] + " " + text(t[3]) + ")"
    if k == "neg":
        return "(-" + text(t[1]) + ")"
    if k == "call":
        return t[1] + "(" + ", ".join(text(x) for x in t[2]) + ")"
    if k == "cmp":
        out = text(t[2][0])
        for o, x in zip(t[1], t[2][1:]):
            out += " " + o + " " + text(x)
        return "(" + out + ")"
    if k in ("and", "or"):
        return "(" + (" " + k + " ").join(text(x) for x in t[1]) + ")"
    if k == "not":
        return "(not " + text(t[1]) + ")"
    if k == "in":
        return "(" + text(t[1]) + (" in " if t[3] else " not in ") + "{" + ", ".join(repr(x) for x in t[2]) + "})"
    raise AssertionError(t)

def simple(t):
    return t[0] == "num" or t[0] == "name" and t[1] in ("x", "y", "z", "p", "q")       # a defined name stands for an expression

def okval(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, complex) or v != v or abs(v) > LIMIT or (v != 0 and abs(v) < 1e-5):
        raise Skip()
    return v

def peval(t, env):
    """Python's value of the expression as written; Skip where it is not defined, too close to a discontinuity, or numerically out of reach"""
    k = t[0]
    try:
        if k == "num":
            return t[1]
        if k == "name":
            return env[t[1]]
        if k == "bin":
            a, b = peval(t[2], env), peval(t[3], env)
            op = t[1]
            if op == "+": return okval(a + b)
            if op == "-": return okval(a - b)
            if op == "*": return okval(a * b)
            if op == "/":
                if abs(b) < 1e-5:
                    raise Skip()
                return okval(float(a) / b)
            if op == "**":
                if a == 0 and b <= 0:
                    raise Skip()
                return okval(a ** b)
            if abs(b) < 1e-3:
                raise Skip()
            r = float(a) / b
            if abs(r - round(r)) < 1e-6 and not (simple(t[2]) and simple(t[3])):
                raise Skip()
            return okval(a // b) if op == "//" else okval(a % b)
        if k == "neg":
            return -peval(t[1], env)
        if k == "call":
            f = t[1]
            if f == "where":
                return peval(t[2][1], env) if beval(t[2][0], env) else peval(t[2][2], env)
            args = [peval(x, env) for x in t[2]]
            if f == "floor":
                if abs(args[0] - round(args[0])) < 1e-6 and not simple(t[2][0]):
                    raise Skip()
                return math.floor(args[0])
            if f in ALLFNS:
                if f in ("mod", "fmod") and abs(args[1]) < 1e-3:
                    raise Skip()
                if f in ("ceil", "trunc", "rint", "round", "sign", "heaviside", "copysign", "arctan2", "mod", "fmod", "factorial") and not all(simple(x) for x in t[2]) and not f == "factorial":
                    raise Skip()
                return okval(ALLFNS[f](*args))
            return okval({"abs": abs, "max": max, "min": min, "sin": math.sin, "sqrt": math.sqrt, "pow": pow, "hypot": math.hypot}[f](*args))
    except (ZeroDivisionError, OverflowError, ValueError):
        raise Skip()
    raise AssertionError(t)

def beval(t, env):
    k = t[0]
    if k == "call" and t[1] in ("isnan", "isinf", "isfinite"):
        return FNS[t[1]](peval(t[2][0], env))
    if k == "name":
        return bool(env[t[1]])
    if k == "and":
        return all([beval(x, env) for x in t[1]])
    if k == "or":
        return any([beval(x, env) for x in t[1]])
    if k == "not":
        return not beval(t[1], env)
    if k == "in":
        return (peval(t[1], env) in t[2]) == t[3]
    if k == "cmp":
        vals = [peval(x, env) for x in t[2]]
        out = True
        for o, (i, a), b in zip(t[1], enumerate(vals), vals[1:]):
            if abs(a - b) < 1e-6 and not (simple(t[2][i]) and simple(t[2][i + 1])):
                raise Skip()
            out = out and {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[o]
        return out
    raise AssertionError(t)

LOGIC = ("cmp", "and", "or", "not", "in")

def value(t, env):
    return beval(t, env) if t[0] in LOGIC else peval(t, env)

################################################################ meaning of a canonical form

class Undefined(Exception):
    pass

FCN = {"abs": abs, "fabs": abs, "max": max, "min": min, "fmax": max, "fmin": min, "sin": math.sin, "sqrt": math.sqrt, "floor": math.floor, "pow": lambda a, b: a ** b, "hypot": math.hypot,
       "fmod": lambda a, b: a % b, "mod": lambda a, b: a % b, "numpy.floor_divide": lambda a, b: a // b, "where": lambda c, a, b: a if c else b}
FCN = dict(ALLFNS, **FCN)

def ceval(x, env):
    n = x.__class__.__name__
    if n == "Const":
        return x.value
    if n in ("Name",):
        return env[x.value]
    if n == "Predicate":
        return bool(env[x.value]) == bool(x.positive)
    if n in ("Call", "BinOp"):
        if x.fcn == "where":
            return ceval(x.args[1], env) if ceval(x.args[0], env) else ceval(x.args[2], env)
        if x.fcn not in FCN:
            raise Undefined(x.fcn)
        return FCN[x.fcn](*[ceval(y, env) for y in x.args])
    if n == "PlusMinus":
        out = x.const
        for y in x.pos:
            out = out + ceval(y, env)
        for y in x.neg:
            out = out - ceval(y, env)
        return out
    if n == "TimesDiv":
        out = x.const
        for y in x.pos:
            out = out * ceval(y, env)
        for y in x.neg:
            out = float(out) / ceval(y, env)
        return out
    if n == "LogicalOr":
        return any([ceval(y, env) for y in x.args])
    if n == "LogicalAnd":
        return all([ceval(y, env) for y in x.args])
    if n == "Relation":
        a = ceval(x.left, env)
        if x.cmp == "in":
            return a in x.right.value
        if x.cmp == "not in":
            return a not in x.right.value
        b = ceval(x.right, env)
        return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}[x.cmp]
    raise Undefined(n)

def names_of(x):
    n = x.__class__.__name__
    if n in ("Name", "Predicate"):
        return set([x.value])
    out = set()
    if n in ("Call", "BinOp", "LogicalOr", "LogicalAnd"):
        for y in x.args:
            out |= names_of(y)
    elif n in ("PlusMinus", "TimesDiv"):
        for y in x.pos + x.neg:
            out |= names_of(y)
    elif n == "Relation":
        out = names_of(x.left) | names_of(x.right)
    return out

def gen_env(rng):
    env = dict((n, rng.choice([1.0, 2.0, -1.0, 0.5, 3.0, -2.5, 0.25, 1.5, -0.75, 4.0, 0.0])) for n in ("x", "y", "z"))
    env["p"] = bool(rng.randrange(2))
    env["q"] = bool(rng.randrange(2))
    return env

REJECT = ["x if y else z", "[1, 2]", "(x, y)", "x.y", "lambda x: x", "x[0]", "x << 2", "x >> 1", "x @ y", "x & y", "x | y", "~x", "foo(x)", "x + (y < z)", "x in y", "x in [1, 2]",
          "{x}", "{1: 2}", "x is y", "abs(x)(y)", "x < (y < z)", "sin(x < y)", "x + (y and z)", "-(x < y)", "max(*x)", "x is not y", "abs(x, y=2)", "where(x < 1, 2, no=3)", "sqrt(**x)", "(x < y) == z", "[a for a in x]", "x and [1]",
          "x < y < (1, 2)", "1 + 'a' @ x", "`x`" if False else "x[1:2]"]

def dnf(t):
    """sizes of the conjunctions in the disjunctive form of a condition; None when it is too large to try"""
    k = t[0]
    if k == "not":
        xs = dnf(t[1])
        if xs is None:
            return None
        n = 1
        for x in xs:
            n *= x
            if n > 500:
                return None
        return [len(xs)]*n
    if k in ("and", "or"):
        parts = [dnf(x) for x in t[1]]
        if any(x is None for x in parts):
            return None
        if k == "or":
            return sum(parts, [])
        out = [0]
        for x in parts:
            out = [a + b for a in out for b in x]
            if len(out) > 500:
                return None
        return out
    if k == "cmp":
        return [len(t[1])]
    return [1]

def gen_C07(rng):
    while True:
        case = any_C07(rng)
        if case["kind"] == "reject" or dnf(case["tree"]) is not None:
            return case

def any_C07(rng):
    if rng.randrange(40) == 0:
        return dict(kind="reject", expr=rng.choice(REJECT))
    defs = None
    names = ["x", "y", "z"]
    if rng.randrange(5) == 0:
        defs = {"d": gen_arith(rng, 2, names), "c": ["num", rng.choice([2, 3, 0.5])]}
        names = names + ["d", "d", "c"]
    t = gen_logic(rng, 3, names) if rng.randrange(3) == 0 else gen_arith(rng, rng.choice([2, 3, 4]), names)
    return dict(kind="value", tree=t, defs=defs, envs=[gen_env(rng) for _ in range(4)])

TEXTENV = dict((n, f) for n, f in FCN.items() if n.isidentifier())
def run_text(case):
    """the text by Python's own rules against its canonical form, on a grid of field values"""
    s = case["expr"]
    d = case.get("defs")
    try:
        canon = Expr.parse(s, defs=d)
    except ZeroDivisionError:
        return
    import itertools
    G = [1.0, -2.5, 0.0, 3.0, 0.25, -1.0]
    for x, y, z, p, q in itertools.product(G, G, [1.0, 2.0], [True, False], [True, False]):
        env = dict(x=x, y=y, z=z, p=p, q=q, s="a")
        try:
            e = dict(TEXTENV, **env)
            for n, t in (d or {}).items():
                e[n] = eval(t, dict(e)) if isinstance(t, str) else t
            want = eval(s, e)
        except (ZeroDivisionError, OverflowError):
            continue
        try:
            got = ceval(canon, env)
        except Undefined:
            return
        except (ZeroDivisionError, OverflowError, ValueError, TypeError, KeyError) as e:
            raise Violation("{0} has value {1!r} at {2} but its canonical form {3!r} raises {4!r}".format(s, want, env, canon, e))
        if isinstance(want, complex) or isinstance(got, complex):
            continue
        if isinstance(want, bool):
            if bool(got) != want:
                raise Violation("{0} is {1!r} at {2} but its canonical form {3!r} gives {4!r}".format(s, want, env, canon, got))
        elif not (abs(want) > 1e12 or abs(want - got) <= 1e-6*max(1.0, abs(want), abs(got))):
            raise Violation("{0} has value {1!r} at {2} but its canonical form {3!r} has {4!r}".format(s, want, env, canon, got))

def run_C07(case):
    if case["kind"] == "text":
        return run_text(case)
    if case["kind"] == "reject":
        try:
            out = Expr.parse(case["expr"])
        except Exception:
            return
        raise Violation("{0!r} is not in the language but was accepted as {1!r}".format(case["expr"], out))
    t, defs = case["tree"], case["defs"]
    s = text(t)
    d = None
    if defs:
        d = dict((n, text(x) if x[0] != "num" else x[1]) for n, x in defs.items())
    try:
        canon = Expr.parse(s, defs=d)
    except ZeroDivisionError:
        return
    except (OverflowError, ValueError) as e:
        if "conver" in str(e) or "too large" in str(e) or "domain" in str(e):
            return
        raise
    except TypeError as e:
        # complex constants (negative ** fraction) are outside the language
        if "complex" in str(e):
            return
        raise
    for env in case["envs"]:
        env = dict(env)
        try:
            if defs:
                for n, x in defs.items():
                    env[n] = peval(x, env)
            want = value(t, env)
        except Skip:
            continue
        try:
            got = ceval(canon, env)
        except Undefined:
            return
        except (ZeroDivisionError, OverflowError, ValueError, TypeError, KeyError) as e:
            raise Violation("{0} has value {1!r} at {2} but its canonical form {3!r} raises {4!r}".format(s, want, env, canon, e))
        if isinstance(want, bool) != isinstance(got, (bool, numpy.bool_)) and not isinstance(want, bool):
            raise Violation("{0} has value {1!r} but its canonical form {2!r} is boolean".format(s, want, canon))
        if isinstance(want, bool):
            if bool(got) != want:
                raise Violation("{0} is {1} at {2} but its canonical form {3!r} is {4}".format(s, want, env, canon, got))
        elif not abs(got - want) <= 1e-6*(1 + abs(want)) + 1e-9*LIMIT*0:
            # guard against cancellation: recompute with a perturbation bound
            if illconditioned(t, env, defs, want):
                continue
            raise Violation("{0} is {1!r} at {2} but its canonical form {3!r} is {4!r}".format(s, want, env, canon, got))

def illconditioned(t, env, defs, want):
    for eps in (1e-9, -1e-9):
        e2 = dict((n, v*(1 + eps) if isinstance(v, float) and n in ("x", "y", "z") else v) for n, v in env.items())
        try:
            if defs:
                for n, x in defs.items():
                    e2[n] = peval(x, e2)
            w2 = value(t, e2)
        except Skip:
            return True
        if abs(w2 - want) > 1e-7*(1 + abs(want)):
            return True
    return False

################################################################ C08

def gen_C08(rng):
    names = ["x", "y", "z"]
    pool = [gen_arith(rng, rng.choice([1, 2, 3]), names) for _ in range(rng.randrange(1, 4))]
    exprs = []
    for _ in range(rng.randrange(1, 5)):
        r = rng.randrange(4)
        if r == 0:
            exprs.append(rng.choice(pool))
        elif r == 1:
            exprs.append(["bin", rng.choice(["+", "*", "-"]), rng.choice(pool), gen_arith(rng, 1, names)])
        elif r == 2:
            exprs.append(["call", "max", [rng.choice(pool), rng.choice(pool)] + ([["name", "x"]] if rng.randrange(2) else [])])
        else:
            exprs.append(gen_arith(rng, 2, names))
    if rng.randrange(4) == 0:
        exprs.append(["call", "where", [gen_logic(rng, 2, names), ["num", 1], ["num", 0]]])
    if rng.randrange(6) == 0:
        exprs.append(gen_fn(rng, names, sorted(APPROX)))
    if rng.randrange(8) == 0:
        exprs.append(["num", rng.choice([2, 0.5])])
    if rng.randrange(8) == 0:
        exprs.append(["call", "sqrt", [["num", 4]]])
    n = rng.choice([1, 2, 5])
    return dict(exprs=exprs, rows=[gen_env(rng) for _ in range(n)], weight=rng.choice([None, None, "y*y", "x + y", text(rng.choice(pool)), "sin(x)"]), extra=rng.choice([None, None, "groupby", "cut"]),
                filter=gen_logic(rng, rng.choice([1, 2]), names) if rng.randrange(4) == 0 else None, cut=gen_logic(rng, rng.choice([1, 2]), names) if rng.randrange(4) == 0 else None)

def fromtext(s):
    """the tree of a text"""
    import ast
    ops = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}
    def rec(n):
        k = n.__class__.__name__
        if k in ("Constant", "Num"): return ["num", n.value]
        if k == "Name": return ["name", n.id]
        if k == "BinOp": return ["bin", ops[n.op.__class__.__name__], rec(n.left), rec(n.right)]
        if k == "UnaryOp":
            o = n.op.__class__.__name__
            return ["not", rec(n.operand)] if o == "Not" else ["neg", rec(n.operand)] if o == "USub" else rec(n.operand)
        if k == "Call": return ["call", n.func.id, [rec(x) for x in n.args]]
        if k == "BoolOp": return [n.op.__class__.__name__.lower(), [rec(x) for x in n.values]]
        if k == "Compare":
            if n.ops[0].__class__.__name__ in ("In", "NotIn"):
                return ["in", rec(n.left), sorted(ast.literal_eval(n.comparators[0])), n.ops[0].__class__.__name__ == "In"]
            return ["cmp", [ops[o.__class__.__name__] for o in n.ops], [rec(n.left)] + [rec(x) for x in n.comparators]]
        raise AssertionError(k)
    return rec(ast.parse(s, mode="eval").body)

def run_C08(case):
    N = len(case["rows"])
    strs = []
    trees = []
    for t in [fromtext(t[1]) if t[0] == "text" else t for t in case["exprs"]]:
        s = text(t)
        try:
            Expr.parse(s)
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        except TypeError as e:
            if "complex" in str(e):
                continue
            raise
        if s not in strs:
            strs.append(s)
            trees.append(t)
    axes = [histbook.axis.bin("n_", N, 0, N)] + [histbook.axis.profile(s) for s in strs]
    if case["extra"] == "groupby":
        axes.append(histbook.axis.groupby("n_ - n_"))
    elif case["extra"] == "cut":
        axes.append(histbook.axis.cut("n_ < 0"))
    opts = {}
    flt, cutexpr = case.get("filter"), case.get("cut")
    wtree = None if case["weight"] is None else fromtext(case["weight"])
    if case["weight"] is not None:
        opts["weight"] = case["weight"]
    if flt is not None:
        opts["filter"] = text(flt)
    if cutexpr is not None:
        axes.append(histbook.axis.cut(text(cutexpr)))
    try:
        h = histbook.hist.Hist(*axes, **opts)
    except (ZeroDivisionError, OverflowError):
        return
    except TypeError as e:
        if "must be a logical" in str(e) or "complex" in str(e):
            return          # a bare name or a constant is refused as a condition
        raise
    want = set(["n_"])
    for s in strs:
        want |= names_of(Expr.parse(s))
    if case["weight"] is not None:
        want |= names_of(Expr.parse(case["weight"]))
    if flt is not None and case["weight"] is not None and not names_of(Expr.parse(case["weight"])):
        return              # a zero weight needs no filter
    if flt is not None:
        want |= names_of(Expr.parse(text(flt)))
    if cutexpr is not None:
        want |= names_of(Expr.parse(text(cutexpr)))
    if sorted(h.fields) != sorted(want):
        raise Violation("fields of {0} with {1} are {2}, expected {3}".format(strs, opts, h.fields, sorted(want)))
    check_plan(h)
    arrs = {"n_": numpy.arange(N, dtype="f8")}
    for n in sorted(set(n for r in case["rows"] for n in r)):
        arrs[n] = numpy.array([r[n] for r in case["rows"]])
    before = dict((n, a.copy()) for n, a in arrs.items())
    ids = dict((n, id(a)) for n, a in arrs.items())
    only = dict((n, a) for n, a in arrs.items() if n in want)
    h.fill(only)
    for n in arrs:
        if not numpy.array_equal(arrs[n], before[n]):
            raise Violation("filling {0} changed the user's array {1} from {2} to {3}".format(strs, n, before[n].tolist(), arrs[n].tolist()))
    node = h._content
    while isinstance(node, dict):
        if len(node) != 1:
            raise Violation("{0} groups of a constant".format(len(node)))
        node = list(node.values())[0]
    if case["extra"] == "cut":
        node = node[:, 0, :] if cutexpr is None or axes[-1] == axes[-2] else node[:, 0, :, :]
    off = 1      # underflow
    for r in range(N):
        env = case["rows"][r]
        w = 1.0
        cell = node[r + off]
        try:
            if case["weight"] is not None:
                w = value(wtree, env)
                if abs(w) < 1e-3 or abs(w) > 1e3:
                    continue
            if cutexpr is not None:
                passed = bool(beval(cutexpr, env))
                if axes[-1] != axes[-2] or case["extra"] != "cut":
                    cell = cell[1 if passed else 0]
            if flt is not None and not beval(flt, env):
                if numpy.all(numpy.isfinite(cell)) and numpy.any(cell != 0):
                    raise Violation("{0} is filtered out by {1}, yet {2} is filled".format(env, text(flt), cell.tolist()))
                continue
        except Skip:
            continue
        for s, t, p in zip(strs, trees, h._profile):
            try:
                v = value(t, env)
            except Skip:
                continue
            got = cell[p._sumwxindex] / w
            if not abs(got - v) <= 1e-6*(1 + abs(v)):
                if illconditioned(t, env, None, v):
                    continue
                raise Violation("{0} at {1} is {2!r} but the plan {3} delivered {4!r}".format(s, env, v, [str(i) for i in h._instructions], got))
            got2 = cell[p._sumwx2index] / w
            if not abs(got2 - v*v) <= 1e-5*(1 + v*v):
                if illconditioned(t, env, None, v):
                    continue
                raise Violation("square of {0} at {1} is {2!r} but the plan {3} delivered {4!r}".format(s, env, v*v, [str(i) for i in h._instructions], got2))

def check_plan(h):
    """each step uses only live quantities; nothing is computed twice"""
    live = {}
    seen = []
    if any(ins.__class__.__name__ not in ("Param", "Assign", "Export", "Delete") for ins in h._instructions):
        return          # another representation of the plan: what it delivers is still compared
    for ins in h._instructions:
        n = ins.__class__.__name__
        if n == "Param":
            if ins.extern in [e for k, e in seen if k == "p"]:
                raise Violation("{0} is requested twice".format(ins))
            seen.append(("p", ins.extern))
            live[ins.name] = True
        elif n == "Assign":
            used = set()
            def walk(e):
                c = e.__class__.__name__
                if c in ("Name", "Predicate"):
                    used.add(e.value)
                elif c == "BroadcastConst":
                    used.add(e.name)
                elif c in ("Call", "BinOp"):
                    for a in e.args:
                        walk(a)
            walk(ins.expr)
            for u in used:
                if u not in live:
                    raise Violation("{0} uses {1}, which is not available in {2}".format(ins, u, [str(i) for i in h._instructions]))
            if ins.expr in [e for k, e in seen if k == "a"]:
                raise Violation("{0} is computed twice".format(ins))
            seen.append(("a", ins.expr))
            live[ins.name] = True
        elif n == "Export":
            if ins.name not in live:
                raise Violation("{0} is not available".format(ins))
        elif n == "Delete":
            if ins.name not in live:
                raise Violation("{0} is not available".format(ins))
            del live[ins.name]

################################################################ C20

def gen_int(rng, depth):
    r = rng.randrange(8)
    if depth <= 0 or r == 0:
        return ["num", rng.choice([1, 2, 3])] if rng.randrange(4) == 0 else ["name", rng.choice(["x", "y", "z", "w"])]
    if r <= 5:
        return ["bin", rng.choice(["+", "-", "*", "+", "*"]), gen_int(rng, depth - 1), gen_int(rng, depth - 1)]
    if r == 6:
        return ["bin", "/", gen_int(rng, depth - 1), ["name", rng.choice(["x", "y"])]]
    f = rng.choice(["sin", "max", "sqrt", "hypot"])
    if f in ("max", "hypot"):
        return ["call", f, [gen_int(rng, depth - 1), gen_int(rng, depth - 1)]]
    return ["call", f, [gen_int(rng, depth - 1)]]

def gen_ilogic(rng, depth):
    r = rng.randrange(6)
    if depth <= 0 or r <= 2:
        k = rng.randrange(5)
        if k == 0:
            return ["name", rng.choice(["p", "q"])]
        if k == 1:
            return ["in", ["name", rng.choice(["x", "y"])], [rng.choice([0, 1, 2, 3]) for _ in range(rng.randrange(1, 3))], bool(rng.randrange(2))]
        return ["cmp", [rng.choice(["<", "<=", "==", "!=", ">", ">="])], [gen_int(rng, 1), gen_int(rng, 1)]]
    if r == 3:
        return ["not", gen_ilogic(rng, depth - 1)]
    return [rng.choice(["and", "or"]), [gen_ilogic(rng, depth - 1) for _ in range(rng.choice([2, 3]))]]

def permute(rng, t):
    k = t[0]
    if k == "bin":
        a, b = permute(rng, t[2]), permute(rng, t[3])
        if t[1] in ("+", "*") and rng.randrange(2):
            a, b = b, a
        return ["bin", t[1], a, b]
    if k == "call":
        return ["call", t[1], [permute(rng, x) for x in t[2]]]
    if k in ("and", "or"):
        xs = [permute(rng, x) for x in t[1]]
        rng.shuffle(xs)
        return [k, xs]
    if k == "not":
        return ["not", permute(rng, t[1])]
    if k == "cmp":
        a, b = [permute(rng, x) for x in t[2]]
        o = t[1][0]
        if rng.randrange(2):
            a, b = b, a
            o = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[o]
        return ["cmp", [o], [a, b]]
    if k == "in":
        xs = list(t[2])
        rng.shuffle(xs)
        return ["in", t[1], xs, t[3]]
    return t

def gen_C20(rng):
    k = rng.randrange(4)
    if k == 0:
        ts = [gen_int(rng, rng.choice([0, 1, 2, 3])) for _ in range(4)]
        if rng.randrange(2):
            ts[1] = permute(rng, ts[0])
        return dict(kind="expr", trees=ts, perm=permute(rng, ts[0]))
    if k == 1:
        ts = [gen_ilogic(rng, rng.choice([0, 1, 2])) for _ in range(4)]
        return dict(kind="expr", trees=ts, perm=permute(rng, ts[0]))
    if k == 2:
        iv = [[rng.choice([0.0, 1.0, -inf, 2.5]), rng.choice([3.0, inf, 2.5]), bool(rng.randrange(2)), bool(rng.randrange(2))] for _ in range(3)]
        return dict(kind="interval", iv=iv)
    a = gen_axis(rng, rng.choice(["bin", "split", "intbin", "cut", "groupby", "groupbin", "profile"]), rng.choice(["x", "y"]))
    fields = [f for f in a if f != "k"]
    f = rng.choice(fields)
    b = dict(a)
    if f == "e":
        b["e"] = "z"
    elif f in ("u", "o", "nan", "cl"):
        b[f] = not b[f]
    elif f in ("lo",):
        b[f] = b[f] - 1
    elif f in ("hi",):
        b[f] = b[f] + 1
    elif f == "n":
        b[f] = b[f] + 1
    elif f == "edges":
        b[f] = list(b[f]) + [100.0] if rng.randrange(2) else [b[f][0] - 0.25] + list(b[f][1:])
    elif f == "w":
        b[f] = b[f]*2
    elif f == "org":
        b[f] = b[f] + 0.125
    if b["k"] == "split" and len(b["edges"]) == 1 and not (b["u"] or b["o"] or b["nan"]):
        b = dict(a, e="z")
        f = "e"
    return dict(kind="axis", a=a, b=b, field=f)

def cmp3(a, b):
    e, l, g = a == b, a < b, b < a
    if [e, l, g].count(True) != 1:
        raise Violation("{0!r} and {1!r}: equal {2}, less {3}, greater {4}".format(a, b, e, l, g))
    if (a != b) == e or (b == a) != e or (a <= b) != (l or e) or (a >= b) != (g or e) or (a > b) != g:
        raise Violation("comparisons of {0!r} and {1!r} are inconsistent".format(a, b))
    if e and hash(a) != hash(b):
        raise Violation("{0!r} and {1!r} are equal but have different hashes".format(a, b))
    return -1 if l else (1 if g else 0)

def structure(x):
    """structural identity of an expression"""
    n = x.__class__.__name__
    if n == "Const":
        return (n, tuple(sorted(x.value)) if isinstance(x.value, set) else x.value)
    if n == "Name":
        return (n, x.value)
    if n == "BroadcastConst":
        return (n, x.name, x.value)
    if n == "Predicate":
        return (n, x.value, x.positive)
    if n in ("Call", "BinOp"):
        return (n, x.fcn) + tuple(structure(y) for y in x.args)
    if n in ("PlusMinus", "TimesDiv"):
        return (n, x.const, tuple(structure(y) for y in x.pos), tuple(structure(y) for y in x.neg))
    if n == "Relation":
        return (n, x.cmp, structure(x.left), structure(x.right))
    return (n,) + tuple(structure(y) for y in x.args)

def parts(x):
    out = [x]
    n = x.__class__.__name__
    if n in ("Call", "BinOp", "LogicalOr", "LogicalAnd"):
        for y in x.args:
            out += parts(y)
    elif n in ("PlusMinus", "TimesDiv"):
        for y in x.pos + x.neg:
            out += parts(y)
    elif n == "Relation":
        out += parts(x.left) + parts(x.right)
    return out

def shorter(x):
    """the same expression without its last component"""
    if x.__class__ is Call and len(x.args) > 0:
        return [Call(x.fcn, *x.args[:-1]), Call(x.fcn, *(x.args + x.args[:1]))]
    if x.__class__ in (PlusMinus, TimesDiv):
        return [x.__class__(x.const, x.pos[:-1], x.neg), x.__class__(x.const, x.pos, x.neg[:-1])]
    if x.__class__ in (LogicalAnd, LogicalOr):
        return [x.__class__(*x.args[:-1])]
    return []

def run_C20(case):
    if case["kind"] == "expr":
        xs = [Expr.parse(text(t)) for t in case["trees"]]
        if Expr.parse(text(case["perm"])) != xs[0] or hash(Expr.parse(text(case["perm"]))) != hash(xs[0]):
            raise Violation("{0} and {1} have different canonical forms {2!r} and {3!r}".format(text(case["trees"][0]), text(case["perm"]), xs[0], Expr.parse(text(case["perm"]))))
        pool = []
        for x in xs:
            pool += parts(x)
        pool = pool[:10] + xs
        pool += [y for x in pool[:6] for y in shorter(x)]
        pool = [x for x in pool if not any(isinstance(y, Const) and not isinstance(y.value, (int, set)) for y in parts(x))]     # constants of one type
        pool = pool + [Predicate("p"), Predicate("p", positive=False), BroadcastConst(None, 2), BroadcastConst("a", 2), BroadcastConst("a", 3), BroadcastConst("b", 2)]
        for a in pool:
            for b in pool:
                c = cmp3(a, b)
                if a.__class__ is b.__class__ and (structure(a) == structure(b)) != (c == 0):
                    raise Violation("{0!r} and {1!r} compare as {2}".format(a, b, c))
        for a, b, c in itertools.product(pool[:8], repeat=3):
            if a < b and b < c and not a < c:
                raise Violation("order is not transitive: {0!r} < {1!r} < {2!r}".format(a, b, c))
    elif case["kind"] == "interval":
        xs = [histbook.axis.Interval(*i) for i in case["iv"]] + [histbook.axis.IntervalNaN()]
        keys = [tuple(i) for i in case["iv"]] + ["nan"]
        for a, ka in zip(xs, keys):
            for b, kb in zip(xs, keys):
                if (a == b) != (ka == kb) or (a != b) == (ka == kb):
                    raise Violation("{0!r} == {1!r} is {2}".format(a, b, a == b))
                if ka == kb and hash(a) != hash(b):
                    raise Violation("equal intervals {0!r} have different hashes".format(a))
                if ka != "nan" and kb == "nan" and not a < b:
                    raise Violation("{0!r} is not less than {1!r}".format(a, b))
                if ka != "nan" and kb != "nan" and (a < b) != (ka[0] < kb[0]):
                    raise Violation("{0!r} < {1!r} is {2}".format(a, b, a < b))
    else:
        a, a2, b = build_axis(case["a"]), build_axis(case["a"]), build_axis(case["b"])
        if not a == a2 or a != a2 or hash(a) != hash(a2) or not a == a.copy() or hash(a) != hash(a.copy()):
            raise Violation("equal axes {0!r} compare as different".format(a))
        if a == b or b == a or not a != b:
            raise Violation("axes that differ in {0} compare as equal: {1!r} {2!r}".format(case["field"], a, b))
        if a == histbook.axis.profile("x") and case["a"]["k"] != "profile":
            raise Violation("an axis equals a profile")
        if hasattr(a, "compatible"):
            if a.compatible(b) != (case["field"] == "e") or not a.compatible(a2):
                raise Violation("compatible of axes that differ in {0} is {1}".format(case["field"], a.compatible(b)))
        r = a.relabel("other")
        if build_axis(dict(case["a"], e="other")) != r:
            raise Violation("relabel of {0!r} gives {1!r}".format(a, r))
