"""Shared vocabulary of the contracts."""
import os, re, sys
import z3
import sym, rt, npf, core
from sym import *
from core import Unsupported, PathEnd, ctx
from npf import EArr, Base

def contains(hb, interval, v):
    """v (extended real or NaN) lies in the displayed interval"""
    v = tofloat(v)
    if isinstance(interval, hb.axis.IntervalNaN):
        return zb(v.nan)
    if isinstance(interval, hb.axis.Interval):
        lo, hi = tofloat(interval.low), tofloat(interval.high)
        cl, ch = asbool(interval.closedlow), asbool(interval.closedhigh)
        return zb(And(Or(lt(lo, v), And(cl, eqv(lo, v))), Or(lt(v, hi), And(ch, eqv(v, hi)))))
    raise Unsupported("not an interval: {0!r}".format(interval))

def z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x.z if hasattr(x, "z") else x

def call(f, *a, **k):
    """result of the real code, or the exception it raised"""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        if isinstance(e, (Unsupported, PathEnd)):
            raise
        if ours(e):
            raise Unsupported("engine: {0}: {1}".format(type(e).__name__, e))
        return "raised", e

def ours(e):
    """an exception that comes from a limit of the symbolic values, not from the code"""
    if isinstance(e, AttributeError) and getattr(e, "obj", None) is not None:
        return engine_class(type(e.obj))
    if isinstance(e, (TypeError, AttributeError)):
        names = set(re.findall(r"'([A-Za-z_.]+)'", str(e)))
        return any(n.split(".")[-1] in names or n in names for n in engine_names())
    return False
def engine_class(t):
    m = sys.modules.get(t.__module__)
    f = getattr(m, "__file__", None) or ""
    return os.path.dirname(os.path.abspath(f)) in (os.path.dirname(os.path.abspath(sym.__file__)), os.path.dirname(os.path.abspath(__file__)))
def engine_names():
    out = set()
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None) or ""
        if os.path.dirname(os.path.abspath(f)) in (os.path.dirname(os.path.abspath(sym.__file__)), os.path.dirname(os.path.abspath(__file__))):
            out.update(n for n, x in vars(m).items() if isinstance(x, type) and engine_class(x))
    return out

def must_return(c, clause, f, *a, **k):
    """the real code must not raise on inputs allowed by the precondition"""
    st, out = call(f, *a, **k)
    if st == "raised":
        # an exception of the engine's own making is not one of the code
        tb = out.__traceback__
        last = None
        while tb is not None:
            last = tb
            tb = tb.tb_next
        fn = last.tb_frame.f_code.co_filename
        if not fn.startswith(load_repo()) and isinstance(out, (AttributeError, TypeError, NameError, AssertionError)):
            raise Unsupported("engine: {0}: {1}".format(type(out).__name__, out))
        c.prove(clause + ": no exception", z3.BoolVal(False), why="{0}: {1}".format(type(out).__name__, out), concretise=k.get("_conc"))
        raise PathEnd()
    return out

def load_repo():
    import load
    return load.REPO
