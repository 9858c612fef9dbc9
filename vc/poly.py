"""Normal form of real terms as Laurent polynomials in atoms declared positive (ghost parametrisation).

Contracts over non-linear arithmetic choose their inputs through ghosts (e.g. high = low + numbins*width with
width > 0, value = low + width*y): the normaliser then turns the code's arithmetic into linear terms.  It only
uses ring identities and cancellation of atoms that the path condition makes positive.
"""
from fractions import Fraction
import z3
from core import Ctx

def active():
    c = Ctx.cur
    return c is not None and getattr(c, "positives", None)

def declare_positive(c, *terms):
    if not hasattr(c, "positives") or c.positives is None:
        c.positives = {}
        c.polymemo = {}
        c.keep = []
    for t in terms:
        c.assume(t > 0)
        c.positives[t.get_id()] = t
        c.keep.append(t)

def const(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None

def add(p, q, s=1):
    out = dict(p)
    for m, k in q.items():
        v = out.get(m, 0) + s*k
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out
def mulm(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
        if d[x] == 0:
            del d[x]
    return tuple(sorted(d.items()))
def mul(p, q):
    out = {}
    for m1, k1 in p.items():
        for m2, k2 in q.items():
            m = mulm(m1, m2)
            v = out.get(m, 0) + k1*k2
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
    return out

def poly(e):
    c = Ctx.cur
    i = e.get_id()
    if i in c.polymemo:
        return c.polymemo[i][1]
    p = poly_(e)
    c.polymemo[i] = (e, p)
    return p

def atom(e):
    c = Ctx.cur
    c.keep.append(e)
    c.polymemo.setdefault(("atom", e.get_id()), e)
    return {((e.get_id(), 1),): Fraction(1)}

def poly_(e):
    k = const(e)
    if k is not None:
        return {(): k} if k != 0 else {}
    d = e.decl().kind()
    ch = e.children()
    if d == z3.Z3_OP_ADD:
        out = {}
        for x in ch:
            out = add(out, poly(x))
        return out
    if d == z3.Z3_OP_SUB:
        out = poly(ch[0])
        for x in ch[1:]:
            out = add(out, poly(x), -1)
        return out
    if d == z3.Z3_OP_UMINUS:
        return add({}, poly(ch[0]), -1)
    if d == z3.Z3_OP_MUL:
        out = {(): Fraction(1)}
        for x in ch:
            out = mul(out, poly(x))
        return out
    if d == z3.Z3_OP_DIV:
        a, b = poly(ch[0]), poly(ch[1])
        if len(b) == 1:
            (m, k), = b.items()
            if all(x in Ctx.cur.positives for x, _ in m):
                inv = tuple(sorted((x, -n) for x, n in m))
                return mul(a, {inv: 1/k})
        return atom(rebuild(a) / rebuild(b))
    if d == z3.Z3_OP_TO_REAL:
        x = ch[0]
        dk = x.decl().kind()
        if dk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            kids = [z3.ToReal(y) for y in x.children()]
            if dk == z3.Z3_OP_ADD:
                return poly(z3.Sum(kids)) if len(kids) > 1 else poly(kids[0])
            if dk == z3.Z3_OP_SUB:
                out = kids[0]
                for y in kids[1:]:
                    out = out - y
                return poly(out)
            if dk == z3.Z3_OP_UMINUS:
                return poly(-kids[0])
            return poly(z3.Product(kids))
        if z3.is_int_value(x):
            return {(): Fraction(x.as_long())} if x.as_long() else {}
        if dk == z3.Z3_OP_TO_INT:
            y = nf(x.children()[0])
            return atom(z3.ToReal(z3.ToInt(y)))
        return atom(e)
    return atom(e)

def rebuild(p):
    c = Ctx.cur
    terms = []
    for m, k in sorted(p.items()):
        num, den = [], []
        for x, n in m:
            a = c.polymemo[("atom", x)]
            (num if n > 0 else den).extend([a]*abs(n))
        t = z3.RealVal("{0}/{1}".format(k.numerator, k.denominator))
        if num:
            pr = num[0]
            for a in num[1:]:
                pr = pr*a
            t = pr if k == 1 else t*pr
        for a in den:
            t = t/a
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    out = terms[0]
    for t in terms[1:]:
        out = out + t
    return out

def nf(e):
    if not active():
        return e
    return rebuild(poly(e))

def sign_form(e):
    """a term with the same sign as e: common positive factors and positive denominators removed"""
    if not active():
        return e
    p = poly(e)
    if not p:
        return z3.RealVal(0)
    pos = set(x for m in p for x, _ in m if x in Ctx.cur.positives)
    shift = []
    for x in pos:
        lo = min(dict(m).get(x, 0) for m in p)
        if lo != 0:
            shift.append((x, -lo))
    if shift:
        p = mul(p, {tuple(sorted(shift)): Fraction(1)})
    return rebuild(p)
