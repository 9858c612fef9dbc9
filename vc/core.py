"""Path-exploring VC generator over the real code.

The code of /repo is executed, function by function, on symbolic values.  Every
branch on a symbolic condition forks the path (by re-execution with a recorded
decision prefix); every clause of a contract is proved under the path condition
by z3 (cvc5 when z3 gives up).  Nothing is bounded: values are arbitrary, arrays
are represented by a generic position, dicts by a generic key, sequences by a
generic element or a summary.
"""
import os, subprocess, tempfile, time, traceback
import z3

class Unsupported(BaseException):
    """outside the subset the engine understands: never a verdict"""

class PathEnd(BaseException):
    """this path has nothing more to say"""

class Ctx(object):
    cur = None

    def __init__(self, prefix, eng):
        self.prefix, self.eng = prefix, eng
        self.trace, self.pc, self.pos = [], [], 0
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.timeout)
        self.counter = {}
        self.notes = []
        self.models = {}       # name -> function giving a concrete description from a model
        self.watch = {}
        self.refine = None
        self.products = None   # a list: integer products are opaque until a counter-model needs them (see imulz)
        self.lazy = None       # a list: facts kept back until a proof needs them
        self.exact = True      # False once something was over-approximated in a way that may refute falsely

    def name(self, base):
        i = self.counter.get(base, 0)
        self.counter[base] = i + 1
        return base if i == 0 else "{0}!{1}".format(base, i)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)

    def require(self, c):
        """assume and stop here if nothing satisfies the path condition any more"""
        self.assume(c)
        self.solver.set("timeout", min(1500, self.eng.timeout))
        r = self.feasible(z3.BoolVal(True))
        self.solver.set("timeout", self.eng.timeout)
        if r == z3.unsat:
            raise PathEnd()

    def feasible(self, c):
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.eng.solver_s += time.time() - t
        self.eng.queries += 1
        return r

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.feasible(c) != z3.unsat
            f = self.feasible(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise PathEnd()
            d = t
            if t and f:
                self.eng.pending.append(self.trace + [False])
        self.trace.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n, what=""):
        """an arbitrary value of range(n): forks without a condition"""
        for k in range(n - 1):
            i = self.pos
            self.pos += 1
            if i < len(self.prefix):
                d = self.prefix[i]
            else:
                d = True
                self.eng.pending.append(self.trace + [False])
            self.trace.append(d)
            if d:
                return k
        return n - 1

    def prove(self, name, goal, concretise=None, why=""):
        eng = self.eng
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if hasattr(goal, "z"):
            goal = goal.z
        t = time.time()
        eng.obligation(name)
        g = z3.simplify(goal)
        status, model, back = None, None, "z3"
        if z3.is_true(g):
            status, back = "discharged", "simplifier"
        else:
            self.solver.push()
            self.solver.add(z3.Not(g))
            self.solver.set("timeout", min(1500, eng.timeout))
            r = self.solver.check()
            self.solver.set("timeout", eng.timeout)
            if r == z3.unknown and fresh_check(self.solver, eng.timeout) == z3.unsat:
                r = z3.unsat
            if r == z3.unknown:
                r = self.solver.check()
            if r != z3.unsat and self.products:
                for p, x, y in self.products:
                    self.solver.add(p == x*y)
                r = self.solver.check()
            if r != z3.unsat and self.lazy:
                self.solver.add(self.lazy)
                r = self.solver.check()
            if r == z3.unsat:
                status = "discharged"
            elif r == z3.sat:
                status = "refuted"
                model = self.solver.model()
                if self.refine is not None:
                    # look for a small counter-model that can be replayed
                    try:
                        self.refine()
                        if self.solver.check() == z3.sat:
                            model = self.solver.model()
                    except Exception:
                        pass
            else:
                if cvc5_check(self.solver, eng.timeout / 1000.0) == "unsat":
                    status, back = "discharged", "cvc5"
                else:
                    status = "unknown"
            self.solver.pop()
        dt = time.time() - t
        eng.solver_s += dt
        rec = dict(name=name, status=status, backend=back, seconds=round(dt, 3), path=list(self.trace), exact=self.exact)
        if model is not None:
            rec["model"] = self.describe(model)
            if concretise is not None:
                try:
                    rec["case"] = concretise(model)
                except Exception as e:
                    rec["case_error"] = repr(e)
            if why:
                rec["why"] = why
        eng.results.append(rec)
        if status == "discharged":
            self.assume(g)
            return True
        return False

    def describe(self, model):
        out = {}
        for n, x in list(self.watch.items()):
            try:
                out[n] = str(model.eval(x, model_completion=True))
            except Exception:
                pass
        if not out:
            for d in model.decls()[:40]:
                out[d.name()] = str(model[d])
        return out

def fresh_check(solver, timeout):
    """the same query by case distinction over its propositions, with equations solved in every case"""
    fs = list(solver.assertions())
    def go(fs, depth):
        # propositions that the assertions fix, then the others of the negated goal
        g = z3.Goal()
        g.add(fs)
        s = z3.Solver()
        s.set("timeout", 600)
        s.add([integral(x) for x in PREP(g)[0]])
        r = s.check()
        if r != z3.unknown or depth == 0:
            return r
        for b in props(fs[-1], []):
            if any(f.eq(b) or f.eq(z3.Not(b)) for f in fs):
                continue
            for f in (b, z3.Not(b)):
                r = go([f] + [z3.simplify(z3.substitute(x, (b, z3.BoolVal(f is b)))) for x in fs], depth - 1)
                if r != z3.unsat:
                    return r
            return z3.unsat
        return r
    return go(fs, 3)

PREP = z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "propagate-values")

def integral(e):
    """comparisons of reals that are sums of integers, as comparisons of integers"""
    k = e.decl().kind() if z3.is_app(e) else None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_real(e.arg(0)):
        a, b = intterm(e.arg(0)), intterm(e.arg(1))
        if a is not None and b is not None:
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b}[k]
        return e
    if z3.is_app(e) and e.num_args() and z3.is_bool(e) and all(z3.is_bool(x) for x in e.children()):
        return e.decl()(*[integral(x) for x in e.children()]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And if k == z3.Z3_OP_AND else z3.Or)([integral(x) for x in e.children()])
    return e

def intterm(e):
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        xs = [intterm(x) for x in e.children()]
        if any(x is None for x in xs):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -xs[0]
        r = xs[0]
        for x in xs[1:]:
            r = r + x if k == z3.Z3_OP_ADD else (r*x if k == z3.Z3_OP_MUL else r - x)
        return r
    return None

def props(e, out):
    if z3.is_const(e) and z3.is_bool(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        if not any(e.eq(x) for x in out):
            out.append(e)
    for x in e.children():
        props(x, out)
    return out

def cvc5_check(solver, seconds):
    try:
        text = "(set-logic ALL)\n" + solver.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(text)
        try:
            p = subprocess.run(["cvc5", "--tlimit={0}".format(int(seconds * 1000)), f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=seconds + 5)
            return p.stdout.decode().strip().split("\n")[0]
        finally:
            os.unlink(f.name)
    except Exception:
        return "unknown"

class Engine(object):
    def __init__(self, timeout=8000, maxpaths=3000, seconds=240):
        self.timeout, self.maxpaths, self.seconds = timeout, maxpaths, seconds
        self.results, self.functions, self.trusted = [], set(), set()
        self.unsupported = []
        self.units = []
        self.solver_s, self.queries, self.paths = 0.0, 0, 0
        self.current = None

    def obligation(self, name):
        pass

    def unit(self, name, fn, functions=(), expect=None):
        """explore every path of fn; fn calls the real code and states clauses with prove()"""
        t0 = time.time()
        self.pending = [[]]
        self.functions.update(functions)
        before = len(self.results)
        n = 0
        info = dict(unit=name, functions=list(functions))
        reached = 0
        while self.pending:
            prefix = self.pending.pop()
            n += 1
            if sum(r["status"] == "refuted" for r in self.results[before:]) >= 6:
                info["stopped"] = "after several refuted obligations; {0} paths not explored".format(len(self.pending) + 1)
                break
            if n > self.maxpaths or time.time() - t0 > self.seconds:
                info["unsupported"] = "budget of {0} paths / {1} s exceeded".format(self.maxpaths, self.seconds)
                break
            ctx = Ctx.cur = Ctx(prefix, self)
            ctx.unit = name
            try:
                fn(ctx)
                reached += 1
            except PathEnd:
                pass
            except Unsupported as e:
                info["unsupported"] = "{0} [{1}]".format(e, where(e))
                break
            except RecursionError as e:
                info["unsupported"] = "recursion"
                break
            except Exception as e:
                # the contract code decides about exceptions of the code under proof with `raises`;
                # anything else that escapes is the engine's own business
                info["unsupported"] = "engine: {0}: {1} [{2}]".format(type(e).__name__, e, where(e))
                break
            finally:
                Ctx.cur = None
        mine = self.results[before:]
        for r in mine:
            r["unit"] = name
        # vacuity: at least one path must reach the end with a satisfiable path condition and at least one clause
        info["paths"] = n
        info["reached"] = reached
        info["obligations"] = len(mine)
        info["discharged"] = sum(r["status"] == "discharged" for r in mine)
        if "unsupported" not in info and (len(mine) == 0):
            info["unsupported"] = "vacuous: no clause was reached"
        if expect is not None and "unsupported" not in info:
            missing = [x for x in expect if not any(r["name"] == x or r["name"].startswith(x) for r in mine)]
            if missing:
                info["unsupported"] = "vacuous: clauses never reached: {0}".format(missing)
        info["seconds"] = round(time.time() - t0, 2)
        self.paths += n
        self.units.append(info)
        return info

def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    inner = [f for f in tb if "/histbook/" in f.filename or "vc:" in f.filename]
    last = tb[-1]
    s = "{0}:{1}".format(os.path.basename(last.filename), last.lineno)
    if inner:
        s = "{0}:{1} <- {2}".format(os.path.basename(inner[-1].filename), inner[-1].lineno, s)
    return s

IMUL = z3.Function("imul", z3.IntSort(), z3.IntSort(), z3.IntSort())
def imulz(x, y):
    """integer product; opaque (a commutative function with its definition on demand) if the contract asked for it"""
    c = Ctx.cur
    if c is None or c.products is None or z3.is_int_value(x) or z3.is_int_value(y):
        return x*y
    x, y = z3.simplify(x), z3.simplify(y)
    p = IMUL(x, y)
    if not any(p.eq(q[0]) for q in c.products):
        c.products.append((p, x, y))
        c.assume(p == IMUL(y, x))
    return p

def ctx():
    c = Ctx.cur
    if c is None:
        raise Unsupported("symbolic value outside of a proof")
    return c
