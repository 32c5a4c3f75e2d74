"""Symbolic execution of Python code by running it on z3 valued stand-ins for numbers.

The code under test is imported and run unchanged; its inputs are SymInt / SymReal objects. Every truth value taken of a
symbolic comparison asks z3 which outcomes are possible under the path condition; the run takes one and the others are
queued, so all paths are enumerated by running the harness again. Assertions are decided by z3 for all values of the path,
and a counterexample's values are run through the same code as plain Python numbers."""
import sys, time, builtins, functools, math
from fractions import Fraction
import z3


class Infeasible(Exception):
    pass


class Incomplete(Exception):
    pass


class Failed(Exception):
    """a property failing on plain values"""


class Deadline(Exception):
    pass


CUR = None  # the running context


def lift(x):
    if isinstance(x, (SymInt, SymReal)):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        f = Fraction(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    return None


def wrap(e):
    e = z3.simplify(e)
    if z3.is_int(e):
        return e.as_long() if z3.is_int_value(e) else SymInt(e)
    return SymReal(e)


def boolean(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def fdiv(a, b):  # floor division of integers or reals
    if z3.is_int(a) and z3.is_int(b):
        # z3's div rounds so that the remainder is not negative
        return z3.If(b > 0, a / b, -(a / -b) + z3.If(a % -b == 0, 0, 0)) if not z3.is_int_value(b) or b.as_long() <= 0 else a / b
    return z3.ToInt(z3.ToReal(a) / z3.ToReal(b) if z3.is_int(a) and z3.is_int(b) else a / b)


class Num:
    def __init__(self, e):
        self.e = e

    def _bin(self, o, f, swap=False):
        b = lift(o)
        if b is None:
            return NotImplemented
        a = self.e
        return wrap(f(b, a) if swap else f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return wrap(-self.e)
    def __pos__(self): return self
    def __abs__(self): return wrap(z3.If(self.e < 0, -self.e, self.e))

    def _div(self, o, kind, swap=False):
        b = lift(o)
        if b is None:
            return NotImplemented
        a = self.e
        if swap:
            a, b = b, a
        if boolean(b == 0):
            raise ZeroDivisionError("division by zero")
        ints = z3.is_int(a) and z3.is_int(b)
        if kind == "/":
            return wrap((z3.ToReal(a) if z3.is_int(a) else a) / (z3.ToReal(b) if z3.is_int(b) else b))
        if ints:
            pos = boolean(b > 0)
            q = a / b if pos else (-a) / (-b)  # z3's div by a positive number is the floor
        else:
            q = z3.ToInt((z3.ToReal(a) if z3.is_int(a) else a) / (z3.ToReal(b) if z3.is_int(b) else b))
        if kind == "//":
            return wrap(q) if ints else wrap(z3.ToReal(q))
        return wrap(a - (q if ints else z3.ToReal(q)) * b)

    def __truediv__(self, o): return self._div(o, "/")
    def __rtruediv__(self, o): return self._div(o, "/", True)
    def __floordiv__(self, o): return self._div(o, "//")
    def __rfloordiv__(self, o): return self._div(o, "//", True)
    def __mod__(self, o): return self._div(o, "%")
    def __rmod__(self, o): return self._div(o, "%", True)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self

    def _cmp(self, o, f, inf):
        b = lift(o)
        if b is None:
            if isinstance(o, float):
                return inf(0.0, o)
            return NotImplemented
        return boolean(f(self.e, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
    def __bool__(self): return bool(boolean(self.e != 0))
    def __hash__(self): return hash(CUR.concrete(self))
    def __repr__(self): return str(self.e)
    def __format__(self, spec): return str(self.e)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


class SymInt(Num):
    def __index__(self): return CUR.concrete(self)
    def __int__(self): return CUR.concrete(self)
    def __float__(self): return float(CUR.concrete(self))
    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def __round__(self, n=None): return self
    def __and__(self, o): return CUR.concrete(self) & (CUR.concrete(o) if isinstance(o, SymInt) else o)
    def __rshift__(self, o): return self // (1 << (CUR.concrete(o) if isinstance(o, SymInt) else o))


class SymReal(Num):
    def __float__(self): return float(CUR.concrete(self))
    def __floor__(self): return wrap(z3.ToInt(self.e))
    def __ceil__(self): return wrap(-z3.ToInt(-self.e))
    def __trunc__(self): return wrap(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
    __int__ = lambda self: CUR.concrete(self.__trunc__()) if isinstance(self.__trunc__(), SymInt) else self.__trunc__()
    def is_integer(self): return boolean(z3.IsInt(self.e))

    def __round__(self, n=None):
        if n:
            raise Incomplete("rounding to digits")
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        return wrap(z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1))))


class SymBool:
    def __init__(self, e): self.e = e
    def __bool__(self): return CUR.branch(self.e)
    def __and__(self, o): return boolean(z3.And(self.e, tob(o)))
    __rand__ = __and__
    def __or__(self, o): return boolean(z3.Or(self.e, tob(o)))
    __ror__ = __or__
    def __invert__(self): return boolean(z3.Not(self.e))
    def __xor__(self, o): return boolean(z3.Xor(self.e, tob(o)))
    __rxor__ = __xor__
    def __eq__(self, o): return boolean(self.e == tob(o))
    def __ne__(self, o): return boolean(self.e != tob(o))
    def __add__(self, o): return wrap(lift(self)) + o
    __radd__ = __add__
    def __hash__(self): return hash(bool(self))
    def __repr__(self): return str(self.e)


def tob(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, (SymInt, SymReal)):
        return o.e != 0
    return z3.BoolVal(bool(o))


class SymList:
    """a sequence of which only the length, a symbolic number, matters; iterating asks the length"""
    def __init__(self, n, item): self.n, self.item = n, item
    def __symlen__(self): return self.n
    def __len__(self): return int(self.n)
    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self.item(k) for k in range(len(self))][i]
        if bool(i < 0): i = i + self.n
        if bool(i >= self.n): raise IndexError("list index out of range")
        return self.item(i)
    def __iter__(self):
        i = 0
        while bool(i < self.n):
            yield self.item(i)
            i += 1


def sym_len(x):
    return x.__symlen__() if hasattr(x, "__symlen__") else builtins.len(x)


class Sym:
    """one symbolic run"""
    symbolic = True

    def __init__(self, eng, prefix):
        self.eng, self.prefix, self.k = eng, prefix, 0
        self.pc = z3.Solver()
        self.pc.set("timeout", 20000)
        self.inputs = {}
        self.taken = []
        self.slice = False

    def _check(self, *es):
        if time.time() > self.eng.end:
            raise Deadline()
        t = time.time()
        r = self.pc.check(*es)
        s = self.eng.sum
        s["solverSeconds"] += time.time() - t
        s["queries"] += 1
        s["unsat" if r == z3.unsat else "sat" if r == z3.sat else "unk"] += 1
        return r

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None: self.pc.add(v >= lo)
        if hi is not None: self.pc.add(v <= hi)
        return SymInt(v)

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.inputs[name] = v
        if lo is not None: self.pc.add(v >= lo)
        if hi is not None: self.pc.add(v <= hi)
        return SymReal(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def pick(self, name, lo, hi):
        return self.concrete(self.int(name, lo, hi))

    def branch(self, e):
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
        else:
            t, f = self._check(e) != z3.unsat, self._check(z3.Not(e)) != z3.unsat
            if not t and not f:
                raise Infeasible()
            v = t
            if t and f:
                self.eng.work.append(self.taken + [False])
        self.k += 1
        self.taken.append(v)
        self.pc.add(e if v else z3.Not(e))
        return v

    def concrete(self, x):
        if not isinstance(x, Num):
            return x
        for _ in range(200):
            # each value is one decision: equal to it or not
            if self.k < len(self.prefix):
                d = self.prefix[self.k]
                val = d[1]
            else:
                if self._check() != z3.sat:
                    raise Infeasible()
                val = self.pc.model().eval(x.e, model_completion=True)
                d = (True, val)
                if self._check(x.e != val) != z3.unsat:
                    if isinstance(x, SymReal):
                        self.slice = True  # one value of infinitely many
                    else:
                        self.eng.work.append(self.taken + [(False, val)])
            self.k += 1
            self.taken.append(d)
            if d[0]:
                self.pc.add(x.e == val)
                return val.as_long() if z3.is_int(x.e) else val.as_fraction() if z3.is_rational_value(val) else float(val.approx(10).as_fraction())
            self.pc.add(x.e != val)
        raise Incomplete("too many values of " + str(x)[:100])

    def assume(self, c):
        e = tob(c)
        self.pc.add(e)
        if self._check() == z3.unsat:
            raise Infeasible()

    def check(self, c, what):
        s = self.eng.sum
        s["asserts"] += 1
        e = tob(c)
        if z3.is_true(z3.simplify(e)):
            return
        r = self._check(z3.Not(e))
        if r == z3.sat:
            self.eng.viol(what, self.model(z3.Not(e)))
        elif r == z3.unknown:
            s["unks"] += 1
            self.eng.unk.add(what)
        self.pc.add(e)
        if self._check() == z3.unsat:
            raise Infeasible()

    def model(self, *es):
        m = None
        if self.pc.check(*es) == z3.sat:
            m = self.pc.model()
        out = {}
        for n, v in self.inputs.items():
            x = m.eval(v, model_completion=True) if m is not None else None
            if x is None: out[n] = "0"
            elif z3.is_bool(v): out[n] = str(z3.is_true(x))
            elif z3.is_int_value(x): out[n] = str(x.as_long())
            elif z3.is_rational_value(x): out[n] = str(x.as_fraction())
            else: out[n] = str(x.approx(12).as_fraction())
        return out

    def reach(self, w): self.eng.reached.add(w)
    def out(self, *a): pass


class Con:
    """one run on plain values"""
    symbolic = False

    def __init__(self, values): self.v = values
    def int(self, name, lo=None, hi=None): return int(Fraction(self.v.get(name, "0")))
    def pick(self, name, lo, hi): return self.int(name)
    def real(self, name, lo=None, hi=None): return float(Fraction(self.v.get(name, "0")))
    def bool(self, name): return self.v.get(name, "False") == "True"
    def concrete(self, x): return x
    def assume(self, c):
        if not c: raise Infeasible()
    def check(self, c, what):
        if not c: raise Failed(what)
    def reach(self, w): pass


class Engine:
    def __init__(self, repo, harness, timeout):
        self.repo, self.harness, self.timeout = repo, harness, timeout
        self.sum = dict(paths=0, ended=0, incomplete=0, crashed=0, stopped=0, asserts=0, viols=0, unks=0, queries=0, unsat=0, sat=0, unk=0, solverSeconds=0.0, insts=0, fns=[])
        self.work, self.reached, self.viols, self.unk, self.inc, self.fns = [[]], set(), [], set(), {}, set()
        self.models = []

    def viol(self, what, ins):
        self.sum["viols"] += 1
        if sum(1 for w, _ in self.viols if w == what) < 4:
            self.viols.append((what, ins))

    def _trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(self.repo):
            return None
        if event == "call":
            self.fns.add(f[len(self.repo) + 1:] + ":" + getattr(frame.f_code, "co_qualname", frame.f_code.co_name))
        elif event == "line":
            self.sum["insts"] += 1
        return self._trace

    def run(self):
        global CUR
        t0 = time.time()
        self.end = t0 + self.timeout
        while self.work:
            if time.time() > self.end or self.sum["paths"] > 20000:
                self.sum["incomplete"] += len(self.work)
                self.inc["deadline"] = len(self.work)
                break
            c = Sym(self, self.work.pop())
            CUR = c
            try:
                sys.settrace(self._trace)
                try:
                    self.harness(c)
                finally:
                    sys.settrace(None)
                self.sum["paths"] += 1
                if c.slice:
                    self.sum["incomplete"] += 1
                    self.inc["one value taken for a symbolic number"] = self.inc.get("one value taken for a symbolic number", 0) + 1
                self.models.append(c.model())
            except Infeasible:
                self.sum["ended"] += 1
            except Deadline:
                self.sum["incomplete"] += 1
                self.inc["deadline"] = self.inc.get("deadline", 0) + 1
            except Incomplete as ex:
                self.sum["incomplete"] += 1
                self.inc[str(ex)] = self.inc.get(str(ex), 0) + 1
                self.models.append(c.model())
            except Exception as ex:
                # an escape from the harness: a violation if the plain run escapes too
                self.viol("uncaught exception %s: %s" % (type(ex).__name__, str(ex)[:200]), c.model())
                self.sum["ended"] += 1
            finally:
                CUR = None
        self.sum["fns"] = sorted(self.fns)
        return time.time() - t0


def concrete(harness, ins):
    try:
        harness(Con(ins))
        return "ok"
    except Failed as ex:
        return "assert: " + str(ex)
    except Infeasible:
        return "assume"
    except Exception as ex:
        return "uncaught exception %s: %s" % (type(ex).__name__, str(ex)[:200])


def run_entry(repo, e, harness, timeout):
    en = Engine(repo, harness, timeout)
    wall = en.run()
    viols, unconf, agree, differ = [], [], 0, []
    for what, ins in en.viols:
        st = concrete(harness, ins)
        (viols if st.startswith(("assert", "uncaught")) else unconf).append({"what": ("assert: " + what) if not what.startswith("uncaught") else what, "in": ins, "native": st, "at": ""})
    for ins in en.models[:60]:
        st = concrete(harness, ins)
        if st == "ok":
            agree += 1
        elif st.startswith(("assert", "uncaught")):
            viols.append({"what": st, "in": ins, "native": st, "at": "plain run of a path the engine passed"})
        else:
            differ.append({"in": ins, "native": st})
    need = e.get("reach", ["end"])
    # runs the proxies could not follow are not explored
    if unconf:
        en.sum["incomplete"] += len(unconf)
    return {"entry": e["entry"], "wall": round(wall, 2), "about": e.get("about", ""), "sum": en.sum, "reach": sorted(en.reached), "unk": sorted(en.unk), "incomplete_reasons": en.inc,
            "violations": viols, "unconfirmed": unconf, "agree": agree, "differ": differ, "sample": en.models[:2], "unreached": [n for n in need if n not in en.reached]}
