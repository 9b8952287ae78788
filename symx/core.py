"""Symbolic values and the path-exploring engine.

The repository's own functions are run, unmodified, on the objects defined here.
Every arithmetic operation builds an SMT term; every decision the code takes on a
symbolic value asks the solver which outcomes are possible and the engine later
returns to take the others (depth-first, by re-execution), so that all paths within
the harness bounds are covered.  Verdicts on properties are solver verdicts.
"""
import math
import time
from fractions import Fraction

import z3

ENG = None  # current engine (one per process)


class PathAbort(BaseException):
    """The current path is infeasible or has been cut."""


class StopExplore(BaseException):
    """Stop exploring this case."""


class SpecAbort(BaseException):
    """Speculative evaluation needed a fork."""


class EngineError(BaseException):
    """Internal problem of the engine (never a verdict)."""


class Unsupported(EngineError):
    """A construct the engine cannot execute symbolically."""


# --------------------------------------------------------------------------- terms
def frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(v)  # float: exact


def zval(v):
    """Python number -> z3 numeral."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    f = frac(v)
    return z3.RealVal(f)


def num_of(e):
    """z3 numeral -> Fraction/int or None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def is_sym(v):
    return isinstance(v, (SymNum, SymBool))


def _is_arr(v):
    import numpy as np

    return isinstance(v, np.ndarray)


def _unwrap_np(v):
    """numpy scalar / 0-d array -> python number or SymNum."""
    import numpy as np

    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, np.generic):
        return v.item()
    return v


class SymNum:
    """A symbolic integer or real number."""

    __slots__ = ("_e", "is_int", "sq", "trig", "absof", "dif", "root", "__weakref__")
    __array_ufunc__ = None

    def __init__(self, e, is_int=None, sq=None, trig=None):
        self._e = e
        self.is_int = z3.is_int(e) if is_int is None else is_int
        self.sq = sq      # (SymNum or number) s: this value is sqrt(s), s >= 0
        self.trig = trig  # (sin, cos) of this value, when known
        self.absof = None  # this value is the magnitude of that one
        self.dif = None    # this value is the difference of these two roots
        self.root = None   # (c, s): this value is c times the square root s

    # the term; a square root gets a variable only when its value is needed
    @property
    def e(self):
        if self._e is None:
            self._e = ENG.sqrt_var(self.sq)
        return self._e

    def r(self):
        return z3.ToReal(self.e) if self.is_int else self.e

    # ------------------------------------------------------------------ helpers
    def _lift(self, o):
        """Other operand as (kind, value): 'n' python number, 's' SymNum, None."""
        if isinstance(o, SymNum):
            return "s", o
        if isinstance(o, SymBool):
            return "s", o.as_int()
        if isinstance(o, (bool, int, float, Fraction)):
            if isinstance(o, bool):
                o = int(o)
            return "n", o
        if _is_arr(o):
            return None, None
        if hasattr(o, "item") and hasattr(o, "dtype"):
            return self._lift(o.item())
        return None, None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # --------------------------------------------------------------- arithmetic
    def _bin(self, o, op, rev=False):
        k, v = self._lift(o)
        if k is None:
            if _is_arr(o):
                from . import npshim

                return npshim.scalar_bin(op, self, o, rev)
            return NotImplemented
        if k == "n" and isinstance(v, float) and not math.isfinite(v):
            return _nonfinite(op, self, v, rev)
        a, b = (v, self) if rev else (self, v)
        return arith(op, a, b)

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._bin(o, "*", True)

    def __truediv__(self, o):
        return rounded(self._bin(o, "/"))

    def __rtruediv__(self, o):
        return rounded(self._bin(o, "/", True))

    def __floordiv__(self, o):
        return self._bin(o, "//")

    def __rfloordiv__(self, o):
        return self._bin(o, "//", True)

    def __mod__(self, o):
        return self._bin(o, "%")

    def __rmod__(self, o):
        return self._bin(o, "%", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        o = _unwrap_np(o)
        if isinstance(o, float) and o == int(o) and abs(o) < 64:
            res = self ** int(o)
            return to_real(res)
        if isinstance(o, float) and o == 0.5:
            return sym_sqrt(self)
        if isinstance(o, int) and not isinstance(o, bool):
            if o == 0:
                return 1
            if o < 0:
                return 1 / (self ** (-o))
            if o >= 2 and self.sq is not None:
                r = to_real(self.sq) ** (o // 2) if o // 2 > 1 else to_real(self.sq)
                return r * self if o % 2 else r
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        raise Unsupported(f"power {o!r}")

    def __rpow__(self, o):
        k = self.__index__()
        return o ** k

    def __neg__(self):
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.sq is not None:
            return self
        r = SymNum(z3.If(self.e >= 0, self.e, -self.e), self.is_int)
        r.absof = self
        return r

    def __invert__(self):
        return -self - 1

    def __and__(self, o):
        o = _unwrap_np(o)
        if isinstance(o, int) and (o & (o - 1)) == 0 and o > 0 and self.is_int:
            return (self // o) % 2 * o
        if isinstance(o, int) and o > 0 and (o & (o + 1)) == 0 and self.is_int:
            return self % (o + 1)
        raise Unsupported("bitand")

    __rand__ = __and__

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __lshift__(self, o):
        return self * (2 ** int(o))

    # -------------------------------------------------------------- comparisons
    def _cmp(self, o, op):
        k, v = self._lift(o)
        if k is None:
            if _is_arr(o):
                from . import npshim

                return npshim.scalar_bin(op, self, o, False)
            return NotImplemented
        if k == "n" and isinstance(v, float) and not math.isfinite(v):
            if math.isnan(v):
                return op == "!="
            pos = v > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos,
                    "==": False, "!=": True}[op]
        return compare(op, self, v)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.__index__() if self.is_int else ENG.concretize_real(self))

    def __bool__(self):
        c = compare("!=", self, 0)
        return bool(c)

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ENG.concretize_int(self)

    def __int__(self):
        t = self.__trunc__()
        return t if isinstance(t, int) else t.__index__()

    def __float__(self):
        raise Unsupported("float() of a symbolic value at a C boundary")

    def __round__(self, nd=None):
        return sym_round(self, nd)

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def is_integer(self):
        if self.is_int:
            return True
        return SymBool(z3.IsInt(self.e))

    def item(self):
        return self

    def astype(self, t):
        return cast(self, kind_of_type(t))

    def conjugate(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # numpy object ufuncs call these by name
    def sqrt(self):
        return sym_sqrt(self)

    def sin(self):
        return sym_sin(self)

    def cos(self):
        return sym_cos(self)

    def tan(self):
        return sym_tan(self)

    def arctan(self):
        return sym_arctan(self)

    def arcsin(self):
        return sym_arcsin(self)

    def arccos(self):
        return sym_arccos(self)

    def floor(self):
        return to_real(sym_floor(self))

    def ceil(self):
        return to_real(-sym_floor(-self))

    def rint(self):
        return to_real(sym_round(self))

    def fabs(self):
        return abs(to_real(self))

    # ------------------------------------------------------------------- output
    def __format__(self, spec):
        return ENG.token(self, spec)

    def __str__(self):
        return ENG.token(self, "")

    def __repr__(self):
        return ENG.token(self, "") if ENG is not None and ENG.running else f"<sym {self._e}>"


class SymBool:
    """A symbolic truth value."""

    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def as_int(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), True)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __and__(self, o):
        o = to_bool_term(o)
        if o is None:
            return NotImplemented
        return mkbool(z3.And(self.e, o))

    __rand__ = __and__

    def __or__(self, o):
        o = to_bool_term(o)
        if o is None:
            return NotImplemented
        return mkbool(z3.Or(self.e, o))

    __ror__ = __or__

    def __xor__(self, o):
        o = to_bool_term(o)
        if o is None:
            return NotImplemented
        return mkbool(z3.Xor(self.e, o))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, SymNum):
            return self.as_int() == o
        t = to_bool_term(o)
        if t is None:
            if isinstance(o, (int, float)):
                return self.as_int() == o
            return NotImplemented
        return mkbool(self.e == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.as_int() < o

    def __gt__(self, o):
        return self.as_int() > o

    def __le__(self, o):
        return self.as_int() <= o

    def __ge__(self, o):
        return self.as_int() >= o

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def item(self):
        return self

    def all(self, *a):
        return self

    def any(self, *a):
        return self

    def astype(self, t):
        k = kind_of_type(t)
        return self if k == "b" else cast(self.as_int(), k)

    def __format__(self, spec):
        return format(bool(self), spec)

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return f"<symbool {self.e}>"


def to_bool_term(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0:
        return to_bool_term(o.item())
    return None


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mknum(e, is_int):
    n = num_of(e)
    if n is not None:
        if is_int:
            return int(n)
        if n == 0:
            return 0.0
        f = float(n)
        if Fraction(f) == n:
            return f
    return SymNum(e, is_int)


def _nonfinite(op, s, v, rev):
    if math.isnan(v):
        return v
    if op == "+":
        return v
    if op == "-":
        return v if rev else -v
    if op == "*":
        if bool(s == 0):
            return math.nan
        return v if bool(s > 0) else -v
    if op == "/":
        if rev:
            if bool(s == 0):
                raise ZeroDivisionError("float division by zero")
            return v if bool(s > 0) else -v
        return 0.0
    raise Unsupported("nonfinite " + op)


def to_real(x):
    if isinstance(x, SymNum):
        if x.is_int:
            return SymNum(z3.ToReal(x.e), False)
        return x
    if isinstance(x, SymBool):
        return to_real(x.as_int())
    if isinstance(x, (int, bool)):
        return float(x) if abs(x) < 2 ** 53 else x
    return x


def _terms(a, b):
    """Two operands as z3 terms of one sort + int flag."""
    ai = a.is_int if isinstance(a, SymNum) else isinstance(a, int)
    bi = b.is_int if isinstance(b, SymNum) else isinstance(b, int)
    if ai and bi:
        ta = a.e if isinstance(a, SymNum) else z3.IntVal(a)
        tb = b.e if isinstance(b, SymNum) else z3.IntVal(b)
        return ta, tb, True
    ta = a.r() if isinstance(a, SymNum) else z3.RealVal(frac(a))
    tb = b.r() if isinstance(b, SymNum) else z3.RealVal(frac(b))
    return ta, tb, False


def _isint(x):
    return x.is_int if isinstance(x, SymNum) else isinstance(x, int)


def _root(x):
    """(c, s) when x is c times the square root s, c > 0."""
    if not isinstance(x, SymNum):
        return None
    return x.root if x.root is not None else (Fraction(1), x) if x.sq is not None else None


def arith(op, a, b):
    if ENG.expand and op == "*":
        for x, y in ((a, b), (b, a)):
            if _root(x) is not None and not isinstance(y, SymNum) and y > 0:
                c, s = _root(x)
                c = c * frac(y)
                r = SymNum(None, False, sq=arith("*", to_real(s.sq), c * c))
                r.root = (c, s)
                return r
    r = arith1(op, a, b)
    if ENG.expand and op == "-" and isinstance(r, SymNum) and _root(a) is not None and _root(b) is not None:
        r.dif = (_root(a), _root(b))
    if ENG.expand and isinstance(r, SymNum) and r._e is not None and z3.is_app(r._e) and r._e.num_args() > 1:
        # sums of monomials: polynomials of few variables stay small
        r._e = z3.simplify(r._e, som=True, som_blowup=1000000)
    return r


def arith1(op, a, b):
    """a op b; at least one is a SymNum, the other a SymNum or finite number."""
    an = not isinstance(a, SymNum)
    bn = not isinstance(b, SymNum)
    both_int = _isint(a) and _isint(b)
    if op == "+":
        if an and a == 0:
            return b if both_int or not _isint(b) else to_real(b)
        if bn and b == 0:
            return a if both_int or not _isint(a) else to_real(a)
        ta, tb, i = _terms(a, b)
        return SymNum(ta + tb, i)
    if op == "-":
        if bn and b == 0:
            return a if both_int or not _isint(a) else to_real(a)
        if a is b:
            return 0 if both_int else 0.0
        ta, tb, i = _terms(a, b)
        if an and a == 0:
            return SymNum(-tb, i)
        return SymNum(ta - tb, i)
    if op == "*":
        if (an and a == 0) or (bn and b == 0):
            return 0 if both_int else 0.0
        if an and a == 1:
            return b if both_int or not _isint(b) else to_real(b)
        if bn and b == 1:
            return a if both_int or not _isint(a) else to_real(a)
        if a is b and a.sq is not None:
            return to_real(a.sq)
        if an and a == -1:
            return arith("-", 0 if both_int else 0.0, b)
        if bn and b == -1:
            return arith("-", 0 if both_int else 0.0, a)
        ta, tb, i = _terms(a, b)
        return SymNum(ta * tb, i)
    if op == "/":
        if bn:
            if b == 0:
                raise ZeroDivisionError("division by zero")
            if b == 1:
                return to_real(a)
            ta = a.r()
            return SymNum(ta * z3.RealVal(1 / frac(b)), False)
        ENG.need_nonzero(b)
        if an and a == 0:
            return 0.0
        if a is b:
            return 1.0
        ta = a.r() if not an else z3.RealVal(frac(a))
        return ENG.quotient(ta, b.r())
    if op in ("//", "%"):
        if both_int:
            if bn:
                if b == 0:
                    raise ZeroDivisionError("integer division or modulo by zero")
                if b > 0:
                    t = a.e / b if op == "//" else a.e % b
                    return SymNum(t, True)
                # a // -b == floor(-a / b)
                q = SymNum((-a.e) / (-b), True)
                return q if op == "//" else a - q * b
            ENG.need_nonzero(b)
            if bool(b > 0):
                ta, tb, _ = _terms(a, b)
                return SymNum(ta / tb if op == "//" else ta % tb, True)
            ta, tb, _ = _terms(a, b)
            q = SymNum((-ta) / (-tb), True)
            return q if op == "//" else a - q * b
        q = to_real(sym_floor(to_real(a) / b if not an else a / b))
        return q if op == "//" else a - q * b
    raise Unsupported(op)


_ZOP = {
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
}


def SymNum_root(c, s):
    return SymNum(None, False, sq=arith("*", to_real(s.sq), c * c))


def compare(op, a, b):
    if a is b:
        return op in ("<=", ">=", "==")
    # comparisons of square roots become comparisons of the radicands
    if ENG.expand and op not in ("==", "!="):
        if isinstance(a, SymNum) and a.dif is not None and _root(b) is not None:
            # p - q < k with q and k multiples of one root
            (c1, s1), (c2, s2) = a.dif
            c3, s3 = _root(b)
            if s3 is s2:
                return compare(op, SymNum_root(c1, s1), SymNum_root(c2 + c3, s2))
            if s3 is s1 and c1 > c3:
                return compare(op, SymNum_root(c1 - c3, s1), SymNum_root(c2, s2))
        if isinstance(a, SymNum) and a.absof is not None:
            m = -a.absof
            if a.absof.dif is not None and isinstance(m, SymNum):
                m.dif = a.absof.dif[::-1]
            x, y = compare(op, a.absof, b), compare(op, m, b)
            return bool_and(x, y) if op[0] == "<" else bool_or(x, y)
        if isinstance(b, SymNum) and b.absof is not None:
            return compare({"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op], b, a)
    asq = isinstance(a, SymNum) and a.sq is not None
    bsq = isinstance(b, SymNum) and b.sq is not None
    if asq and bsq:
        return compare2(op, a.sq, b.sq)
    if asq and not isinstance(b, SymNum):
        if b < 0:
            return op in (">", ">=", "!=")
        return compare2(op, a.sq, frac(b) * frac(b))
    if asq and a._e is None and isinstance(b, SymNum):
        nb = compare2("<", b, 0)
        r2 = compare2(op, a.sq, to_real(b) * b)
        neg = op in (">", ">=", "!=")
        return mkbool(z3.If(bterm(nb), z3.BoolVal(neg), bterm(r2)))
    if bsq and b._e is None and isinstance(a, SymNum):
        flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
        return compare(flip[op], b, a)
    return compare2(op, a, b)


def bterm(v):
    return v.e if isinstance(v, SymBool) else z3.BoolVal(bool(v))


def bool_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mkbool(z3.And(bterm(a), bterm(b)))


def bool_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mkbool(z3.Or(bterm(a), bterm(b)))


def bool_not(a):
    return ~a if isinstance(a, SymBool) else not a


def implies(a, b):
    return bool_or(bool_not(a), b)


def sym_atan2(y, x):
    h = sym_sqrt(x * x + y * y)
    a = ENG.fresh_real("atan2")
    a.trig = (y / h, x / h)
    return a


def compare2(op, a, b):
    a, b = _unwrap_np(a), _unwrap_np(b)
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        a, b = frac(a), frac(b)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if _isint(a) != _isint(b):
        # an integer against a rational: stay in integer arithmetic
        for x, y, rev in ((a, b, False), (b, a, True)):
            if isinstance(x, SymNum) and x.is_int and not isinstance(y, SymNum):
                f = frac(y)
                if f.denominator == 1:
                    n = z3.IntVal(int(f))
                    return mkbool(_ZOP[op](n, x.e) if rev else _ZOP[op](x.e, n))
    ta, tb, _ = _terms(a, b)
    if ENG.expand:
        return mkbool(z3.simplify(_ZOP[op](z3.simplify(ta - tb, som=True, som_blowup=1000000), 0)))
    return mkbool(_ZOP[op](ta, tb))


# ----------------------------------------------------------------- real functions
def sym_sqrt(x):
    x = _unwrap_np(x)
    if not isinstance(x, SymNum):
        if isinstance(x, SymBool):
            x = x.as_int()
        else:
            return math.nan if x < 0 else _exact_sqrt(x)
    c = compare2("<", x, 0)
    if c is True or (c is not False and not ENG.known_nonneg(x) and bool(c)):
        return math.nan
    n = num_of(z3.simplify(x.e))
    if n is not None:
        return _exact_sqrt(n)
    return SymNum(None, False, sq=x)


def constant_ratio(ta, tb):
    """c when ta is c times tb."""
    vs, todo, seen = [], [ta, tb], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vs.append(t)
        elif len(seen) > 400:
            return None
        todo.extend(t.children())
    at = [(v, (z3.RealVal if z3.is_real(v) else z3.IntVal)(3 + 7 * i) if z3.is_arith(v) else z3.BoolVal(True)) for i, v in enumerate(vs)]
    a, b = (num_of(z3.simplify(z3.substitute(t, *at))) for t in (ta, tb))
    if a is None or b is None or b == 0:
        return None
    c = frac(a) / frac(b)
    z = z3.simplify(ta - z3.RealVal(c) * tb, som=True)
    return c if num_of(z) == 0 else None


def _square_root(t):
    """r when the term is written as r*r (times a rational square)."""
    if z3.is_app_of(t, z3.Z3_OP_POWER) and num_of(t.arg(1)) == 2:
        return t.arg(0)
    if not z3.is_mul(t):
        return None
    k, rest = Fraction(1), []
    for a in t.children():
        n = num_of(a)
        if n is not None:
            k *= frac(n)
        else:
            r = _square_root(a)
            rest += [r, r] if r is not None else [a]
    rest.sort(key=lambda a: a.get_id())
    if k <= 0 or len(rest) % 2 or any(not rest[i].eq(rest[i + 1]) for i in range(0, len(rest), 2)):
        return None
    p, q = math.isqrt(k.numerator), math.isqrt(k.denominator)
    if p * p != k.numerator or q * q != k.denominator:
        return None
    r = z3.RealVal(Fraction(p, q))
    for i in range(0, len(rest), 2):
        r = r * rest[i]
    return z3.simplify(r)


def _exact_sqrt(n):
    f = frac(n)
    p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if p * p == f.numerator and q * q == f.denominator:
        r = Fraction(p, q)
        fl = float(r)
        return fl if Fraction(fl) == r else SymNum(z3.RealVal(r), False)
    return math.sqrt(float(n)) if ENG is None or not ENG.exact_sqrt else SymNum(None, False, sq=SymNum(z3.RealVal(f), False))


def sym_floor(x):
    x = _unwrap_np(x)
    if not isinstance(x, SymNum):
        return math.floor(x)
    if x.is_int:
        return x
    return SymNum(z3.ToInt(x.e), True)


def sym_trunc(x):
    if not isinstance(x, SymNum):
        return math.trunc(x)
    if x.is_int:
        return x
    if ENG.known_nonneg(x):
        return SymNum(z3.ToInt(x.e), True)
    return SymNum(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)), True)


def sym_round(x, nd=None):
    x = _unwrap_np(x)
    if not isinstance(x, SymNum):
        return round(x) if nd is None else round(x, nd)
    if nd is None or nd == 0:
        if x.is_int:
            return x
        # round half to even
        fl = z3.ToInt(x.e)
        d = x.e - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        up = z3.Or(d > half, z3.And(d == half, fl % 2 == 1))
        r = SymNum(z3.If(up, fl + 1, fl), True)
        return r if nd is None else to_real(r)
    s = 10 ** nd
    return to_real(sym_round(to_real(x) * s)) / s


def trig_of(x):
    if not isinstance(x, SymNum):
        f = float(x)
        if f == 0.0:
            return 0.0, 1.0
        return math.sin(f), math.cos(f)
    if x.trig is None:
        x.trig = ENG.trig_pair(x)
    return x.trig


def sym_sin(x):
    return trig_of(_unwrap_np(x))[0]


def sym_cos(x):
    return trig_of(_unwrap_np(x))[1]


def sym_tan(x):
    s, c = trig_of(_unwrap_np(x))
    return s / c


def sym_arctan(t):
    t = _unwrap_np(t)
    if not isinstance(t, SymNum):
        return math.atan(t)
    h = sym_sqrt(1 + t * t)
    s, c = t / h, 1.0 / h
    a = ENG.fresh_real("atan")
    ENG.define(z3.And(a.e > z3.RealVal("-1571/1000"), a.e < z3.RealVal("1571/1000"),
                      (a.e > 0) == (t.e > 0), (a.e == 0) == (t.e == 0)))
    return know_trig(a, (s, c))


def know_trig(a, pair):
    a.trig = pair
    ENG.defs[("trig", a.e.get_id())] = pair
    ENG.keep.append(a.e)
    return a


def sym_arcsin(s):
    s = _unwrap_np(s)
    if not isinstance(s, SymNum):
        return math.asin(s) if abs(s) <= 1 else math.nan
    if bool(compare2(">", s * s, 1)):
        return math.nan
    a = ENG.fresh_real("asin")
    ENG.define(z3.And(a.e > z3.RealVal("-1571/1000"), a.e < z3.RealVal("1571/1000"),
                      (a.e > 0) == (s.e > 0), (a.e == 0) == (s.e == 0)))
    return know_trig(a, (s, sym_sqrt(1 - s * s)))


def rounded(q):
    """A quotient as floating point delivers it: off by a relative error of up to 2^-51 (only in cases that ask for it)."""
    if ENG is None or not ENG.rounded or not isinstance(q, SymNum):
        return q
    d = ENG.fresh_real("round")
    u = z3.Q(1, 2 ** 51)
    ENG.define(z3.And(d.e <= 1 + u, d.e >= 1 - u))
    return SymNum(z3.ToReal(q.e) if q.is_int else q.e, False)._bin(d, "*")


def sym_arccos(c):
    c = _unwrap_np(c)
    if not isinstance(c, SymNum):
        return math.acos(c) if abs(c) <= 1 else math.nan
    if bool(compare2(">", c * c, 1)):
        return math.nan
    a = ENG.fresh_real("acos")
    pi = Fraction(math.pi)
    ENG.define(z3.And(a.e >= 0, a.e <= z3.RealVal(pi + Fraction(1, 10 ** 15)),
                      (a.e == 0) == (c.e == 1), (a.e >= z3.RealVal(pi - Fraction(1, 10 ** 15))) == (c.e == -1),
                      (a.e < z3.RealVal(pi / 2)) == (c.e > 0)))
    return know_trig(a, (sym_sqrt(1 - c * c), c))


def sym_min(a, b):
    a, b = _unwrap_np(a), _unwrap_np(b)
    if not is_sym(a) and not is_sym(b):
        return b if b < a else a
    c = b < a if isinstance(b, SymNum) else a > b
    return ite(c, lambda: b, lambda: a)


def sym_max(a, b):
    a, b = _unwrap_np(a), _unwrap_np(b)
    if not is_sym(a) and not is_sym(b):
        return b if b > a else a
    c = b > a if isinstance(b, SymNum) else a < b
    return ite(c, lambda: b, lambda: a)


def _mergeable(v):
    return isinstance(v, (SymNum, SymBool, bool, int, float, Fraction)) and not (
        isinstance(v, float) and not math.isfinite(v))


def merge_values(ce, t, f):
    """If(ce, t, f) of two numbers."""
    if t is f:
        return t
    if isinstance(t, (bool, SymBool)) and isinstance(f, (bool, SymBool)):
        return mkbool(z3.If(ce, bterm(t), bterm(f)))
    if isinstance(t, (bool, SymBool)):
        t = t.as_int() if isinstance(t, SymBool) else int(t)
    if isinstance(f, (bool, SymBool)):
        f = f.as_int() if isinstance(f, SymBool) else int(f)
    if not isinstance(t, SymNum) and not isinstance(f, SymNum) and t == f and type(t) is type(f):
        return t
    tt, tf, i = _terms(t, f)
    if tt.eq(tf):
        return SymNum(tt, i)
    return SymNum(z3.If(ce, tt, tf), i)


def ite(c, ft, ff):
    """c ? ft() : ff(), merged into one value when both are numbers."""
    if not isinstance(c, SymBool):
        return ft() if c else ff()
    if z3.is_true(c.e) or z3.is_false(c.e):
        return ft() if z3.is_true(c.e) else ff()
    eng = ENG
    known = eng.implied(c.e)
    if known is not None:
        return ft() if known else ff()
    mark = eng.mark()
    try:
        with eng.speculate():
            t = _unwrap_np(ft())
            f = _unwrap_np(ff())
    except (SpecAbort, Exception):
        t = f = None
    if t is None or not (_mergeable(t) and _mergeable(f)):
        return ft() if bool(c) else ff()
    return merge_values(c.e, t, f)


def kind_of_type(t):
    import numpy as np

    if t in ("i", "f", "b", "O"):
        return t
    if t is int or t is bool or t is float:
        return {int: "i", bool: "b", float: "f"}[t]
    if t is None:
        return "f"
    if isinstance(t, type) and getattr(t, "_sx_kind", None):
        return t._sx_kind
    try:
        d = np.dtype(t)
    except TypeError:
        return "O"
    if d.metadata and "k" in d.metadata:
        return d.metadata["k"]
    return {"i": "i", "u": "i", "f": "f", "b": "b"}.get(d.kind, "O")


def cast(v, k):
    """Cast a scalar the way a numpy array of that kind would."""
    v = _unwrap_np(v)
    if k == "i":
        if isinstance(v, SymBool):
            return v.as_int()
        if isinstance(v, SymNum):
            return sym_trunc(v)
        return int(v) if isinstance(v, (float, bool, Fraction)) else v
    if k == "f":
        if isinstance(v, (SymNum, SymBool)):
            return to_real(v)
        if isinstance(v, (int, bool)):
            return float(v)
        return v
    if k == "b":
        if isinstance(v, SymNum):
            return v != 0
        if isinstance(v, SymBool):
            return v
        return bool(v)
    return v


# ------------------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.discharged = 0
        self.branches = 0
        self.unknown_branch = 0


class Engine:
    def __init__(self, qtimeout=4000, vtimeout=30000, deadline=None, max_paths=None,
                 merge_ifs=False, exact_sqrt=False, logic=None, rounded=False, opaque_linalg=False, expand=False):
        self.qtimeout = qtimeout
        self.vtimeout = vtimeout
        self.deadline = deadline
        self.max_paths = max_paths
        self.merge_ifs = merge_ifs
        self.exact_sqrt = exact_sqrt
        self.opaque_linalg = opaque_linalg
        self.expand = expand
        self.rounded = rounded
        self.solver = z3.Solver() if logic is None else z3.SolverFor(logic)
        self.solver.set("timeout", qtimeout)
        self.solver.set("random_seed", 1)
        self.st = Stats()
        self.events = []
        self.pos = 0
        self.spec = 0
        self.running = False
        self.prefix = []       # forced initial choices (case splitting)
        self.violations = []
        self.inconclusive = []
        self.base = []         # asserted terms on the current path, in order
        self.inputs = {}
        self.sameness = {}

    # -------------------------------------------------------------- exploration
    def explore(self, fn, on_path=None):
        global ENG
        ENG = self
        self.events = []
        truncated = False
        while True:
            self.begin_path()
            self.running = True
            try:
                fn()
                self.st.paths += 1
                if on_path is not None:
                    on_path("done")
            except PathAbort:
                self.st.aborted += 1
            except StopExplore:
                self.st.paths += 1
                self.running = False
                return truncated
            self.running = False
            if self.pos < len(self.events):
                raise EngineError("replay diverged (path ended early)")
            if not self.backtrack():
                return truncated
            if self.max_paths is not None and self.st.paths >= self.max_paths:
                return True
            if self.deadline is not None and time.time() > self.deadline:
                return True

    def begin_path(self):
        self.pos = 0
        self.counter = {}
        self.model = None
        self.tokens = []
        self.tok_vals = {}
        self.defs = {}
        self.base = []
        self.nonneg = {}
        self.keep = []
        self.inputs = {}
        self.late = {}         # variable id -> (order, definition not yet asserted)
        self.seen = set()      # terms whose definitions are all asserted

    def backtrack(self):
        while self.events:
            ev = self.events.pop()
            if ev[0] == "b":
                self.solver.pop()
                if ev[3]:
                    # take the other side
                    self.solver.push()
                    t = z3.Not(ev[1]) if ev[2] else ev[1]
                    self.solver.add(t)
                    self.events.append(["b", ev[1], not ev[2], False, None, ev[5]])
                    self._alt_model = ev[4]
                    return True
        return False

    # ------------------------------------------------------------------- events
    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline + 60:
            raise StopExplore()

    def solve(self, *assumps):
        t = time.time()
        r = self.solver.check(*assumps)
        self.st.queries += 1
        self.st.solver_s += time.time() - t
        return r

    def define(self, term):
        """Add a constraint that is always satisfiable (a definition)."""
        if self.spec:
            raise SpecAbort()
        self._assert(term)
        self.model = None

    def define_late(self, var, term):
        """A definition (always satisfiable, for any value of what it depends on)
        that only matters to terms in which its variable occurs."""
        if self.spec:
            raise SpecAbort()
        self.order = getattr(self, "order", 0) + 1
        for v in var:
            self.late[v.get_id()] = (self.order, term)
        self.keep.append((var, term))

    def needed(self, *terms, mark=False):
        """The definitions these terms depend on that are not asserted yet."""
        if not self.late:
            return []
        out = {}
        todo = list(terms)
        seen = self.seen if mark else set()
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen or i in self.seen and not mark:
                continue
            seen.add(i)
            if mark:
                self.keep.append(t)
            d = self.late.get(i)
            if d is not None:
                if d[0] not in out:
                    out[d[0]] = d[1]
                    todo.append(d[1])
            else:
                todo.extend(t.children())
        if mark:
            for k in [k for k, v in self.late.items() if v[0] in out]:
                del self.late[k]
        return [out[k] for k in sorted(out)]

    def activate(self, term):
        for d in self.needed(term, mark=True):
            self._put(d)
            self.model = None

    def _assert(self, term):
        self.activate(term)
        self._put(term)

    def _put(self, term):
        self.base.append(term)
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev[0] != "a" or ev[2] != term.hash() and not self.same_term(term, ev[1]):
                raise EngineError(f"replay diverged at assert: {term} vs {ev}")
            self.pos += 1
            if self.pos == len(self.events):
                self.model = None
            return
        self.solver.add(term)
        self.events.append(["a", term, term.hash()])
        self.pos += 1

    def same_term(self, a, b):
        """The simplifier may order the arguments of a term differently on replay."""
        key = (a.hash(), b.hash())
        if key not in self.sameness:
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(a != b)
            self.sameness[key] = s.check() != z3.sat
        return self.sameness[key]

    def assume(self, cond):
        """Restrict the path; prune it if impossible."""
        c = bterm(cond) if not isinstance(cond, z3.BoolRef) else cond
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        if self.spec:
            raise SpecAbort()
        replay = self.pos < len(self.events)
        self._assert(c)
        if replay:
            return
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return
        r = self.solve()
        if r == z3.unsat:
            raise PathAbort()
        self.model = self.solver.model() if r == z3.sat else None

    def implied(self, c):
        """True/False when a syntactic check already decides c on this path."""
        for t in self.base:
            if t.eq(c):
                return True
        n = z3.simplify(z3.Not(c))
        for t in self.base:
            if t.eq(n):
                return False
        return None

    def branch(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.spec:
            raise SpecAbort()
        self.activate(c)
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev[0] == "f":
                if ev[5] != c.hash() and not self.same_term(c, ev[1]):
                    raise EngineError("replay diverged at forced branch")
                self.pos += 1
                if self.pos == len(self.events):
                    self.model = None
                return ev[2]
            if ev[0] != "b" or ev[5] != c.hash() and not self.same_term(c, ev[1]):
                raise EngineError(f"replay diverged at branch: {c} vs {ev[:4]}")
            self.pos += 1
            self.base.append(ev[1] if ev[2] else z3.simplify(z3.Not(ev[1])))
            if self.pos == len(self.events):
                self.model = getattr(self, "_alt_model", None)
                self._alt_model = None
            return ev[2]
        self._tick()
        self.st.branches += 1
        val = None
        nc = z3.Not(c)
        mt = mf = None
        if self.model is not None:
            mv = self.model.eval(c, model_completion=True)
            if z3.is_true(mv):
                mt = self.model
            elif z3.is_false(mv):
                mf = self.model
        if mt is None:
            r = self.solve(c)
            if r == z3.sat:
                mt = self.solver.model()
            elif r == z3.unsat:
                self.events.append(["f", c, False, False, None, c.hash()])
                self.pos += 1
                if mf is not None:
                    self.model = mf
                return False
            else:
                self.st.unknown_branch += 1
                mt = "unknown"
        if mf is None:
            r = self.solve(nc)
            if r == z3.sat:
                mf = self.solver.model()
            elif r == z3.unsat:
                self.events.append(["f", c, True, False, None, c.hash()])
                self.pos += 1
                if mt != "unknown":
                    self.model = mt
                return True
            else:
                self.st.unknown_branch += 1
                mf = "unknown"
        # both sides possible; take True first unless a prefix forces a side
        first = True
        alt = True
        self.solver.push()
        self.solver.add(c if first else nc)
        m_first, m_alt = (mt, mf) if first else (mf, mt)
        self.model = None if m_first == "unknown" else m_first
        self.events.append(["b", c, first, alt, None if m_alt == "unknown" else m_alt, c.hash()])
        self.base.append(c if first else z3.simplify(nc))
        self.pos += 1
        return first

    # -------------------------------------------------------------------- verdicts
    def prove(self, cond, exact=None):
        """Does cond hold for every value on this path?  -> (verdict, model).

        verdict: 'holds', 'fails' (with a model), 'unknown'.
        exact: an optional stronger condition that is tried first.
        """
        if self.spec:
            raise SpecAbort()
        c = bterm(cond)
        self.st.checks += 1
        if z3.is_true(c):
            self.st.discharged += 1
            return "holds", None
        if exact is not None:
            x = z3.simplify(bterm(exact), som=True)
            if z3.is_true(x):
                self.st.discharged += 1
                return "holds", None
        n = z3.simplify(z3.Not(c))
        if z3.is_false(n):
            self.st.discharged += 1
            return "holds", None
        if exact is not None and not z3.is_false(x):
            r, _ = self.decide(z3.Not(x), self.qtimeout, quick=True)
            if r == z3.unsat:
                self.st.discharged += 1
                return "holds", None
        r, m = self.decide(n, self.vtimeout)
        if r == z3.unsat:
            self.st.discharged += 1
            return "holds", None
        if r == z3.sat:
            return "fails", m
        return "unknown", None

    def decide(self, term, timeout, quick=False):
        """Satisfiability of the path condition and term."""
        t0 = time.time()
        try:
            self.solver.push()
            self.solver.set("timeout", min(timeout, self.qtimeout))
            self.solver.add(term, *self.needed(term))
            self.st.queries += 1
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            self.solver.set("timeout", self.qtimeout)
            if r != z3.unknown:
                return r, m
            goals = self.relevant(term)
            tries = [
                lambda: z3.Then("simplify", "propagate-values", "solve-eqs",
                                "simplify", "qfnra-nlsat").solver(),
                lambda: z3.SolverFor("QF_NRA"),
            ]
            if any_int(goals):
                tries = [lambda: z3.SolverFor("QF_UFNIA"), lambda: z3.Solver()]
            if quick:
                tries = tries[:1]
            for mk in tries:
                s = mk()
                s.set("timeout", timeout)
                s.add(*goals)
                self.st.queries += 1
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r == z3.unsat:
                    return r, None
                if r == z3.sat:
                    m = s.model()
                    return r, m
            return z3.unknown, None
        finally:
            self.st.solver_s += time.time() - t0

    def relevant(self, term):
        return [t for t in self.base] + self.needed(term) + [term]

    def path_model(self):
        """A model of the current path condition, or None."""
        if self.model is not None:
            return self.model
        r = self.solve()
        if r == z3.sat:
            self.model = self.solver.model()
            return self.model
        if r == z3.unsat:
            raise PathAbort()
        r, m = self.decide(z3.BoolVal(True), self.vtimeout)
        if r == z3.unsat:
            raise PathAbort()
        return m

    def values(self, model):
        """Values of the harness inputs in a model."""
        out = {}
        for name, x in self.inputs.items():
            out[name] = model_value(model, x)
        return out

    def nice_models(self, term, model, grid=(1, 16, 1024), budget=4.0):
        """The model itself and variants with round input values."""
        cands = []
        t0 = time.time()
        s = self.solver
        for g in grid:
            if time.time() - t0 > budget:
                break
            s.push()
            s.set("timeout", 700)
            try:
                s.add(term, *self.needed(term))
                m = model
                ok = True
                for name, x in self.inputs.items():
                    if time.time() - t0 > budget:
                        break
                    if not isinstance(x, SymNum) or x.is_int:
                        continue
                    v = model_value(m, x)
                    if isinstance(v, dict):
                        continue
                    w = Fraction(round(Fraction(v) * g), g)
                    cnd = x.e == z3.RealVal(w)
                    if w == Fraction(v):
                        s.add(cnd)
                        continue
                    r = s.check(cnd)
                    self.st.queries += 1
                    if r == z3.sat:
                        m = s.model()
                        s.add(cnd)
                    else:
                        ok = False
                cands.append(self.values(m))
                if ok:
                    break
            finally:
                s.pop()
                s.set("timeout", self.qtimeout)
        cands.append(self.values(model))
        out = []
        for c in cands:
            if c not in out:
                out.append(c)
        return out

    # ------------------------------------------------------------- speculation
    def mark(self):
        return None

    class _Spec:
        def __init__(self, eng):
            self.eng = eng

        def __enter__(self):
            self.eng.spec += 1

        def __exit__(self, *a):
            self.eng.spec -= 1
            return False

    def speculate(self):
        return Engine._Spec(self)

    # ------------------------------------------------------------ fresh values
    def _name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f"{base}!{n}"

    def fresh_real(self, base="r"):
        return SymNum(z3.Real(self._name(base)), False)

    def fresh_int(self, base="i"):
        return SymNum(z3.Int(self._name(base)), True)

    def fresh_bool(self, base="b"):
        return SymBool(z3.Bool(self._name(base)))

    def sqrt_var(self, s):
        t = s.r() if isinstance(s, SymNum) else z3.RealVal(frac(s))
        t = z3.simplify(t, som=self.expand, som_blowup=1000000)
        key = ("sqrt", t.get_id())
        if key in self.defs:
            return self.defs[key]
        root = _square_root(t)
        if root is not None:
            if self.expand:
                y = root if self.branch(z3.simplify(root >= 0)) else z3.simplify(-root)
            else:
                y = z3.If(root >= 0, root, -root)
            self.defs[key] = y
            self.keep.append(t)
            self.nonneg[y.get_id()] = True
            return y
        y = z3.Real(self._name("sqrt"))
        self.define_late([y], z3.And(y >= 0, y * y == t))
        self.defs[key] = y
        self.keep.append(t)
        self.nonneg[y.get_id()] = True
        return y

    def known_nonneg(self, x):
        if isinstance(x, SymNum) and x.sq is not None:
            return True
        e = x._e if isinstance(x, SymNum) else None
        return e is not None and _syn_nonneg(e, self.nonneg)

    def quotient(self, ta, tb):
        """ta/tb with tb known non-zero, as a fresh variable q with q*tb == ta."""
        key = ("q", ta.get_id(), tb.get_id())
        if key in self.defs:
            return SymNum(self.defs[key], False)
        if self.expand:
            c = constant_ratio(ta, tb)
            if c is not None:
                return SymNum(z3.RealVal(c), False)
            if num_of(ta) != 1:
                # multiples of one reciprocal: their polynomials cancel
                return arith("*", SymNum(ta, False), self.quotient(z3.RealVal(1), tb))
        if self.spec:
            raise SpecAbort()
        q = z3.Real(self._name("q"))
        self.define_late([q], q * tb == ta)
        self.defs[key] = q
        self.keep.append((ta, tb))
        return SymNum(q, False)

    def need_nonzero(self, b):
        c = compare2("==", b, 0)
        if c is False:
            return
        if c is True or bool(c):
            raise ZeroDivisionError("float division by zero")

    def trig_pair(self, x):
        t = z3.simplify(x.e)
        key = ("trig", t.get_id())
        if key in self.defs:
            return self.defs[key]
        n = num_of(t)
        if n is not None:
            return trig_of(float(n))
        if z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2:
            # a known angle that went through unit conversion and back, or was negated
            f = num_of(t.arg(0))
            if f is not None and abs(abs(f) - 1) < 1e-12:
                k2 = ("trig", t.arg(1).get_id())
                if k2 in self.defs:
                    s, c = self.defs[k2]
                    return (s, c) if f > 0 else (-s, c)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = [self.trig_pair(SymNum(x, False)) for x in t.children()[1:]]
            return tuple(merge_values(t.arg(0), u, v) for u, v in zip(a, b))
        s = self.fresh_real("sin")
        c = self.fresh_real("cos")
        self.define_late([s.e, c.e], s.e * s.e + c.e * c.e == 1)
        self.defs[key] = (s, c)
        self.keep.append(t)
        return s, c

    def concretize_int(self, x):
        t = z3.simplify(x.e)
        n = num_of(t)
        if n is not None:
            return int(n)
        if self.spec:
            raise SpecAbort()
        self.activate(t)
        while True:
            # which value to try is part of the trail
            if self.pos < len(self.events):
                ev = self.events[self.pos]
                if ev[0] != "v":
                    raise EngineError("replay diverged at concretization")
                v = ev[1]
                self.pos += 1
                if self.pos == len(self.events):
                    self.model = None
            else:
                v = None
                if self.model is not None:
                    mv = num_of(self.model.eval(t, model_completion=True))
                    v = mv
                if v is None:
                    r = self.solve()
                    if r == z3.unsat:
                        raise PathAbort()
                    if r != z3.sat:
                        raise EngineError("unknown while concretizing an index")
                    self.model = self.solver.model()
                    v = num_of(self.model.eval(t, model_completion=True))
                v = int(v)
                self.events.append(["v", v])
                self.pos += 1
            if self.branch(z3.simplify(t == v)):
                return v

    def concretize_real(self, x):
        raise Unsupported("hash of a symbolic real")

    # ------------------------------------------------------------------ tokens
    def token(self, val, spec):
        from . import text

        return text.make_token(self, val, spec)


def any_int(terms):
    seen = set()
    todo = list(terms)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(t) and not z3.is_int_value(t):
            return True
        todo.extend(t.children())
    return False


def model_value(model, x):
    """A python value for x in the model: bool, int, or a Fraction."""
    if isinstance(x, SymBool):
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, tuple) and x[0] == "angle":
        sn, cs = model_value(model, x[1]), model_value(model, x[2])
        return {"angle": math.atan2(float(sn), float(cs))}
    if not isinstance(x, SymNum):
        return x
    v = model.eval(x.e, model_completion=True)
    n = num_of(v)
    if n is None and z3.is_algebraic_value(v):
        n = num_of(v.approx(25))
    if n is None:
        n = num_of(z3.simplify(v))
    if n is None:
        return 0 if x.is_int else Fraction(0)
    return int(n) if x.is_int else Fraction(n)


def _syn_nonneg(e, extra):
    """Syntactic proof that a real/int term is >= 0."""
    if e.get_id() in extra:
        return True
    n = num_of(e)
    if n is not None:
        return n >= 0
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        return all(_syn_nonneg(c, extra) for c in ch)
    if k == z3.Z3_OP_MUL:
        if len(ch) == 2 and ch[0].eq(ch[1]):
            return True
        # products: pair equal factors
        rest = []
        todo = list(ch)
        while todo:
            a = todo.pop()
            if z3.is_mul(a):
                todo += a.children()
            else:
                rest.append(a)
        out = []
        while rest:
            a = rest.pop()
            for i, b in enumerate(rest):
                if a.eq(b):
                    rest.pop(i)
                    break
            else:
                out.append(a)
        return all(_syn_nonneg(c, extra) for c in out)
    if k == z3.Z3_OP_POWER:
        p = num_of(ch[1])
        return p is not None and p == int(p) and int(p) % 2 == 0
    if k == z3.Z3_OP_ITE:
        return _syn_nonneg(ch[1], extra) and _syn_nonneg(ch[2], extra)
    if k == z3.Z3_OP_TO_REAL:
        return _syn_nonneg(ch[0], extra)
    return False
