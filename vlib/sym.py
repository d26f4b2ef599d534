"""Symbolic values.

The verifier executes the *real* source of /repo (see loader.py) on the values
defined here.  A value carries a z3 term; every operation builds a term, every
truth test of a non-constant SymBool forks the path (Explorer.branch).

Numbers: Python floats/ints/Decimals/Fractions/numpy floats are read as
mathematical reals (this is a stated assumption of every proof).
"""
import math
import numbers
import re as _re
from decimal import Decimal
from fractions import Fraction

import numpy as np
import z3


class Unsupported(BaseException):
    """The construct is outside the verifier's reach (never a violation)."""


class PathEnd(BaseException):
    """This path ends here (assumption violated / loop step finished)."""


class Poison(object):
    """Value of a variable that a loop contract does not describe."""
    def __init__(self, name):
        object.__setattr__(self, '_name', name)

    def _fail(self, *a, **k):
        raise Unsupported('use of variable not described by the loop '
                          'contract: %s' % object.__getattribute__(
                              self, '_name'))
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _fail
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _fail
    __truediv__ = __rtruediv__ = __neg__ = __abs__ = __len__ = _fail
    __iter__ = __getitem__ = __setitem__ = __call__ = __contains__ = _fail
    __pow__ = __iadd__ = __hash__ = __str__ = __format__ = _fail

    def __getattr__(self, name):
        self._fail()


CTX = None          # the current Explorer


def set_ctx(ctx):
    global CTX
    CTX = ctx


PI = z3.Real('PI')
_F = {}


def ufun(name, arity, sort=None):
    key = (name, arity)
    if key not in _F:
        s = z3.RealSort()
        _F[key] = z3.Function(name, *([s] * (arity + 1)))
    return _F[key]


def nice(x):
    """Reads a float as the simple rational it is the rounded image of."""
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float %r' % x)
    if x == int(x):
        return Fraction(int(x))
    fr = Fraction(x).limit_denominator(10 ** 6)
    if abs(float(fr) - x) <= 2 * math.ulp(x):
        return fr
    return None


def rat(fr):
    fr = Fraction(fr)
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))


def real_term(v):
    """-> z3 Real term, or None if v is not a number."""
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, SymInt):
        return z3.ToReal(v.t)
    if isinstance(v, (bool, np.bool_)):
        return rat(int(v))
    if isinstance(v, (int, np.integer)):
        return rat(int(v))
    if isinstance(v, Fraction):
        return rat(v)
    if isinstance(v, Decimal):
        f = nice(float(v))
        if f is not None and abs(Fraction(v) - f) < Fraction(1, 10 ** 20):
            return rat(f)
        return _float_term(float(v))
    if isinstance(v, (float, np.floating)):
        return _float_term(float(v))
    return None


def _float_term(x):
    f = nice(x)
    if f is not None:
        return rat(f)
    q = nice(x / math.pi)
    if q is not None and q.denominator <= 720 and q.numerator <= 10 ** 4:
        return z3.simplify(rat(q) * PI)
    q = nice(x * math.pi)
    if q is not None and q.denominator <= 720:
        return rat(q) / PI
    return rat(Fraction(x))


def const_of(t):
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


class SymBool(object):
    __slots__ = ('t',)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __eq__(self, other):
        o = bool_term(other)
        if o is None:
            return NotImplemented
        return mkbool(self.t == o)

    def __ne__(self, other):
        o = bool_term(other)
        if o is None:
            return NotImplemented
        return mkbool(self.t != o)

    __hash__ = None

    def __and__(self, other):
        return mkbool(z3.And(self.t, bool_term(other)))
    __rand__ = __and__

    def __or__(self, other):
        return mkbool(z3.Or(self.t, bool_term(other)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __repr__(self):
        return '<SymBool %s>' % self.t


def bool_term(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, (bool, np.bool_)):
        return z3.BoolVal(bool(v))
    return None


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mkreal(t):
    return SymReal(t)


class _Num(object):
    """Arithmetic shared by SymReal and SymInt (results are SymReal unless
    both operands are integers and the operation is closed)."""
    __slots__ = ('t',)
    __array_ufunc__ = None

    def _bin(self, other, op, rev=False):
        if isinstance(other, np.ndarray):
            out = np.empty(other.shape, dtype=object)
            for ix in np.ndindex(other.shape):
                out[ix] = self._bin(other[ix], op, rev)
            return out
        if isinstance(other, complex):
            raise Unsupported('complex arithmetic')
        o = real_term(other)
        if o is None:
            return NotImplemented
        both_int = isinstance(self, SymInt) and (
            isinstance(other, (SymInt, int, np.integer)))
        if both_int:
            a = self.t
            b = other.t if isinstance(other, SymInt) else z3.IntVal(int(other))
        else:
            a = real_term(self)
            b = o
        if rev:
            a, b = b, a
        return op(a, b, both_int)

    def __add__(self, other):
        return self._bin(other, _add)

    def __radd__(self, other):
        return self._bin(other, _add, True)

    def __sub__(self, other):
        return self._bin(other, _sub)

    def __rsub__(self, other):
        return self._bin(other, _sub, True)

    def __mul__(self, other):
        return self._bin(other, _mul)

    def __rmul__(self, other):
        return self._bin(other, _mul, True)

    def __truediv__(self, other):
        return self._bin(other, _div)

    def __rtruediv__(self, other):
        return self._bin(other, _div, True)

    def __floordiv__(self, other):
        return self._bin(other, _floordiv)

    def __rfloordiv__(self, other):
        return self._bin(other, _floordiv, True)

    def __mod__(self, other):
        return self._bin(other, _mod)

    def __rmod__(self, other):
        return self._bin(other, _mod, True)

    def __neg__(self):
        return type(self)(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        c = mkbool(self.t >= 0)
        if c is True:
            return self
        if c is False:
            return -self
        return type(self)(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, n):
        if isinstance(n, (float, np.floating)) and float(n).is_integer():
            n = int(n)
        if isinstance(n, (int, np.integer)) and not isinstance(n, bool):
            n = int(n)
            if abs(n) > 12:
                raise Unsupported('large power')
            if n >= 0:
                r = 1
                for _ in range(n):
                    r = self * r
                return r
            return 1 / (self ** (-n))
        if isinstance(n, (float, Fraction)) and Fraction(n) == Fraction(1, 2):
            return sqrt_(self)
        raise Unsupported('symbolic power %r' % (n,))

    def __rpow__(self, other):
        raise Unsupported('symbolic exponent')

    def _cmp(self, other, op):
        if isinstance(other, np.ndarray):
            raise Unsupported('compare number with array')
        o = real_term(other)
        if o is None:
            if isinstance(other, (float, np.floating)):
                raise Unsupported('non-finite comparison')
            return NotImplemented
        return mkbool(op(real_term(self), o))

    def __eq__(self, other):
        if other is None or isinstance(other, (str, tuple, list)):
            return False
        return self._cmp(other, lambda a, b: a == b)

    def __ne__(self, other):
        if other is None or isinstance(other, (str, tuple, list)):
            return True
        return self._cmp(other, lambda a, b: a != b)

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    def __hash__(self):
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        return bool(self != 0)

    def __str__(self):
        raise Unsupported('str() of a symbolic number')

    def __format__(self, spec):
        raise Unsupported('format() of a symbolic number')

    def __repr__(self):
        return '\u27e6%s\u27e7' % self.t

    def __round__(self, n=None):
        raise Unsupported('round() of a symbolic number')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self


class SymReal(_Num):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    def normalize(self, *a):
        return self

    def is_integer(self):
        raise Unsupported('is_integer')


class SymInt(_Num):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    def __index__(self):
        raise Unsupported('symbolic integer used as a concrete index')

    __int__ = __index__


def _wrap(t, both_int):
    if both_int:
        c = const_of(t)
        if c is not None:
            return int(c)
        return SymInt(t)
    return SymReal(t)


def _is_c(t, v):
    c = const_of(t)
    return c is not None and c == v


def _add(a, b, i):
    if _is_c(a, 0):
        return _wrap(b, i)
    if _is_c(b, 0):
        return _wrap(a, i)
    if const_of(a) is not None and const_of(b) is not None:
        return _wrap(z3.simplify(a + b), i)
    return _wrap(a + b, i)


def _sub(a, b, i):
    if _is_c(b, 0):
        return _wrap(a, i)
    if const_of(a) is not None and const_of(b) is not None:
        return _wrap(z3.simplify(a - b), i)
    if a.eq(b):
        return _wrap(z3.IntVal(0) if i else rat(0), i)
    return _wrap(a - b, i)


def _mul(a, b, i):
    zero = z3.IntVal(0) if i else rat(0)
    if _is_c(a, 0) or _is_c(b, 0):
        return _wrap(zero, i)
    if _is_c(a, 1):
        return _wrap(b, i)
    if _is_c(b, 1):
        return _wrap(a, i)
    if const_of(a) is not None and const_of(b) is not None:
        return _wrap(z3.simplify(a * b), i)
    return _wrap(a * b, i)


def _div(a, b, i):
    if i:
        a, b = z3.ToReal(a), z3.ToReal(b)
        a, b = z3.simplify(a), z3.simplify(b)
    z = mkbool(b == 0)
    if z is True or (z is not False and bool(z)):
        raise ZeroDivisionError('division by zero')
    if _is_c(b, 1):
        return SymReal(a)
    if _is_c(a, 0):
        return SymReal(rat(0))
    if const_of(a) is not None and const_of(b) is not None:
        return SymReal(z3.simplify(a / b))
    if const_of(b) is not None:
        return SymReal(a * rat(1 / const_of(b)))
    return SymReal(a / b)


def _floordiv(a, b, i):
    z = mkbool(b == 0)
    if z is True or (z is not False and bool(z)):
        raise ZeroDivisionError('division by zero')
    if i:
        cb = const_of(b)
        if cb is not None and cb > 0:
            return SymInt(a / b)
        raise Unsupported('floor division by a symbolic integer')
    return SymReal(z3.ToReal(z3.ToInt(a / b)))


def _mod(a, b, i):
    z = mkbool(b == 0)
    if z is True or (z is not False and bool(z)):
        raise ZeroDivisionError('modulo by zero')
    if i:
        cb = const_of(b)
        if cb is not None and cb > 0:
            return SymInt(a % b)
        raise Unsupported('modulo by a symbolic integer')
    cb = const_of(b)
    if cb is None:
        raise Unsupported('modulo by a symbolic number')
    # Python float modulo: result has the sign of the divisor
    return SymReal(a - b * z3.ToReal(z3.ToInt(a / b)))


# ---------------------------------------------------------------- functions

def is_sym(x):
    return isinstance(x, (SymReal, SymInt))


_SNAP = (0.0, 1.0, -1.0, 0.5, -0.5)


def _snap(v):
    for s in _SNAP:
        if abs(v - s) < 2e-15:
            return s
    return v


def sqrt_(x):
    if not is_sym(x):
        r = math.sqrt(x)
        q, c = nice(r), nice(float(x))
        if CTX is None or c is None or (q is not None and q * q == c):
            return r
        t = rat(c)      # an irrational constant stays exact
    else:
        t = real_term(x)
    neg = mkbool(t < 0)
    if neg is True or (neg is not False and bool(neg)):
        raise ValueError('math domain error')
    t = z3.simplify(t)
    c = const_of(t)
    if c is not None:
        r = math.sqrt(c)
        q = nice(r)
        if q is not None and q * q == c:
            return r
    f = ufun('sqrt', 1)(t)
    CTX.axiom(('sqrt', t.get_id()), t, z3.And(f >= 0, f * f == t))
    return SymReal(f)


def _angle_const(t):
    """rational multiple of PI -> Fraction (t = q*PI) or None."""
    t = z3.simplify(t)
    if const_of(t) == 0:
        return Fraction(0)
    if t.eq(PI):
        return Fraction(1)
    if z3.is_mul(t) and t.num_args() == 2 and t.arg(1).eq(PI):
        return const_of(t.arg(0))
    return None


_SPECIAL = {  # q mod 2 -> (sin, cos)
    Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1),
    Fraction(3, 2): (-1, 0),
}


def _sincos(x):
    t = z3.simplify(real_term(x), som=True)
    q = _angle_const(t)
    if q is not None and (q % 2) in _SPECIAL:
        s, c = _SPECIAL[q % 2]
        return SymReal(rat(s)), SymReal(rat(c))
    s, c = ufun('sin', 1)(t), ufun('cos', 1)(t)
    CTX.axiom(('sc', t.get_id()), t, s * s + c * c == 1)
    n = z3.simplify(-t, som=True)
    if CTX.has_axiom(('sc', n.get_id())):
        CTX.axiom(('scneg', t.get_id()), (t, n),
                  z3.And(ufun('sin', 1)(n) == -s, ufun('cos', 1)(n) == c))
    CTX.axiom(('sc0', t.get_id()), t,
              z3.Implies(t == 0, z3.And(s == 0, c == 1)))
    CTX.uf_used = True
    return SymReal(s), SymReal(c)


def sin_(x):
    if not is_sym(x):
        return _snap(math.sin(x))
    return _sincos(x)[0]


def cos_(x):
    if not is_sym(x):
        return _snap(math.cos(x))
    return _sincos(x)[1]


def tan_(x):
    if not is_sym(x):
        return _snap(math.tan(x))
    s, c = _sincos(x)
    CTX.assume(real_term(c) != 0)    # tan is only specified off its poles
    return s / c


def radians_(x):
    if not is_sym(x):
        return math.radians(x)
    t = real_term(x)
    r = CTX.deg2rad.get(t.get_id())
    if r is not None:
        return SymReal(r)
    return SymReal(t * PI / 180)


def degrees_(x):
    """A fresh name d with d*PI = 180*t, so that radians(degrees(t)) is t."""
    if not is_sym(x):
        return math.degrees(x)
    t = z3.simplify(real_term(x), som=True)
    c = _angle_const(t)
    if c is not None:
        return SymReal(rat(c * 180))
    d = ufun('degrees', 1)(t)
    CTX.axiom(('deg', t.get_id()), (t, d), d * PI == 180 * t)
    CTX.deg2rad[d.get_id()] = t
    return SymReal(d)


def hypot_(*xs):
    if not any(is_sym(x) for x in xs):
        return math.hypot(*xs)
    return sqrt_(sum((x * x for x in xs), 0))


def atan2_(y, x):
    if not is_sym(y) and not is_sym(x):
        return math.atan2(y, x)
    yt, xt = z3.simplify(real_term(y)), z3.simplify(real_term(x))
    f = ufun('atan2', 2)(yt, xt)
    r = ufun('sqrt', 1)(z3.simplify(xt * xt + yt * yt))
    s, c = ufun('sin', 1)(f), ufun('cos', 1)(f)
    CTX.axiom(('atan2', yt.get_id(), xt.get_id()), (yt, xt), z3.And(
        r >= 0, r * r == xt * xt + yt * yt,
        r * s == yt, r * c == xt, s * s + c * c == 1,
        f > -PI, f <= PI,
        z3.Implies(z3.And(yt == 0, xt >= 0), f == 0),
        z3.Implies(z3.And(yt == 0, xt < 0), f == PI),
        (f > 0) == z3.Or(yt > 0, z3.And(yt == 0, xt < 0)),
        z3.Implies(yt < 0, f < 0)))
    CTX.uf_used = True
    return SymReal(f)


def atan_(x):
    if not is_sym(x):
        return math.atan(x)
    return atan2_(x, 1)


def acos_(x):
    if not is_sym(x):
        return math.acos(x)
    t = z3.simplify(real_term(x))
    bad = mkbool(z3.Or(t > 1, t < -1))
    if bad is True or (bad is not False and bool(bad)):
        raise ValueError('math domain error')
    f = ufun('acos', 1)(t)
    s, c = ufun('sin', 1)(f), ufun('cos', 1)(f)
    CTX.axiom(('acos', t.get_id()), t, z3.And(
        f >= 0, f <= PI, c == t, s >= 0, s * s + c * c == 1))
    CTX.uf_used = True
    return SymReal(f)


def isclose_(a, b, rel_tol=1e-09, abs_tol=0.0):
    if not is_sym(a) and not is_sym(b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    a, b = real_term(a), real_term(b)
    if z3.simplify(a).eq(z3.simplify(b)):
        return True
    ab = lambda t: z3.If(t >= 0, t, -t)
    rt, at = rat(Fraction(str(rel_tol))), rat(Fraction(str(abs_tol)))
    d = ab(a - b)
    return mkbool(z3.Or(d <= rt * ab(a), d <= rt * ab(b), d <= at))


def floor_(x):
    if not is_sym(x):
        return math.floor(x)
    if isinstance(x, SymInt):
        return x
    return SymInt(z3.ToInt(x.t))


def ceil_(x):
    if not is_sym(x):
        return math.ceil(x)
    if isinstance(x, SymInt):
        return x
    return SymInt(-z3.ToInt(-x.t))


# ----------------------------------------------------------- opaque strings

class Atom(object):
    """An arbitrary string known only up to equality (an element of an
    infinite set).  Literals are distinct constants of the same set."""
    __slots__ = ('t', 'name')
    LITS = {}

    def __init__(self, t, name):
        self.t = t
        self.name = name

    @classmethod
    def lit(cls, s):
        if s not in cls.LITS:
            cls.LITS[s] = -1 - len(cls.LITS)
        return z3.IntVal(cls.LITS[s])

    @classmethod
    def term(cls, v):
        if isinstance(v, Atom):
            return v.t
        if isinstance(v, str):
            return cls.lit(v)
        return None

    def __eq__(self, other):
        o = Atom.term(other)
        if o is None:
            return False
        return mkbool(self.t == o)

    def __ne__(self, other):
        o = Atom.term(other)
        if o is None:
            return True
        return mkbool(self.t != o)

    def __hash__(self):
        raise Unsupported('hash of an opaque string')

    def __bool__(self):
        return bool(self != '')

    def __repr__(self):
        return '<Atom %s>' % self.name

    def __str__(self):
        raise Unsupported('str() of an opaque string')

    def __getattr__(self, name):
        raise Unsupported('string operation %s on an opaque string' % name)

    def __iter__(self):
        raise Unsupported('iteration over an opaque string')

    __len__ = __getitem__ = __add__ = __radd__ = __contains__ = __iter__
    __mod__ = __lt__ = __le__ = __gt__ = __ge__ = __iter__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self
