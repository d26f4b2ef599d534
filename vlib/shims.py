"""Builtins and libraries as seen by the instrumented code.  Every function
defers to the real one unless a symbolic value is involved."""
import builtins
import decimal
import fractions
import math
from decimal import Decimal
from fractions import Fraction

import numpy as np
import z3

from . import loops, sym
from .sym import Atom, SymBool, SymInt, SymReal, Unsupported, is_sym, \
    mkbool, real_term

NOT_INSTRUMENTED = {'fontconfig', 'harfbuzz', 'icu', '_ffi_api',
                    'opentype', '__version__'}


def _meta(real, extra, call):
    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real) or isinstance(x, extra)

        def __subclasscheck__(cls, c):
            return issubclass(c, real) or c in extra

        def __call__(cls, *a, **k):
            return call(*a, **k)

        def __getattr__(cls, name):
            return getattr(real, name)

        def __eq__(cls, other):
            return other is cls or other is real

        def __hash__(cls):
            return hash(real)

        def __repr__(cls):
            return repr(real)
    return M(real.__name__, (), {'__real__': real})


def _float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.t))
    if isinstance(x, loops.NumText):
        return x.value
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return _float(x.item())
    return builtins.float(x)


def _int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        t = x.t
        c = sym.const_of(z3.simplify(t))
        if c is not None:
            return builtins.int(c)
        return SymInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    return builtins.int(x, *a)


def _str(*a, **k):
    return builtins.str(*a, **k)


Float = _meta(builtins.float, (SymReal,), _float)
Int = _meta(builtins.int, (SymInt,), _int)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.str, Atom, loops.NumText))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.str)

    def __call__(cls, *a, **k):
        return builtins.str(*a, **k)

    def __getattr__(cls, name):
        return getattr(builtins.str, name)

    def __eq__(cls, other):
        return other is cls or other is builtins.str

    def __hash__(cls):
        return hash(builtins.str)


class Str(metaclass=_StrMeta):
    pass


def _isinstance(x, t):
    return builtins.isinstance(x, t)


def _len(x):
    if isinstance(x, loops.SymSeq):
        return x.length
    if type(x) in loops.SEQ_OWNERS:
        return loops.seq_len(x)
    return builtins.len(x)


def _sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def _minmax(name, real, pick):
    def f(*args, **kw):
        if kw.get('key') is not None or 'default' in kw:
            return real(*args, **kw)
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not any(is_sym(x) for x in xs) or not all(
                real_term(x) is not None for x in xs):
            return real(*args, **kw)
        r = xs[0]
        for x in xs[1:]:
            c = pick(x, r)
            if c is True:
                r = x
            elif c is False:
                pass
            else:
                if isinstance(x, (SymInt, int)) and isinstance(
                        r, (SymInt, int)):
                    r = SymInt(z3.If(c.t, _it(x), _it(r)))
                else:
                    r = SymReal(z3.If(c.t, real_term(x), real_term(r)))
        return r
    f.__name__ = name
    return f


def _it(x):
    return x.t if isinstance(x, SymInt) else z3.IntVal(x)


_min = _minmax('min', builtins.min, lambda x, r: x < r)
_max = _minmax('max', builtins.max, lambda x, r: x > r)


def _round(x, n=None):
    if is_sym(x):
        raise Unsupported('round() of a symbolic number')
    return builtins.round(x) if n is None else builtins.round(x, n)


class _MathShim(object):
    __name__ = 'math'
    sin = staticmethod(sym.sin_)
    cos = staticmethod(sym.cos_)
    tan = staticmethod(sym.tan_)
    sqrt = staticmethod(sym.sqrt_)
    radians = staticmethod(sym.radians_)
    degrees = staticmethod(sym.degrees_)
    hypot = staticmethod(sym.hypot_)
    atan2 = staticmethod(sym.atan2_)
    atan = staticmethod(sym.atan_)
    acos = staticmethod(sym.acos_)
    isclose = staticmethod(sym.isclose_)
    floor = staticmethod(sym.floor_)
    ceil = staticmethod(sym.ceil_)

    @staticmethod
    def fabs(x):
        return abs(x) if is_sym(x) else math.fabs(x)

    @staticmethod
    def copysign(x, y):
        if is_sym(x) or is_sym(y):
            a = abs(x)
            return a if y >= 0 else -a   # -0.0 is 0 over the reals
        return math.copysign(x, y)

    @staticmethod
    def fmod(x, y):
        if is_sym(x) or is_sym(y):
            t, u = real_term(x), real_term(y)
            c = sym.const_of(u)
            if c is None:
                raise Unsupported('fmod by a symbolic number')
            q = t / u
            tr = z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q))
            return SymReal(t - u * z3.ToReal(tr))
        return math.fmod(x, y)

    @staticmethod
    def pow(x, y):
        if is_sym(x) or is_sym(y):
            return x ** y
        return math.pow(x, y)

    @staticmethod
    def isnan(x):
        return False if is_sym(x) else math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if is_sym(x) else math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if is_sym(x) else math.isfinite(x)

    def __getattr__(self, name):
        v = getattr(math, name)
        if not callable(v):
            return v

        def f(*a, **k):
            if any(is_sym(x) for x in a):
                raise Unsupported('math.%s of a symbolic number' % name)
            return v(*a, **k)
        return f


MATH = _MathShim()


def _has_sym(a):
    a = np.asarray(a)
    return a.dtype == object and any(is_sym(x) for x in a.flat)


def _det(rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    r = 0
    for j in range(n):
        if not is_sym(rows[0][j]) and rows[0][j] == 0:
            continue
        minor = [row[:j] + row[j + 1:] for row in rows[1:]]
        c = rows[0][j] * _det(minor)
        r = r + c if j % 2 == 0 else r - c
    return r


class _Linalg(object):
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def inv(m):
        if not _has_sym(m):
            return np.linalg.inv(np.asarray(m, dtype=float))
        # assumed contract of numpy.linalg.inv: raises LinAlgError exactly on
        # singular input, otherwise the exact inverse.
        sym.CTX.assumed.add('numpy.linalg.inv: exact inverse, LinAlgError '
                            'exactly on singular input')
        n = m.shape[0]
        rows = [[m[i, j] for j in range(n)] for i in range(n)]
        det = _det(rows)
        if det == 0:
            raise np.linalg.LinAlgError('Singular matrix')
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = [r[:i] + r[i + 1:] for k, r in enumerate(rows)
                         if k != j]
                c = _det(minor)
                if (i + j) % 2:
                    c = -c
                out[i, j] = c / det if is_sym(c) or c != 0 else 0.0
        return out

    @staticmethod
    def det(m):
        if not _has_sym(m):
            return np.linalg.det(np.asarray(m, dtype=float))
        n = m.shape[0]
        return _det([[m[i, j] for j in range(n)] for i in range(n)])

    def __getattr__(self, name):
        return getattr(np.linalg, name)


class _NpShim(object):
    __name__ = 'numpy'
    linalg = _Linalg()

    @staticmethod
    def array(x, dtype=None, **k):
        if isinstance(x, loops.SymSeq):
            raise Unsupported('numpy array of a symbolic sequence')
        if dtype in (Float, builtins.float, Int, builtins.int):
            if _has_sym(np.array(x, dtype=object)):
                return np.array(x, dtype=object, **k)
            dtype = getattr(dtype, '__real__', dtype)
        if dtype is None and sym.CTX is not None:
            a = np.array(x, **k)
            if a.shape == (2, 2) and a.dtype.kind == 'f':
                return a.astype(object)     # elements may become symbolic
            return a
        return np.array(x, dtype=dtype, **k)

    @staticmethod
    def dot(a, b):
        return np.dot(a, b)

    @staticmethod
    def identity(n, *a, **k):
        return np.identity(n)

    def __getattr__(self, name):
        return getattr(np, name)


NP = _NpShim()


class _Exact(Fraction):
    """the exact value of a Decimal"""

    def normalize(self, *a):
        return self


def _decimal(x=0, *a):
    d = _decimal_value(x)
    return _Exact(d) if type(d) is Fraction else d


def _decimal_value(x):
    if is_sym(x):
        return _float(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (builtins.float, np.floating)):
        f = sym.nice(x)
        return f if f is not None else builtins.float(x)
    if isinstance(x, builtins.int):
        return Fraction(x)
    d = Decimal(x)
    if not d.is_finite():
        return d
    return Fraction(d)


class _DecMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Decimal, Fraction))

    def __call__(cls, *a, **k):
        return _decimal(*a, **k)

    def __getattr__(cls, name):
        return getattr(Decimal, name)


class DecimalShim(metaclass=_DecMeta):
    pass


class _DecimalMod(object):
    __name__ = 'decimal'
    Decimal = DecimalShim

    def __getattr__(self, name):
        return getattr(decimal, name)


def _fraction(a=0, b=None):
    if is_sym(a) or is_sym(b):
        return a if b is None else a / b
    return Fraction(a) if b is None else Fraction(a, b)


class _FrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Fraction)

    def __call__(cls, *a, **k):
        return _fraction(*a, **k)

    def __getattr__(cls, name):
        return getattr(Fraction, name)


class FractionShim(metaclass=_FrMeta):
    pass


class _FractionMod(object):
    __name__ = 'fractions'
    Fraction = FractionShim

    def __getattr__(self, name):
        return getattr(fractions, name)


_MODS = {'math': MATH, 'numpy': NP, 'decimal': _DecimalMod(),
         'fractions': _FractionMod()}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in _MODS:
        return _MODS[name]
    g = globals
    return builtins.__import__(name, g, locals, fromlist, level)


def make_builtins():
    d = dict(builtins.__dict__)
    d.update(float=Float, int=Int, str=Str, len=_len, sum=_sum, min=_min,
             max=_max, round=_round, iter=loops.iter_, enumerate=loops.enum_,
             reversed=loops.reversed_, __import__=_import)
    return d
