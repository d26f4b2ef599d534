"""The concrete reading of a contract: runs it on the unmodified code with
given inputs (replay of a counter-model, or one model per proved path as a
cross-check of the engine) or with seeded pseudo-random inputs (the bounded
stand-in and the search for a failing input)."""
import math
import random


class Violation(Exception):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Skip(BaseException):
    pass


POOL = [0, 0, 1, -1, 2, -2, 0.5, -0.5, 10, -10, 3, 100, -100, 0.25, 7, 0.001]
ANGLES = [0, 30, 45, 60, 90, 120, 135, 150, 180, -30, -45, -90, -135, -180,
          270, 360, 10, 200, 1, -1]


class ConcreteSource(object):
    symbolic = False

    def __init__(self, values=None, rng=None):
        self.given = values or {}
        self.rng = rng or random.Random(0)
        self.names = {}
        self.inputs = {}
        self.drawn = []
        self.checks = 0
        self.labels = set()
        self.note = {}

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def _get(self, name, gen):
        name = self._name(name)
        if name in self.given and self.given[name] is not None:
            v = self.given[name]
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, pool=None, small=False):
        r = self.rng

        def gen():
            for _ in range(50):
                k = r.random()
                if pool is not None and k < 0.7:
                    v = r.choice(pool)
                elif self.drawn and k < 0.15:
                    v = r.choice(self.drawn)
                elif k < 0.5:
                    v = r.choice(POOL)
                elif k < 0.8:
                    v = r.randint(-40, 40) / 4
                else:
                    v = round(r.uniform(-100, 100), 3)
                if (lo is None or v >= lo) and (hi is None or v <= hi):
                    return v
            a = lo if lo is not None else -100
            b = hi if hi is not None else max(a, 0) + 100
            return r.uniform(a, b)
        v = self._get(name, gen)
        self.drawn.append(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        if isinstance(v, float) and (v != v or abs(v) > 1e6):
            raise Skip()
        return v

    def angle(self, name, **kw):
        r = self.rng
        v = self._get(name, lambda: r.choice(ANGLES) if r.random() < 0.7
                      else round(r.uniform(-400, 400), 2))
        if abs(v) > 1e6:
            raise Skip()
        return v

    def reals(self, name, n, **kw):
        return [self.real('%s%d' % (name, i), **kw) for i in range(n)]

    def int(self, name, lo=None, hi=None, **kw):
        r = self.rng
        a = -6 if lo is None else lo
        b = a + 12 if hi is None else hi
        v = self._get(name, lambda: r.randint(a, b))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    ATOMS = ['a', 'b', 'c', 'foo', 'bar', 'x-y', 'Zed', '']

    def atom(self, name, pool=None, **kw):
        r = self.rng
        v = self._get(name, lambda: r.choice(pool or self.ATOMS))
        return v if isinstance(v, str) else 'atom%s' % v

    def choice(self, name, options):
        options = list(options)
        k = self._get(name, lambda: self.rng.randrange(len(options)))
        if k is None or k >= len(options):
            raise Skip()
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def fork(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, label, cond):
        self.checks += 1
        self.labels.add(label)
        if not cond:
            raise Violation(label)
        return True

    def eq(self, a, b, tol=None, stol=None):
        tol = tol or stol
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if a != a or b != b:
            return False
        if a == b:
            return True
        t = max(1e-7, float(tol or 0))
        return abs(a - b) <= t * (1 + max(abs(a), abs(b)))

    def check_eq(self, label, a, b, tol=None, stol=None):
        tol = tol or stol
        self.checks += 1
        self.labels.add(label)
        num = (int, float)
        try:
            import numpy as np
            num = (int, float, np.number)
        except ImportError:
            pass
        if isinstance(a, num) and isinstance(b, num):
            ok = self.eq(a, b, tol)
        elif type(a) != type(b):
            try:
                ok = self.eq(a, b, tol)
            except Exception:
                ok = False
        else:
            ok = (a == b)
            if not isinstance(ok, bool):
                ok = self.eq(a, b, tol)
        if not ok:
            raise Violation(label, 'got %r, contract says %r' % (a, b))
        return True

    def check_seq(self, label, xs, ys, tol=None, stol=None):
        tol = tol or stol
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            raise Violation(label + '.len', '%r vs %r' % (xs, ys))
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.check_eq('%s[%d]' % (label, i), x, y, tol)
        return True

    EPS = 1e-7

    def le(self, a, b):
        return a <= b + self.EPS * (1 + max(abs(a), abs(b)))

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def min(self, *xs):
        return min(xs)

    def max(self, *xs):
        return max(xs)

    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    radians = staticmethod(math.radians)
    sqrt = staticmethod(math.sqrt)

    def tan(self, x):
        if abs(math.cos(x)) < 1e-6:
            raise Skip()
        return math.tan(x)

    def raises(self, fn, *excs):
        try:
            return fn(), None
        except excs as e:
            return None, e

    def assumption(self, text):
        pass


def run_once(fn, values=None, rng=None):
    """-> ('ok'|'skip'|'violation', source, label, detail)"""
    S = ConcreteSource(values, rng)
    try:
        fn(S)
    except Skip:
        return 'skip', S, None, None
    except Violation as e:
        return 'violation', S, e.label, e.detail
    except RecursionError as e:
        return 'violation', S, 'no-exception[RecursionError]', str(e)
    except Exception as e:
        import traceback
        return ('violation', S, 'no-exception[%s]' % type(e).__name__,
                traceback.format_exc(limit=-5))
    except BaseException as e:
        # sym.Unsupported: the code asks a stand-in what it cannot answer
        if type(e).__name__ != 'Unsupported':
            raise
        return 'skip', S, None, None
    return 'ok', S, None, None
