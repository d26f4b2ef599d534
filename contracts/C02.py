"""C02 - values and conversions of CSS numeric values."""
import math
from fractions import Fraction as F
from vlib.spec import contract
from svgpy.css.types import *
from typed import *

ASSUMPTIONS = [
    'decimal.Decimal arithmetic is exact (it is rounded to 28 digits); the '
    'literals 2.54, 0.9 and pi of the code are their decimal values up to '
    '1e-9 relative',
    'operations: proved for one to three operands of any nesting, operands '
    'being known by their sum value (one or two terms) alone',
    'comparisons are exact up to the library\'s tolerance of 1e-9']

RATIO = {'px': F(1), 'cm': F(9600, 254), 'mm': F(960, 254),
         'q': F(240, 254), 'in': F(96), 'pt': F(4, 3), 'pc': F(16),
         'deg': F(1), 'grad': F(9, 10), 'turn': F(360), 'ms': F(1),
         's': F(1000), 'hz': F(1), 'khz': F(1000), 'dppx': F(1),
         'dpi': F(1, 96), 'dpcm': F(254, 9600), 'number': F(1)}
CANON = {'length': 'px', 'angle': 'deg', 'time': 'ms', 'frequency': 'hz',
         'resolution': 'dppx', None: 'number'}
UNITS = sorted(CATEGORY)


def ratio(S, u):
    if u == 'rad':
        if S.symbolic:
            return 1 / S.radians(F(1))
        r = 180 / math.pi
    else:
        r = RATIO.get(u, F(1))
    return r if S.symbolic else float(r)


def canon(u):
    return CANON[CATEGORY[u]] if u in RATIO or u == 'rad' else u


def near(S, label, got, want):
    """equal up to 1e-9 relative"""
    if S.symbolic:
        S.check(label, S.and_(
            S.le(got, S.max(want * F(1000000001, 1000000000),
                            want * F(999999999, 1000000000))),
            S.le(S.min(want * F(1000000001, 1000000000),
                       want * F(999999999, 1000000000)), got)))
    else:
        S.check_eq(label, got, want)


@contract(max_paths=3000)
def converting(S):
    n = S.real('n')
    a, b = S.choice('a', UNITS), S.choice('b', UNITS)
    x = CSSUnitValue(n, a)
    if a != b and canon(a) != canon(b):
        rejects(S, ValueError, lambda: x.to(b), 'incompatible')
    else:
        y = x.to(b.upper() if S.bool('upper') else b)
        S.check('unit', y.unit == b)
        near(S, 'value', y.value, n * ratio(S, a) / ratio(S, b))
        near(S, 'there-and-back', y.to(a).value, n)
        S.check('new', y is not x)
    S.check_eq('unchanged', x.value, n)
    S.check('unit-unchanged', x.unit == a)


@contract(max_paths=3000)
def comparing(S):
    n, m = S.real('n'), S.real('m')
    a = S.choice('a', UNITS)
    b = S.choice('b', [u for u in UNITS if u == a or canon(u) == canon(a)])
    v = m * ratio(S, b) / ratio(S, a)
    op = S.choice('op', ['==', '!=', '<', '<=', '>', '>='])
    x, y = CSSUnitValue(n, a), CSSUnitValue(m, b)
    if a == 'number' and S.bool('plain'):
        y = m
    r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y,
         '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
    big = S.max(S.max(n, -n), S.max(v, -v)) * (
        F(1, 10 ** 8) if S.symbolic else 1e-8)
    if S.fork(n > v + big):
        S.check('greater', r == (op in ('!=', '>', '>=')))
    elif S.fork(n < v - big):
        S.check('less', r == (op in ('!=', '<', '<=')))
    elif a == b and S.fork(S.eq(n, m)):
        S.check('equal', r == (op in ('==', '<=', '>=')))


# ---- sum values --------------------------------------------------------------

MAPS = [{}, {'px': 1}, {'em': 1}, {'percent': 1}, {'ms': 1},
        {'px': 2, 'em': -1}, {'px': 1, 'ms': -1}, {'px': 1, 'em': 1},
        {'px': 2, 'em': 1}, {'px': 1, 'em': 2}]


def key(m):
    return tuple(sorted((u, p) for u, p in m.items() if not (
        isinstance(p, int) and p == 0)))


def total(items):
    d = {}
    for v, m in items:
        k = key(m)
        d[k] = d[k] + v if k in d else v
    return d


def typ(m):
    """type of a term: product of its units"""
    p = {}
    for u, e in m.items():
        c = CATEGORY[u]
        p[c] = p.get(c, 0) + e
    return {k: v for k, v in p.items() if v}


def child(S, name, maps=MAPS, two=True, same=None):
    """a value with a sum value of one or two terms of one type"""
    m = S.choice(name + '.map', maps if same is None
                 else [m for m in maps if typ(m) == same])
    items = [(S.real(name + '.v'), m)]
    if two and S.bool(name + '.two'):
        m2 = S.choice(name + '.map2', [k for k in MAPS if k != m
                                       and typ(k) == typ(m)] or [m])
        if m2 != m:
            items.append((S.real(name + '.w'), m2))
    return Child(make(typ(m)), items), items


def gives(S, label, r, want):
    """r: sum value computed by the code; want: total()"""
    S.check(label + '.some', r is not None)
    if r is None:
        return
    keys = [key(m) for v, m in r]
    S.check(label + '.merged', len(set(keys)) == len(keys))
    got = total([(v, m) for v, m in r])
    S.check(label + '.terms', sorted(got) == sorted(want))
    for k in want:
        if k in got:
            S.check_eq(label + '.value', got[k], want[k])


def frozen(S, xs):
    for x, items in xs:
        S.check('operand-kept', [m for v, m in x._v] == [m for v, m in items])


@contract(max_paths=12000, prove_s=200)
def sums(S):
    n = S.choice('n', [1, 2, 3])
    xs = [child(S, 'a', two=n < 3)]
    xs += [child(S, 'b%d' % i, two=False, same=typ(xs[0][1][0][1]))
           for i in range(n - 1)]
    r = CSSMathSum(*[x for x, i in xs])
    gives(S, 'sum', r.create_sum_value(), total(
        [t for x, i in xs for t in i]))
    gives(S, 'again', r.create_sum_value(), total(
        [t for x, i in xs for t in i]))
    frozen(S, xs)


@contract(max_paths=12000, prove_s=200)
def products(S):
    n = S.choice('n', [1, 2, 3])
    xs = [child(S, 'a%d' % i, maps=MAPS if n < 3 else MAPS[:6:2],
                two=n < 3) for i in range(n)]
    r = CSSMathProduct(*[x for x, i in xs])
    want = [(1, {})]
    for x, items in xs:
        want = [(v * w, {u: m.get(u, 0) + k.get(u, 0) for u in {**m, **k}})
                for v, m in want for w, k in items]
    got = r.create_sum_value()
    S.check('some', got is not None)
    if got is not None:
        g, w = total(got), total(want)
        S.check('terms', sorted(g) == sorted(w))
        for k in w:
            if k in g:
                S.check_eq('value', g[k], w[k])
    frozen(S, xs)


@contract(max_paths=3000)
def single(S):
    x, items = child(S, 'a')
    gives(S, 'negate', CSSMathNegate(x).create_sum_value(),
          total([(-v, m) for v, m in items]))
    inv = CSSMathInvert(x).create_sum_value()
    if len(items) > 1:
        S.check('no-inverse', inv is None)
    elif S.fork(items[0][0] != 0):
        v, m = items[0]
        gives(S, 'invert', inv, total([(1 / v, {u: -p for u, p
                                                in m.items()})]))
    frozen(S, [(x, items)])
    S.check('unknown', CSSMathNegate(Child(make({}))).create_sum_value()
            is None and CSSMathInvert(Child(make({}))).create_sum_value()
            is None)


@contract(max_paths=6000)
def extremes(S):
    cls = S.choice('class', [CSSMathMin, CSSMathMax])
    n = S.choice('n', [1, 2, 3])
    xs = [child(S, 'a')]
    xs += [child(S, 'b%d' % i, two=False, same=typ(xs[0][1][0][1]))
           for i in range(n - 1)]
    r = cls(*[x for x, i in xs]).create_sum_value()
    one = all(len(i) == 1 for x, i in xs) and \
        len({key(i[0][1]) for x, i in xs}) == 1
    if not one:
        S.check('undetermined', r is None)
    else:
        v = xs[0][1][0][0]
        for x, i in xs[1:]:
            v = (S.min if cls is CSSMathMin else S.max)(v, i[0][0])
        gives(S, 'extreme', r, total([(v, xs[0][1][0][1])]))
    frozen(S, xs)


@contract(max_paths=3000)
def leaves(S):
    n, u = S.real('n'), S.choice('unit', UNITS)
    r = CSSUnitValue(n, u).create_sum_value()
    S.check('one', r is not None and len(r) == 1)
    v, m = r[0]
    c = canon(u)
    S.check('unit', key(m) == (() if c == 'number' else ((c, 1),)))
    near(S, 'value', v, n * ratio(S, u) / ratio(S, c))


@contract(max_paths=6000)
def to_unit(S):
    """any value to a single unit"""
    x, items = child(S, 'a', maps=MAPS[:7])
    u = S.choice('unit', ['number', 'px', 'cm', 'em', 'percent', 's', 'ms'])
    r, e = S.raises(lambda: x.to(u), ValueError)
    k = key(items[0][1])
    ok = len(items) == 1 and k in ((), ((canon(u), 1),)) and (
        (k == ()) == (u == 'number'))
    S.check('convertible', (e is None) == ok)
    if ok and e is None:
        S.check('unit', r.unit == u)
        near(S, 'value', r.value, items[0][0] / ratio(S, u))
    frozen(S, [(x, items)])


@contract(max_paths=6000)
def to_sum(S):
    """any value to a sum in given units"""
    lengths = [{'px': 1}, {'em': 1}, {'percent': 1}]
    n = S.choice('n', [1, 2, 3])
    k0 = S.choice('first', [0, 1, 2])
    ms = [lengths[(k0 + i) % 3] for i in range(n)]
    items = [(S.real('v%d' % i), m) for i, m in enumerate(ms)]
    x = Child(make({'length': 1}), items)
    us = S.choice('units', [(), ('px',), ('em', 'px'), ('cm', 'em', 'percent'),
                            ('percent', 'em', 'px'), ('in', 'px', 'em'),
                            ('em', 'mm', 'percent'), ('px', 'px', 'percent')])
    have = {canon_of(m) for m in ms}
    want = {canon(u) for u in us} if us else have
    r, e = S.raises(lambda: x.to_sum(*us), ValueError)
    S.check('convertible', (e is None) == (have <= want))
    if e is None and have <= want:
        S.check('sum', isinstance(r, CSSMathSum))
        if us:
            S.check('units', [v.unit for v in r.values] == list(us))
        else:
            S.check('sorted', [v.unit for v in r.values]
                    == sorted(v.unit for v in r.values))
        for c in sorted(have | want):
            s = 0
            for v in r.values:
                if canon(v.unit) == c:
                    s = s + v.value * ratio(S, v.unit)
            t = 0
            for v, m in items:
                if canon_of(m) == c:
                    t = t + v
            near(S, 'total', s, t)
    frozen(S, [(x, items)])


def canon_of(m):
    return key(m)[0][0]


@contract(max_paths=6000)
def adding(S):
    """add() keeps the total and its operands"""
    n, m, k = S.real('n'), S.real('m'), S.real('k')
    a, b = S.choice('units', [('px', 'px'), ('px', 'cm'), ('px', 'em'),
                              ('s', 'ms'), ('em', 'em'), ('number', 'number'),
                              ('deg', 'turn'), ('percent', 'percent')])
    x, y = CSSUnitValue(n, a), CSSUnitValue(m, b)
    z = CSSUnitValue(k, a)
    args = [y, z] if S.bool('three') else [y]
    if a == 'number' and S.bool('plain'):
        args[0] = m
    if S.bool('sum-first'):
        x = CSSMathSum(x)
    r = x.add(*args)
    if a == b:
        want = n + m + (k if len(args) > 1 else 0)
        S.check('collected', isinstance(r, CSSUnitValue) and r.unit == a)
        if isinstance(r, CSSUnitValue):
            S.check_eq('value', r.value, want)
    else:
        S.check('sum', isinstance(r, CSSMathSum))
        got = total(r.create_sum_value())
        want = total(sum([CSSUnitValue(v, u).create_sum_value() for v, u in (
            (n, a), (m, b)) + (((k, a),) if len(args) > 1 else ())], []))
        S.check('terms', sorted(got) == sorted(want))
        for q in want:
            if q in got:
                S.check_eq('term', got[q], want[q])
    S.check_eq('left', x.value if isinstance(x, CSSUnitValue)
               else x.values[0].value, n)
    S.check_eq('right', y.value, m)
    S.check('size', isinstance(x, CSSUnitValue) or len(x.values) == 1)


@contract(bounded=True, runs=3000, secs=40)
def trees(S):
    """whole expressions evaluate to the value of their tree"""
    def tree(d):
        """a length, as (css value, pixels, em)"""
        k = S.choice('op', ['unit', 'sum', 'scale', 'negate', 'div',
                            'min', 'max'] if d else ['unit'])
        if k == 'unit':
            u = S.choice('unit', ['px', 'cm', 'pt', 'em', 'mm'])
            v = S.int('v', lo=-9, hi=9)
            return CSSUnitValue(v, u), (0 if u == 'em' else
                                        v * ratio(S, u)), v * (u == 'em')
        if k in ('min', 'max'):
            us = [S.choice('unit', ['px', 'cm', 'pt']) for i in range(3)]
            vs = [S.int('v', lo=-9, hi=9) for i in range(3)]
            f, c = (min, CSSMathMin) if k == 'min' else (max, CSSMathMax)
            return c(*[CSSUnitValue(v, u) for v, u in zip(vs, us)]), \
                f(v * ratio(S, u) for v, u in zip(vs, us)), 0
        if k == 'sum':
            kids = [tree(d - 1) for i in range(S.int('n', lo=1, hi=3))]
            return CSSMathSum(*[t[0] for t in kids]), \
                sum(t[1] for t in kids), sum(t[2] for t in kids)
        x, px, em = tree(d - 1)
        if k == 'negate':
            return CSSMathNegate(x), -px, -em
        f = S.int('factor', lo=1, hi=9)
        if k == 'scale':
            return CSSMathProduct(f, x) if S.bool('left') \
                else CSSMathProduct(x, f), px * f, em * f
        return CSSMathProduct(x, CSSMathInvert(f)), px / f, em / f
    x, px, em = tree(4)
    for i in range(2):
        r = x.to_sum('px', 'em')
        S.check_eq('px', float(r.values[0].value), px)
        S.check_eq('em', float(r.values[1].value), em)
    text = x.tostring()
    S.check('parentheses', text.count('(') == text.count(')'))


@contract(bounded=True, runs=1500, secs=20)
def unparsed(S):
    """an unparsed value is a list of its members"""
    def member():
        return S.choice('m', ['a', 'b', ' ', CSSVariableReferenceValue('--x')])
    want = [member() for i in range(S.int('n', lo=0, hi=4))]
    x = CSSUnparsedValue(list(want))
    for i in range(S.int('ops', lo=0, hi=6)):
        op = S.choice('op', ['set', 'insert', 'append', 'del', 'slice'])
        k, v = S.int('at', lo=0, hi=5), member()
        if op == 'append':
            x.append(v)
            want.append(v)
        elif op == 'insert':
            x.insert(k, v)
            want.insert(k, v)
        elif op == 'slice':
            x[k:k + 2] = [v, v]
            want[k:k + 2] = [v, v]
        elif k < len(want):
            if op == 'set':
                x[k] = v
                want[k] = v
            else:
                del x[k]
                del want[k]
        S.check('members', list(x) == want and len(x) == len(want)
                and x.length == len(want))
        rejects(S, TypeError, lambda: x.append(3), 'bad-member')
        rejects(S, TypeError, lambda: x.insert(0, None), 'bad-insert')
        S.check('rejected-unchanged', list(x) == want)
    S.check('text', x.tostring() == ''.join(
        m if isinstance(m, str) else m.tostring() for m in want))
