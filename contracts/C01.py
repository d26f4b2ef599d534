"""C01 - types of CSS numeric values."""
from vlib.spec import contract
from svgpy.css import types as T
from svgpy.css.types import *
from typed import *

ASSUMPTIONS = [
    'operations: proved for one to three operands of any nesting, operands '
    'being known by their type alone; type addition and multiplication: two '
    'kinds of unit besides percentages at a time',
    'number plus percentage is left open (existing tests require it to be '
    'accepted, typed OM rejects it)']


def anytype(S, name, keys):
    t = CSSNumericType()
    for k in keys + ['percent']:
        if S.bool('%s.%s?' % (name, k)):
            t[k] = S.int('%s.%s' % (name, k), lo=-3, hi=3)
    h = S.choice(name + '.hint', [None] + keys[:1])
    if h:
        # a hinted type has its percentages folded in
        S.assume(S.eq(power(t, 'percent'), 0))
        t['percent_hint'] = h
    return t


PAIRS = [[a, b] for i, a in enumerate(BASES[:-1]) for b in BASES[i + 1:-1]]


@contract(max_paths=20000, prove_s=300)
def adding(S):
    keys = S.choice('keys', [['length', 'time'], ['angle', 'flex'],
                             ['frequency', 'resolution']])
    a, b = anytype(S, 'a', keys), anytype(S, 'b', keys[::-1])
    sa, sb = snapshot(a), snapshot(b)
    r = CSSNumericType.add_types(a, b)
    want = plus(S, spec(a), spec(b))
    if want is not None or not S.fork(number_and_percent(S, spec(a),
                                                         spec(b))):
        matches(S, 'sum', r, want)
    S.check('a-unchanged', [k for k, v in sa] == list(a))
    S.check('b-unchanged', [k for k, v in sb] == list(b))
    for (k, v), w in zip(sa + sb, list(a.values()) + list(b.values())):
        S.check('unchanged', v is w or S.eq(v, w))
    S.check('new', r is not a and r is not b)


@contract(max_paths=20000, prove_s=200)
def multiplying(S):
    keys = S.choice('keys', PAIRS)
    a, b = anytype(S, 'a', keys), anytype(S, 'b', keys[::-1])
    sa, sb = snapshot(a), snapshot(b)
    r = CSSNumericType.multiply_types(a, b)
    matches(S, 'product', r, times(spec(a), spec(b)))
    S.check('new', r is not a and r is not b)
    S.check('a-unchanged', snapshot(a) == sa if not S.symbolic else
            len(sa) == len(a) and all(x is y for (k, x), y in
                                      zip(sa, a.values())))
    S.check('b-unchanged', snapshot(b) == sb if not S.symbolic else
            len(sb) == len(b) and all(x is y for (k, x), y in
                                      zip(sb, b.values())))


POOL = [({}, None), ({'length': 1}, None), ({'time': 1}, None),
        ({'percent': 1}, None), ({'length': 1}, 'length'),
        ({'length': 2, 'angle': -1}, None), ({'angle': 1}, 'angle'),
        ({'length': 1, 'percent': 1}, None), ({'resolution': -1}, None)]


def operands(S, n):
    return [Child(make(*S.choice('t%d' % i, POOL))) for i in range(n)]


def kept(S, xs, before):
    for x, b in zip(xs, before):
        S.check('operand-type-unchanged', snapshot(x.type()) == b)


def fold(S, xs, f):
    """-> type, None for a clash, or 'open' (see ASSUMPTIONS)"""
    t = spec(xs[0].type())
    for x in xs[1:]:
        u = spec(x.type())
        r = f(t, u)
        if r is None and f is not times and number_and_percent(S, t, u):
            return 'open'
        t = r
        if t is None:
            return None
    return t


def built(S, cls, args, xs, f):
    before = [snapshot(x.type()) for x in xs]
    want = fold(S, xs, f)
    if want == 'open':
        return None
    r = None
    if want is None:
        rejects(S, (ValueError, TypeError), lambda: cls(*args),
                 'clash-rejected')
    else:
        r = cls(*args)
        matches(S, 'type', r.type(), want)
    kept(S, xs, before)
    return r


@contract(max_paths=20000)
def many(S):
    """sum, product, min, max of one to three values"""
    cls = S.choice('class', [CSSMathSum, CSSMathProduct, CSSMathMin,
                             CSSMathMax])
    xs = operands(S, S.choice('n', [1, 2, 3]))
    r = built(S, cls, xs, xs, times if cls is CSSMathProduct
              else lambda a, b: plus(S, a, b))
    if r is not None:
        S.check('values', len(r.values) == len(xs)
                and all(a is b for a, b in zip(r.values, xs)))
        S.check('operator', r.operator.value == {
            CSSMathSum: 'sum', CSSMathProduct: 'product', CSSMathMin: 'min',
            CSSMathMax: 'max'}[cls])


@contract()
def clamps(S):
    xs = operands(S, 3)
    r = built(S, CSSMathClamp, xs, xs, lambda a, b: plus(S, a, b))
    if r is not None:
        S.check('parts', r.min is xs[0] and r.val is xs[1]
                and r.max is xs[2])


@contract()
def single(S):
    """negation keeps the type, inversion negates the powers, both leave
    their operand as it was"""
    x, = operands(S, 1)
    before = snapshot(x.type())
    p, h = spec(x.type())
    n = CSSMathNegate(x)
    matches(S, 'negate', n.type(), (p, h))
    i = CSSMathInvert(x)
    matches(S, 'invert', i.type(), ({k: -v for k, v in p.items()}, h))
    kept(S, [x], [before])
    matches(S, 'twice', CSSMathInvert(i).type(), (p, h))
    matches(S, 'negate-after', n.type(), (p, h))
    kept(S, [x], [before])


@contract()
def units(S):
    u = S.choice('unit', sorted(CATEGORY))
    n = S.real('n')
    x = CSSUnitValue(n, u.upper() if S.bool('upper') else u)
    k = CATEGORY[u]
    matches(S, 'type', x.type(), ({b: int(b == k) for b in BASES}, None))
    S.check('unit', x.unit == u)
    S.check_eq('value', x.value, n)
    for bad in ('', 'furlong', 'p x', 'pxx'):
        rejects(S, ValueError, lambda: CSSUnitValue(n, bad), 'unknown-unit')


@contract()
def numbers(S):
    """plain numbers stand for number values, other things are rejected"""
    cls = S.choice('class', [CSSMathSum, CSSMathProduct, CSSMathMin,
                             CSSMathMax])
    n, m = S.real('n'), S.real('m')
    r = cls(CSSUnitValue(m, 'number'), n)
    S.check('wrapped', isinstance(r.values[1], CSSUnitValue)
            and r.values[1].unit == 'number')
    S.check_eq('number', r.values[1].value, n)
    for bad in ('1', None, [1]):
        rejects(S, TypeError, lambda: cls(n, bad), 'not-numeric')
    rejects(S, (ValueError, TypeError), lambda: cls(), 'empty')


@contract(bounded=True, runs=2500, secs=40)
def trees(S):
    """whole expressions"""
    UNITS = ['number', 'px', 'em', 'percent', 's', 'deg', 'hz', 'dppx', 'fr']

    class Clash(Exception):
        pass

    def tree(d):
        k = S.choice('op', ['unit', 'sum', 'product', 'negate', 'invert',
                            'min', 'max', 'clamp'] if d else ['unit'])
        if k == 'unit':
            u = S.choice('unit', UNITS)
            x = CSSUnitValue(S.int('v', lo=1, hi=9), u)
            return x, ({b: int(b == CATEGORY[u]) for b in BASES}, None)
        n = 1 if k in ('negate', 'invert') else 3 if k == 'clamp' else \
            S.int('n', lo=1, hi=3)
        kids = [tree(d - 1) for i in range(n)]
        before = [snapshot(x.type()) for x, t in kids]
        xs, t = [x for x, t in kids], kids[0][1]
        if k == 'invert':
            t = {b: -v for b, v in t[0].items()}, t[1]
        for x, u in kids[1:]:
            w = times(t, u) if k == 'product' else plus(S, t, u)
            if w is None and k != 'product' and number_and_percent(S, t, u):
                raise Clash()
            t = w
            if t is None:
                rejects(S, ValueError, lambda: CLS[k](*xs), 'clash')
                raise Clash()
        r = CLS[k](*xs)
        matches(S, 'tree-type', r.type(), t)
        kept(S, xs, before)
        everything.append((r, snapshot(r.type())))
        return r, t
    CLS = dict(sum=CSSMathSum, product=CSSMathProduct, min=CSSMathMin,
               max=CSSMathMax, negate=CSSMathNegate, invert=CSSMathInvert,
               clamp=CSSMathClamp)
    everything = []
    try:
        r, t = tree(3)
        r.tostring()
        r.create_sum_value()
        S.check('equals-itself', r.equals(r))
    except Clash:
        pass
    for x, b in everything:
        S.check('types-stay', snapshot(x.type()) == b)
