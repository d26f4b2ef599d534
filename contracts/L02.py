"""L02 - length arithmetic and comparison."""
from vlib.spec import contract
from vlib import sym
from svgpy.core import SVGLength
from lengths import *

ASSUMPTIONS = [
    'decimal.Decimal arithmetic is exact (it is rounded to 28 digits)',
    'comparisons are exact up to the library\'s own tolerance: 1e-9, '
    'relative or absolute, in the left operand\'s unit']


def make(n, u, **k):
    return SVGLength(n, **k) if u is None else SVGLength(n, u, **k)


def state(x):
    return (x._number, x._unit)


def unchanged(S, label, x, n, u):
    S.check(label + '-unit', x.unit == u)
    S.check_eq(label, x.value(u), n)


def operands(S):
    n, m = S.real('n'), S.real('m')
    a = S.choice('a', [k for k in ALONE if k != ''])
    b = S.choice('b', [k for k in ALONE if k != ''])
    return n, m, a, b, make(n, a), make(m, b)


@contract()
def sums(S):
    n, m, a, b, x, y = operands(S)
    op = S.choice('op', ['+', '-', '+=', '-='])
    if op == '+':
        r = x + y
    elif op == '-':
        r = x - y
    else:
        r = x
        if op == '+=':
            r += y
        else:
            r -= y
        S.check('in-place', r is x)
    sign = 1 if op[0] == '+' else -1
    want = n * num(S, ALONE[a]) + sign * m * num(S, ALONE[b])
    S.check('unit', r.unit == (b if a is None else a))
    S.check_eq('pixels', r.value(), want)
    unchanged(S, 'right', y, m, b)
    if len(op) == 1:
        S.check('new', r is not x and r is not y)
        unchanged(S, 'left', x, n, a)


@contract()
def scaling(S):
    n, k = S.real('n'), S.real('k')
    a = S.choice('a', [u for u in ALONE if u != ''])
    x = make(n, a)
    op = S.choice('op', ['*', 'r*', '/', '*=', '/=', 'neg', 'pos', 'abs'])
    if '/' in op:
        S.assume(S.not_(k == 0))
    want = n * k
    if op == '*':
        r = x * k
    elif op == 'r*':
        r = k * x
    elif op == '/':
        r, want = x / k, n / k
    elif op == '*=':
        r = x
        r *= k
    elif op == '/=':
        r, want = x, n / k
        r /= k
    elif op == 'neg':
        r, want = -x, -n
    elif op == 'pos':
        r, want = +x, n
    else:
        r, want = abs(x), S.ite(n >= 0, n, -n)
    S.check('unit', r.unit == a)
    S.check_eq('value', r.value(a), want)
    S.check_eq('pixels', r.value(), want * num(S, ALONE[a]))
    if op in ('*=', '/='):
        S.check('in-place', r is x)
    else:
        S.check('new', r is not x)
        unchanged(S, 'left', x, n, a)


def ab(S, x):
    return S.ite(x >= 0, x, -x)


@contract()
def comparison(S):
    n, m, a, b, x, y = operands(S)
    o = m * num(S, ALONE[b]) / num(S, ALONE[a])     # in the left unit
    d = ab(S, n - o)
    eps = num(S, F(1, 10 ** 9))
    lim = S.max(eps, eps * S.max(ab(S, n), ab(S, o)))
    if not S.symbolic:
        S.assume(d == 0 or d > 2 * lim or d < lim / 2)
    close = d <= lim
    op = S.choice('op', ['==', '!=', '<', '<=', '>', '>='])
    if op == '==':
        r, want = x == y, close
    elif op == '!=':
        r, want = x != y, S.not_(close)
    elif op == '<':
        r, want = x < y, S.and_(S.not_(close), n < o)
    elif op == '<=':
        r, want = x <= y, S.or_(close, n < o)
    elif op == '>':
        r, want = x > y, S.and_(S.not_(close), n > o)
    else:
        r, want = x >= y, S.or_(close, n > o)
    S.check('as-sizes', S.iff(r, want))
    unchanged(S, 'left', x, n, a)
    unchanged(S, 'right', y, m, b)


@contract()
def other_operands(S):
    """a length and something that is neither a length nor a number"""
    x = make(S.real('n'), S.choice('a', [None, 'px', 'cm']))
    bad = S.choice('bad', ['1px', None, (1,)])
    op = S.choice('op', ['+', '-', '*', '/', '<', '+n'])
    f = {'+': lambda: x + bad, '-': lambda: x - bad, '*': lambda: x * bad,
         '/': lambda: x / bad, '<': lambda: x < bad, '+n': lambda: x + 5}[op]
    _, e = S.raises(f, TypeError)
    S.check('rejected', e is not None)
    S.check('unequal', not (x == bad))


@contract()
def of_elements(S):
    """lengths that belong to an element keep belonging to it"""
    e, w, h, fs, rfs, m = setup(S)
    n, k = S.real('n'), S.real('k')
    d = S.choice('direction', [1, 2])
    u = S.choice('u', ['em', 'rem', '%', 'vw', 'vh', 'px'])
    v = S.choice('v', ['em', '%', 'mm', None])
    op = S.choice('op', ['+', '-', '*', '/', 'neg', 'pos', 'abs', '+='])
    if op == '/':
        S.assume(S.not_(k == 0))
    with Patch(fs, rfs, m):
        x = SVGLength(n, u, context=e, direction=d)
        y = make(k, v, context=e, direction=d)
        px = n * factor(S, u, d, w, h, fs, rfs, m)
        py = k * factor(S, v, d, w, h, fs, rfs, m)
        if op == '+=':
            r = x
            r += y
            want = px + py
        else:
            r, want = {
                '+': lambda: (x + y, px + py), '-': lambda: (x - y, px - py),
                '*': lambda: (x * k, px * k), '/': lambda: (x / k, px / k),
                'neg': lambda: (-x, -px), 'pos': lambda: (+x, px),
                'abs': lambda: (abs(x), ab(S, px))}[op]()
        S.check('unit', r.unit == u)
        S.check('element', r.context is e)
        S.check_eq('pixels', r.value(), want)
