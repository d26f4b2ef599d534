"""N01 - printed numbers (bounded executions: decimal text is outside the
theories of the solvers used)."""
import re
from decimal import Decimal, ROUND_FLOOR
from vlib.spec import contract
from svgpy import formatter

SPECIAL = [0, -0.0, 1, -1, 10, 100, 1000, -100, 0.5, 0.25, 0.05, 0.005, 5e-7,
           4.9e-7, -4e-7, 1e-12, -1e-12, 999999.9999999, 0.9999999, 9.9999995,
           1e15, 123456789.987654321, 1e21, 0.1 + 0.2, 1 / 3, 2 / 3, 1e-5,
           10 ** 9, 120, 1200.5, -1200.05]


def number(S, i):
    k = S.choice('kind%d' % i, ['special', 'real', 'int', 'digits'])
    if k == 'special':
        return S.choice('special', SPECIAL)
    if k == 'int':
        return S.int('int', lo=-10000, hi=10000)
    if k == 'real':
        return S.real('real')
    m = S.int('mantissa', lo=-10 ** 9, hi=10 ** 9)
    return m / 10 ** S.int('shift', lo=0, hi=12)


def printed(S, text, x, digits):
    S.check('syntax', re.fullmatch(r'-?(0|[1-9]\d*)(\.\d*[1-9])?', text)
            is not None)
    S.check('no-negative-zero', text != '-0')
    S.check('digits', len(text.partition('.')[2]) <= digits)
    # the nearest number of that many decimals: within half a unit
    S.check('nearest', abs(Decimal(text) - Decimal(x)) * 2
            <= Decimal(10) ** -digits)


def at(digits, f):
    old = formatter.precision
    formatter.precision = digits
    try:
        return f()
    finally:
        formatter.precision = old


@contract(bounded=True, runs=20000, secs=40)
def numbers(S):
    n = S.int('n', lo=0, hi=6)
    xs = [number(S, i) for i in range(n)]
    digits = S.int('precision', lo=1, hi=12)
    seq = S.choice('as', [list, tuple, iter])
    r = at(digits, lambda: formatter.format_number_sequence(seq(xs)))
    S.check('count', len(r) == n)
    for t, x in zip(r, xs):
        printed(S, t, x, digits)


@contract(bounded=True, runs=5000, secs=20)
def pairs(S):
    n = S.int('n', lo=0, hi=5)
    xs = [(number(S, i), number(S, i)) for i in range(n)]
    digits = S.int('precision', lo=1, hi=12)
    r = at(digits, lambda: formatter.format_coordinate_pair_sequence(xs))
    got = [tuple(p.split(',')) for p in r.split()]
    S.check('count', len(got) == n and all(len(p) == 2 for p in got))
    for p, x in zip(got, xs):
        printed(S, p[0], x[0], digits)
        printed(S, p[1], x[1], digits)
    flat = [c for x in xs for c in x]
    S.check('pairing', formatter.to_coordinate_pair_sequence(flat) == xs)


@contract(bounded=True, runs=2000, secs=20)
def default_precision(S):
    """what a fresh program prints: six decimals"""
    x = number(S, 0)
    printed(S, formatter.format_number_sequence([x])[0], x, 6)
