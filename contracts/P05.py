"""P05 - path data text (bounded executions: the text of a number is outside
the theories of the solvers used)."""
from decimal import Decimal
from vlib.spec import contract
from svgpy import formatter
from svgpy.path import PathParser, SVGPathSegment
from pathspec import ALL, ARGC

NUMBERS = [0, 1, -1, 10, 0.5, -0.5, 1e-6, -1e-6, 4e-7, -4e-7, 1e-9, 999999.5,
           0.1, 1 / 3, -2 / 3, 123456789, -1e15, 2.5e-5, 100, 1e22]


def any_segment(S, i):
    t = S.choice('t%d' % i, ALL + 'ZzAaZz')
    n = ARGC[t.upper()]
    v = [S.choice('n', NUMBERS) if S.bool('special') else S.real('v')
         for _ in range(n)]
    if t in 'Aa':
        v[3], v[4] = S.choice('f', [0, 1]), S.choice('f', [0, 1])
    return SVGPathSegment(t, *v)


def near(a, b, digits):
    return abs(Decimal(a) - Decimal(b)) <= Decimal(10) ** -digits / 2 \
        + abs(Decimal(b)) * Decimal('1e-15')


@contract(bounded=True, runs=6000, secs=40)
def text_round_trip(S):
    """bounded: lists of up to eight segments, precision 1 to 9"""
    n = S.int('n', lo=0, hi=8)
    segs = [any_segment(S, i) for i in range(n)]
    digits = S.choice('precision', [6, 6, 6, 1, 3, 9])
    old = formatter.precision
    formatter.precision = digits
    try:
        text = PathParser.tostring(segs)
        back = PathParser.parse(text)
        again = PathParser.tostring(back)
    finally:
        formatter.precision = old
    S.check('types', [s.type for s in back] == [s.type for s in segs])
    for a, b in zip(back, segs):
        S.check('count', len(a.values) == len(b.values))
        for x, y in zip(a.values, b.values):
            S.check('value', near(x, y, digits))
    S.check('no-exponent', 'e' not in text and 'E' not in text)
    S.check('stable', again == text)


def number_text(S):
    """a number in the path grammar -> text, value"""
    sign = S.choice('sign', ['', '', '-', '+'])
    a = S.choice('int', ['', '0', '1', '12', '007', '340'])
    b = S.choice('frac', ['', '.', '.5', '.25', '.0', '.125'])
    if a == '' and b in ('', '.'):
        a = '3'
    e = S.choice('exp', ['', '', '', 'e2', 'E-3', 'e+1'])
    return sign + a + b + e


def joins(left, right, flag):
    """may right follow left without a separator?"""
    if flag:
        return True
    if right[0] in '+-':
        return True
    # a second point starts a new number
    low = left.lower()
    return right[0] == '.' and ('.' in low or 'e' in low)


@contract(bounded=True, runs=6000, secs=40)
def text_is_read_exactly(S):
    """bounded: up to six commands of up to three argument groups in every
    spelling of the grammar"""
    n = S.int('n', lo=1, hi=6)
    text, want = '', []
    for i in range(n):
        t = S.choice('t%d' % i, ALL + 'AaZz')
        k = ARGC[t.upper()]
        text += S.choice('gap', ['', ' ', '\n', '\t ']) + t
        if k == 0:
            want.append((t, ()))
            continue
        prev, pflag = '', False
        for g in range(S.choice('groups', [1, 1, 2, 3])):
            vals = []
            for j in range(k):
                flag = t in 'Aa' and j in (3, 4)
                w = S.choice('flag', '01') if flag else number_text(S)
                vals.append(float(w))
                sep = S.choice('sep', ['', ' ', ',', ' , ', '\n', ',  '])
                if prev == '' and ',' in sep:
                    sep = ' '
                if sep == '' and prev and not joins(prev, w, pflag):
                    sep = ' '
                if flag and sep == '' and not pflag:
                    sep = ' '
                text += sep + w
                prev, pflag = w, flag
            want.append((t, tuple(vals)))
    got = [(s.type, tuple(s.values)) for s in PathParser.parse(text)]
    S.check('types', [g[0] for g in got] == [w[0] for w in want])
    S.check('values', got == want)


@contract(bounded=True, runs=500, secs=10)
def list_is_not_modified(S):
    n = S.int('n', lo=0, hi=8)
    segs = [any_segment(S, i) for i in range(n)]
    before = [(s.type, tuple(s.values)) for s in segs]
    PathParser.tostring(segs)
    S.check('same', [(s.type, tuple(s.values)) for s in segs] == before)
