"""The CSS typed-OM algebra: types and sum values (mathematics only)."""
from svgpy.css.types import CSSNumericType, CSSNumericValue

BASES = ['length', 'angle', 'time', 'frequency', 'resolution', 'flex',
         'percent']
CATEGORY = {'number': None, 'percent': 'percent', 'fr': 'flex'}
for k, us in (('length', 'em ex ch ic rem lh rlh vw vh vi vb vmin vmax cm mm '
                         'q in pt pc px'), ('angle', 'deg grad rad turn'),
              ('time', 's ms'), ('frequency', 'hz khz'),
              ('resolution', 'dpi dpcm dppx')):
    CATEGORY.update({u: k for u in us.split()})


def power(t, k):
    v = t.get(k)
    return 0 if v is None else v


def hint(t):
    return t.get('percent_hint')


def make(powers, hint=None):
    t = CSSNumericType()
    for k, v in powers.items():
        t[k] = v
    if hint:
        t['percent_hint'] = hint
    return t


def snapshot(t):
    return list(t.items())


# a specification type: (dict of powers, hint)

def spec(t):
    return {k: power(t, k) for k in BASES}, hint(t)


def hinted(p, h):
    p = dict(p)
    p[h] = p[h] + p['percent']
    p['percent'] = 0
    return p


def hints(a, b):
    """-> powers of both under a common hint, or None"""
    (p, g), (q, h) = a, b
    if g and h:
        if g != h:
            return None
    elif g:
        q = hinted(q, g)
    elif h:
        p = hinted(p, h)
    return p, q, g or h


def times(a, b):
    r = hints(a, b)
    if r is None:
        return None
    p, q, h = r
    return {k: p[k] + q[k] for k in BASES}, h


def plus(S, a, b):
    """-> type or None (all comparisons fork)"""
    r = hints(a, b)
    if r is None:
        return None
    p, q, h = r

    def same(p, q):
        return S.fork(S.and_(*[S.eq(p[k], q[k]) for k in BASES]))
    if same(p, q):
        return p, h
    plain = [p[k] for k in BASES[:-1]] + [q[k] for k in BASES[:-1]]
    if S.fork(S.and_(S.or_(p['percent'] != 0, q['percent'] != 0),
                     S.or_(*[x != 0 for x in plain]))):
        for k in BASES[:-1]:
            if same(hinted(p, k), hinted(q, k)):
                return hinted(p, k), k
    return None


def number_and_percent(S, a, b):
    """the combination that existing tests require to be accepted although
    the types differ: a number with a percentage"""
    r = hints(a, b)
    if r is None:
        return False
    p, q, h = r
    zero = S.and_(*[S.eq(x[k], 0) for x in (p, q) for k in BASES[:-1]])
    return S.and_(zero, S.or_(S.eq(p['percent'], 0), S.eq(q['percent'], 0)))


def matches(S, label, t, want):
    if want is None:
        S.check(label + '.fails', t is None)
        return
    S.check(label + '.succeeds', t is not None)
    if t is None:
        return
    p, h = want
    S.check_seq(label, [power(t, k) for k in BASES], [p[k] for k in BASES])
    S.check(label + '.hint', hint(t) == h)


class Child(CSSNumericValue):
    """any numeric value: its type and its sum value are all that is known"""

    def __init__(self, type_, value=None):
        super().__init__()
        self._t = self._type = type_
        self._v = value

    def type(self):
        return self._t

    def create_sum_value(self):
        if self._v is None:
            return None
        return [(v, dict(m)) for v, m in self._v]

    def tostring(self, **kwargs):
        return 'child'


def rejects(S, excs, fn, label):
    _, e = S.raises(fn, *(excs if isinstance(excs, tuple) else (excs,)))
    S.check(label, e is not None)
