"""P01 - PathSegment.toabsolute."""
from vlib.spec import contract
from svgpy.path import PathSegment, SVGPathSegment
from pathspec import *


@contract(prove_s=300)
def absolute_draws_the_same(S):
    pen, last = any_pen(S, lasts=LASTS)
    s = segment(S, 's', ALL)
    t, v = s.type, tuple(s.values)
    r = PathSegment.toabsolute(s, pen.cp[0], pen.cp[1], pen.bearing)
    S.check('new', r is not s)
    S.check('receiver-type', s.type == t)
    S.check_seq('receiver-values', s.values, v)
    S.check('absolute', r.type.isupper() and bool(r.isabsolute()))
    if t.isupper():
        S.check('same-type', r.type == t)
        S.check_seq('same-values', r.values, v)
    S.check('argc', len(r.values) == ARGC[r.type])
    want, p1 = step(S, pen, t, v)
    got, p2 = step(S, pen, r.type, list(r.values))
    same(S, 'draws', got, want)
    S.check_seq('pen', p2.cp, p1.cp)
    S.check_seq('start', p2.start, p1.start)
    S.check_eq('bearing', p2.bearing, p1.bearing)


@contract()
def from_nowhere(S):
    """before the first point, relative means relative to the origin"""
    s = segment(S, 's', 'mlhvcsqtaMLCQ')
    b = 0 if S.bool('nobearing') else S.angle('bearing')
    t, v = s.type, tuple(s.values)
    r = PathSegment.toabsolute(s, None, None, b)
    pen = Pen((0, 0), (0, 0), None, None, b)
    S.check('absolute', r.type.isupper())
    same(S, 'draws', step(S, pen, r.type, list(r.values))[0],
         step(S, pen, t, v)[0])


@contract()
def end_point(S):
    """SVGPathSegment.end of an absolute segment is where it ends"""
    pen, last = any_pen(S, lasts='M', bearing=0)
    s = segment(S, 's', 'MLHVCSQTA')
    x, y = s.end
    want = step(S, pen, s.type, list(s.values))[1].cp
    if s.type != 'V':
        S.check_eq('x', x, want[0])
    else:
        S.check('x', x is None)
    if s.type != 'H':
        S.check_eq('y', y, want[1])
    else:
        S.check('y', y is None)


@contract()
def setters(S):
    """each set_* method makes the segment of its command and arguments"""
    t = S.choice('t', 'MmLlHhVvCcSsQqTtAaBb')
    name = {'M': 'moveto', 'L': 'lineto', 'H': 'horizontal_lineto',
            'V': 'vertical_lineto', 'C': 'curveto', 'S': 'smooth_curveto',
            'Q': 'quadratic_curveto', 'T': 'smooth_quadratic_curveto',
            'A': 'elliptical_arc', 'B': 'bearing'}[t.upper()]
    s = segment(S, 'new', [t])
    r = SVGPathSegment(*[None] if S.bool('fresh') else ['M', 1.0, 2.0])
    getattr(r, 'set_%s_%s' % (name, 'abs' if t.isupper() else 'rel'))(
        *s.values)
    S.check('type', r.type == t)
    S.check_seq('values', r.values, s.values)
    S.check('valid', bool(r.isvalid()))
    S.check('absolute', bool(r.isabsolute()) == t.isupper()
            and bool(r.isrelative()) == t.islower())
    if t in 'Bb':
        b = S.angle('b')
        S.check_eq('bearing', r.get_bearing(b),
                   s.values[0] if t == 'B' else b + s.values[0])
    else:
        b = S.angle('b')
        S.check_eq('bearing', r.get_bearing(b), b)
