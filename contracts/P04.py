"""P04 - bounding boxes."""
import math
import numpy as np
from vlib.spec import contract
from vlib import sym
from svgpy.geometry.rect import DOMRect
from svgpy.path import PathParser, PathSegment, SVGPathSegment, \
    CubicBezierCurve
from pathspec import *
from pathloop import *

ASSUMPTIONS = [
    'bbox_any_length: path data begins with a move and is normalised (only '
    'M L C Z); a curve\'s own box is given by its contracts (curve_*)',
    'a differentiable function on [0, 1] takes its extreme values at 0, at 1 '
    'or where its derivative is zero (calculus)']


def hull(S, a, b):
    """smallest box of two boxes (l, t, r, b)"""
    if a is None:
        return b
    return [S.min(a[0], b[0]), S.min(a[1], b[1]),
            S.max(a[2], b[2]), S.max(a[3], b[3])]


def point_box(p):
    return [p[0], p[1], p[0], p[1]]


def line_box(S, p, q):
    return hull(S, point_box(p), point_box(q))


class Box(PathLoop):
    """and the box so far is the box of what was drawn so far"""
    order = ('path_data', 'options', 'extra', 'bbox', 'start_x', 'start_y',
             'cpx', 'cpy', 'bearing', 'last_command', 'path_segment', 'command', 'rect', 'line')
    modifies = ('bbox',)
    types = 'MLCZ'
    first_types = 'M'
    track_control = False

    def any_pen(self):
        return any_pen(self.S, lasts='MLCZ', bearing=0)

    def acc_enter(self, env):
        b = env.get('bbox')
        return type(b) is DOMRect and b.x is None

    def acc_havoc(self, env, k):
        S = self.S
        self.calls = []
        if self.first:
            self.box = None
            return {'bbox': env['bbox']}
        l, t = S.reals('box', 2)
        w, h = S.real('box.w', lo=0), S.real('box.h', lo=0)
        self.box = [l, t, l + w, t + h]
        return {'bbox': DOMRect(l, t, w, h)}

    def acc_check(self, env, want, pen):
        S = self.S
        box = self.box
        for p in want:
            if p[0] == 'M':
                if self.first:
                    box = point_box(p[1])
            elif p[0] == 'C':
                if len(self.calls) != 1:
                    raise sym.Unsupported('a curve\'s box does not come from '
                                          'CubicBezierCurve.get_bbox')
                pts, b = self.calls[0]
                S.check_seq('curve-points', pts, [c for q in p[1:] for c in q])
                box = hull(S, box, b)
            else:
                box = hull(S, box, line_box(S, *p[1:]))
        S.check_seq('box', env['bbox'].get_coords(), box)


@contract(prove_s=400)
def bbox_any_length(S):
    if S.symbolic:
        c = Box(S)

        def get_bbox(self, *a, **k):
            l, t = S.reals('curve-box', 2)
            w, h = S.real('curve-box.w', lo=0), S.real('curve-box.h', lo=0)
            c.calls.append(([*self._p0, *self._p1, *self._p2, *self._p3],
                            [l, t, l + w, t + h]))
            return DOMRect(l, t, w, h)
        old = CubicBezierCurve.get_bbox
        CubicBezierCurve.get_bbox = get_bbox
        try:
            r = PathParser.get_bbox(sym_path(S, c))
        finally:
            CubicBezierCurve.get_bbox = old
        if c.box is not None:
            S.check_seq('returns-box', r.get_coords(), c.box)
    else:
        segs = history(S, types='MLCZ', first='M', lasts='MLCZ', bearing=0)
        whole(S, segs)


def curve_points(p, n=400):
    _, p0, p1, p2, p3 = p
    t = np.linspace(0, 1, n + 1)[:, None]
    u = 1 - t
    a = [np.array(q, dtype=float) for q in (p0, p1, p2, p3)]
    return u ** 3 * a[0] + 3 * u * u * t * a[1] + 3 * u * t * t * a[2] \
        + t ** 3 * a[3]


def whole(S, segs):
    r = PathParser.get_bbox(segs)
    pieces, _ = draw(S, segs)
    pts = [np.array([segs[0].values], dtype=float)]
    for p in pieces:
        if p[0] == 'C':
            pts.append(curve_points(p))
        elif p[0] in 'LZ':
            pts.append(np.array(p[1:], dtype=float))
    a = np.concatenate(pts)
    lo, hi = a.min(axis=0), a.max(axis=0)
    sc = 1 + float(np.abs(a).max())
    box = [r.left, r.top, r.right, r.bottom]
    want = [lo[0], lo[1], hi[0], hi[1]]
    for i, n in enumerate(('left', 'top', 'right', 'bottom')):
        sign = 1 if i < 2 else -1
        S.check('contains-' + n, sign * (box[i] - want[i]) <= 1e-6 * sc)
        S.check('touches-' + n, sign * (want[i] - box[i]) <= 1e-3 * sc)


@contract(runs=3000, secs=30)
def bbox_short(S):
    n = 3 if S.symbolic else S.int('n', lo=1, hi=9)
    t = 'MLZ' if S.symbolic else 'MLCZ'
    segs = [segment(S, 's%d' % i, t if i else 'M') for i in range(n)]
    if not S.symbolic:
        return whole(S, segs)
    r = PathParser.get_bbox(segs)
    box = point_box(segs[0].values)
    for p in draw(S, segs)[0]:
        if p[0] != 'M':
            box = hull(S, box, line_box(S, *p[1:]))
    S.check_seq('box', r.get_coords(), box)


def bez(P, t, i):
    u = 1 - t
    return (u * u * u * P[0][i] + 3 * u * u * t * P[1][i]
            + 3 * u * t * t * P[2][i] + t * t * t * P[3][i])


def dbez(P, t, i):
    u = 1 - t
    return (u * u * (P[1][i] - P[0][i]) + 2 * u * t * (P[2][i] - P[1][i])
            + t * t * (P[3][i] - P[2][i]))


def curve(S):
    P = [S.reals('p%d' % i, 2) for i in range(4)]
    return P, CubicBezierCurve(*[
        np.array(p, dtype=object if S.symbolic else float) for p in P])


@contract()
def curve_point(S):
    P, c = curve(S)
    t = S.real('t', lo=0, hi=1)
    x, y = c.point(t)
    S.check_eq('x', x, bez(P, t, 0))
    S.check_eq('y', y, bez(P, t, 1))


@contract(prove_s=600)
def curve_roots(S):
    """every t of [0, 1] at which x or y is stationary (and not stationary
    everywhere) is among the roots; every root lies in [0, 1]"""
    # any curve, by its polynomial coefficients (a linear bijection)
    if not S.symbolic:
        return
    k = [S.reals('k%d' % i, 4) for i in (0, 1)]
    P = [[d, d + c / 3, d + 2 * c / 3 + b / 3, a + b + c + d]
         for a, b, c, d in k]
    P = [[P[0][j], P[1][j]] for j in range(4)]
    curve = CubicBezierCurve(*[np.array(p, dtype=object) for p in P])
    a, b, c, d = k[S.choice('axis', [0, 1])]
    t = S.real('t', lo=0, hi=1)
    S.assume(3 * a * t * t + 2 * b * t + c == 0)
    S.assume(S.not_(S.and_(a == 0, b == 0, c == 0)))
    roots = list(curve.get_roots())
    S.check('found', S.or_(t < 0, *[r == t for r in roots]))
    for r in roots:
        S.check('inside', S.and_(r >= 0, r <= 1))


@contract(prove_s=300, runs=4000, secs=20)
def curve_box(S):
    """the box of a curve is the box of its ends and its points at the roots
    (so with curve_roots it is the tight box of the curve)"""
    P, c = curve(S)
    if not S.symbolic:
        if S.bool('decimals'):       # nearly of lower degree
            P = [[round(v, 1) for v in p] for p in P]
            for i in (0, 1):
                if S.bool('lower%d' % i):
                    P[3][i] = round(P[0][i] - 3 * P[1][i] + 3 * P[2][i], 1)
        return whole(S, [SVGPathSegment('M', *P[0]), SVGPathSegment(
            'C', *P[1], *P[2], *P[3])])
    n = S.choice('roots', [0, 1, 2, 3, 4])
    ts = [S.real('t%d' % i, lo=0, hi=1) for i in range(n)]
    used = []
    c.get_roots = lambda: used.append(1) or iter(ts)
    r = c.get_bbox()
    if not used:
        raise sym.Unsupported('get_bbox does not use get_roots')
    box = hull(S, point_box(P[0]), point_box(P[3]))
    for t in ts:
        box = hull(S, box, point_box([bez(P, t, 0), bez(P, t, 1)]))
    for a, b, n in zip(r.get_coords(), box, ('left', 'top', 'right',
                                             'bottom')):
        S.check_eq(n, a, b)
