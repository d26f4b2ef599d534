"""P06 - path length."""
import math
import numpy as np
from vlib.spec import contract
from vlib import sym
import svgpy.path
from svgpy.path import PathParser, PathSegment, SVGPathSegment, \
    CubicBezierCurve, Ellipse
from pathspec import *
from pathloop import *

ASSUMPTIONS = [
    'total_any_length: path data begins with a move and contains no arcs; '
    'CubicBezierCurve.get_length gives some number depending on its four '
    'points (its own contract is curve_is_the_speed_integral)',
    'scipy.integrate.quad(f, a, b) is the integral of f from a to b']


def dist2(p, q):
    return (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1])


class Total(PathLoop):
    """and the total so far is the sum of the lengths of the drawn pieces"""
    order = ('path_data', 'total_length', 'start_x', 'start_y', 'cpx', 'cpy',
             'x1', 'y1', 'bearing', 'last_command', 'path_segment', 'command',
             'old_cpx', 'old_cpy', 'length', 'line')

    def acc_enter(self, env):
        return env.get('total_length') == 0

    def acc_havoc(self, env, k):
        self.t = self.S.real('T')
        self.calls = []
        return {'total_length': self.t}

    def acc_check(self, env, want, pen):
        S = self.S
        d = env['total_length'] - self.t
        want = [p for p in want if p[0] != 'M']
        if not want:
            S.check_eq('draws-nothing', d, 0)
            return
        p = want[0]
        if p[0] == 'C':
            S.check('one-curve', len(self.calls) == 1)
            pts, val = self.calls[0]
            S.check_seq('curve-points', pts, [c for q in p[1:] for c in q])
            S.check_eq('curve-length-added', d, val)
        else:
            S.check('no-curve', not self.calls)
            S.check('line-length-non-negative', d >= 0)
            S.check_eq('line-length-squared', d * d, dist2(p[1], p[2]))


@contract(prove_s=500)
def total_any_length(S):
    if S.symbolic:
        c = Total(S)

        def get_length(self):
            r = S.real('curve-length')
            c.calls.append(([*self._p0, *self._p1, *self._p2, *self._p3], r))
            return r
        old = CubicBezierCurve.get_length
        CubicBezierCurve.get_length = get_length
        try:
            r = PathParser.get_total_length(sym_path(S, c))
        finally:
            CubicBezierCurve.get_length = old
        S.check_eq('returns-total', r, c.t)
    else:
        whole(S, history(S))


G = np.polynomial.legendre.leggauss(12)


def curve_length(p0, p1, p2, p3, n=200):
    """numerical oracle"""
    p0, p1, p2, p3 = (np.array(p, dtype=float) for p in (p0, p1, p2, p3))
    x, w = G
    h = 1.0 / n
    t = ((np.arange(n)[:, None] + (x[None, :] + 1) / 2) * h).ravel()
    ww = np.tile(w * h / 2, n)
    u = 1 - t
    d = 3 * (np.outer(u * u, p1 - p0) + 2 * np.outer(u * t, p2 - p1)
             + np.outer(t * t, p3 - p2))
    return float((np.hypot(d[:, 0], d[:, 1]) * ww).sum())


def arc_length(p):
    _, p0, rx, ry, rot, fa, fs, p1 = p
    pts = arc_points(p, 20000)
    if pts is None:
        return 0.0
    a = np.array(pts)
    return float(np.hypot(*np.diff(a, axis=0).T).sum())


def length(pieces):
    r = 0.0
    for p in pieces:
        if p[0] in 'LZ':
            r += math.hypot(p[2][0] - p[1][0], p[2][1] - p[1][1])
        elif p[0] == 'C':
            r += curve_length(*p[1:])
        elif p[0] == 'A':
            r += arc_length(p)
    return r


def whole(S, segs):
    got = PathParser.get_total_length(segs)
    want = length(draw(S, segs)[0])
    S.check('total', abs(got - want) <= 1e-3 * (1 + abs(want)))


@contract(runs=1500, secs=30)
def total_short(S):
    """proof: two segments; executions: up to eight, arcs included"""
    if S.symbolic:
        a, b = segment(S, 'a', 'Mm'), segment(S, 'b', 'LlHhVvMmZz')
        t = PathParser.get_total_length([a, b])
        want, _ = draw(S, [a, b])
        d2 = dist2(*want[1][1:]) if len(want) > 1 else 0
        S.check('non-negative', t >= 0)
        S.check_eq('total', t * t, d2)
    else:
        n = S.int('n', lo=1, hi=8)
        whole(S, [segment(S, 's%d' % i, NOARC if i else 'Mm')
                  for i in range(n)])


class Captured(Exception):
    pass


@contract()
def curve_is_the_speed_integral(S):
    P = [S.reals('p%d' % i, 2) for i in range(4)]
    A = [np.array(p, dtype=object if S.symbolic else float) for p in P]
    c = CubicBezierCurve(*A)
    if not S.symbolic:
        got = c.get_length()
        want = curve_length(*P)
        S.check('length', abs(got - want) <= 1e-3 * (1 + want))
        chord = math.hypot(P[3][0] - P[0][0], P[3][1] - P[0][1])
        S.check('not-below-chord', got >= chord * (1 - 1e-6) - 1e-6)
        return
    call = []

    def quad_stub(f, a, b, args=(), **kw):
        call.append((f, a, b, args))
        return 0.0, 0.0
    old = svgpy.path.quad
    svgpy.path.quad = quad_stub
    try:
        c.get_length()
    finally:
        svgpy.path.quad = old
    if len(call) != 1:
        raise sym.Unsupported('length is not one call of quad')
    f, a, b, args = call[0]
    S.check_eq('from', a, 0)
    S.check_eq('to', b, 1)
    t = S.real('t', lo=0, hi=1)
    u = 1 - t
    d = [3 * (u * u * (P[1][i] - P[0][i]) + 2 * u * t * (P[2][i] - P[1][i])
              + t * t * (P[3][i] - P[2][i])) for i in (0, 1)]
    n2 = d[0] * d[0] + d[1] * d[1]
    # the squared speed is a polynomial the integrand takes the root of
    got = []
    old = svgpy.path.math

    class M(object):
        def __getattr__(self, n):
            return getattr(old, n)

        def sqrt(self, x):
            got.append(x)
            return S.real('root')
    svgpy.path.math = M()
    try:
        v = f(t, *args)
    finally:
        svgpy.path.math = old
    if len(got) != 1:
        raise sym.Unsupported('integrand is not one square root')
    S.check_eq('integrand-is-speed', got[0], n2)


@contract(bounded=True, runs=400, secs=40)
def arcs(S):
    """one arc between lines (chord polyline of 20000 points as oracle)"""
    segs = [segment(S, 'a', 'M'), segment(S, 'b', 'Aa'),
            segment(S, 'c', 'LlZ')]
    whole(S, segs)


@contract(bounded=True, runs=300, secs=40)
def motions(S):
    """translation and rotation keep the length; both spellings agree"""
    n = S.int('n', lo=1, hi=6)
    segs = [segment(S, 's%d' % i, 'MmLlHhVvCcSsQqTtZz' if i else 'M')
            for i in range(n)]
    got = PathParser.get_total_length(segs)
    from svgpy.geometry.matrix import DOMMatrix
    m = DOMMatrix().translate(*S.reals('t', 2)).rotate(rot_z=S.angle('a'))
    moved = PathParser.transform(segs, m)
    S.check_eq('moved', PathParser.get_total_length(moved), got, 1e-4)
    S.check_eq('normalized', PathParser.get_total_length(
        PathParser.normalize(segs)), got, 1e-4)
