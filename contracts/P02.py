"""P02 - normalising path data."""
import copy
import math
from vlib.spec import contract
from vlib import sym
from vlib.loops import SymSeq, LoopContract
from svgpy.path import PathParser, PathSegment, SVGPathSegment
from pathspec import *
from pathloop import *

ASSUMPTIONS = ['normalize_any_length: path data begins with a move and '
               'contains no arcs (arcs are checked by bounded execution)']


class Normalize(PathLoop):
    """and the output so far leaves the same pen as the input so far"""
    order = ('path_data', 'normalized_path_data', 'start_x', 'start_y', 'cpx',
             'cpy', 'x1', 'y1', 'bearing', 'last_command', 'path_segment',
             'command', 'normalized')
    modifies = ('normalized_path_data',)

    def acc_enter(self, env):
        return env.get('normalized_path_data') == []

    def acc_havoc(self, env, k):
        self.out = SymSeq('out', self.S.int('nout', lo=0), None)
        return {'normalized_path_data': self.out}

    def acc_check(self, env, want, pen):
        S = self.S
        segs = self.out.suffix
        S.check('out-list', env['normalized_path_data'] is self.out)
        S.check('only-MLCZ', all(s.type in 'MLCZ' for s in segs))
        S.check('new-segments', all(s is not self.seg for s in segs))
        got, out = draw(S, segs, Pen(self.pen.cp, self.pen.start,
                                     self.pen.last))
        same(S, 'draws', got, want)
        S.check_seq('out-cp', out.cp, pen.cp)
        S.check_seq('out-start', out.start, pen.start)
        S.check('out-after-move', (out.last == 'M') == (pen.last == 'M'))


@contract(prove_s=400)
def normalize_any_length(S):
    if S.symbolic:
        c = Normalize(S)
        seq = sym_path(S, c)
        r = PathParser.normalize(seq)
        S.check('input-unchanged', not seq.suffix)
        S.check('returns-output', r is c.out and not r.suffix)
    else:
        whole(S, history(S))


@contract(runs=6000, secs=40)
def normalize_short(S):
    """whole path data of one and two segments (proof), up to ten segments
    (executions)"""
    if S.symbolic:
        n = 2
    else:
        n = S.int('n', lo=1, hi=10)
    segs = [segment(S, 's0', 'Mm')]
    for i in range(1, n):
        segs.append(segment(S, 's%d' % i))
    before = [(s.type, tuple(s.values)) for s in segs]
    whole(S, segs)
    S.check('input-types', [s.type for s in segs] == [b[0] for b in before])
    for s, b in zip(segs, before):
        S.check_seq('input-values', s.values, b[1])


def whole(S, segs):
    r = PathParser.normalize(segs)
    S.check('only-MLCZ', all(s.type in 'MLCZ' for s in r))
    want, p1 = draw(S, segs)
    got, p2 = draw(S, r)
    same(S, 'draws', got, want, 1e-6)


@contract(prove_s=300)
def segment_normalize(S):
    """PathSegment.normalize of one segment, any pen, any previous control
    point; the next control point is the reflected one"""
    pen, last = any_pen(S, lasts='C')
    t = S.choice('types', ['family', 'other'])
    pen.last = S.choice('pen.family', ['C', 'Q']) if t == 'family' else 'L'
    s = segment(S, 's')
    x1, y1 = (0, 0)
    fam = family(s.type.upper())
    if fam == family(pen.last):
        x1, y1 = lin(pen.cp, 2, pen.ctrl, -1)
    else:
        x1, y1 = pen.cp
    S.assume(s.type.upper() not in 'M')
    r = PathSegment.normalize(s, pen.cp[0], pen.cp[1], pen.bearing,
                              x1=x1, y1=y1)
    want, p1 = step(S, pen, s.type, list(s.values))
    got, p2 = draw(S, r, Pen(pen.cp, pen.start, pen.last))
    same(S, 'draws', got, want)
    if s.type in 'CcSsQqTt':
        nx, ny = PathSegment.get_next_control_point(
            s, pen.cp[0], pen.cp[1], pen.bearing, pen.last, x1=x1, y1=y1)
        S.check_seq('next-control', [nx, ny], lin(p1.cp, 2, p1.ctrl, -1))


# arcs: the cubics that replace a circular arc stay within 0.03 % of it; for
# an ellipse see the finding below (its distance is limited all the same)
NEAR = {1: (0.9996, 1.0004), 1.5: (0.95, 1.04), 2: (0.92, 1.055),
        3: (0.87, 1.065)}


def on_arc(S, arc, cubics, near):
    """the cubics run along the arc, from its start to its end"""
    (cx, cy), (rx, ry), a, d, f = arc_centre(arc)
    total, prev = 0.0, a
    for _, *P in cubics:
        for i in range(1, 17):
            t = i / 16
            b = (1 - t) ** 3, 3 * (1 - t) ** 2 * t, 3 * (1 - t) * t * t, t ** 3
            x = sum(k * p[0] for k, p in zip(b, P)) - cx
            y = sum(k * p[1] for k, p in zip(b, P)) - cy
            x, y = ((x * math.cos(f) + y * math.sin(f)) / rx,
                    (-x * math.sin(f) + y * math.cos(f)) / ry)
            S.check('arc-distance', near[0] <= math.hypot(x, y) <= near[1])
            now = math.atan2(y, x)
            total += math.remainder(now - prev, 2 * math.pi)
            prev = now
    S.check('arc-sweep', abs(total - d) < 0.02)


@contract(bounded=True, runs=3000, secs=40)
def normalize_with_arcs(S):
    """bounded: path data of up to eight segments, arcs included"""
    n = S.int('n', lo=1, hi=8)
    segs = [segment(S, 's0', 'Mm')]
    shape = []
    for i in range(1, n):
        s = segment(S, 's%d' % i, 'AaAa' + ALL)
        shape.append(1)
        if s.type in 'Aa':
            k = S.choice('s%d.aspect' % i, [1, 1, 1.5, 2, 3])
            v = list(s.values)
            v[0] = S.real('s%d.r' % i, lo=1)
            v[1] = v[0] * k
            if S.bool('s%d.swap' % i):
                v[0], v[1] = v[1], v[0]
            s = SVGPathSegment(s.type, *v)
        segs.append(s)
    want, _ = draw(S, segs)
    for p in want:
        if p[0] == 'A':
            d = math.hypot(p[1][0] - p[7][0], p[1][1] - p[7][1])
            S.assume(d > 0.01)
            # half circles have no stable centre
            S.assume(abs(abs(arc_centre(p)[3]) - math.pi) > 1e-3
                     or d > 2.001 * max(p[2], p[3]))
    before = [(s.type, tuple(s.values)) for s in segs]
    r = PathParser.normalize(segs)
    S.check('input', [(s.type, tuple(s.values)) for s in segs] == before)
    S.check('only-MLCZ', all(s.type in 'MLCZ' for s in r))
    got, _ = draw(S, r)
    i = 0
    for p in want:
        if p[0] != 'A':
            S.check('count', i < len(got))
            same(S, 'draws', [got[i]], [p], 1e-6)
            i += 1
            continue
        j = i
        while j < len(got) and got[j][0] == 'C' and not (
                S.eq(got[j][-1][0], p[7][0], 1e-6)
                and S.eq(got[j][-1][1], p[7][1], 1e-6)):
            j += 1
        S.check('arc-ends', j < len(got) and got[j][0] == 'C')
        S.check_seq('arc-starts', got[i][1], p[1], 1e-6)
        k = max(p[2] / p[3], p[3] / p[2])
        on_arc(S, p, got[i:j + 1],
               NEAR[min(NEAR, key=lambda x: abs(x - k))])
        i = j + 1
    S.check('count', i == len(got))


def elliptical_arcs():
    """normalising an elliptical arc with different radii gives cubics that
    leave the arc: M10,0 A20,10 0 0 1 0,10 passes the ellipse at 0.96 of its
    radius (the parameter of the ellipse is mistaken for the polar angle);
    the repository's own tests fix these numbers"""
    segs = PathParser.parse('M10,0 A20,10 0 0 1 0,10')
    got, _ = draw(None, PathParser.normalize(segs))
    arc, = [p for p in draw(None, segs)[0] if p[0] == 'A']
    (cx, cy), (rx, ry), _, _, _ = arc_centre(arc)
    for _, *P in got[1:]:
        x = (P[0][0] + 3 * P[1][0] + 3 * P[2][0] + P[3][0]) / 8 - cx
        y = (P[0][1] + 3 * P[1][1] + 3 * P[2][1] + P[3][1]) / 8 - cy
        if abs(math.hypot(x / rx, y / ry) - 1) > 0.01:
            return True
    return False


FINDINGS = [elliptical_arcs]
