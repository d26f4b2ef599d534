"""P03 - transforming path data."""
from vlib.spec import contract
from vlib import sym
from vlib.loops import SymSeq
from svgpy.path import PathParser, PathSegment, SVGPathSegment
from common import *
from pathspec import *
from pathloop import *

ASSUMPTIONS = ['transform_any_length: path data begins with a move and '
               'contains no arcs']


def image(b, p):
    return tuple(mv(b, [p[0], p[1], 0, 1])[:2])


def image_pieces(b, pieces):
    return [(p[0],) + tuple(image(b, q) for q in p[1:]) for p in pieces]


def image_pen(b, pen):
    return Pen(image(b, pen.cp), image(b, pen.start), pen.last,
               image(b, pen.ctrl) if pen.ctrl is not None else None)


class Transform(PathLoop):
    """and the output so far leaves the image of that pen"""
    order = ('path_data', 'matrix', 'transformed_path_data', 'start_x', 'start_y',
             'cpx', 'cpy', 'bearing', 'last_command', 'path_segment', 'command',
             'transformed', 'abs_path_segment', 'x', 'y')
    modifies = ('transformed_path_data',)
    track_control = False

    def __init__(self, S, m, b):
        super().__init__(S)
        self.m, self.b = m, b

    def acc_enter(self, env):
        return env.get('transformed_path_data') == []

    def acc_havoc(self, env, k):
        self.out = SymSeq('out', self.S.int('nout', lo=0), None)
        return {'transformed_path_data': self.out}

    def acc_check(self, env, want, pen):
        S = self.S
        segs = self.out.suffix
        S.check('out-list', env['transformed_path_data'] is self.out)
        S.check('new-segments', all(s is not self.seg for s in segs))
        p0 = Pen() if self.first else image_pen(self.b, self.pen)
        got, out = draw(S, segs, p0)
        same(S, 'draws', got, image_pieces(self.b, want))
        im = image_pen(self.b, pen)
        S.check_seq('out-cp', out.cp, im.cp)
        S.check_seq('out-start', out.start, im.start)
        S.check('out-last', kind(out.last) == kind(pen.last))
        if family(pen.last) in ('C', 'Q'):
            S.check_seq('out-control', out.ctrl, im.ctrl)


def whole(S, segs, m, b):
    before = [(s.type, tuple(s.values)) for s in segs]
    r = PathParser.transform(segs, m)
    S.check('input-types', [s.type for s in segs] == [x[0] for x in before])
    for s, x in zip(segs, before):
        S.check_seq('input-values', s.values, x[1])
    want, p1 = draw(S, segs)
    got, p2 = draw(S, r)
    same(S, 'draws', got, image_pieces(b, want), 1e-6)


@contract(prove_s=500)
def transform_any_length(S):
    m = mat2(S, 'm', S.choice('cls', [DOMMatrix, DOMMatrixReadOnly])
             if not S.symbolic else DOMMatrix)
    b = rows(m)
    if S.symbolic:
        c = Transform(S, m, b)
        seq = sym_path(S, c)
        r = PathParser.transform(seq, m)
        S.check('input-unchanged', not seq.suffix)
        S.check('returns-output', r is c.out and not r.suffix)
    else:
        whole(S, history(S), m, b)
    S.check_seq('matrix-unchanged', flat(rows(m)), flat(b))


@contract(runs=6000, secs=30)
def transform_short(S):
    m = mat2(S, 'm', DOMMatrixReadOnly)
    b = rows(m)
    n = 2 if S.symbolic else S.int('n', lo=1, hi=10)
    segs = [segment(S, 's0', 'Mm')]
    for i in range(1, n):
        segs.append(segment(S, 's%d' % i))
    whole(S, segs, m, b)
    S.check_seq('matrix-unchanged', flat(rows(m)), flat(b))


@contract()
def segment_transform(S):
    """PathSegment.transform of one segment, any pen"""
    m = mat2(S, 'm')
    b = rows(m)
    pen, last = any_pen(S, lasts='MCQL')
    s = segment(S, 's', 'MmLlHhVvCcSsQqTtZz')
    r = PathSegment.transform(s, pen.cp[0], pen.cp[1], pen.bearing, m)
    S.check('new', r is not s)
    want, p1 = step(S, pen, s.type, list(s.values))
    got, p2 = step(S, image_pen(b, pen), r.type, list(r.values))
    same(S, 'draws', got, image_pieces(b, want))
