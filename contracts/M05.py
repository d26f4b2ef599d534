"""M05 - angle, scale and translation read back from a matrix."""
from vlib.spec import contract
from common import *

CL = [DOMMatrix, DOMMatrixReadOnly]


@contract()
def get_translate(S):
    m = anymat(S, 'm', S.choice('cls', CL))
    r = rows(m)
    want = [r[0][3], r[1][3]] + ([] if m.is2d else [r[2][3]])
    S.check_seq('translation-column', m.get_translate(), want)


@contract()
def get_scale(S):
    m = anymat(S, 'm', S.choice('cls', CL))
    r = rows(m)
    got = m.get_scale()
    S.check('arity', len(got) == (2 if m.is2d else 3))
    for k, s in enumerate(got):
        n2 = r[0][k] * r[0][k] + r[1][k] * r[1][k] + r[2][k] * r[2][k]
        S.check('non-negative', s >= 0)
        S.check_eq('axis-length', s * s, n2)


@contract()
def get_angle_2d(S):
    """the angle turns the x axis onto its image"""
    m = mat2(S, 'm', S.choice('cls', CL))
    S.assume(S.or_(m.m11 != 0, m.m12 != 0))
    form = S.choice('form', ['default', True, False])
    t = m.get_angle() if form == 'default' else m.get_angle(form)
    t = S.radians(t) if form is not False else t
    n = S.sqrt(m.m11 * m.m11 + m.m12 * m.m12)
    S.check_eq('cos', n * S.cos(t), m.m11)
    S.check_eq('sin', n * S.sin(t), m.m12)
    if not S.symbolic:
        import math
        S.check('range', -math.pi < t <= math.pi)


@contract()
def trs_2d(S):
    """translate . rotate . scale with positive factors reads back"""
    tx, ty = S.reals('t', 2)
    sx, sy = S.real('sx', lo=0.001), S.real('sy', lo=0.001)
    a = S.angle('a')
    m = DOMMatrix().translate(tx, ty).rotate(rot_z=a).scale(sx, sy)
    S.check_seq('translate', m.get_translate(), [tx, ty])
    S.check_seq('scale', m.get_scale(), [sx, sy])
    t = S.radians(m.get_angle())
    r = S.radians(a)
    S.check_eq('cos', S.cos(t), S.cos(r))
    S.check_eq('sin', S.sin(t), S.sin(r))


@contract()
def rotate_from_vector_angle(S):
    x, y = S.reals('v', 2)
    S.assume(S.or_(x != 0, y != 0))
    t = S.radians(DOMMatrix().rotate_from_vector(x, y).get_angle())
    n = S.sqrt(x * x + y * y)
    S.check_eq('cos', n * S.cos(t), x)
    S.check_eq('sin', n * S.sin(t), y)


@contract()
def single_axis_3d(S):
    """a rotation about one axis of a 3d matrix reads back about that axis"""
    a = S.real('a', lo=-89, hi=89)
    k = S.choice('axis', [0, 1, 2])
    args = [0, 0, 0]
    args[k] = a
    m = DOMMatrix(flat(IDENT)).rotate(*args)
    got = m.get_angle()
    S.check('arity', len(got) == 3)
    for i in range(3):
        t, w = S.radians(got[i]), S.radians(args[i])
        if S.symbolic and k != 2 or not S.symbolic:
            pass
        if not S.symbolic:
            S.check_eq('angle%d' % i, t, w)
    if S.symbolic:
        # the x/z axes are read from exact sine and cosine entries
        c, s = S.cos(S.radians(a)), S.sin(S.radians(a))
        S.assume(c > 0)      # |a| < 90
        for i in range(3):
            t = S.radians(got[i])
            if i == k:
                S.check_eq('sin%d' % i, S.sin(t), s)
                S.check_eq('cos%d' % i, S.cos(t), c)
            else:
                S.check_eq('zero%d' % i, S.sin(t), 0)
