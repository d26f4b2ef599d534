"""M01 - every matrix operation is post-multiplication by its own matrix."""
from vlib.spec import contract
from common import *

ASSUMPTIONS = ['numpy.dot / numpy.array on 4x4 arrays: executed as is on '
               'object arrays (matrix product by definition)',
               'math.sin/cos: uninterpreted with sin^2+cos^2=1 and exact '
               'values at multiples of 90 degrees; math.tan = sin/cos off its '
               'poles']


def post(S, m0, before, result, spec, same):
    want = mm(before, spec)
    S.check('class', type(result) is DOMMatrix)
    if same:
        S.check('returns-self', result is m0)
    else:
        S.check('new-object', result is not m0)
        S.check_seq('receiver-unchanged', flat(rows(m0)), flat(before))
    S.check_seq('product', flat(rows(result)), flat(want))


def both(S, name, args, spec):
    """the pure and the mutating form against the same specification"""
    m = anymat(S)
    before = rows(m)
    if S.bool('in-place'):
        post(S, m, before, getattr(m, name + '_self')(*args), spec, True)
    else:
        post(S, m, before, getattr(m, name)(*args), spec, False)


@contract()
def translate(S):
    t = S.reals('t', 3)
    n = S.choice('n', [0, 1, 2, 3])
    u = [x if i < n else 0 for i, x in enumerate(t)]
    both(S, 'translate', t[:n], [[1, 0, 0, u[0]], [0, 1, 0, u[1]],
                                 [0, 0, 1, u[2]], [0, 0, 0, 1]])


def scale_about(sx, sy, sz, o):
    return [[sx, 0, 0, o[0] - sx * o[0]], [0, sy, 0, o[1] - sy * o[1]],
            [0, 0, sz, o[2] - sz * o[2]], [0, 0, 0, 1]]


@contract()
def scale(S):
    s = S.reals('s', 3)
    o = S.reals('o', 3)
    form = S.choice('form', ['1', '2', '3', 'xy-origin', 'xyz-origin',
                             'none-y'])
    z = [0, 0, 0]
    if form == '1':
        args, spec = s[:1], scale_about(s[0], s[0], 1, z)
    elif form == '2':
        args, spec = s[:2], scale_about(s[0], s[1], 1, z)
    elif form == '3':
        args, spec = s, scale_about(s[0], s[1], s[2], z)
    elif form == 'none-y':
        args = [s[0], None, s[2]] + o
        spec = scale_about(s[0], s[0], s[2], o)
    elif form == 'xy-origin':
        args = [s[0], s[1], 1, o[0], o[1]]
        spec = scale_about(s[0], s[1], 1, [o[0], o[1], 0])
    else:
        args, spec = s + o, scale_about(s[0], s[1], s[2], o)
    both(S, 'scale', args, spec)


@contract()
def scale3d(S):
    s = S.real('s')
    o = S.reals('o', 3)
    n = S.choice('n', [0, 1, 3])
    both(S, 'scale3d', [s] + o[:n],
         scale_about(s, s, s, [x if i < n else 0 for i, x in enumerate(o)]))


def rotz(c, s):
    return r2d(c, s, -s, c, 0, 0)


def roty(c, s):
    return [[c, 0, s, 0], [0, 1, 0, 0], [-s, 0, c, 0], [0, 0, 0, 1]]


def rotx(c, s):
    return [[1, 0, 0, 0], [0, c, -s, 0], [0, s, c, 0], [0, 0, 0, 1]]


def sc(S, deg):
    a = S.radians(deg)
    return S.cos(a), S.sin(a)


@contract()
def rotate_z(S):
    a = S.angle('a')
    both(S, 'rotate', [0, 0, a], rotz(*sc(S, a)))


@contract()
def rotate_xyz(S):
    a = [S.angle('ax'), S.angle('ay'), S.angle('az')]
    m = anymat(S)
    before = rows(m)
    spec = mm(mm(rotz(*sc(S, a[2])), roty(*sc(S, a[1]))),
              rotx(*sc(S, a[0])))
    r = m.rotate(*a)
    S.check('class', type(r) is DOMMatrix)
    S.check_seq('receiver-unchanged', flat(rows(m)), flat(before))
    S.check_seq('product', flat(rows(r)), flat(mm(before, spec)))


@contract()
def rotate_self_xyz(S):
    a = [S.angle('ax'), S.angle('ay'), S.angle('az')]
    m = anymat(S)
    before = rows(m)
    spec = mm(mm(rotz(*sc(S, a[2])), roty(*sc(S, a[1]))),
              rotx(*sc(S, a[0])))
    r = m.rotate_self(*a)
    S.check('returns-self', r is m)
    S.check_seq('product', flat(rows(r)), flat(mm(before, spec)))


@contract()
def rotate_axis_angle(S):
    x, y, z = S.reals('v', 3)
    a = S.angle('a')
    c, s = sc(S, a)
    m = DOMMatrix() if S.bool('ident') else anymat(S)
    before = rows(m)
    n2 = x * x + y * y + z * z
    inplace = S.bool('in-place')
    r = (m.rotate_axis_angle_self if inplace else m.rotate_axis_angle)(
        x, y, z, a)
    if inplace:
        S.check('returns-self', r is m)
    else:
        S.check_seq('receiver-unchanged', flat(rows(m)), flat(before))
    if n2 == 0:
        S.check_seq('zero-axis', flat(rows(r)), flat(before))
        return
    n = S.sqrt(n2)
    u, v, w = x / n, y / n, z / n
    k = 1 - c
    spec = [[c + u * u * k, u * v * k - w * s, u * w * k + v * s, 0],
            [u * v * k + w * s, c + v * v * k, v * w * k - u * s, 0],
            [u * w * k - v * s, v * w * k + u * s, c + w * w * k, 0],
            [0, 0, 0, 1]]
    S.check_seq('product', flat(rows(r)), flat(mm(before, spec)))


@contract()
def rotate_from_vector(S):
    x, y = S.reals('v', 2)
    m = anymat(S)
    before = rows(m)
    inplace = S.bool('in-place')
    n2 = x * x + y * y
    r = (m.rotate_from_vector_self if inplace else m.rotate_from_vector)(x, y)
    if inplace:
        S.check('returns-self', r is m)
    else:
        S.check_seq('receiver-unchanged', flat(rows(m)), flat(before))
    if n2 == 0:
        S.check_seq('zero-vector', flat(rows(r)), flat(before))
        return
    n = S.sqrt(n2)
    S.check_seq('product', flat(rows(r)),
                flat(mm(before, rotz(x / n, y / n))))


@contract()
def skew_x(S):
    a = S.angle('a')
    t = S.tan(S.radians(a))
    both(S, 'skew_x', [a], r2d(1, 0, t, 1, 0, 0))


@contract()
def skew_y(S):
    a = S.angle('a')
    t = S.tan(S.radians(a))
    both(S, 'skew_y', [a], r2d(1, t, 0, 1, 0, 0))


@contract()
def flip(S):
    m = anymat(S)
    before = rows(m)
    if S.bool('x'):
        post(S, m, before, m.flip_x(), r2d(-1, 0, 0, 1, 0, 0), False)
    else:
        post(S, m, before, m.flip_y(), r2d(1, 0, 0, -1, 0, 0), False)


@contract()
def multiply(S):
    m = anymat(S, 'm')
    o = anymat(S, 'o', S.choice('ocls', [DOMMatrix, DOMMatrixReadOnly]))
    b, ob = rows(m), rows(o)
    how = S.choice('how', ['multiply', 'multiply_self', '*', '*='])
    if how == 'multiply':
        post(S, m, b, m.multiply(o), ob, False)
    elif how == 'multiply_self':
        post(S, m, b, m.multiply_self(o), ob, True)
    elif how == '*':
        post(S, m, b, m * o, ob, False)
    else:
        k = m
        k *= o
        post(S, m, b, k, ob, True)
    S.check_seq('operand-unchanged', flat(rows(o)), flat(ob))


@contract()
def multiply_by_itself(S):
    m = anymat(S, 'm')
    b = rows(m)
    S.check_seq('square', flat(rows(m.multiply_self(m))), flat(mm(b, b)))


@contract()
def readonly_receiver(S):
    """DOMMatrixReadOnly offers only the pure operations; none of them (nor
    any in-place form it does not have) changes it."""
    m = anymat(S, 'm', DOMMatrixReadOnly)
    b = rows(m)
    o = mat2(S, 'o')
    a = S.angle('a')
    k = S.choice('op', ['multiply', 'translate', 'scale', 'rotate', 'skew_x',
                        'flip_x', 'flip_y', 'skew_y', 'mul'])
    if k == 'multiply':
        r, w = m.multiply(o), rows(o)
    elif k == 'mul':
        r, w = m * o, rows(o)
    elif k == 'translate':
        r, w = m.translate(o.a, o.b), r2d(1, 0, 0, 1, o.a, o.b)
    elif k == 'scale':
        r, w = m.scale(o.a, o.b), r2d(o.a, 0, 0, o.b, 0, 0)
    elif k == 'rotate':
        r, w = m.rotate(rot_z=a), rotz(*sc(S, a))
    elif k == 'skew_x':
        w = r2d(1, 0, S.tan(S.radians(a)), 1, 0, 0)
        r = m.skew_x(a)
    elif k == 'skew_y':
        w = r2d(1, S.tan(S.radians(a)), 0, 1, 0, 0)
        r = m.skew_y(a)
    elif k == 'flip_x':
        r, w = m.flip_x(), r2d(-1, 0, 0, 1, 0, 0)
    else:
        r, w = m.flip_y(), r2d(1, 0, 0, -1, 0, 0)
    S.check('class', type(r) is DOMMatrix)
    S.check_seq('receiver-unchanged', flat(rows(m)), flat(b))
    S.check_seq('product', flat(rows(r)), flat(mm(b, w)))
