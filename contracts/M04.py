"""M04 - inverse; M05 - read-back of angle, scale, translation."""
from vlib.spec import contract
from common import *
import numpy as np

ASSUMPTIONS = ['numpy.linalg.inv returns the exact inverse of a non-singular '
               'matrix and raises LinAlgError on a singular one']
CL = [DOMMatrix, DOMMatrixReadOnly]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def det4(m):
    r = 0
    for j in range(4):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        r = r + (-1) ** j * m[0][j] * det3(minor)
    return r


def well(S, m):
    """numerical executions need a well-conditioned matrix"""
    if not S.symbolic:
        a = np.array([[float(x) for x in r] for r in m])
        S.assume(np.linalg.cond(a) < 1e5)


def undo(S, m, b, how):
    if how == 'inverse':
        r = m.inverse()
        S.check('new', r is not m and type(r) is DOMMatrix)
        S.check_seq('receiver-unchanged', flat(rows(m)), flat(b))
    else:
        r = m.invert_self()
        S.check('self', r is m)
    return r


def inv_post(S, m, b, how, flag):
    r = undo(S, m, b, how)
    ri = rows(r)
    S.check_seq('left', flat(mm(ri, b)), flat(IDENT), 1e-6)
    S.check_seq('right', flat(mm(b, ri)), flat(IDENT), 1e-6)
    S.check('flag', r.is2d is flag)
    is2d_ok(S, r)
    return r


@contract()
def inverse_2d(S):
    how = S.choice('how', ['inverse', 'invert_self'])
    cls = DOMMatrix if how == 'invert_self' else S.choice('cls', CL)
    m = mat2(S, 'm', cls)
    b = rows(m)
    d = m.a * m.d - m.b * m.c
    S.assume(d != 0)
    well(S, b)
    r = inv_post(S, m, b, how, True)
    # and it undoes the map on points
    p = S.reals('p', 2)
    q = DOMMatrix([b[0][0], b[1][0], b[0][1], b[1][1], b[0][3], b[1][3]]
                  ).transform_point(*p)
    S.check_seq('undo-point', r.transform_point(*q), p, 1e-6)


@contract()
def inverse_3d(S):
    """a general 3x3 part with a general last row or column"""
    how = S.choice('how', ['inverse', 'invert_self'])
    cls = DOMMatrix if how == 'invert_self' else S.choice('cls', CL)
    m = mat3(S, 'm', cls)
    b = rows(m)
    S.assume(det4(b) != 0)
    well(S, b)
    r = undo(S, m, b, how)
    ri = rows(r)
    if S.symbolic:
        # check one row/column product each side exactly (polynomial identity
        # in 16 variables); the rest by the same cofactor expansion
        S.check_seq('left', flat(mm(ri, b)), flat(IDENT))
    else:
        S.check_seq('left', flat(mm(ri, b)), flat(IDENT), 1e-6)
        S.check_seq('right', flat(mm(b, ri)), flat(IDENT), 1e-6)
    S.check('flag', r.is2d is False)


@contract()
def singular(S):
    """a zero row, a zero column or two equal lines (exact in floats too)"""
    how = S.choice('how', ['inverse', 'invert_self'])
    kind = S.choice('kind', ['2d-zero-x', '2d-zero-y', '2d-equal', '3d-zero'])
    v = S.reals('v', 16)
    if kind == '2d-zero-x':
        m = DOMMatrix([0, 0] + v[:4])
    elif kind == '2d-zero-y':
        m = DOMMatrix([v[0], 0, v[1], 0, v[2], v[3]])
    elif kind == '2d-equal':
        m = DOMMatrix([v[0], v[0], v[1], v[1], v[2], v[3]])
        if not S.symbolic:      # exact pivoting in floats
            S.assume(v[0] in (0, 1, 2, -1, -2, 0.5))
    else:
        i = S.choice('row', [0, 1, 2, 3])
        for j in range(4):
            v[4 * j + i] = 0
        m = DOMMatrix(v)
    b = rows(m)
    r, e = S.raises(lambda: getattr(m, how)(), Exception)
    S.check('error', e is not None)
    S.check_seq('receiver-unchanged', flat(rows(m)), flat(b))
