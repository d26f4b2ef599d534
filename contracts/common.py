"""Shared specification vocabulary (mathematics only, no code of /repo)."""
from svgpy.geometry.matrix import DOMMatrix, DOMMatrixReadOnly


def rows(m):
    """4x4 rows (column-vector convention) through the public accessors."""
    return [[m.m11, m.m21, m.m31, m.m41],
            [m.m12, m.m22, m.m32, m.m42],
            [m.m13, m.m23, m.m33, m.m43],
            [m.m14, m.m24, m.m34, m.m44]]


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(1, 4)), a[i][0] * b[0][j])
             for j in range(4)] for i in range(4)]


def mv(a, v):
    return [sum((a[i][k] * v[k] for k in range(1, 4)), a[i][0] * v[0])
            for i in range(4)]


IDENT = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def flat(r):
    return [x for row in r for x in row]


def r2d(a, b, c, d, e, f):
    return [[a, c, 0, e], [b, d, 0, f], [0, 0, 1, 0], [0, 0, 0, 1]]


def mat2(S, name='m', cls=DOMMatrix):
    return cls(S.reals(name, 6, small=True))


def mat3(S, name='m', cls=DOMMatrix):
    return cls(S.reals(name, 16, small=True))


def anymat(S, name='m', cls=DOMMatrix):
    return mat3(S, name, cls) if S.bool(name + '.3d') else mat2(S, name, cls)


def is2d_ok(S, m):
    """A matrix flagged 2d has the 3d components of the identity."""
    if m.is2d:
        r = rows(m)
        for (i, j) in ((2, 0), (2, 1), (2, 3), (3, 0), (3, 1), (3, 2),
                       (0, 2), (1, 2)):
            S.check_eq('is2d-implies-zero', r[i][j], 0)
        S.check_eq('is2d-implies-m33', r[2][2], 1)
        S.check_eq('is2d-implies-m44', r[3][3], 1)
    else:
        S.check('is2d-is-bool', m.is2d is False)
