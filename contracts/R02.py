"""R02 - transforming a rectangle."""
from vlib.spec import contract
from svgpy.geometry.rect import DOMRect, DOMRectReadOnly
from common import *

CL = [DOMRect, DOMRectReadOnly]


@contract()
def tight_box(S):
    cls = S.choice('cls', CL)
    v = S.reals('r', 4)
    m = mat2(S, 'm', S.choice('m.cls', [DOMMatrix, DOMMatrixReadOnly]))
    b = rows(m)
    r = cls(*v)
    if cls is DOMRect and S.bool('inplace'):
        q = r.transform_self(m)
        S.check('returns-receiver', q is r)
    else:
        q = r.transform(m)
        S.check('new', q is not r)
        S.check_seq('receiver-unchanged', [r.x, r.y, r.width, r.height], v)
    S.check_seq('matrix-unchanged', flat(rows(m)), flat(b))
    pts = []
    for i in (0, 1):
        for j in (0, 1):
            pts.append(mv(b, [v[0] + i * v[2], v[1] + j * v[3], 0, 1]))
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    S.check_seq('box', q.get_coords(),
                [S.min(*xs), S.min(*ys), S.max(*xs), S.max(*ys)])


@contract()
def no_position(S):
    m = mat2(S, 'm')
    r = S.choice('cls', CL)()
    q = r.transform(m)
    S.check('still-nowhere', q.x is None and q.y is None)
