"""R01 - rectangles as sets of the plane; R02 lives in R02.py."""
from vlib.spec import contract
from svgpy.geometry.rect import DOMRect, DOMRectReadOnly

CL = [DOMRect, DOMRectReadOnly]


def rect(S, n='r', cls=None, pos=False):
    cls = cls or S.choice(n + '.cls', CL)
    v = S.reals(n, 4)
    if pos:
        S.assume(S.and_(v[2] > 0, v[3] > 0))
    return cls(*v), v


def same(S, label, r, v):
    S.check_seq(label, r.get_rect(), v)


def parts(S, r):
    return [r.x, r.y, r.width, r.height]


def both_forms(S, name, r, v, args):
    """calls the in-place or the other form; checks who is modified"""
    inplace = type(r) is DOMRect and S.bool('inplace')
    if inplace:
        q = getattr(r, name + '_self')(*args)
        S.check('returns-receiver', q is r)
    else:
        q = getattr(r, name)(*args)
        S.check('returns-new', q is not r and type(q) is DOMRect)
        S.check_seq('receiver-unchanged', parts(S, r), v)
    return q


@contract()
def edges(S):
    r, (x, y, w, h) = rect(S)
    S.check_eq('left', r.left, x)
    S.check_eq('top', r.top, y)
    S.check_eq('right', r.right, x + w)
    S.check_eq('bottom', r.bottom, y + h)
    S.check_seq('coords', r.get_coords(), [x, y, x + w, y + h])
    S.check_seq('rect', r.get_rect(), [x, y, w, h])
    S.check_seq('size', r.get_size(), [w, h])
    j = r.tojson()
    S.check('json-keys', sorted(j) == ['height', 'width', 'x', 'y'])
    S.check_seq('json', [j['x'], j['y'], j['width'], j['height']],
                [x, y, w, h])
    c = S.choice('back', CL)
    q = c.from_rect(j)
    S.check('json-type', type(q) is c)
    S.check_seq('json-back', parts(S, q), [x, y, w, h])
    ok = S.and_(w > 0, h > 0)
    S.check('valid', S.iff(bool(r.isvalid()), ok))
    S.check('empty', S.iff(bool(r.isempty()), S.not_(ok)))


@contract()
def equality(S):
    r, v = rect(S, 'r')
    q, u = rect(S, 'q')
    S.check('eq', S.iff(bool(r == q), S.and_(
        *[a == b for a, b in zip(v, u)])))


@contract()
def setters(S):
    r, v = rect(S, 'r', DOMRect)
    a = S.reals('a', 4)
    op = S.choice('op', ['x', 'y', 'width', 'height', 'move_to', 'set_rect',
                         'set_size', 'set_coords', 'transpose'])
    x, y, w, h = v
    if op in ('x', 'y', 'width', 'height'):
        setattr(r, op, a[0])
        want = [a[0] if n == op else k for n, k in zip(
            ('x', 'y', 'width', 'height'), v)]
    elif op == 'transpose':
        q = both_forms(S, 'transpose', r, v, ())
        S.check_seq('transpose', parts(S, q), [x, y, h, w])
        return
    else:
        n = 2 if op in ('move_to', 'set_size') else 4
        q = getattr(r, op)(*a[:n])
        S.check('returns-receiver', q is r)
        want = {'move_to': [a[0], a[1], w, h], 'set_size': [x, y, a[0], a[1]],
                'set_rect': a,
                'set_coords': [a[0], a[1], a[2] - a[0], a[3] - a[1]]}[op]
    S.check_seq(op, parts(S, r), want)


@contract()
def normalize(S):
    r, (x, y, w, h) = rect(S)
    q = r.normalize()
    S.check('new', q is not r)
    S.check_seq('receiver-unchanged', parts(S, r), [x, y, w, h])
    S.check_seq('normalized', q.get_coords(),
                [S.min(x, x + w), S.min(y, y + h),
                 S.max(x, x + w), S.max(y, y + h)])
    S.check('non-negative', S.and_(S.le(0, q.width), S.le(0, q.height)))


@contract()
def translate(S):
    r, v = rect(S)
    d = S.reals('d', 2)
    q = both_forms(S, 'translate', r, v, d)
    S.check_seq('moved', parts(S, q), [v[0] + d[0], v[1] + d[1], v[2], v[3]])


@contract()
def adjust(S):
    r, v = rect(S)
    d = S.reals('d', 4)
    ok = bool(v[2] > 0) and bool(v[3] > 0)
    q = both_forms(S, 'adjust', r, v, d)
    if ok:
        S.check_seq('edges-moved', q.get_coords(),
                    [v[0] + d[0], v[1] + d[1],
                     v[0] + v[2] + d[2], v[1] + v[3] + d[3]])
    else:
        S.check_seq('no-area-unchanged', parts(S, q), v)


@contract()
def contains(S):
    """contains a point / a rectangle (negative sizes count as 0)"""
    r, (x, y, w, h) = rect(S)
    k = S.choice('operand', ['point', 'rect'])
    p = S.reals('p', 2)
    if k == 'point':
        got = r.contains(*p)
        e = [0, 0]
    else:
        e = S.reals('e', 2)
        got = r.contains(p[0], p[1], e[0], e[1])
        e = [S.max(e[0], 0), S.max(e[1], 0)]
    want = S.and_(w > 0, h > 0, x <= p[0], p[0] + e[0] <= x + w,
                  y <= p[1], p[1] + e[1] <= y + h)
    S.check('contains', S.iff(bool(got), want))
    S.check_seq('receiver-unchanged', parts(S, r), [x, y, w, h])


@contract()
def unite(S):
    """smallest rectangle containing both; sizes below 0 count as 0"""
    r, v = rect(S)
    S.assume(S.and_(v[2] >= 0, v[3] >= 0))
    u = S.reals('u', 4)
    how = S.choice('how', ['method', 'method-point', 'operator'])
    if how == 'operator':
        o = S.choice('o.cls', CL)(*u)
        iop = type(r) is DOMRect and type(o) is DOMRect and S.bool('iop')
        if iop:
            q = r
            q |= o
            S.check('returns-receiver', q is r)
        else:
            q = r | o
            S.check('new', q is not r and q is not o)
            S.check_seq('receiver-unchanged', parts(S, r), v)
        S.check_seq('operand-unchanged', parts(S, o), u)
    elif how == 'method':
        q = both_forms(S, 'unite', r, v, u)
    else:
        q = both_forms(S, 'unite', r, v, u[:2])
        u = u[:2] + [0, 0]
    r2, b2 = u[0] + S.max(u[2], 0), u[1] + S.max(u[3], 0)
    S.check_seq('smallest', q.get_coords(),
                [S.min(v[0], u[0]), S.min(v[1], u[1]),
                 S.max(v[0] + v[2], r2), S.max(v[1] + v[3], b2)])


@contract()
def unite_nothing(S):
    """the rectangle without position is neutral"""
    u = S.reals('u', 4)
    S.assume(S.and_(u[2] >= 0, u[3] >= 0))
    cls = S.choice('cls', CL)
    if S.bool('left'):
        e = cls()
        q = both_forms(S, 'unite', e, [None, None, 0, 0], u) \
            if S.bool('method') else e | DOMRect(*u)
    else:
        r = cls(*u)
        q = r | S.choice('o.cls', CL)()
        S.check('new', q is not r)
    S.check_seq('neutral', parts(S, q), u)


@contract(prove_s=300)
def intersect(S):
    """the common part of rectangles that overlap; otherwise unchanged"""
    r, v = rect(S)
    o, u = rect(S, 'o')
    how = S.choice('how', ['method', 'operator'])
    if how == 'method':
        q = both_forms(S, 'intersect', r, v, [o])
    else:
        if type(r) is DOMRect and type(o) is DOMRect and S.bool('iop'):
            q = r
            q &= o
            S.check('returns-receiver', q is r)
        else:
            q = r & o
            S.check('new', q is not r and q is not o)
            S.check_seq('receiver-unchanged', parts(S, r), v)
    S.check_seq('operand-unchanged', parts(S, o), u)
    l, t = S.max(v[0], u[0]), S.max(v[1], u[1])
    rr = S.min(v[0] + v[2], u[0] + u[2])
    bb = S.min(v[1] + v[3], u[1] + u[3])
    over = S.and_(v[2] > 0, v[3] > 0, u[2] > 0, u[3] > 0, l < rr, t < bb)
    want = [S.ite(over, l, v[0]), S.ite(over, t, v[1]),
            S.ite(over, rr, v[0] + v[2]), S.ite(over, bb, v[1] + v[3])]
    S.check_seq('common-part', q.get_coords(), want)
