"""M03 - aliases, 2d flag, construction and conversions."""
from vlib.spec import contract
from common import *

CL = [DOMMatrix, DOMMatrixReadOnly]
N16 = ['m%d%d' % (i, j) for i in range(1, 5) for j in range(1, 5)]
TWO = dict(a='m11', b='m12', c='m21', d='m22', e='m41', f='m42')
ONLY3 = [n for n in N16 if n not in TWO.values()]
ID = {n: (1 if n[1] == n[2] else 0) for n in N16}


def comps(m):
    return {n: getattr(m, n) for n in N16}


def aliases_ok(S, m):
    for a, n in TWO.items():
        S.check_eq('alias-' + a, getattr(m, a), getattr(m, n))
    arr = m.matrix
    for n in N16:
        S.check_eq('array-' + n, arr[int(n[2]) - 1, int(n[1]) - 1],
                   getattr(m, n))


def same(S, label, m, want, flag):
    got = comps(m)
    for n in N16:
        S.check_eq('%s.%s' % (label, n), got[n], want[n])
    S.check(label + '.is2d', m.is2d is flag)
    S.check(label + '.invariant', True)
    is2d_ok(S, m)
    aliases_ok(S, m)


@contract()
def from_numbers(S):
    cls = S.choice('cls', CL)
    how = S.choice('how', ['ctor', 'from_float_array'])
    if S.bool('3d'):
        v = S.reals('v', 16)
        want = dict(zip(N16, v))
        flag = False
    else:
        v = S.reals('v', 6)
        want = dict(ID)
        for k, x in zip('abcdef', v):
            want[TWO[k]] = x
        flag = True
    m = cls(v) if how == 'ctor' else cls.from_float_array(v)
    S.check('class', type(m) is cls)
    same(S, 'built', m, want, flag)
    if flag:
        S.check_seq('tolist', m.tolist(), v)
    else:
        S.check_seq('tolist', m.tolist(), v)
    S.check_seq('to_float_array', m.to_float_array(), [want[n] for n in N16])
    same(S, 'tolist-roundtrip', cls(m.tolist()), want, flag)
    same(S, 'array-roundtrip', cls(m.to_float_array()), want, False)
    j = m.tojson()
    S.check('json-flag', j['is2d'] is flag)
    S.check('json-keys', set(j) == set(
        ['is2d'] + (list(TWO.values()) if flag else N16)))
    for k, x in j.items():
        if k != 'is2d':
            S.check_eq('json-' + k, x, want[k])
    r = cls.from_matrix(j)
    S.check('class', type(r) is cls)
    same(S, 'json-roundtrip', r, want, flag)
    j2 = cls(**m.tojson())
    same(S, 'json-kwargs', j2, want, flag)


@contract()
def wrong_count(S):
    n = S.choice('n', [0, 1, 5, 7, 9, 12, 15, 17])
    cls = S.choice('cls', CL)
    r, e = S.raises(lambda: cls([1.0] * n), TypeError, ValueError)
    S.check('rejected', e is not None)


@contract()
def empty(S):
    cls = S.choice('cls', CL)
    same(S, 'identity', cls(), ID, True)


@contract()
def dict_2d_aliases(S):
    """each of the six aliases given as nothing / short / long / both"""
    cls = S.choice('cls', CL)
    k = S.choice('key', sorted(TWO))
    how = S.choice('how', ['short', 'long', 'both'])
    x, y, z = S.real('x'), S.real('y'), S.real('z')
    other = S.choice('other', [None, chr((ord(k) - 97 + 1) % 6 + 97)])
    flag = S.choice('flag', ['unset', True, False])
    d, want = {}, dict(ID)
    if other:
        d[other if S.bool('o-short') else TWO[other]] = z
        want[TWO[other]] = z
    conflict = False
    if how == 'short':
        d[k] = x
        want[TWO[k]] = x
    elif how == 'long':
        d[TWO[k]] = x
        want[TWO[k]] = x
    elif how == 'both':
        d[k] = x
        d[TWO[k]] = y
        conflict = x != y
        want[TWO[k]] = x
    if flag != 'unset':
        d['is2d'] = flag
    given = dict(d)
    m, e = S.raises(lambda: (cls.from_matrix(d) if S.bool('static')
                             else cls(**d)), ValueError)
    S.check('conflict-rejected', S.iff(e is not None, conflict))
    S.check('dict-unchanged', sorted(d) == sorted(given))
    if e is None:
        same(S, 'built', m, want, flag is not False)


@contract()
def dict_3d_member(S):
    cls = S.choice('cls', CL)
    n = S.choice('name', ONLY3)
    n2 = S.choice('name2', [None] + ONLY3[:3] + ['m33', 'm44', 'a'])
    S.assume(n != n2)
    x, y = S.real('x'), S.real('y')
    flag = S.choice('flag', ['unset', True, False, None])
    d = {n: x}
    want = dict(ID)
    want[n] = x
    trivial = x == ID[n]
    if n2:
        d[n2] = y
        want[TWO.get(n2, n2)] = y
        if n2 in ONLY3:
            trivial = S.and_(trivial, y == ID[n2])
    if flag != 'unset':
        d['is2d'] = flag
    m, e = S.raises(lambda: cls(**d), ValueError)
    S.check('inconsistent-rejected',
            S.iff(e is not None, S.and_(flag is True, S.not_(trivial))))
    if e is None:
        if flag is False:
            same(S, 'built', m, want, False)
        elif S.fork(trivial):
            same(S, 'built', m, want, True)
        else:
            same(S, 'built', m, want, False)


@contract()
def unknown_member(S):
    cls = S.choice('cls', CL)
    d = {'a': S.real('x'), S.choice('n', ['g', 'm15', 'is3d', 'is2D']): 1}
    r, e = S.raises(lambda: cls(**d), TypeError, ValueError)
    S.check('rejected', e is not None)


@contract()
def setters(S):
    m = anymat(S, 'm')
    want = comps(m)
    flag = m.is2d
    for i in range(2):
        n = S.choice('n%d' % i, N16 + sorted(TWO))
        v = S.real('v%d' % i)
        setattr(m, n, v)
        n = TWO.get(n, n)
        want[n] = v
        if n in ONLY3 and S.fork(v != ID[n]):
            flag = False
    got = comps(m)
    for n in N16:
        S.check_eq('set.' + n, got[n], want[n])
    # a matrix never becomes 2d by assignment, and leaves 2d exactly when a
    # 3d-only component departs from the identity
    S.check('flag', m.is2d is flag)
    is2d_ok(S, m)
    aliases_ok(S, m)


@contract()
def readonly_has_no_setter(S):
    m = anymat(S, 'm', DOMMatrixReadOnly)
    b = rows(m)
    n = S.choice('n', N16 + sorted(TWO) + ['is2d'])
    r, e = S.raises(lambda: setattr(m, n, S.real('v')), AttributeError)
    S.check('rejected', e is not None)
    S.check_seq('unchanged', flat(rows(m)), flat(b))


@contract()
def clear(S):
    m = anymat(S, 'm')
    f = m.is2d
    flag = S.choice('flag', [None, True, False])
    r = m.clear() if flag is None and S.bool('omit') else m.clear(flag)
    S.check('self', r is m)
    same(S, 'cleared', m, ID, f if flag is None else flag)


@contract(prove_s=300)
def flag_after_operation(S):
    m = anymat(S, 'm')
    f = m.is2d
    op = S.choice('op', ['translate', 'scale', 'scale3d', 'rotate', 'axis',
                         'vector', 'skew_x', 'skew_y', 'flip_x', 'flip_y'])
    x, y, z = S.reals('v', 3)
    ox, oy, oz = S.reals('o', 3)
    a = S.angle('a')
    two = True
    if op == 'translate':
        r = m.translate(x, y, z)
        two = z == 0
    elif op == 'scale':
        r = m.scale(x, y, z, ox, oy, oz)
        two = S.and_(z == 1, oz == 0)
    elif op == 'scale3d':
        r = m.scale3d(x, ox, oy, oz)
        two = x == 1
    elif op == 'rotate':
        b = S.angle('b')
        which = S.choice('which', [0, 1])
        r = m.rotate(*([b, 0, a] if which == 0 else [0, b, a]))
        two = b == 0
    elif op == 'axis':
        r = m.rotate_axis_angle(x, y, z, a)
        two = S.and_(x == 0, y == 0)
    elif op == 'vector':
        r = m.rotate_from_vector(x, y)
    elif op in ('skew_x', 'skew_y'):
        S.tan(S.radians(a))
        r = getattr(m, op)(a)
    else:
        r = getattr(m, op)()
    is2d_ok(S, r)
    S.check('stays-3d', S.implies(not f, r.is2d is False))
    S.check('stays-2d', S.implies(S.and_(f, two), r.is2d is True))
    S.check('receiver-flag', m.is2d is f)
