"""M02 - product is composition; identity, associativity, operand forms."""
from vlib.spec import contract
from common import *

CL = [DOMMatrix, DOMMatrixReadOnly]


def prod(S, a, b, tag):
    """a*b through one of the four spellings, on copies where in place"""
    how = S.choice('how' + tag, ['mul', 'multiply', 'self', 'imul'])
    if how == 'mul':
        return a * b
    if how == 'multiply':
        return a.multiply(b)
    c = DOMMatrix(a.tolist())
    if how == 'self':
        r = c.multiply_self(b)
    else:
        r = c
        r *= b
    S.check('in-place-returns-receiver' + tag, r is c)
    return r


def pt(S, m, p, tag=''):
    """transform_point: 2 numbers exactly for a 2d matrix and a 2d point"""
    r = m.transform_point(*p)
    full = list(p) + [0, 1][len(p) - 2:]
    two = S.and_(m.is2d, full[2] == 0, full[3] == 1)
    if S.fork(two):
        S.check('point-arity' + tag, len(r) == 2)
        return list(r) + [0, 1]
    S.check('point-arity' + tag, len(r) == 4)
    return list(r)


def point(S, name='p'):
    n = S.choice(name + '.n', [2, 3, 4])
    return S.reals(name, n)


@contract()
def transform_point(S):
    m = anymat(S, 'm', S.choice('cls', CL))
    b = rows(m)
    p = point(S)
    r = pt(S, m, p)
    full = list(p) + [0, 1][len(p) - 2:]
    S.check_seq('matrix-times-point', r, mv(b, full))
    S.check_seq('receiver-unchanged', flat(rows(m)), flat(b))


@contract()
def composition(S):
    a, b = anymat(S, 'a', S.choice('acls', CL)), anymat(S, 'b')
    ra, rb = rows(a), rows(b)
    p = S.reals('p', 4) if S.bool('4d') else S.reals('p', 2)
    ab = prod(S, a, b, '')
    q = pt(S, b, p, 'b')
    two_step = pt(S, a, q, 'a')
    S.check_seq('compose', pt(S, ab, p, 'ab'), two_step)
    S.check_seq('a-unchanged', flat(rows(a)), flat(ra))
    S.check_seq('b-unchanged', flat(rows(b)), flat(rb))


@contract()
def product_does_not_share_state(S):
    a, b = anymat(S, 'a'), anymat(S, 'b')
    ra, rb = rows(a), rows(b)
    ab = prod(S, a, b, '')
    v = S.real('v')
    ab.m11 = v
    ab.e = v
    ab.translate_self(v, v)
    S.check_seq('a-unchanged', flat(rows(a)), flat(ra))
    S.check_seq('b-unchanged', flat(rows(b)), flat(rb))


@contract()
def identity(S):
    a = anymat(S, 'a', S.choice('cls', CL))
    ra = rows(a)
    one = S.choice('one', [lambda: DOMMatrix(),
                           lambda: DOMMatrixReadOnly(),
                           lambda: DOMMatrix([1, 0, 0, 1, 0, 0]),
                           lambda: DOMMatrix(flat(IDENT))])()
    S.check('isidentity', bool(one.isidentity))
    S.check_seq('one*a', flat(rows(prod(S, one, a, 'l'))), flat(ra))
    S.check_seq('a*one', flat(rows(prod(S, a, one, 'r'))), flat(ra))


@contract()
def isidentity(S):
    a = anymat(S, 'a')
    ra = flat(rows(a))
    same = S.and_(*[S.eq(x, y) for x, y in zip(ra, flat(IDENT))])
    S.check('isidentity', S.iff(bool(a.isidentity), same))


@contract()
def associativity(S):
    a, b, c = (anymat(S, n) for n in 'abc')
    left = (a * b) * c
    right = a * (b * c)
    S.check_seq('assoc', flat(rows(left)), flat(rows(right)))
    S.check('flag', left.is2d is right.is2d)


@contract()
def operand_forms(S):
    """the 6-number and the 16-number spelling of one matrix"""
    v = S.reals('v', 6)
    six = DOMMatrix(v)
    six16 = DOMMatrix([v[0], v[1], 0, 0, v[2], v[3], 0, 0,
                       0, 0, 1, 0, v[4], v[5], 0, 1])
    o = anymat(S, 'o')
    S.check_seq('same-components', flat(rows(six)), flat(rows(six16)))
    S.check_seq('as-right', flat(rows(prod(S, o, six, 'r'))),
                flat(rows(prod(S, o, six16, 'r'))))
    S.check_seq('as-left', flat(rows(prod(S, six, o, 'l'))),
                flat(rows(prod(S, six16, o, 'l'))))
    S.check('equal', bool(six == six16))


@contract()
def flag_of_product(S):
    a, b = anymat(S, 'a', S.choice('cls', CL)), anymat(S, 'b')
    ab = prod(S, a, b, '')
    S.check('flag', ab.is2d is (a.is2d and b.is2d))
    is2d_ok(S, ab)


@contract()
def equality(S):
    if S.bool('3d'):
        v = S.reals('v', 16)
        w = list(v)
        for k in range(2):      # any two positions differ arbitrarily
            w[S.choice('pos%d' % k, range(16))] = S.real('w%d' % k)
    else:
        v, w = S.reals('v', 6), S.reals('w', 6)
    a, b = DOMMatrix(v), S.choice('cls', CL)(w)
    same = S.and_(*[S.eq(x, y) for x, y in zip(v, w)])
    S.check('eq', S.iff(bool(a == b), same))
    S.check('ne', S.iff(bool(a != b), S.not_(same)))
    S.check('not-a-matrix', (a == 1) is False and (a == None) is False)  # noqa


@contract()
def wrong_operand(S):
    a = anymat(S, 'a', S.choice('cls', CL))
    ra = rows(a)
    x = S.choice('x', [2, 'a', None, [1, 0, 0, 1, 0, 0]])
    r, e = S.raises(lambda: a * x, TypeError)
    S.check('TypeError', e is not None)
    S.check_seq('unchanged', flat(rows(a)), flat(ra))
