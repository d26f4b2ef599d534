"""T02 - one transform: type, values, angle, matrix, text."""
import random
from vlib.spec import contract
from svgpy.transform import SVGTransform, SVGTransformList
from common import *

T = SVGTransform
KINDS = ['matrix', 'translate1', 'translate', 'scale1', 'scale', 'rotate1',
         'rotate', 'skewX', 'skewY']


def prior(S):
    """a transform in any earlier state"""
    t = SVGTransform()
    k = S.choice('prior', ['new'] + KINDS)
    if k != 'new':
        apply(S, t, k, S.reals('old', 6), 'set')
    return t


def apply(S, t, k, v, how):
    if k == 'matrix':
        if how == 'set':
            t.set(T.SVG_TRANSFORM_MATRIX, *v)
        else:
            t.set_matrix(DOMMatrix(v))
        return
    typ, name, n = {
        'translate1': (T.SVG_TRANSFORM_TRANSLATE, 'set_translate', 1),
        'translate': (T.SVG_TRANSFORM_TRANSLATE, 'set_translate', 2),
        'scale1': (T.SVG_TRANSFORM_SCALE, 'set_scale', 1),
        'scale': (T.SVG_TRANSFORM_SCALE, 'set_scale', 2),
        'rotate1': (T.SVG_TRANSFORM_ROTATE, 'set_rotate', 1),
        'rotate': (T.SVG_TRANSFORM_ROTATE, 'set_rotate', 3),
        'skewX': (T.SVG_TRANSFORM_SKEWX, 'set_skew_x', 1),
        'skewY': (T.SVG_TRANSFORM_SKEWY, 'set_skew_y', 1)}[k]
    if how == 'set':
        t.set(typ, *v[:n])
    else:
        getattr(t, name)(*v[:n])


def meaning(S, k, v):
    """-> type, values, angle, rows"""
    if k == 'matrix':
        return T.SVG_TRANSFORM_MATRIX, v, 0, r2d(*v)
    if k == 'translate1':
        return T.SVG_TRANSFORM_TRANSLATE, [v[0], 0], 0, \
            r2d(1, 0, 0, 1, v[0], 0)
    if k == 'translate':
        return T.SVG_TRANSFORM_TRANSLATE, v[:2], 0, \
            r2d(1, 0, 0, 1, v[0], v[1])
    if k == 'scale1':
        return T.SVG_TRANSFORM_SCALE, [v[0], v[0]], 0, \
            r2d(v[0], 0, 0, v[0], 0, 0)
    if k == 'scale':
        return T.SVG_TRANSFORM_SCALE, v[:2], 0, r2d(v[0], 0, 0, v[1], 0, 0)
    if k in ('rotate1', 'rotate'):
        a = S.radians(v[0])
        c, s = S.cos(a), S.sin(a)
        x, y = (v[1], v[2]) if k == 'rotate' else (0, 0)
        return T.SVG_TRANSFORM_ROTATE, [v[0], x, y], v[0], \
            r2d(c, s, -s, c, x - c * x + s * y, y - s * x - c * y)
    t = S.tan(S.radians(v[0]))
    if k == 'skewX':
        return T.SVG_TRANSFORM_SKEWX, v[:1], v[0], r2d(1, 0, t, 1, 0, 0)
    return T.SVG_TRANSFORM_SKEWY, v[:1], v[0], r2d(1, t, 0, 1, 0, 0)


@contract()
def agree(S):
    """for every way to set it and every earlier state"""
    t = prior(S)
    k = S.choice('kind', KINDS)
    how = S.choice('how', ['set', 'own', 'constructor', 'from_matrix'])
    v = S.reals('v', 6)
    if how == 'from_matrix':
        S.assume(k == 'matrix')
        t = SVGTransform.from_matrix(DOMMatrixReadOnly(v))
    elif how == 'constructor':
        t = None
    else:
        apply(S, t, k, v, how)
    typ, vals, angle, m = meaning(S, k, v)
    if t is None:
        n = {'translate1': 1, 'scale1': 1, 'rotate1': 1}.get(k, len(vals))
        t = SVGTransform(typ, *v[:n])
    S.check('type', t.type == typ)
    S.check_seq('values', t.values, vals)
    S.check_eq('angle', t.angle, angle)
    S.check_seq('matrix', flat(rows(t.matrix)), flat(m))
    S.check('matrix-2d', t.matrix.is2d is True)
    S.check('values-after-reading', t.type == typ)
    S.check_seq('values-after-reading', t.values, vals)


@contract()
def unset(S):
    t = prior(S)
    if S.bool('set'):
        t.set(T.SVG_TRANSFORM_UNKNOWN)
    else:
        t.set_unknown()
    S.check('type', t.type == T.SVG_TRANSFORM_UNKNOWN)
    S.check('values', t.values is None)
    S.check_eq('angle', t.angle, 0)
    S.check('matrix', t.matrix is None)
    S.check('text', t.tostring() == '')


@contract()
def matrix_3d_rejected(S):
    t = prior(S)
    b = (t.type, t.values, t.angle)
    m = mat3(S, 'm')
    r, e = S.raises(lambda: t.set_matrix(m), ValueError)
    S.check('rejected', e is not None)
    S.check('unchanged', t.type == b[0] and t.values is b[1])


@contract()
def matrix_is_fresh(S):
    """changing the returned matrix does not change the transform"""
    t = prior(S)
    S.assume(t.type != T.SVG_TRANSFORM_UNKNOWN)
    m = t.matrix
    b = flat(rows(m))
    m.translate_self(*S.reals('d', 2))
    S.check_seq('unchanged', flat(rows(t.matrix)), b)


NUM = ['0', '1', '-1', '+2', '10', '.5', '-.5', '1.', '1e2', '-1E-2', '2e+1',
       '30', '45', '0.25', '-12.75', '100', '007', '3.14159']


@contract(bounded=True, runs=4000, secs=25)
def text_round_trip(S):
    """parse(text) reads the functions and numbers written; writing them and
    parsing again gives the same list (numbers to the printed precision)"""
    r = random.Random(S.int('seed', lo=0, hi=10 ** 9))
    want, parts = [], []
    for _ in range(r.randint(0, 5)):
        k = r.choice(['matrix', 'translate', 'scale', 'rotate', 'skewX',
                      'skewY'])
        n = {'matrix': [6], 'translate': [1, 2], 'scale': [1, 2],
             'rotate': [1, 3], 'skewX': [1], 'skewY': [1]}[k]
        n = r.choice(n)
        nums = [r.choice(NUM) for _ in range(n)]
        sp = r.choice(['', ' '])
        parts.append('%s%s(%s%s%s)' % (
            k, r.choice(['', '', ' ']), sp,
            ''.join(x + (r.choice([' ', ',', ', ', ' , ', '  '])
                         if i < n - 1 else '')
                    for i, x in enumerate(nums)), sp))
        v = [float(x) for x in nums]
        if k == 'translate' and n == 1:
            v.append(0.0)
        if k == 'scale' and n == 1:
            v.append(v[0])
        if k == 'rotate' and n == 1:
            v += [0.0, 0.0]
        want.append((k, v))
    text = ''
    for i, p in enumerate(parts):
        text += (r.choice([' ', ', ', ',', '\n', '  ']) if i else '') + p
    text = r.choice(['', ' ']) + text + r.choice(['', ' '])
    names = {T.SVG_TRANSFORM_MATRIX: 'matrix',
             T.SVG_TRANSFORM_TRANSLATE: 'translate',
             T.SVG_TRANSFORM_SCALE: 'scale', T.SVG_TRANSFORM_ROTATE: 'rotate',
             T.SVG_TRANSFORM_SKEWX: 'skewX', T.SVG_TRANSFORM_SKEWY: 'skewY'}

    def compare(label, t):
        S.check(label + '.names', [names.get(x.type) for x in t]
                == [k for k, v in want])
        for x, (k, v) in zip(t, want):
            S.check_seq(label + '.values', x.values, v, 1e-6)
    t = SVGTransformList.parse(text)
    compare('parse', t)
    compare('constructor', SVGTransformList(text))
    for d in (None, ' ', ','):
        u = SVGTransformList.parse(t.tostring(d) if d else t.tostring())
        compare('again', u)
