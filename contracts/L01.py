"""L01 - length units."""
import math
from vlib.spec import contract
from vlib import sym
from svgpy.core import SVGLength
from lengths import *

ASSUMPTIONS = [
    'decimal.Decimal arithmetic is exact (it is rounded to 28 digits)',
    'in_an_element: the element\'s font size, its root\'s font size, its '
    'viewport and the metrics of its font are any positive numbers, given by '
    'stand-ins for CSSUtils.compute_font_size, Font, get_view_box and '
    'get_viewport_size (the real ones run in the bounded in_a_document)']


@contract()
def absolute_units(S):
    """every unit without an element into every other, and back"""
    n = S.real('n')
    a = S.choice('a', list(ALONE))
    b = S.choice('b', list(ALONE))
    L = SVGLength(n) if a is None else SVGLength(n, a)
    S.check('unit', L.unit == (a or None))
    want = n * num(S, ALONE[a]) / num(S, ALONE[b])
    S.check_eq('value', L.value(b), want)
    S.check_eq('pixels', L.value(), n * num(S, ALONE[a]))
    S.check_eq('own-unit', L.value(a), n)
    L.convert(b)
    S.check('converted-unit', L.unit == (b or None))
    S.check_eq('converted', L.value(b), want)
    S.check_eq('converted-pixels', L.value(), n * num(S, ALONE[a]))
    L.convert(a)
    S.check_eq('back', L.value(a), n)


@contract()
def resolutions(S):
    n = S.real('n')
    a = S.choice('a', list(RES))
    b = S.choice('b', list(RES))
    L = SVGLength(n, a)
    S.check_eq('value', L.value(b), n * num(S, RES[a]) / num(S, RES[b]))
    S.check('kind', L.isresolution() and not L.isabsolute()
            and not L.isrelative())
    other = S.choice('other', list(ALONE))
    _, e = S.raises(lambda: L.value(other), ValueError)
    # pixels cannot be had from a resolution
    S.check('not-a-length', e is not None)
    _, e = S.raises(lambda: SVGLength(n, other).value(a), ValueError)
    S.check('not-a-resolution', e is not None)


@contract()
def kinds(S):
    u = S.choice('u', list(ABS) + list(REL))
    n = S.real('n')
    L = SVGLength(n) if u is None else SVGLength(n, u)
    S.check('absolute', L.isabsolute() == (u in ABS))
    S.check('relative', L.isrelative() == (u in REL))
    S.check('resolution', not L.isresolution())


@contract()
def in_an_element(S):
    """relative units are shares of the font size, root font size, font
    metric or viewport dimension they refer to"""
    e, w, h, fs, rfs, m = setup(S)
    n = S.real('n')
    d = S.choice('direction', [None, 1, 2])
    a = S.choice('a', ['px', 'mm'] + list(REL))
    b = S.choice('b', [None, 'pt'] + [u for u in REL if u not in FONT])
    with Patch(fs, rfs, m):
        L = SVGLength(n, a, context=e, direction=d)
        k = factor(S, a, d, w, h, fs, rfs, m)
        S.check_eq('pixels', L.value(), n * k)
        S.check_eq('value', L.value(b),
                   n if a == b else n * k / factor(S, b, d, w, h, fs, rfs, m))
        d2 = S.choice('direction2', [1, 2])
        if '%' in (a, b) and a != b:
            k = factor(S, a, d2, w, h, fs, rfs, m)
            S.check_eq('in-direction', L.value(b, direction=d2),
                       n * k / factor(S, b, d2, w, h, fs, rfs, m))


@contract()
def diagonal_percentage(S):
    """a percentage of no direction refers to the diagonal / sqrt 2"""
    e, w, h, fs, rfs, m = setup(S)
    n = S.real('n')
    with Patch(fs, rfs, m):
        p = SVGLength(n, '%', context=e, direction=0).value()
        S.check_eq('square', p * p * 20000, n * n * (w * w + h * h))
        S.check('sign', S.and_(S.implies(n >= 0, p >= 0),
                               S.implies(n <= 0, p <= 0)))
        q = SVGLength(n, 'px', context=e, direction=0).value('%')
        S.check_eq('square-back', q * q * (w * w + h * h), n * n * 20000)
        S.check('sign-back', S.and_(S.implies(n >= 0, q >= 0),
                                    S.implies(n <= 0, q <= 0)))


UNITS = ['', 'px', 'in', 'cm', 'mm', 'q', 'pt', 'pc', 'em', 'rem', '%', 'vw',
         'vh', 'vmin', 'vmax', 'dpi', 'dpcm', 'dppx', 'ex', 'cap', 'ch', 'ic']


@contract(bounded=True, runs=6000, secs=20)
def text(S):
    """bounded: the text of a length is read as its number and unit, and
    written so"""
    n = S.real('n')
    u = S.choice('unit', UNITS)
    form = S.choice('form', ['plain', 'plus', 'exponent', 'space', 'upper'])
    t = '%.6f' % n
    if form == 'plus' and n >= 0:
        t = '+' + t
    elif form == 'exponent':
        t = '%.12e' % n
    t += u.upper() if form == 'upper' else u
    if form == 'space':
        t = ' \n%s\t' % t
    L = SVGLength(t)
    S.check('unit', L.unit == (u or None))
    S.check_eq('number', L.value(L.unit), n, 1e-6)
    back = SVGLength(L.tostring())
    S.check('unit-back', back.unit == L.unit)
    S.check('number-back', abs(back.value(L.unit) - n) <= 1e-6)
    bad = S.choice('bad', ['', 'x', 'px', '--1', '1parsec', 'e5', '3 4foo'])
    _, e = S.raises(lambda: SVGLength(bad), ValueError)
    S.check('rejects', (e is not None) == (bad != '3 4foo'))


@contract(bounded=True, runs=250, secs=40)
def in_a_document(S):
    """bounded: percentages, viewport and font relative lengths of elements
    of real documents"""
    from lxml import etree
    from svgpy import SVGParser
    import io
    w, h = S.choice('w', [100, 640, 33.5]), S.choice('h', [50, 480, 700])
    box = S.choice('box', [None, (0, 0, 20, 30), (-5, -5, 400, 10)])
    fs = [S.choice('fs%d' % i, [None, '20', '12pt', '150%', '2em', '10mm'])
          for i in range(3)]
    text = '<svg xmlns="http://www.w3.org/2000/svg" width="%s" height="%s"' \
        % (w, h)
    if box:
        text += ' viewBox="%s"' % ' '.join(map(str, box))
    tags = ['', '><g', '><rect']
    for t, f in zip(tags, fs):
        text += t + (' font-size="%s"' % f if f else '')
    text += '/></g></svg>'
    root = SVGParser().parse(io.StringIO(text)).getroot()
    rect = root[0][0]

    def size(f, parent):
        if f is None:
            return parent
        for u, k in (('pt', 4 / 3), ('%', parent / 100), ('em', parent),
                     ('mm', 96 / 25.4), ('', 1)):
            if f.endswith(u):
                return max(float(f[:len(f) - len(u)]) * k, 10)
    a = size(fs[0], 16.0)
    b = size(fs[2], size(fs[1], a))
    n = S.choice('n', [0, 1, -2, 12.5, 100, 33.3])
    vw, vh = (box[2], box[3]) if box else (w, h)
    d = S.choice('d', [None, 0, 1, 2])
    refs = {'em': b, 'rem': a, 'vw': vw / 100, 'vh': vh / 100,
            'vmin': min(vw, vh) / 100, 'vmax': max(vw, vh) / 100,
            '%': {None: b, 0: math.sqrt((vw * vw + vh * vh) / 2), 1: vw,
                  2: vh}[d] / 100}
    u = S.choice('u', sorted(refs))
    L = SVGLength('%s%s' % (n, u), context=rect, direction=d)
    S.check_eq('pixels', L.value(), n * refs[u], 1e-6)
    v = S.choice('v', sorted(refs))
    S.check_eq('value', L.value(v), n * refs[u] / refs[v], 1e-6)
