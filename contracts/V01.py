"""V01 - viewports: size, viewBox, preserveAspectRatio, and their product."""
import io
from fractions import Fraction as F
from vlib.spec import contract
from vlib import sym
from svgpy import SVGParser
from svgpy.base import SVGGraphicsElement, SVGPreserveAspectRatio
from svgpy.element import SVGSVGElement
from svgpy.core import SVGLength
from svgpy.css.screen import Screen
from svgpy.geometry.matrix import DOMMatrix
from svgpy.transform import SVGTransform, SVGTransformList
from fakes import Fake
from lengths import ABS, Texts, num
from common import rows, mm, flat, IDENT, r2d

ASSUMPTIONS = [
    'a length text denotes the number and unit it is written with '
    '(checked, bounded, by L01)',
    'viewport_size and ctm: nesting of at most three svg/g elements',
    'lxml returns the parents and attributes a document was given']

X = {'xMin': 0, 'xMid': F(1, 2), 'xMax': 1}
ALIGNS = ['none'] + [x + y for x in X for y in ('YMin', 'YMid', 'YMax')]
UNITS = [None, 'px', 'cm', 'mm', 'in', 'pt']
NS = 'xmlns="http://www.w3.org/2000/svg"'


class Viewport(Fake):
    real = SVGGraphicsElement


def document(text):
    return SVGParser().parse(io.StringIO(text)).getroot()


def par_text(S):
    a = S.choice('align', ALIGNS + ['', 'bogus'])
    m = S.choice('meet', ['', 'meet', 'slice'] if a else [''])
    return a, m, (a + ' ' + m).strip()


def scale_of(S, a, m, w, h, vw, vh):
    sx, sy = w / vw, h / vh
    if a == 'none':
        return sx, sy
    k = S.max(sx, sy) if m == 'slice' else S.min(sx, sy)
    return k, k


def fits(S, m, a, meet, x, y, w, h, vx, vy, vw, vh):
    """m: rows of the matrix from user space to the parent's space"""
    if a in ('', 'bogus'):
        a = 'xMidYMid'
    sx, sy = scale_of(S, a, meet, w, h, vw, vh)
    if a == 'none':
        ax = ay = 0
    else:
        ax, ay = X[a[:4]], X['x' + a[5:]]
    if not S.symbolic:
        ax, ay = float(ax), float(ay)
    tx = x - vx * sx + ax * (w - vw * sx)
    ty = y - vy * sy + ay * (h - vh * sy)
    S.check_seq('matrix', flat(m), flat(r2d(sx, 0, 0, sy, tx, ty)))
    if S.symbolic:
        # what the formulas mean: the mapped viewBox inside / around
        l, r = m[0][0] * vx + m[0][3], m[0][0] * (vx + vw) + m[0][3]
        t, b = m[1][1] * vy + m[1][3], m[1][1] * (vy + vh) + m[1][3]
        if a == 'none':
            S.check_seq('onto', [l, r, t, b], [x, x + w, y, y + h])
        elif meet == 'slice':
            S.check('covers', S.and_(S.le(l, x), S.le(x + w, r),
                                     S.le(t, y), S.le(y + h, b)))
        else:
            S.check('inside', S.and_(S.le(x, l), S.le(r, x + w),
                                     S.le(y, t), S.le(b, y + h)))


def length(S, name, lo=None, units=UNITS, **kw):
    n = S.real(name, lo=lo, **kw)
    u = S.choice(name + '.unit', units)
    return n, u, n * num(S, ABS[u])


POS = [0.001, 1, 2, 10, 100, 0.5, 30, 400]


@contract(max_paths=4000)
def viewport_matrix(S):
    """get_viewport_transformation_matrix against the size and viewBox the
    element reports"""
    a, meet, text = par_text(S)
    x, y = S.real('x'), S.real('y')
    w, h = S.real('w', lo=0.001, pool=POS), S.real('h', lo=0.001, pool=POS)
    xu, yu, wu, hu = S.choice('units', [
        (None, None, None, None), ('mm', 'px', 'cm', 'in'),
        (None, 'mm', None, 'cm'), ('pt', None, 'in', None)])
    xp, yp, wp, hp = (n * num(S, ABS[u]) for n, u in (
        (x, xu), (y, yu), (w, wu), (h, hu)))
    vx, vy = S.real('vx'), S.real('vy')
    vw, vh = S.real('vw', lo=0.001, pool=POS), \
        S.real('vh', lo=0.001, pool=POS)

    def L(n, u):
        return SVGLength(n) if u is None else SVGLength(n, u)
    has = S.bool('view-box') if text == '' else True
    e = Viewport(
        S,
        get_viewport_size=lambda *k, **kw: (L(x, xu), L(y, yu), L(w, wu),
                                            L(h, hu)),
        get_view_box=lambda *k, **kw: (
            L(vx, None), L(vy, None), L(vw, None), L(vh, None),
            SVGPreserveAspectRatio(text)) if has else None)
    m = rows(e.get_viewport_transformation_matrix())
    if has:
        fits(S, m, a, meet, xp, yp, wp, hp, vx, vy, vw, vh)
    else:
        S.check_seq('offset', flat(m), flat(r2d(1, 0, 0, 1, xp, yp)))


@contract(bounded=True, runs=3000, secs=40)
def documents(S):
    """the same through real documents"""
    a, meet, text = par_text(S)
    x, y = S.real('x'), S.real('y')
    w, wu, wp = length(S, 'w', 0.01, pool=POS)
    h, hu, hp = length(S, 'h', 0.01, pool=POS)
    vx, vy = S.real('vx'), S.real('vy')
    vw, vh = S.real('vw', lo=0.01, pool=POS), S.real('vh', lo=0.01, pool=POS)
    sep = S.choice('sep', [' ', ',', ', ', '  '])
    r = document('<svg %s x="%r" y="%r" width="%r%s" height="%r%s" '
                 'viewBox="%s"%s><g><rect/></g></svg>' % (
                     NS, x, y, w, wu or '', h, hu or '',
                     sep.join(map(repr, (vx, vy, vw, vh))),
                     ' preserveAspectRatio="%s"' % text if text else ''))
    e = S.choice('of', [r, r[0], r[0][0]])
    fits(S, rows(e.get_viewport_transformation_matrix()), a, meet, x, y, wp,
         hp, vx, vy, vw, vh)
    size = e.get_viewport_size()
    S.check_seq('size', [v.value() for v in size], [x, y, wp, hp])
    box = e.get_view_box()
    S.check_seq('box', [v.value() for v in box[:4]], [vx, vy, vw, vh])


@contract()
def aspect_texts(S):
    """reading and writing preserveAspectRatio"""
    a, m, text = par_text(S)
    sp = S.choice('space', ['', ' '])
    p = SVGPreserveAspectRatio(sp + text.replace(' ', S.choice('gap', [' ', '   '])) + sp)
    want = a if a in ALIGNS else 'xMidYMid'
    code = 1 if want == 'none' else 2 + ['xMin', 'xMid', 'xMax'].index(
        want[:4]) + 3 * ['YMin', 'YMid', 'YMax'].index(want[4:])
    if a != '':
        S.check('align', p.align == code)
        S.check('meet-or-slice', p.meet_or_slice == (2 if m == 'slice' else 1))
    out = p.tostring()
    S.check('round-trip', SVGPreserveAspectRatio(out) == p
            or p.align == 1)
    if want != 'xMinYMid':
        S.check('text', out == (want if want == 'none' or a == '' and False
                                else '%s %s' % (want if a else 'xMidYMid',
                                                'slice' if p.meet_or_slice == 2
                                                else 'meet')))


def misspelt_alignment():
    """SVGPreserveAspectRatio writes xMinYMid as XMinYMid, which other readers
    do not know (an existing test fixes this spelling)"""
    p = SVGPreserveAspectRatio('xMinYMid meet')
    return p.tostring() != 'xMinYMid meet'


FINDINGS = [misspelt_alignment]


# ---- the size an svg element is given --------------------------------------

class Root(Fake):
    real = SVGSVGElement
    local_name = 'svg'

    def get(self, name, default=None):
        return self.attrs.get(name, default)

    def getparent(self):
        return self.parent


@contract(max_paths=6000)
def viewport_size(S):
    """get_viewport_size of the outermost and of a nested svg element"""
    if S.symbolic:
        W, H = S.real('inner-width', lo=1), S.real('inner-height', lo=1)
        # lengths compare up to the library's tolerance
        S.assume(S.or_(S.le(W * 1.001, H), S.le(H * 1.001, W)))
    else:
        W, H = window_size()
    T = Texts(S)
    with T:
        def attrs(i, units):
            a, px = {}, {}
            for k, own, other in (('width', W, H), ('height', H, W)):
                n = S.real('%s%d' % (k, i), lo=0.001)
                u = S.choice('%s%d.unit' % (k, i), units)
                if u in ('auto', None):
                    px[k] = own
                    if u:
                        a[k] = u
                    continue
                a[k] = T.text(n, u)
                px[k] = n * num(S, ABS[u]) if u in ABS else n / 100 * {
                    '%': own, 'vw': W, 'vh': H, 'vmin': S.min(W, H),
                    'vmax': S.max(W, H)}[u]
            for k in 'xy':
                if S.bool('has-%s%d' % (k, i)):
                    n = S.real('%s%d' % (k, i))
                    u = S.choice('%s%d.unit' % (k, i), ['', 'mm'])
                    a[k] = T.text(n, u)
                    px[k] = n * num(S, ABS[u])
                else:
                    px[k] = 0
            return a, px
        nested = S.bool('nested')
        if nested:
            outer, _ = attrs(0, ['cm', None])
            a, px = attrs(1, ['', 'mm', 'in'])
        else:
            a, px = attrs(0, [None, 'auto', '', 'cm', '%', 'vw', 'vh',
                              'vmin', 'vmax'])
        if not S.symbolic:
            def open_(a):
                return '<svg %s %s>' % (NS, ' '.join(
                    '%s="%s"' % k for k in a.items()))
            if nested:
                e = document(open_(outer) + open_(a) + '</svg></svg>')[0]
            else:
                e = document(open_(a) + '</svg>')
            return sized(S, e, px)
        win = Fake(S, inner_width=W, inner_height=H)
        doc = Fake(S, default_view=win)
        parent = Root(S, attrs=outer, parent=None, owner_document=doc) \
            if nested else None
        e = Root(S, attrs=a, parent=parent, owner_document=doc)
        sized(S, e, px)


def sized(S, e, px):
    S.check_seq('size', [v.value() for v in e.get_viewport_size()],
                [px[k] for k in ('x', 'y', 'width', 'height')])


def window_size():
    d = document('<svg %s/>' % NS).owner_document
    if d is None or d.default_view is None:
        return Screen.DEFAULT_SCREEN_WIDTH, Screen.DEFAULT_SCREEN_HEIGHT
    return d.default_view.inner_width, d.default_view.inner_height


# ---- the product ------------------------------------------------------------

class Node(Fake):
    real = SVGGraphicsElement

    def getparent(self):
        return self.parent

    def istransformable(self):
        return True

    def get_viewport_transformation_matrix(self, recursive=True):
        if recursive:
            raise sym.Unsupported('recursive viewport matrix')
        return DOMMatrix(self.view)

    @property
    def transform(self):
        if self.own is None:
            return None
        t = SVGTransform()
        t.set_matrix(DOMMatrix(self.own))
        return SVGTransformList([t])


def affine(S, name):
    return S.reals(name, 6, small=True)


@contract(max_paths=3000)
def ctm(S):
    """the matrix to the screen is the product, from the outermost element
    in, of zoom, transforms and viewport matrices; the matrix to the nearest
    viewport that of the innermost svg element on"""
    names = ['svg'] + [S.choice('name%d' % i, ['g', 'svg'])
                       for i in range(S.int('depth', lo=0, hi=2)
                                      if not S.symbolic else
                                      S.choice('depth', [0, 1, 2]))]
    if len(names) > 1:
        S.assume(names[-1] != 'svg')
    parent, chain = None, []
    for i, n in enumerate(names):
        own = affine(S, 'own%d' % i) if S.bool('transform%d' % i) else None
        view = affine(S, 'view%d' % i) if n == 'svg' else None
        parent = Node(S, local_name=n, parent=parent, own=own, view=view)
        if i == 0:
            k = S.real('zoom')
            tx, ty = S.real('tx'), S.real('ty')
            parent.current_scale = k
            parent.current_translate = tx, ty
        chain.append(parent)
    e = chain[-1]
    m = r2d(k, 0, 0, k, tx, ty)
    inner = IDENT
    for c in chain:
        if c.local_name == 'svg':
            inner = IDENT
        for part in (c.own, c.view):
            if part is not None:
                m = mm(m, r2d(*part))
                inner = mm(inner, r2d(*part))
    S.check_seq('screen', flat(rows(e.get_screen_ctm())), flat(m))
    if len(names) > 1 or True:
        S.check_seq('nearest', flat(rows(e.get_ctm())), flat(inner))


@contract(bounded=True, runs=1500, secs=40)
def ctm_documents(S):
    depth = S.int('depth', lo=0, hi=5)
    names = ['svg'] + [S.choice('name', ['g', 'svg', 'a', 'g'])
                       for i in range(depth)] + ['rect']
    text, m, close = '', IDENT, ''
    k, tx, ty = S.real('zoom'), S.real('tx'), S.real('ty')
    m = r2d(k, 0, 0, k, tx, ty)
    for n in names:
        at = ''
        if S.bool('transform'):
            v = affine(S, 'own')
            at += ' transform="matrix(%s)"' % ' '.join(map(repr, v))
            m = mm(m, r2d(*v))
        if n == 'svg':
            x, y = S.real('x'), S.real('y')
            s = S.choice('scale', [1, 2, 4, 0.5])
            at += ' x="%r" y="%r" width="80" height="80" viewBox="0 0 %r %r"' \
                % (x, y, 80 / s, 80 / s)
            m = mm(m, r2d(s, 0, 0, s, x, y))
        text += '<%s%s%s>' % (n, ' ' + NS if not text else '', at)
        close = '</%s>' % n + close
    r = document(text + close)
    r.current_scale, r.current_translate = k, (tx, ty)
    e = r
    while len(e):
        e = e[0]
    S.check_seq('screen', flat(rows(e.get_screen_ctm())), flat(m))
