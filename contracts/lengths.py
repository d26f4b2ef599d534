"""Pixel factors of the units, shared by L01 and L02."""
from fractions import Fraction as F
import svgpy.core as core
from svgpy.core import SVGLength
from svgpy.base import SVGElement
from fakes import Fake

ABS = {None: F(1), '': F(1), 'px': F(1), 'in': F(96), 'cm': F(9600, 254),
       'mm': F(960, 254), 'q': F(240, 254), 'pt': F(4, 3), 'pc': F(16)}
FONT = ('ex', 'cap', 'ch', 'ic')
VIEW = ('vw', 'vh', 'vmin', 'vmax')
REL = ('em', 'rem', '%') + FONT + VIEW
RES = {'dppx': F(1), 'dpi': F(1, 96), 'dpcm': F(254, 9600)}

# without an element: font size 16, viewport 100 x 100
ALONE = dict(ABS, em=F(16), rem=F(16), ex=F(8), cap=F(8), ch=F(8), ic=F(8),
             vw=F(1), vh=F(1), vmin=F(1), vmax=F(1))
ALONE['%'] = F(16, 100)


def num(S, q):
    """an exact constant"""
    return q if S.symbolic else float(q)


class Parent(object):
    pass


class Element(Fake):
    """stands for an element: only what a length asks of it"""
    owner_document = None
    real = SVGElement

    def __init__(self, S, view, box, parent):
        super().__init__(S, view=view, box=box, parent=parent, root=Parent())

    def getparent(self):
        return self.parent

    def getroottree(self):
        return self

    def getroot(self):
        return self.root

    def get_view_box(self):
        if not self.box:
            return None
        return (SVGLength(0), SVGLength(0), SVGLength(self.view[0]),
                SVGLength(self.view[1]), None)

    def get_viewport_size(self, *a):
        return (SVGLength(0), SVGLength(0), SVGLength(self.view[0]),
                SVGLength(self.view[1]))


class Patch(object):
    def __init__(self, fs, rfs, metrics):
        self.fs, self.rfs, self.metrics = fs, rfs, metrics

    def __enter__(self):
        self.old = core.CSSUtils.compute_font_size, core.Font
        fs, rfs, m = self.fs, self.rfs, self.metrics

        def compute_font_size(element, *a, **k):
            if isinstance(element, Parent):
                # the parent's size is another one
                return rfs if element.isroot else fs * 2 + 1
            return fs

        class Font(object):
            default_font_size = core.Font.default_font_size
            x_height, cap_height, ch_advance, ic_advance = m

            def __init__(self, context):
                pass

            def set_point_size(self, *a):
                pass
        core.CSSUtils.compute_font_size = staticmethod(compute_font_size)
        core.Font = Font

    def __exit__(self, *a):
        core.CSSUtils.compute_font_size = staticmethod(self.old[0])
        core.Font = self.old[1]


def setup(S):
    w, h = S.real('vw', lo=0.001), S.real('vh', lo=0.001)
    fs, rfs = S.real('fs', lo=0.001), S.real('rfs', lo=0.001)
    m = [S.real('m%d' % i, lo=0) for i in range(4)]
    parent = Parent()
    parent.isroot = False
    e = Element(S, (w, h), S.bool('view-box'), parent)
    e.root.isroot = True
    return e, w, h, fs, rfs, m


def factor(S, u, d, w, h, fs, rfs, m):
    if u in ABS:
        return num(S, ABS[u])
    if u == 'em':
        return fs
    if u == 'rem':
        return rfs
    if u == 'vw':
        return w / 100
    if u == 'vh':
        return h / 100
    if u == 'vmin':
        return S.min(w, h) / 100
    if u == 'vmax':
        return S.max(w, h) / 100
    if u == '%':
        return {None: fs, 1: w, 2: h}[d] / 100
    k = m[FONT.index(u)]
    return S.ite(k == 0, fs, k)


class Texts(object):
    """length texts whose number is symbolic"""

    def __init__(self, S):
        self.known = {}
        self.symbolic = S.symbolic

    def text(self, n, u):
        if not self.symbolic:
            return '%r%s' % (n, u or '')
        t = '%d.5%s' % (7000 + len(self.known), u or '')
        self.known[t] = (n, u)
        return t

    def __enter__(self):
        self.old = SVGLength.__dict__['parse']
        real, known = SVGLength.parse, self.known

        def parse(text):
            r = real(text)
            if isinstance(text, str) and text in known:
                return core.Decimal(known[text][0]), r[1]
            return r
        SVGLength.parse = staticmethod(parse)
        return self

    def __exit__(self, *a):
        SVGLength.parse = self.old
