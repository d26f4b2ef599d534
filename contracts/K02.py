"""K02 - computed font size, weight, line height and inherited lengths."""
import io
from vlib.spec import contract
from vlib import sym
import svgpy.core as core
from svgpy import SVGParser
from svgpy.core import SVGLength, CSSUtils
from lengths import ABS, FONT, VIEW, Element, Texts, num

ASSUMPTIONS = [
    'a length text denotes the number and unit it is written with '
    '(checked, bounded, by L01)',
    'font_size, line_height, inherited_length: the metrics of a font are any '
    'non-negative numbers, given by a stand-in for Font; the parent and the '
    'root of the element have a font size in px (what an element hands down '
    'to its children is checked, bounded, by documents)',
    'weights are the multiples of 100 from 100 to 900']

MIN = 10    # the smallest font size the library uses


class Window(object):
    def __init__(self, w, h):
        self.inner_width, self.inner_height = w, h


class OwnerDocument(object):
    def __init__(self, view):
        self.default_view = view


class Node(Element):
    """an element of a tree, with a style of its own"""

    def __init__(self, S, parent, name, view, box, style):
        super().__init__(S, view, box, parent)
        self.root = parent.getroot() if parent is not None else self
        self.local_name, self.style = name, style

    def get_view_box(self, recursive=True):
        return super().get_view_box()

    def get_viewport_size(self, recursive=True):
        return super().get_viewport_size()

    def get_inherited_style(self):
        return dict(self.style)


class Fonts(object):
    """stands for the fonts of the elements: four metrics each"""

    def __init__(self, metrics):
        self.metrics = metrics

    def __enter__(self):
        self.old = core.Font
        metrics = self.metrics

        class Font(object):
            default_font_size = core.Font.default_font_size
            default_font_weight = core.Font.default_font_weight

            def __init__(self, context):
                if context not in metrics:
                    raise sym.Unsupported('the font of something else')
                self.m = metrics[context]

            def __getattr__(self, name):
                names = ('x_height', 'cap_height', 'ch_advance', 'ic_advance')
                if name not in names:
                    raise sym.Unsupported('Font.' + name)
                return self.m[names.index(name)]

            def set_point_size(self, *a):
                pass
        core.Font = Font

    def __exit__(self, *a):
        core.Font = self.old


def family(S, T, tags=('g', 'svg')):
    """-> element, its parent, font sizes of parent and root, window, views,
    view boxes, metrics"""
    win = (S.real('win-w', lo=1, hi=3000), S.real('win-h', lo=1, hi=3000))
    views = [(S.real('vw%d' % i, lo=1, hi=3000),
              S.real('vh%d' % i, lo=1, hi=3000)) for i in range(2)]
    rfs = S.real('root-fs', lo=MIN, hi=100)
    pfs = S.real('parent-fs', lo=MIN, hi=100)
    root = Node(S, None, 'svg', views[0], S.bool('root-box'),
                {'font-size': T.text(rfs, 'px')})
    parent = Node(S, root, 'g', views[0], root.box,
                  {'font-size': T.text(pfs, 'px')})
    tag = S.choice('tag', list(tags))
    own = views[1 if tag == 'svg' else 0]
    e = Node(S, parent, tag, own, S.bool('box') if tag == 'svg' else root.box,
             {'font-size': '16'})
    doc = OwnerDocument(Window(*win))
    for n in (root, parent, e):
        n.__dict__['owner_document'] = doc
    return e, parent, root, pfs, rfs, win, views


def share(S, u, view):
    w, h = view
    return {'vw': w, 'vh': h, 'vmin': S.min(w, h),
            'vmax': S.max(w, h)}[u] / 100


@contract(max_paths=6000)
def font_size(S):
    """a font size refers to the font of the parent, the root or the
    viewport, and is never less than the smallest"""
    with Texts(S) as T:
        e, parent, root, pfs, rfs, win, views = family(S, T)
        m = [S.real('m%d' % i, lo=0, hi=50) for i in range(4)]
        k = S.choice('kind', ['px', 'mm', 'pt', 'in', '', 'em', '%', 'rem',
                              'larger', 'smaller'] + list(FONT) + list(VIEW))
        n = S.real('n', lo=0, hi=100)
        own = e.local_name == 'svg'
        if k in ('larger', 'smaller'):
            spec = k
            want = pfs * 1.2 if k == 'larger' else pfs / 1.2
        else:
            spec = T.text(n, k)
            if k in ABS:
                want = n * num(S, ABS[k])
            elif k == 'em':
                want = n * pfs
            elif k == '%':
                want = n * pfs / 100
            elif k == 'rem':
                want = n * rfs
            elif k in FONT:
                x = m[FONT.index(k)]
                want = n * S.ite(x == 0, pfs, x)
            elif own and not e.box:
                # the size of its own viewport may depend on the font size
                want = n * share(S, k, views[0])
            else:
                want = n * share(S, k, views[1 if own else 0])
        with Fonts({parent: m}):
            got = CSSUtils.compute_font_size(
                e, inherited_style={'font-size': spec})
        S.check_eq('pixels', got, S.max(want, MIN), 1e-9)
        e.style['font-size'] = spec
        with Fonts({parent: m}):
            S.check_eq('own-style', CSSUtils.compute_font_size(e), got, 1e-12)


@contract(max_paths=3000)
def root_font_size(S):
    """the root has no parent: relative sizes refer to the default of 16"""
    with Texts(S) as T:
        win = (S.real('win-w', lo=1, hi=3000), S.real('win-h', lo=1, hi=3000))
        view = (S.real('vw', lo=1, hi=3000), S.real('vh', lo=1, hi=3000))
        k = S.choice('kind', ['px', 'em', '%', 'rem', 'larger', 'smaller',
                              'medium', 'ex'] + list(VIEW))
        n = S.real('n', lo=0, hi=100)
        root = Node(S, None, 'svg', view, S.bool('box'), {})
        root.__dict__['owner_document'] = OwnerDocument(Window(*win)) \
            if S.bool('window') else None
        if root.owner_document is None:
            win = (1280, 720)
        spec = k if k in ('larger', 'smaller', 'medium') else T.text(n, k)
        root.style['font-size'] = spec
        if k in VIEW:
            want = n * share(S, k, view if root.box else win)
        else:
            want = {'px': n, 'em': n * 16, '%': n * 16 / 100, 'rem': n * 16,
                    'larger': 16 * 1.2, 'smaller': 16 / 1.2, 'medium': 16,
                    'ex': n * 8}[k]
        S.check_eq('pixels', CSSUtils.compute_font_size(root),
                   S.max(want, MIN), 1e-6)


@contract(max_paths=3000)
def line_height(S):
    """a number multiplies the font size, a percentage is a share of it, and
    em is the font size of the element itself"""
    with Texts(S) as T:
        e, parent, root, pfs, rfs, win, views = family(S, T, ('g',))
        fs = S.real('fs', lo=MIN, hi=100)
        e.style['font-size'] = T.text(fs, 'px')
        k = S.choice('kind', ['normal', '', '%', 'em', 'rem', 'px', 'mm',
                              'pt'])
        n = S.real('n', lo=0, hi=50)
        want = {'normal': fs * 1.2, '': n * fs, '%': n * fs / 100,
                'em': n * fs, 'rem': n * rfs}.get(k)
        if want is None:
            want = n * num(S, ABS[k])
        spec = 'normal' if k == 'normal' else T.text(n, k)
        got = CSSUtils.compute_line_height(
            e, {'line-height': spec, 'font-size': fs})
        S.check_eq('pixels', got, want, 1e-9)


@contract(finite='both keywords, nine numbers and two names at three levels')
def weight(S):
    """bolder and lighter are steps from the weight of the parent"""
    names = {'normal': 400, 'bold': 700}
    values = ['normal', 'bold', 'bolder', 'lighter', None] + [
        str(100 * i) for i in range(1, 10)]
    want, parent = 400, None
    chain = []
    for i in range(3):
        v = S.choice('w%d' % i, values if i else values[:4] + ['100', '900',
                                                               '500', '600'])
        if v == 'bolder':
            want = 400 if want < 400 else 700 if want < 600 else 900
        elif v == 'lighter':
            want = 100 if want < 600 else 400 if want < 800 else 700
        elif v is not None:
            want = names[v] if v in names else int(v)
        chain.append(v)
    text = '<svg xmlns="http://www.w3.org/2000/svg"%s><g%s><rect%s/></g>' \
        '</svg>' % tuple(' font-weight="%s"' % v if v else '' for v in chain)
    e = SVGParser().parse(io.StringIO(text)).getroot()[0][0]
    S.check('computed', e.get_computed_style()['font-weight'] == want)
    S.check('alone', CSSUtils.compute_font_weight(e) == want)


INHERITED = ['letter-spacing', 'line-height', 'stroke-dashoffset',
             'stroke-width', 'tab-size', 'word-spacing']


@contract(bounded=True, runs=900, secs=60)
def documents(S):
    """bounded: nested elements of a document, each with a font size, a line
    height and lengths of its own or none"""
    r = S.rng
    depth = S.int('depth', lo=1, hi=4)
    text, ends = '', ''
    fs, rfs = 16.0, None
    lh = ('n', 1.2)
    inherited = {'stroke-width': 1.0, 'stroke-dashoffset': 0.0}
    units = {'px': 1, 'pt': 4 / 3, 'in': 96, '': 1}
    for i in range(depth):
        how = S.choice('how%d' % i, ['attribute', 'style', 'rule'])
        decl = {}
        v = S.choice('fs%d' % i, [None, None, '150%', '2em', '0.5em', '1.5rem',
                                  '20', '12pt', '30px', 'larger', 'smaller',
                                  'medium', 'inherit', 'initial', '5px'])
        pfs = fs
        if v is not None:
            decl['font-size'] = v
            if v in ('medium', 'initial'):
                fs = 16.0
            elif v == 'larger':
                fs = pfs * 1.2
            elif v == 'smaller':
                fs = pfs / 1.2
            elif v.endswith('rem'):
                fs = float(v[:-3]) * (16 if rfs is None else rfs)
            elif v.endswith('em'):
                fs = float(v[:-2]) * pfs
            elif v.endswith('%'):
                fs = float(v[:-1]) * pfs / 100
            elif v != 'inherit':
                u = v.lstrip('0123456789.')
                fs = float(v[:len(v) - len(u)]) * units[u]
            fs = max(fs, MIN)
        if rfs is None:
            rfs = fs
        v = S.choice('lh%d' % i, [None, None, 'normal', '2', '1.5', '150%',
                                  '2em', '30px', 'inherit', '1rem'])
        if v is not None:
            decl['line-height'] = v
            if v == 'normal':
                lh = ('n', 1.2)
            elif v.endswith('%'):
                lh = ('px', float(v[:-1]) / 100 * fs)
            elif v.endswith('rem'):
                lh = ('px', float(v[:-3]) * rfs)
            elif v.endswith('em'):
                lh = ('px', float(v[:-2]) * fs)
            elif v.endswith('px'):
                lh = ('px', float(v[:-2]))
            elif v != 'inherit':
                lh = ('n', float(v))
        for p in inherited:
            v = S.choice('%s%d' % (p, i), [None, None, '0.5em', '3', '2px',
                                           '1rem', 'inherit'])
            if v is not None:
                decl[p] = v
                if v.endswith('rem'):
                    inherited[p] = float(v[:-3]) * rfs
                elif v.endswith('em'):
                    inherited[p] = float(v[:-2]) * fs
                elif v != 'inherit':
                    inherited[p] = float(v.replace('px', ''))
        tag = 'svg' if i == 0 else 'g' if i < depth - 1 else 'rect'
        text += '<%s%s' % (tag, '' if i else
                           ' xmlns="http://www.w3.org/2000/svg"')
        css = ''
        if how == 'attribute':
            text += ''.join(' %s="%s"' % d for d in decl.items())
        elif how == 'style':
            text += ' style="%s"' % ';'.join('%s: %s' % d
                                             for d in decl.items())
        else:
            text += ' class="c%d"' % i
            css = '<style>.c%d { %s }</style>' % (
                i, ';'.join('%s: %s' % d for d in decl.items()))
        text += '>' + css
        ends = '</%s>' % tag + ends
    e = SVGParser().parse(io.StringIO(text + ends)).getroot()
    for i in range(1, depth):
        e = [x for x in e if x.local_name != 'style'][-1]
    style = e.get_computed_style()
    S.check_eq('font-size', style['font-size'], fs, 1e-6)
    S.check_eq('line-height', style['line-height'],
               lh[1] * (fs if lh[0] == 'n' else 1), 1e-6)
    S.check_eq('stroke-width', style['stroke-width'],
               inherited['stroke-width'], 1e-6)
    S.check_eq('stroke-dashoffset',
               SVGLength(style['stroke-dashoffset'], context=e).value(),
               inherited['stroke-dashoffset'], 1e-6)
    S.check_eq('em', SVGLength('1em', context=e).value(), fs, 1e-6)
    S.check_eq('rem', SVGLength('1rem', context=e).value(), rfs, 1e-6)
    S.check_eq('alone', CSSUtils.compute_font_size(e), fs, 1e-6)


@contract(bounded=True, runs=60, secs=60)
def font_metrics(S):
    """bounded: lengths in units of a font metric can be computed for every
    property and are in proportion to their number"""
    u = S.choice('unit', ['ex', 'ch', 'cap', 'ic'])
    n = S.choice('n', [1, 2, 5])
    fs = S.choice('fs', ['10px', '20px', '32px'])

    def width(n, extra=''):
        root = SVGParser().parse(io.StringIO(
            '<svg xmlns="http://www.w3.org/2000/svg" font-size="%s" %s><rect '
            'width="%d%s" height="1%s" stroke-width="%d%s"/></svg>'
            % (fs, extra, n, u, u, n, u))).getroot()
        style = root[0].get_computed_style()
        S.check_eq('stroke-as-width', style['stroke-width'], style['width'],
                   1e-9)
        return style['width']
    one = width(1)
    S.check('positive', one > 0)
    S.check_eq('proportional', width(n), n * one, 1e-9)
    S.check_eq('of-the-element', width(n, 'width="%d%s"' % (n, u)), n * one,
               1e-9)
