"""G01 - basic shapes outline their mathematical figure."""
import io
from vlib.spec import contract
from svgpy import SVGParser, element
from svgpy.base import SVGPathDataSettings
from svgpy.path import PathParser
from lengths import ABS, Element, Parent, Texts, num
from pathspec import Pen, draw, same

ASSUMPTIONS = [
    'a length text denotes the number and unit it is written with '
    '(checked, bounded, by L01)',
    'polygon and polyline: proved for up to four points, executed for up to '
    'thirty',
    'a viewBox of the same proportions surrounds shapes sized in percent']

CLS = {'rect': element.SVGRectElement, 'circle': element.SVGCircleElement,
       'ellipse': element.SVGEllipseElement, 'line': element.SVGLineElement,
       'polygon': element.SVGPolygonElement,
       'polyline': element.SVGPolylineElement}


class Shape(Element):
    def get(self, name, default=None):
        return self.attrs.get(name, default)

    def get_inherited_style(self):
        # no length here is relative to the font
        return {'font-size': '16'}


def document(text, view=(200, 100)):
    return SVGParser().parse(io.StringIO(
        '<svg xmlns="http://www.w3.org/2000/svg" width="%r" height="%r" '
        'viewBox="0 0 %r %r">%s</svg>' % (view + view + (text,)))).getroot()


class Drawn(object):
    """a shape with attributes given as number+unit, auto or nothing"""

    def __init__(self, S, tag, units):
        self.S, self.tag, self.units = S, tag, units
        self.T = Texts(S)
        self.view = (S.real('view-w', lo=1), S.real('view-h', lo=1))
        self.attrs = {}

    def attr(self, name, d, lo=None, auto=False, absent=True, units=None,
             **kw):
        """-> pixels, or None where it is automatic"""
        S = self.S
        u = S.choice(name + '.unit', list(units or self.units)
                     + ([None] if absent else []) + (['auto'] if auto else []))
        if u is None or u == 'auto':
            if u:
                self.attrs[name] = u
            return None if auto else 0
        n = S.real(name, lo=lo, **kw)
        self.attrs[name] = self.T.text(n, u)
        if u == '%':
            if d is None:
                a, b = self.view
                return n * S.sqrt((a * a + b * b) / 2) / 100
            return n * self.view[d] / 100
        return n * num(S, ABS[u])

    def element(self, **extra):
        S = self.S
        if S.symbolic:
            e = Shape(S, self.view, True, None)
            e.__dict__.update(extra, attrs=self.attrs, real=CLS[self.tag],
                              local_name=self.tag)
            return e
        return document('<%s %s/>' % (self.tag, ' '.join(
            '%s="%s"' % k for k in self.attrs.items())), self.view)[0]

    def check(self, want, **extra):
        S = self.S
        with self.T:
            e = self.element(**extra)
            r = e.get_path_data()
            got, _ = draw(S, r)
            same(S, 'outline', got, want)
            if not S.symbolic:
                s = SVGPathDataSettings()
                S.check('default-settings', e.get_path_data(s) == r)
                s.normalize = True
                n = PathParser.normalize(r) if r else []
                S.check('normalized', e.get_path_data(s) == n)
                S.check('repeatable', e.get_path_data() == r)


def lines(*p):
    return [('M', p[0])] + [('L', a, b) for a, b in zip(p, p[1:])]


def ellipse(cx, cy, rx, ry):
    p = [(cx + rx, cy), (cx, cy + ry), (cx - rx, cy), (cx, cy - ry),
         (cx + rx, cy)]
    return [('M', p[0])] + [('A', a, rx, ry, 0, 0, 1, b)
                            for a, b in zip(p, p[1:])] + [('Z', p[0], p[0])]


SIZES = [0, 1, 10, 40, 100, -5, 0.5]


@contract()
def circle(S):
    d = Drawn(S, 'circle', ['', 'mm'])
    cx, cy = d.attr('cx', 0, units=['', '%']), d.attr('cy', 1)
    r = d.attr('r', None, units=['', 'mm', '%'], pool=SIZES)
    d.check(ellipse(cx, cy, r, r) if r > 0 else [])


@contract(max_paths=3000)
def ellipses(S):
    d = Drawn(S, 'ellipse', ['', '%'])
    cx, cy = d.attr('cx', 0, units=['', 'cm'], absent=False), d.attr('cy', 1)
    rx = d.attr('rx', 0, auto=True, pool=SIZES)
    ry = d.attr('ry', 1, auto=True, pool=SIZES)
    if rx is None:
        rx = ry
    elif ry is None:
        ry = rx
    d.check(ellipse(cx, cy, rx, ry)
            if rx is not None and rx > 0 and ry > 0 else [])


@contract(max_paths=8000, prove_s=300)
def rect(S):
    d = Drawn(S, 'rect', ['', '%'])
    x, y = d.attr('x', 0, units=['']), d.attr('y', 1, units=['mm'])
    w = d.attr('width', 0, pool=SIZES)
    h = d.attr('height', 1, pool=SIZES)
    rx = d.attr('rx', 0, auto=True, pool=SIZES)
    ry = d.attr('ry', 1, auto=True, pool=SIZES)
    if rx is None:
        rx = ry
    elif ry is None:
        ry = rx
    want = []
    if w > 0 and h > 0:
        if rx is not None:
            rx, ry = S.min(rx, w / 2), S.min(ry, h / 2)
        if rx is None or rx <= 0 or ry <= 0:
            want = lines((x, y), (x + w, y), (x + w, y + h), (x, y + h),
                         (x, y)) + [('Z', (x, y), (x, y))]
        else:
            p = [(x + rx, y), (x + w - rx, y), (x + w, y + ry),
                 (x + w, y + h - ry), (x + w - rx, y + h), (x + rx, y + h),
                 (x, y + h - ry), (x, y + ry), (x + rx, y)]
            want = [('M', p[0])]
            for i in range(0, 8, 2):
                want += [('L', p[i], p[i + 1]),
                         ('A', p[i + 1], rx, ry, 0, 0, 1, p[i + 2])]
            want.append(('Z', p[0], p[0]))
    d.check(want)


@contract()
def line(S):
    d = Drawn(S, 'line', ['', 'in'])
    x1, y1 = d.attr('x1', 0, units=['', '%']), d.attr('y1', 1)
    x2, y2 = d.attr('x2', 0), d.attr('y2', 1, units=['', '%'])
    dx, dy = x2 - x1, y2 - y1
    none = S.and_(dx == 0, dy == 0)
    # two ends that differ differ by more than the library's tolerance
    S.assume(S.or_(none, dx > 0.001, dx < -0.001, dy > 0.001, dy < -0.001))
    d.check([] if S.fork(none) else lines((x1, y1), (x2, y2)))


@contract()
def polygons(S):
    tag = S.choice('tag', ['polygon', 'polyline'])
    d = Drawn(S, tag, [''])
    n = S.choice('n', [0, 1, 2, 3, 4]) if S.symbolic \
        else S.int('n', lo=0, hi=30)
    p = [(S.real('x%d' % i), S.real('y%d' % i)) for i in range(n)]
    d.attrs['points'] = S.choice('sep', [' ', ', ', '\n']).join(
        '%r%s%r' % (q[0], S.choice('comma', [',', ' ', ' , ']), q[1])
        for q in p) if not S.symbolic else 'points'
    want = []
    if n:
        want = lines(*p)
        if tag == 'polygon' and n > 1:
            want.append(('Z', p[-1], p[0]))
    d.check(want, points=list(p))


@contract(bounded=True, runs=1500, secs=20)
def point_lists(S):
    """writing points and reading them back"""
    n = S.int('n', lo=0, hi=20)
    p = [(S.int('x', lo=-999, hi=999) / 8, S.int('y', lo=-999, hi=999) / 8)
         for i in range(n)]
    e = document('<%s/>' % S.choice('tag', ['polygon', 'polyline']))[0]
    S.check('none', e.points == [])
    e.points = p
    S.check('round-trip', [tuple(q) for q in e.points] == p)


# ---- groups, uses and the element's own transform ---------------------------

def moved(m, q):
    a, b, c, d, e, f = m
    return [(s[0],) + tuple((a * x + c * y + e, b * x + d * y + f)
                            for x, y in s[1:]) for s in q]


@contract(bounded=True, runs=2500, secs=40)
def compound(S):
    """groups draw their children in order, uses what they refer to, and
    every element is moved by its own transform"""
    k = [0]

    def transform():
        if S.choice('has-transform', [0, 1]) == 0:
            return '', (1, 0, 0, 1, 0, 0)
        m = [S.choice('c', [0, 1, -1, 2, 0.5, 3]) for i in range(4)] + \
            [S.int('t', lo=-9, hi=9), S.int('t', lo=-9, hi=9)]
        return ' transform="matrix(%s)"' % ' '.join(map(str, m)), m
    ids = {}

    def node(depth, use=True):
        """-> text, path before its transform, path after it"""
        t, m = transform()
        kind = S.choice('kind', ['line', 'polygon', 'rect', 'g', 'g'] + (
            ['use'] if ids and use else []))
        if depth == 0 and kind == 'g':
            kind = 'line'
        name = 'n%d' % k[0]
        k[0] += 1
        if kind == 'g':
            parts = [node(depth - 1) for i in range(S.int('kids', lo=0, hi=3))]
            own = [p for q in parts for p in q[2]]
            text = '<g id="%s"%s>%s</g>' % (name, t,
                                            ''.join(q[0] for q in parts))
        elif kind == 'use':
            ref = S.choice('ref', sorted(ids))
            x, y = S.int('x', lo=-9, hi=9), S.int('y', lo=-9, hi=9)
            own = moved((1, 0, 0, 1, x, y), ids[ref])
            text = '<use id="%s" href="#%s" x="%d" y="%d"%s/>' % (
                name, ref, x, y, t)
        elif kind == 'rect':
            x, y, w, h = (S.int('g', lo=1, hi=9) for i in range(4))
            own = lines((x, y), (x + w, y), (x + w, y + h), (x, y + h),
                        (x, y)) + [('Z', (x, y), (x, y))]
            text = '<rect id="%s" x="%d" y="%d" width="%d" height="%d"%s/>' \
                % (name, x, y, w, h, t)
        else:
            p = [(S.int('g', lo=-9, hi=9), S.int('g', lo=-9, hi=9))
                 for i in range(2 if kind == 'line' else 3)]
            own = lines(*p)
            if kind == 'line':
                if p[0] == p[1]:
                    own = []
                text = '<line id="%s" x1="%d" y1="%d" x2="%d" y2="%d"%s/>' % (
                    name, *p[0], *p[1], t)
            else:
                own.append(('Z', p[-1], p[0]))
                text = '<polygon id="%s" points="%s"%s/>' % (
                    name, ' '.join('%d,%d' % q for q in p), t)
        out = moved(m, own)
        ids[name] = out
        done.append((name, own, out))
        return text, own, out
    done = []
    text = ''.join(node(2)[0] for i in range(S.int('tops', lo=1, hi=3)))
    root = document(text)
    for name, own, out in done:
        e = root.get_element_by_id(name)
        got = draw(S, e.get_path_data())[0]
        same(S, 'own', got, own)
        got = draw(S, e.get_transformed_path_data())[0]
        same(S, 'transformed', got, out)
        b = e.get_bbox()
        p = [q for s in out for q in s[1:]]
        if e.local_name != 'g' and p:
            xs, ys = [q[0] for q in p], [q[1] for q in p]
            S.check_seq('box', [b.left, b.top, b.right, b.bottom],
                        [min(xs), min(ys), max(xs), max(ys)])
