"""X01 - glyphs stand, turn and advance as the text attributes say."""
import copy
import math
from vlib.spec import contract
from vlib import sym
from fakes import Fake
import svgpy.text
from svgpy import SVGParser
from svgpy.dom import Node
from svgpy.freetype import FTMatrix
from svgpy.geometry.matrix import DOMMatrix
from svgpy.geometry.rect import DOMRect
from svgpy.path import PathParser, SVGPathSegment
from svgpy.text import SVGTextContentElement
from svgpy.icu import UBiDi

ASSUMPTIONS = [
    'FreeType: FT_Outline_Translate and FT_Outline_Transform do what their '
    'names say, FT_Outline_Decompose visits the points of the outline',
    'HarfBuzz, ICU and fontconfig give the glyphs, their advances and '
    'offsets, the breaks and the directions (stand-ins answer any of them)',
    'place_glyphs: runs of up to three glyphs, each of one character '
    '(ligatures are left out)',
    'horizontal writing modes']


# -- one glyph ---------------------------------------------------------------
class Outline(Fake):
    """points in 1/64 pixel, y upward"""

    def translate(self, x, y):
        self.log.append(('translate', x, y))
        self.points = [(a + x, b + y) for a, b in self.points]

    def transform(self, m):
        if not isinstance(m, FTMatrix):
            raise sym.Unsupported('outline transformed by %r' % (m,))
        self.log.append(('transform', m))
        self.points = [(a * m.xx + b * m.xy, a * m.yx + b * m.yy)
                       for a, b in self.points]

    def decompose(self, move, line, conic, cubic, user=None, **kw):
        p = self.points
        move(p[0][0], p[0][1], user)
        line(p[1][0], p[1][1], user)
        conic(p[2][0], p[2][1], p[3][0], p[3][1], user)
        cubic(p[4][0], p[4][1], p[5][0], p[5][1], p[6][0], p[6][1], user)


def turned(S, deg):
    a = S.radians(deg)
    return S.cos(a), S.sin(a)


def glyph_point(S, p, x, y, c, s):
    """a point of the outline, y upward, once the glyph stands at (x, y)
    turned by the angle"""
    return x + c * p[0] + s * p[1], y + s * p[0] - c * p[1]


def outline_of(S, m, pts):
    """what from_glyph makes of the points"""
    o = Outline(S, points=[(64 * a, 64 * b) for a, b in pts], log=[])
    face = Fake(S, glyph=Fake(S, outline=o))
    return PathParser.from_glyph(face, m)


@contract()
def glyph_standing(S):
    """the matrix R T(x, -y), given to from_glyph (see glyph_outline), puts
    the glyph at (x, y), turned"""
    p, (x, y) = S.reals('p', 2), S.reals('at', 2)
    deg = S.angle('deg')
    c, s = turned(S, deg)
    a, b = p[0] + c * x + s * y, p[1] + s * x - c * y
    S.check_seq('placed', [c * a + s * b, s * a - c * b],
                glyph_point(S, p, x, y, c, s), 1e-6)


SHAPE = [('M', (0,)), ('L', (1,)), ('Q', (2, 3)), ('C', (4, 5, 6))]


@contract()
def glyph_outline(S):
    """from_glyph: the outline, moved and turned, y downward"""
    pts = [S.reals('p%d' % i, 2) for i in range(7)]
    deg = S.angle('rotate')
    c, s = turned(S, deg)
    if not S.bool('turned'):
        c, s = 1, 0
    # moves in steps of 1/64 pixel are exact
    x, y = S.int('x', lo=-9999, hi=9999), S.int('y', lo=-9999, hi=9999)
    m = DOMMatrix([c, s, -s, c, x / 64, y / 64])
    path = outline_of(S, m, pts)
    S.check('commands', [g.type for g in path] == [k for k, _ in SHAPE])
    for g, (k, idx) in zip(path, SHAPE):
        want = []
        for i in idx:
            p = pts[i][0] + x / 64, pts[i][1] + y / 64
            want += [c * p[0] + s * p[1], s * p[0] - c * p[1]]
        S.check_seq('points of ' + k, list(g.values), want, 2e-3)


@contract()
def glyph_outline_moved(S):
    """moves by less than a step are rounded, by less than a step"""
    pts = [S.reals('p%d' % i, 2) for i in range(7)]
    x, y = S.reals('move', 2)
    m = DOMMatrix([1, 0, 0, 1, x, y])
    path = outline_of(S, m, pts)
    for g, (k, idx) in zip(path, SHAPE):
        v = list(g.values)
        S.check('length', len(v) == 2 * len(idx))
        for j, i in enumerate(idx):
            for got, want in ((v[2 * j], pts[i][0] + x),
                              (v[2 * j + 1], -(pts[i][1] + y))):
                S.check('near', S.and_(S.le(got, want + 0.0157),
                                       S.le(want - 0.0157, got)))


@contract()
def glyph_outline_plain(S):
    """without a matrix: the outline, y downward"""
    pts = [S.reals('p%d' % i, 2) for i in range(7)]
    path = outline_of(S, None, pts)
    S.check('commands', [g.type for g in path] == [k for k, _ in SHAPE])
    for g, (k, idx) in zip(path, SHAPE):
        S.check_seq('points', list(g.values),
                    [v for i in idx for v in (pts[i][0], -pts[i][1])])


# -- the matrix FreeType is given --------------------------------------------
def ft(S, name):
    v = S.reals(name, 4, small=True)
    return FTMatrix.from_float_array(v), [[v[0], v[1]], [v[2], v[3]]]


def ft_rows(m):
    return [m.xx, m.xy, m.yx, m.yy]


def prod(a, b):
    return [a[0][0] * b[0][0] + a[0][1] * b[1][0],
            a[0][0] * b[0][1] + a[0][1] * b[1][1],
            a[1][0] * b[0][0] + a[1][1] * b[1][0],
            a[1][0] * b[0][1] + a[1][1] * b[1][1]]


@contract()
def ft_matrix(S):
    """the operations multiply from the right, the ones that do not say self
    leave the matrix as it was"""
    m, a = ft(S, 'a')
    S.check_seq('elements', ft_rows(m), a[0] + a[1])
    S.check_seq('list', m.tolist(), a[0] + a[1])
    op = S.choice('op', ['multiply', 'flip_x', 'flip_y', 'rotate', 'scale',
                         'scale1', 'skew_x', 'skew_y', 'mul'])
    deg = S.angle('deg')
    r = S.radians(deg)
    k = S.reals('k', 2, small=True)
    o, b = ft(S, 'b')
    args = ()
    if op == 'multiply':
        args = (o,)
    elif op == 'mul':
        pass
    elif op == 'flip_x':
        b = [[-1, 0], [0, 1]]
    elif op == 'flip_y':
        b = [[1, 0], [0, -1]]
    elif op == 'rotate':
        args = (deg,)
        b = [[S.cos(r), S.sin(r)], [-S.sin(r), S.cos(r)]]
    elif op == 'scale':
        args, b = tuple(k), [[k[0], 0], [0, k[1]]]
    elif op == 'scale1':
        args, b = (k[0],), [[k[0], 0], [0, k[0]]]
    elif op == 'skew_x':
        S.assume(S.not_(S.eq(S.cos(r), 0)))
        args, b = (deg,), [[1, -S.tan(r)], [0, 1]]
    else:
        S.assume(S.not_(S.eq(S.cos(r), 0)))
        args, b = (deg,), [[1, 0], [-S.tan(r), 1]]
    want = prod(a, b)
    self = op in ('mul',) or (not op.startswith('flip') and S.bool('self'))
    if op == 'mul':
        if S.bool('in place'):
            got = m
            got *= o
            S.check('same', got is m)
        else:
            got = m * o
            S.check_seq('kept', ft_rows(m), a[0] + a[1])
            S.check_seq('other kept', ft_rows(o), b[0] + b[1])
    elif self:
        got = getattr(m, op.rstrip('1') + '_self')(*args)
        S.check('same', got is m)
    else:
        got = getattr(m, op.rstrip('1'))(*args)
        S.check('new', got is not m)
        S.check_seq('kept', ft_rows(m), a[0] + a[1])
    S.check_seq('product', ft_rows(got), want)


@contract()
def ft_matrix_state(S):
    m, a = ft(S, 'a')
    v = S.reals('v', 4, small=True)
    which = S.choice('which', ['xx', 'xy', 'yx', 'yy'])
    i = ['xx', 'xy', 'yx', 'yy'].index(which)
    setattr(m, which, v[i])
    want = a[0] + a[1]
    want[i] = v[i]
    S.check_seq('set', ft_rows(m), want)
    c = m.clear()
    S.check('same', c is m)
    S.check_seq('clear', ft_rows(m), [1, 0, 0, 1])
    S.check_seq('new', ft_rows(FTMatrix()), [1, 0, 0, 1])


@contract()
def ft_matrix_inverse(S):
    m, a = ft(S, 'a')
    det = a[0][0] * a[1][1] - a[0][1] * a[1][0]
    S.assume(S.or_(S.le(0.01, det), S.le(det, -0.01)))
    inv = m.inverse()
    S.check_seq('kept', ft_rows(m), a[0] + a[1])
    S.check_seq('inverse', ft_rows(m * inv), [1, 0, 0, 1])
    x = m.invert_self()
    S.check('same', x is m)
    S.check_seq('in place', ft_rows(m), ft_rows(inv))


# -- a run of glyphs ---------------------------------------------------------
class Names(object):
    """a module-level name of text.py with some members replaced"""

    def __init__(self, real, call=None, **over):
        self.__dict__.update(over, _real=real, _call=call)

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __call__(self, *a, **k):
        if self._call is None:
            return self._real(*a, **k)
        return self._call(*a, **k)


class Patched(object):
    def __init__(self, **names):
        self.names = names

    def __enter__(self):
        mod = svgpy.text
        missing = [n for n in self.names if not hasattr(mod, n)]
        if missing:
            raise sym.Unsupported('text.py has no %s' % missing)
        self.old = {n: getattr(mod, n) for n in self.names}
        for n, v in self.names.items():
            setattr(mod, n, v)

    def __exit__(self, *exc):
        for n, v in self.old.items():
            setattr(svgpy.text, n, v)


class Buffer(Fake):
    def quiet(self, *a, **k):
        return None
    set_cluster_level = set_direction = set_language = set_script = quiet
    guess_segment_properties = quiet

    def get_script(self):
        return None

    def clear_contents(self):
        self.line = None

    def add_utf8(self, line, *a):
        self.line = line

    def shape(self, font, features):
        self.done = self.line

    def glyphs(self):
        if self.done is None or self.done != self.line:
            raise sym.Unsupported('glyphs of a buffer not shaped')
        g = [self.table[ch] for ch in self.line]
        if self.rtl(self.line):
            g = g[::-1]                 # visual order, left to right
        return g

    def get_glyph_infos(self):
        return [i for i, p in self.glyphs()]

    def get_glyph_positions(self):
        return [p for i, p in self.glyphs()]


class Face(Fake):
    def load_glyph(self, codepoint, flags=0):
        self.current = codepoint
        self.synth = []

    @property
    def glyph(self):
        face = self

        class Slot(Fake):
            def embolden(self):
                face.synth.append('bold')

            def oblique(self):
                face.synth.append('oblique')
        return Slot(self._S)


class Box(Fake):
    '''a bounding box that is not looked at'''

    def transform_self(self, m):
        return self
    translate_self = transform_self

    def __or__(self, other):
        return self


class Spot(Fake):
    """a text or tspan element"""
    node_type = Node.ELEMENT_NODE

    def istext(self):
        return True

    def isdisplay(self):
        return True

    def getparent(self):
        return self.parent

    def get_computed_style(self):
        return self.style


def style_of(S, **kw):
    st = {'direction': 'ltr', 'font-synthesis': ['weight', 'style'],
          'font-weight': 400, 'font-style': 'normal',
          'font-language-override': 'normal', 'writing-mode': 'lr-tb',
          'white-space': 'normal', 'x': None, 'y': None, 'dx': None,
          'dy': None, 'rotate': None}
    st.update(kw)
    return st


KEYS = ['x', 'y', 'dx', 'dy', 'rotate']


class Scene(object):
    """one call of _get_text_path_data: runs [(level, [line, ...]), ...]"""

    def __init__(self, S, direction, runs, lists, owner='own', synth=None,
                 offsets=True, boxes=True, outer=None):
        self.outer = outer or {}
        self.S = S
        self.boxes = boxes
        self.runs = runs
        self.text = ''.join(l for _, ls in runs for l in ls)
        self.glyphs = {}
        self.level = {}
        at = 0
        for level, lines in runs:
            for l in lines:
                for k, ch in enumerate(l):
                    n = 'g' + ch
                    adv = S.real(n + '.advance', lo=0.1, hi=100)
                    off = S.reals(n + '.offset', 2) if offsets else (0, 0)
                    pt = S.reals(n + '.point', 2)
                    info = Fake(S, cluster=k, codepoint=ch)
                    pos = Fake(S, x_advance=64 * adv, y_advance=0,
                               x_offset=64 * off[0], y_offset=64 * off[1])
                    self.glyphs[ch] = (info, pos, adv, off, pt)
                    self.level[ch] = level
        self.start = S.reals('start', 2)
        self.height = S.real('height', lo=0.1, hi=50)
        self.desc = S.real('descender', lo=-20, hi=0)
        self.lists = lists
        style = style_of(S, direction=direction)
        parent = style_of(S, direction=direction)
        (parent if owner == 'parent' else style).update(
            {k: list(v) for k, v in lists.items() if v is not None})
        style.update(synth or {})
        far = style_of(S, direction=direction)
        far.update({k: list(v) for k, v in self.outer.items() if v})
        top = Spot(S, parent=Spot(S, parent=None, style=far), style=parent)
        self.element = Spot(S, parent=top, style=style)
        self.map = {hash(self.element): style, hash(top): parent}
        self.synths = []
        self.given = []

    def call(self, flags=0):
        S = self.S
        table = {ch: g[:2] for ch, g in self.glyphs.items()}
        buf = Buffer(S, table=table, line=None, done=None,
                     rtl=lambda l: self.level[l[0]] % 2 == 1)
        metrics = Fake(S, x_ppem=10, height=64 * self.height,
                       descender=64 * self.desc)
        face = Face(S, size=Fake(S, metrics=metrics), style_flags=flags,
                    current=None, synth=[])
        bounds, at = [], 0
        for level, lines in self.runs:
            n = sum(len(l) for l in lines)
            bounds.append((at, at + n, level, lines))
            at += n

        class Para(Fake):
            def set_para(self, text, level, *a):
                self.text = text

            def get_processed_length(self):
                return len(self.text)

            def get_logical_run(self, pos):
                for a, b, level, lines in bounds:
                    if a == pos:
                        return b, level
                raise sym.Unsupported('a run that begins at %r' % (pos,))

        class Breaks(Fake):
            def set_text(self, text):
                self.lines = [ls for a, b, lv, ls in bounds
                              if ''.join(ls) == text]

            def pieces(self):
                if len(self.lines) != 1:
                    raise sym.Unsupported('breaks of some other text')
                return self.lines[0]

            def __iter__(self):
                return iter(self.pieces())

            def __reversed__(self):
                return iter(self.pieces()[::-1])

        class Locale(Fake):
            locale = 'en'

            def get_language(self):
                return 'en'

            def get_script(self):
                return None

        def from_glyph(f, matrix=None):
            if f is not face or f.current is None:
                raise sym.Unsupported('outline of another face')
            self.synths.append((f.current, list(f.synth)))
            m = [getattr(matrix, k) for k in 'abcdef']
            self.given.append((f.current, m))
            px, py = self.glyphs[f.current][4]
            x, y = px + m[4], py + m[5]
            return [SVGPathSegment('M', m[0] * x + m[1] * y,
                                   -(m[2] * x + m[3] * y))]

        T = svgpy.text
        loc = Locale(S)
        quiet = Names(object, call=lambda *a, **k: Fake(S))
        names = dict(
            Font=Names(T.Font, call=lambda e, *a: Fake(S, face=face)),
            HBFTFont=Names(T.HBFTFont, create=lambda f: Fake(S)),
            HBFeature=Names(T.HBFeature, fromstring=lambda s: Fake(S)),
            HBBuffer=Names(T.HBBuffer, create=lambda: buf),
            HBDirection=Names(T.HBDirection, call=lambda *a: Fake(S)),
            HBLanguage=Names(T.HBLanguage, fromstring=lambda s: Fake(S)),
            HBScript=Names(T.HBScript, fromstring=lambda s: Fake(S)),
            ULocale=Names(T.ULocale, call=lambda *a: loc,
                          get_default=lambda *a: loc),
            UBiDi=Names(T.UBiDi, call=lambda *a: Para(S)),
            UBreakIterator=Names(T.UBreakIterator,
                                 call=lambda *a: Breaks(S)),
            features_from_style=lambda style: [],
            PathParser=Names(PathParser, from_glyph=from_glyph))
        if not self.boxes and S.symbolic:
            names['DOMRect'] = Names(DOMRect, call=lambda *a: Box(S))
        with Patched(**names):
            return SVGTextContentElement._get_text_path_data(
                self.element, self.map, self.text, self.start[0],
                self.start[1])

    def expected(self):
        """-> [(glyph, x, y, rotate)], the glyph origins, and the pen"""
        x, y = self.start
        out, i, r = [], 0, 0

        def get(k):
            # the nearest element decides as far as its values go
            near, far = self.lists.get(k) or [], self.outer.get(k) or []
            return near + far[len(near):]
        for level, lines in self.runs:
            for line in lines:
                for ch in line:
                    _, _, adv, off, _ = self.glyphs[ch]
                    if i < len(get('x')):
                        x = get('x')[i]
                    if i < len(get('y')):
                        y = get('y')[i]
                    if i < len(get('dx')):
                        x = x + get('dx')[i]
                    if i < len(get('dy')):
                        y = y + get('dy')[i]
                    if get('rotate'):
                        r = get('rotate')[min(i, len(get('rotate')) - 1)]
                    i += 1
                    if level % 2:
                        x = x - adv
                    out.append((ch, x + off[0], y - off[1], r))
                    if not level % 2:
                        x = x + adv
        return out, (x, y)


def numbers(S, name, n, kind=None):
    if not kind:
        return [S.real(name + str(i)) for i in range(n)]
    out = []
    for i in range(n):
        # the code asks whether the angle is zero
        a = S.angle(name + str(i))
        S.assume(S.not_(S.eq(a, 0)))
        out.append(a if i != 1 else 0)
    return out


LENS = [(0, 0, 0, 0, 0), (1, 1, 0, 0, 0), (2, 0, 0, 0, 0), (0, 2, 0, 0, 0),
        (0, 0, 1, 2, 0), (0, 0, 2, 1, 0), (0, 0, 0, 0, 1), (0, 0, 0, 0, 2),
        (3, 2, 1, 3, 2), (1, 3, 3, 0, 3), (4, 4, 4, 4, 4)]


def check_glyphs(S, scene, got, order=None):
    path, advances, bbox, pen = got
    want, end = scene.expected()
    if order:
        want = order(want)
    S.check('a piece of outline per glyph', len(path) == len(want))
    S.check_seq('advances', list(advances),
                [scene.glyphs[ch][2] for ch, *_ in want])
    S.check('glyphs', [g for g, _ in scene.given] == [w[0] for w in want])
    for seg, (g, m), (ch, x, y, deg) in zip(path, scene.given, want):
        c, s = turned(S, deg) if not (isinstance(deg, int) and deg == 0) else (1, 0)
        # see glyph_standing: this matrix puts the glyph where it belongs
        S.check_seq('the glyph stands and turns there', m,
                    [c, s, -s, c, c * x + s * y, s * x - c * y], 1e-6)
    return want, end


@contract(finite='runs of up to three glyphs', prove_s=300)
def place_glyphs(S):
    """a run in the direction of the text"""
    ltr, owner = S.choice('how', [(True, 'own'), (False, 'own'),
                                  (True, 'parent'), (True, 'both')])
    lines = S.choice('lines', [['A'], ['AB'], ['ABC'], ['A', 'BC']])
    lens = S.choice('lists', LENS)
    lists = {k: numbers(S, k, m, k == 'rotate') or None
             for k, m in zip(KEYS, lens)}
    scene = Scene(S, 'ltr' if ltr else 'rtl', [(0 if ltr else 1, lines)],
                  lists, owner, boxes=False, outer={
                      k: numbers(S, 'far.' + k, m) for k, m in zip(
                          KEYS[:4], (2, 3, 1, 2))
                      if owner == 'both'})
    got = scene.call()
    want, end = check_glyphs(S, scene, got)
    S.check_seq('current position', list(got[3]), end)


def boxes(scene, want):
    """the boxes of unturned glyphs"""
    out = []
    for ch, x, y, deg in want:
        out.append((x, y - scene.height - scene.desc,
                    x + scene.glyphs[ch][2], y - scene.desc))
    return out


def check_box(S, box, rects):
    left, top, right, bottom = rects[0]
    for l, t, r, b in rects[1:]:
        left, top = S.min(left, l), S.min(top, t)
        right, bottom = S.max(right, r), S.max(bottom, b)
    S.check_eq('left', box.x, left)
    S.check_eq('top', box.y, top)
    S.check_eq('right', box.x + box.width, right)
    S.check_eq('bottom', box.y + box.height, bottom)


@contract(finite='runs of up to two glyphs', prove_s=300)
def glyph_boxes(S):
    """the bounding box holds the boxes of the glyphs and no more"""
    ltr = S.bool('ltr')
    lines = S.choice('lines', [['A'], ['AB'], ['A', 'B']])
    lens = S.choice('lists', [(0, 0, 0, 0), (0, 0, 2, 2), (2, 2, 0, 0)])
    lists = {k: numbers(S, k, m) or None for k, m in zip(KEYS, lens)}
    scene = Scene(S, 'ltr' if ltr else 'rtl', [(0 if ltr else 1, lines)],
                  lists)
    got = scene.call()
    want, end = scene.expected()
    check_box(S, got[2], boxes(scene, want))


@contract(finite='three glyphs in two runs', prove_s=300)
def place_opposite_runs(S):
    """a run against the direction of the text takes the room it needs at
    the current position, its last line next to it"""
    ltr = S.bool('ltr')
    with_, against = (0, 1) if ltr else (1, 0)
    runs = S.choice('runs', [[(0, ['A'])], [(0, ['AB'])], [(0, ['A', 'B'])],
                             [(1, ['C']), (0, ['AB'])],
                             [(0, ['AB']), (1, ['C'])],
                             [(0, ['A']), (1, ['C']), (0, ['B'])]])
    runs = [((with_ if k else against), ls) for k, ls in runs]
    scene = Scene(S, 'ltr' if ltr else 'rtl', runs, {}, offsets=False)
    path, advances, bbox, pen = scene.call()
    x, y = scene.start
    want = {}
    for level, ls in runs:
        # pieces in the order they are met walking in the text's direction
        walk = [c for l in ls for c in l]
        if level == against:
            walk = walk[::-1]
        for ch in walk:
            adv = scene.glyphs[ch][2]
            if ltr:
                want[ch] = x
                x = x + adv
            else:
                x = x - adv
                want[ch] = x
    S.check('a piece of outline per glyph', len(path) == len(want))
    S.check('each once', sorted(g for g, _ in scene.given) == sorted(want))
    for seg, (g, m) in zip(path, scene.given):
        S.check_seq('stands', list(seg.values), glyph_point(
            S, scene.glyphs[g][4], want[g], y, 1, 0), 1e-6)
    S.check_seq('advances', list(advances),
                [scene.glyphs[g][2] for g, _ in scene.given])
    S.check_seq('current position', list(pen), [x, y])


@contract(finite='one glyph')
def synthesised(S):
    """glyphs are emboldened and slanted where the face has no such style and
    the element allows it"""
    from svgpy.freetype import FreeType as F
    weight = S.int('weight', lo=1, hi=1000)
    slant = S.choice('style', ['normal', 'italic', 'oblique'])
    allow = S.choice('synthesis', [[], ['weight'], ['style'],
                                   ['weight', 'style'], ['none']])
    bold, italic = S.bool('bold face'), S.bool('italic face')
    flags = (F.FT_STYLE_FLAG_BOLD if bold else 0) | (
        F.FT_STYLE_FLAG_ITALIC if italic else 0)
    scene = Scene(S, 'ltr', [(0, ['A'])], {}, synth={
        'font-weight': weight, 'font-style': slant,
        'font-synthesis': allow})
    scene.call(flags)
    S.check('one glyph', len(scene.synths) == 1)
    done = scene.synths[0][1]
    heavy = bool(weight > 400) and 'weight' in allow and not bold
    S.check('bold', ('bold' in done) == heavy)
    S.check('oblique', ('oblique' in done) == (
        slant != 'normal' and 'style' in allow and not italic))
    S.check('once', len(done) == len(set(done)))


# -- whole documents, with the fonts of the system ---------------------------
NS = 'http://www.w3.org/2000/svg'
FONT = 'font-family="DejaVu Sans Mono" font-size="%s"'


LONE = {}


def lone(size, ch):
    """-> outline, box and advance of a character at the origin"""
    if (size, ch) not in LONE:
        src = '<svg xmlns="%s"><g %s><text>%s</text></g></svg>' % (
            NS, FONT % size, ch)
        e = SVGParser().fromstring(src)[0][0]
        b = e.get_bbox()
        LONE[size, ch] = ([(g.type, list(g.values))
                           for g in e.get_path_data()],
                          (b.left, b.top, b.right, b.bottom),
                          e.get_computed_text_length())
    return LONE[size, ch]


def moved(pts, x, y, deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return [(x + c * a - s * b, y + s * a + c * b) for a, b in pts]


class Tree(object):
    """a text with spans; characters with what the attributes give them"""

    def __init__(self, S):
        self.r = S.rng
        self.chars = []         # [character, {key: value}, owners]
        self.n = 0
        self.size = '16'
        self.turner = self.r.choice([0, 0, 1, 2, None, None])
        self.markup = self.node('text', 2, ())

    def word(self):
        r = self.r
        w = ''.join(r.choice('abekmx1')
                    for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
        if len(w) > 2 and r.random() < .4:
            w = w[:1] + ' ' + w[1:]
        return w

    def node(self, name, depth, owners):
        r, own = self.r, self.n
        self.n += 1
        me = owners + (own,)
        at = len(self.chars)
        attrs, given = ' id="e%d"' % own, {}
        for k in KEYS[:4]:
            if r.random() < .35:
                v = [r.choice([0, 5, 12.5, 40, -3, 7.25, 100, 1.5])
                     for _ in range(r.choice([1, 1, 2, 3, 6]))]
                given[k] = v
                attrs += ' %s="%s"' % (k, r.choice([' ', ',', ', ']).join(
                    '%r' % i for i in v))
        turn = None
        if own == self.turner:
            turn = [r.choice([0, 30, 90, -45, 180, 12.5])
                    for _ in range(r.choice([1, 2, 3]))]
            attrs += ' rotate="%s"' % ' '.join('%r' % i for i in turn)
        body = ''

        def add():
            w = self.word()
            for ch in w:
                self.chars.append([ch, {}, me])
            return w
        body += add()
        for _ in range(r.choice([0, 1, 1, 2]) if depth else 0):
            body += self.node('tspan', depth - 1, me)
            body += add()
        # inner elements have written theirs already: they win
        for k, v in given.items():
            for j, val in enumerate(v):
                if at + j < len(self.chars):
                    self.chars[at + j][1].setdefault(k, val)
        if turn:
            for j in range(at, len(self.chars)):
                self.chars[j][1]['rotate'] = turn[min(j - at, len(turn) - 1)]
        return '<%s%s>%s</%s>' % (name, attrs, body, name)


class Remembered(object):
    """style queries answered once per element: the documents here do not
    change while they are asked (their values are the concern of K01, K02)"""
    NAMES = ['isdisplay', 'get_computed_style', 'get_inherited_style',
             'get_computed_font_style']

    def __enter__(self):
        self.old = []
        for cls in type.mro(type(SVGParser().fromstring(
                '<svg xmlns="%s"><text/></svg>' % NS)[0])):
            for n in self.NAMES:
                f = cls.__dict__.get(n)
                if callable(f):
                    self.old.append((cls, n, f))
                    setattr(cls, n, self.memo(n, f))

    @staticmethod
    def memo(name, f):
        known = {}

        def call(self, *a, **k):
            key = (self, a, tuple(sorted(k.items())))
            try:
                hash(key)
            except TypeError:
                return f(self, *a, **k)
            if key not in known:
                known[key] = f(self, *a, **k)
            return copy.deepcopy(known[key]) \
                if isinstance(known[key], dict) else known[key]
        return call

    def __exit__(self, *exc):
        for cls, n, f in self.old:
            setattr(cls, n, f)


@contract(bounded='random documents, one font', runs=400, secs=60)
def whole_text(S):
    with Remembered():
        whole(S)


def whole(S):
    t = Tree(S)
    S.assume(any(c[0] != ' ' for c in t.chars))
    src = '<svg xmlns="%s"><g %s>%s</g></svg>' % (NS, FONT % t.size, t.markup)
    root = SVGParser().fromstring(src)
    text = root[0][0]
    x = y = 0
    want, advances, box, cache = [], [], None, {}
    for ch, at, owners in t.chars:
        x = at.get('x', x) + at.get('dx', 0)
        y = at.get('y', y) + at.get('dy', 0)
        segs, b, adv = lone(t.size, ch if ch != ' ' else 'n')
        deg = at.get('rotate', 0)
        if ch != ' ':
            for k, v in segs:
                want.append((k, [i for p in moved(
                    zip(v[::2], v[1::2]), x, y, deg) for i in p]))
        b = moved([(b[i], b[j]) for i in (0, 2) for j in (1, 3)], x, y, deg)
        b = [f(p[i] for p in b) for f in (min, max) for i in (0, 1)]
        box = b if box is None else [min(box[0], b[0]), min(box[1], b[1]),
                                     max(box[2], b[2]), max(box[3], b[3])]
        advances.append(adv)
        x += adv

    def said(label, ok, *what):
        S.check(label if ok else '%s: %s: %r' % (label, src, what), ok)
    got = text.get_path_data()
    said('commands', [g.type for g in got] == [w[0] for w in want],
         len(got), len(want))
    for g, w in zip(got, want):
        said('outlines', all(abs(a - b) < .07 for a, b in zip(
            g.values, w[1])), list(g.values), w[1])
    b = text.get_bbox()
    b = [b.left, b.top, b.right, b.bottom]
    said('bounding box', all(abs(p - q) < .05 for p, q in zip(b, box)),
         b, box)
    for i in S.rng.sample(range(t.n), min(t.n, 2)):
        e = root.get_element_by_id('e%d' % i)
        own = [a for a, (_, _, o) in zip(advances, t.chars) if i in o]
        said('text length', abs(e.get_computed_text_length() - sum(own)) < .05,
             i, e.get_computed_text_length(), sum(own))
        a = S.rng.randint(0, max(len(own) - 1, 0))
        n = S.rng.randint(0, len(own) - a)
        part = e.get_sub_string_length(a, n)
        said('length of a part', abs(part - sum(own[a:a + n])) < .05,
             i, a, n, part, sum(own[a:a + n]))
