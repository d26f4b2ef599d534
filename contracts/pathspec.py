"""What path data draws (SVG path semantics, mathematics only).

Drawing state: pen position, subpath start, last command family, last control
point, bearing.  A piece is a tuple (kind, points...):
  ('M', p)  ('L', p0, p1)  ('C', p0, c1, c2, p1)  ('Z', p0, start)
  ('A', p0, rx, ry, rotation, large, sweep, p1)
A move directly after a move draws a line (repeated move coordinates); bearing
commands draw nothing and are transparent for that and for smooth curves."""
from svgpy.path import SVGPathSegment

ARGC = {'M': 2, 'L': 2, 'H': 1, 'V': 1, 'C': 6, 'S': 4, 'Q': 4, 'T': 2,
        'A': 7, 'B': 1, 'Z': 0}
NOARC = 'MmLlHhVvCcSsQqTtZzBb'
ALL = NOARC + 'Aa'


class Pen(object):
    def __init__(self, cp=None, start=None, last=None, ctrl=None, bearing=0):
        self.cp, self.start = cp, start
        self.last = last          # upper case command letter, not 'B'
        self.ctrl = ctrl          # last control point (C/S: 2nd, Q/T: 1st)
        self.bearing = bearing

    def copy(self):
        return Pen(self.cp, self.start, self.last, self.ctrl, self.bearing)


def family(c):
    return 'C' if c in ('C', 'S') else 'Q' if c in ('Q', 'T') else c


def turned(S, pen, x, y):
    if not (isinstance(pen.bearing, int) and pen.bearing == 0):
        t = S.radians(pen.bearing)
        c, s = S.cos(t), S.sin(t)
        x, y = x * c - y * s, x * s + y * c
    return (x, y)


def points(S, pen, typ, v):
    """the coordinate pairs of a segment in absolute coordinates"""
    out = []
    cx, cy = pen.cp if pen.cp is not None else (0, 0)
    for i in range(0, len(v), 2):
        x, y = v[i], v[i + 1]
        if typ.islower():
            x, y = turned(S, pen, x, y)
            x, y = x + cx, y + cy
        out.append((x, y))
    return out


def lin(p, a, q, b):
    return (p[0] * a + q[0] * b, p[1] * a + q[1] * b)


def quad(p0, c, p1):
    return ('C', p0, (p0[0] + (c[0] - p0[0]) * 2 / 3,
                      p0[1] + (c[1] - p0[1]) * 2 / 3),
            (p1[0] + (c[0] - p1[0]) * 2 / 3,
             p1[1] + (c[1] - p1[1]) * 2 / 3), p1)


def step(S, pen, typ, v):
    """-> pieces, next pen"""
    pen = pen.copy()
    up = typ.upper()
    p0 = pen.cp if pen.cp is not None else (0, 0)
    if up == 'B':
        pen.bearing = v[0] if typ == 'B' else pen.bearing + v[0]
        return [], pen
    if up == 'Z':
        out = []
        if pen.start is not None:
            out = [('Z', p0, pen.start)]
            pen.cp = pen.start
        pen.last = 'Z'
        return out, pen
    ctrl = None
    if up == 'M':
        p, = points(S, pen, typ, v)
        if pen.last == 'M':
            out = [('L', p0, p)]
        else:
            out = [('M', p)]
            pen.start = p
    elif up == 'L':
        p, = points(S, pen, typ, v)
        out = [('L', p0, p)]
    elif up in 'HV':
        if typ == 'H':
            p = (v[0], p0[1])
        elif typ == 'V':
            p = (p0[0], v[0])
        else:
            d = (v[0], 0) if typ == 'h' else (0, v[0])
            p = turned(S, pen, *d)
            p = (p[0] + p0[0], p[1] + p0[1])
        out = [('L', p0, p)]
    elif up == 'C':
        c1, ctrl, p = points(S, pen, typ, v)
        out = [('C', p0, c1, ctrl, p)]
    elif up == 'S':
        ctrl, p = points(S, pen, typ, v)
        c1 = lin(p0, 2, pen.ctrl, -1) if family(pen.last) == 'C' else p0
        out = [('C', p0, c1, ctrl, p)]
    elif up == 'Q':
        ctrl, p = points(S, pen, typ, v)
        out = [quad(p0, ctrl, p)]
    elif up == 'T':
        p, = points(S, pen, typ, v)
        ctrl = lin(p0, 2, pen.ctrl, -1) if family(pen.last) == 'Q' else p0
        out = [quad(p0, ctrl, p)]
    elif up == 'A':
        p, = points(S, pen, typ, v[5:])
        rot = v[2] + (pen.bearing if typ == 'a' else 0)
        out = [('A', p0, v[0], v[1], rot, v[3], v[4], p)]
    pen.cp = p
    if pen.start is None:
        pen.start = p
    pen.ctrl, pen.last = ctrl, up
    return out, pen


def draw(S, segs, pen=None):
    pen = pen or Pen()
    out = []
    for s in segs:
        p, pen = step(S, pen, s.type, list(s.values))
        out += p
    return out, pen


def same(S, label, got, want, tol=None):
    S.check(label + '.kinds', [p[0] for p in got] == [p[0] for p in want])
    for g, w in zip(got, want):
        if g[0] == 'A':
            S.check_seq(label + '.A', [*g[1], *g[2:7], *g[7]],
                        [*w[1], *w[2:7], *w[7]], tol)
        else:
            S.check_seq(label + '.' + g[0], [c for p in g[1:] for c in p],
                        [c for p in w[1:] for c in p], tol)


def segment(S, name, types=NOARC):
    t = S.choice(name + '.type', types)
    n = ARGC[t.upper()]
    if t.upper() == 'A':
        v = [S.real(name + '.rx', lo=0.01), S.real(name + '.ry', lo=0.01),
             S.angle(name + '.rot'), S.choice(name + '.fa', [0, 1]),
             S.choice(name + '.fs', [0, 1])] + S.reals(name + '.v', 2)
    elif t.upper() == 'B':
        v = [S.angle(name + '.v0')]
    else:
        v = S.reals(name + '.v', n)
    return SVGPathSegment(t, *v)


LASTS = 'MLCSQTZA'      # H, V are indistinguishable from L afterwards


def any_pen(S, name='pen', lasts='MmLlHhVvCcSsQqTtZzAa', bearing=None):
    """any drawing state after at least one move -> (pen, last letter)"""
    last = S.choice(name + '.last', lasts)
    cp = tuple(S.reals(name + '.cp', 2))
    start = tuple(S.reals(name + '.start', 2))
    ctrl = tuple(S.reals(name + '.ctrl', 2))
    if bearing is None:
        bearing = 0 if S.bool(name + '.nobearing') \
            else S.angle(name + '.bearing')
    return Pen(cp, start, last.upper(), ctrl, bearing), last


def arc_centre(p):
    """SVG implementation notes F.6: -> centre, radii, start, sweep (radians,
    on the unit circle), rotation; None when the arc is a point"""
    import math
    _, (x1, y1), rx, ry, rot, fa, fs, (x2, y2) = p
    rx, ry = abs(rx), abs(ry)
    if math.hypot(x2 - x1, y2 - y1) < 1e-9:
        return None
    f = math.radians(rot)
    c, s = math.cos(f), math.sin(f)
    dx, dy = (x1 - x2) / 2, (y1 - y2) / 2
    xp, yp = c * dx + s * dy, -s * dx + c * dy
    lam = (xp / rx) ** 2 + (yp / ry) ** 2
    if lam > 1:
        rx, ry = rx * math.sqrt(lam), ry * math.sqrt(lam)
    den = (rx * yp) ** 2 + (ry * xp) ** 2
    k = math.sqrt(max(((rx * ry) ** 2 - den) / den, 0))
    if bool(fa) == bool(fs):
        k = -k
    cxp, cyp = k * rx * yp / ry, -k * ry * xp / rx
    cx = c * cxp - s * cyp + (x1 + x2) / 2
    cy = s * cxp + c * cyp + (y1 + y2) / 2
    a = math.atan2((yp - cyp) / ry, (xp - cxp) / rx)
    b = math.atan2((-yp - cyp) / ry, (-xp - cxp) / rx)
    d = b - a
    if fs and d < 0:
        d += 2 * math.pi
    if not fs and d > 0:
        d -= 2 * math.pi
    return (cx, cy), (rx, ry), a, d, f


def arc_points(p, n):
    import math
    r = arc_centre(p)
    if r is None:
        return None
    (cx, cy), (rx, ry), a, d, f = r
    out = []
    for i in range(n + 1):
        t = a + d * i / n
        x, y = rx * math.cos(t), ry * math.sin(t)
        out.append((cx + x * math.cos(f) - y * math.sin(f),
                    cy + x * math.sin(f) + y * math.cos(f)))
    return out
