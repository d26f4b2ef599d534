"""Loop contract shared by the loops over path data: before segment k the
loop's variables describe the drawing state after the first k segments."""
import math
from vlib import sym
from vlib.loops import SymSeq, LoopContract
from pathspec import *


def kind(c):
    f = family(c.upper())
    return f if f in ('C', 'Q', 'M') else '-'


class PathLoop(LoopContract):
    types = NOARC
    first_types = 'Mm'
    track_control = True
    zero_start = ()       # accumulators: name -> test of its initial value

    def __init__(self, S):
        self.S = S
        self.seg = None

    # to override
    def acc_enter(self, env):
        return True

    def acc_havoc(self, env, k):
        return {}

    def acc_check(self, env, want, pen):
        pass

    def elem(self, k):
        S = self.S
        if self.seg is None:
            self.seg = segment(S, 'seg', self.first_types if self.first
                               else self.types)
        return self.seg

    def enter(self, env):
        ok = (all(env.get(n, 0) is None for n in
                  ('cpx', 'cpy', 'start_x', 'start_y', 'last_command'))
              and env.get('bearing') == 0 and self.acc_enter(env))
        if not ok:
            raise sym.Unsupported('unexpected initial state of the loop')

    def havoc(self, env, k):
        S = self.S
        self.first = bool(k == 0)
        if self.first:
            self.pen, last = Pen(), None
            r = {n: env[n] for n in ('cpx', 'cpy', 'start_x', 'start_y',
                                     'bearing', 'last_command')}
            if self.track_control:
                r.update({n: env[n] for n in ('x1', 'y1')})
        else:
            self.pen, last = pen, last = self.any_pen()
            r = {'cpx': pen.cp[0], 'cpy': pen.cp[1], 'start_x': pen.start[0],
                 'start_y': pen.start[1], 'bearing': pen.bearing,
                 'last_command': last}
            if self.track_control:
                if family(pen.last) in 'CQ':
                    x1, y1 = lin(pen.cp, 2, pen.ctrl, -1)
                else:
                    x1, y1 = sym.Poison('x1'), sym.Poison('y1')
                r.update(x1=x1, y1=y1)
        r.update(self.acc_havoc(env, k))
        return r

    def any_pen(self):
        return any_pen(self.S)

    def check(self, env, k):
        S = self.S
        want, pen = step(S, self.pen, self.seg.type, list(self.seg.values))
        self.acc_check(env, want, pen)
        S.check_seq('inv-cp', [env['cpx'], env['cpy']], pen.cp)
        S.check_seq('inv-start', [env['start_x'], env['start_y']], pen.start)
        S.check_eq('inv-bearing', env['bearing'], pen.bearing)
        S.check('inv-last', env['last_command'] is not None
                and kind(env['last_command']) == kind(pen.last))
        if self.track_control and family(pen.last) in ('C', 'Q'):
            S.check_seq('inv-control', [env['x1'], env['y1']],
                        lin(pen.cp, 2, pen.ctrl, -1))


def sym_path(S, contract):
    n = S.int('n', lo=1)
    return SymSeq('path', n, contract.elem, contract)


def history(S, types=NOARC, first='Mm', **kw):
    """concrete reading: path data that reaches the drawing state any_pen
    describes (so that counter-models of a loop step can be replayed) and one
    more segment"""
    n = S.int('n', lo=1)
    k = S.int('k!1', lo=0, hi=1)
    if k == 0:
        return [segment(S, 'seg', first)]
    pen, last = any_pen(S, **kw)
    b = pen.bearing
    out = []
    t = math.radians(b)

    def rel(p, q):
        """q seen from p by a relative command"""
        x, y = q[0] - p[0], q[1] - p[1]
        return (x * math.cos(t) + y * math.sin(t),
                -x * math.sin(t) + y * math.cos(t))
    if last in 'Aa':     # any command that leaves no control point
        last = 'L' if last == 'A' else 'l'
    up, start, cp, ctrl = last.upper(), pen.start, pen.cp, pen.ctrl
    if up in 'MZ':
        start = cp
    if up == 'M':
        out = [('M', 3.0, 4.0)] if last == 'm' else []
        if last == 'm':
            out.append(('L', 5.0, 4.0))
    if b != 0:
        out.insert(1 if out else 0, ('B', b))
    if up == 'M':
        if out and out[0][0] == 'B':
            out = [('M', 1.0, 2.0), ('B', b), ('L', 0.0, 1.0)]
        at = out[-1][1:] if out else (0.0, 0.0)
        out.append(('M', *cp) if last == 'M' else ('m', *rel(at, cp)))
    else:
        out.insert(0, ('M', *start))
        p0 = start
        if up == 'Z':
            out += [('L', 8.0, 9.0), (last,)]
        elif up in 'HV':
            p0 = (start[0], cp[1]) if up == 'H' else (cp[0], start[1])
            if last.islower() and b != 0:
                last = 'L'
            if last == 'L':
                out.append(('L', *cp))
            else:
                i = 0 if up == 'H' else 1
                out += [('L', *p0), (last, cp[i] if last.isupper()
                                     else cp[i] - p0[i])]
        else:
            pts = {'L': [cp], 'C': [p0, ctrl, cp], 'S': [ctrl, cp],
                   'Q': [ctrl, cp], 'T': [cp]}[up]
            if up == 'T':
                q = lin(p0, 2, ctrl, -1)
                out.append(('Q', *q, *p0))
            if last.islower():
                pts = [rel(p0, p) for p in pts]
            v = [c for p in pts for c in p]
            out.append((last, *v))
    out = [SVGPathSegment(*x) for x in out]
    out.append(segment(S, 'seg', types))
    return out
