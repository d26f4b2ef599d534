"""C03 - the text of numeric expressions."""
from fractions import Fraction as F
import tinycss2
from vlib import sym
from vlib.spec import contract
import svgpy.css.types as T
from svgpy.css.types import *
from typed import CATEGORY

ASSUMPTIONS = [
    'tinycss2 is trusted to tokenise',
    'the numbers of an expression are the numbers of its tokens, read as '
    'mathematical reals; a number is written with up to 28 digits',
    'calc-sized trees: every shape of up to four operators and one group is '
    'taken, with symbolic numbers; deeper texts are executed (bounded)']


# ---- what a tree means ---------------------------------------------------

def meaning(S, v, size):
    """value of a tree for the given sizes of the units"""
    if isinstance(v, CSSUnitValue):
        return (v.value if S.symbolic else float(v.value)) * size[v.unit]
    if isinstance(v, CSSMathNegate):
        return -meaning(S, v.value, size)
    if isinstance(v, CSSMathInvert):
        return 1 / meaning(S, v.value, size)
    if isinstance(v, CSSMathClamp):
        return S.max(meaning(S, v.min, size),
                     S.min(meaning(S, v.val, size),
                           meaning(S, v.max, size)))
    xs = [meaning(S, x, size) for x in v.values]
    if isinstance(v, CSSMathMin):
        return least(S, xs, S.min)
    if isinstance(v, CSSMathMax):
        return least(S, xs, S.max)
    if isinstance(v, CSSMathSum):
        return sum(xs[1:], xs[0])
    if isinstance(v, CSSMathProduct):
        r = xs[0]
        for x in xs[1:]:
            r = r * x
        return r
    raise sym.Unsupported('unknown kind of value %r' % type(v))


def least(S, xs, f):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


# ---- every short expression, with symbolic numbers ------------------------

class Tokens(object):
    """tinycss2 whose i-th number has the value given"""

    def __init__(self, values):
        self.values, self.calls = values, 0

    def __getattr__(self, name):
        raise sym.Unsupported('tinycss2.' + name)

    def parse_one_component_value(self, text, skip_comments=False):
        self.calls += 1
        t = tinycss2.parse_one_component_value(text, skip_comments)
        self.number(t)
        return t

    def number(self, t):
        if t.type in ('number', 'dimension', 'percentage'):
            t.value = self.values[int(t.value) - 101]
            t.int_value = t.representation = None
        for x in (getattr(t, 'arguments', None)
                  or getattr(t, 'content', None) or []):
            self.number(x)


def write(x):
    return ('%r' % float(x)) if not isinstance(x, int) else '%d' % x


class Text(object):
    """an expression being written"""

    def __init__(self, S):
        self.S, self.values = S, []

    def number(self, value, unit=''):
        self.values.append(value)
        n = len(self.values)
        if self.S.symbolic:
            return '%d%s' % (100 + n, unit)
        return ('%.12f' % value) + unit

    def read(self, text):
        if not self.S.symbolic:
            return CSSNumericValue.parse(text)
        fake, old = Tokens(self.values), T.tinycss2
        T.tinycss2 = fake
        try:
            r = CSSNumericValue.parse(text)
        finally:
            T.tinycss2 = old
        if fake.calls != 1:
            raise sym.Unsupported('the text is read otherwise')
        return r


UNIT = {'px': 'px', '': 'number', '%': 'percent', 'em': 'em'}


def chain(S, t, name, n, unit='px', size=None):
    """n operators between n + 1 numbers: (text, value, is it a product)"""
    ops = [S.choice('%s.op%d' % (name, i), ['+', '-', '*', '/'])
           for i in range(n)]
    text, total, sign, prod = '', None, 1, None
    for i in range(n + 1):
        op = '+' if i == 0 else ops[i - 1]
        x = S.real('%s.n%d' % (name, i), -50, 50)
        if op in '+-':
            if prod is not None:
                total = prod if total is None else total + prod
            if i:
                text += ' %s ' % op
            text += t.number(x, unit)
            prod = x if op == '+' else -x
        else:
            if op == '/':
                S.assume(S.or_(x >= F(1, 100), x <= F(-1, 100)))
            text += S.choice('%s.space' % name, [' %s ', '%s']) % op \
                + t.number(x)
            prod = prod * x if op == '*' else prod / x
    return text, prod if total is None else total + prod


SIZE = {'px': 1, 'number': 1}


@contract(finite='expressions of up to four operators without groups',
          max_paths=6000)
def precedence(S):
    """multiplication before addition, equal operators from the left"""
    t = Text(S)
    s, want = chain(S, t, 'a', S.choice('operators', [0, 1, 2, 3, 4]))
    s = 'calc(%s)' % s
    v = t.read(s)
    S.check_eq('value', meaning(S, v, SIZE), want)
    S.check('kept', v.tostring() == s)


@contract(finite='one group of up to two operators within up to two',
          max_paths=9000)
def grouped(S):
    """a group is one operand, wherever it stands"""
    t = Text(S)
    k = S.choice('operators', [1, 2])
    at = S.choice('at', list(range(k + 1)))
    kind = S.choice('kind', ['()', 'calc', 'min', 'max', 'clamp'])
    m = S.choice('inner', [0, 1, 2] if kind in ('()', 'calc') else [1])
    ops = [S.choice('op%d' % i, ['+', '-', '*', '/']) for i in range(k)]
    scalar = at > 0 and ops[at - 1] in '*/'
    u = '' if scalar else 'px'
    text, total, prod = '', None, None
    for i in range(k + 1):
        op = '+' if i == 0 else ops[i - 1]
        if i and op in '+-':
            total = prod if total is None else total + prod
        if i:
            text += ' %s ' % op
        unit = '' if op in '*/' and i else 'px'
        if i != at:
            x = S.real('n%d' % i, -50, 50)
            text += t.number(x, unit)
        else:
            g, x = chain(S, t, 'g', m, unit)
            if kind == 'calc':
                g = 'calc(%s)' % g
            elif kind == '()':
                g = '(%s)' % g
            else:
                y = S.real('g.y', -50, 50)
                g = '%s, %s' % (g, t.number(y, unit))
                if kind == 'clamp':
                    z = S.real('g.z', -50, 50)
                    g += ', %s' % t.number(z, unit)
                    x = S.max(x, S.min(y, z))
                else:
                    x = (S.min if kind == 'min' else S.max)(x, y)
                g = '%s(%s)' % (kind, g)
            text += g
        if i and op == '/':
            S.assume(S.or_(x >= F(1, 100), x <= F(-1, 100)))
        prod = x if i == 0 or op == '+' else -x if op == '-' else \
            prod * x if op == '*' else prod / x
    text = 'calc(%s)' % text
    v = t.read(text)
    S.check_eq('value', meaning(S, v, SIZE),
               prod if total is None else total + prod)
    S.check('kept', v.tostring() == text)


@contract(finite='functions of up to three arguments of up to two operators',
          max_paths=9000)
def functions(S):
    """every argument is an expression of its own"""
    t = Text(S)
    kind = S.choice('kind', ['min', 'max', 'clamp'])
    n = 3 if kind == 'clamp' else S.choice('arguments', [1, 2, 3])
    at = S.choice('at', list(range(n)))
    sep = S.choice('separator', [',', ', ', ' , '])
    args = [chain(S, t, 'a%d' % i, S.choice('m', [1, 2]) if i == at else 0)
            for i in range(n)]
    text = '%s(%s)' % (kind, sep.join(a for a, x in args))
    xs = [x for a, x in args]
    want = S.max(xs[0], S.min(xs[1], xs[2])) if kind == 'clamp' else \
        least(S, xs, S.min if kind == 'min' else S.max)
    v = t.read(text)
    S.check('kind', isinstance(v, {'min': CSSMathMin, 'max': CSSMathMax,
                                   'clamp': CSSMathClamp}[kind]))
    S.check_eq('value', meaning(S, v, SIZE), want)
    S.check('kept', v.tostring() == text)


# ---- deep expressions ----------------------------------------------------

FAMILY = {'length': ['px', 'em', 'mm', '%', 'PX', 'Rem', 'vw', 'q'],
          'angle': ['deg', 'rad', 'Turn'], 'time': ['s', 'ms', 'S']}


def unit_name(u):
    return 'percent' if u == '%' else 'number' if u == '' else u.lower()


class Random(object):
    def __init__(self, S):
        self.r = S.rng
        self.size = {u: self.r.choice([0.25, 0.5, 1.5, 3.0, 7.0])
                     for u in CATEGORY}
        self.size['number'] = 1

    def space(self, must=False):
        xs = [' ', '  ', '\n', ' /* x + 1 */ ', '\t']
        return self.r.choice(xs if must else xs + [''] * 4)

    def number(self, kind, positive=False):
        r = self.r
        u = r.choice(FAMILY[kind]) if kind else ''
        n = r.choice([r.randint(1, 20), r.randint(1, 2000) / 100,
                      r.randint(1, 99) / 1000])
        s = r.choice(['%r', '%r', '+%r']) % n
        if s.startswith('0.') and r.random() < .5:
            s = s[1:]
        if not positive and r.random() < .3:
            n, s = -n, '-%r' % n
        if u.lower() != 'em' and r.random() < .1:
            s += 'e1'
            n *= 10
        return s + u, n * self.size[unit_name(u)]

    def item(self, kind, deep, positive=False):
        r = self.r
        if deep <= 0 or r.random() < .4:
            return self.number(kind, positive)
        k = r.choice(['(', '(', 'calc', 'min', 'max', 'clamp', 'CALC',
                      'Max'])
        sp = self.space
        if k == '(' or k.lower() == 'calc':
            s, x = self.sum(kind, deep - 1, positive)
            return (k if k != '(' else '') + '(' + sp() + s + sp() + ')', x
        n = 3 if k == 'clamp' else r.randint(1, 4)
        xs = [self.sum(kind, deep - 1, positive) for _ in range(n)]
        s = '%s(%s)' % (k, ','.join(sp() + a + sp() for a, x in xs))
        v = [x for a, x in xs]
        return s, max(v[0], min(v[1], v[2])) if k == 'clamp' else (
            min if k == 'min' else max)(v)

    def product(self, kind, deep, positive=False):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        at = r.randrange(n)
        s, x = '', 1
        for i in range(n):
            op = '*' if i == 0 or i == at or r.random() < .5 else '/'
            a, v = self.item(kind if i == at else None, deep,
                             positive or op == '/')
            if i:
                s += self.space() + op + self.space()
            s += a
            x = x * v if op == '*' else x / v
        return s, x

    def sum(self, kind, deep, positive=False):
        r = self.r
        s, x = self.product(kind, deep, positive)
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            a, v = self.product(kind, deep, positive)
            op = '+' if positive else r.choice('+-')
            s += self.space(True) + op + self.space(True) + a
            x = x + v if op == '+' else x - v
        return s, x


def same(S, label, v, size, want):
    got = meaning(S, v, size)
    S.check(label, abs(got - want) <= 1e-6 * max(1, abs(want), scale(
        v, size)))


def scale(v, size):
    """largest magnitude within the tree"""
    if isinstance(v, CSSUnitValue):
        return abs(float(v.value) * size[v.unit])
    if isinstance(v, (CSSMathNegate, CSSMathInvert)):
        return scale(v.value, size)
    if isinstance(v, CSSMathClamp):
        return max(scale(x, size) for x in (v.min, v.val, v.max))
    xs = [max(1, scale(x, size)) for x in v.values]
    if isinstance(v, CSSMathProduct):
        r = 1
        for x in xs:
            r *= x
        return r
    return max(xs)


def bare(v):
    """the same tree without the text it was read from"""
    if isinstance(v, CSSUnitValue):
        return CSSUnitValue(v.value, v.unit)
    if isinstance(v, (CSSMathNegate, CSSMathInvert)):
        return type(v)(bare(v.value))
    if isinstance(v, CSSMathClamp):
        return CSSMathClamp(bare(v.min), bare(v.val), bare(v.max))
    return type(v)(*[bare(x) for x in v.values])


def writable(v):
    """no negation stands where only -(...) or --1px could be written"""
    if isinstance(v, CSSUnitValue):
        return True
    if isinstance(v, CSSMathNegate):
        return isinstance(v.value, CSSUnitValue) and v.value.value > 0
    if isinstance(v, CSSMathInvert):
        return writable(v.value)
    if isinstance(v, CSSMathClamp):
        return writable(v.min) and writable(v.val) and writable(v.max)
    return all(writable(x.value if i and isinstance(v, CSSMathSum)
                        and isinstance(x, CSSMathNegate) else x)
               for i, x in enumerate(v.values))


@contract(bounded='random expressions nested up to three deep', runs=700,
          secs=60)
def deep(S):
    """value of a text; the tree written back means the same"""
    g = Random(S)
    kind = S.rng.choice(['length', 'length', 'angle', 'time', None])
    s, want = g.sum(kind, S.rng.choice([0, 1, 2, 3]))
    s = S.rng.choice(['calc', 'Calc']) + '(' + s + ')'
    if S.rng.random() < .2:
        s, want = g.item(kind, 3)
        if s.startswith('('):
            s = 'calc%s' % s
    v = CSSNumericValue.parse(s)
    same(S, 'value', v, g.size, want)
    S.check('kept', v.tostring() == s)
    w = bare(v)
    same(S, 'tree', w, g.size, want)
    S.check('type', {k: p for k, p in w.type().items() if k != 'percentHint'}
            == {k: p for k, p in v.type().items() if k != 'percentHint'})
    if writable(w):
        text = w.tostring()
        x = CSSNumericValue.parse(text)
        same(S, 'written', x, g.size, want)
        S.check('same-type', x.type() == w.type())
    if kind == 'length' and not isinstance(v, CSSUnitValue):
        y = CSSStyleValue.parse('width', s)
        S.check('as-property', isinstance(y, CSSNumericValue))
        same(S, 'property-value', y, g.size, want)
        S.check('property-text', y.tostring() == s)


def build(g, kind, deep, positive=False):
    """-> (random tree, value)"""
    r = g.r
    k = r.choice(['unit', 'sum', 'product', 'min', 'max', 'clamp', 'negate',
                  'invert']) if deep else 'unit'
    if k == 'negate' and positive or k == 'invert' and kind:
        k = 'unit'
    if k == 'unit':
        u = r.choice(FAMILY[kind]) if kind else 'number'
        n = r.choice([r.randint(1, 20), r.randint(1, 2000) / 100])
        if not positive and r.random() < .2:
            n = -n
        u = unit_name(u)
        return CSSUnitValue(n, u), n * g.size[u]
    if k == 'negate':
        v, x = build(g, kind, deep - 1)
        return CSSMathNegate(v), -x
    if k == 'invert':
        v, x = build(g, None, deep - 1, True)
        return CSSMathInvert(v), 1 / x
    if k == 'product':
        n = r.choice([1, 2, 3])
        at = r.randrange(n)
        vs, x = [], 1
        for i in range(n):
            if i == at or r.random() < .5:
                v, y = build(g, kind if i == at else None, deep - 1, positive)
            else:
                v, y = build(g, None, deep - 1, True)
                v, y = CSSMathInvert(v), 1 / y
            vs.append(v)
            x = x * y
        return CSSMathProduct(*vs), x
    n = 3 if k == 'clamp' else r.choice([1, 2, 3])
    items = [build(g, kind, deep - 1, positive) for _ in range(n)]
    xs = [x for v, x in items]
    cls = {'sum': CSSMathSum, 'min': CSSMathMin, 'max': CSSMathMax,
           'clamp': CSSMathClamp}[k]
    return cls(*[v for v, x in items]), \
        sum(xs) if k == 'sum' else min(xs) if k == 'min' else max(xs) \
        if k == 'max' else max(xs[0], min(xs[1], xs[2]))


@contract(bounded='random trees up to three deep', runs=800, secs=30)
def written(S):
    """a tree is written as what it is"""
    g = Random(S)
    while True:
        v, want = build(g, S.rng.choice(['length', 'angle', 'time', None]),
                        S.rng.choice([1, 2, 3]))
        if writable(v):
            break
    same(S, 'value', v, g.size, want)
    text = v.tostring()
    x = CSSNumericValue.parse(text)
    same(S, 'written', x, g.size, want)
    S.check('type', x.type() == v.type())
    S.check('again', v.tostring() == text)


# ---- texts that are none -------------------------------------------------

WRONG = ['', ' ', 'auto', 'foo(1px)', '"1px"', '#123', '1px 2px', '1px,',
         'calc()', 'calc( )', 'min()', 'clamp()', '()']


@contract(bounded='random expressions damaged at one place', runs=500,
          secs=30)
def malformed(S):
    """a text that is no expression is refused"""
    r = S.rng
    if r.random() < .2:
        s = r.choice(WRONG)
    else:
        g = Random(S)
        a, x = g.sum('length', r.choice([0, 1]))
        b, y = g.sum('length', 0)
        n, z = g.number(None)
        s = r.choice([
            lambda: 'calc(%s %s)' % (a, n.lstrip('+-') + 'px'),
            lambda: 'calc(%s + )' % a, lambda: 'calc(%s - )' % a,
            lambda: 'calc(* %s)' % a, lambda: 'calc(/ %s)' % a,
            lambda: 'calc(%s *)' % a, lambda: 'calc(%s /)' % a,
            lambda: 'calc(%s, %s)' % (a, b),
            lambda: 'calc(%s + + %s)' % (a, b.lstrip('+-')),
            lambda: 'calc(%s * * %s)' % (a, n),
            lambda: 'calc(%s + * %s)' % (a, n),
            lambda: 'calc(%s + auto)' % a,
            lambda: 'calc(auto * %s)' % n,
            lambda: 'calc(%s + "2px")' % a,
            lambda: 'calc(%s ; %s)' % (a, b),
            lambda: 'calc(%s %% 2)' % a,
            lambda: 'calc(%s + [1px])' % a,
            lambda: 'calc((%s) (%s))' % (a, b),
            lambda: 'calc(%s + ())' % a,
            lambda: 'calc(%s + foo(1px))' % a,
            lambda: 'min(%s,)' % a, lambda: 'max(,%s)' % a,
            lambda: 'min(%s,,%s)' % (a, b),
            lambda: 'min(%s %s)' % (a, n.lstrip('+-') + 'px'),
            lambda: 'clamp(%s, %s)' % (a, b),
            lambda: 'clamp(%s)' % a,
            lambda: 'clamp(%s, %s, %s, %s)' % (a, b, a, b),
            lambda: 'min(1px, calc(%s +))' % a,
            lambda: 'calc(%s)x' % a, lambda: 'calc(%s) 1px' % a])()
    v, e = S.raises(lambda: CSSNumericValue.parse(s), ValueError)
    S.check('refused', e is not None)


@contract(bounded='random sums of different kinds', runs=200, secs=20)
def incompatible(S):
    """lengths, times and angles do not add up"""
    g = Random(S)
    a, b = S.rng.sample(['length', 'angle', 'time', None], 2)
    deep_ = S.rng.choice([0, 1])
    while True:
        s, x = g.sum(a, deep_)
        t, y = g.sum(b, deep_)
        if '%' not in s + t:
            break
    f = S.rng.choice(['calc(%s + (%s))', 'calc(%s - (%s))', 'min(%s, %s)',
                      'max(%s, %s)', 'clamp(%s, %s, 1px)'])
    s = f % (s, t)
    v, e = S.raises(lambda: CSSNumericValue.parse(s), TypeError, ValueError)
    S.check('refused', e is not None)
