"""S03 - typed style values agree with the style they stand for."""
import tinycss2
from vlib.spec import contract
from svgpy import SVGParser
from svgpy.css import (CSS, CSSKeywordValue, CSSStyleDeclaration,
                       CSSStyleValue, CSSUnitValue, CSSUnparsedValue,
                       CSSVariableReferenceValue, StylePropertyMap,
                       StylePropertyMapReadOnly)

ASSUMPTIONS = [
    'tinycss2 tokenises values as CSS Syntax says',
    'text handling is executed, not proved: the deciding executions are '
    'bounded']
TEXTS = ['a', '1px', ' ', ', ', '"x y"', '#f00', '50%', '+', ' / ', '!b',
         '"var(--q)"', 'b c']
FUNCTIONS = [('f(', ')'), ('rgb(', ')'), ('calc(', ')'), ('variable(', ')'),
             ('url-x(', ')'), ('(', ')'), ('[', ']'), ('{', '}')]
SP = ['', '', ' ', '  ']


def pieces(S, deep, lo=0):
    """-> (text, members) where members are texts and (name, fallback)"""
    r, text, out = S.rng, '', []
    n = r.randint(lo, 4)
    for i in range(n):
        k = r.random()
        if k < .35 and deep:
            name = r.choice(['--a', '--b-c', '--A'])
            if out and isinstance(out[-1], str) and out[-1][-1] not in ')( ]}[{':
                text += ' '
                out.append(' ')
            text += '%s(%s%s%s' % (r.choice(['var', 'var', 'VAR']), r.choice(
                SP), name, r.choice(SP))
            fall = None
            if r.random() < .5:
                t, fall = pieces(S, deep - 1)
                text += ',' + t
            text += ')'
            out.append((name, fall))
        elif k < .55 and deep:
            f, end = r.choice(FUNCTIONS)
            t, m = pieces(S, deep - 1)
            if out and isinstance(out[-1], str) and out[-1][-1] not in ')( ]}[{':
                text += ' '
                out.append(' ')
            text += f + t + end
            out += [f] + m + [end]
        else:
            t = r.choice(TEXTS)
            if out and out[-1] not in (' ', ', '):
                t = ' ' + t
            text += t
            out.append(t)
    return text, merged(out)


def merged(ms):
    out = []
    for m in ms:
        if isinstance(m, str) and out and isinstance(out[-1], str):
            out[-1] += m
        elif m != '':
            out.append(m)
    return out


def same_text(a, b):
    return a.replace('/**/', '') == b.replace('/**/', '')


def agree(S, got, want):
    S.check('unparsed', isinstance(got, CSSUnparsedValue))
    S.check('members', len(got) == got.length == len(want))
    for x, m in zip(got, want):
        if isinstance(m, str):
            S.check('text', isinstance(x, str) and same_text(x, m))
        else:
            S.check('reference', isinstance(x, CSSVariableReferenceValue)
                    and x.variable == m[0])
            S.check('fallback', (x.fallback is None) == (m[1] is None))
            if m[1] is not None:
                agree(S, x.fallback, m[1])


def written(ms):
    return ''.join(m if isinstance(m, str) else 'var(%s%s)' % (
        m[0], '' if m[1] is None else ',' + written(m[1])) for m in ms)


@contract(bounded='random values of up to four components, three deep',
          runs=2500, secs=40)
def references(S):
    """a value with references splits into texts and references, in order"""
    text, want = pieces(S, 3, 1)
    if want and isinstance(want[0], str) and not want[0].strip():
        return
    name = S.rng.choice(['--x', 'fill', 'Width'])
    if not any(not isinstance(m, str) for m in want):
        name = '--x'
    vs = CSSStyleValue.parse_all(name, text)
    S.check('one', len(vs) == 1)
    v = vs[0]
    S.check('css_text', v.tostring() == text)
    agree(S, v, want)
    S.check('again', same_text(CSSUnparsedValue(list(v)).tostring(),
                               written(want)))
    S.check('property', v.associated_property == (
        name if name[0] == '-' else name.lower()))


@contract(bounded='histories of up to ten changes', runs=500, secs=20)
def unparsed_values(S):
    """a value with references is a list that keeps strange members out"""
    r = S.rng
    ok = ['a', ' b ', CSSVariableReferenceValue('--a'),
          CSSVariableReferenceValue('--b', CSSUnparsedValue(['x', ' y']))]
    model = [r.choice(ok) for _ in range(r.randint(0, 3))]
    v = CSSUnparsedValue(list(model))
    for i in range(r.randint(1, 10)):
        op = r.choice(['insert', 'set', 'del', 'append', 'bad', 'slice'])
        x = r.choice(ok)
        j = r.randint(-1, len(model))
        if op == 'insert':
            v.insert(j, x)
            model.insert(j, x)
        elif op == 'append':
            v.append(x)
            model.append(x)
        elif op == 'slice':
            v[j:] = [x, x]
            model[j:] = [x, x]
        elif op == 'bad':
            k = r.choice([0, 1, 2])
            bad = r.choice([1, None, ['a'], CSS.px(1)])
            try:
                if k == 0:
                    v.append(bad)
                elif k == 1:
                    v.insert(j, bad)
                else:
                    v[0:1] = ['a', bad]
                S.check('refused', False)
            except TypeError:
                pass
        elif model and op == 'set':
            j %= len(model)
            v[j] = x
            model[j] = x
        elif model and op == 'del':
            j %= len(model)
            del v[j]
            del model[j]
        S.check('list', list(v) == model and len(v) == v.length
                == len(model))
        S.check('text', v.tostring() == ''.join(
            m if isinstance(m, str) else m.tostring() for m in model))


# property -> values: (text, kind, what it holds)
WIDE = [(k, 'keyword', k) for k in ('inherit', 'initial', 'unset')]
LENGTHS = [('1px', 'unit', (1, 'px')), ('2.5em', 'unit', (2.5, 'em')),
           ('-3mm', 'unit', (-3, 'mm')), ('25%', 'unit', (25, 'percent')),
           ('1e2px', 'unit', (100, 'px'))]
VALUES = {
    'stroke-width': LENGTHS + WIDE, 'stroke-dashoffset': LENGTHS + WIDE,
    'x': LENGTHS[:4] + WIDE, 'cx': LENGTHS[:4] + WIDE, 'r': LENGTHS[:2],
    'letter-spacing': LENGTHS[:2] + [('normal', 'keyword', 'normal')] + WIDE,
    'stroke-miterlimit': [('4', 'unit', (4, 'number')),
                          ('1.5', 'unit', (1.5, 'number'))] + WIDE,
    'fill': [('none', 'keyword', 'none'), ('red', 'keyword', 'red'),
             ('currentColor', 'keyword', None)] + WIDE,
    'fill-rule': [('nonzero', 'keyword', 'nonzero'),
                  ('evenodd', 'keyword', 'evenodd')] + WIDE,
    'text-anchor': [('middle', 'keyword', 'middle')] + WIDE,
    'visibility': [('hidden', 'keyword', 'hidden')] + WIDE,
    'stroke-linejoin': [('bevel', 'keyword', 'bevel')] + WIDE,
}
NAMES = sorted(VALUES)


def right(S, v, text, kind, what):
    if kind == 'unit':
        S.check('unit', isinstance(v, CSSUnitValue))
        S.check('amount', (v.value, v.unit) == what)
    else:
        S.check('keyword', isinstance(v, CSSKeywordValue))
        S.check('name', what is None or v.value == what)
    S.check('written', v.tostring().lower() == text.lower())


@contract(bounded='every listed value of every listed property in both '
          'cases', runs=1, secs=30)
def values(S):
    """a value of a property reads as the type CSS Typed OM names"""
    for name in NAMES:
        for text, kind, what in VALUES[name]:
            for n in (name, name.upper()):
                vs = CSSStyleValue.parse_all(n, text)
                S.check('one', len(vs) == 1)
                right(S, vs[0], text, kind, what)
                right(S, CSSStyleValue.parse(n, text), text, kind, what)
                S.check('property', vs[0].associated_property == name)
        for text in ('1px inherit', 'initial 1px', ')', ''):
            try:
                vs = CSSStyleValue.parse_all(name, text)
                S.check('refused', vs == [] and text == '')
            except ValueError:
                pass


@contract(bounded='histories of up to ten changes of a style map',
          runs=1200, secs=60)
def maps(S):
    """a style map against a dict, over a declaration block or an element"""
    r = S.rng
    e = None
    if r.random() < .5:
        e = SVGParser().fromstring('<svg xmlns="http://www.w3.org/2000/svg">'
                                   '<rect/></svg>')[0]
        block = e.style
    else:
        block = CSSStyleDeclaration()
    m = StylePropertyMap(block)
    view = StylePropertyMapReadOnly(block)
    model = {}
    for i in range(r.randint(1, 10)):
        name = r.choice(NAMES + ['--x'])
        n = name.upper() if r.random() < .2 and name[0] != '-' else name
        op = r.choice(['set', 'set', 'item', 'delete', 'del', 'block',
                       'typed', 'wrong'])
        if name == '--x':
            entry = r.choice(['a  b', '1px', 'var(--y)'])
            text = entry
        else:
            entry = r.choice(VALUES[name])
            text = entry[0]
        if op in ('set', 'item'):
            if op == 'set':
                m.set(n, text)
            else:
                m[n] = text
            model[name] = entry
        elif op == 'typed':
            v = CSSStyleValue.parse(name, text)
            m.set(n, v)
            model[name] = entry
            other = [x for x in NAMES if x != name]
            try:
                m.set(r.choice(other), v)
                S.check('other property', False)
            except ValueError:
                pass
        elif op == 'wrong':
            try:
                m.set(n, r.choice([1, None, ['red']]))
                S.check('wrong type', False)
            except TypeError:
                pass
        elif op == 'block':
            block.set_property(name, text)
            model[name] = entry
        elif op == 'delete':
            m.delete(n)
            model.pop(name, None)
        elif n in m.keys():
            del m[n]
            model.pop(name, None)
        S.check('names', sorted(m.keys()) == sorted(m) == sorted(model))
        S.check('size', m.size == len(m) == view.size == len(model))
        for name in NAMES + ['--x', 'opacity']:
            q = r.choice([name, name.upper()]) if name[0] != '-' else name
            S.check('has', m.has(q) == view.has(q) == (name in model))
            S.check('contains', (q in m) == (q in view) == (name in model))
            if name not in model:
                S.check('absent', m.get(q) is None and m.get_all(q) == [])
                continue
            for x in (m.get(q), view.get(q), m.get_all(q)[0],
                      view.get_all(q)[0]):
                if name == '--x':
                    S.check('custom', same_text(x.tostring(), model[name])
                            or ' '.join(x.tostring().split())
                            == ' '.join(model[name].split()))
                else:
                    right(S, x, *model[name])
            S.check('one', len(m.get_all(q)) == 1)
        if e is not None:
            f = SVGParser().fromstring(
                '<svg xmlns="http://www.w3.org/2000/svg"><rect/></svg>')[0]
            f.set('style', e.get('style') or '')
            S.check('attribute', sorted(k for k in f.style if k[0] != '-')
                    == sorted(k for k in model if k[0] != '-'))
