"""S01 - declarations, shorthands and longhands."""
from vlib.spec import contract
from svgpy.css import CSSStyleDeclaration
from svgpy.css.shorthands import get_longhand_list

ASSUMPTIONS = [
    'values are valid for their property (the code is no validator)',
    'tinycss2 parses and serialises component values as CSS Syntax says',
    'histories and value combinations are bounded executions']
WIDE = ['inherit', 'initial', 'unset', 'revert']
INITIAL = {
    'font-style': 'normal', 'font-weight': 'normal',
    'font-stretch': 'normal', 'font-size': 'medium', 'line-height': 'normal',
    'font-variant-ligatures': 'normal', 'font-variant-caps': 'normal',
    'font-variant-alternates': 'normal', 'font-variant-numeric': 'normal',
    'font-variant-east-asian': 'normal', 'font-variant-position': 'normal',
}
NAMES = {k: get_longhand_list(k) for k in (
    'font', 'font-synthesis', 'font-variant', 'mask', 'mask-border',
    'overflow', 'text-decoration', 'white-space')}
POOL = {
    'text-decoration-line': ['underline', 'overline', 'line-through', 'none',
                             'underline overline',
                             'underline overline line-through'],
    'text-decoration-style': ['solid', 'double', 'dotted', 'dashed', 'wavy'],
    'text-decoration-color': ['red', '#00ff00', 'rgb(1,2,3)', 'currentcolor',
                              'transparent'],
    'overflow-x': ['visible', 'hidden', 'scroll', 'auto', 'clip'],
    'font-variant-ligatures': ['no-common-ligatures',
                               'discretionary-ligatures historical-ligatures',
                               'common-ligatures contextual'],
    'font-variant-caps': ['small-caps', 'all-small-caps', 'unicase'],
    'font-variant-alternates': ['historical-forms'],
    'font-variant-numeric': ['lining-nums', 'oldstyle-nums slashed-zero',
                             'tabular-nums diagonal-fractions ordinal'],
    'font-variant-east-asian': ['jis78', 'simplified full-width', 'ruby'],
    'font-variant-position': ['sub', 'super'],
    'font-style': ['italic', 'oblique'],
    'font-weight': ['bold', '100', '900', 'lighter'],
    'font-stretch': ['condensed', 'expanded', 'ultra-condensed'],
    'font-size': ['12px', 'x-large', '120%', '1.5em'],
    'line-height': ['14px', '1.2', '150%'],
    'font-family': ['serif', 'Arial', '"A b", serif', 'Arial, sans-serif',
                    'New Font, fantasy'],
    'mask-image': ['url("#m")', 'url("a.svg#m")', 'none'],
    'mask-position': ['left', '10px 20px', 'right 10% top 5px', 'center'],
    'mask-size': ['cover', '10px', '10px 50%', 'auto'],
    'mask-repeat': ['repeat-x', 'no-repeat', 'space round'],
    'mask-composite': ['subtract', 'add', 'exclude'],
    'mask-mode': ['alpha', 'luminance', 'match-source'],
    'mask-border-source': ['url("#m")', 'url("a.svg")'],
    'mask-border-slice': ['1', '10%', '1 2 3 4', '5 fill', '1 2 fill'],
    'mask-border-width': ['10px', 'auto', '1 2', '10% 2px'],
    'mask-border-outset': ['1px', '2', '1px 2'],
    'mask-border-repeat': ['stretch', 'round space', 'repeat'],
    'mask-border-mode': ['alpha', 'luminance'],
}


def maybe(S, name):
    if S.choice(name + '?', [True, False]):
        return S.choice(name, POOL[name])
    return None


def shuffle(S, xs):
    xs = list(xs)
    out = []
    while xs:
        out.append(xs.pop(S.choice('order', list(range(len(xs))))))
    return out


def value(S, sh):
    """text for a shorthand and the longhands it should set (None: initial)"""
    if S.choice('wide', [True] + [False] * 9):
        w = S.choice('keyword', WIDE)
        return w, dict.fromkeys(NAMES[sh], w)
    want = dict.fromkeys(NAMES[sh])
    if sh == 'white-space':
        t = S.choice('ws', ['normal', 'pre', 'nowrap', 'pre-wrap',
                            'pre-line'])
        a, b = {'normal': ('collapse', 'wrap'), 'pre': ('preserve', 'nowrap'),
                'nowrap': ('collapse', 'nowrap'),
                'pre-wrap': ('preserve', 'wrap'),
                'pre-line': ('preserve-breaks', 'wrap')}[t]
        return t, {'text-space-collapse': a, 'text-wrap': b,
                   'text-space-trim': 'none'}
    if sh == 'overflow':
        x = S.choice('overflow-x', POOL['overflow-x'])
        y = S.choice('overflow-y', [None] + POOL['overflow-x'])
        return (x if y is None else x + ' ' + y), {
            'overflow-x': x, 'overflow-y': x if y is None else y}
    if sh == 'font-synthesis':
        t = S.choice('synthesis', ['none', 'weight', 'style', 'weight style',
                                   'style weight'])
        return t, {'font-synthesis-' + k: 'auto' if k in t else 'none'
                   for k in ('weight', 'style')}
    if sh == 'font-variant':
        t = S.choice('variant', ['normal', 'none', 'x', 'x', 'x'])
        if t == 'none':
            want['font-variant-ligatures'] = 'none'
        if t != 'x':
            return t, want
        names = NAMES[sh]
    elif sh == 'text-decoration':
        names = NAMES[sh]
    elif sh == 'font':
        t = S.choice('font', ['full', 'full', 'system'])
        for k in ('font-style', 'font-weight', 'font-stretch'):
            want[k] = maybe(S, k)
        want['font-variant-caps'] = S.choice('caps', [None, 'small-caps'])
        head = [want[k] or S.choice('normal', ['', '', 'normal'])
                for k in ('font-style', 'font-weight', 'font-stretch',
                          'font-variant-caps')]
        head = shuffle(S, [x for x in head if x])
        size = want['font-size'] = S.choice('font-size', POOL['font-size'])
        line = want['line-height'] = maybe(S, 'line-height')
        fam = want['font-family'] = S.choice('font-family',
                                             POOL['font-family'])
        if line:
            size += S.choice('solidus', ['/', ' / ']) + line
        return ' '.join(head + [size, fam]), want
    elif sh == 'mask':
        parts = []
        for k in ('mask-image', 'mask-position', 'mask-repeat',
                  'mask-composite', 'mask-mode'):
            want[k] = maybe(S, k)
            t = want[k]
            if k == 'mask-position' and t:
                want['mask-size'] = maybe(S, 'mask-size')
                if want['mask-size']:
                    t += ' / ' + want['mask-size']
            if t:
                parts.append(t)
        box = S.choice('box', [None, ('border-box',),
                               ('content-box', 'padding-box')])
        if box:
            want['mask-origin'], want['mask-clip'] = box[0], box[-1]
            parts.append(' '.join(box))
        S.assume(parts)
        return ' '.join(shuffle(S, parts)), want
    else:
        parts = []
        for k in ('mask-border-source', 'mask-border-slice',
                  'mask-border-repeat', 'mask-border-mode'):
            t = want[k] = maybe(S, k)
            if k == 'mask-border-slice' and t:
                w = want['mask-border-width'] = maybe(S, 'mask-border-width')
                if w:
                    t += ' / ' + w
                    o = want['mask-border-outset'] = maybe(
                        S, 'mask-border-outset')
                    if o:
                        t += ' / ' + o
            if t:
                parts.append(t)
        S.assume(parts)
        return ' '.join(shuffle(S, parts)), want
    for k in names:
        want[k] = maybe(S, k)
    parts = shuffle(S, [want[k] for k in names if want[k]])
    S.assume(parts)
    return ' '.join(parts), want


def same(name, got, want):
    if want is None:
        return got in ('initial', INITIAL.get(name, 'initial'))
    return got.split() == want.split() or (
        got.replace(' ', '') == want.replace(' ', ''))


def longs(d, sh):
    return {k: (d.get_property_value(k), d.get_property_priority(k))
            for k in NAMES[sh]}


@contract(bounded=True, runs=3000, secs=60)
def expansion(S):
    """bounded: a shorthand sets all its longhands, and reads back"""
    sh = S.choice('shorthand', sorted(NAMES))
    d = CSSStyleDeclaration()
    other = 'fill'
    d.set_property(other, 'red', 'important')
    t, want = value(S, sh)
    pr = S.choice('priority', ['', 'important'])
    if S.choice('before', [False, True]):
        d.set_property(S.choice('long', NAMES[sh]), 'inherit', '')
    d.set_property(sh, t, pr)
    for k in NAMES[sh]:
        v = d.get_property_value(k)
        S.check('sets', same(k, v, want[k]))
        S.check('priority', d.get_property_priority(k) == pr)
    S.check('all', set(d) == set(NAMES[sh]) | {other}
            and len(d) == len(NAMES[sh]) + 1)
    S.check('shorthand-priority', d.get_property_priority(sh) == pr)
    back = d.get_property_value(sh)
    S.check('readable', back != '')
    e = CSSStyleDeclaration()
    e.set_property(sh, back, pr)
    a, b = longs(d, sh), longs(e, sh)
    S.check('reads-back', all(
        a[k] == b[k] or same(k, a[k][0], None) and same(k, b[k][0], None)
        for k in a))
    S.check('fixpoint', e.get_property_value(sh) == back)
    S.check('removed-value', d.remove_property(sh) == back)
    S.check('removes', list(d) == [other]
            and all(d.get_property_value(k) == '' for k in NAMES[sh] + [sh])
            and d.get_property_value(other) == 'red'
            and d.get_property_priority(other) == 'important')


LONG = {
    'font-style': ['normal', 'italic', 'oblique'],
    'font-weight': ['normal', 'bold', '300'],
    'font-stretch': ['normal', 'condensed', '75%'],
    'font-size': ['medium', '12px', '150%'],
    'line-height': ['normal', '1.5', '20px'],
    'font-family': ['sans-serif', 'Arial, serif'],
    'font-synthesis-weight': ['auto', 'none'],
    'font-synthesis-style': ['auto', 'none'],
    'mask-origin': ['border-box', 'content-box'],
    'mask-clip': ['border-box', 'padding-box', 'content-box'],
    'overflow-y': POOL['overflow-x'],
    'text-space-collapse': ['collapse', 'preserve', 'preserve-breaks'],
    'text-wrap': ['wrap', 'nowrap'],
    'text-space-trim': ['none', 'trim-inner'],
}
PLAIN = {'fill': ['red', 'none', 'url("#p") blue'], 'opacity': ['0', '.5'],
         'stroke-width': ['2px', '10%'], '--x': ['1', 'a b', 'RED'],
         'font-kerning': ['auto', 'none'], 'mask-type': ['alpha']}


def pool(k):
    xs = LONG.get(k) or POOL.get(k) or PLAIN.get(k)
    if k in NAMES['font-variant']:
        xs = ['normal'] + xs
    return xs + (WIDE[:3] if k != '--x' else [])


def reads(S, d, sh):
    """the shorthand's text is nothing, or sets the same longhands"""
    t = d.get_property_value(sh)
    have = [k for k in NAMES[sh] if k in d]
    prs = {d.get_property_priority(k) for k in have}
    if len(have) in (0, len(NAMES[sh])):
        S.check('priority', d.get_property_priority(sh)
                == (prs.pop() if len(prs) == 1 else ''))
    S.check('reads-contained', sh not in d)
    if t == '':
        return
    S.check('reads-complete', len(have) == len(NAMES[sh]))
    e = CSSStyleDeclaration()
    e.set_property(sh, t)
    for k in NAMES[sh]:
        a, b = d.get_property_value(k), e.get_property_value(k)
        S.check('reads-back', same(k, a, b) or default(k, a)
                and default(k, b))


DEFAULT = dict(INITIAL)
DEFAULT.update({'font-family': 'sans-serif', 'mask-image': 'none',
                'mask-repeat': 'repeat', 'mask-composite': 'add',
                'mask-mode': 'match-source', 'mask-size': 'auto',
                'mask-origin': 'border-box', 'mask-clip': 'border-box',
                'mask-border-width': 'auto',
                'mask-border-repeat': 'stretch', 'mask-border-mode': 'alpha',
                'text-decoration-line': 'none',
                'text-decoration-style': 'solid',
                'text-decoration-color': 'currentcolor',
                'overflow-x': 'visible', 'overflow-y': 'visible'})


def default(k, v):
    return v in ('initial', DEFAULT.get(k, 'initial'))


@contract(bounded=True, runs=4000, secs=60)
def histories(S):
    """bounded: up to twelve changes of one declaration block"""
    d = CSSStyleDeclaration()
    want = {}
    groups = S.choice('groups', [['font', 'font-variant'],
                                 ['mask', 'mask-border'],
                                 ['text-decoration', 'overflow'],
                                 ['white-space', 'font-synthesis']])
    longhands = sorted(set(NAMES[groups[0]]) | set(NAMES[groups[1]]))
    for i in range(S.int('steps', lo=1, hi=12)):
        op = 'short' if i == 0 and S.choice('full', [True, True, False]) \
            else S.choice('op', ['long', 'long', 'long', 'short', 'remove',
                             'plain', 'empty', 'case', 'item'])
        pr = S.choice('priority', ['', '', '', '', 'important', None])
        old = {k: (d.get_property_value(k), d.get_property_priority(k))
               for k in d}
        if op in ('long', 'item', 'case'):
            k = S.choice('name', longhands)
            v = S.choice(k, pool(k))
            if op == 'item':
                d[k] = v
                pr = None
            elif op == 'case':
                d.set_property(k.upper(), v, pr)
            else:
                d.set_property(k, v, pr)
            if pr is None:
                pr = want.get(k, ('', ''))[1]
            want[k] = (v, pr)
        elif op == 'plain':
            k = S.choice('plain', sorted(PLAIN))
            v = S.choice(k, pool(k))
            if v == 'RED':
                v = 'red'
            d.set_property(k, v, pr)
            if pr is None:
                pr = want.get(k, ('', ''))[1]
            want[k] = (v, pr)
        elif op == 'short':
            sh = S.choice('shorthand', groups)
            t, w = value(S, sh)
            if pr is None:
                pr = d.get_property_priority(sh)
                d.set_property(sh, t)
            else:
                d.set_property(sh, t, pr)
            for k in w:
                got = d.get_property_value(k)
                S.check('sets', same(k, got, w[k]))
                want[k] = (got, pr)
            # whatever was declared before, a shorthand just set can be read
            S.check('readable', d.get_property_value(sh) != '')
        elif op == 'remove':
            k = S.choice('name', longhands + groups)
            before = d.get_property_value(k)
            S.check('removed', d.remove_property(k) == before)
            for n in NAMES.get(k, [k]):
                want.pop(n, None)
        else:
            k = S.choice('name', longhands + groups)
            d.set_property(k, S.choice('blank', ['', ' ', '\n']))
            for n in NAMES.get(k, [k]):
                want.pop(n, None)
        S.check('names', set(d) == set(want) and len(d) == len(want)
                == d.length and {d.item(i) for i in range(len(d))}
                == set(want) and all(k in d for k in want))
        for k, (v, p) in want.items():
            S.check('values', d.get_property_value(k).split() == v.split()
                    and d.get_property_priority(k) == p and d[k] == d[
                        k.upper() if k[:2] != '--' else k])
        for sh in groups:
            reads(S, d, sh)
    bad = S.choice('bad', ['urgent', '!important', 'x'])
    snap = list(d.items())
    d.set_property('fill', 'blue', bad)
    S.check('bad-priority', list(d.items()) == snap)


def element(style=None):
    from svgpy.element import SVGParser
    el = SVGParser().create_element_ns('http://www.w3.org/2000/svg', 'text')
    if style is not None:
        el.set_attribute('style', style)
    return el


TEXTS = ['red', 'url(http://x.y/a:b;c#d)', 'url("a;b:c")', "'p;q:r'",
         '"a\\";b"', '5px', 'rgb(1, 2, 3)', 'var(--a;b)', 'a b',
         'calc(1px + (2px * 3))', '[a;b]', '1e3', '#fff', 'a/b', '50%']


def declarations(S):
    """-> style attribute text, {name: value}"""
    text, want = S.choice('lead', ['', '', ' ', ';', '/*;a:b*/', '\n']), {}
    for i in range(S.int('declarations', lo=0, hi=4)):
        kind = S.choice('kind', ['good', 'good', 'good', 'bad'])
        ws = S.choice('ws', ['', ' ', '\n', '\t ', '/**/'])
        if kind == 'bad':
            text += S.choice('bad', ['fill', 'fill red', ': red', 'fill:',
                                     'a b: c', 'fill: ', '']) + ';' + ws
            continue
        k = S.choice('key', ['fill', 'stroke', 'opacity', '--x', '--A',
                             'mask-image', '-x-y'])
        v = S.choice('value', TEXTS)
        written = S.choice('case', [k, k, k.upper() if k[:2] != '--' else k])
        text += ws + written + ws + ':' + ws + v + ws
        want.pop(k, None)
        want[k] = v
        text += S.choice('end', [';', ' ; ', ';;', ';/*:;*/'])
    if S.choice('last', [True, False]):
        text = text.rstrip('; ')
    return text, want


def tokens(v):
    import tinycss2
    return [repr(x) + getattr(x, 'serialize', str)() for x in
            tinycss2.parse_component_value_list(v, skip_comments=True)
            if x.type != 'whitespace']


@contract(bounded=True, runs=2000, secs=60)
def attribute(S):
    """bounded: a style attribute is read declaration by declaration"""
    text, want = declarations(S)
    el = element(text)
    d = el.style
    if S.choice('read-first', [True, False]):
        S.check('names', sorted(d) == sorted(want))
    for i in range(2):
        for k, v in want.items():
            S.check('value', tokens(d.get_property_value(k)) == tokens(v)
                    and d.get_property_priority(k) == '')
        S.check('only', sorted(d) == sorted(want)
                and d.get_property_value('color') == '')
        # a change of another property rewrites the attribute
        d['stroke-width'] = '3'
        want['stroke-width'] = '3'
        S.check('kept', sorted(element(el.get_attribute('style')).style)
                == sorted(want))
        d = element(el.get_attribute('style')).style
    k = S.choice('important', ['fill', 'opacity', '--x'])
    bang = S.choice('bang', ['!important', ' ! important', ' !IMPORTANT '])
    d = element('%s: red%s; stroke: blue' % (k, bang)).style
    S.check('important', d.get_property_value(k) == 'red'
            and d.get_property_priority(k) == 'important'
            and d.get_property_value('stroke') == 'blue'
            and d.get_property_priority('stroke') == '')


@contract(bounded=True, runs=2000, secs=60)
def inline(S):
    """bounded: the style attribute says what the style object says"""
    el = element()
    d = el.style
    want, own = {}, True
    groups = S.choice('groups', [['text-decoration', 'overflow'],
                                 ['white-space', 'font-synthesis'],
                                 ['mask'], ['mask-border'],
                                 ['font', 'font-variant']])
    longhands = sorted(set(sum([NAMES[g] for g in groups], [])))
    for i in range(S.int('steps', lo=1, hi=8)):
        op = 'short' if i == 0 and S.choice('full', [True, False]) \
            else S.choice('op', ['long', 'long', 'short', 'remove', 'plain',
                                 'plain', 'attribute'])
        if op == 'long':
            k = S.choice('name', longhands)
            v = S.choice(k, pool(k))
            d.set_property(k, v)
            want[k] = v
        elif op == 'plain':
            k = S.choice('plain', ['fill', 'opacity', 'stroke-width', '--x'])
            v = S.choice(k, pool(k))
            if v == 'RED':
                v = 'red'
            d.set_property(k, v)
            want[k] = v
        elif op == 'short':
            sh = S.choice('shorthand', groups)
            t, w = value(S, sh)
            d.set_property(sh, t)
            for k in w:
                got = d.get_property_value(k)
                S.check('sets', same(k, got, w[k]))
                want[k] = got
        elif op == 'remove':
            k = S.choice('name', longhands + groups + ['fill', 'opacity'])
            d.remove_property(k)
            for n in NAMES.get(k, [k]):
                want.pop(n, None)
        else:
            how = S.choice('how', ['same', 'same', 'new', 'empty', 'gone'])
            if how == 'same':
                el.set_attribute('style', el.get_attribute('style') or '')
            elif how == 'new':
                own = False
                text, want = declarations(S)
                el.set_attribute('style', text)
            elif how == 'empty':
                el.set_attribute('style', '')
                want = {}
            else:
                el.remove_attribute('style')
                want = {}
        S.check('names', set(d) == set(want))
        for k, v in want.items():
            S.check('values', tokens(d.get_property_value(k)) == tokens(v))
        text = el.get_attribute('style')
        S.check('absent', not own or (not text) == (not want))
        e = element(text).style
        S.check('attribute-names', set(e) == set(want))
        for k, v in want.items():
            b = e.get_property_value(k)
            S.check('attribute', same(k, v, b) or default(k, v)
                    and default(k, b) or tokens(v) == tokens(b))
