"""K01 - the computed style follows the CSS cascade."""
from vlib.spec import contract
import base64
import io
from urllib.parse import quote
from svgpy import window
from svgpy.element import SVGParser
from svgpy.window import Window
from selectors_model import NAMES, OTHER, SVG, Node, selector

ASSUMPTIONS = [
    'lxml evaluates XPath and cssselect parses selectors as specified',
    'tinycss2 parses style sheets as CSS Syntax says',
    'documents have at most seven elements and eight style rules']
INHERITED = {'fill': ['red', 'none', 'blue'], 'stroke': ['green', 'none'],
             'visibility': ['hidden', 'collapse', 'visible'],
             'cursor': ['help', 'wait'], 'stroke-linecap': ['round', 'square'],
             'fill-rule': ['evenodd', 'nonzero'],
             'white-space': ['pre', 'nowrap', 'pre-line'],
             'text-anchor': ['middle', 'end'],
             'shape-rendering': ['crispEdges', 'auto']}
OWN = {'opacity': ['0.5', '0', '1'], 'stop-color': ['red', 'blue'],
       'vector-effect': ['non-scaling-stroke'], 'flood-color': ['#123456'],
       'clip-path': ['url(#a)', 'none'],
       'text-decoration': ['underline', 'none'],
       'dominant-baseline': ['hanging', 'central']}
INITIAL = {'fill': 'black', 'stroke': 'none', 'visibility': 'visible',
           'cursor': 'auto', 'stroke-linecap': 'butt', 'fill-rule': 'nonzero',
           'opacity': '1', 'stop-color': 'black', 'vector-effect': 'none',
           'flood-color': 'black', 'clip-path': 'none',
           'white-space': 'normal', 'text-anchor': 'start',
           'shape-rendering': 'auto', 'text-decoration': 'none',
           'dominant-baseline': 'auto'}
POOL = dict(INHERITED)
POOL.update(OWN)

def block(S, limit):
    """-> (text, [(name, value, important)])"""
    text, items = '', []
    for i in range(S.int('declarations', lo=0, hi=limit)):
        k = S.choice('name', sorted(POOL))
        v = S.choice(k, POOL[k] + ['inherit', 'initial', 'unset'])
        imp = S.choice('important', [False, False, False, True])
        items.append((k, v, imp))
        text += '%s:%s%s;' % (
            S.choice('case', [k, k, k.upper()]), S.choice('ws', ['', ' ']) + v,
            ' !important' if imp else '')
    return text, items


def sheet(S):
    """-> (text, default namespace, [(order-free rules)])"""
    text, default, rules = '', None, []
    if S.choice('default-ns', [False, False, True]):
        default = S.choice('ns', [SVG, OTHER])
        text += S.choice('form', ['@namespace url(%s);', '@namespace "%s";']
                         ) % default
    text += '@namespace s url(%s);' % SVG
    for i in range(S.int('rules', lo=0, hi=4)):
        group = [selector(S) for j in range(S.choice('group', [1, 1, 2]))]
        t, items = block(S, 3)
        rule = '%s {%s}' % (', '.join(x[0] for x in group), t)
        media = S.choice('media', [None, None, None, 'all'])
        if media:
            rule = '@media %s { %s }' % (media, rule)
        if S.choice('noise', [False, False, False, True]):
            rule += S.choice('junk', [
                '/* rect {fill: yellow} */', 'rect:bogus {fill: yellow}',
                'u|rect {fill: yellow}', 'g { fill yellow }', '[ {fill:x}'
                '] {}'][:4])
        text += rule + '\n'
        rules.append((group, items))
    return text, default, rules


def within(items, key, important):
    """the winning declaration of a block"""
    value = None
    for k, v, imp in items:
        if k == key and imp == important:
            value = v
    return value


def cascaded(e, key, sheets):
    best = None
    for important in (True, False):
        v = within(e.inline, key, important)
        if v is not None:
            return v
        best = None
        for text, default, rules in sheets:
            for group, items in rules:
                v = within(items, key, important)
                if v is None:
                    continue
                hit = [s for t, s, test in group if test(e, default)]
                if hit and (best is None or max(hit) >= best[0]):
                    best = (max(hit), v)
        if best is not None:
            return best[1]
    return e.attrs.get(key)


def computed(e, key, sheets):
    v = cascaded(e, key, sheets)
    if v == 'initial' or v is None and key in OWN \
            or v == 'unset' and key in OWN:
        return INITIAL[key]
    if v in (None, 'inherit', 'unset'):
        if e.parent is None:
            return INITIAL[key]
        return computed(e.parent, key, sheets)
    return v


def tree(S):
    root = Node('svg', SVG, None)
    nodes = [root]
    for i in range(S.int('elements', lo=1, hi=6)):
        n = Node(S.choice('element', NAMES),
                 S.choice('namespace', [SVG, SVG, SVG, OTHER]),
                 S.choice('parent', nodes))
        nodes.append(n)
    for n in nodes:
        n.id = S.choice('has-id', [None, None, 'p', 'q', 'r'])
        n.classes = S.choice('classes', [[], ['a'], ['b'], ['a', 'b'],
                                         ['c', 'a']])
        for i in range(S.choice('attributes', [0, 0, 1, 2])):
            k = S.choice('attribute', sorted(POOL))
            n.attrs[k] = S.choice(k, POOL[k] + ['inherit'])
        if S.choice('inline', [False, False, True]):
            n.text, n.inline = block(S, 3)
    return root


def markup(n, styles, root=True):
    tag = n.name if n.ns == SVG else 'o:' + n.name
    out = '<' + tag
    if root:
        out += ' xmlns="%s" xmlns:o="%s"' % (SVG, OTHER)
    if n.id is not None:
        out += ' id="%s"' % n.id
    if n.classes:
        out += ' class="%s"' % ' '.join(n.classes)
    for k, v in n.attrs.items():
        out += ' %s="%s"' % (k, v)
    if n.inline:
        out += ' style="%s"' % n.text
    out += '>'
    out += ''.join(markup(x, [], False) for x in n.children)
    # the style elements come last, so that :first-child counts as modelled
    out += ''.join('<style type="text/css">%s</style>' % x.replace(
        '>', '&gt;') for x in styles)
    return out + '</%s>' % tag


@contract(bounded=True, runs=1500, secs=120)
def cascade(S):
    """bounded: generated documents, against the cascade written out above"""
    root = tree(S)
    sheets = [sheet(S) for i in range(S.choice('sheets', [0, 1, 1, 2]))]
    for t, d, rules in sheets:
        Node('style', SVG, root)
    for n in root.all():
        if n.name == 'style':
            root.children.remove(n)
    text = markup(root, [x[0] for x in sheets])
    for x in sheets:
        Node('style', SVG, root)
    nodes = root.all()
    top = SVGParser().fromstring(text)
    elements = list(top.iter())
    S.check('shape', len(elements) == len(nodes))
    for n, el in zip(nodes, elements):
        if n.name == 'style':
            continue
        style = el.get_computed_style()
        for key in POOL:
            S.check(key, style[key].replace('"', '')
                    == computed(n, key, sheets))


# ---- sheets of every kind, under media conditions -------------------------

MEDIA = {'all': lambda w: True, 'screen': lambda w: True,
         'print': lambda w: False, 'not print': lambda w: True,
         '(min-width: 500px)': lambda w: w >= 500,
         '(max-width: 500px)': lambda w: w <= 500,
         '(width < 600px)': lambda w: w < 600,
         'screen and (min-width: 600px)': lambda w: w >= 600,
         'print, (min-width: 600px)': lambda w: w >= 600,
         'only screen, print': lambda w: True}


def condition(S):
    m = S.choice('media', [None, None] + sorted(MEDIA))
    return m, MEDIA[m] if m else MEDIA['all']


def both(a, b):
    return lambda w: a(w) and b(w)


def rules(S, cond, deep):
    """-> (text, [(group, items, condition)])"""
    text, out = '', []
    for i in range(S.int('rules', lo=1, hi=3)):
        if deep and S.choice('kind', ['style', 'style', 'media']) == 'media':
            m, c = S.choice('at-media', sorted(MEDIA.items()))
            t, r = rules(S, both(cond, c), deep - 1)
            text += '@media %s {\n%s}\n' % (m, t)
            out += r
        else:
            group = [selector(S) for j in range(S.choice('group', [1, 1, 2]))]
            t, items = block(S, 2)
            text += '%s {%s}\n' % (', '.join(x[0] for x in group), t)
            out.append((group, items, cond))
    return text, out


def url(S, text):
    """a URL of the text"""
    return S.choice('data', [
        lambda: 'data:text/css;base64,' + base64.b64encode(
            text.encode()).decode(),
        lambda: 'data:text/css,' + quote(text)])()


def styles(S, cond, imports):
    """-> (text, [(default namespace, rules)])"""
    text, out = '', []
    for i in range(S.choice('imports', [0, 0, 1, 2]) if imports else 0):
        m, c = condition(S)
        t, r = styles(S, both(cond, c), imports - 1)
        text += '@import %s%s;\n' % (
            S.choice('form', ['url(%s)', '"%s"']) % url(S, t),
            ' ' + m if m else '')
        out += r
    default = None
    if S.choice('default-ns', [False, False, True]):
        default = S.choice('ns', [SVG, OTHER])
        text += '@namespace url(%s);\n' % default
    text += '@namespace s url(%s);\n' % SVG
    t, r = rules(S, cond, 2)
    return text + t, out + [(default, r)]


def esc(s):
    return s.replace('&', '&amp;').replace('"', '&quot;').replace(
        '<', '&lt;').replace('>', '&gt;')


@contract(bounded=True, runs=1000, secs=150)
def delivery(S):
    """bounded: sheets from style and link elements, xml-stylesheet and
    @import, whose media match the window"""
    root = tree(S)
    for n in root.all():
        if n.name == 'style':
            n.parent.children.remove(n)
    before, inside, found = '', '', []
    always = S.choice('always', [None, None, 'style', 'link', 'xml'])
    for i in range(S.int('sheets', lo=1, hi=3)):
        kind = always or S.choice('kind', ['style', 'style', 'link', 'xml'])
        m, c = condition(S)
        if kind == 'xml' and m and '<' in m:
            m, c = None, MEDIA['all']       # no references in instructions
        media = '' if m is None else ' media="%s"' % m.replace('<', '&lt;')
        if S.choice('off', [False] * 5 + [True]):
            t, r = styles(S, lambda w: False, 0)
            off = {'style': ' type="text/x"', 'link': 'icon',
                   'xml': ' alternate="yes"'}[kind]
        else:
            t, r = styles(S, c, 2)
            off = ''
        if kind == 'style':
            cut = S.choice('comment', [False, True])
            t = esc(t)
            if cut:
                t = t.replace(';\n', ';<!-- x -->\n', 1)
            inside += '<style%s%s>%s</style>' % (
                media, off or S.choice('type', ['', ' type="text/css"']), t)
            found.append((1, r))
        elif kind == 'link':
            inside += '<link xmlns="http://www.w3.org/1999/xhtml" rel="%s"' \
                '%s href="%s"/>' % (off or S.choice('rel', [
                    'stylesheet', 'x stylesheet']), media, esc(url(S, t)))
            found.append((1, r))
        else:
            before += '<?xml-stylesheet type="text/css"%s%s href="%s"?>' % (
                media, off, esc(url(S, t)))
            found.append((0, r))
    found.sort(key=lambda x: x[0])
    text = markup(root, [])
    text = before + text[:-len('</svg>')] + inside + '</svg>'
    n = inside.count('<style') + inside.count('<link')
    for i in range(n):
        Node('style', SVG, root)
    top = SVGParser().parse(io.StringIO(text)).getroot()
    win = Window(window.document.implementation)
    doc = win.document
    if S.choice('attached', [True, True, True, False]):
        doc.remove(doc.document_element)
        doc.append(top)
        attached = True
    else:
        attached = False
    for width in S.choice('widths', [[400], [500, 700], [600]]):
        win.inner_width = width
        sheets = []
        for order, r in found:
            for default, rs in r:
                sheets.append((None, default, [
                    (g, i) for g, i, c in rs if c(width)]))
        if not attached:
            return
        nodes = root.all()
        elements = list(top.iter(tag='*'))
        S.check('shape', len(elements) == len(nodes))
        for n, el in zip(nodes, elements):
            if n.name == 'style':
                continue
            style = el.get_computed_style()
            for key in POOL:
                S.check(key, style[key].replace('"', '')
                        == computed(n, key, sheets))


HIDDEN = ['defs', 'clipPath', 'mask', 'marker', 'desc', 'title', 'metadata',
          'pattern', 'linearGradient', 'radialGradient', 'symbol', 'script']
CLIPPED = ['svg', 'image', 'marker', 'pattern', 'symbol']


@contract(bounded=True, runs=600, secs=60)
def user_agent(S):
    """bounded: display and overflow, which the built-in sheet sets too"""
    names = HIDDEN + CLIPPED + ['g', 'rect', 'text', 'use']
    root = Node('svg', SVG, None)
    nodes = [root]
    for i in range(S.int('elements', lo=1, hi=5)):
        nodes.append(Node(S.choice('element', names), SVG,
                          S.choice('parent', nodes)))
    display, overflow, css = {}, {}, ''
    for i, n in enumerate(nodes):
        n.id = 'n%d' % i
        where = S.choice('where', ['no', 'no', 'attr', 'inline', 'rule',
                                   'important', 'any'])
        k = S.choice('property', ['display', 'overflow'])
        v = S.choice(k, ['inline', 'none', 'block'] if k == 'display' else
                     ['visible', 'scroll', 'auto'])
        if where == 'attr':
            n.attrs[k] = v
        elif where == 'inline':
            n.inline, n.text = [(k, v, False)], '%s: %s' % (k, v)
        elif where == 'rule':
            css += '#%s { %s: %s }' % (n.id, k, v)
        elif where == 'important':
            css += '#%s { %s: %s !important }' % (n.id, k, v)
        elif where == 'any':
            v = 'x'     # a rule of no specificity, below
            where = 'no'
        (display if k == 'display' else overflow)[n] = where, v
    weak = S.choice('weak', [None, None, 'visible', 'auto'])
    if weak:
        css = '* { overflow: %s }' % weak + css
    top = SVGParser().fromstring(markup(root, [css] if css else []))
    elements = {e.id: e for e in top.iter() if e.id}

    def own(n):
        where, v = display.get(n, ('no', None))
        if n.name in HIDDEN:
            return 'none'
        return 'inline' if where == 'no' else v
    for n in nodes:
        style = elements[n.id].get_computed_style()
        p, chain = n, []
        while p is not None:
            chain.append(own(p))
            p = p.parent
        S.check('display', style['display']
                == ('none' if 'none' in chain else own(n)))
        where, v = overflow.get(n, ('no', None))
        if where == 'attr' and weak:
            v = weak
        elif where == 'no':
            v = weak or ('hidden' if n.name in CLIPPED and n is not root
                         else 'visible')
        S.check('overflow', style['overflow'] == v)


WEIGHTS = {'normal': 400, 'bold': 700, '100': 100, '600': 600, '900': 900}
FONT = {'font-style': ['normal', 'italic', 'oblique'],
        'font-weight': ['normal', 'bold', '100', '600', '900'],
        'font-stretch': ['normal', 'condensed', 'expanded'],
        'font-size': ['10px', '12px', '40px'],
        'font-variant-caps': ['normal', 'small-caps'],
        'font-size-adjust': ['none', '0.5'],
        'font-kerning': ['auto', 'none'],
        'font-family': ['serif', 'fantasy', 'x-y']}
START = {'font-style': 'normal', 'font-weight': 'normal',
         'font-stretch': 'normal', 'font-variant-caps': 'normal',
         'font-size-adjust': 'none', 'font-kerning': 'auto'}


def fonts(S, limit, names=()):
    """-> [(property, text, {longhand: value})]"""
    out = []
    for i in range(S.int('fonts', lo=0, hi=limit)):
        k = S.choice('longhand', sorted(names or FONT) + ['font'] * 4)
        if k != 'font':
            v = S.choice(k, FONT[k])
            out.append((k, v, {k: v}))
            continue
        w = dict(START)
        parts = []
        for n in ('font-style', 'font-variant-caps', 'font-weight',
                  'font-stretch'):
            if S.choice('part', [True, False]):
                w[n] = S.choice(n, FONT[n])
                parts.append(w[n])
        w['font-size'] = S.choice('font-size', FONT['font-size'])
        w['font-family'] = S.choice('font-family', FONT['font-family'])
        parts += [w['font-size'], w['font-family']]
        out.append((k, ' '.join(parts), w))
    return out


@contract(bounded=True, runs=1000, secs=100)
def font(S):
    """bounded: the font shorthand and its longhands on every level"""
    p = SVGParser()
    top = p.create_element_ns(SVG, 'svg')
    css = p.create_element_ns(SVG, 'style')
    css.set_attribute('type', 'text/css')
    top.append(css)
    css_text = ''
    want = dict(START)
    parent = top
    for i in range(S.int('depth', lo=1, hi=3)):
        el = p.create_element_ns(SVG, S.choice('element', ['g', 'text']))
        parent.append(el)
        parent = el
        el.set_attribute('id', 'n%d' % i)
        attrs = {}
        for k, t, w in fonts(S, 2):
            attrs[k] = t, w
            el.set_attribute(k, t)
        for k in sorted(attrs):          # 'font' comes first
            want.update(attrs[k][1])
        important = {}
        for where in ('rule', 'inline'):
            normal, text = {}, ''
            strong = {}
            # a block does not mix font with what it resets without setting
            for k, t, w in fonts(S, 2, ['font-style', 'font-weight',
                                        'font-stretch', 'font-size',
                                        'font-family', 'font-variant-caps']):
                imp = S.choice('important', [False, False, False, True])
                text += '%s: %s%s; ' % (k, t, ' !important' if imp else '')
                (strong if imp else normal).update(w)
                if imp and k == 'font':
                    return
            want.update(normal)
            important.update(strong)
            if where == 'rule':
                css_text += '#n%d { %s }\n' % (i, text)
            elif text:
                el.set_attribute('style', text)
        want.update(important)
    if css_text:
        css.text = css_text
    style = parent.get_computed_style()
    for k in ('font-style', 'font-stretch', 'font-variant-caps',
              'font-kerning'):
        S.check(k, style[k] == want[k])
    S.check('font-weight', style['font-weight'] == WEIGHTS[
        want['font-weight']])
    if 'font-size' in want:
        S.check('font-size', style['font-size'] == float(
            want['font-size'][:-2]))
        S.check('font-size-adjust', style['font-size-adjust'] == (
            0.5 if want['font-size-adjust'] == '0.5' else 'none'))
    if 'font-family' in want:
        S.check('font-family', style['font-family'] == [want['font-family']])
