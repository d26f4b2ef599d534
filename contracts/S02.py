"""S02 - style sheets hold the rules of their text."""
import io
import tinycss2
from vlib.spec import contract
from svgpy import SVGParser
from svgpy.css import CSS, CSSParser, CSSRule, CSSStyleSheet, MediaList

ASSUMPTIONS = [
    'tinycss2 tokenises style sheets as CSS Syntax says (the installed one '
    'reads no custom property names; the sheets have none)',
    'text handling is executed, not proved: the deciding executions are '
    'bounded']
SELECTORS = ['rect', '*', '.a', '#b', 'g > rect', 'g rect', 'a, b', 'g+h',
             'rect:not(.a)', 's|rect', '[x="y"]', '[x="y  z"]', "[x='{']",
             '#\\31  g', '[x="a;b"]', ':nth-child(2n + 1)', '[x="/**/"]']
VALUES = {'fill': ['red', 'none', '#123', 'url(#a)', 'url("x;y")'],
          'stroke': ['blue', 'rgb(1, 2, 3)'], 'opacity': ['0.5', '1'],
          'font-family': ['serif', '"A  B"', '"a;b"', 'x, y'],
          'cursor': ['help']}
QUERIES = ['all', 'screen', 'print', 'not print', '(min-width: 500px)',
           'screen and (color)', '(width < 600px)']
JUNK = ['', '/* rect { fill: red } */', '@page { margin: 1px }',
        '@charset "utf-8";', '@foo bar;', '@foo { rect { fill: red } }',
        '@supports (a: b) { g { fill: red } }', '@media print;',
        '@font-face;', '@namespace;', '@font-feature-values x;', '<!--',
        '-->', '@media;', '@namespace s;']
FEATURES = ['annotation', 'character-variant', 'ornaments', 'styleset',
            'stylistic', 'swash']
SPACE = ['', '', ' ', '\n', '\t', ' /* ; } */ ', '  ']


def ws(S):
    return S.rng.choice(SPACE)


def block(S):
    """-> (text, {name: (value, priority)})"""
    r, text, out = S.rng, '', {}
    n = r.randint(0, 4)
    for i in range(n):
        k = r.choice(sorted(VALUES))
        v = r.choice(VALUES[k])
        imp = r.random() < .3
        text += '%s%s%s:%s%s%s%s' % (
            ws(S), k.upper() if r.random() < .2 else k, ws(S),
            ws(S), v, ws(S), r.choice(['!important', '! IMPORTANT']) + ws(S)
            if imp else '')
        text += ';' if i < n - 1 or r.random() < .5 else ''
        if r.random() < .15 and text.endswith(';'):
            text += r.choice([';', ' fill red;', ' : x;', ' 1a: x;',
                              ' fill: ;'])
        if k not in out or imp or out[k][1] != 'important':
            out.pop(k, None)
            out[k] = v, 'important' if imp else ''
    return text, out


def rule(S, deep):
    """-> (text, model)"""
    r = S.rng
    kind = r.choice(['style'] * 4 + ['media'] * 2 + ['face', 'ns', 'feature']
                    ) if deep else 'style'
    if kind == 'style':
        sel = r.choice(SELECTORS)
        t, d = block(S)
        return '%s%s{%s}' % (sel, ws(S), t), ('style', sel, d)
    if kind == 'media':
        q = r.sample(QUERIES, r.choice([1, 1, 2]))
        t, ms = rules(S, deep - 1, r.randint(0, 3))
        return '@%s %s{%s}' % (r.choice(['media', 'MEDIA']), r.choice(
            [', ', ',', ' ,']).join(q) + ws(S), t), ('media', q, ms)
    if kind == 'face':
        f = r.choice(['x', '"A  B"'])
        w = r.choice(['400', 'bold'])
        return '@font-face%s{font-family:%s;font-weight: %s%s}' % (
            ws(S), f, w, r.choice(['', ';'])), ('face', f, w)
    if kind == 'ns':
        p = r.choice(['', 's', 'o'])
        u = r.choice(['http://www.w3.org/2000/svg', 'u', ''])
        return '@namespace %s %s;' % (
            p, r.choice(['url(%s)' if u else 'url("%s")', '"%s"']) % u), (
                'ns', p, u)
    fam = r.choice(['x', 'Font One', '"A  B"'])
    text, maps = '', {k: {} for k in FEATURES}
    for i in range(r.randint(0, 3)):
        k = r.choice(FEATURES)
        body = ''
        n = r.randint(0, 3)
        for j in range(n):
            name = r.choice(['a', 'b', 'c-d'])
            if r.random() < .2:
                body += r.choice(['%s: x;', '%s: -1;', '%s: 1.5;', '%s 1;',
                                  '%s: ;', '%s: 1 x;', '%s: 1, 2;']) % name
                continue
            v = [r.randint(0, 99) for _ in range(r.choice([1, 1, 2, 3]))]
            body += '%s%s:%s%s%s%s' % (
                ws(S), name, ws(S), ' '.join(map(str, v)), ws(S),
                ';' if j < n - 1 or r.random() < .5 else '')
            maps[k][name] = v
        text += '@%s%s{%s}%s' % (r.choice([k, k.upper()]), ws(S), body, ws(S))
        if r.random() < .1:
            text += '@swash;'
    return '@font-feature-values %s{%s}' % (fam, text), ('feature', fam, maps)


def rules(S, deep, n):
    text, out = '', []
    for i in range(n):
        if S.rng.random() < .25:
            j = S.rng.choice(JUNK)
            if deep == 2 or not j.endswith('>') and j != '<!--':
                text += j + '\n'
        t, m = rule(S, deep)
        text += t + S.rng.choice(['\n', '', ' '])
        out.append(m)
    return text, out


def value(s):
    """the text of a value without regard to white space and quotes"""
    return tinycss2.serialize([t for t in tinycss2.parse_component_value_list(
        s, skip_comments=True)]).strip().replace("'", '"')


def compare(S, rs, ms, sheet, parent):
    S.check('count', len(rs) == len(ms))
    for r, m in zip(rs, ms):
        S.check('sheet', r.parent_style_sheet is sheet)
        S.check('parent', r.parent_rule is parent)
        kind = m[0]
        S.check('type', r.type == {
            'style': CSSRule.STYLE_RULE, 'media': CSSRule.MEDIA_RULE,
            'face': CSSRule.FONT_FACE_RULE, 'ns': CSSRule.NAMESPACE_RULE,
            'feature': CSSRule.FONT_FEATURE_VALUES_RULE}[kind])
        if kind == 'style':
            S.check('selector', value(r.selector_text) == value(m[1]))
            S.check('names', sorted(r.style) == sorted(m[2]))
            for k, (v, p) in m[2].items():
                S.check('value', value(r.style.get_property_value(k))
                        == value(v))
                S.check('priority', r.style.get_property_priority(k) == p)
            S.check('owner', r.style.parent_rule is r)
        elif kind == 'media':
            S.check('media', list(r.media) == m[1] and r.media.length
                    == len(m[1]))
            S.check('condition', r.condition_text == r.media.media_text
                    == ', '.join(m[1]))
            compare(S, r.css_rules, m[2], sheet, r)
        elif kind == 'face':
            S.check('face', value(r.style.get_property_value('font-family'))
                    == value(m[1]) and r.style.get_property_value(
                        'font-weight') == m[2])
        elif kind == 'ns':
            S.check('namespace', (r.prefix, r.namespace_uri) == m[1:])
        else:
            S.check('family', value(r.font_family) == value(m[1]))
            for k in FEATURES:
                S.check('feature', dict(getattr(r, k.replace('-', '_')))
                        == m[2][k])


def reread(S, rs, ms):
    """the text of a rule reads back to the same rule"""
    for r, m in zip(rs, ms):
        compare(S, CSSParser.fromstring(r.css_text), [m], None, None)


@contract(bounded='random sheets of up to six rules', runs=1200, secs=60)
def sheets(S):
    """rules of a text: kinds, order, nesting, contents"""
    text, ms = rules(S, 2, S.rng.randint(0, 6))
    sheet = CSSStyleSheet()
    rs = CSSParser.fromstring(text, parent_style_sheet=sheet)
    compare(S, rs, ms, sheet, None)
    reread(S, rs, ms)


@contract(bounded='random sheets in a style element', runs=200, secs=30)
def documents(S):
    """the sheets of a document"""
    from svgpy.style import get_css_style_sheet_from_element
    text, ms = rules(S, 2, S.rng.randint(1, 4))
    r = S.rng
    title, media = r.choice([None, 't']), r.choice([None, 'all'])
    esc = text.replace('&', '&amp;').replace('<', '&lt;')
    doc = '<svg xmlns="http://www.w3.org/2000/svg"><style%s%s>%s</style>' \
        '</svg>' % (' title="%s"' % title if title else '',
                    ' media="%s"' % media if media else '', esc)
    e = SVGParser().fromstring(doc)[0]
    sheet = get_css_style_sheet_from_element(e)
    if not text:
        return S.check('none', sheet is None)
    compare(S, sheet.css_rules, ms, sheet, None)
    S.check('owner', sheet.owner_node is e and sheet.type == 'text/css'
            and (sheet.title or None) == title
            and sheet.media.media_text 
            in ([media] if media else ['', 'all']))


@contract(bounded='histories of up to ten insertions and deletions',
          runs=500, secs=40)
def histories(S):
    """insert_rule and delete_rule against a list"""
    r = S.rng
    sheet = CSSStyleSheet()
    top, group = [], None
    for i in range(r.randint(1, 10)):
        target, model, parent = sheet, top, None
        media = [(x, m) for x, m in zip(sheet.css_rules, top)
                 if m[0] == 'media']
        if media and r.random() < .4:
            parent, m = r.choice(media)
            target, model = parent, m[2]
        if model and r.random() < .35:
            j = r.randrange(len(model))
            target.delete_rule(j)
            del model[j]
        else:
            t, m = rule(S, 1 if parent is not None else 2)
            j = r.randint(0, len(model))
            if parent is None and r.random() < .3:
                k, j = sheet.insert_rule(t), 0
            else:
                k = target.insert_rule(t, j)
            S.check('index', k == j)
            model.insert(j, m)
        compare(S, sheet.css_rules, top, sheet, None)


@contract(bounded='histories of up to ten changes', runs=400, secs=20)
def media_lists(S):
    """a media list against a list without repetitions"""
    r = S.rng
    x, model = MediaList(), []
    for i in range(r.randint(1, 10)):
        op = r.choice(['append', 'append', 'append_medium', 'delete', 'text',
                       'insert', 'item', 'two'])
        q = r.choice(QUERIES)
        if op.startswith('append'):
            getattr(x, op)(ws(S).replace('/* ; } */', '') + q)
            if q not in model:
                model.append(q)
        elif op == 'delete' and model:
            q = r.choice(model)
            x.delete_medium(q)
            model.remove(q)
        elif op == 'text':
            model = r.sample(QUERIES, r.randint(0, 3))
            x.media_text = r.choice([',', ', ', ' , ']).join(model)
        elif op == 'insert' and q not in model:
            j = r.randint(0, len(model))
            x.insert(j, q)
            model.insert(j, q)
        elif op == 'item' and model:
            j = r.randrange(len(model))
            S.check('item', x.item(j) == x[j] == model[j])
        elif op == 'two':
            x.append('screen, print')       # not a single query
        S.check('list', list(x) == model and x.length == len(x)
                == len(model))
        S.check('text', x.media_text == ', '.join(model))
        y = MediaList()
        y.media_text = x.media_text
        S.check('again', list(y) == model)


LETTERS = ['a', 'Z', '0', '9', '-', '_', ' ', '.', '#', ':', '\\', '"', "'",
           '\n', '\t', '\x01', '\x7f', '\x80', '\u00e9', '\u3042',
           '\U0001f600', '{', '}', ';', '(', ')', '/', '*', '!', '@', '~',
           '\x1f', '$', '\r', '\x0c', '|', '>', ',', '\x0b']


def identifier(t):
    """CSS Syntax 4.3.11 -> (name, rest), None if there is no identifier"""
    def name_start(c):
        return c.isascii() and (c.isalpha() or c == '_') or c >= '\u0080'
    starts = name_start(t[:1]) or t[:1] == '\\' and t[1:2] not in ('', '\n') \
        or t[:1] == '-' and (name_start(t[1:2]) or t[1:2] == '-' or t[
            1:2] == '\\' and t[2:3] not in ('', '\n'))
    if not starts:
        return None
    out, i = '', 0
    while i < len(t):
        c = t[i]
        if name_start(c) or c == '-' or '0' <= c <= '9':
            out += c
            i += 1
        elif c == '\\' and t[i + 1:i + 2] not in ('', '\n', '\r', '\x0c'):
            i += 1
            j = i
            while j < min(i + 6, len(t)) and t[j] in '0123456789abcdefABCDEF':
                j += 1
            if j == i:
                out += t[i]
                i += 1
            else:
                n = int(t[i:j], 16)
                out += '\ufffd' if not n or n > 0x10ffff \
                    or 0xd800 <= n < 0xe000 else chr(n)
                i = j + (t[j:j + 1] in tuple(' \t\n\r\x0c'))
        else:
            break
    return out, t[i:]


def serialized(s):
    """CSSOM 2.1, serialize an identifier"""
    out = ''
    for i, c in enumerate(s):
        n = ord(c)
        if n == 0:
            out += '\ufffd'
        elif n < 0x20 or n == 0x7f or c in '0123456789' and (
                i == 0 or i == 1 and s[0] == '-'):
            out += '\\%x ' % n
        elif s == '-':
            out += '\\-'
        else:
            out += c if n >= 0x80 or c in '-_' or c.isalnum() else '\\' + c
    return out


@contract(bounded='random texts of up to six characters', runs=3000, secs=20)
def escape(S):
    """an escaped text is one identifier that stands for the text"""
    r = S.rng
    s = ''.join(r.choice(LETTERS) for _ in range(r.randint(1, 6)))
    t = CSS.escape(s)
    S.check('identifier', identifier(t) == (s, ''))
    S.check('serialized', t == serialized(s))
    S.check('continues', identifier('a' + t + 'x.') == ('a' + s + 'x', '.'))
    S.check('ends', t[-1] == ' ' or identifier(t + '~') == (s, '~'))
    S.check('null', CSS.escape('\0' + s[1:]).startswith('\ufffd'))
    S.check('empty', CSS.escape('') == '')


@contract(bounded='every character, alone and in each context of texts of '
          'up to three characters', runs=1, secs=60)
def escaped_characters(S):
    """every code point, at every place an escape depends on"""
    bad = []
    for n in range(1, 0x110000):
        if 0xd800 <= n < 0xe000:
            continue
        c = chr(n)
        if n < 0x300:
            places = '%s', '%sa', 'a%s', '-%s', '-%sf', '1%s', '%s-', 'a-%s', \
                '--%s', '\\%sb', '%s0', '%s ', '\x01%s'
        else:
            places = '%s', '-%sf'
        for p in places:
            s = p % c
            e = CSS.escape(s)
            if identifier(e) != (s, '') or e != serialized(s):
                bad.append(s)
    S.check('identifier', not bad[:5])


@contract(bounded='random class names and ids', runs=200, secs=20)
def escaped_selectors(S):
    """escaped names select the element of that class or id"""
    r = S.rng
    names = [x for x in LETTERS if x >= ' ' and x != '\x7f']
    s = ''.join(r.choice(names) for _ in range(r.randint(1, 4)))
    if not s.strip() or s.split() != [s] or '\\' in s or s[:2] == '--':
        return      # cssselect reads neither '--a' nor an escaped backslash
    e = SVGParser().fromstring(
        '<svg xmlns="http://www.w3.org/2000/svg"><g/><g/></svg>')
    e[0].set('class', s)
    e[1].set('id', s)
    S.check('class', e.query_selector_all('.' + CSS.escape(s)) == [e[0]])
    S.check('id', e.query_selector_all('#' + CSS.escape(s)) == [e[1]])
