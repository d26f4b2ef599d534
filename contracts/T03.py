"""T03 - the text of a text element: the characters the document has, white
space processed as CSS says, each counted for the elements that hold it."""
import re
from vlib.spec import contract
from svgpy import SVGParser

ASSUMPTIONS = [
    'lxml parses the document and keeps text and tail of its nodes',
    'text handling is executed, not proved: the deciding executions are '
    'bounded',
    'left out: textPath, a, tref, character references written twice '
    '(&amp;lt;), a collapsible space behind a preserved one']
NS = 'http://www.w3.org/2000/svg'
MODES = ['normal', 'nowrap', 'pre', 'pre-wrap', 'pre-line']
BITS = ['a', 'b', 'C', '7', '-', ' ', ' ', '  ', '\t', '\n', '\n', '\r\n',
        '\r', ' \n ', '\u3042', '\u6f22', '\uac00', '\u200b', '\xe9',
        '\xa0', 'fi']
OTHERS = ['<!-- c -->', '<?p i?>', '<title>t</title>', '<desc> d </desc>',
          '<metadata/>', '<title/>', '<set attributeName="x"/>']


def text(S):
    r = S.rng
    return ''.join(r.choice(BITS) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))


def xml(t):
    return t.replace('\r', '&#13;')


def node(S, name, mode, depth, shown, ids):
    """-> (markup, runs) with runs of (mode, text, owners)"""
    r = S.rng
    own = 'e%d' % len(ids)
    attrs, m = ' id="%s"' % own, mode
    if r.random() < (.7 if name == 'text' else .25):
        m = r.choice(MODES)
        attrs += r.choice([' white-space="%s"', ' style="white-space: %s"',
                           ' style="fill: red; white-space:%s"',
                           ' class="%s"']) % m
    if name != 'text' and r.random() < .12:
        shown = False
        attrs += r.choice([' display="none"', ' style="display:none"']) \
            if 'style' not in attrs else ' display="none"'
    ids.append((own, name))
    t = text(S)
    body, runs = xml(t), [(m, t, (own,), shown)]
    for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if depth else 0):
        if r.random() < .65:
            b, rs = node(S, 'tspan', m, depth - 1, shown, ids)
            body += b
            runs += [(a, x, o + (own,), s) for a, x, o, s in rs]
        else:
            body += r.choice(OTHERS)
        t = text(S)
        body += xml(t)
        runs.append((m, t, (own,), shown))
    return '<%s%s>%s</%s>' % (name, attrs, body, name), runs


def wide(c):
    return c in '\u3042\u6f22\uff21\uff71'


def breaks(mode, t):
    """the white space of one run, before the runs are put together"""
    t = t.replace('\r\n', '\n').replace('\r', '\n')
    if mode in ('pre', 'pre-wrap'):
        return t
    t = re.sub('[ \t]*\n[ \t]*', '\n', t)
    if mode != 'pre-line':
        parts = re.split('\n+', t)
        out = parts[0]
        for p in parts[1:]:
            a, b = out[-1:], p[:1]
            if a == '\u200b' or b == '\u200b' or (
                    a and b and wide(a) and wide(b)):
                out += p
            else:
                out += ' ' + p
        t = out
    t = t.replace('\t', ' ')
    return re.sub(' +', ' ', t)


def processed(runs):
    out, before = [], ''
    last = -1
    for mode, t, owners, shown in runs:
        if not shown:
            continue
        t = breaks(mode, t)
        if mode not in ('pre', 'pre-wrap') and (
                before == '' or before[-1] == ' '):
            t = t[1:] if t.startswith(' ') else t
        if t:
            out.append([mode, t, owners])
            before += t
    if out and out[-1][0] not in ('pre', 'pre-wrap'):
        out[-1][1] = out[-1][1].rstrip(' ')
    return out


def preserved_then_collapsed(runs):
    """left out: see ASSUMPTIONS"""
    last = None
    for mode, t, owners, shown in runs:
        if not shown:
            continue
        t = breaks(mode, t)
        if last and mode not in ('pre', 'pre-wrap') and t.startswith(' '):
            return True
        if t:
            last = mode in ('pre', 'pre-wrap') and t.endswith(' ')
    return False


def document(S, clean=True):
    while True:
        ids = []
        markup, runs = node(S, 'text', 'normal', 2, True, ids)
        if not preserved_then_collapsed(runs):
            break
    rules = ''.join('.%s{white-space:%s}' % (m, m) for m in MODES)
    pad = S.rng.choice(['', '\n  '])
    src = '<svg xmlns="%s"><style>%s</style><g>%s%s</g></svg>' % (
        NS, rules, pad, markup)
    return src, runs, ids


def find(root, i):
    return root.get_element_by_id(i)


def same(S, label, got, want, where):
    ok = got == want
    S.check(label if ok else '%s: got %r, expected %r: %s' % (
        label, got, want, where), ok)


@contract(bounded='random documents', runs=900, secs=40)
def characters(S):
    src, runs, ids = document(S)
    root = SVGParser().fromstring(src)
    out = processed(runs)
    for i, name in ids:
        expected = ''.join(t for _, t, owners in out if i in owners)
        e = find(root, i)
        same(S, 'get_chars is the processed text of the characters of the '
             'element', e.get_chars() or '', expected, (i, src))
        same(S, 'get_number_of_chars counts them', e.get_number_of_chars(),
             len(expected), (i, src))


BREAKS = ['\n', '\r\n', '\r', ' \n', '\n\t', '\n\n', ' \r\n \n ']
SIDES = ['', 'a', '\u6f22', '\u3042', '\uff21', '\uff71', '\uac00', '\u1100',
         '\u3131', '\ua960', '\ud7b0', '\u200b', '\xa0', '\u2018']
MORE = ['', 'z', '\u3042', ' ']


@contract(bounded='one break between every two kinds of character, in every '
          'mode, and at either end of the text', runs=1, secs=100)
def segment_breaks(S):
    for mode in MODES:
        texts = []
        for b in BREAKS:
            texts += [one + b for one in SIDES] + [b + two for two in SIDES]
            texts += ['q'.join(one + b + two for two in SIDES)
                      for one in SIDES]
        src = '<svg xmlns="%s">%s</svg>' % (NS, ''.join(
            '<text white-space="%s">%s</text>' % (mode, xml(t))
            for t in texts))
        for t, e in zip(texts, SVGParser().fromstring(src)):
            want = ''.join(x[1] for x in processed([(mode, t, (), True)]))
            same(S, 'a line break between two characters becomes what CSS '
                 'says', e.get_chars() or '', want, (mode, t))


@contract(bounded='random documents', runs=400, secs=25)
def text_content(S):
    src, runs, ids = document(S)
    root = SVGParser().fromstring(src)
    for i, name in ids:
        expected = ''.join(t for _, t, owners, _ in runs if i in owners)
        same(S, 'text_content is the text of the element and its spans',
             find(root, i).text_content or '', expected, (i, src))
    i, name = S.rng.choice(ids)
    e = find(root, i)
    tail, new = e.tail, text(S)
    e.text_content = new
    same(S, 'setting text_content replaces what the element holds',
         (e.text_content or '', len(e), e.tail), (new, 0, tail),
         (i, new, src))
    rest, done = '', False
    for _, t, owners, _ in runs:
        if i not in owners:
            rest += t
        elif not done:
            rest, done = rest + new, True
    same(S, 'setting text_content leaves the rest as it was',
         find(root, 'e0').text_content or '', rest, (i, new, src))
