"""F01 - text is shaped with the features and fonts its properties ask for."""
from vlib import sym
from vlib.spec import contract
from svgpy import SVGParser
from svgpy import harfbuzz

ASSUMPTIONS = [
    'lxml and tinycss2 parse the document and its style',
    'HarfBuzz applies the features it is given (what it is given is compared)',
    'text handling is executed, not proved: the deciding executions are '
    'bounded',
    'left out: feature tags with spaces or quotes, functions of '
    'font-variant-alternates, keywords in upper case']
NS = 'http://www.w3.org/2000/svg'

# property -> list of groups of exclusive keywords, with their features
GROUPS = {
    'font-variant-ligatures': [
        {'common-ligatures': {'liga': 1, 'clig': 1},
         'no-common-ligatures': {'liga': 0, 'clig': 0}},
        {'discretionary-ligatures': {'dlig': 1},
         'no-discretionary-ligatures': {'dlig': 0}},
        {'historical-ligatures': {'hlig': 1},
         'no-historical-ligatures': {'hlig': 0}},
        {'contextual': {'calt': 1}, 'no-contextual': {'calt': 0}}],
    'font-variant-caps': [
        {'small-caps': {'smcp': 1}, 'all-small-caps': {'smcp': 1, 'c2sc': 1},
         'petite-caps': {'pcap': 1},
         'all-petite-caps': {'pcap': 1, 'c2pc': 1},
         'unicase': {'unic': 1}, 'titling-caps': {'titl': 1}}],
    'font-variant-numeric': [
        {'lining-nums': {'lnum': 1}, 'oldstyle-nums': {'onum': 1}},
        {'proportional-nums': {'pnum': 1}, 'tabular-nums': {'tnum': 1}},
        {'diagonal-fractions': {'frac': 1}, 'stacked-fractions': {'afrc': 1}},
        {'ordinal': {'ordn': 1}}, {'slashed-zero': {'zero': 1}}],
    'font-variant-east-asian': [
        {'jis78': {'jp78': 1}, 'jis83': {'jp83': 1}, 'jis90': {'jp90': 1},
         'jis04': {'jp04': 1}, 'simplified': {'smpl': 1},
         'traditional': {'trad': 1}},
        {'full-width': {'fwid': 1}, 'proportional-width': {'pwid': 1}},
        {'ruby': {'ruby': 1}}],
    'font-variant-alternates': [{'historical-forms': {'hist': 1}}],
    'font-variant-position': [{'sub': {'subs': 1}, 'super': {'sups': 1}}]}
NONE = {t: 0 for t in ('liga', 'clig', 'dlig', 'hlig', 'calt')}
KERNING = {'auto': {}, 'normal': {'kern': 1, 'vkrn': 1},
           'none': {'kern': 0, 'vkrn': 0}}
TAGS = ['kern', 'liga', 'dlig', 'smcp', 'ss01', 'cv99', 'calt', 'onum',
        'c2sc', 'zero', 'hlig', 'jp04', 'a.b;', '1234', 'X,Yz']


def attribute(text):
    return text.replace('&', '&amp;').replace('"', '&quot;')


def combination(groups, pick):
    words, features = [], {}
    for g, i in zip(groups, pick):
        if i:
            word = list(g)[i - 1]
            words.append(word)
            features.update(g[word])
    return words, features


def picks(groups):
    out = [()]
    for g in groups:
        out = [p + (i,) for p in out for i in range(len(g) + 1)]
    return out


def shaped(element):
    """-> the features HarfBuzz is given for each run of the element"""
    seen = []
    cls = harfbuzz.HBBuffer
    old = cls.shape

    def shape(self, font, features=None, *args, **kwargs):
        got = {}
        for f in features or []:
            tag = ''.join(chr(f.tag >> i & 255) for i in (24, 16, 8, 0))
            got[tag] = f.value
        seen.append(got)
        return old(self, font, features, *args, **kwargs)
    cls.shape = shape
    try:
        element.get_computed_text_length()
    finally:
        cls.shape = old
    if not seen:
        raise sym.Unsupported('HBBuffer.shape is not called')
    return seen


def same(S, label, got, want, where):
    ok = got == want
    S.check(label if ok else '%s: got %r, expected %r: %s' % (
        label, got, want, where), ok)


def placed(S, rules, child, parent):
    """a document with declarations of the text and of its parent"""
    r = S.rng

    def where(decls, cls):
        text = '; '.join('%s: %s' % d for d in decls)
        how = r.choice(['style', 'rule', 'rule', 'attribute'])
        names = [n for n, _ in decls]
        if how == 'attribute' and 'font-variant' not in names:
            return '', ' '.join('%s="%s"' % (n, attribute(v))
                                for n, v in decls)
        if how == 'rule':
            return '.%s {%s}' % (cls, text), 'class="%s"' % cls
        return '', 'style="%s"' % attribute(text)
    r1, a1 = where(parent, 'p')
    r2, a2 = where(child, 'c')
    return '<svg xmlns="%s"><style>%s%s</style><g %s><text %s>a1</text></g>' \
        '</svg>' % (NS, r1, r2, a1, a2)


@contract(bounded='every combination of the keywords of one property, alone',
          runs=1, secs=60)
def one_property(S):
    for name, groups in GROUPS.items():
        short = name.replace('-', '_')
        for n, p in enumerate(picks(groups)):
            words, want = combination(groups, p)
            value = ' '.join(words[::-1] if n % 2 else words) or 'normal'
            prop = 'font-variant' if n % 3 == 0 else name
            src = '<svg xmlns="%s"><text style="%s: %s">a</text></svg>' % (
                NS, prop, value)
            for got in shaped(SVGParser().fromstring(src)[0]):
                same(S, 'the features of ' + short, got, want, src)


def values(S):
    """-> {property: (text, features)} of a random choice"""
    r, out = S.rng, {}
    for name, groups in GROUPS.items():
        if r.random() < .35:
            words, f = combination(groups, r.choice(picks(groups)))
            r.shuffle(words)
            out[name] = (' '.join(words) or 'normal', f)
            if name == 'font-variant-ligatures' and r.random() < .15:
                out[name] = ('none', NONE)
    if r.random() < .4:
        k = r.choice(list(KERNING))
        out['font-kerning'] = (k, KERNING[k])
    if r.random() < .5:
        out['font-feature-settings'] = settings(S)
    return out


def settings(S):
    r = S.rng
    if r.random() < .1:
        return 'normal', {}
    parts, f = [], {}
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        tag = r.choice(TAGS)
        q = r.choice('"\'')
        k = r.choice(['', '1', '0', '2', '13', 'on', 'off', 'ON', 'Off'])
        sp = r.choice([' ', ' ', '  ', '/**/', '\n', ''])
        parts.append(r.choice(['', ' ']) + q + tag + q + (sp + k if k else ''))
        f[tag] = {'': 1, 'on': 1, 'off': 0}.get(k.lower(), None)
        if f[tag] is None:
            f[tag] = int(k)
    return r.choice([',', ', ', ' , ']).join(parts).strip(), f


def declared(S, chosen):
    """-> declarations in which some values are written with the shorthand"""
    r = S.rng
    decls = []
    if all(n in chosen for n in ('font-variant-caps',)) and r.random() < .5:
        words, f = [], {}
        for n in GROUPS:
            if n in chosen and chosen[n][0] not in ('normal', 'none'):
                words.append(chosen[n][0])
            elif n in chosen and chosen[n][0] == 'none':
                decls.append((n, 'none'))
            else:
                chosen[n] = ('normal', {})
        r.shuffle(words)
        decls.insert(0, ('font-variant', ' '.join(words) or 'normal'))
        decls += [(n, v[0]) for n, v in chosen.items() if n not in GROUPS]
    else:
        decls = [(n, v[0]) for n, v in chosen.items()]
        r.shuffle(decls)
    return decls


@contract(bounded='random values of the text and its parent', runs=1200,
          secs=60)
def features(S):
    """font-variant-* and font-kerning first, font-feature-settings above
    them; what the text does not say it takes from its parent"""
    child, parent = values(S), values(S)
    dc, dp = declared(S, child), declared(S, parent)
    src = placed(S, None, dc, dp)
    all_of = dict(parent)
    all_of.update(child)
    want = {}
    for n, (_, f) in all_of.items():
        if n != 'font-feature-settings':
            want.update(f)
    want.update(all_of.get('font-feature-settings', ('', {}))[1])
    for got in shaped(SVGParser().fromstring(src)[1][0]):
        same(S, 'the features of the text', got, want, src)


FAMILIES = ['serif', 'Arial', 'A B', 'Foo-Bar', 'x1', 'C  D E']
QUOTED = ['A, B', "it's", 'A B', '1st', 'serif', 'x;y', 'a (b)', '\u3042', '']


@contract(bounded='random lists of up to five families', runs=1500, secs=40)
def families(S):
    r = S.rng
    text, want = [], []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        if r.random() < .5:
            n = r.choice(FAMILIES)
            text.append(n)
            want.append(' '.join(n.split()))
        else:
            n = r.choice(QUOTED[:-1])
            q = '"' if "'" in n else r.choice('"\'')
            text.append(q + n + q)
            want.append(n)
    value = r.choice([',', ', ', ' , ']).join(text)
    size = r.choice(['12px', '1.5em', '20px/2', 'italic bold 10px/15px',
                     'small-caps 150%', 'normal 8pt'])
    decl = r.choice([('font-family', value), ('font-family', value),
                     ('font', size + ' ' + value)])
    src = placed(S, None, *r.sample([[decl], []], 2)) if decl[0] != 'font' \
        else '<svg xmlns="%s"><g/><g %s><text style="%s">a</text></g></svg>' \
        % (NS, r.choice(['', 'font-family="Other"']),
           attribute('%s: %s' % decl))
    got = SVGParser().fromstring(src)[1][0].get_computed_style()['font-family']
    same(S, 'the families of the font, in order', list(got), want, src)
