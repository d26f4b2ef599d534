"""S04 - a property accepts the components its syntax names, and no others."""
from vlib.spec import contract
from svgpy.css import CSS, CSSStyleValue, CSSUnparsedValue

ASSUMPTIONS = [
    'tinycss2 tokenises values as CSS Syntax says',
    'the grammar is checked by component: order and number of components of '
    'a value are not',
    'text handling is executed, not proved: the deciding executions are '
    'bounded']

# letters: L length, P percentage, N number, I integer, C colour, U url,
# A angle, S string or name
LP, COLOR, ALPHA = 'L P', 'C', 'N P'
PAINT = 'C U none context-fill context-stroke'
MARK = 'U none'
TABLE = {
    'alignment-baseline': 'baseline text-bottom alphabetic ideographic '
                          'middle central mathematical text-top bottom '
                          'center top',
    'baseline-shift': LP + ' sub super',
    'clip-rule': 'nonzero evenodd', 'fill-rule': 'nonzero evenodd',
    'color': COLOR, 'flood-color': COLOR, 'lighting-color': COLOR,
    'stop-color': COLOR, 'fill': PAINT, 'stroke': PAINT,
    'color-interpolation': 'auto sRGB linearRGB',
    'color-interpolation-filters': 'auto sRGB linearRGB',
    'color-rendering': 'auto optimizeSpeed optimizeQuality',
    'cx': LP, 'cy': LP, 'x': LP, 'y': LP, 'r': LP,
    'rx': LP + ' auto', 'ry': LP + ' auto',
    'direction': 'ltr rtl',
    'display': 'inline block list-item inline-block table inline-table '
               'table-row-group table-header-group table-footer-group '
               'table-row table-column-group table-column table-cell '
               'table-caption none',
    'dominant-baseline': 'auto text-bottom alphabetic ideographic middle '
                         'central mathematical hanging text-top',
    'fill-opacity': ALPHA, 'flood-opacity': ALPHA, 'opacity': ALPHA,
    'stop-opacity': ALPHA, 'stroke-opacity': ALPHA,
    'font-kerning': 'auto normal none',
    'font-size': LP + ' xx-small x-small small medium large x-large xx-large '
                 'larger smaller',
    'font-variant-position': 'normal sub super',
    'font-variant-caps': 'normal small-caps all-small-caps petite-caps '
                         'all-petite-caps unicase titling-caps',
    'image-rendering': 'auto optimizeSpeed optimizeQuality',
    'isolation': 'auto isolate',
    'letter-spacing': 'L normal',
    'line-height': LP + ' N normal',
    'marker-start': MARK, 'marker-mid': MARK, 'marker-end': MARK,
    'mask-type': 'luminance alpha',
    'paint-order': 'normal fill stroke markers',
    'shape-rendering': 'auto optimizeSpeed crispEdges geometricPrecision',
    'stroke-dasharray': LP + ' N none',
    'stroke-dashoffset': LP + ' N',
    'stroke-linecap': 'butt round square',
    'stroke-miterlimit': 'N',
    'stroke-width': LP + ' N',
    'text-anchor': 'start middle end',
    'text-orientation': 'mixed upright sideways',
    'text-rendering': 'auto optimizeSpeed optimizeLegibility '
                      'geometricPrecision',
    'unicode-bidi': 'normal embed isolate bidi-override isolate-override '
                    'plaintext',
    'visibility': 'visible hidden collapse',
    'width': LP + ' auto', 'height': LP + ' auto',
    'writing-mode': 'horizontal-tb vertical-rl vertical-lr sideways-rl '
                    'sideways-lr lr lr-tb rl rl-tb tb tb-rl',
}
WIDE = ['inherit', 'initial', 'unset', 'revert', 'default']
SAMPLES = {
    'L': ['1px', '-2.5em', '0.5ex', '1e1ch', '3rem', '1vw', '2vh', '4vmin',
          '1vmax', '1cm', '1mm', '1Q', '1in', '1pt', '1pc', '2ic', '1cap',
          '1lh', '1rlh', '1vi', '1vb'],
    'P': ['1%', '-0.5%', '100%'],
    'N': ['1', '0', '-2', '1.5', '.5', '1e2', '+3'],
    'A': ['1deg', '2rad', '.5turn', '1grad'],
    'C': ['red', 'gold', 'transparent', 'currentcolor', '#abc',
          '#ABCD', '#00ff00', '#00ff0080', 'rgb(1, 2, 3)', 'rgba(1,2,3,.5)',
          'hsl(120, 50%, 50%)', 'hsla(1,2%,3%,.4)'],
    'U': ['url(#a)', 'url("a b.svg")', 'URL(x)'],
    'S': ['"a"', "'none'", '"red"', '"auto"', '"inherit"'],
    'other': ['1s', '2ms', '1hz', '1kHz', '1fr', '1dpi', '1dppx', '1foo',
              'nope', 'auto-x', '#ab', '#abcde', '#xyz', 'frob(1)',
              'attr(x)', '(red)', '[auto]', '{1px}', '@auto', ')', ']', '}',
              '+', '!', '$', '*', '"\n', 'url(a b)', '<!--', 'U+26']}
EXTRA = ['NONE', 'Auto', 'Red', 'INHERIT']


def cased(text, how):
    if text.lower().startswith('url(') or text[0] in '"\'':
        return text
    return [text, text.upper(), text.title(), text.lower()][how]


def ask(S, name, text):
    try:
        got = CSS.supports(name, text)
    except Exception as e:
        S.check('CSS.supports(%r, %r) answers: %r' % (name, text, e), False)
    return got


def expect(S, name, text, want):
    got = ask(S, name, text)
    S.check('supported' if got is want else
            'CSS.supports(%r, %r) is %r, expected %r' % (
                name, text, got, want), got is want)


def kinds(name):
    words = TABLE[name].split()
    ks = set(w for w in words if len(w) == 1 and w.isupper())
    return ks, [w for w in words if w not in ks]


def accepts(name, kind, text):
    ks, words = kinds(name)
    if kind == 'N' and 'L' in ks:
        return True             # lengths without a unit
    if kind in ks:
        return True
    return text.lower() in [w.lower() for w in words]


@contract(bounded='every listed property with every listed component, in '
          'four ways of case', runs=1, secs=100)
def components(S):
    names = list(TABLE)
    for name in names:
        ks, words = kinds(name)
        for how in range(4):
            for n in (name, name.upper()):
                for w in words + WIDE:
                    expect(S, n, cased(w, how), True)
            for kind, texts in SAMPLES.items():
                for t in texts:
                    t = cased(t, how)
                    want = accepts(name, kind, t)
                    expect(S, name, t, want)
                    expect(S, name, '  %s/**/ ' % t, want) \
                        if kind != 'other' else None
        others = set(w for o in names for w in kinds(o)[1]) - set(words)
        for w in others:
            if w.lower() not in [x.lower() for x in words]:
                expect(S, name, w, False)
        expect(S, name, '', False)
        expect(S, name, '  ', False)
        expect(S, name, '/* */', False)
        expect(S, name, 'var(--a)', True)
        expect(S, name, 'VAR( --b , 1px )', True)
        for w in WIDE:
            for x in (words or ['1px'])[:1]:
                expect(S, name, '%s %s' % (w, x), False)
                expect(S, name, '%s %s' % (x, w), False)
    for n in ('no-such-property', '', 'colour', '-fill'):
        expect(S, n, 'red', False)


@contract(bounded='random values of up to four components', runs=3000,
          secs=40)
def sequences(S):
    """a value with one wrong component is wrong, and typed parsing and
    CSS.supports() agree"""
    r = S.rng
    name = r.choice(list(TABLE))
    ks, words = kinds(name)
    parts, ok = [], True
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        if words and r.random() < .5:
            parts.append(cased(r.choice(words), r.randrange(4)))
            continue
        kind = r.choice(list(ks) * 3 + list(SAMPLES)) if ks \
            else r.choice(list(SAMPLES))
        t = r.choice(SAMPLES[kind])
        if t in ('"\n', ')', ']', '}', '!', 'url(a b)', '+', '<!--'):
            continue
        parts.append(t)
        ok = ok and accepts(name, kind, t)
    if not parts:
        return
    text = r.choice([' ', '  ', '/**/ ']).join(parts)
    expect(S, name, text, ok)
    try:
        vs = CSSStyleValue.parse_all(name, text)
        parsed = True
    except ValueError:
        parsed = False
    if len(parts) == 1:
        S.check('typed parsing agrees' if parsed == ok else
                'parse_all(%r, %r): %r, expected %r' % (
                    name, text, parsed, ok), parsed == ok)
    elif not ok:
        S.check('typed parsing refuses' if not parsed else
                'parse_all(%r, %r) succeeded' % (name, text), not parsed)
