"""D01 - token lists."""
import io
from vlib.spec import contract
from svgpy.dom import DOMTokenList
from svgpy.element import SVGParser

ASSUMPTIONS = [
    'every single operation is enumerated on every state of up to three '
    'tokens (with repetitions and any spacing); longer lists and histories '
    'are bounded executions',
    'replace() by a token already listed may either do nothing or merge the '
    'two (the documentation leaves it open)',
    'the elements\' attribute store is lxml\'s']


def element():
    return SVGParser().create_element_ns('http://www.w3.org/2000/svg', 'g')


def agree(S, e, lists, want, name='class'):
    for i, t in enumerate(lists):
        S.check('tokens', list(t) == want and [
            t.item(k) for k in range(len(want))] == want)
        S.check('length', len(t) == t.length == len(want))
        S.check('value', t.value == ' '.join(want))
        S.check('contains', all(t.contains(x) and x in t for x in want)
                and not t.contains('never') and not t.contains(''))


def written(S, e, want, name='class'):
    """the attribute after a change made through the list"""
    S.check('attribute', e.get(name, '') == ' '.join(want))
    S.check('no-empty-attribute', (name in e.attrib) == bool(want))


def unique(xs):
    return list(dict.fromkeys(xs))


def step(S, t, want, tok, bad):
    """one operation -> (want, changed)"""
    op = S.choice('op', ['add', 'add2', 'remove', 'remove2', 'toggle', 'on',
                         'off', 'replace', 'bad', 'append', 'insert', 'set',
                         'slice', 'delete', 'contains'])
    x = tok('x')
    old = list(want)
    if op == 'add':
        t.add(x)
        return unique(want + [x])
    if op == 'append':
        t.append(x)
        return unique(want + [x])
    if op == 'add2':
        y = tok('y')
        t.add(x, y)
        return unique(want + [x, y])
    if op == 'remove':
        t.remove(x)
        return [w for w in want if w != x]
    if op == 'remove2':
        y = tok('y')
        t.remove(x, y)
        return [w for w in want if w not in (x, y)]
    if op in ('toggle', 'on', 'off'):
        r = t.toggle(x) if op == 'toggle' else t.toggle(x, op == 'on')
        there = x not in want if op == 'toggle' else op == 'on'
        S.check('toggle-result', r is there)
        if there == (x in want):
            return want
        return want + [x] if there else [w for w in want if w != x]
    if op == 'replace':
        y = tok('y')
        r = t.replace(x, y)
        if x not in want:
            S.check('not-replaced', r is False)
            return want
        if y in want:
            if list(t) != want:
                want = unique([y if w == x else w for w in want])
                S.check('merged', r is True)
            return want
        S.check('replaced', r is True)
        return [y if w == x else w for w in want]
    if op == 'bad':
        b = S.choice('bad', bad)
        how = S.choice('how', ['add', 'add-second', 'remove', 'replace',
                               'replace-by', 'toggle', 'on', 'insert'])
        _, e = S.raises({
            'add': lambda: t.add(b), 'add-second': lambda: t.add(x, b),
            'remove': lambda: t.remove(b), 'replace': lambda: t.replace(b, x),
            'replace-by': lambda: t.replace(x, b),
            'toggle': lambda: t.toggle(b), 'on': lambda: t.toggle(b, True),
            'insert': lambda: t.insert(0, b)}[how], ValueError)
        S.check('rejected', e is not None)
        return want
    if op == 'insert':
        k = S.choice('at', [0, 1, 2, -1])
        t.insert(k, x)
        if x not in want:
            want = list(want)
            want.insert(k, x)
        return want
    if op in ('set', 'delete'):
        k = S.choice('at', [0, 1, 2, -1])
        if not -len(want) <= k < len(want):
            if op == 'set' and x in want:
                return want
            _, e = S.raises(lambda: t.__setitem__(k, x) if op == 'set'
                            else t.__delitem__(k), IndexError)
            S.check('out-of-range', e is not None)
            return want
        want = list(want)
        if op == 'delete':
            del t[k]
            del want[k]
        else:
            t[k] = x
            if x not in want:
                want[k] = x
        return want
    if op == 'slice':
        y = tok('y')
        k = S.choice('from', [0, 1])
        n = S.choice('count', [0, 1])
        given = [x, y]
        t[k:k + n] = given
        S.check('argument-kept', given == [x, y])
        rest = want[:k] + want[k + n:]
        return want[:k] + [w for w in unique([x, y]) if w not in rest] \
            + want[k + n:]
    S.check('contains-any', t.contains(x) == (x in want))
    return want


BAD = ['', ' ', 'a b', 'a\t', '\nb', 'c\f', '\r']


@contract(max_paths=40000, prove_s=150, finite='states of up to three '
          'tokens, one operation with up to two of three tokens')
def every_step(S):
    """each operation on each small state"""
    e = element()
    n = S.choice('size', [0, 1, 2, 3])
    start = [S.choice('s%d' % i, ['a', 'b', 'c'][:i + 1]) for i in range(n)]
    sp = S.choice('spacing', [' ', ' \t\n ']) if n > 1 else ' '
    if n:
        e.set('class', sp.join(start))
    t = DOMTokenList(e, 'class')
    want = unique(start)
    agree(S, e, [t], want)
    S.check('reading-keeps', e.get('class', '') == sp.join(start))
    new = step(S, t, want, lambda k: S.choice(k, ['a', 'b', 'new']), BAD[:3])
    agree(S, e, [t, DOMTokenList(e, 'class')], new)
    if new != want:
        written(S, e, new)
    S.check('others-untouched', [k for k in e.attrib if k != 'class'] == [])


@contract(bounded=True, runs=2500, secs=45)
def histories(S):
    """bounded: up to 25 operations through two lists and the attribute"""
    e = element()
    name = S.choice('attribute', ['class', 'rel', 'sizes'])
    e.set('id', 'keep')
    lists = [DOMTokenList(e, name), DOMTokenList(e, name)]
    if name == 'class':
        lists.append(e.class_list)
    other = DOMTokenList(e, 'other')
    pool = ['a', 'b', 'Ab', 'ab', '\xa0', 'x\u3000y', 'x\u2028', '-', 'ü', '<&>', 'c1', 'c2',
            'c3', 'c4', 'c5']
    want = []
    for i in range(S.int('steps', lo=1, hi=25)):
        k = S.int('how', lo=0, hi=9)
        if k == 0:
            want = [S.choice('w', pool)
                    for i in range(S.int('n', lo=0, hi=9))]
            e.set(name, S.choice('sep', [' ', '  ', '\t', '\n \r ']).join(
                want) + S.choice('end', ['', ' ', '\n']))
            want = unique(want)
        else:
            t = S.choice('list', lists)
            new = step(S, t, want, lambda k: S.choice(k, pool), BAD)
            if new != want:
                written(S, e, new, name)
            want = new
        agree(S, e, lists, want, name)
        S.check('others', e.get('id') == 'keep' and len(other) == 0)
