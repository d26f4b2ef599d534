"""Selectors and a matcher for them that works on a model of the document."""
SVG = 'http://www.w3.org/2000/svg'
OTHER = 'http://example.org/other'
NAMES = ['rect', 'g', 'text', 'circle']


class Node:
    def __init__(self, name, ns, parent):
        self.name, self.ns, self.parent = name, ns, parent
        self.children, self.id, self.classes = [], None, []
        self.attrs, self.inline = {}, []
        if parent is not None:
            parent.children.append(self)

    def all(self):
        return [self] + [y for x in self.children for y in x.all()]

    def before(self):
        if self.parent is None:
            return []
        c = self.parent.children
        return c[:c.index(self)]


def simple(S):
    """-> (text, specificity, test(node, default namespace))"""
    kind = S.choice('simple', ['type', 'type', 'any', 'class', 'class', 'id',
                               'attr', 'first', 'not', 'ns', 'both', 'root',
                               'value', 'last', 'nth', 'of-type'])
    n = S.choice('type', NAMES)
    c = S.choice('class', ['a', 'b', 'c'])
    i = S.choice('id', ['p', 'q'])

    def ns(e, d):
        return d is None or e.ns == d
    if kind == 'type':
        return n, (0, 0, 1), lambda e, d: e.name == n and ns(e, d)
    if kind == 'any':
        return '*', (0, 0, 0), lambda e, d: ns(e, d)
    if kind == 'class':
        return '.' + c, (0, 1, 0), lambda e, d: c in e.classes and ns(e, d)
    if kind == 'id':
        return '#' + i, (1, 0, 0), lambda e, d: e.id == i and ns(e, d)
    if kind == 'attr':
        return '[id]', (0, 1, 0), lambda e, d: e.id is not None and ns(e, d)
    if kind == 'value':
        return '[id="%s"]' % i, (0, 1, 0), \
            lambda e, d: e.id == i and ns(e, d)
    if kind == 'first':
        return ':first-child', (0, 1, 0), \
            lambda e, d: not e.before() and ns(e, d)
    if kind == 'last':
        return n + ':last-child', (0, 1, 1), \
            lambda e, d: e.name == n and ns(e, d) and (
                e.parent is None or e.parent.children[-1] is e)
    if kind == 'nth':
        return n + ':nth-child(2)', (0, 1, 1), \
            lambda e, d: e.name == n and ns(e, d) and len(e.before()) == 1
    if kind == 'of-type':
        return n + ':first-of-type', (0, 1, 1), \
            lambda e, d: e.name == n and ns(e, d) and not [
                x for x in e.before() if x.name == n and ns(x, d)]
    if kind == 'not':
        return '%s:not(.%s)' % (n, c), (0, 1, 1), \
            lambda e, d: e.name == n and c not in e.classes and ns(e, d)
    if kind == 'ns':
        return 's|' + n, (0, 0, 1), lambda e, d: e.name == n and e.ns == SVG
    if kind == 'root':
        return ':root', (0, 1, 0), \
            lambda e, d: e.parent is None and ns(e, d)
    return '%s.%s' % (n, c), (0, 1, 1), \
        lambda e, d: e.name == n and c in e.classes and ns(e, d)


def selector(S):
    text, spec, test = simple(S)
    for i in range(S.choice('combinators', [0, 0, 1, 1, 2])):
        op = S.choice('combinator', [' ', ' > ', ' + ', ' ~ ', '>'])
        t, s, right = simple(S)
        text += op + t
        spec = tuple(a + b for a, b in zip(spec, s))

        def combined(e, d, left=test, op=op.strip(), right=right):
            if not right(e, d):
                return False
            if op == '>':
                return e.parent is not None and left(e.parent, d)
            if op == '+':
                return bool(e.before()) and left(e.before()[-1], d)
            if op == '~':
                return any(left(x, d) for x in e.before())
            p = e.parent
            while p is not None:
                if left(p, d):
                    return True
                p = p.parent
            return False
        test = combined
    return text, spec, test
