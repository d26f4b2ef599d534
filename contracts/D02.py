"""D02 - queries find exactly the matching elements."""
import io
from vlib.spec import contract
from svgpy import SVGParser, window
from selectors_model import SVG, OTHER, Node, selector

ASSUMPTIONS = [
    'lxml evaluates XPath and cssselect parses selectors as specified',
    'documents have at most twelve elements']
XLINK = 'http://www.w3.org/1999/xlink'
TAGS = [('rect', SVG), ('g', SVG), ('text', SVG), ('circle', SVG),
        ('svg', SVG), ('o:rect', OTHER), ('o:g', OTHER), ('p', OTHER)]
CLASSES = ['a', 'b', 'c', 'a.b', 'a+', '(a', '[b]', 'a\u00a0b', 'A', 'ab', '*',
           '$a', 'a$', '^b', '\\w', '"', "'"]
SPACE = [' ', '  ', '\t', '\n', ' \n ']


def esc(s):
    return s.replace('&', '&amp;').replace('"', '&quot;').replace(
        '\n', '&#10;').replace('\t', '&#9;').replace('<', '&lt;')


class N(Node):
    """an element of the model: qualified name, namespace, id, classes"""

    def __init__(self, qname, ns, parent):
        super().__init__(qname.split(':')[-1], ns, parent)
        self.qname = qname

    def text(self):
        attrs = ''
        if self.parent is None:
            attrs = ' xmlns="%s" xmlns:o="%s" xmlns:s="%s" xmlns:xlink="%s"' \
                % (SVG, OTHER, SVG, XLINK)
        elif self.ns == OTHER and ':' not in self.qname:
            attrs = ' xmlns="%s"' % OTHER
        elif ':' not in self.qname:
            attrs = ' xmlns="%s"' % SVG
        for k, v in self.attrs.items():
            attrs += ' %s="%s"' % (k, esc(v))
        inner = ''.join(self.noise[i] + c.text()
                        for i, c in enumerate(self.children))
        return '<%s%s>%s%s</%s>' % (self.qname, attrs, inner, self.noise[-1],
                                    self.qname)


def tree(S, tags=TAGS, classes=CLASSES):
    root = N('svg', SVG, None)
    nodes = [root]
    for i in range(S.int('n', lo=0, hi=11)):
        q, ns = S.choice('tag', tags)
        nodes.append(N(q, ns, S.choice('parent', nodes)))
    for e in nodes:
        if S.choice('has-id', [False, True]):
            e.id = e.attrs['id'] = S.choice('id', ['p', 'q', 'r', 'x y', '"'])
        k = S.choice('classes', [0, 0, 1, 2, 3])
        if k:
            sep = S.choice('sep', SPACE)
            e.classes = [S.choice('class', classes) for j in range(k)]
            e.attrs['class'] = S.choice('lead', ['', ' ', '\n']) \
                + sep.join(e.classes) + S.choice('trail', ['', ' '])
        e.noise = [S.choice('noise', ['', '', 'text', '<!-- c -->', '<?p i?>'])
                   for j in range(len(e.children) + 1)]
    return root


def real(S, root):
    """-> a map from model nodes to the elements of a real document, and the
    document or None"""
    e = SVGParser().parse(io.StringIO(root.text())).getroot()
    doc = None
    if S.choice('in-a-document', [False, True]):
        doc = window.document.implementation.create_document(None)
        doc.append(e)
    m = {}

    def walk(n, x):
        m[n] = x
        kids = [k for k in x if isinstance(k.tag, str)]
        assert len(kids) == len(n.children)
        for a, b in zip(n.children, kids):
            walk(a, b)
    walk(root, e)
    return m, doc


def agree(S, name, got, want, m):
    S.check(name, len(got) == len(want) and
            all(a is m[b] for a, b in zip(got, want)))


def start(S, root, m, doc):
    """-> the object asked, the elements below it, and those with itself"""
    n = S.choice('node', root.all())
    if doc is not None and S.choice('ask-document', [False, True]):
        return doc, root, root.all()
    e = m[n]
    every = n.all()
    return e, n, every if e.local_name == 'svg' and n.ns == SVG \
        else every[1:]


@contract(bounded=True, runs=2500, secs=60)
def by_name_id_class(S):
    """bounded: by id, class names, qualified name, and namespace and name"""
    root = tree(S)
    m, doc = real(S, root)
    o, n, scope = start(S, root, m, doc)
    before = root.text()
    c = [S.choice('c', CLASSES) for i in range(S.choice('k', [1, 1, 2, 3, 0]))]
    text = S.choice('lead', ['', ' ', '\t']) + S.choice('sep', SPACE).join(c)
    nsmap = S.choice('nsmap', [None, {}, {'s': SVG}])
    given = dict(nsmap) if nsmap is not None else None
    agree(S, 'class', o.get_elements_by_class_name(text, nsmap),
          [x for x in scope if c and set(c) <= set(x.classes)], m)
    S.check('given-map-unchanged', nsmap == given)
    agree(S, 'class-alone', o.get_elements_by_class_name(text),
          [x for x in scope if c and set(c) <= set(x.classes)], m)
    q = S.choice('q', ['rect', 'g', 'o:rect', 'o:g', 'p', 'svg', '*', 'x',
                       'rect ', ':rect'])
    agree(S, 'tag', o.get_elements_by_tag_name(q, nsmap),
          [x for x in scope if q == '*' or x.qname == q], m)
    ns = S.choice('ns', [SVG, OTHER, '*', None, 'urn:x'])
    local = S.choice('local', ['rect', 'g', 'p', 'svg', '*', 'o:rect'])
    agree(S, 'tag-ns', o.get_elements_by_tag_name_ns(ns, local, nsmap),
          [x for x in scope if ns in ('*', None, x.ns)
           and local in ('*', x.name)], m)
    if o is not doc:
        agree(S, 'local-name', o.get_elements_by_local_name(local),
              [x for x in n.all()[1:] if x.name == local], m)
    i = S.choice('i', ['p', 'q', 'r', 'x y', '"', "'", 'none'])
    if o is doc or n.all() == scope:
        want = [x for x in scope if x.id == i][:1]
        got = o.get_element_by_id(i, nsmap)
        S.check('id', got is (m[want[0]] if want else None))
    S.check('map-unchanged', nsmap == given)
    S.check('model-unchanged', root.text() == before)


@contract(bounded=True, runs=3000, secs=60)
def selectors(S):
    """bounded: selectors against a matcher that works on the model"""
    root = tree(S, TAGS, ['a', 'b', 'c'])
    m, doc = real(S, root)
    n = S.choice('node', root.all())
    o, scope = m[n], n.all()[1:]
    if doc is not None and S.choice('ask-document', [False, True]):
        o, scope = doc, root.all()
    group = [selector(S) for i in range(S.choice('group', [1, 1, 2, 3]))]
    text = S.choice('comma', [',', ', ']).join(g[0] for g in group)
    want = [x for x in scope if any(g[2](x, None) for g in group)]
    agree(S, 'all', o.query_selector_all(text), want, m)
    got = o.query_selector(text)
    S.check('first', got is (m[want[0]] if want else None))
