"""D03 - the node tree."""
from vlib.spec import contract
from svgpy.element import SVGParser

ASSUMPTIONS = [
    'single operations are enumerated on the forests described; longer '
    'histories and larger forests are bounded executions',
    'text is no node of its own here: lxml keeps it with the node before, '
    'and it moves with that node',
    'nodes beside the root element (which only comments and processing '
    'instructions may be) are looked at in document_siblings alone',
    'lxml\'s own tree is trusted to be a tree']
SVG = 'http://www.w3.org/2000/svg'


class Forest(object):
    """the real nodes, and the lists of children they should have"""

    def __init__(self, S):
        self.S = S
        self.parser = SVGParser()
        self.real = {}
        self.kids = {}
        self.kind = {}

    def new(self, name, kind='element'):
        p = self.parser
        if kind == 'element':
            n = p.create_element_ns(SVG, 'g')
            n.set('id', name)
        elif kind == 'comment':
            n = p.create_comment(name)
        else:
            n = p.create_processing_instruction('pi', name)
        self.real[name] = n
        self.kids[name] = []
        self.kind[name] = kind
        return name

    def put(self, parent, *names):
        for n in names:
            self.real[parent].append(self.real[n])
            self.kids[parent].append(n)

    def parent(self, n):
        for p, k in self.kids.items():
            if n in k:
                return p
        return None

    def above(self, n):
        """the node and its ancestors"""
        out = []
        while n is not None:
            out.append(n)
            n = self.parent(n)
        return out

    def take(self, n):
        p = self.parent(n)
        if p is not None:
            self.kids[p].remove(n)

    def agree(self):
        S, real = self.S, self.real

        def same(a, name):
            return a is (None if name is None else real[name])

        def alike(a, names):
            a = list(a)
            return len(a) == len(names) and all(map(same, a, names))

        for n, node in real.items():
            kids = self.kids[n]
            els = [k for k in kids if self.kind[k] == 'element']
            p = self.parent(n)
            S.check('parent', same(node.parent_node, p)
                    and same(node.parent_element, p))
            S.check('children', alike(node.child_nodes, kids))
            S.check('has-children', node.has_child_nodes() == bool(kids))
            S.check('first-last', same(node.first_child,
                                       kids[0] if kids else None)
                    and same(node.last_child, kids[-1] if kids else None))
            S.check('root', same(node.get_root_node(), self.above(n)[-1]))
            if self.kind[n] == 'element':
                S.check('elements', alike(node.children, els)
                        and node.child_element_count == len(els)
                        and same(node.first_element_child,
                                 els[0] if els else None)
                        and same(node.last_element_child,
                                 els[-1] if els else None))
                S.check('iteration', alike(iter(node), kids)
                        and len(node) == len(kids)
                        and all((m in node) == (k in kids)
                                for k, m in real.items()))
            row = self.kids[p] if p is not None else [n]
            i = row.index(n)
            before, after = row[:i], row[i + 1:]
            S.check('siblings', same(node.previous_sibling,
                                     before[-1] if before else None)
                    and same(node.next_sibling,
                             after[0] if after else None))

            def elements(xs):
                return [x for x in xs if self.kind[x] == 'element'] or [None]
            S.check('element-siblings',
                    same(node.previous_element_sibling, elements(before)[-1])
                    and same(node.next_element_sibling, elements(after)[0]))

    def step(self, op, recv, node, ref=None, index=0, more=()):
        """one call; the model is changed if the call has to succeed"""
        S, x = self.S, self.real
        r, n = x[recv], x[node]
        f = None if ref is None else x[ref]
        more = list(more)
        nodes = [node] + more
        kids = self.kids[recv]
        old = list(kids)
        isel = self.kind[recv] == 'element'
        cycle = any(m in self.above(recv) for m in nodes)
        fails = not isel or cycle
        out, want = None, None
        if op == 'append':
            def call():
                return r.append(*[x[m] for m in nodes])
        elif op == 'extend':
            def call():
                return r.extend(x[m] for m in nodes)
        elif op == 'extend_list':
            def call():
                return r.extend([x[m] for m in nodes])
        elif op == 'prepend':
            def call():
                return r.prepend(*[x[m] for m in nodes])
            if not isel:
                return      # comments have no such operation
        elif op == 'append_child':
            nodes, want = [node], n
            fails = not isel or node in self.above(recv)

            def call():
                return r.append_child(n)
        elif op == 'insert':
            nodes = [node]
            fails = not isel or node in self.above(recv)
            if not -len(kids) <= index:
                return      # before the first place: left open

            def call():
                return r.insert(index, n)
        elif op == 'insert_before':
            nodes, want = [node], n
            fails = (not isel or node in self.above(recv)
                     or ref is not None and ref not in kids)

            def call():
                return r.insert_before(n, f)
        elif op in ('replace', 'replace_child'):
            nodes = [node]
            fails = (not isel or node in self.above(recv)
                     or ref not in kids)
            if op == 'replace':
                def call():
                    return r.replace(f, n)
            else:
                want = f

                def call():
                    return r.replace_child(n, f)
            if f is None:
                return
        elif op in ('remove', 'remove_child'):
            fails = node not in kids
            want = n if op == 'remove_child' else None

            def call():
                return getattr(r, op)(n)
        elif op == 'leave':
            if not isel:
                return
            fails = False

            def call():
                return r.remove()
        else:               # addnext, addprevious
            p = self.parent(recv)
            if p is None:
                return
            fails = node in self.above(p)
            if node == recv:
                return      # its own neighbour: left open

            def call():
                return getattr(r, op)(n)
        if fails:
            out, exc = S.raises(call, Exception)
            S.check('fails', exc is not None or op in (
                'append', 'extend', 'extend_list') and not nodes)
            return
        out = call()
        S.check('returns', out is want)
        # the model
        if op in ('append', 'append_child', 'extend', 'extend_list'):
            for m in nodes:
                self.take(m)
                self.kids[recv].append(m)
        elif op == 'prepend':
            order = [m for i, m in enumerate(nodes) if m not in nodes[i + 1:]]
            for m in order:
                self.take(m)
            self.kids[recv][:0] = order
        elif op == 'insert':
            at = old[index] if -len(old) <= index < len(old) else None
            if at != node:
                self.take(node)
                k = self.kids[recv]
                k.insert(len(k) if at is None else k.index(at), node)
        elif op == 'insert_before':
            if ref != node:
                self.take(node)
                k = self.kids[recv]
                k.insert(len(k) if ref is None else k.index(ref), node)
        elif op in ('replace', 'replace_child'):
            if ref != node:
                self.take(node)
                k = self.kids[recv]
                k[k.index(ref)] = node
        elif op in ('remove', 'remove_child'):
            kids.remove(node)
        elif op == 'leave':
            self.take(recv)
        else:
            self.take(node)
            k = self.kids[self.parent(recv)]
            k.insert(k.index(recv) + (op == 'addnext'), node)


OPS = ['append', 'extend', 'extend_list', 'prepend', 'append_child', 'insert',
       'insert_before', 'replace', 'replace_child', 'remove', 'remove_child',
       'leave', 'addnext', 'addprevious']


def small(S, shape):
    t = Forest(S)
    for n in 'rabkdm':
        t.new(n)
    t.new('c', 'comment')
    t.new('p', 'pi')
    if shape == 'mixed':
        t.put('r', 'a', 'c', 'b')
        t.put('a', 'k')
        t.put('d', 'm')
    elif shape == 'edges':
        t.put('r', 'c', 'a', 'p')
        t.put('a', 'k', 'b')
    elif shape == 'deep':
        t.put('r', 'a')
        t.put('a', 'k', 'c')
        t.put('k', 'b', 'd')
    return t


@contract(max_paths=60000, prove_s=400, finite='forests of eight nodes in '
          'four shapes, one operation with up to two nodes')
def every_step(S):
    """each operation with each receiver, node and reference"""
    t = small(S, S.choice('shape', ['mixed', 'edges', 'deep', 'empty']))
    op = S.choice('op', OPS)
    names = sorted(t.real)
    recv = S.choice('receiver', ['r', 'a', 'c', 'k'])
    node = S.choice('node', names) if op != 'leave' else recv
    ref, index, more = None, 0, []
    if op in ('append', 'extend', 'extend_list', 'prepend'):
        other = S.choice('other', [None] + names)
        more = [] if other is None else [other]
    elif op in ('insert_before', 'replace', 'replace_child'):
        ref = S.choice('ref', [None, 'a', 'b', 'c', 'k', 'm', 'r'])
    elif op == 'insert':
        index = S.choice('index', [0, 1, 2, 3, 5, -1, -2])
    t.agree()
    t.step(op, recv, node, ref, index, more)
    t.agree()


@contract(bounded=True, runs=1500, secs=60)
def histories(S):
    """bounded: up to 25 operations on up to twelve nodes"""
    t = Forest(S)
    n = S.int('nodes', lo=3, hi=12)
    names = [t.new('n%d' % i, S.choice('kind', ['element', 'element',
                                                'element', 'comment', 'pi'])
                   if i else 'element') for i in range(n)]
    for i in range(S.int('steps', lo=1, hi=25)):
        op = S.choice('op', OPS)
        recv = S.choice('receiver', names)
        if op in ('addnext', 'addprevious'):
            inner = [m for m in names if t.parent(m)]
            recv = S.choice('inner', inner or names)
        kids = t.kids[recv]
        node = S.choice('node', names)
        ref = S.choice('ref', names + [None])
        if kids and S.choice('child', [True, True, False]):
            if op in ('insert_before', 'replace', 'replace_child'):
                ref = S.choice('a-child', kids)
            elif op in ('remove', 'remove_child'):
                node = S.choice('a-child', kids)
        more = [S.choice('more', names) for _ in range(S.int('n', lo=0, hi=3))]
        index = S.int('index', lo=-4, hi=6)
        t.step(op, recv, node, ref, index, more)
        t.agree()


@contract(bounded=True, runs=500, secs=30)
def document_siblings(S):
    """bounded: comments and processing instructions beside the root"""
    from svgpy.window import SVGDOMImplementation
    doc = SVGDOMImplementation().create_svg_document()
    root = doc.document_element
    real = {'root': root, 'x': doc.create_comment('x'),
            'y': doc.create_processing_instruction('y', 'y'),
            'z': doc.create_comment('z')}
    row = ['root']

    def same(a, names):
        a = list(a)
        return len(a) == len(names) and all(
            x is real[n] for x, n in zip(a, names))

    for i in range(S.int('steps', lo=1, hi=12)):
        op = S.choice('op', ['append', 'prepend', 'before', 'insert',
                             'remove', 'replace'])
        n = S.choice('node', ['x', 'y', 'z'])
        node = real[n]
        if op == 'append':
            if S.choice('one', [True, False]):
                out = doc.append_child(node)
                S.check('returns', out is node)
                new = [n]
            else:
                m = S.choice('second', ['x', 'y', 'z'])
                doc.append(node, real[m])
                new = [n, m] if n != m else [n]
            row = [k for k in row if k not in new] + new
        elif op == 'prepend':
            m = S.choice('second', [n, 'x', 'y', 'z'])
            doc.prepend(*([node] if m == n else [node, real[m]]))
            new = [n] if m == n else [n, m]
            row = new + [k for k in row if k not in new]
        elif op == 'before':
            ref = S.choice('ref', row)
            out = doc.insert_before(node, real[ref])
            S.check('returns', out is node)
            if ref != n:
                row = [k for k in row if k != n]
                row.insert(row.index(ref), n)
        elif op == 'insert':
            k = S.int('index', lo=-len(row), hi=len(row) - 1)
            ref = row[k]
            doc.insert(k, node)
            if ref != n:
                row = [k for k in row if k != n]
                row.insert(row.index(ref), n)
        elif op == 'replace':
            ref = S.choice('old', [k for k in row if k != 'root'] or ['x'])
            if ref not in row:
                _, exc = S.raises(lambda: doc.replace_child(node, real[ref]),
                                  Exception)
                S.check('fails', exc is not None)
            else:
                out = doc.replace_child(node, real[ref])
                S.check('returns', out is real[ref])
                if ref != n:
                    row = [k for k in row if k != n]
                    row[row.index(ref)] = n
        elif n not in row:
            _, exc = S.raises(lambda: doc.remove_child(node), Exception)
            S.check('fails', exc is not None)
        else:
            S.check('returns', doc.remove_child(node) is node)
            row.remove(n)
        S.check('children', same(doc.child_nodes, row)
                and same(iter(doc), row) and len(doc) == len(row)
                and same(doc.children, ['root']))
        S.check('root', doc.document_element is root
                and root.parent_node is None)
        for k, node in enumerate(row):
            a, b = real[node].previous_sibling, real[node].next_sibling
            S.check('siblings',
                    a is (real[row[k - 1]] if k else None)
                    and b is (real[row[k + 1]] if k + 1 < len(row)
                              else None))
