"""D04 - the views of an element's attributes."""
import re
from vlib.spec import contract
from svgpy.dom import Attr
from svgpy.element import SVGParser
from svgpy.exception import InUseAttributeError

ASSUMPTIONS = [
    'bounded: up to 20 operations on one element, a second element only as '
    'the owner of other attributes',
    'an empty text given to the attribute map, dataset or an attribute node '
    'removes the attribute; given to id, class or set() it is kept',
    'lxml\'s attribute dictionary']

XML = 'http://www.w3.org/XML/1998/namespace'
XLINK = 'http://www.w3.org/1999/xlink'
NAMES = [(None, 'x'), (None, 'id'), (None, 'class'), (None, 'data-a'),
         (None, 'data-a-b'), (None, 'data-a-1'), (None, 'data--a'),
         (None, 'data-x-'), (None, 'data-Up'), (None, 'style-x'),
         (XML, 'lang'), (XLINK, 'href'), ('urn:t', 'x')]
KEYS = ['a', 'aB', 'a-1', 'A', 'x-', 'new', 'fooBarBuz', 'a1', 'ü', '']
VALUES = ['1', 'v', 'two words', '<&">', 'ü', ' ', '0']


def full(ns, n):
    return '{%s}%s' % (ns, n) if ns else n


def key_of(name):
    """data- attribute name -> dataset key, or None"""
    if not name.startswith('data-') or re.search('[A-Z]', name):
        return None
    return re.sub('-([a-z])', lambda m: m.group(1).upper(), name[5:])


def name_of(key):
    return 'data-' + re.sub('([A-Z])', lambda m: '-' + m.group(1).lower(),
                            key)


def agree(S, e, want):
    """all views of the store"""
    S.check('attrib', dict(e.attrib) == want)
    S.check('names', e.get_attribute_names() == sorted(want))
    S.check('any', e.has_attributes() == bool(want))
    m = e.attributes
    S.check('map-size', len(m) == m.length == len(want))
    S.check('map-keys', sorted(m) == sorted(want))
    S.check('map-items', sorted(m.item(i).name for i in range(len(want)))
            == sorted(want) and m.item(len(want)) is None)
    for ns, n in NAMES:
        k = full(ns, n)
        v = want.get(k)
        S.check('get', e.get_attribute_ns(ns, n) == v and e.get(k) == v)
        S.check('has', e.has_attribute_ns(ns, n) == (k in want)
                and (k in m) == (k in want))
        a = m.get_named_item_ns(ns, n)
        S.check('node', (a is None) == (k not in want))
        if a is not None:
            S.check('node-value', a.value == v and a.owner_element is e
                    and a.node_value == v and a.text_content == v)
            S.check('node-name', (a.namespace_uri, a.local_name, a.name)
                    == (ns, n, k))
            S.check('same-node', a is m[k] and a is
                    e.get_attribute_node_ns(ns, n))
        if ns is None:
            S.check('plain', e.get_attribute(n) == v
                    and e.has_attribute(n) == (k in want)
                    and e.get_attribute_node(n) is a
                    and m.get_named_item(n) is a)
    keys = {key_of(k): k for k in want if key_of(k) is not None}
    S.check('dataset', {k: v for k, v in e.dataset.items()}
            == {k: want[n] for k, n in keys.items()})
    S.check('dataset-size', len(e.dataset) == len(keys))
    for k in KEYS:
        n = name_of(k)
        S.check('dataset-get', e.dataset.get(k) == want.get(n)
                and (k in e.dataset) == (n in want))
    S.check('id', e.id == want.get('id', ''))
    S.check('class', e.class_name == want.get('class', ''))
    S.check('classes', list(e.class_list) == list(dict.fromkeys(
        want.get('class', '').split())))


@contract(bounded=True, runs=2500, secs=60)
def views(S):
    """bounded: up to 20 operations through any view"""
    parser = SVGParser()
    e = parser.create_element_ns('http://www.w3.org/2000/svg', 'g')
    other = parser.create_element_ns('http://www.w3.org/2000/svg', 'g')
    other.set('x', 'others')
    want, loose = {}, []
    for i in range(S.int('steps', lo=1, hi=20)):
        ns, n = S.choice('name', NAMES)
        k, v = full(ns, n), S.choice('value', VALUES)
        op = S.choice('op', ['set', 'attribute', 'map', 'node', 'node-value',
                             'dataset', 'id', 'class', 'class-list', 'empty',
                             'remove', 'map-remove', 'node-remove',
                             'dataset-remove', 'toggle', 'in-use', 'loose'])
        if op == 'set':
            e.set(k, v)
            want[k] = v
        elif op == 'attribute':
            e.set_attribute_ns(ns, n, v)
            if ns is None and S.bool('again'):
                e.set_attribute(n, v)
            want[k] = v
        elif op == 'map':
            e.attributes[k] = v
            want[k] = v
        elif op == 'node':
            a = Attr(ns, n, v)
            old = e.attributes.get_named_item_ns(ns, n)
            was = want.get(k)
            r = S.choice('how', [e.attributes.set_named_item,
                                 e.attributes.set_named_item_ns,
                                 e.set_attribute_node,
                                 e.set_attribute_node_ns])(a)
            want[k] = v
            S.check('replaced', r is old)
            S.check('placed', e.attributes[k] is a and a.owner_element is e)
            if old is not None:
                S.check('released', old.owner_element is None
                        and old.value == was)
                loose.append((old, was))
        elif op == 'node-value':
            a = e.attributes.get_named_item_ns(ns, n)
            if a is not None:
                if S.bool('text'):
                    a.text_content = v
                else:
                    a.value = v
                want[k] = v
        elif op == 'dataset':
            key = S.choice('key', KEYS)
            e.dataset[key] = v
            want[name_of(key)] = v
        elif op == 'id':
            e.id = want['id'] = v
        elif op == 'class':
            e.class_name = want['class'] = v
        elif op == 'class-list':
            c = S.choice('token', ['1', 'v', 'tok'])
            old = list(dict.fromkeys(want.get('class', '').split()))
            e.class_list.toggle(c)
            new = [t for t in old if t != c] if c in old else old + [c]
            if new:
                want['class'] = ' '.join(new)
            else:
                want.pop('class', None)
        elif op == 'empty':
            how = S.choice('how', ['map', 'attribute', 'node', 'dataset'])
            empty = S.choice('empty', ['', None])
            if how == 'map':
                e.attributes[k] = empty
            elif how == 'attribute':
                e.set_attribute_ns(ns, n, empty)
            elif how == 'node':
                a = e.attributes.get_named_item_ns(ns, n)
                if a is not None:
                    a.value = empty
            else:
                key = S.choice('key', KEYS)
                k = name_of(key)
                e.dataset[key] = empty
            want.pop(k, None)
        elif op == 'remove':
            if ns is None and S.bool('plain'):
                e.remove_attribute(n)
            else:
                e.remove_attribute_ns(ns, n)
            want.pop(k, None)
        elif op == 'map-remove':
            how = S.choice('how', ['del', 'named', 'attrib'])
            a = e.attributes.get_named_item_ns(ns, n)
            _, x = S.raises(
                lambda: e.attributes.__delitem__(k) if how == 'del' else
                e.attrib.__delitem__(k) if how == 'attrib' else
                e.attributes.remove_named_item_ns(ns, n), KeyError)
            S.check('missing', (x is not None) == (k not in want))
            if a is not None and how != 'attrib':
                S.check('let-go', a.owner_element is None
                        and a.value == want[k])
            want.pop(k, None)
        elif op == 'node-remove':
            a = e.attributes.get_named_item_ns(ns, n)
            if a is not None:
                r = e.remove_attribute_node(a)
                S.check('removed', r is a and a.owner_element is None
                        and a.value == want[k])
                loose.append((a, want.pop(k)))
        elif op == 'dataset-remove':
            key = S.choice('key', KEYS)
            k = name_of(key)
            _, x = S.raises(lambda: e.dataset.__delitem__(key), KeyError)
            S.check('missing-key', (x is not None) == (k not in want))
            want.pop(k, None)
        elif op == 'toggle':
            if ns is None:
                force = S.choice('force', [None, True, False])
                r = e.toggle_attribute(n, force)
                on = n not in want if force is None else force
                S.check('toggled', r is on)
                if on:
                    want.setdefault(n, '')
                else:
                    want.pop(n, None)
        elif op == 'in-use':
            a = other.attributes['x']
            _, x = S.raises(lambda: e.set_attribute_node(a),
                            InUseAttributeError)
            S.check('in-use', x is not None and a.owner_element is other)
        elif op == 'loose' and loose:
            a, v = S.choice('which', loose)
            S.check('loose-kept', a.value == v)
            if a.owner_element is None and v:
                e.set_attribute_node(a)
                want[a.name] = v
                loose = [p for p in loose if p[0] is not a]
        agree(S, e, want)
        S.check('other', dict(other.attrib) == {'x': 'others'})


@contract(max_paths=4000, finite='keys and names of up to five characters '
          'of a, B, 1 and -')
def camel_case(S):
    """dataset names"""
    n = S.choice('length', [0, 1, 2, 3, 4, 5])
    key = ''.join(S.choice('c%d' % i, 'aB1-') for i in range(n))
    e = SVGParser().create_element_ns('http://www.w3.org/2000/svg', 'g')
    _, x = S.raises(lambda: e.dataset.__setitem__(key, 'v'), ValueError)
    bad = re.search('-[a-z]', key) is not None
    S.check('rejected', (x is not None) == bad)
    if bad:
        S.check('nothing', not e.attrib)
    else:
        S.check('name', dict(e.attrib) == {name_of(key): 'v'})
        S.check('key', list(e.dataset) == [key] and e.dataset[key] == 'v')
        del e.dataset[key]
        S.check('deleted', not e.attrib and not len(e.dataset))
    name = 'data-' + key
    e.set(name, 'w')
    k = key_of(name)
    S.check('read', list(e.dataset.items()) == (
        [] if k is None else [(k, 'w')]))
