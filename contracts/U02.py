"""U02 - search parameters."""
from vlib.spec import contract
from svgpy.url import URL, URLSearchParams, Location

ASSUMPTIONS = [
    'urllib.parse quotes and unquotes characters as documented',
    'names and values are text; text handling is executed, not proved',
    'the order of the pairs carries no meaning (the code sorts them by '
    'name)']
CHARS = ['a', 'B', '7', ' ', '%', '%41', '%2', '%C3%A9', '+', '&', '=', '#',
         '?', ';', '/', '\\', "'", '"', '<', '~', '*', '-._', '&#x0025;',
         '&#1234;', '&#12;', '\n', '\t', 'é', '🍣', '\x00', '|']


def word(S, name):
    if S.choice(name + '?', [True, False, False]):
        return S.choice(name + '=', ['', 'k', 'q', 'x y'])
    return ''.join(S.choice(name, CHARS)
                   for _ in range(S.int(name + '#', lo=1, hi=5)))


def decode(s):
    """application/x-www-form-urlencoded, one component"""
    out = bytearray()
    i = 0
    s = s.replace('+', ' ')
    while i < len(s):
        hexa = s[i + 1:i + 3]
        if s[i] == '%' and len(hexa) == 2 and all(
                c in '0123456789abcdefABCDEF' for c in hexa):
            out.append(int(hexa, 16))
            i += 3
        else:
            out += s[i].encode()
            i += 1
    return out.decode('utf-8', 'replace')


def pairs(text):
    return [tuple(decode(x) for x in p.partition('=')[::2])
            for p in text.split('&') if p]


def shows(S, u, want):
    p = u.search_params
    S.check('mapping', dict(p) == want and len(p) == len(want)
            and set(p) == set(want) and set(p.items()) == set(want.items())
            and all(k in p and p[k] == p.get(k) == v
                    for k, v in want.items()))
    rows = sorted(want.items())
    S.check('search', u.search == '' if not want else
            u.search[0] == '?' and pairs(u.search[1:]) == rows)
    S.check('tostring', pairs(p.tostring()) == rows)
    text = u.search + p.tostring()
    S.check('encoded', not any(ord(c) <= 32 or ord(c) > 126 or c in '#"<>'
                               for c in text))
    S.check('href', u.search in u.href)


@contract(bounded=True, runs=5000, secs=60)
def histories(S):
    """bounded: up to fifteen changes of the parameters of a URL"""
    u = URL(S.choice('url', ['http://h/p', 'foo://h/#f', 'file:///p#x']))
    p = u.search_params
    want = {}
    for i in range(S.int('steps', lo=1, hi=15)):
        op = S.choice('op', ['set', 'set', 'set', 'del', 'pop', 'update',
                             'clear', 'search', 'own', 'href', 'default',
                             'popitem'])
        key = word(S, 'key')
        if want and S.choice('old', [True, False]):
            key = S.choice('which', sorted(want))
        if op == 'set':
            want[key] = p[key] = word(S, 'value')
        elif op == 'del':
            if key in want:
                del p[key], want[key]
            else:
                _, exc = S.raises(lambda: p.__delitem__(key), KeyError)
                S.check('missing', exc is not None and key not in p
                        and p.get(key) is None)
        elif op == 'pop':
            S.check('pop', p.pop(key, None) == want.pop(key, None))
        elif op == 'popitem':
            if want:
                k, v = p.popitem()
                S.check('popitem', want.pop(k, None) == v)
        elif op == 'update':
            more = {word(S, 'key'): word(S, 'value')
                    for _ in range(S.int('n', lo=0, hi=3))}
            p.update(more)
            want.update(more)
        elif op == 'clear':
            p.clear()
            want.clear()
        elif op == 'default':
            v = word(S, 'value')
            S.check('setdefault', p.setdefault(key, v)
                    == want.setdefault(key, v))
        elif op == 'own':
            # what the URL and its parameters show says the same
            u.search = S.choice('text', [u.search, u.search and
                                         '?' + p.tostring()])
        elif op == 'search':
            t = '&'.join(word(S, 'key') + S.choice('eq', ['=', '='])
                         + word(S, 'value')
                         for _ in range(S.int('n', lo=0, hi=3)))
            u.search = S.choice('mark', ['', '?']) + t \
                if not t.startswith('?') else '?' + t
            want.clear()
            want.update(pairs(t))
        else:
            u.href = u.href
            S.check('same', u.search_params is p)
        shows(S, u, want)
        v = URL(u.href)
        S.check('reparsed', dict(v.search_params) == want
                and v.href == u.href)


@contract(bounded=True, runs=2000, secs=30)
def from_mapping(S):
    """bounded: parameters made from a mapping, pairs or keywords"""
    kv = [(word(S, 'key'), word(S, 'value'))
          for _ in range(S.int('n', lo=0, hi=4))]
    how = S.choice('how', ['dict', 'pairs', 'kw', 'params'])
    if how == 'dict':
        p = URLSearchParams(dict(kv))
    elif how == 'pairs':
        p = URLSearchParams(kv)
    elif how == 'params':
        p = URLSearchParams(URLSearchParams(kv))
    else:
        p = URLSearchParams(**dict(kv))
    want = dict(kv)
    S.check('mapping', dict(p) == want and len(p) == len(want)
            and set(p) == set(want))
    S.check('tostring', pairs(p.tostring()) == sorted(want.items()))
    u = Location()
    u.href = 'http://h/?' + p.tostring()
    S.check('location', pairs(u.search[1:]) == sorted(want.items())
            and u.href == 'http://h/' + u.search)
