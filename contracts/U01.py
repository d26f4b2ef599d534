"""U01 - URLs."""
from vlib.spec import contract
from svgpy.url import URL

ASSUMPTIONS = [
    'urllib.parse and the idna codec are trusted',
    'paths without empty segments and without encoded slashes, queries '
    'whose order carries no meaning (the code sorts and normalises them); '
    'file URLs without a host',
    'text handling is executed, not proved: the deciding executions are '
    'bounded']
DEFAULT = {'ftp:': '21', 'gopher:': '70', 'http:': '80', 'https:': '443',
           'ws:': '80', 'wss:': '443'}
PARTS = ['protocol', 'username', 'password', 'hostname', 'port', 'pathname',
         'search', 'hash']


def parts(u):
    d = {k: getattr(u, k) for k in PARTS}
    d['params'] = dict(u.search_params)
    return d


def agree(S, u):
    d = parts(u)
    port = d['port']
    host = d['hostname']
    if port and host and DEFAULT.get(d['protocol']) != port:
        host += ':' + port
    S.check('host', u.host == host)
    S.check('origin', u.origin == (
        d['protocol'] + '//' + host if host and d['protocol'] in DEFAULT
        else 'null'))
    text = d['protocol'] + '//'
    if host and d['protocol'] != 'file:':
        if d['username'] or d['password']:
            text += d['username']
            if d['password']:
                text += ':' + d['password']
            text += '@'
        text += host
    text += d['pathname'] + d['search']
    S.check('href', u.href == text + d['hash'] == u.tostring()
            and u.tostring(exclude_fragment=True) == text)
    S.check('leading', d['pathname'][:1] == '/'
            and d['search'][:1] in ('', '?') and d['search'] != '?'
            and d['hash'][:1] in ('', '#') and d['hash'] != '#')


def stable(S, u):
    v = URL(u.href)
    S.check('stable-href', v.href == u.href)
    a, b = parts(u), parts(v)
    if DEFAULT.get(a['protocol']) == a['port']:
        a['port'] = b['port']       # the default port is not written
    S.check('stable-parts', a == b)
    agree(S, v)


def pick(S, name, xs, lo, hi, sep=''):
    return sep.join(S.choice(name, xs)
                    for _ in range(S.int(name + '#', lo=lo, hi=hi)))


CHARS = ['a', 'Z', '0', 'b', ' ', '!', '"', '$', '%', '%41', '%2541', '%25',
         '%C3%A9', '%20', '&', "'", '(', '*', '+', ',', '-', '.', ';', '<',
         '=', '>', '@', '[', ']', '^', '_', '`', '{', '|', '}', '~', 'é',
         '✓', '🍣', '&#x0025;']
SEGMENTS = ['a', 'b', 'css', 'x.svg', 'é', 'a b', '%41', '%2541', '%25',
            '%3F', '%23', ';p=1', 'a=b&c', '~', '@', ':', '...', '"', '.',
            '..', '{x}', '🍣']
HOSTS = ['h', 'example.org', 'EXAMPLE.com', '127.0.0.1', '[::1]',
         '[2001:db8::1]', 'bücher.example', 'a-b.c']
PORTS = ['', '80', '443', '8080', '0', '0080', '65535', '21']
SCHEMES = ['http', 'HTTPS', 'ftp', 'ws', 'wss', 'gopher', 'foo', 'x-y+z.1']


def text(S, kind=None):
    """an absolute hierarchical URL"""
    s = S.choice('scheme', SCHEMES + ['file'])
    out = s + '://'
    if s != 'file':
        if S.choice('credentials', [False, False, True]):
            out += S.choice('user', ['', 'u', 'us er', 'u%40', 'ü'])
            out += S.choice('password', ['', ':p', ':p:w', ':%2f', ':é'])
            out += '@'
        out += S.choice('host', HOSTS)
        port = S.choice('port', PORTS)
        out += port and ':' + port
    n = S.int('segments', lo=0, hi=5)
    for i in range(n):
        out += '/' + S.choice('segment', SEGMENTS)
    if n == 0 and s == 'file' or S.choice('slash', [True, False]):
        out += '/'
    if S.choice('query', [True, False]):
        out += '?' + pick(S, 'q', CHARS + ['?', '/', '=', '&'], 0, 8)
    if S.choice('fragment', [True, False]):
        out += '#' + pick(S, 'f', CHARS + ['?', '/', '#'], 0, 8)
    return out


@contract(bounded=True, runs=4000, secs=40)
def parse(S):
    """bounded: absolute URLs keep their parts, and their text is stable"""
    t = text(S)
    u = URL(t)
    agree(S, u)
    stable(S, u)
    S.check('scheme', u.protocol == t.split(':')[0].lower() + ':')


def dots(path):
    """[RFC3986] 5.2.4"""
    out = []
    segs = path.split('/')
    for i, x in enumerate(segs):
        last = i == len(segs) - 1
        if x == '.':
            if last:
                out.append('')
        elif x == '..':
            if len(out) > 1:
                out.pop()
            if last:
                out.append('')
        else:
            out.append(x)
    if path.startswith('/') and (not out or out[0] != ''):
        out.insert(0, '')
    return '/'.join(out) if out != [''] else '/'


def split(ref):
    """[RFC3986] appendix B, without a scheme"""
    ref, hash_, frag = ref.partition('#')
    ref, q, query = ref.partition('?')
    netloc = None
    if ref.startswith('//'):
        netloc, sl, rest = ref[2:].partition('/')
        ref = sl + rest
    return netloc, ref, q + query, hash_ + frag


def resolve(base, ref):
    """[RFC3986] 5.2.2"""
    scheme, _, rest = base.partition(':')
    bn, bp, bq, bf = split(rest)
    n, p, q, f = split(ref)
    if n is not None:
        p = dots(p)
    else:
        n = bn
        if p == '':
            p = bp
            q = q or bq
        elif p.startswith('/'):
            p = dots(p)
        else:
            p = dots(bp.rpartition('/')[0] + '/' + p if bp else '/' + p)
    return '%s://%s%s%s%s' % (scheme, n, p, q, f)


@contract(bounded=True, runs=4000, secs=40)
def references(S):
    """bounded: references against a base, by the text of RFC 3986"""
    b = URL(text(S))
    ref = ''
    kind = S.choice('kind', ['path', 'path', 'absolute', 'host', 'none'])
    if kind == 'host':
        S.assume(b.protocol != 'file:')
        ref = '//' + S.choice('host', HOSTS) + '/'
    elif kind == 'absolute':
        ref = '/'
    if kind != 'none':
        first = [x for x in SEGMENTS if ':' not in x and '{' not in x]
        n = S.int('segments', lo=0 if kind != 'path' else 1, hi=4)
        segs = [S.choice('segment', first if i == 0 else SEGMENTS)
                for i in range(n)]
        ref += '/'.join(segs)
        if n and S.choice('slash', [True, False]):
            ref += '/'
    if S.choice('query', [True, False]):
        ref += '?' + pick(S, 'q', CHARS, 1, 4)
    if S.choice('fragment', [True, False]):
        ref += '#' + pick(S, 'f', CHARS, 1, 4)
    before = repr(b), b.href
    as_text = S.choice('base', [True, False])
    u = URL(ref, base=b.href if as_text else b)
    S.check('base-unchanged', (repr(b), b.href) == before)
    want = URL(resolve(b.href, ref))
    S.check('resolved', u.href == want.href and parts(u) == parts(want))
    agree(S, u)
    stable(S, u)


@contract(bounded=True, runs=300, secs=20)
def file_references(S):
    """bounded: a directory is the base of the files in it"""
    import os
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        sub = S.choice('dir', ['', 'x y', 'é'])
        p = os.path.join(d, sub) if sub else d
        os.makedirs(p, exist_ok=True)
        b = URL('file://' + p + S.choice('slash', ['', '/']))
        name = S.choice('name', ['a.svg', './a.svg', 'sub/a.svg', 'a b.svg',
                                 '../a.svg', '/a.svg', 'sub/', '#f', '?q=1',
                                 '', 'a.svg?q=1#f'])
        before = repr(b)
        u = URL(name, base=b)
        S.check('base-unchanged', repr(b) == before)
        head = b.href
        if name[:1] not in ('', '#', '?') and not head.endswith('/'):
            head += '/'
        S.check('resolved', u.href == URL(resolve(head, name)).href)
        agree(S, u)
        stable(S, u)


def change(S, u, part):
    """one assignment"""
    old = parts(u)
    href = u.href
    if part == 'protocol':
        v = S.choice('new-protocol', ['http', 'https:', 'FTP', 'foo', 'ws:',
                                      'a+b', '1a', 'a b', 'é', ':', 'h/'])
        ok = v.rstrip(':').lower() in ('http', 'https', 'ftp', 'foo', 'ws',
                                       'a+b')
        want = {'protocol': v.rstrip(':').lower() + ':'}
    elif part in ('username', 'password'):
        v = S.choice('new-' + part, ['', 'u', 'a b', 'a@b:c/d', '%41', 'é'])
        ok = True
        want = {part: {'': '', 'u': 'u', 'a b': 'a%20b',
                       'a@b:c/d': 'a%40b%3Ac%2Fd', '%41': 'A',
                       'é': '%C3%A9'}[v]}
    elif part == 'hostname':
        v = S.choice('new-hostname', ['x', 'Y.org', '[::1]', '::1', 'a b',
                                      'a/b', 'a@b', 'é.fr'])
        ok = v not in ('a b', 'a/b', 'a@b')
        want = {'hostname': {'Y.org': 'y.org', '::1': '[::1]',
                             'é.fr': 'xn--9ca.fr'}.get(v, v)}
    elif part == 'host':
        h = S.choice('new-host', ['x', '[::1]', 'a.b'])
        p = S.choice('with-port', ['', ':80', ':443', ':007', ':x',
                                   ':65536', ':70000'])
        v = h + p
        ok = p not in (':x', ':65536', ':70000')
        want = {'hostname': h, 'port': p[1:].lstrip('0')}
    elif part == 'port':
        v = S.choice('new-port', ['', '80', '443', '8080', '0080', '0',
                                  '65536', '-1', 'x', '8 0', '²'])
        ok = v not in ('65536', '-1', 'x', '8 0', '²')
        want = {'port': v if v in ('', '0') else v.lstrip('0')}
    elif part == 'pathname':
        v = S.choice('new-pathname', ['/a', 'a/b', '/a/../b', '../x', 'a/..',
                                      '/a b', '/%41', '/a?b', '/a#b', '.',
                                      '/x/./y/'])
        ok = True
        want = {'pathname': {'a/b': '/a/b', '/a/../b': '/b', '../x': '/x',
                             'a/..': '/', '/a b': '/a%20b', '/%41': '/A',
                             '/a?b': '/a%3Fb', '/a#b': '/a%23b', '.': '/',
                             '/x/./y/': '/x/y/'}.get(v, v)}
    elif part == 'search':
        v = S.choice('new-search', ['', '?', 'a=1', '?b=2&a=1', '??x=1', 'a',
                                    'a=b=c', 'a=%20', 'a=%2541', 'a=1&a=2',
                                    'a=%2B+', '&a=1&', 'a%3Db=1'])
        ok = True
        want = {'params': {'': {}, '?': {}, 'a=1': {'a': '1'},
                           '?b=2&a=1': {'a': '1', 'b': '2'},
                           '??x=1': {'?x': '1'}, 'a': {'a': ''},
                           'a=b=c': {'a': 'b=c'}, 'a=%20': {'a': ' '},
                           'a=%2541': {'a': '%41'}, 'a=1&a=2': {'a': '2'},
                           'a=%2B+': {'a': '+ '}, '&a=1&': {'a': '1'},
                           'a%3Db=1': {'a=b': '1'}}[v]}
    else:
        v = S.choice('new-hash', ['', '#', 'f', '#f', '##f', 'a b', '%41',
                                  '%2541', '100%', 'a#b', '#%25'])
        ok = True
        want = {'hash': {'': '', '#': '', 'f': '#f', '#f': '#f',
                         '##f': '##f', 'a b': '#a%20b', '%41': '#A',
                         '%2541': '#%2541', '100%': '#100%', 'a#b': '#a#b',
                         '#%25': '#%'}[v]}

    def call():
        setattr(u, part, v)
    if not ok:
        _, exc = S.raises(call, ValueError)
        S.check('rejected', exc is not None)
        S.check('unchanged', parts(u) == old and u.href == href)
        return
    call()
    new = parts(u)
    for k, x in want.items():
        S.check('set-' + part, new[k] == x)
    touched = set(want) | ({'search'} if 'params' in want else set())
    S.check('only-' + part, all(new[k] == old[k] for k in new
                                if k not in touched))


@contract(max_paths=60000, prove_s=300, finite='four URLs, each pair of '
          'parts assigned in turn, with the listed values')
def setters(S):
    """what a setter names is what it changes"""
    u = URL(S.choice('url', ['http://h:443/p?q=1#f', 'https://u:p@[::1]/',
                             'foo://h:80/', 'http://h:80/a/b/']))
    for i in range(2):
        part = S.choice('part', ['protocol', 'username', 'password', 'host',
                                 'hostname', 'port', 'pathname', 'search',
                                 'hash'])
        change(S, u, part)
        agree(S, u)
    stable(S, u)


@contract(bounded=True, runs=3000, secs=40)
def histories(S):
    """bounded: up to 15 assignments to one URL"""
    u = URL(text(S))
    S.assume(u.protocol != 'file:')
    params = u.search_params
    for i in range(S.int('steps', lo=1, hi=15)):
        part = S.choice('part', ['protocol', 'username', 'password', 'host',
                                 'hostname', 'port', 'pathname', 'search',
                                 'hash', 'href', 'bad'])
        if part == 'href':
            t = text(S)
            S.assume(not t.startswith('file'))
            u.href = t
            v = URL(t)
            S.check('href-set', u.href == v.href and parts(u) == parts(v))
        elif part == 'bad':
            old, href = parts(u), u.href
            t = S.choice('bad', ['', 'x', '/a', 'http://h:99999/p',
                                 'http://h:x/p', 'ftp://:80/p', 'data:',
                                 'http://u@/', 'http://a%b/c', 'ws://[::1/'])

            def call():
                u.href = t
            _, exc = S.raises(call, ValueError)
            S.check('rejected', exc is not None)
            S.check('unchanged', parts(u) == old and u.href == href)
        else:
            change(S, u, part)
        agree(S, u)
        stable(S, u)
        S.check('same-params', u.search_params is params)
