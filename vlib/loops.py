"""Symbolic sequences and the loop rule.

`for x in xs: BODY` over a sequence of symbolic, unbounded length is cut at a
loop contract (invariant):
   entry:      contract.enter(env)            -- invariant holds initially
   then:       contract.havoc(env, k)         -- arbitrary state satisfying it
   k <  n:     BODY runs once on element k, contract.check(env, k) -- preserved
   k == n:     execution continues after the loop
Variables assigned in the body that the contract does not describe become
Poison (any use is `unsupported`), and objects reachable from the function's
variables that the contract does not declare modified must be unchanged after
BODY (frame check).
"""
import ast
import builtins
import difflib
import sys

import z3

from . import sym
from .sym import Atom, PathEnd, Poison, SymBool, SymInt, SymReal, Unsupported

SEQ_OWNERS = {}


class NumText(object):
    """The text of some number whose value is symbolic."""
    def __init__(self, value):
        self.value = value

    def _no(self, *a, **k):
        raise Unsupported('string operation on number text')
    __iter__ = __len__ = __add__ = __radd__ = __getitem__ = _no
    __contains__ = __lt__ = __gt__ = __str__ = __mod__ = _no
    __hash__ = None

    def __eq__(self, o):
        return self is o

    def strip(self, *a):
        return self

    def __getattr__(self, name):
        raise Unsupported('string operation %s on number text' % name)


class SymSeq(object):
    """Unknown prefix of symbolic length + concrete suffix."""

    def __init__(self, name, length, elem, contract=None, last=None,
                 ghost=None):
        self.name = name
        self.plen = length
        self.elem = elem          # SymInt term -> element
        self.suffix = []
        self.cache = {}
        self.contract = contract
        self._last = last         # callable: the last element of the prefix
        self.ghost = ghost
        self._last_val = None

    @property
    def length(self):
        return self.plen + len(self.suffix)

    def at(self, k):
        key = k.t.get_id() if isinstance(k, SymInt) else k
        if key not in self.cache:
            self.cache[key] = (k, self.elem(k))
        return self.cache[key][1]

    def append(self, x):
        self.suffix.append(x)

    def extend(self, xs):
        if isinstance(xs, SymSeq):
            raise Unsupported('extend by a symbolic sequence')
        self.suffix.extend(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __bool__(self):
        n = self.length
        return bool(n != 0)

    def __getitem__(self, i):
        if isinstance(i, int) and i < 0:
            if -i <= len(self.suffix):
                return self.suffix[i]
            if i + len(self.suffix) == -1 and self._last is not None:
                if bool(self.plen == 0):
                    raise IndexError('list index out of range')
                if self._last_val is None:
                    self._last_val = self._last()
                return self._last_val
        if isinstance(i, (int, SymInt)) and not self.suffix \
                and self.elem is not None:
            if isinstance(i, SymInt) or i >= 0:
                if bool(i >= self.plen):
                    raise IndexError('list index out of range')
                k = i if isinstance(i, SymInt) else SymInt(z3.IntVal(i))
                return self.at(k)
        raise Unsupported('symbolic sequence indexing %r' % (i,))

    def __iter__(self):
        raise Unsupported('iteration over a symbolic sequence outside a '
                          'for statement')

    def __len__(self):
        raise Unsupported('len of a symbolic sequence')

    def _no(self, *a, **k):
        raise Unsupported('operation on a symbolic sequence')
    __contains__ = __setitem__ = __delitem__ = __add__ = __radd__ = _no
    insert = pop = remove = clear = index = count = reverse = sort = _no
    copy = _no
    __hash__ = None

    def __eq__(self, other):
        return self is other


class SymIter(object):
    def __init__(self, seq, enum=False, start=0):
        self.seq = seq
        self.enum = enum
        self.start = start

    def __iter__(self):
        raise Unsupported('iteration over a symbolic sequence outside a '
                          'for statement')


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    attr = SEQ_OWNERS.get(type(x))
    if attr is not None:
        v = getattr(x, attr)
        if isinstance(v, SymSeq):
            return v
    return None


def seq_len(x):
    s = as_seq(x)
    if s is not None:
        return s.length
    return builtins.len(x)


def iter_(x, *a):
    if isinstance(x, SymIter):
        return x
    s = as_seq(x) if not a else None
    if s is not None:
        return SymIter(s)
    return builtins.iter(x, *a)


def enum_(x, start=0):
    if isinstance(x, SymIter):
        return SymIter(x.seq, True, start)
    s = as_seq(x)
    if s is not None:
        return SymIter(s, True, start)
    return builtins.enumerate(x, start)


def reversed_(x):
    if as_seq(x) is not None or isinstance(x, SymIter):
        raise Unsupported('reversed symbolic sequence')
    return builtins.reversed(x)


# ------------------------------------------------------------- frame check

def fingerprint(v, depth=4, seen=None):
    if seen is None:
        seen = set()
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, (SymReal, SymInt, SymBool)):
        return ('t', v.t.get_id())
    if isinstance(v, (Atom, NumText, Poison)):
        return id(v)
    if id(v) in seen or depth == 0:
        return id(v)
    seen.add(id(v))
    if isinstance(v, SymSeq):
        return ('seq', id(v), tuple(id(x) for x in v.suffix))
    if isinstance(v, (list, tuple)):
        return (id(v) if isinstance(v, list) else 't',
                tuple(fingerprint(x, depth - 1, seen) for x in v))
    if isinstance(v, dict):
        try:
            return (id(v), tuple((fingerprint(a, 1, seen),
                                  fingerprint(b, depth - 1, seen))
                                 for a, b in v.items()))
        except Unsupported:
            return id(v)
    if type(v).__module__ == 'numpy' and hasattr(v, 'flat'):
        return (id(v), tuple(fingerprint(x, 1, seen) for x in v.flat))
    if type(v).__module__.startswith('svgpy') and hasattr(v, '__dict__'):
        return (id(v), tuple((a, fingerprint(b, depth - 1, seen))
                             for a, b in vars(v).items()))
    return id(v)


class LoopContract(object):
    """Override in contracts."""
    modifies = ()      # names of variables whose objects the loop may modify

    def enter(self, env):
        raise NotImplementedError

    def havoc(self, env, k):
        raise NotImplementedError

    def check(self, env, k):
        raise NotImplementedError


class Ctl(object):
    symbolic = False

    def __init__(self, it):
        self.items = it

    def __iter__(self):
        return builtins.iter(self.items)


def aliases(order, names):
    """Renamed variables: {current name: the name the contract uses}.

    `order` lists the variables of the function in the order the contract was
    written against.  A variable that changed its name is found by its place
    between those that did not.  A wrong guess cannot prove anything: the
    obligations of the loop contract are about the values."""
    names = list(names)
    if not order or set(order) <= set(names):
        return {}
    out = {}
    m = difflib.SequenceMatcher(None, order, names, autojunk=False)
    for tag, a0, a1, b0, b1 in m.get_opcodes():
        if tag == 'replace' and a1 - a0 == b1 - b0:
            for a, b in zip(order[a0:a1], names[b0:b1]):
                if a not in names and b not in order:
                    out[b] = a
    return out


class SymCtl(object):
    symbolic = True

    def __init__(self, seq, enum, start):
        self.seq = seq
        self.enum = enum
        self.start = start
        self.state = 0
        if seq.contract is None:
            raise Unsupported('loop over a symbolic sequence without a '
                              'contract')
        if seq.suffix:
            raise Unsupported('loop over an extended symbolic sequence')

    def havoc(self, env, names, assigned):
        ex = sym.CTX
        c = self.seq.contract
        self.alias = aliases(getattr(c, 'order', ()), names)
        actual = {v: k for k, v in self.alias.items()}
        self.modifies = {actual.get(n, n) for n in c.modifies}
        env = dict(env)
        c.enter(self.view(env))
        k = z3.Int('k!%d' % len(ex.inputs))
        ex.inputs['k!%d' % len(ex.inputs)] = (None, k)
        self.k = SymInt(k)
        ex.assume(mk(z3.And(k >= 0, k <= self.seq.plen.t)))
        ex.havoc_used = True
        new = c.havoc(self.view(env), self.k)
        new = {actual.get(n, n): v for n, v in new.items()}
        unknown = [n for n in new if n not in names]
        if unknown:
            raise Unsupported('loop contract names unknown variables %s'
                              % unknown)
        self.described = set(new)
        out = []
        for n in names:
            if n in new:
                out.append(new[n])
            elif n in assigned or n not in env:
                out.append(Poison(n))
            else:
                out.append(env[n])
        return tuple(out)

    def view(self, env):
        """the variables under the names the contract knows"""
        return {self.alias.get(n, n): v for n, v in env.items()}

    def __iter__(self):
        return self

    def __next__(self):
        ex = sym.CTX
        env = sys._getframe(1).f_locals
        if self.state == 0:
            self.state = 1
            if ex.branch(self.k.t < self.seq.plen.t):
                x = self.seq.at(self.k)
                self.before = {n: fingerprint(v) for n, v in env.items()
                               if n not in self.described}
                self.elem_fp = fingerprint(x)
                self.x = x
                if self.enum:
                    return self.k + self.start, x
                return x
            self.state = 2
            self.seq.contract.done = True
            raise StopIteration
        if self.state == 1:
            c = self.seq.contract
            for n, fp in self.before.items():
                v = env.get(n)
                if isinstance(v, Poison):
                    continue
                if n in self.modifies:
                    continue
                if n in self.assigned_names:
                    continue
                if fingerprint(v) != fp:
                    raise Unsupported('loop modifies %s, which its contract '
                                      'does not declare' % n)
            if fingerprint(self.x) != self.elem_fp and \
                    '<element>' not in c.modifies:
                ex.prove(False, 'loop-frame:element-not-modified')
            c.check(self.view(env), self.k)
            ex.ended = True
            raise PathEnd()
        raise StopIteration


def mk(t):
    return sym.mkbool(t)


class RTClass(object):
    @staticmethod
    def loop(it, assigned=()):
        if isinstance(it, SymIter):
            c = SymCtl(it.seq, it.enum, it.start)
        else:
            s = as_seq(it)
            if s is None:
                return Ctl(it)
            c = SymCtl(s, False, 0)
        c.assigned_names = set(assigned)
        return c


RT = RTClass()


class _Names(ast.NodeVisitor):
    """names stored in a statement list, own scope only"""
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ClassDef(self, node):
        self.add(node.name)

    def _comp(self, node):
        for g in node.generators[:1]:
            self.visit(g.iter)
    visit_ListComp = visit_SetComp = visit_DictComp = _comp
    visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, node):
        for s in node.body:
            self.visit(s)

    def visit_Import(self, node):
        pass
    visit_ImportFrom = visit_Import


def stored(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v.names


class Rewriter(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.fn = []
        self.n = 0

    def visit_FunctionDef(self, node):
        names = stored(node.body)
        banned = set()
        for s in ast.walk(node):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                banned.update(s.names)
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        allnames = [n for n in params + [x for x in names if x not in params]
                    if n not in banned]
        exc = {h.name for h in ast.walk(node)
               if isinstance(h, ast.ExceptHandler) and h.name}
        allnames = [n for n in allnames if n not in exc]
        self.fn.append(allnames)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        self.fn.append(None)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_For(self, node):
        assigned = stored([node])
        self.generic_visit(node)
        if not self.fn or self.fn[-1] is None:
            return node
        names = self.fn[-1]
        self.n += 1
        c = '_vrt_c%d' % self.n
        pre = ast.parse(
            '%s = _vrt.loop(0, %r)\n'
            'if %s.symbolic:\n'
            '    (%s,) = %s.havoc(locals(), %r, %r)\n'
            % (c, tuple(assigned), c, ', '.join(names) or '_vrt_none', c,
               tuple(names) or ('_vrt_none',), tuple(assigned))).body
        pre[0].value.args[0] = node.iter
        node.iter = ast.Name(c, ast.Load())
        for p in pre:
            ast.copy_location(p, node)
            for q in ast.walk(p):
                if 'lineno' in getattr(q, '_attributes', ()):
                    q.lineno = node.lineno
                    q.end_lineno = node.lineno
                    q.col_offset = q.end_col_offset = 0
        return pre + [node]
