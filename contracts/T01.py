"""T01 - the matrix of a transform list of any length."""
import z3
from collections.abc import MutableSequence
from vlib.spec import contract
from vlib import sym
from vlib.sym import SymReal
from vlib.loops import SymSeq, LoopContract, SEQ_OWNERS
from svgpy.transform import SVGTransform, SVGTransformList
from common import *

ASSUMPTIONS = [
    'product_any_length, consolidate: SVGTransform.matrix of an item is a '
    'fresh 2d DOMMatrix with fixed components (its contract is proved in T02)',
    'collections.abc.MutableSequence.clear empties the sequence']

I, R = z3.IntSort(), z3.RealSort()
M = [z3.Function('M_%s' % c, I, R) for c in 'abcdef']    # k-th item's matrix
Pf = [z3.Function('P_%s' % c, I, R) for c in 'abcdef']   # product of first k


def at(fs, k):
    t = k.t if hasattr(k, 't') else z3.IntVal(k)
    return [SymReal(f(t)) for f in fs]


class AnyTransform(SVGTransform):
    """an item known only by the contract of its matrix property"""
    def __init__(self, k):
        self.k = k

    @property
    def matrix(self):
        return DOMMatrix(at(M, self.k))


def step(k):
    """definition of the ghost product: P(k+1) = P(k) M(k)"""
    p, m = r2d(*at(Pf, k)), r2d(*at(M, k))
    r = mm(p, m)
    want = [r[0][0], r[1][0], r[0][1], r[1][1], r[0][3], r[1][3]]
    t = k.t
    for f, w in zip(Pf, want):
        sym.CTX.assume(sym.mkbool(f(t + 1) == sym.real_term(w)))


def base():
    for f, w in zip(Pf, [1, 0, 0, 1, 0, 0]):
        sym.CTX.assume(sym.mkbool(f(z3.IntVal(0)) == w))


def six(m):
    return [m.a, m.b, m.c, m.d, m.e, m.f]


class Product(LoopContract):
    """before item k the accumulator is the product of the first k items"""

    def __init__(self, S):
        self.S = S

    def acc(self, env):
        n = [n for n, v in env.items() if isinstance(v, DOMMatrixReadOnly)]
        if len(n) != 1:
            raise sym.Unsupported('no single matrix accumulator')
        return n[0]

    def enter(self, env):
        self.name = self.acc(env)
        m = env[self.name]
        self.S.check_seq('inv-entry', six(m), at(Pf, 0))
        self.S.check('inv-entry-2d', bool(m.is2d))
        self.cls = type(m)

    def havoc(self, env, k):
        step(k)
        return {self.name: self.cls(at(Pf, k))}

    def check(self, env, k):
        m = env[self.name]
        self.S.check('inv-2d', bool(m.is2d))
        self.S.check_seq('inv-step', six(m), at(Pf, k + 1))


def any_list(S):
    """-> list, number of items, product matrix components"""
    t = SVGTransformList()
    if S.symbolic:
        SEQ_OWNERS[SVGTransformList] = '_items'
        n = S.int('n', lo=0)
        base()
        t._items = SymSeq('items', n, AnyTransform, Product(S))
        return t, n, at(Pf, n)
    n = S.int('n', lo=0, hi=9)
    p = IDENT
    how = S.choice('how', ['any', 'any', 'cancel', 'identity', 'flat'])
    for i in range(n):
        x = SVGTransform()
        v = [S.rng.randint(-3, 3) for _ in range(6)]
        if how == 'identity':
            v = [1, 0, 0, 1, 0, 0]
        elif how == 'flat':
            v[S.rng.choice([0, 3])] = 0
            v[1] = v[2] = 0
        elif how == 'cancel':
            # there and back: the whole list is the identity
            if i % 2:
                v = back
            else:
                v = S.rng.choice([[1, 0, 0, 1, 3, -2], [2, 0, 0, .5, 0, 0],
                                  [0, 1, -1, 0, 0, 0], [1, 2, 0, 1, 0, 0]])
                d = v[0] * v[3] - v[1] * v[2]
                back = [v[3] / d, -v[1] / d, -v[2] / d, v[0] / d,
                        -v[4], -v[5]]
        x._set_matrix(*v)
        t.append(x)
        p = mm(p, r2d(*x.values))
    return t, n, [p[0][0], p[1][0], p[0][1], p[1][1], p[0][3], p[1][3]]


@contract()
def product_any_length(S):
    t, n, want = any_list(S)
    items = t._items
    m = t.matrix
    if n == 0:
        S.check('empty-has-no-matrix', m is None)
        return
    S.check('type', type(m) is DOMMatrix)
    S.check_seq('product', six(m), want)
    S.check('2d', m.is2d is True)
    S.check('list-unchanged', t._items is items and bool(len(items) == n)
            if not S.symbolic else t._items is items and not items.suffix)


@contract()
def transform_any_length(S):
    t, n, want = any_list(S)
    x = t.transform
    if n == 0:
        S.check('empty-has-no-transform', x is None)
        return
    S.check('type', x.type == SVGTransform.SVG_TRANSFORM_MATRIX)
    S.check_seq('values', x.values, want)


@contract()
def consolidate(S):
    t, n, want = any_list(S)
    if S.symbolic and SVGTransformList.clear is MutableSequence.clear:
        def clear(self):
            self._items = []
        SVGTransformList.clear = clear
    r = t.consolidate()
    if n == 0:
        S.check('empty', r is None)
        return
    items = list(t._items)
    S.check('one-item', len(items) == 1 and items[0] is r)
    S.check('type', r.type == SVGTransform.SVG_TRANSFORM_MATRIX)
    S.check_seq('values', r.values, want)
    if S.symbolic:
        SEQ_OWNERS.pop(SVGTransformList, None)
    S.check_seq('same-matrix', six(t.matrix), want)


@contract()
def concrete_kinds(S):
    """three items of any kinds, in this order"""
    p = IDENT
    t = SVGTransformList()
    for i in range(S.choice('n', [1, 2, 3])):
        v = S.reals('v%d_' % i, 2)
        k = S.choice('kind%d' % i, ['translate', 'scale', 'matrix'])
        x = SVGTransform()
        if k == 'translate':
            x.set_translate(*v)
            q = r2d(1, 0, 0, 1, *v)
        elif k == 'scale':
            x.set_scale(*v)
            q = r2d(v[0], 0, 0, v[1], 0, 0)
        else:
            w = v + [2, 3, 5, 7]
            x.set_matrix(DOMMatrix(w))
            q = r2d(*w)
        t.append(x)
        p = mm(p, q)
    m = t.matrix
    S.check_seq('product', flat(rows(m)), flat(p))


@contract(bounded=True, runs=3000, secs=20)
def list_operations(S):
    """random operation sequences against an ordinary list (up to 12
    operations); anything but a transform is rejected"""
    r = S.rng
    n = S.int('ops', lo=1, hi=12)
    seed = S.int('seed', lo=0, hi=10 ** 9)
    import random
    r = random.Random(seed)
    t, model = SVGTransformList(), []

    def new():
        return SVGTransform(SVGTransform.SVG_TRANSFORM_TRANSLATE,
                            r.randint(-9, 9), r.randint(-9, 9))

    def same():
        S.check('length', len(t) == len(model) == t.length
                == t.number_of_items)
        S.check('items', len(list(t)) == len(model) and
                all(a is b for a, b in zip(t, model)))
        for i in range(len(model)):
            S.check('get', t[i] is model[i] and t.get_item(i) is model[i])

    def pair(f, g):
        a = b = ea = eb = None
        try:
            a = f()
        except Exception as e:
            ea = type(e)
        try:
            b = g()
        except Exception as e:
            eb = type(e)
        S.check('same-outcome', ea is eb)
        return a, b

    for _ in range(n):
        op = r.choice(['append', 'append_item', 'insert', 'insert_before',
                       'set', 'replace', 'del', 'remove', 'clear', 'init',
                       'reverse', 'pop', 'extend', 'iadd', 'add', 'bad',
                       'slice', 'setslice', 'index'])
        x = new()
        i = r.randint(-2, len(model) + 1)
        if op == 'append':
            t.append(x)
            model.append(x)
        elif op == 'append_item':
            S.check('returns', t.append_item(x) is x)
            model.append(x)
        elif op == 'insert':
            t.insert(i, x)
            model.insert(i, x)
        elif op == 'insert_before':
            S.check('returns', t.insert_item_before(x, i) is x)
            model.insert(i, x)
        elif op == 'set':
            pair(lambda: t.__setitem__(i, x), lambda: model.__setitem__(i, x))
        elif op == 'replace':
            a, b = pair(lambda: t.replace_item(x, i),
                        lambda: (model.__setitem__(i, x), x)[1])
            S.check('returns', a is b)
        elif op == 'del':
            pair(lambda: t.__delitem__(i), lambda: model.__delitem__(i))
        elif op == 'remove':
            a, b = pair(lambda: t.remove_item(i), lambda: model.pop(i)
                        if model else [][i])
            S.check('returns', a is b)
        elif op == 'clear':
            t.clear()
            model.clear()
        elif op == 'init':
            S.check('returns', t.initialize(x) is x)
            model[:] = [x]
        elif op == 'reverse':
            t.reverse()
            model.reverse()
        elif op == 'pop':
            a, b = pair(t.pop, lambda: model.pop() if model else [][0])
            S.check('returns', a is b)
        elif op == 'extend':
            xs = [new() for _ in range(r.randint(0, 3))]
            t.extend(xs)
            model.extend(xs)
        elif op == 'iadd':
            xs = [new() for _ in range(r.randint(0, 3))]
            t += xs
            model += xs
        elif op == 'add':
            xs = [new() for _ in range(r.randint(0, 3))]
            u = t + xs
            S.check('sum', u is not t and
                    [y.values for y in u] ==
                    [y.values for y in model + xs])
        elif op == 'bad':
            bad = r.choice([None, 1, 'rotate(9)', [], DOMMatrix()])
            k = r.choice(['append', 'insert', 'set', 'setslice', 'append_item',
                          'initialize', 'replace'])
            e = None
            try:
                if k == 'append':
                    t.append(bad)
                elif k == 'insert':
                    t.insert(0, bad)
                elif k == 'set':
                    if not model:
                        continue
                    t[0] = bad
                elif k == 'setslice':
                    t[0:1] = [bad]
                elif k == 'append_item':
                    t.append_item(bad)
                elif k == 'replace':
                    if not model:
                        continue
                    t.replace_item(bad, 0)
                else:
                    t.initialize(bad)
                    model.clear()
            except TypeError as x:
                e = x
                if k == 'initialize':
                    model[:] = list(t)
            S.check('rejected', e is not None)
        elif op == 'slice':
            S.check('slice', list(t[:2]) == model[:2])
        elif op == 'setslice':
            xs = [new() for _ in range(r.randint(0, 3))]
            t[0:1] = xs
            model[0:1] = xs
        elif op == 'index' and model:
            y = r.choice(model)
            S.check('index', t.index(y) == model.index(y) and y in t)
        same()
