"""Path explorer and obligation prover.

A contract is a Python function  c(S)  that builds inputs through S, calls the
real functions of /repo and states clauses with S.check(...).  Here S is a
SymSource: inputs are symbolic, every path is enumerated, every clause on every
path is one or more proof obligations  PC ==> clause  discharged by an SMT
solver.  concrete.py runs the same contract on the unmodified code.
"""
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import sym
from .sym import PI, PathEnd, Unsupported, SymBool, SymInt, SymReal, \
    bool_term, mkbool, real_term

CVC5 = '/usr/bin/cvc5'


class Budget(BaseException):
    pass


class Explorer(object):

    def __init__(self, fn, name, tier='quick', max_paths=4000,
                 time_limit=600, feas_ms=1500, prove_ms=15000, opts=None):
        self.fn = fn
        self.name = name
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.opts = opts or {}
        self.trail = []
        self.obligations = []    # dicts
        self.paths = 0
        self.complete_paths = 0
        self.models = []         # (decision signature, model values)
        self.unsupported = None
        self.solver_s = 0.0
        self.backends = {}
        self.assumed = set()

    # -- per path state -------------------------------------------------
    def _reset(self):
        self.pos = 0
        self.pc = []
        self.keep = []
        self._axioms = {}
        self.deg2rad = {}
        self.inputs = {}
        self.uf_used = False
        self.havoc_used = False
        self.names = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        self._add(z3.And(PI > sym.rat(Fraction(314159, 100000)),
                         PI < sym.rat(Fraction(314160, 100000))))
        self.path_obl = 0
        self.ended = False

    def _add(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def has_axiom(self, key):
        return key in self._axioms

    def axiom(self, key, keep, t):
        if key in self._axioms:
            return
        self._axioms[key] = True
        self.keep.append(keep)
        self._add(t)

    def _check(self, *extra):
        t0 = time.time()
        if t0 > self.deadline:
            raise Budget()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t0
        return r

    def _feasible(self, t):
        r = self._check(t)
        if r == z3.unknown and len(self.pc) > 4:
            # a subset of the facts that is unsatisfiable is enough
            part = self._slice(t)
            if len(part) < len(self.pc):
                s = z3.Solver()
                s.set('timeout', self.feas_ms)
                s.add(*part)
                s.add(t)
                t0 = time.time()
                if s.check() == z3.unsat:
                    r = z3.unsat
                self.solver_s += time.time() - t0
        return r

    def _slice(self, t):
        """the facts connected with t through shared symbols"""
        todo = [(f, _symbols(f)) for f in self.pc]
        seen = set(_symbols(t))
        out = []
        more = True
        while more:
            more = False
            rest = []
            for f, names in todo:
                if names & seen:
                    out.append(f)
                    seen |= names
                    more = True
                else:
                    rest.append((f, names))
            todo = rest
        return out

    # -- decisions --------------------------------------------------------
    def branch(self, t):
        if self.ended:
            raise PathEnd()
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
            self.pos += 1
            self._add(t if v else z3.Not(t))
            return v
        r1 = self._feasible(t)
        r0 = self._feasible(z3.Not(t))
        if r1 == z3.unsat and r0 == z3.unsat:
            self.ended = True
            raise PathEnd()
        if r1 == z3.unsat:
            ent = [False, None, 2]
        elif r0 == z3.unsat:
            ent = [True, None, 2]
        else:
            ent = [True, [False], 2]
        self.trail.append(ent)
        self.pos += 1
        self._add(t if ent[0] else z3.Not(t))
        return ent[0]

    def choose(self, n):
        """n-way fork, returns 0..n-1."""
        if self.ended:
            raise PathEnd()
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
        else:
            v = 0
            self.trail.append([0, list(range(1, n)), n])
        self.pos += 1
        return v

    def assume(self, t):
        if self.ended:
            raise PathEnd()
        if isinstance(t, bool):
            if not t:
                self.ended = True
                raise PathEnd()
            return
        if isinstance(t, SymBool):
            t = t.t
        self._add(t)
        if self._check() == z3.unsat:
            self.ended = True
            raise PathEnd()

    def _backtrack(self):
        while self.trail:
            ent = self.trail[-1]
            if ent[1]:
                ent[0] = ent[1].pop(0)
                return True
            self.trail.pop()
        return False

    # -- obligations --------------------------------------------------------
    def prove(self, cond, label):
        if self.ended:
            raise PathEnd()
        ob = {'name': '%s/p%d/%s' % (self.name, self.paths, label),
              'clause': label, 'status': 'unknown', 'by': 'time budget'}
        self.obligations.append(ob)
        self.path_obl += 1
        t0 = time.time()
        if not isinstance(cond, (bool, SymBool)):
            cond = bool(cond)
        if isinstance(cond, bool):
            if cond:
                ob['status'], ob['by'] = 'discharged', 'execution'
            else:
                r = self._check()
                if r == z3.unsat:
                    ob['status'], ob['by'] = 'discharged', 'infeasible path'
                else:
                    ob['status'], ob['by'] = 'refuted', 'execution'
                    if r == z3.sat:
                        ob['model'] = self._small_model()
                    elif r == z3.unknown:
                        m = self._fresh_model(z3.BoolVal(True))
                        if m == 'unsat':
                            ob['status'] = 'discharged'
                        elif m is None:
                            ob['status'] = 'unknown'
                        else:
                            ob['model'] = m
        else:
            st, by, model = self._prove_term(cond.t)
            ob['status'], ob['by'] = st, by
            if model is not None:
                ob['model'] = model
        if ob['status'] == 'refuted':
            ob['soft'] = bool(self.havoc_used)
            ob['inputs'] = {k: v[0] for k, v in self.inputs.items()}
            ob['trail'] = [e[0] for e in self.trail[:self.pos]]
        ob['t'] = round(time.time() - t0, 4)
        self.solver_s += time.time() - t0
        self.backends[ob['by']] = self.backends.get(ob['by'], 0) + 1
        return ob['status'] == 'discharged'

    def _small_model(self, *extra):
        """a model with small inputs when there is one (better for replay);
        call after the solver said sat"""
        first = self.model_values(self.solver.model())
        bounds = []
        for name, (val, term) in self.inputs.items():
            if term is not None and (z3.is_real(term) or z3.is_int(term)):
                bounds += [term >= -1000, term <= 1000]
        if not bounds or time.time() > self.deadline:
            return first
        self.solver.push()
        try:
            self.solver.set('timeout', 300)
            self.solver.add(*bounds)
            self.solver.add(*extra)
            if self.solver.check() == z3.sat:
                return self.model_values(self.solver.model())
        finally:
            self.solver.pop()
            self.solver.set('timeout', self.feas_ms)
        return first

    def _fresh_model(self, extra):
        s = z3.Solver()
        s.set('timeout', self.prove_ms)
        s.add(*self.pc)
        s.add(extra)
        r = s.check()
        if r == z3.sat:
            return self.model_values(s.model())
        if r == z3.unsat:
            return 'unsat'
        return None

    def _prove_term(self, t):
        if time.time() > self.deadline:
            raise Budget()
        ts = z3.simplify(t, som=True, mul_to_power=False)
        if z3.is_true(ts):
            return 'discharged', 'z3-simplify', None
        ts = _poly_eq(t)
        if z3.is_true(ts):
            return 'discharged', 'z3-simplify', None
        neg = z3.Not(t)
        # 1. incremental solver
        self.solver.set('timeout', min(3000, self.prove_ms))
        self.solver.push()
        self.solver.add(neg)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self._small_model()
        self.solver.pop()
        self.solver.set('timeout', self.feas_ms)
        if r == z3.unsat:
            return 'discharged', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', m
        # 2. the facts connected with the clause alone (enough for a proof)
        part = self._slice(neg)
        if len(part) < len(self.pc):
            facts, goal = _abstract_uf(part + [neg])
            for tac in ('qfnra-nlsat', 'default'):
                s = (z3.Solver() if tac == 'default' else z3.TryFor(
                    z3.Then('simplify', 'solve-eqs', 'purify-arith', tac),
                    self.prove_ms).solver())
                s.set('timeout', self.prove_ms)
                s.add(*facts)
                try:
                    if s.check() == z3.unsat:
                        return 'discharged', 'z3-%s-sliced' % tac, None
                except z3.Z3Exception:
                    pass
        # 3. fresh solver, nlsat on abstracted terms
        facts, goal = _abstract_uf(self.pc + [neg])
        for tac in ('qfnra-nlsat', 'default'):
            s = (z3.Solver() if tac == 'default'
                 else z3.TryFor(z3.Then('simplify', 'solve-eqs', 'purify-arith',
                                        tac), self.prove_ms).solver())
            s.set('timeout', self.prove_ms)
            s.add(*facts)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                return 'discharged', 'z3-' + tac, None
            if r == z3.sat:
                s2 = z3.Solver()
                s2.set('timeout', self.prove_ms)
                s2.add(*self.pc)
                s2.add(neg)
                for name, (val, term) in self.inputs.items():
                    if term is None:
                        continue
                # keep the abstract model's input values as a hint only
                vals = self._values_from(s.model(), goal)
                return 'refuted', 'z3-' + tac, vals
        # 4. cvc5
        r = self._cvc5(facts)
        if r == 'unsat':
            return 'discharged', 'cvc5', None
        return 'unknown', 'z3+cvc5', None

    def _cvc5(self, facts):
        s = z3.Solver()
        s.add(*facts)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2',
                                         delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run([CVC5, '--tlimit=%d' % self.prove_ms, f.name],
                               capture_output=True, text=True,
                               timeout=self.prove_ms / 1000 + 5)
            return p.stdout.split('\n')[0].strip()
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        finally:
            os.unlink(f.name)

    # -- models -----------------------------------------------------------
    def _values_from(self, m, back):
        out = {}
        for name, (val, term) in self.inputs.items():
            if term is None:
                out[name] = val
            else:
                out[name] = _val(m, term)
        return out

    def model_values(self, m):
        out = {}
        for name, (val, term) in self.inputs.items():
            if term is None:
                out[name] = val
            else:
                out[name] = _val(m, term)
        return out

    # -- main ---------------------------------------------------------------
    def run(self, source_cls):
        sym.set_ctx(self)
        while True:
            self._reset()
            self.paths += 1
            S = source_cls(self)
            try:
                self.fn(S)
                done = True
            except PathEnd:
                done = False
            except Budget:
                self.unsupported = 'time budget exhausted'
                break
            except Unsupported as e:
                self.unsupported = 'unsupported: %s' % e
                break
            except RecursionError as e:
                self.unsupported = 'recursion: %s' % e
                break
            except Exception as e:  # the code raised where it must not
                import traceback
                tb = traceback.format_exc(limit=-4)
                if 'Sym' in str(e):
                    # a symbolic value where the library needs a plain one
                    self.unsupported = 'unsupported: %s' % str(e)[:200]
                    break
                try:
                    self.prove(False, 'no-exception[%s]' % type(e).__name__)
                except Budget:
                    self.unsupported = 'time budget exhausted'
                    break
                except PathEnd:
                    pass
                else:
                    self.obligations[-1]['traceback'] = tb
                done = True
            if done and self.path_obl:
                self.complete_paths += 1
                if len(self.models) < self.opts.get('max_models', 200):
                    try:
                        r = self._check()
                        if r == z3.sat:
                            self.models.append(self._small_model())
                    except Budget:
                        pass
            self.trail = self.trail[:max(self.pos, 0)]
            if self.paths >= self.max_paths:
                self.unsupported = 'path limit %d' % self.max_paths
                break
            if not self._backtrack():
                break
        sym.set_ctx(None)
        return self


_SYMBOLS = {}


def _symbols(t):
    """names of the uninterpreted symbols of a term, without pi"""
    key = t.get_id()
    hit = _SYMBOLS.get(key)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out = set()
    todo = [t]
    done = set()
    while todo:
        x = todo.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    not x.eq(PI):
                out.add(x.decl().name() if x.num_args() == 0
                        else '%s%s' % (x.decl().name(), x.get_id()))
            todo += x.children()
    if len(_SYMBOLS) > 20000:
        _SYMBOLS.clear()
    _SYMBOLS[key] = (t, frozenset(out))
    return _SYMBOLS[key][1]


def _val(m, term):
    v = m.eval(term, model_completion=True)
    try:
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(),
                                  v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return float(Fraction(a.numerator_as_long(),
                                  a.denominator_as_long()))
    except OverflowError:
        return None
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def _poly_eq(t):
    """a == b with a, b rational functions: the cross-multiplied numerator is
    the zero polynomial (denominators are non-zero: every division of the code
    is guarded by the path condition)."""
    if z3.is_eq(t) and t.arg(0).sort() == z3.RealSort():
        d = z3.simplify(t.arg(0) - t.arg(1), som=True, mul_to_power=True)
        if sym.const_of(d) == 0:
            return z3.BoolVal(True)
        try:
            na, da = _ratfun(t.arg(0), {}, [400])
            nb, db = _ratfun(t.arg(1), {}, [400])
        except _TooBig:
            return t
        d = z3.simplify(na * db - nb * da, som=True, mul_to_power=True)
        if sym.const_of(d) == 0:
            return z3.BoolVal(True)
    return t


class _TooBig(Exception):
    pass


def _ratfun(e, cache, fuel):
    """-> (num, den) z3 terms without division"""
    k = e.get_id()
    if k in cache:
        return cache[k]
    fuel[0] -= 1
    if fuel[0] < 0:
        raise _TooBig()
    one = z3.RealVal(1)
    if z3.is_add(e):
        n, d = _ratfun(e.arg(0), cache, fuel)
        for a in e.children()[1:]:
            n2, d2 = _ratfun(a, cache, fuel)
            if d.eq(d2):
                n = n + n2
            else:
                n, d = n * d2 + n2 * d, d * d2
    elif z3.is_sub(e):
        n, d = _ratfun(e.arg(0), cache, fuel)
        for a in e.children()[1:]:
            n2, d2 = _ratfun(a, cache, fuel)
            if d.eq(d2):
                n = n - n2
            else:
                n, d = n * d2 - n2 * d, d * d2
    elif z3.is_mul(e):
        n, d = one, one
        for a in e.children():
            n2, d2 = _ratfun(a, cache, fuel)
            n = n * n2
            d = d * d2
    elif z3.is_div(e):
        n1, d1 = _ratfun(e.arg(0), cache, fuel)
        n2, d2 = _ratfun(e.arg(1), cache, fuel)
        n, d = n1 * d2, d1 * n2
    elif e.decl().kind() == z3.Z3_OP_UMINUS:
        n, d = _ratfun(e.arg(0), cache, fuel)
        n = -n
    else:
        n, d = e, one
    if not d.eq(one):
        n = z3.simplify(n, som=True)
        d = z3.simplify(d, som=True)
    cache[k] = (n, d)
    return n, d


def _abstract_uf(facts):
    """Replaces applications of uninterpreted real functions by constants
    (congruence between distinct applications is lost, which is sound for
    proving)."""
    cache = {}
    seen = {}

    def go(e):
        k = e.get_id()
        if k in seen:
            return seen[k][1]
        if z3.is_app(e) and e.num_args() > 0:
            args = [go(a) for a in e.children()]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                kk = e.get_id()
                if kk not in cache:
                    cache[kk] = z3.Real('uf!%d' % len(cache))
                r = cache[kk]
            elif z3.is_and(e):
                r = z3.And(*args)
            elif z3.is_or(e):
                r = z3.Or(*args)
            else:
                r = e.decl()(*args)
        else:
            r = e
        seen[k] = (e, r)
        return r
    out = [go(f) for f in facts]
    return out, cache


class SymSource(object):
    """Inputs and clauses, symbolic reading."""
    symbolic = True

    def __init__(self, ex):
        self.ex = ex
        self.note = {}

    def _name(self, name):
        n = self.ex.names.get(name, 0)
        self.ex.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def real(self, name, lo=None, hi=None, pool=None, **kw):
        name = self._name(name)
        t = z3.Real(name)
        self.ex.inputs[name] = (None, t)
        if lo is not None:
            self.ex._add(t >= sym.rat(Fraction(lo)))
        if hi is not None:
            self.ex._add(t <= sym.rat(Fraction(hi)))
        return SymReal(t)

    # in proofs angles are unbounded; the concrete reading samples sensibly
    angle = real

    def reals(self, name, n, **kw):
        return [self.real('%s%d' % (name, i), **kw) for i in range(n)]

    def int(self, name, lo=None, hi=None, **kw):
        name = self._name(name)
        t = z3.Int(name)
        self.ex.inputs[name] = (None, t)
        if lo is not None:
            self.ex._add(t >= lo)
        if hi is not None:
            self.ex._add(t <= hi)
        return SymInt(t)

    def atom(self, name, **kw):
        name = self._name(name)
        t = z3.Int(name)
        self.ex.inputs[name] = (None, t)
        return sym.Atom(t, name)

    def choice(self, name, options):
        name = self._name(name)
        options = list(options)
        k = self.ex.choose(len(options))
        self.ex.inputs[name] = (k, None)
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def fork(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not isinstance(cond, (bool, SymBool)):
            cond = bool(cond)
        self.ex.assume(cond)

    # -- clauses
    def check(self, label, cond):
        return self.ex.prove(cond, label)

    def eq(self, a, b, tol=None, stol=None):
        """numeric equality: exact over the reals.  tol: relative tolerance
        of concrete executions only; stol: tolerance of the proof too (where
        a float constant of the code is itself rounded)."""
        ta, tb = real_term(a), real_term(b)
        if ta is None or tb is None:
            raise Unsupported('eq on non-numbers %r %r' % (a, b))
        if stol is None:
            c = mkbool(ta == tb)
            return c
        d = ta - tb
        e = sym.rat(Fraction(str(stol)))
        ab = z3.If(tb >= 0, tb, -tb)
        return mkbool(z3.And(d <= e * (1 + ab), -d <= e * (1 + ab)))

    def check_eq(self, label, a, b, tol=None, stol=None):
        if real_term(a) is None or real_term(b) is None:
            return self.check(label, type(a) == type(b) and a == b)
        return self.check(label, self.eq(a, b, tol, stol))

    def check_seq(self, label, xs, ys, tol=None, stol=None):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return self.check(label + '.len', False)
        ok = True
        for i, (x, y) in enumerate(zip(xs, ys)):
            ok &= self.check_eq('%s[%d]' % (label, i), x, y, tol, stol)
        return ok

    def le(self, a, b):
        return a <= b

    def and_(self, *cs):
        ts = [bool_term(c) for c in cs]
        return mkbool(z3.And(*ts))

    def or_(self, *cs):
        return mkbool(z3.Or(*[bool_term(c) for c in cs]))

    def not_(self, c):
        return mkbool(z3.Not(bool_term(c)))

    def implies(self, a, b):
        return mkbool(z3.Implies(bool_term(a), bool_term(b)))

    def iff(self, a, b):
        return mkbool(bool_term(a) == bool_term(b))

    def ite(self, c, a, b):
        ct = bool_term(c)
        ct = z3.simplify(ct)
        if z3.is_true(ct):
            return a
        if z3.is_false(ct):
            return b
        return SymReal(z3.If(ct, real_term(a), real_term(b)))

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(self._b(x < r), x, r)
        return r

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(self._b(x > r), x, r)
        return r

    @staticmethod
    def _b(c):
        return c

    def sin(self, x):
        return sym.sin_(x)

    def cos(self, x):
        return sym.cos_(x)

    def tan(self, x):
        return sym.tan_(x)

    def radians(self, x):
        return sym.radians_(x)

    def sqrt(self, x):
        return sym.sqrt_(x)

    def raises(self, fn, *excs):
        """-> (result, exception or None)"""
        try:
            return fn(), None
        except excs as e:
            return None, e

    def assumption(self, text):
        self.ex.assumed.add(text)
