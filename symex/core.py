"""Path-exploring symbolic executor for the real Python code.

The functions of /repo are executed by CPython itself on symbolic numbers (class Sym:
exact rational functions over real variables).  Every truth test on a symbolic condition
asks the SMT solver which outcomes are possible under the path so far and forks; a
property is an assertion whose negation is sent to the solver together with the path.
"""
import math
import time
import signal
import numpy as _np
import z3
from fractions import Fraction
import poly as P
from poly import Poly


# ------------------------------------------------------------------ control flow
class Unsupported(BaseException):
    """The encoding cannot represent this operation: the run is inconclusive."""


class PathAbandon(BaseException):
    """The path's assumptions are unsatisfiable."""


class BoundExceeded(BaseException):
    """The path made more decisions than the stated bound (unwinding check)."""


class Undefined(BaseException):
    """Division by zero, or square root of a negative number."""


# ------------------------------------------------------------------ formulas
class F:
    __slots__ = ('k', 'a', '_z')
    # k: 'T' 'F' 'atom'(poly, rel) 'and'[..] 'or'[..] 'b'(name, positive)

    def __init__(self, k, a=None):
        self.k = k
        self.a = a
        self._z = None

    def neg(self):
        k = self.k
        if k == 'T':
            return FALSE
        if k == 'F':
            return TRUE
        if k == 'atom':
            p, r = self.a
            if r == '>':
                return atom(-p, '>=')
            if r == '>=':
                return atom(-p, '>')
            if r == '==':
                return atom(p, '!=')
            return atom(p, '==')
        if k == 'and':
            return f_or([x.neg() for x in self.a])
        if k == 'or':
            return f_and([x.neg() for x in self.a])
        return F('b', (self.a[0], not self.a[1]))

    def vars(self):
        if self.k == 'atom':
            return self.a[0].vars()
        if self.k in ('and', 'or'):
            s = set()
            for x in self.a:
                s |= x.vars()
            return s
        if self.k == 'b':
            return {'b:' + self.a[0]}
        return set()

    def z3(self):
        if self._z is None:
            k = self.k
            if k == 'T':
                z = z3.BoolVal(True)
            elif k == 'F':
                z = z3.BoolVal(False)
            elif k == 'atom':
                p, r = self.a
                e = poly_z3(p)
                z = {'>': e > 0, '>=': e >= 0, '==': e == 0, '!=': e != 0}[r]
            elif k == 'and':
                z = z3.And([x.z3() for x in self.a])
            elif k == 'or':
                z = z3.Or([x.z3() for x in self.a])
            else:
                z = z3.Bool(self.a[0])
                if not self.a[1]:
                    z = z3.Not(z)
            self._z = z
        return self._z

    def key(self):
        if self.k == 'atom':
            return ('atom', self.a[0], self.a[1])
        if self.k in ('and', 'or'):
            return (self.k,) + tuple(x.key() for x in self.a)
        return (self.k, self.a)

    def slack(self, d):
        """A stronger formula that keeps every inequality away from its boundary."""
        if self.k == 'atom':
            p, r = self.a
            if r in ('>', '>='):
                return atom(p - Poly.const(d), '>=')
            if r == '!=':
                return f_or([atom(p - Poly.const(d), '>='), atom(-p - Poly.const(d), '>=')])
            return self
        if self.k == 'and':
            return f_and([x.slack(d) for x in self.a])
        if self.k == 'or':
            return f_or([x.slack(d) for x in self.a])
        return self

    def size(self):
        if self.k in ('and', 'or'):
            return sum(x.size() for x in self.a)
        return 1

    def __str__(self):
        if self.k == 'atom':
            return '%s %s 0' % (poly_str(self.a[0]), self.a[1])
        if self.k in ('and', 'or'):
            return '(' + (' %s ' % self.k).join(map(str, self.a)) + ')'
        if self.k == 'b':
            return ('' if self.a[1] else '!') + self.a[0]
        return self.k


TRUE, FALSE = F('T'), F('F')


def atom(p, r):
    if p.is_const():
        c = p.const_value()
        v = {'>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[r]
        return TRUE if v else FALSE
    c, q = p.primitive()
    if r in ('==', '!='):
        return F('atom', (q, r))
    return F('atom', (q if c > 0 else -q, r))


def f_and(xs):
    out = []
    for x in xs:
        if x.k == 'F':
            return FALSE
        if x.k == 'T':
            continue
        if x.k == 'and':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else F('and', out)


def f_or(xs):
    out = []
    for x in xs:
        if x.k == 'T':
            return TRUE
        if x.k == 'F':
            continue
        if x.k == 'or':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else F('or', out)


def f_xor(a, b):
    return f_or([f_and([a, b.neg()]), f_and([a.neg(), b])])


def poly_z3(p):
    terms = []
    for m, c in p.t.items():
        f = [ENG.zvar(v) for v, e in m for _ in range(e)]
        k = z3.RealVal(c)
        if not f:
            terms.append(k)
        else:
            x = f[0]
            for y in f[1:]:
                x = x * y
            terms.append(x if c == 1 else k * x)
    if not terms:
        return z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def poly_str(p, limit=6):
    out = []
    for i, (m, c) in enumerate(p.t.items()):
        if i == limit:
            out.append('...(%d terms)' % len(p.t))
            break
        out.append('*'.join([str(float(c)) if c.denominator > 1000 else str(c)] +
                            ['%s%s' % (ENG.vname(v), '^%d' % e if e > 1 else '') for v, e in m]))
    return ' + '.join(out) or '0'


# ------------------------------------------------------------------ engine
class VarInfo:
    __slots__ = ('name', 'defs', 'deps', 'z', 'kind')

    def __init__(self, name, kind):
        self.name = name
        self.kind = kind
        self.defs = []      # formulas that always hold of this variable
        self.deps = set()   # variables its definition mentions
        self.z = None


class Engine:
    def __init__(self, max_decisions=400, tmo=4000, budget=600.0):
        self.max_decisions = max_decisions
        self.tmo = tmo
        self.deadline = time.time() + budget
        self.stats = dict(queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, cached=0,
                          paths=0, decisions=0, forks=0, proved=0, abandoned=0, undefined=0)
        self.cache = {}
        self.prefix = []
        self.trace = []
        self.stack = []
        self.unknown_branches = 0
        self.reset()

    # -- per path state
    def reset(self):
        self.vars = []
        self.names = {}
        self.cons = []
        self.facts = {}
        self.bfacts = {}
        self.known = set()
        self.trig = {}
        self.roots = {}
        self.rounded = {}
        self.trace = []
        self.inputs = []
        self.fmodel = None
        self.fresh = 0
        P.RULES.clear()

    def zvar(self, v):
        i = self.vars[v]
        if i.z is None:
            i.z = z3.ToReal(z3.Int(i.name)) if i.kind == 'int' else z3.Real(i.name)
        return i.z

    def vname(self, v):
        return self.vars[v].name

    def new_var(self, name, kind='input'):
        if name in self.names:
            n = 1
            while '%s#%d' % (name, n) in self.names:
                n += 1
            name = '%s#%d' % (name, n)
        v = len(self.vars)
        self.names[name] = v
        self.vars.append(VarInfo(name, kind))
        self.fmodel_stale = True
        return v

    def define(self, v, f):
        """f always holds of v (part of its definition)."""
        self.vars[v].defs.append(f)
        self.vars[v].deps |= {x for x in f.vars() if x != v}
        self._learn(f)

    # -- facts: cheap sign knowledge
    def congruence(self, p):
        """p == 0 was just learned: equal angles have equal cosines and sines."""
        if len(self.trig) == 0:
            return
        new = []
        keys = list(self.trig.values())
        for i, (c1, s1, y1) in enumerate(keys):
            if y1.den:
                continue
            v1 = [Poly.var(c1), Poly.var(s1)]
            _, q = p.primitive()
            a = constant_offset(y1.num, q)
            if a is not None:
                k, w = cos_sin(a)
                for v, t in zip(v1, (k, w)):
                    if k * w == 0:
                        new.append(atom(v - Poly.const(t), '=='))
                    else:
                        new += [atom(v - Poly.const(t - Fraction(1, 10 ** 14)), '>='), atom(Poly.const(t + Fraction(1, 10 ** 14)) - v, '>=')]
            for c2, s2, y2 in keys[:i]:
                if y2.den:
                    continue
                for sg in (1, -1):
                    d = y1.num - y2.num if sg == 1 else y1.num + y2.num
                    if not d.t or d.primitive()[1] == q:
                        new += [atom(v1[0] - Poly.var(c2), '=='),
                                atom(v1[1] - Poly.var(s2) if sg == 1 else v1[1] + Poly.var(s2), '==')]
        for f in new:
            self.cons.append(f)
            self._learn(f)

    def _learn(self, f):
        if f.k == 'atom':
            p, r = f.a
            if r == '==' and self.trig and len(p.t) <= 8 and f.key() not in self.known:
                self.known.add(f.key())
                self.congruence(p)
            c, q = p.primitive()
            s = {'>': {1}, '>=': {0, 1}, '==': {0}, '!=': {-1, 1}}[r]
            if c < 0:
                s = {-x for x in s}
            old = self.facts.get(q, {-1, 0, 1})
            self.facts[q] = old & s
            if 0 not in self.facts[q] and len(q.t) == 1:
                (mono, _), = q.t.items()
                if len(mono) == 1 and mono[0][1] == 1 and self.vars[mono[0][0]].kind == 'sqrt':
                    c2, q2 = P.RULES[mono[0][0]].primitive()
                    if not q2.is_const():
                        self.facts[q2] = {1} if c2 > 0 else {-1}
        elif f.k == 'and':
            for x in f.a:
                self._learn(x)
        elif f.k == 'b':
            self.bfacts[f.a[0]] = f.a[1]
        self.known.add(f.key())

    def simplify(self, f):
        if f.k == 'atom':
            p, r = f.a
            c, q = p.primitive()
            s = self.facts.get(q)
            if s is None:
                s = structural_sign(q, self)
                if s is None:
                    return f
            if c < 0:
                s = {-x for x in s}
            ok = {'>': {1}, '>=': {0, 1}, '==': {0}, '!=': {-1, 1}}[r]
            if s <= ok:
                return TRUE
            if not (s & ok):
                return FALSE
            return f
        if f.k == 'and':
            return f_and([self.simplify(x) for x in f.a])
        if f.k == 'or':
            return f_or([self.simplify(x) for x in f.a])
        if f.k == 'b':
            v = self.bfacts.get(f.a[0])
            if v is None:
                return f
            return TRUE if v == f.a[1] else FALSE
        return f

    # -- solver
    def closure(self, f):
        """Variables of f and everything their definitions mention."""
        vs = set(f.vars())
        todo = [v for v in vs if not isinstance(v, str)]
        while todo:
            for d in self.vars[todo.pop()].deps:
                if d not in vs:
                    vs.add(d)
                    todo.append(d)
        return vs

    def slice(self, fs, seed):
        """The constraints connected to the seed formula by shared variables."""
        todo = set(seed)
        seen = set()
        defs = []
        rest = [(f, self.closure(f)) for f in fs]
        out = []
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            if not isinstance(v, str):
                defs.extend(self.vars[v].defs)
                todo |= self.vars[v].deps - seen
            nrest = []
            for f, vs in rest:
                if v in vs:
                    out.append(f)
                    todo |= vs - seen
                else:
                    nrest.append((f, vs))
            rest = nrest
        return out + defs

    def check(self, fs, want_model=False, tmo=None, goal=None):
        """Satisfiability of the conjunction fs (plus definitions)."""
        if time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        if any(f.k == 'F' for f in fs):
            return ('unsat', None)
        if goal is not None:
            use = self.slice(fs, goal.vars()) + [goal]
        else:
            vs = set()
            for f in fs:
                vs |= f.vars()
            use = self.slice(fs, vs)
        key = None
        if not want_model:
            key = frozenset(f.key() for f in use)
            hit = self.cache.get(key)
            if hit is not None:
                self.stats['cached'] += 1
                return (hit, None)
        tmo = tmo or self.tmo
        t0 = time.time()
        res, model = self._solve(use, tmo, want_model)
        dt = time.time() - t0
        self.stats['solver_s'] += dt
        if SLOW and dt > SLOW:
            import sys as _sys
            print('SLOW %.1fs %s goal=%s\n     %s' % (dt, res, str(goal)[:300], ' ; '.join(str(x)[:160] for x in use)[:3000]), file=_sys.stderr)
        self.stats['queries'] += 1
        self.stats[res] += 1
        if key is not None:
            self.cache[key] = res
        return (res, model)

    def _solve(self, use, tmo, want_model):
        zs = [f.z3() for f in use]
        hasbool = any(isinstance(v, str) or self.vars[v].kind == 'int' for f in use for v in f.vars())
        lin = all(_linear(f) for f in use)
        if hasbool or lin:
            order = ['smt', 'nlsat']
        else:
            order = ['nlsat', 'smt']
        for k in order:
            try:
                if k == 'nlsat':
                    s = z3.Tactic('qfnra-nlsat').solver()
                else:
                    s = z3.Solver()
                s.set('timeout', tmo)
                s.add(*zs)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return ('unsat', None)
            if r == z3.sat:
                if not want_model:
                    return ('sat', None)
                m = s.model()
                return ('sat', self._model(m, use))
        return ('unknown', None)

    def _model(self, m, use):
        val = {}
        for d in m.decls():
            n = d.name()
            x = m[d]
            if n in self.names:
                val[self.names[n]] = num_val(x)
            elif z3.is_bool(x):
                val['b:' + n] = z3.is_true(x)
        return val

    # -- branching
    def branch(self, f):
        f = self.simplify(f)
        if f.k == 'T':
            return True
        if f.k == 'F':
            return False
        if f.key() in self.known:
            return True
        if f.neg().key() in self.known:
            return False
        i = len(self.trace)
        if i >= self.max_decisions:
            raise BoundExceeded('more than %d decisions on one path' % self.max_decisions)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
            self.trace.append((d, forced))
            g = f if d else f.neg()
            self._learn(g)
            if not forced:
                self.cons.append(g)
            return d
        n = f.neg()
        self.stats['decisions'] += 1
        a, _ = self.check(self.cons, goal=f)
        if a == 'unsat':
            self.trace.append((False, True))
            self._learn(n)
            return False
        b, _ = self.check(self.cons, goal=n)
        if b == 'unsat':
            self.trace.append((True, True))
            self._learn(f)
            return True
        if a == 'unknown' or b == 'unknown':
            self.unknown_branches += 1
        self.stats['forks'] += 1
        self.stack.append(self.trace + [(False, False)])
        self.trace.append((True, False))
        self._learn(f)
        self.cons.append(f)
        return True

    def assume(self, f):
        f = self.simplify(f)
        if f.k == 'T':
            return
        if f.k == 'F':
            raise PathAbandon()
        if f.k == 'and':
            for x in f.a:
                self.cons.append(x)
                self._learn(x)
        else:
            self.cons.append(f)
            self._learn(f)
        if len(self.trace) >= len(self.prefix):
            r, _ = self.check(self.cons, goal=f)
            if r == 'unsat':
                raise PathAbandon()

    def entails(self, f):
        """True only if the solver shows f on this path (no fork)."""
        f = self.simplify(f)
        if f.k == 'T':
            return True
        if f.k == 'F':
            return False
        if f.key() in self.known:
            return True
        r, _ = self.check(self.cons, goal=f.neg())
        if r == 'unsat':
            self._learn(f)
            return True
        return False


def num_val(x):
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported('model value %r' % x)


def _linear(f):
    if f.k == 'atom':
        return f.a[0].degree() <= 1
    if f.k in ('and', 'or'):
        return all(_linear(x) for x in f.a)
    return True


def structural_sign(q, eng):
    """Sign knowledge that needs no solver: sums of even powers, known-sign variables."""
    signs = set()
    strict = False
    for m, c in q.t.items():
        s = 1 if c > 0 else -1
        pos = True
        nonzero = True
        for v, e in m:
            if e % 2 == 0:
                if not ({0} & eng.facts.get(Poly.var(v), {-1, 0, 1})):
                    continue
                nonzero = False
                continue
            fs = eng.facts.get(Poly.var(v), {-1, 0, 1})
            if fs <= {1}:
                continue
            if fs <= {0, 1}:
                nonzero = False
                continue
            if fs <= {-1}:
                s = -s
                continue
            if fs <= {-1, 0}:
                s = -s
                nonzero = False
                continue
            return None
        signs.add(s)
        strict = strict or nonzero
        if len(signs) > 1:
            return None
    s = signs.pop()
    return {s} if strict else {0, s}


import os
SLOW = float(os.environ.get('SYMEX_SLOW', '0'))
ENG = Engine()


def set_engine(e):
    global ENG
    ENG = e


# ------------------------------------------------------------------ symbolic booleans
class SymBool:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ENG.branch(self.f)

    def __and__(self, o):
        return SymBool(f_and([self.f, to_f(o)]))

    def __or__(self, o):
        return SymBool(f_or([self.f, to_f(o)]))

    def __xor__(self, o):
        return SymBool(f_xor(self.f, to_f(o)))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return SymBool(self.f.neg())

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return SymBool(f_xor(self.f, to_f(o)).neg())
        return int(bool(self)) == o

    def __ne__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return SymBool(f_xor(self.f, to_f(o)))
        return int(bool(self)) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def any(self):
        return self

    all = any

    def item(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % self.f


def to_f(x):
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, F):
        return x
    if isinstance(x, Sym):
        return x.cmp('!=', 0)
    return TRUE if x else FALSE


def And(*xs):
    return SymBool(f_and([to_f(x) for x in _flat(xs)]))


def Or(*xs):
    return SymBool(f_or([to_f(x) for x in _flat(xs)]))


def Not(x):
    return SymBool(to_f(x).neg())


def Implies(a, b):
    return SymBool(f_or([to_f(a).neg(), to_f(b)]))


def Iff(a, b):
    return SymBool(f_xor(to_f(a), to_f(b)).neg())


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


# ------------------------------------------------------------------ symbolic reals
NUM = (int, float, Fraction, _np.floating, _np.integer, _np.bool_)


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('arithmetic with %r' % x)
    r = repr(x)
    # a short literal is read as the decimal number the source shows
    return Fraction(r) if len(r) <= 14 else Fraction(x)


def _inf(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


class Sym:
    """num / prod(f**e): den maps a primitive Poly to its exponent."""
    __slots__ = ('num', 'den')
    ndim = 0
    shape = ()
    size = 1
    __array_priority__ = 0

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    # -- construction helpers
    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, NUM):
            return Sym(Poly.const(to_frac(x)))
        if isinstance(x, SymBool):
            return Sym(Poly.const(int(bool(x))))
        if isinstance(x, _np.ndarray) and x.ndim == 0:
            return Sym.of(x.item())
        raise Unsupported('not a number: %r' % type(x))

    def is_const(self):
        return self.num.is_const() and not self.den

    def const(self):
        return self.num.const_value()

    # -- arithmetic
    def _bin(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, NUM):
            if _inf(o):
                raise Unsupported('arithmetic with inf/nan')
            return Sym(Poly.const(to_frac(o)))
        if isinstance(o, SymBool):
            return Sym.of(o)
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            return Sym.of(o.item())
        return None

    def __add__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if not o.den and not self.den:
            return Sym(self.num + o.num)
        den = dict(self.den)
        for f, e in o.den.items():
            den[f] = max(den.get(f, 0), e)
        return Sym(_lift(self, den) + _lift(o, den), den).cancel()

    __radd__ = __add__

    def __neg__(self):
        return Sym(-self.num, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if not o.den and not self.den:
            return Sym(self.num * o.num)
        den = dict(self.den)
        for f, e in o.den.items():
            den[f] = den.get(f, 0) + e
        return Sym(self.num * o.num, den).cancel()

    __rmul__ = __mul__

    def cancel(self):
        if not self.num.t:
            return Sym(P.ZERO)
        if not self.den:
            return self
        num, den = self.num, dict(self.den)
        for f in list(den):
            if den[f] >= 2 and len(f.t) == 1:
                (mono, co), = f.t.items()
                if len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in P.RULES:
                    c, q = P.RULES[mono[0][0]].primitive()
                    k, r = divmod(den[f], 2)
                    num = num.scale(1 / (c * co * co) ** k)
                    if r:
                        den[f] = r
                    else:
                        del den[f]
                    den[q] = den.get(q, 0) + k
        for f in list(den):
            while den.get(f):
                q = num.divexact(f)
                if q is None:
                    break
                num = q
                den[f] -= 1
                if not den[f]:
                    del den[f]
        return Sym(num, den)

    def inverse(self):
        """1/self; forks on (and reports) self == 0."""
        if self.num.is_const():
            c = self.num.const_value()
            if c == 0:
                raise Undefined('division by zero')
            num = Poly.const(1 / c)
            den = {}
        else:
            if ENG.branch(atom(self.num, '==')):
                raise Undefined('division by zero')
            c, q = self.num.primitive()
            num = Poly.const(1 / c)
            den = {q: 1}
        for f, e in self.den.items():
            num = num * f.pow(e)
        return Sym(num, den).cancel()

    def __truediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if o.is_const():
            c = o.const()
            if c == 0:
                raise Undefined('division by zero')
            return Sym(self.num.scale(1 / c), self.den)
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return o * self.inverse()

    def __pow__(self, n):
        if isinstance(n, Sym) and n.is_const():
            n = n.const()
        if isinstance(n, NUM):
            n = to_frac(n)
            if n.denominator == 1:
                n = int(n)
                if n >= 0:
                    return Sym(self.num.pow(n), {f: e * n for f, e in self.den.items()} if n else None)
                return self.inverse() ** (-n)
            if n == Fraction(1, 2):
                return self.sqrt()
            if n == Fraction(-1, 2):
                return self.sqrt().inverse()
        raise Unsupported('power %r' % (n,))

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        if self.is_const():
            return Sym(Poly.const(abs(self.const())))
        return self if ENG.branch(self.cmp('>=', 0)) else -self

    def __mod__(self, o):
        m = o.const() if isinstance(o, Sym) and o.is_const() else o
        if self.is_const() and isinstance(m, NUM) and m:
            return Sym(Poly.const(to_frac(self.const()) % to_frac(m)))
        if isinstance(m, NUM) and m > 0:
            # the result is self - k * m with 0 <= result < m, decided for every k in reach
            m = to_frac(m)
            if ENG.branch(self.cmp('>=', 0)):
                for k in range(16):
                    if ENG.branch((self - m * (k + 1)).cmp('<', 0)):
                        return self - m * k
            else:
                for k in range(1, 17):
                    if ENG.branch((self + m * k).cmp('>=', 0)):
                        return self + m * k
        raise Unsupported('symbolic modulo')

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported('concretisation of a symbolic value (float())')

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported('concretisation of a symbolic value (int())')

    def __bool__(self):
        return ENG.branch(self.cmp('!=', 0))

    def rint(self):
        if self.is_const():
            return Sym(Poly.const(round(self.const())))
        # any value within a half, in the order of the numbers rounded (candidates are replayed)
        key = (self.num, frozenset(self.den.items()))
        hit = ENG.rounded.get(key)
        if hit is None:
            v = ENG.new_var('rint%d' % len(ENG.rounded), 'rint')
            hit = Sym(Poly.var(v))
            ENG.define(v, (hit - self - Fraction(1, 2)).cmp('<=', 0))
            ENG.define(v, (hit - self + Fraction(1, 2)).cmp('>=', 0))
            for x, r in ENG.rounded.values():
                ENG.define(v, f_or([(self - x).cmp('<', 0), (hit - r).cmp('>=', 0)]))
                ENG.define(v, f_or([(self - x).cmp('>', 0), (hit - r).cmp('<=', 0)]))
            ENG.rounded[key] = (self, hit)
            return hit
        return hit[1]

    # -- numpy scalar surface
    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def dot(self, o):
        return self * o

    def conjugate(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    @property
    def real(self):
        return self

    # -- sign and comparison
    def signed(self):
        """Poly with the sign of self, using what is known about the denominators."""
        p = self.num
        for f, e in self.den.items():
            if e % 2 == 0:
                continue
            s = ENG.facts.get(f)
            if s is None:
                s = structural_sign(f, ENG)
            if s is not None and s <= {0, 1}:
                continue
            if s is not None and s <= {0, -1}:
                p = -p
                continue
            if ENG.entails(atom(f, '>')):
                continue
            if ENG.entails(atom(-f, '>')):
                p = -p
                continue
            p = p * f
        return p

    def cmp(self, rel, o):
        """Formula self rel o."""
        if _inf(o):
            o = float(o)
            if math.isnan(o):
                return TRUE if rel == '!=' else FALSE
            return {'<': TRUE if o > 0 else FALSE, '<=': TRUE if o > 0 else FALSE,
                    '>': FALSE if o > 0 else TRUE, '>=': FALSE if o > 0 else TRUE,
                    '==': FALSE, '!=': TRUE}[rel]
        d = self - o if not (isinstance(o, NUM) and o == 0) else self
        if rel in ('==', '!='):
            return atom(d.num, rel)
        if rel in ('<', '<='):
            d = -d
            rel = '>' if rel == '<' else '>='
        return atom(d.signed(), rel)

    def _cmp(self, rel, o):
        if isinstance(o, (Sym, SymBool)) or isinstance(o, NUM):
            return SymBool(self.cmp(rel, o))
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            return SymBool(self.cmp(rel, o.item()))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp('==', o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp('!=', o)

    def __hash__(self):
        return hash((self.num, frozenset(self.den.items())))

    # -- elementary functions
    def sqrt(self, nonneg=False):
        if self.is_const():
            c = self.const()
            if c < 0:
                raise Undefined('square root of a negative number')
            r = frac_sqrt(c)
            if r is None:
                r = nice(math.sqrt(c))
            return Sym(Poly.const(r))
        elif not nonneg and ENG.branch(self.cmp('<', 0)):
            raise Undefined('square root of a negative number')
        # self = num/den; make the radicand a polynomial: sqrt(n/d) = sqrt(n*d)/|d|
        num = self.num
        out = {}
        absden = Sym(P.ONE)
        for f, e in self.den.items():
            if e % 2:
                num = num * f
                e += 1
            absden = absden * abs(Sym(f)) ** (e // 2)
        if not num.t:
            return Sym(P.ZERO)
        c, q = num.primitive()
        sg = 1
        if c < 0:
            q = -q
            c = -c
        # a constant times a square
        r = None if q.is_const() else poly_sqrt(q)
        if r is not None:
            k = frac_sqrt(c)
            r = abs(Sym(r)) * (nice(math.sqrt(c)) if k is None else k)
            return r if absden.is_const() and absden.const() == 1 else r / absden
        # rational part
        n, d = c.numerator, c.denominator
        k = Fraction(1)
        # sqrt(n/d) = sqrt(n*d)/d
        s, rest = square_part(n * d)
        k = Fraction(s, d)
        q = q.scale(Fraction(rest))
        core = Sym(P.ONE)
        if not q.is_const():
            # pull an exact monomial square / perfect square out
            r = poly_sqrt(q)
            if r is not None:
                core = abs(Sym(r))
                q = None
        elif q.const_value() == 1:
            q = None
        if q is not None:
            v = ENG.roots.get(q)
            if v is None:
                v = ENG.new_var('sqrt%d' % len(ENG.roots), 'sqrt')
                ENG.roots[q] = v
                pv = Poly.var(v)
                # the z3 side must see the unreduced square: build it before the rule exists
                sq = pv.rawmul(pv) - q
                ENG.define(v, F('atom', (sq, '==')))
                P.RULES[v] = q
                strict = ENG.simplify(atom(q, '>'))
                if strict.k == 'T' or ENG.entails(atom(q, '>')):
                    ENG.define(v, F('atom', (pv, '>')))
                else:
                    ENG.define(v, F('atom', (pv, '>=')))
            core = Sym(Poly.var(v))
        r = core * k
        if not (absden.is_const() and absden.const() == 1):
            r = r / absden
        return r

    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    def tan(self):
        c, s = trig(self)
        return s / c

    def arctan2(self, x):
        from angle import atan2
        return atan2(self, x)

    def sign(self):
        if ENG.branch(self.cmp('>', 0)):
            return _np.float64(1.0)
        return _np.float64(-1.0) if ENG.branch(self.cmp('<', 0)) else _np.float64(0.0)

    def square(self):
        return self * self

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def __repr__(self):
        s = poly_str(self.num)
        if self.den:
            s = '(%s)/(%s)' % (s, '*'.join('(%s)^%d' % (poly_str(f), e) for f, e in self.den.items()))
        return 'Sym(%s)' % s

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _lift(x, den):
    p = x.num
    for f, e in den.items():
        k = e - x.den.get(f, 0)
        if k:
            p = p * f.pow(k)
    return p


def square_part(n):
    """n = s*s*rest with s as large as small factors allow."""
    r = math.isqrt(n)
    if r * r == n:
        return r, 1
    s, rest = 1, n
    for p in (2, 3, 5, 7, 11, 13):
        while rest % (p * p) == 0:
            rest //= p * p
            s *= p
    r = math.isqrt(rest)
    if r * r == rest:
        return s * r, 1
    return s, rest


def nice(x):
    """Rational with a small denominator within 1e-15 of the float."""
    r = round(x)
    if abs(x - r) < 1e-15:
        return Fraction(r)
    return Fraction(x).limit_denominator(10 ** 8)


def frac_sqrt(c):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def poly_sqrt(q):
    """Polynomial square root of q (positive leading coefficient), or None."""
    if any(v in P.RULES for v in q.vars()):
        if len(q.t) != 1:
            return None
    if len(q.t) == 1:
        (m, c), = q.t.items()
        r = frac_sqrt(c) if c >= 0 else None
        if r is None or any(e % 2 for _, e in m):
            return None
        return Poly({tuple((v, e // 2) for v, e in m): r})
    if len(q.t) > 60:
        return None
    # general: long division style square root in grlex order
    lm = q.lead()
    if q.t[lm] < 0:
        return None
    r = frac_sqrt(q.t[lm])
    if r is None or any(e % 2 for _, e in lm):
        return None
    root = Poly({tuple((v, e // 2) for v, e in lm): r})
    lead_root = root
    rem = q - root.rawmul(root)
    for _ in range(40):
        if not rem.t:
            return root
        m = rem.lead()
        d = dict(m)
        for v, e in lead_root.lead():
            k = d.get(v, 0) - e
            if k < 0:
                return None
            d[v] = k
        mono = tuple(sorted((v, e) for v, e in d.items() if e))
        t = Poly({mono: rem.t[m] / (2 * r)})
        rem = rem - (root.scale(Fraction(2)).rawmul(t) + t.rawmul(t))
        root = root + t
    return None


def cos_sin(a):
    k, w = Fraction(nice(math.cos(float(a)))), Fraction(nice(math.sin(float(a))))
    if abs(k) < 1e-14 or abs(w) < 1e-14:
        k, w = Fraction(round(k)), Fraction(round(w))
    return k, w


def constant_offset(p, q):
    """the constant value of p where q == 0, None if p is no multiple of q plus a constant"""
    if len(p.t) > 4 or {m for m in p.t if m} != {m for m in q.t if m}:
        return None
    m = next((m for m in p.t if m), None)
    if m is None:
        return None
    d = p - q.scale(p.t[m] / q.t[m])
    return d.const_value() if d.is_const() else None


def trig(x):
    """(cos x, sin x) as a pair of variables on the unit circle, one pair per canonical
    argument; odd/even symmetry is used for the sign."""
    if x.is_const():
        a = float(x.const())
        return Sym(Poly.const(nice(math.cos(a)))), Sym(Poly.const(nice(math.sin(a))))
    if ENG.entails(atom(x.num, '==')):
        return Sym(P.ONE), Sym(P.ZERO)
    # canonical sign
    c, _ = x.num.primitive()
    neg = c < 0
    y = -x if neg else x
    key = (y.num, frozenset(y.den.items()))
    hit = ENG.trig.get(key)
    if hit is None and not y.den:
        for q, sg in ENG.facts.items():
            if sg == {0}:
                a = constant_offset(y.num, q)
                if a is not None:
                    C, S = (Sym(Poly.const(v)) for v in cos_sin(a))
                    return (C, -S) if neg else (C, S)
        # an angle known up to a constant
        for c2, s2, y2 in ENG.trig.values():
            if y2.den:
                continue
            for sg in (1, -1):
                d = y.num - y2.num if sg == 1 else y.num + y2.num
                if d.is_const():
                    k, w = cos_sin(d.const_value())
                    C, S = Sym(Poly.var(c2)), Sym(Poly.var(s2)) * sg
                    C, S = C * k - S * w, S * k + C * w
                    return (C, -S) if neg else (C, S)
    if hit is None:
        n = len(ENG.trig)
        vc = ENG.new_var('cos%d' % n, 'trig')
        vs = ENG.new_var('sin%d' % n, 'trig')
        pc, ps = Poly.var(vc), Poly.var(vs)
        f = F('atom', (pc.rawmul(pc) + ps.rawmul(ps) - P.ONE, '=='))
        ENG.define(vc, f)
        ENG.define(vs, f)
        P.RULES[vs] = P.ONE - pc.rawmul(pc)
        ENG.trig[key] = (vc, vs, y)
        hit = ENG.trig[key]
        for c2, s2, y2 in list(ENG.trig.values())[:-1]:
            if y.den or y2.den:
                continue
            for d in (y.num - y2.num, y.num + y2.num):
                if d.t:
                    q = d.primitive()[1]
                    if ENG.facts.get(q) == {0}:
                        ENG.congruence(q)
    cs = Sym(Poly.var(hit[0])), Sym(Poly.var(hit[1]))
    return (cs[0], -cs[1]) if neg else cs
