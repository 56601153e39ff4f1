"""Exact polynomial and rational-function arithmetic over Q, modulo the defining
equations of algebraic variables (square roots, cosine/sine pairs).

A Poly is {monomial: coefficient}; a monomial is a tuple of (var, exp) sorted by var.
Variables are integers handed out by the engine.  A *rule* v*v -> Poly is applied after
every product, so sqrt(e)**2 == e and c*c + s*s == 1 hold syntactically.
"""
from fractions import Fraction

RULES = {}            # var -> Poly equal to var**2
MAXTERMS = 20000


class TooBig(BaseException):
    pass


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Poly:
    __slots__ = ('t', '_h', '_prim')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._prim = None

    # -- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): Fraction(1)})

    # -- inspection
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def is_zero(self):
        return not self.t

    def vars(self):
        return {v for m in self.t for v, _ in m}

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    # -- arithmetic
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m)
            if n is None:
                t[m] = c
            else:
                n = n + c
                if n:
                    t[m] = n
                else:
                    del t[m]
        return Poly(t)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: k * c for m, k in self.t.items()})

    def rawmul(self, o):
        if len(self.t) * len(o.t) > 40 * MAXTERMS:
            raise TooBig('product of %d x %d terms' % (len(self.t), len(o.t)))
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                n = t.get(m)
                c = c1 * c2
                t[m] = c if n is None else n + c
        return Poly({m: c for m, c in t.items() if c})

    def __mul__(self, o):
        if o.is_const():
            return self.scale(o.const_value())
        if self.is_const():
            return o.scale(self.const_value())
        r = self.rawmul(o).reduce()
        if len(r.t) > MAXTERMS:
            raise TooBig('%d terms' % len(r.t))
        return r

    def reduce(self):
        """Applies v*v -> RULES[v] until no ruled variable has exponent >= 2."""
        cur = self
        while True:
            hit = None
            for m in cur.t:
                for v, e in m:
                    if e >= 2 and v in RULES:
                        if hit is None or v > hit:
                            hit = v
            if hit is None:
                return cur
            keep, out = {}, Poly({})
            groups = {}
            for m, c in cur.t.items():
                e = dict(m).get(hit, 0)
                if e < 2:
                    keep[m] = c
                else:
                    rest = tuple((v, k) for v, k in m if v != hit)
                    if e % 2:
                        rest = _mmul(rest, ((hit, 1),))
                    groups.setdefault(e // 2, {})
                    g = groups[e // 2]
                    g[rest] = g.get(rest, Fraction(0)) + c
            out = Poly(keep)
            rule = RULES[hit]
            power = Poly.const(1)
            done = 0
            for k in sorted(groups):
                while done < k:
                    power = power.rawmul(rule)
                    done += 1
                out = out + Poly({m: c for m, c in groups[k].items() if c}).rawmul(power)
            cur = out

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def lead(self):
        """Leading monomial in graded lex order."""
        return max(self.t, key=_key)

    def primitive(self):
        """(scale c, poly p) with self == c * p and p's coefficients coprime integers,
        leading coefficient positive: the canonical representative of the atom."""
        if self._prim is None:
            from math import gcd
            if not self.t:
                self._prim = (Fraction(0), self)
            else:
                den = 1
                for c in self.t.values():
                    den = den * c.denominator // gcd(den, c.denominator)
                num = 0
                for c in self.t.values():
                    num = gcd(num, int(c * den))
                s = Fraction(num, den)
                if self.t[self.lead()] < 0:
                    s = -s
                self._prim = (s, Poly({m: c / s for m, c in self.t.items()}))
        return self._prim

    def divexact(self, d):
        """self / d if the division is exact in the free polynomial ring, else None."""
        if d.is_const():
            c = d.const_value()
            return self.scale(1 / c) if c else None
        if len(d.t) > 60 or len(self.t) > 600:
            return None
        dl = d.lead()
        dc = d.t[dl]
        dd = dict(dl)
        q = {}
        r = self
        steps = 0
        while r.t:
            steps += 1
            if steps > 400:
                return None
            rl = r.lead()
            rd = dict(rl)
            mono = []
            for v, e in rd.items():
                k = e - dd.get(v, 0)
                if k < 0:
                    return None
                if k:
                    mono.append((v, k))
            for v in dd:
                if v not in rd:
                    return None
            mono = tuple(sorted(mono))
            c = r.t[rl] / dc
            q[mono] = c
            r = r - d.rawmul(Poly({mono: c}))
        return Poly(q)

    def eval(self, val):
        """val: var -> number"""
        s = 0
        for m, c in self.t.items():
            x = c
            for v, e in m:
                x = x * val[v] ** e
            s = s + x
        return s

    def evalf(self, val):
        s = 0.0
        for m, c in self.t.items():
            x = float(c)
            for v, e in m:
                x *= val[v] ** e
            s += x
        return s

    def subs(self, v, p):
        """Substitutes polynomial p for variable v."""
        if all(v not in dict(m) for m in self.t):
            return self
        out = Poly({})
        for m, c in self.t.items():
            e = dict(m).get(v, 0)
            rest = Poly({tuple((a, b) for a, b in m if a != v): c})
            out = out + (rest * p.pow(e) if e else rest)
        return out


def _key(m):
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})
