"""Values of arctan2 as exact objects: a signed sum of principal arguments of symbolic
vectors plus a multiple of pi/4.  Every comparison is turned into a polynomial condition on
the vectors, so no transcendental function reaches the solver."""
import math
from fractions import Fraction
import core
from core import Sym, SymBool, Unsupported, f_and, f_or, NUM, TRUE, FALSE

Q = math.pi / 4
_C = {0: (1, 0), 1: (1, 1), 2: (0, 1), 3: (-1, 1), 4: (-1, 0), 5: (-1, -1), 6: (0, -1), 7: (1, -1)}


def units(c):
    """c as a multiple of pi/4, or None."""
    if isinstance(c, Sym):
        if not c.is_const():
            return None
        c = c.const()
    c = float(c)
    k = c / Q
    r = round(k)
    return r if abs(k - r) < 1e-9 else None


class Base:
    __slots__ = ('x', 'y', 'key')

    def __init__(self, x, y):
        self.x = x
        self.y = y
        self.key = (x.num, frozenset(x.den.items()), y.num, frozenset(y.den.items()))

    def upper(self):
        """principal argument in (0, pi]"""
        return f_or([self.y.cmp('>', 0), f_and([self.y.cmp('==', 0), self.x.cmp('<', 0)])])

    def rot(self, k):
        k %= 8
        c, s = _C[k]
        return Base(self.x * c - self.y * s, self.x * s + self.y * c)


def gt(a, b):
    """principal(a) > principal(b)"""
    if a.key == b.key:
        return FALSE
    ua, ub = a.upper(), b.upper()
    cr = b.x * a.y - b.y * a.x
    same = f_or([f_and([ua, ub]), f_and([ua.neg(), ub.neg()])])
    return f_or([f_and([ua, ub.neg()]), f_and([same, cr.cmp('>', 0)])])


def gt_shift(a, b, k):
    """principal(a) > principal(b) + k*pi/4"""
    if k == 0:
        return gt(a, b)
    if k >= 8:
        return FALSE
    if k <= -8:
        return TRUE
    # does principal(b) + k*pi/4 stay in (-pi, pi] ?
    lim = 4 - k if k > 0 else -4 - k        # principal(b) <= lim*pi/4   resp.  > lim*pi/4
    lb = const_base(lim)
    r = b.rot(k)
    if k > 0:
        stays = gt_const(b, lim).neg()
        return f_and([stays, gt(a, r)])
    stays = gt_const(b, lim)
    return f_or([stays.neg(), gt(a, r)])


def const_base(k):
    c, s = _C[k % 8]
    return Base(Sym.of(c), Sym.of(s))


def gt_const(a, k):
    """principal(a) > k*pi/4 for integer k"""
    if k >= 4:
        return FALSE
    if k <= -4:
        return TRUE
    return gt(a, const_base(k))


def lt_const(a, k):
    if k > 4:
        return TRUE
    if k <= -4:
        return FALSE
    if k == 4:
        # < pi: not exactly pi
        return f_or([a.y.cmp('!=', 0), a.x.cmp('>=', 0)])
    return gt(const_base(k), a)


class Angle:
    """sum(sign * base) + off * pi/4;  off an integer."""
    __slots__ = ('terms', 'off')
    ndim = 0
    shape = ()
    size = 1
    __array_priority__ = 0

    def __init__(self, terms, off=0):
        self.terms = terms      # tuple of (sign, Base)
        self.off = off

    def _add(self, o, sg):
        if isinstance(o, Angle):
            t = list(self.terms)
            for s, b in o.terms:
                s *= sg
                for i, (s2, b2) in enumerate(t):
                    if s2 == -s and b2.key == b.key:
                        del t[i]
                        break
                else:
                    t.append((s, b))
            return Angle(tuple(t), self.off + sg * o.off)
        k = units(o)
        if k is None:
            raise Unsupported('angle + %r' % (o,))
        return Angle(self.terms, self.off + sg * k)

    def __add__(self, o):
        return self._add(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __neg__(self):
        return Angle(tuple((-s, b) for s, b in self.terms), -self.off)

    def __rsub__(self, o):
        return (-self)._add(o, 1)

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        if isinstance(o, NUM) and o in (1, -1, 0):
            return self if o == 1 else (-self if o == -1 else Sym.of(0))
        raise Unsupported('angle * %r' % (o,))

    __rmul__ = __mul__

    def __truediv__(self, o):
        raise Unsupported('angle / %r' % (o,))

    def __mod__(self, o):
        if units(o) == 8:
            # python/numpy modulo with a positive divisor: result in [0, 2pi)
            a = self
            for _ in range(4):
                if a < 0:
                    a = a + 2 * math.pi
                elif a >= 2 * math.pi:
                    a = a - 2 * math.pi
                else:
                    return a
        raise Unsupported('angle %% %r' % (o,))

    def cmp_gt(self, o):
        d = self._add(o, -1) if isinstance(o, Angle) or units(o) is not None else None
        if d is None:
            # non-multiple of pi/4: only decidable when the symbolic part cancels or the
            # threshold lies between two attainable values of a constant
            if not self.terms:
                return TRUE if self.off * Q > float(o) else FALSE
            raise Unsupported('comparison of an angle with %r' % (o,))
        return d._gt0()

    def _gt0(self):
        k = -self.off
        pos = [b for s, b in self.terms if s > 0]
        neg = [b for s, b in self.terms if s < 0]
        if not pos and not neg:
            return TRUE if self.off > 0 else FALSE
        if len(pos) == 1 and not neg:
            return gt_const(pos[0], k)
        if len(neg) == 1 and not pos:
            return lt_const(neg[0], self.off)
        if len(pos) == 1 and len(neg) == 1:
            return gt_shift(pos[0], neg[0], k)
        raise Unsupported('comparison of a sum of angles')

    def __gt__(self, o):
        return SymBool(self.cmp_gt(o))

    def __lt__(self, o):
        if isinstance(o, Angle):
            return SymBool(o.cmp_gt(self))
        return SymBool((-self).cmp_gt(-o))

    def __ge__(self, o):
        return ~(self < o)

    def __le__(self, o):
        return ~(self > o)

    def __eq__(self, o):
        if o is None:
            return False
        return SymBool(f_and([(self > o).f.neg(), (self < o).f.neg()]))

    def __ne__(self, o):
        return ~(self == o) if o is not None else True

    def __hash__(self):
        return hash((tuple((s, b.key) for s, b in self.terms), self.off))

    def __bool__(self):
        return bool(self != 0)

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def __deepcopy__(self, m):
        return self

    def cos(self):
        return self._cs()[0]

    def sin(self):
        return self._cs()[1]

    def _cs(self):
        c, s = Sym.of(1), Sym.of(0)
        for sg, b in self.terms:
            r = (b.x * b.x + b.y * b.y).sqrt()
            c1, s1 = b.x / r, b.y / r * sg
            c, s = c * c1 - s * s1, s * c1 + c * s1
        u = Sym.of(self.off * Q)
        k = self.off % 8
        if k % 2 == 0:
            c1, s1 = _C[k]
        else:
            h = core.Sym.of(Fraction(1, 2)).sqrt()
            c1, s1 = _C[k][0] * h, _C[k][1] * h
        return c * c1 - s * s1, s * c1 + c * s1

    def __float__(self):
        if not self.terms:
            return self.off * Q
        raise Unsupported('concretisation of an angle')

    def __repr__(self):
        return 'Angle(%s, %d*pi/4)' % (self.terms, self.off)


def atan2(y, x):
    y, x = Sym.of(y), Sym.of(x)
    if y.is_const() and x.is_const():
        a = math.atan2(float(y.const()), float(x.const()))
        if units(a) is not None:
            return Angle((), units(a))
        return Angle(((1, Base(x, y)),))
    if core.ENG.branch(f_and([y.cmp('==', 0), x.cmp('==', 0)])):
        return Angle((), 0)
    return Angle(((1, Base(x, y)),))
