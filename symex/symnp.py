"""numpy as the code under test sees it: arrays of floats become object arrays of exact
symbolic numbers; integer and boolean arrays stay what they are.  Everything not listed
here is numpy's own."""
import builtins
import math
import sys
import types
import numpy as np
import core
from core import Sym, SymBool, Unsupported, NUM, And, Or, to_f, f_and, f_or, Undefined
from angle import Angle, atan2

SCALAR = (Sym, SymBool, Angle)
RAND = None        # source of nondeterministic values, set by the harness runtime


def _isnum(x):
    return isinstance(x, NUM) and not isinstance(x, (bool, np.bool_))


def wrap(x):
    if isinstance(x, SCALAR) or x is None:
        return x
    if isinstance(x, (bool, np.bool_)):
        return x
    if isinstance(x, NUM):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return float(x)
        return Sym.of(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return wrap(x.item())
    return x


def _tolist(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.ndim else x.item()
    if isinstance(x, (list, tuple)):
        return [_tolist(e) for e in x]
    if isinstance(x, (map, filter, zip, range)) or hasattr(x, '__next__'):
        return [_tolist(e) for e in x]
    if isinstance(x, SCALAR) or isinstance(x, NUM) or x is None or isinstance(x, str):
        return x
    if hasattr(x, '__array__'):
        return _tolist(x.__array__())
    if hasattr(x, '__iter__') and hasattr(x, '__len__'):
        return [_tolist(e) for e in x]
    return x


def _shape(l):
    if isinstance(l, list):
        if not l:
            return (0,)
        s = _shape(l[0])
        for e in l[1:]:
            if _shape(e) != s:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return (len(l),) + s
    return ()


def _leaves(l):
    if isinstance(l, list):
        for e in l:
            yield from _leaves(e)
    else:
        yield l


def array(x, dtype=None, copy=True, **k):
    k.pop('order', None)
    ndmin = k.pop('ndmin', 0)
    if isinstance(x, np.ndarray) and x.dtype != object and not _floatish(dtype) and x.dtype.kind in 'iub':
        return np.array(x, dtype=dtype, copy=copy)
    if isinstance(x, SCALAR):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    l = _tolist(x)
    if not isinstance(l, list):
        if _isnum(l) and (dtype is None or _floatish(dtype)):
            if isinstance(l, (int, np.integer)) and dtype is None:
                return np.array(l)
            r = np.empty((), dtype=object)
            r[()] = wrap(l)
            return r
        return np.array(l, dtype=dtype)
    leaves = list(_leaves(l))
    shape = _shape(l)
    if dtype is None or not _floatish(dtype):
        if leaves and builtins.all(isinstance(e, (bool, np.bool_)) for e in leaves):
            return np.array(l, dtype=dtype)
        if leaves and builtins.all(isinstance(e, (int, np.integer)) and not isinstance(e, (bool, np.bool_)) for e in leaves):
            return np.array(l, dtype=dtype)
        if leaves and builtins.all(isinstance(e, str) for e in leaves):
            return np.array(l)
        if dtype in (int, 'int', np.int64) or dtype is bool:
            return np.array([int(e) for e in leaves], dtype=dtype).reshape(shape)
    r = np.empty(len(leaves), dtype=object)
    for i, e in enumerate(leaves):
        r[i] = wrap(e)
    r = r.reshape(shape)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _floatish(d):
    if d is None:
        return False
    if d is object or d is float or d in ('float', 'float64', 'd', 'f8'):
        return True
    try:
        return np.dtype(d).kind in 'fO'
    except TypeError:
        return False


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and (x.dtype == object or (x.dtype.kind in 'iub' and not _floatish(dtype))):
        return x
    return array(x, dtype)


asanyarray = asfarray = asarray


def _fill(shape, v, dtype):
    if dtype is not None and not _floatish(dtype):
        return np.full(shape, v, dtype=dtype)
    r = np.empty(shape, dtype=object)
    r[...] = Sym.of(v) if not isinstance(v, SCALAR) else v
    return r


def zeros(shape, dtype=None, **k):
    return _fill(shape, 0, dtype)


def ones(shape, dtype=None, **k):
    return _fill(shape, 1, dtype)


def empty(shape, dtype=None, **k):
    return _fill(shape, 0, dtype)


def full(shape, v, dtype=None, **k):
    if dtype is None and isinstance(v, (int, bool)):
        return np.full(shape, v)
    return _fill(shape, v, dtype)


def _like(f, v):
    def g(a, dtype=None, **k):
        a = asarray(a)
        if a.dtype != object and dtype is None:
            return np.full(a.shape, v, dtype=a.dtype)
        return _fill(a.shape, v, dtype)
    return g


zeros_like = _like(zeros, 0)
ones_like = _like(ones, 1)
empty_like = _like(zeros, 0)


def full_like(a, v, dtype=None, **k):
    return full(asarray(a).shape, v, dtype)


def identity(n, dtype=None):
    return array([[1. if i == j else 0. for j in range(n)] for i in range(n)], dtype or float)


def eye(n, *a, **k):
    return identity(n)


def diag(v):
    v = asarray(v)
    if v.ndim == 2:
        return array([v[i, i] for i in range(builtins.min(v.shape))])
    n = len(v)
    return array([[v[i] if i == j else 0. for j in range(n)] for i in range(n)], float)


def elementwise(f):
    def g(x, *a, **k):
        k.pop('out', None)
        k.pop('dtype', None)
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            x = asarray(x)
            if x.ndim == 0:
                return f(x.item(), *a)
            if a and isinstance(a[0], (np.ndarray, list, tuple)):
                b = asarray(a[0])
                x, b = np.broadcast_arrays(x, b)
                vals = [f(p, q) for p, q in zip(x.ravel().tolist(), b.ravel().tolist())]
            else:
                vals = [f(p, *a) for p in x.ravel().tolist()]
            if builtins.all(isinstance(v, (bool, np.bool_, SymBool)) for v in vals) and vals:
                if builtins.any(isinstance(v, SymBool) for v in vals):
                    r = np.empty(len(vals), dtype=object)
                    for i, v in enumerate(vals):
                        r[i] = v
                    return r.reshape(x.shape).view(BoolArray)
                return np.array(vals).reshape(x.shape)
            r = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                r[i] = wrap(v)
            return r.reshape(x.shape)
        if a and isinstance(a[0], (np.ndarray, list, tuple)):
            b = asarray(a[0])
            if b.ndim:
                return g(full(b.shape, x, object), b)
            return f(x, b.item())
        return f(x, *a)
    return g


class BoolArray(np.ndarray):
    """Object array of symbolic booleans, kept unevaluated until something looks."""

    def _force(self):
        return np.array([bool(v) for v in self.ravel().tolist()], dtype=bool).reshape(self.shape)

    def all(self, axis=None, **k):
        if axis is None:
            return And(*self.ravel().tolist())
        return self._force().all(axis)

    def any(self, axis=None, **k):
        if axis is None:
            return Or(*self.ravel().tolist())
        return self._force().any(axis)

    def astype(self, d, *a, **k):
        return self._force().astype(d)


def _cos(x):
    return x.cos() if isinstance(x, (Sym, Angle)) else Sym.of(x).cos()


def _sin(x):
    return x.sin() if isinstance(x, (Sym, Angle)) else Sym.of(x).sin()


def _tan(x):
    return _sin(x) / _cos(x)


def _num(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    return x


cos = elementwise(lambda x: _cos(_num(x)))
sin = elementwise(lambda x: _sin(_num(x)))
tan = elementwise(lambda x: _tan(_num(x)))
sqrt = elementwise(lambda x: Sym.of(x).sqrt())
square = elementwise(lambda x: x * x)
abs = absolute = fabs = elementwise(lambda x: builtins.abs(x))
arctan2 = elementwise(lambda y, x: atan2(y, x))
atan2_ = arctan2
sign = elementwise(lambda x: Sym.of(x).sign() if not isinstance(x, Angle) else (1. if x > 0 else (-1. if x < 0 else 0.)))
hypot = elementwise(lambda x, y: (Sym.of(x) * x + Sym.of(y) * y).sqrt())
arccos = elementwise(lambda x: atan2((1 - Sym.of(x) * x).sqrt(), x))
arcsin = elementwise(lambda x: atan2(x, (1 - Sym.of(x) * x).sqrt()))
arctan = elementwise(lambda x: atan2(x, Sym.of(1)))
power = elementwise(lambda x, n: x ** n)
negative = elementwise(lambda x: -x)
isfinite = elementwise(lambda x: True if isinstance(x, SCALAR) else math.isfinite(x))
isnan = elementwise(lambda x: False if isinstance(x, SCALAR) else math.isnan(x))
isinf = elementwise(lambda x: False if isinstance(x, SCALAR) else math.isinf(x))
reciprocal = elementwise(lambda x: 1 / Sym.of(x))
floor = elementwise(lambda x: _floor(x))
deg2rad = radians = elementwise(lambda x: x * (math.pi / 180))
rad2deg = degrees = elementwise(lambda x: x * (180 / math.pi) if not isinstance(x, Angle) else x)
add = elementwise(lambda x, y: x + y)
subtract = elementwise(lambda x, y: x - y)
multiply = elementwise(lambda x, y: x * y)
divide = true_divide = elementwise(lambda x, y: Sym.of(x) / y)
logical_not = elementwise(lambda x: SymBool(to_f(x).neg()))
logical_and = elementwise(lambda x, y: SymBool(f_and([to_f(x), to_f(y)])))
logical_or = elementwise(lambda x, y: SymBool(f_or([to_f(x), to_f(y)])))
logical_xor = elementwise(lambda x, y: SymBool(core.f_xor(to_f(x), to_f(y))))
greater = elementwise(lambda x, y: x > y)
less = elementwise(lambda x, y: x < y)
greater_equal = elementwise(lambda x, y: x >= y)
less_equal = elementwise(lambda x, y: x <= y)
equal = elementwise(lambda x, y: x == y)
not_equal = elementwise(lambda x, y: x != y)


def _floor(x):
    x = Sym.of(x)
    if x.is_const():
        return Sym.of(math.floor(x.const()))
    raise Unsupported('floor')


def _isclose(a, b, rtol, atol):
    if isinstance(a, Angle) or isinstance(b, Angle):
        raise Unsupported('isclose on angles')
    if core._inf(a) or core._inf(b):
        return (a == b)
    a, b = Sym.of(a), Sym.of(b)
    d = a - b
    rtol = core.to_frac(rtol)
    atol = core.to_frac(atol)
    if b.is_const():
        t = atol + rtol * builtins.abs(b.const())
        return SymBool(f_and([d.cmp('<=', t), (-d).cmp('<=', t)]))
    hi, lo = b * rtol + atol, -b * rtol + atol
    return SymBool(f_and([f_or([d.cmp('<=', hi), d.cmp('<=', lo)]),
                          f_or([(-d).cmp('<=', hi), (-d).cmp('<=', lo)])]))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        a, b = asarray(a), asarray(b)
        if a.ndim or b.ndim:
            a, b = np.broadcast_arrays(a, b)
            r = np.empty(a.size, dtype=object)
            for i, (p, q) in enumerate(zip(a.ravel().tolist(), b.ravel().tolist())):
                r[i] = _isclose(p, q, rtol, atol)
            return r.reshape(a.shape).view(BoolArray)
        a, b = a.item(), b.item()
    return _isclose(a, b, rtol, atol)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return And(*r.ravel().tolist()) if isinstance(r, np.ndarray) else r


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return builtins.bool(And(*[p == q for p, q in zip(a.ravel().tolist(), b.ravel().tolist())]))


def any(a, axis=None, **k):
    if isinstance(a, SCALAR):
        return SymBool(to_f(a))
    a = asarray(a)
    if a.dtype != object:
        return np.any(a, axis=axis)
    if axis is None:
        return Or(*[SymBool(to_f(e)) for e in a.ravel().tolist()])
    b = np.array([bool(e) for e in a.ravel().tolist()], dtype=bool).reshape(a.shape)
    return np.any(b, axis=axis)


def all(a, axis=None, **k):
    if isinstance(a, SCALAR):
        return SymBool(to_f(a))
    a = asarray(a)
    if a.dtype != object:
        return np.all(a, axis=axis)
    if axis is None:
        return And(*[SymBool(to_f(e)) for e in a.ravel().tolist()])
    b = np.array([bool(e) for e in a.ravel().tolist()], dtype=bool).reshape(a.shape)
    return np.all(b, axis=axis)


def where(c, *ab):
    if not ab:
        return np.where(_boolarr(c))
    c = asarray(c)
    if c.ndim == 0:
        return array(ab[0]) if bool(c.item()) else array(ab[1])
    a, b = asarray(ab[0]), asarray(ab[1])
    c, a, b = np.broadcast_arrays(_boolarr(c), a, b)
    r = np.empty(c.size, dtype=object)
    for i, (k, x, y) in enumerate(zip(c.ravel().tolist(), a.ravel().tolist(), b.ravel().tolist())):
        r[i] = wrap(x if k else y)
    return r.reshape(c.shape)


def _boolarr(c):
    c = asarray(c)
    if c.dtype == object:
        return np.array([bool(e) for e in c.ravel().tolist()], dtype=bool).reshape(c.shape)
    return c


def flatnonzero(a):
    return np.flatnonzero(_boolarr(a))


def nonzero(a):
    return np.nonzero(_boolarr(a))


def argwhere(a):
    return np.argwhere(_boolarr(a))


def count_nonzero(a, **k):
    return np.count_nonzero(_boolarr(a), **k)


def _arg(better):
    def one(l):
        bi = 0
        for i in range(1, len(l)):
            if better(l[i], l[bi]):
                bi = i
        return bi

    def f(a, axis=None, **k):
        a = asarray(a)
        if isinstance(a, BoolArray):
            a = a._force()
        if a.dtype != object:
            return (np.argmax if better(2, 1) else np.argmin)(a, axis=axis)
        if axis is None:
            l = a.ravel().tolist()
            if not l:
                raise ValueError('attempt to get argmax of an empty sequence')
            return one(l)
        return np.array([one(list(r)) for r in np.moveaxis(a, axis, -1).reshape(-1, a.shape[axis])]
                        ).reshape(np.delete(a.shape, axis))
    return f


argmax = _arg(lambda p, q: p > q)
argmin = _arg(lambda p, q: p < q)


def _ext(better):
    arg = _arg(better)

    def f(a, axis=None, initial=None, **k):
        a = asarray(a)
        if a.dtype != object:
            return (np.max if better(2, 1) else np.min)(a, axis=axis)
        if axis is None:
            return a.ravel()[arg(a)]
        m = np.moveaxis(a, axis, -1)
        rows = m.reshape(-1, m.shape[-1])
        r = np.empty(len(rows), dtype=object)
        for i, row in enumerate(rows):
            r[i] = row[arg(row)]
        return r.reshape(m.shape[:-1])
    return f


max = amax = nanmax = _ext(lambda p, q: p > q)
min = amin = nanmin = _ext(lambda p, q: p < q)
maximum = fmax = elementwise(lambda x, y: y if y > x else x)
minimum = fmin = elementwise(lambda x, y: y if y < x else x)


def ptp(a, axis=None):
    return max(a, axis) - min(a, axis)


def argsort(a, axis=-1, **k):
    a = asarray(a)
    if a.dtype != object:
        return np.argsort(a, axis=axis, kind='stable')
    if a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    l = a.tolist()
    idx = sorted(range(len(l)), key=_Key.make(l))
    return np.array(idx, dtype=int)


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)

    @staticmethod
    def make(l):
        return lambda i: _Key(l[i])


def sort(a, axis=-1, **k):
    a = asarray(a)
    if a.dtype != object:
        return np.sort(a, axis=axis)
    if a.ndim != 1:
        raise Unsupported('sort of a matrix')
    return a[argsort(a)]


def lexsort(keys, axis=-1):
    keys = [asarray(k).tolist() for k in keys]
    n = len(keys[0])

    class K:
        def __init__(s, i):
            s.i = i

        def __lt__(s, o):
            for k in reversed(keys):
                if bool(k[s.i] < k[o.i]):
                    return True
                if bool(k[s.i] > k[o.i]):
                    return False
            return False
    return np.array(sorted(range(n), key=K), dtype=int)


def unique(a, axis=None, return_index=False, return_inverse=False, return_counts=False, **k):
    a = asarray(a)
    if a.dtype != object:
        return np.unique(a, axis=axis, return_index=return_index, return_inverse=return_inverse,
                         return_counts=return_counts)
    if return_inverse or return_counts:
        raise Unsupported('unique with inverse/counts')
    if axis is None:
        rows = [(e,) for e in a.ravel().tolist()]
    elif axis == 0:
        rows = [tuple(r) for r in a.reshape(a.shape[0], -1).tolist()]
    else:
        raise Unsupported('unique axis')

    class K:
        def __init__(s, i):
            s.i = i

        def __lt__(s, o):
            if s.i == o.i:
                return False
            for p, q in zip(rows[s.i], rows[o.i]):
                if bool(p < q):
                    return True
                if bool(p > q):
                    return False
            return False
    order = sorted(range(len(rows)), key=K)
    keep = []
    for i in order:
        if keep and builtins.all(bool(p == q) for p, q in zip(rows[keep[-1]], rows[i])):
            continue
        keep.append(i)
    idx = np.array(keep, dtype=int)
    if axis is None:
        res = a.ravel()[idx]
    else:
        res = a[idx]
    return (res, idx) if return_index else res


def clip(a, lo=None, hi=None, **k):
    lo = k.get('a_min', k.get('min', lo))
    hi = k.get('a_max', k.get('max', hi))

    def one(x, l, h):
        if l is not None and x < l:
            return l
        if h is not None and x > h:
            return h
        return x
    if isinstance(a, (list, tuple)):
        a = array(a, float)
    if not (isinstance(a, np.ndarray) and a.ndim) and not builtins.any(isinstance(b, (list, tuple, np.ndarray)) for b in (lo, hi)):
        return one(a, lo, hi)
    c = [np.asarray(x, dtype=object) for x in (a, lo, hi)]
    c = np.broadcast_arrays(*c)
    return array([one(*e) for e in zip(*(x.ravel().tolist() for x in c))], float).reshape(c[0].shape)


def linspace(a, b, n=50, endpoint=True, **k):
    if isinstance(a, Sym) or isinstance(b, Sym):
        a, b = Sym.of(a), Sym.of(b)
        d = n - 1 if endpoint else n
        return array([a + (b - a) * core.Fraction(i, d) for i in range(n)], float)
    return array([float(v) for v in np.linspace(float(a), float(b), n, endpoint=endpoint)], float)


def arange(*a, dtype=None, **k):
    if builtins.all(isinstance(x, (int, np.integer)) for x in a):
        return np.arange(*a)
    return array([float(v) for v in np.arange(*[float(x) for x in a])], float)


def mean(a, axis=None, **k):
    a = asarray(a)
    if a.dtype != object:
        a = array(a, float)
    if axis is None:
        return sum(a) / a.size
    return sum(a, axis) / a.shape[axis]


average = mean


def sum(a, axis=None, **k):
    if hasattr(a, '__next__'):
        a = list(a)
    a = asarray(a)
    if a.dtype != object:
        return np.sum(a, axis=axis)
    if axis is None:
        t = 0
        for e in a.ravel().tolist():
            t = e + t
        return wrap(t)
    return np.sum(a, axis=axis)


def dot(a, b, **k):
    if isinstance(a, SCALAR) or isinstance(b, SCALAR) or _isnum(a) or _isnum(b):
        return a * b
    return np.dot(asarray(a), asarray(b))


def vdot(a, b):
    return dot(asarray(a).ravel(), asarray(b).ravel())


inner = dot


def matmul(a, b, **k):
    return np.matmul(asarray(a), asarray(b))


def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return array([[p * q for q in b.tolist()] for p in a.tolist()])


def cross(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        if len(a) == 3 and len(b) == 3:
            return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
        raise ValueError('Both input arrays must be (arrays of) 3-dimensional vectors, but they are '
                         '%d and %d dimensional instead.' % (len(a), len(b)))
    raise Unsupported('cross of matrices')


def vstack(x, **k):
    return np.vstack([asarray(e) for e in x])


def hstack(x, **k):
    x = [asarray(e) for e in x]
    r = np.hstack(x)
    return r


def concatenate(x, axis=0, **k):
    return np.concatenate([asarray(e) for e in x], axis=axis)


def stack(x, axis=0, **k):
    return np.stack([asarray(e) for e in x], axis=axis)


def column_stack(x):
    return np.column_stack([asarray(e) for e in x])


def append(a, b, axis=None):
    return np.append(asarray(a), asarray(b), axis=axis)


def insert(a, i, v, axis=None):
    return np.insert(asarray(a), i, asarray(v), axis=axis)


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    if a.dtype != object:
        return np.diff(a, n=n, axis=axis)
    if a.ndim == 1:
        l = a.tolist()
        r = np.empty(len(l) - 1, dtype=object)
        for i in range(len(l) - 1):
            r[i] = l[i + 1] - l[i]
        return r
    ax = axis % a.ndim
    hi = [slice(None)] * a.ndim
    lo = list(hi)
    hi[ax] = slice(1, None)
    lo[ax] = slice(None, -1)
    return a[tuple(hi)] - a[tuple(lo)]


def unwrap(p, discont=None, axis=-1, *, period=2 * math.pi):
    p = asarray(p)
    if p.dtype != object:
        return np.unwrap(p, discont=discont, axis=axis, period=period)
    if p.ndim != 1 or period != 2 * math.pi or discont is not None:
        raise Unsupported('unwrap')
    l = p.tolist()
    out, turn = l[:1], 0
    for a, b in zip(l, l[1:]):
        d = b - a
        if d > math.pi:
            turn -= 1
        elif d < -math.pi:
            turn += 1
        out.append(b + turn * 2 * math.pi if turn else b)
    return array(out)


def searchsorted(a, v, side='left', sorter=None):
    a = asarray(a)
    if a.dtype != object and not isinstance(v, SCALAR):
        return np.searchsorted(a, v, side=side, sorter=sorter)
    if sorter is not None or isinstance(v, (np.ndarray, list, tuple)):
        raise Unsupported('searchsorted')
    for i, e in enumerate(a.tolist()):
        if (v < e) if side == 'right' else (v <= e):
            return i
    return len(a)


def cumsum(a, axis=None, **k):
    a = asarray(a)
    if a.dtype != object:
        return np.cumsum(a, axis=axis)
    t, out = 0, []
    for e in a.ravel().tolist():
        t = e + t
        out.append(t)
    return array(out)


def prod(a, axis=None, **k):
    t = 1
    for e in asarray(a).ravel().tolist():
        t = e * t
    return t


def isscalar(x):
    return isinstance(x, SCALAR) or np.isscalar(x)


def copy_(a, **k):
    return asarray(a).copy()


def float64(x=0):
    return wrap(x) if not isinstance(x, (np.ndarray, list)) else asarray(x, float)


def _norm(v):
    t = Sym.of(0)
    for e in v:
        t = t + Sym.of(e) * e
    return t.sqrt(nonneg=True)


class linalg:
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, **k):
        if ord not in (None, 2):
            raise Unsupported('norm ord %r' % ord)
        x = asarray(x)
        if axis is None:
            return _norm(x.ravel().tolist())
        if x.ndim == 1:
            return _norm(x.tolist())
        m = np.moveaxis(x, axis, -1)
        rows = m.reshape(-1, m.shape[-1])
        r = np.empty(len(rows), dtype=object)
        for i, row in enumerate(rows):
            r[i] = _norm(row.tolist())
        return r.reshape(m.shape[:-1])

    @staticmethod
    def det(a):
        a = asarray(a)
        if a.shape == (2, 2):
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        if a.shape == (3, 3):
            return dot(a[0], cross(a[1], a[2]))
        raise Unsupported('det')

    @staticmethod
    def inv(a):
        a = asarray(a)
        if a.shape != (2, 2):
            raise Unsupported('inv')
        d = Sym.of(linalg.det(a))
        return array([[a[1, 1] / d, -a[0, 1] / d], [-a[1, 0] / d, a[0, 0] / d]])

    @staticmethod
    def solve(a, b):
        return linalg.inv(a).dot(asarray(b))


class random:
    @staticmethod
    def _many(size, f):
        if size is None or size == ():
            return f()
        n = int(np.prod(size))
        return array([f() for _ in range(n)], float).reshape(size)

    @staticmethod
    def rand(*shape):
        return random._many(shape, lambda: RAND('unit', 0, 1))

    @staticmethod
    def random(size=None):
        return random._many(size, lambda: RAND('unit', 0, 1))

    random_sample = random

    @staticmethod
    def uniform(low=0.0, high=1.0, size=None):
        return random._many(size, lambda: RAND('uniform', low, high))

    @staticmethod
    def normal(loc=0.0, scale=1.0, size=None):
        return random._many(size, lambda: RAND('normal', loc, scale))

    @staticmethod
    def randn(*shape):
        return random._many(shape, lambda: RAND('normal', 0, 1))

    @staticmethod
    def randint(low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        if size is None:
            return RAND('int', low, high)
        return np.array([RAND('int', low, high) for _ in range(int(np.prod(size)))]).reshape(size)

    @staticmethod
    def shuffle(x):
        n = len(x)
        for i in range(n - 1, 0, -1):
            j = RAND('int', 0, i + 1)
            x[i], x[j] = x[j], x[i]

    @staticmethod
    def choice(a, *r, **k):
        if r or k:
            raise Unsupported('random.choice with size')
        a = list(range(a)) if isinstance(a, int) else list(a)
        return a[RAND('int', 0, len(a))]

    @staticmethod
    def seed(*a):
        pass


random.random_sample = random.random

_SPECIAL = {'atan2': arctan2, 'copy': copy_, 'acos': None}


class Module(types.ModuleType):
    def __getattr__(self, n):
        return getattr(np, n)


def make():
    m = Module('numpy')
    g = globals()
    for n in list(g):
        if n.startswith('_') or n in ('np', 'core', 'builtins', 'math', 'sys', 'types', 'Sym', 'SymBool',
                                      'Unsupported', 'NUM', 'And', 'Or', 'to_f', 'f_and', 'f_or', 'Angle', 'atan2',
                                      'Module', 'make', 'RAND', 'SCALAR', 'wrap', 'elementwise', 'BoolArray',
                                      'Undefined', 'copy_', 'atan2_'):
            continue
        setattr(m, n, g[n])
    m.atan2 = arctan2
    m.copy = copy_
    m.pow = power
    m.__path__ = []
    la = types.ModuleType('numpy.linalg')
    for n in dir(linalg):
        if not n.startswith('_'):
            setattr(la, n, getattr(linalg, n))
    m.linalg = la
    rd = types.ModuleType('numpy.random')
    for n in dir(random):
        if not n.startswith('__'):
            setattr(rd, n, getattr(random, n))
    m.random = rd
    return m


def make_math():
    m = types.ModuleType('math')
    for n in dir(math):
        setattr(m, n, getattr(math, n))

    def s1(f, orig):
        def g(x, *r):
            if isinstance(x, SCALAR) or builtins.any(isinstance(e, SCALAR) for e in r):
                return f(x, *r)
            return orig(x, *r)
        return g
    m.cos = s1(_cos, math.cos)
    m.sin = s1(_sin, math.sin)
    m.tan = s1(_tan, math.tan)
    m.sqrt = s1(lambda x: Sym.of(x).sqrt(), math.sqrt)
    m.fabs = s1(lambda x: builtins.abs(x), math.fabs)
    m.atan2 = s1(atan2, math.atan2)
    m.pow = s1(lambda x, n: x ** n, math.pow)
    m.isfinite = s1(lambda x: True, math.isfinite)
    m.isnan = s1(lambda x: False, math.isnan)
    m.isinf = s1(lambda x: False, math.isinf)
    m.degrees = s1(lambda x: x * (180 / math.pi), math.degrees)
    m.radians = s1(lambda x: x * (math.pi / 180), math.radians)

    def hyp(*xs):
        if builtins.any(isinstance(e, SCALAR) for e in xs):
            return _norm(xs)
        return math.hypot(*xs)
    m.hypot = hyp

    def dist(p, q):
        return hyp(*[a - b for a, b in zip(p, q)])
    m.dist = dist

    def iscl(a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, SCALAR) or isinstance(b, SCALAR):
            a, b = Sym.of(a), Sym.of(b)
            d = builtins.abs(a - b)
            return Or(d <= abs_tol, d <= rel_tol * builtins.abs(a), d <= rel_tol * builtins.abs(b))
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    m.isclose = iscl

    def copysign(a, b):
        if isinstance(a, SCALAR) or isinstance(b, SCALAR):
            a = builtins.abs(a)
            return a if b >= 0 else -a
        return math.copysign(a, b)
    m.copysign = copysign
    return m
