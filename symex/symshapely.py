"""shapely as the code under test sees it.  Geometry with concrete coordinates is handed to
the real shapely; geometry with symbolic coordinates is decided exactly: predicates become
polynomial formulas, constructions fork on the combinatorial cases."""
import sys
import types
import builtins
from fractions import Fraction
import numpy as np
if '/opt/venv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/venv/lib/python3.12/site-packages')
import shapely as rs
import shapely.ops
import shapely.affinity
import core
from core import Sym, SymBool, Unsupported, f_and, f_or, atom, TRUE, FALSE
from poly import Poly
import symnp


def S(x):
    return Sym.of(x)


def isc(p):
    return S(p[0]).is_const() and S(p[1]).is_const()


def fl(p):
    return (float(S(p[0]).const()), float(S(p[1]).const()))


def pt(c):
    """(x, y) of anything point-like"""
    if isinstance(c, Point):
        return c.c
    if hasattr(c, 'xy') and not hasattr(c, '__len__'):
        c = c.xy
    c = list(c)
    return (S(c[0]), S(c[1]))


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def crs(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dt(a, b):
    return a[0] * b[0] + a[1] * b[1]


def ge0(x):
    return S(x).cmp('>=', 0)


def gt0(x):
    return S(x).cmp('>', 0)


def eq0(x):
    return S(x).cmp('==', 0)


def br(f):
    return core.ENG.branch(f)


def same(a, b):
    return f_and([S(a[0]).cmp('==', b[0]), S(a[1]).cmp('==', b[1])])


def plainly_equal(a, b):
    return all(S(x - y).is_const() and S(x - y).const() == 0 for x, y in zip(a, b))


def on_segment(p, a, b):
    d = sub(b, a)
    e = sub(p, a)
    t = dt(e, d)
    # (a segment that may be a single point holds that point only)
    proper = f_or([S(d[0]).cmp('!=', 0), S(d[1]).cmp('!=', 0)])
    return f_and([eq0(crs(d, e)), ge0(t), ge0(dt(d, d) - t)] + ([] if proper.k == 'T' else [f_or([proper, same(p, a)])]))


def seg_hit(a, b, p, q):
    """closed segments ab and pq share a point (formula)"""
    r, s, w = sub(b, a), sub(q, p), sub(p, a)
    d = crs(r, s)
    nt, nu = crs(w, s), crs(w, r)
    gen = f_or([f_and([gt0(d), ge0(nt), ge0(d - nt), ge0(nu), ge0(d - nu)]),
                f_and([gt0(-d), ge0(-nt), ge0(nt - d), ge0(-nu), ge0(nu - d)])])
    par = eq0(d)
    if par.k == 'F':
        return gen
    col = f_or([on_segment(p, a, b), on_segment(q, a, b), on_segment(a, p, q), on_segment(b, p, q)])
    return f_or([gen, f_and([par, col])])


def seg_common(a, b, p, q):
    """Forks: None, ('P', point) or ('L', point, point)"""
    if not br(seg_hit(a, b, p, q)):
        return None
    r, s, w = sub(b, a), sub(q, p), sub(p, a)
    d = crs(r, s)
    if br(S(d).cmp('!=', 0)):
        t = crs(w, s) / d
        return ('P', (a[0] + t * r[0], a[1] + t * r[1]))
    # collinear overlap
    rr = dt(r, r)
    if br(eq0(rr)):
        return ('P', a)
    t0, t1 = dt(w, r) / rr, dt(sub(q, a), r) / rr
    if br(gt0(t0 - t1)):
        t0, t1 = t1, t0
    lo = t0 if br(gt0(t0)) else S(0)
    hi = t1 if br(gt0(1 - t1)) else S(1)
    P0 = (a[0] + lo * r[0], a[1] + lo * r[1])
    if br(eq0(hi - lo)):
        return ('P', P0)
    return ('L', P0, (a[0] + hi * r[0], a[1] + hi * r[1]))


class Coords(list):
    @property
    def xy(self):
        return [c[0] for c in self], [c[1] for c in self]

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return Coords(r) if isinstance(i, slice) else r


class Bounds:
    """(minx, miny, maxx, maxy); each entry is created when first read."""

    def __init__(self, pts):
        self.pts = pts
        self.v = {}

    def __getitem__(self, i):
        if isinstance(i, slice):
            return tuple(self)[i]
        i %= 4
        if i not in self.v:
            xs = [p[i % 2] for p in self.pts]
            if builtins.all(S(x).is_const() for x in xs):
                xs = [S(x).const() for x in xs]
                self.v[i] = S(min(xs) if i < 2 else max(xs))
            else:
                v = core.ENG.new_var('bound%d' % len(core.ENG.vars), 'def')
                m = Sym(Poly.var(v))
                rel = '<=' if i < 2 else '>='
                core.ENG.define(v, f_and([m.cmp(rel, x) for x in xs] +
                                         [f_or([m.cmp('==', x) for x in xs])]))
                self.v[i] = m
        return self.v[i]

    def __iter__(self):
        return iter([self[i] for i in range(4)])

    def __len__(self):
        return 4


class Geom:
    is_empty = False
    has_z = False

    def concrete(self):
        return builtins.all(isc(c) for c in self.pts())

    def pts(self):
        raise NotImplementedError

    def real(self):
        raise Unsupported('no real geometry for %s' % self.geom_type)

    @property
    def is_valid(self):
        return True

    def disjoint(self, o):
        return ~SymBool(core.to_f(self.intersects(o)))

    def equals(self, o):
        if self.concrete() and o.concrete():
            return self.real().equals(o.real())
        raise Unsupported('equals')

    def _both(self, o, name, *a):
        return from_real(getattr(self.real(), name)(o.real(), *a))

    def touches(self, o):
        raise Unsupported('touches')

    def covered_by(self, o):
        return o.covers(self)

    def symmetric_difference(self, o):
        return self.difference(o).union(o.difference(self))

    def overlaps(self, o):
        if self.concrete() and o.concrete():
            return self.real().overlaps(o.real())
        if not (hasattr(self, 'triangles') and hasattr(o, 'triangles')):
            raise Unsupported('overlaps')
        if br(core.to_f(self.covers(o))) or br(core.to_f(o.covers(self))):
            return False
        return SymBool(core.to_f(self.intersection(o).area > 0))

    def normalize(self):
        return self

    def within(self, o):
        return o.contains(self)


class Point(Geom):
    geom_type = 'Point'

    def __init__(self, *a):
        c = a[0] if len(a) == 1 else a
        self.c = pt(c)

    def pts(self):
        return [self.c]

    @property
    def x(self):
        return self.c[0]

    @property
    def y(self):
        return self.c[1]

    @property
    def coords(self):
        return Coords([self.c])

    @property
    def xy(self):
        return self.coords.xy

    @property
    def bounds(self):
        return (self.c[0], self.c[1], self.c[0], self.c[1])

    @property
    def centroid(self):
        return self

    @property
    def area(self):
        return S(0)

    length = area

    def real(self):
        return rs.Point(*fl(self.c))

    def within(self, o):
        return o.contains(self)

    def intersects(self, o):
        if isinstance(o, Point):
            return SymBool(same(self.c, o.c))
        return o.covers(self)

    def distance(self, o):
        if isinstance(o, Point):
            d = sub(self.c, o.c)
            return dt(d, d).sqrt()
        return o.distance(self)

    def contains(self, o):
        return isinstance(o, Point) and SymBool(same(self.c, o.c))

    covers = contains

    def buffer(self, *a, **k):
        if self.concrete():
            return from_real(self.real().buffer(*a, **k))
        raise Unsupported('buffer of a symbolic point')


class LineString(Geom):
    geom_type = 'LineString'

    def __init__(self, cs=()):
        if isinstance(cs, LineString):
            cs = cs.p
        self.p = [pt(c) for c in (cs.tolist() if isinstance(cs, np.ndarray) else cs)]
        self.is_empty = not self.p

    def pts(self):
        return self.p

    def real(self):
        return rs.LineString([fl(c) for c in self.p])

    @property
    def coords(self):
        return Coords(self.p)

    @property
    def xy(self):
        return self.coords.xy

    @property
    def bounds(self):
        return Bounds(self.p)

    @property
    def length(self):
        t = S(0)
        for a, b in self.segs():
            d = sub(a, b)
            t = t + dt(d, d).sqrt()
        return t

    area = S(0) if False else 0.

    def segs(self):
        return list(zip(self.p[:-1], self.p[1:]))

    def covers_point(self, p):
        return f_or([on_segment(p, a, b) for a, b in self.segs()])

    def covers(self, o):
        if isinstance(o, Point):
            return SymBool(self.covers_point(o.c))
        raise Unsupported('LineString.covers')

    def contains(self, o):
        # the two end points are the boundary of an open line
        if isinstance(o, Point):
            f = self.covers_point(o.c)
            if not self.closed():
                f = f_and([f, same(o.c, self.p[0]).neg(), same(o.c, self.p[-1]).neg()])
            return SymBool(f)
        raise Unsupported('LineString.contains')

    def closed(self):
        return False

    def intersects(self, o):
        if isinstance(o, Point):
            return SymBool(self.covers_point(o.c))
        if isinstance(o, LineString):
            return SymBool(f_or([seg_hit(a, b, p, q) for a, b in self.segs() for p, q in o.segs()]))
        return o.intersects(self)

    def touches(self, o):
        raise Unsupported('touches')

    def crosses(self, o):
        raise Unsupported('crosses')

    def interpolate(self, t, normalized=False):
        if len(self.p) != 2 or not normalized:
            raise Unsupported('interpolate')
        a, b = self.p
        return Point(a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)

    def intersection(self, o):
        if self.concrete() and o.concrete():
            return self._both(o, 'intersection')
        if isinstance(o, LineString):
            points, lines = [], []
            for a, b in self.segs():
                for p, q in o.segs():
                    h = seg_common(a, b, p, q)
                    if h is None:
                        continue
                    if h[0] == 'P':
                        points.append(h[1])
                    else:
                        lines.append(h[1:])
            keep = []
            for p in points:
                if lines and builtins.any(br(on_segment(p, a, b)) for a, b in lines):
                    continue
                if builtins.any(br(same(p, k)) for k in keep):
                    continue
                keep.append(p)
            return collect(keep, lines)
        if isinstance(o, Polygon):
            return o.clip_line(self)
        if isinstance(o, Region):
            raise Unsupported('LineString ∩ region')
        return o.intersection(self)

    def distance(self, o):
        if not isinstance(o, Point):
            raise Unsupported('distance')
        q = nearest_on_segs(self.segs(), o.c)
        d = sub(q, o.c)
        return dt(d, d).sqrt()

    def project(self, o, normalized=False):
        raise Unsupported('project')

    @property
    def centroid(self):
        if len(self.p) == 2:
            a, b = self.p
            return Point((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        raise Unsupported('centroid of a line string')


class LinearRing(LineString):
    geom_type = 'LinearRing'

    def __init__(self, cs=()):
        LineString.__init__(self, cs)
        if self.p and not br(same(self.p[0], self.p[-1])):
            self.p = self.p + [self.p[0]]

    def closed(self):
        return True

    def real(self):
        return rs.LinearRing([fl(c) for c in self.p])

    @property
    def is_ccw(self):
        return br(gt0(area2(self.p[:-1])))


def collect(points, lines):
    if not points and not lines:
        return LineString([])
    if not lines:
        return Point(points[0]) if len(points) == 1 else Multi('MultiPoint', [Point(p) for p in points])
    if not points:
        return LineString(lines[0]) if len(lines) == 1 else Multi('MultiLineString', [LineString(l) for l in lines])
    return Multi('GeometryCollection', [LineString(l) for l in lines] + [Point(p) for p in points])


class Multi(Geom):
    def __init__(self, kind, geoms):
        self.geom_type = kind
        self.geoms = geoms
        self.is_empty = not geoms

    def pts(self):
        return [p for g in self.geoms for p in g.pts()]

    def real(self):
        g = [x.real() for x in self.geoms]
        return {'MultiPoint': rs.MultiPoint, 'MultiLineString': rs.MultiLineString,
                'MultiPolygon': rs.MultiPolygon}.get(self.geom_type, rs.GeometryCollection)(g)

    def intersects(self, o):
        return SymBool(f_or([core.to_f(g.intersects(o)) for g in self.geoms]))

    def contains(self, o):
        return SymBool(f_or([core.to_f(g.contains(o)) for g in self.geoms]))

    def covers(self, o):
        return SymBool(f_or([core.to_f(g.covers(o)) for g in self.geoms]))

    def interior(self, p):
        return f_or([g.interior(p) for g in self.geoms])

    def closure(self, p):
        return f_or([g.closure(p) for g in self.geoms])

    @property
    def area(self):
        t = S(0)
        for g in self.geoms:
            t = t + g.area
        return t

    @property
    def bounds(self):
        return Bounds(self.pts())

    @property
    def centroid(self):
        if self.concrete():
            return from_real(self.real().centroid)
        raise Unsupported('centroid of a collection')

    def intersection(self, o):
        if self.concrete() and o.concrete():
            return self._both(o, 'intersection')
        return Region('and', [self, o])

    def difference(self, o):
        if self.concrete() and o.concrete():
            return self._both(o, 'difference')
        return Region('diff', [self, o])

    def union(self, o):
        return unary_union([self, o])

    def buffer(self, *a, **k):
        if self.concrete():
            return from_real(self.real().buffer(*a, **k))
        raise Unsupported('buffer')

    def distance(self, o):
        ds = [g.distance(o) for g in self.geoms]
        m = ds[0]
        for d in ds[1:]:
            if d < m:
                m = d
        return m


def area2(p):
    t = S(0)
    n = len(p)
    for i in range(n):
        t = t + crs(p[i], p[(i + 1) % n])
    return t


def nearest_on_segs(segs, c):
    best = None
    for a, b in segs:
        d = sub(b, a)
        t = dt(sub(c, a), d)
        if br(S(t).cmp('<=', 0)):
            q = a
        elif br(ge0(t - dt(d, d))):
            q = b
        else:
            k = t / dt(d, d)
            q = (a[0] + k * d[0], a[1] + k * d[1])
        e = sub(c, q)
        dd = dt(e, e)
        if best is None or br(gt0(best[0] - dd)):
            best = (dd, q)
    return best[1]


class Polygon(Geom):
    geom_type = 'Polygon'

    def __init__(self, shell=None, holes=None):
        if isinstance(shell, Polygon):
            self.p = list(shell.p)
        else:
            if shell is None:
                shell = []
            if isinstance(shell, LineString):
                shell = shell.p
            if isinstance(shell, np.ndarray):
                shell = shell.tolist()
            self.p = [pt(c) for c in shell]
            if len(self.p) in (1, 2):
                raise ValueError('A linearring requires at least 4 coordinates.')
            if self.p and len(self.p) > 3 and br(same(self.p[0], self.p[-1])):
                self.p = self.p[:-1]
        self.holes = [LinearRing(h) for h in holes] if holes else []
        if self.holes:
            raise Unsupported('polygon with holes')
        self.is_empty = not self.p
        self._tri = None
        self._cvx = None

    # p: vertices without the repeated last one
    def pts(self):
        return self.p

    def real(self):
        return rs.Polygon([fl(c) for c in self.p]) if self.p else rs.Polygon()

    @property
    def interiors(self):
        return []

    @property
    def exterior(self):
        r = LinearRing.__new__(LinearRing)
        r.p = self.p + self.p[:1]
        r.is_empty = not self.p
        return r

    @property
    def boundary(self):
        return self.exterior

    @property
    def coords(self):
        raise NotImplementedError('Component rings have coordinate sequences, but the polygon does not')

    @property
    def bounds(self):
        return Bounds(self.p)

    @property
    def area(self):
        if not self.p:
            return S(0)
        return builtins.abs(area2(self.p)) / 2

    @property
    def length(self):
        return self.exterior.length

    @property
    def convex_hull(self):
        if self.concrete():
            return from_real(self.real().convex_hull)
        raise Unsupported('convex hull')

    @property
    def envelope(self):
        a, b, c, d = self.bounds
        return Polygon([(a, b), (c, b), (c, d), (a, d)])

    @property
    def is_valid(self):
        if self.concrete():
            return self.real().is_valid
        return True

    @property
    def is_simple(self):
        return self.is_valid

    @property
    def centroid(self):
        n = len(self.p)
        A = area2(self.p)
        cx, cy = S(0), S(0)
        for i in range(n):
            a, b = self.p[i], self.p[(i + 1) % n]
            k = crs(a, b)
            cx = cx + (a[0] + b[0]) * k
            cy = cy + (a[1] + b[1]) * k
        return Point(cx / (3 * A), cy / (3 * A))

    def representative_point(self):
        if self.concrete():
            return from_real(self.real().representative_point())
        raise Unsupported('representative_point')

    def edges(self):
        n = len(self.p)
        return [(self.p[i], self.p[(i + 1) % n]) for i in range(n)
                if not (n > 3 and plainly_equal(self.p[i], self.p[(i + 1) % n]))]

    # -- shape knowledge
    def convexity(self):
        """+1/-1: known convex and ccw/cw; 0: not known to be convex (no fork)."""
        if self._cvx is None:
            P = [p for i, p in enumerate(self.p) if not plainly_equal(p, self.p[i - 1])]
            n = len(P)
            cs = [crs(sub(P[(i + 1) % n], P[i]), sub(P[(i + 2) % n], P[(i + 1) % n])) for i in range(n)]
            self._cvx = 0
            if self.concrete():
                cs = [S(c).const() for c in cs]
                r = self.real()
                if r.is_valid:
                    if min(cs) >= 0:
                        self._cvx = 1
                    elif max(cs) <= 0:
                        self._cvx = -1
            else:
                # every vertex on the inner side of every edge (closed)
                for sg in (1, -1):
                    if builtins.all(core.ENG.entails(gt0(S(c) * sg)) for c in cs):
                        ok = True
                        for i in range(n):
                            a, b = P[i], P[(i + 1) % n]
                            for j in range(n):
                                if j in (i, (i + 1) % n, (i + 2) % n, (i - 1) % n):
                                    continue
                                if not core.ENG.entails(ge0(crs(sub(b, a), sub(P[j], a)) * sg)):
                                    ok = False
                                    break
                            if not ok:
                                break
                        if ok:
                            self._cvx = sg
                        break
        return self._cvx

    def triangles(self):
        """Concrete, non-convex: triangles covering the polygon (ear clipping)."""
        if self._tri is None:
            p = [(S(c[0]).const(), S(c[1]).const()) for i, c in enumerate(self.p) if not plainly_equal(c, self.p[i - 1])]
            if sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1])) < 0:
                p = p[::-1]
            tri = []
            idx = list(range(len(p)))
            guard = 0
            while len(idx) > 3 and guard < 10000:
                guard += 1
                for k in range(len(idx)):
                    i, j, l = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
                    a, b, c = p[i], p[j], p[l]
                    k3 = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
                    if k3 < 0:
                        continue
                    if k3 == 0:
                        # drop a degenerate vertex only if nothing else works
                        continue
                    if builtins.any(_intri(p[m], a, b, c) for m in idx if m not in (i, j, l) and p[m] not in (a, b, c)):
                        continue
                    tri.append((a, b, c))
                    idx.pop(k)
                    break
                else:
                    for k in range(len(idx)):
                        a, b, c = p[idx[k - 1]], p[idx[k]], p[idx[(k + 1) % len(idx)]]
                        if (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) == 0:
                            idx.pop(k)
                            break
                    else:
                        raise Unsupported('triangulation failed')
            tri.append(tuple(p[m] for m in idx))
            self._tri = merge_convex(tri)
        return self._tri

    # -- point location (formulas; parity forks for symbolic non-convex polygons)
    def on_boundary(self, p):
        return f_or([on_segment(p, a, b) for a, b in self.edges()])

    def closure(self, p):
        if not self.p:
            return FALSE
        sg = self.convexity()
        if sg:
            return f_and([ge0(crs(sub(b, a), sub(p, a)) * sg) for a, b in self.edges()])
        if self.concrete():
            return f_or([f_and([ge0(crs(sub(b, a), sub(p, a))) for a, b in zip(t, t[1:] + t[:1])])
                         for t in map(list, self.triangles())])
        if br(self.on_boundary(p)):
            return TRUE
        return TRUE if self.parity(p) else FALSE

    def interior(self, p):
        if not self.p:
            return FALSE
        sg = self.convexity()
        if sg:
            return f_and([gt0(crs(sub(b, a), sub(p, a)) * sg) for a, b in self.edges()])
        if self.concrete():
            return f_and([self.closure(p), self.on_boundary(p).neg()])
        if br(self.on_boundary(p)):
            return FALSE
        return TRUE if self.parity(p) else FALSE

    def parity(self, p):
        inside = False
        for a, b in self.edges():
            ua, ub = br(gt0(a[1] - p[1])), br(gt0(b[1] - p[1]))
            if ua == ub:
                continue
            c = crs(sub(b, a), sub(p, a))
            if br(gt0(c if ub else -c)):
                inside = not inside
        return inside

    def contains(self, o):
        if not self.p:
            return False
        if isinstance(o, Point):
            if self.concrete() and o.concrete():
                return bool(self.real().contains(o.real()))
            return SymBool(self.interior(o.c))
        if self.concrete() and o.concrete():
            return bool(self.real().contains(o.real()))
        if isinstance(o, (LineString, Polygon)) and self.convexity():
            # covers, and for lines not entirely in the boundary
            f = f_and([self.closure(q) for q in o.pts()])
            if isinstance(o, LineString):
                f = f_and([f, f_or([self.interior(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)) for a, b in o.segs()])])
            return SymBool(f)
        raise Unsupported('Polygon.contains(%s)' % o.geom_type)

    def covers(self, o):
        if not self.p:
            return False
        if isinstance(o, Point):
            return SymBool(self.closure(o.c))
        if self.concrete() and o.concrete():
            return bool(self.real().covers(o.real()))
        if self.convexity():
            return SymBool(f_and([self.closure(q) for q in o.pts()]))
        raise Unsupported('Polygon.covers(%s)' % o.geom_type)

    def intersects(self, o):
        if not self.p or o.is_empty:
            return False
        if self.concrete() and o.concrete():
            return bool(self.real().intersects(o.real()))
        if isinstance(o, Point):
            return SymBool(self.closure(o.c))
        if isinstance(o, LineString):
            return SymBool(f_or([seg_hit(a, b, p, q) for a, b in o.segs() for p, q in self.edges()] +
                                [self.closure(o.p[0])]))
        if isinstance(o, Polygon):
            sg, so = self.convexity(), o.convexity()
            if sg and so:
                # separating axis among the edge normals
                seps = [f_and([gt0(-(crs(sub(b, a), sub(q, a)) * s)) for q in y.p])
                        for x, y, s in ((self, o, sg), (o, self, so)) for a, b in x.edges()]
                return SymBool(f_or(seps).neg())
            return SymBool(f_or([seg_hit(a, b, p, q) for a, b in o.edges() for p, q in self.edges()] +
                                [self.closure(o.p[0]), o.closure(self.p[0])]))
        return o.intersects(self)

    def clip_line(self, ls):
        if len(ls.p) != 2:
            raise Unsupported('clip of a line string')
        a, b = ls.p
        r = sub(b, a)
        rr = dt(r, r)
        cuts = []
        for p, q in self.edges():
            h = seg_common(a, b, p, q)
            if h is None:
                continue
            for x in h[1:]:
                if not builtins.any(br(same(x, y)) for y in cuts):
                    cuts.append(x)
        out = [c for c in cuts]
        if not br(self.on_boundary(a)) and br(self.closure(a)):
            out.append(a)
        if not br(self.on_boundary(b)) and br(self.closure(b)):
            out.append(b)
        import functools

        def order(x, y):
            return -1 if br(gt0(dt(sub(y, x), r))) else 1
        out.sort(key=functools.cmp_to_key(order))
        lines, points = [], []
        used = [False] * len(out)
        for i in range(len(out) - 1):
            m = ((out[i][0] + out[i + 1][0]) / 2, (out[i][1] + out[i + 1][1]) / 2)
            if br(self.closure(m)):
                used[i] = used[i + 1] = True
                if lines and lines[-1][-1] is out[i]:
                    lines[-1].append(out[i + 1])
                else:
                    lines.append([out[i], out[i + 1]])
        points = [p for p, u in zip(out, used) if not u]
        return collect(points, lines)

    def intersection(self, o):
        if not self.p or o.is_empty:
            return Polygon([])
        if self.concrete() and o.concrete():
            return self._both(o, 'intersection')
        if isinstance(o, LineString):
            return self.clip_line(o)
        if isinstance(o, Polygon) and self.convexity() and o.convexity():
            return clip_convex(self, o)
        return Region('and', [self, o])

    def difference(self, o):
        if self.concrete() and o.concrete():
            return self._both(o, 'difference')
        return Region('diff', [self, o])

    def union(self, o):
        return unary_union([self, o])

    def buffer(self, distance, *a, **k):
        if self.concrete() and S(distance).is_const():
            g = self.real().buffer(float(S(distance).const()), *a, **k)
            # coordinates to within 1e-6, with short binary fractions
            return from_real(rs.transform(g, lambda c: np.round(np.asarray(c, dtype=float) * 2 ** 20) / 2 ** 20))
        raise Unsupported('buffer of a symbolic polygon')

    def simplify(self, *a, **k):
        if self.concrete():
            return from_real(self.real().simplify(*a, **k))
        raise Unsupported('simplify')

    def distance(self, o):
        if isinstance(o, Point):
            if br(self.closure(o.c)):
                return S(0)
            q = nearest_on_segs(self.edges(), o.c)
            d = sub(q, o.c)
            return dt(d, d).sqrt()
        raise Unsupported('distance')


def merge_convex(ps):
    """joins pieces over shared edges as long as they stay convex"""
    ps = [list(t) for t in ps]

    def join(a, b):
        n, m = len(a), len(b)
        for i in range(n):
            for j in range(m):
                if a[i] == b[(j + 1) % m] and a[(i + 1) % n] == b[j]:
                    q = [a[(i + 1 + k) % n] for k in range(n)] + [b[(j + 2 + k) % m] for k in range(m - 2)]
                    for k in range(len(q)):
                        u, v, w = q[k - 2], q[k - 1], q[k]
                        if (v[0] - u[0]) * (w[1] - v[1]) - (v[1] - u[1]) * (w[0] - v[0]) < 0:
                            return None
                    return q
        return None
    done = False
    while not done:
        done = True
        for i in range(len(ps)):
            for j in range(i):
                q = join(ps[i], ps[j])
                if q:
                    ps[j] = q
                    ps.pop(i)
                    done = False
                    break
            if not done:
                break
    return ps


def _intri(q, a, b, c):
    def k(u, v):
        return (v[0] - u[0]) * (q[1] - u[1]) - (v[1] - u[1]) * (q[0] - u[0])
    return k(a, b) >= 0 and k(b, c) >= 0 and k(c, a) >= 0


def clip_convex(A, B):
    """Sutherland-Hodgman, forking on the side of every vertex."""
    sg = B.convexity()
    out = list(A.p)
    for a, b in B.edges():
        d = sub(b, a)
        side = [crs(d, sub(p, a)) * sg for p in out]
        ins = [br(ge0(s)) for s in side]
        new = []
        n = len(out)
        for i in range(n):
            j = (i + 1) % n
            if ins[i]:
                new.append(out[i])
            if ins[i] != ins[j]:
                t = side[i] / (side[i] - side[j])
                q = (out[i][0] + t * (out[j][0] - out[i][0]), out[i][1] + t * (out[j][1] - out[i][1]))
                if not (ins[i] and br(eq0(side[i]))) and not (ins[j] and br(eq0(side[j]))):
                    new.append(q)
        out = new
        if not out:
            return Polygon([])
    if len(out) < 3 or br(eq0(area2(out))):
        if len(out) == 1:
            return Point(out[0])
        return LineString(out[:2])
    r = Polygon.__new__(Polygon)
    r.p = out
    r.holes = []
    r.is_empty = False
    r._tri = None
    r._cvx = A.convexity() or None
    return r


class Region(Geom):
    """A set expression; only membership of points is known."""
    geom_type = 'Polygon'

    def __init__(self, op, parts):
        self.op = op
        self.parts = parts

    def pts(self):
        return [p for g in self.parts for p in g.pts()]

    def concrete(self):
        return False

    def interior(self, p):
        if self.op == 'and':
            return f_and([g.interior(p) for g in self.parts])
        if self.op == 'or':
            return f_or([g.interior(p) for g in self.parts])
        return f_and([self.parts[0].interior(p), self.parts[1].closure(p).neg()])

    def closure(self, p):
        if self.op == 'and':
            return f_and([g.closure(p) for g in self.parts])
        if self.op == 'or':
            return f_or([g.closure(p) for g in self.parts])
        return f_and([self.parts[0].closure(p), self.parts[1].interior(p).neg()])

    def contains(self, o):
        if isinstance(o, Point):
            return SymBool(self.interior(o.c))
        raise Unsupported('Region.contains')

    def covers(self, o):
        if isinstance(o, Point):
            return SymBool(self.closure(o.c))
        raise Unsupported('Region.covers')

    def intersects(self, o):
        if isinstance(o, Point):
            return SymBool(self.closure(o.c))
        if self.op == 'or':
            return SymBool(f_or([core.to_f(g.intersects(o)) for g in self.parts]))
        raise Unsupported('Region.intersects')

    @property
    def geoms(self):
        if self.op == 'or':
            return self.parts
        raise Unsupported('Region.geoms')

    def intersection(self, o):
        return Region('and', [self, o])

    def difference(self, o):
        return Region('diff', [self, o])

    def union(self, o):
        return Region('or', [self, o])

    @property
    def exterior(self):
        raise Unsupported('Region.exterior')

    @property
    def area(self):
        raise Unsupported('Region.area')

    @property
    def centroid(self):
        raise Unsupported('Region.centroid')


class MultiPoint(Multi):
    def __init__(self, cs=()):
        Multi.__init__(self, 'MultiPoint', [Point(c) for c in cs])

    @property
    def convex_hull(self):
        if self.concrete():
            return from_real(self.real().convex_hull)
        raise Unsupported('convex hull')


class MultiPolygon(Multi):
    def __init__(self, gs=()):
        Multi.__init__(self, 'MultiPolygon', list(gs))


class MultiLineString(Multi):
    def __init__(self, gs=()):
        Multi.__init__(self, 'MultiLineString', [g if isinstance(g, LineString) else LineString(g) for g in gs])


class GeometryCollection(Multi):
    def __init__(self, gs=()):
        Multi.__init__(self, 'GeometryCollection', list(gs))


def _cf(c):
    return (S(core.nice(c[0])), S(core.nice(c[1])))


def from_real(g):
    if isinstance(g, (bool, np.bool_)):
        return bool(g)
    if isinstance(g, (float, int)):
        return S(g)
    k = g.geom_type
    if k == 'Point':
        return Point(_cf(g.coords[0])) if not g.is_empty else Polygon([])
    if k in ('LineString', 'LinearRing'):
        return LineString([_cf(c) for c in g.coords])
    if k == 'Polygon':
        if g.is_empty:
            return Polygon([])
        if len(g.interiors):
            raise Unsupported('polygon with holes')
        return Polygon([_cf(c) for c in g.exterior.coords[:-1]])
    return Multi(k, [from_real(x) for x in g.geoms])


def box(a, b, c, d, ccw=True):
    return Polygon([(c, b), (c, d), (a, d), (a, b)])


def orient(g, sign=1.0):
    a = area2(g.p)
    if br(ge0(a)) == (sign >= 0):
        return g
    r = Polygon([])
    r.p = [g.p[0]] + g.p[:0:-1]
    r.is_empty = False
    return r


def unary_union(gs):
    if isinstance(gs, Geom):
        gs = getattr(gs, 'geoms', [gs])
    gs = [g for g in gs if not g.is_empty]
    if not gs:
        return Polygon([])
    if len(gs) == 1:
        return gs[0]
    if builtins.all(g.concrete() for g in gs):
        return from_real(rs.ops.unary_union([g.real() for g in gs]))
    return Region('or', gs)


def nearest_points(a, b):
    if isinstance(b, Point):
        if isinstance(a, LineString):
            return (Point(nearest_on_segs(a.segs(), b.c)), b)
        if isinstance(a, Polygon):
            if br(a.closure(b.c)):
                return (b, b)
            return (Point(nearest_on_segs(a.edges(), b.c)), b)
        if isinstance(a, Multi) and a.concrete() and b.concrete():
            p, q = rs.ops.nearest_points(a.real(), b.real())
            return (from_real(p), from_real(q))
    raise Unsupported('nearest_points(%s, %s)' % (a.geom_type, b.geom_type))


def split(g, l):
    if g.concrete() and l.concrete():
        return from_real(rs.ops.split(g.real(), l.real()))
    if isinstance(g, Polygon) and len(l.p) == 2 and g.convexity():
        # a convex polygon is cut when the segment meets both sides of its boundary
        a, b = l.p
        d = sub(b, a)
        k = [crs(d, sub(q, a)) for q in g.p]
        sg = [1 if br(gt0(v)) else (0 if br(eq0(v)) else -1) for v in k]
        left, right, cut = [], [], []
        n = len(g.p)
        for i in range(n):
            q, j = g.p[i], (i + 1) % n
            if sg[i] >= 0:
                left.append(q)
            if sg[i] <= 0:
                right.append(q)
            if sg[i] == 0:
                cut.append(q)
            if sg[i] * sg[j] < 0:
                t = k[i] / (k[i] - k[j])
                q = (q[0] + t * (g.p[j][0] - q[0]), q[1] + t * (g.p[j][1] - q[1]))
                left.append(q)
                right.append(q)
                cut.append(q)
        if 1 in sg and -1 in sg and all(br(ge0(dt(sub(q, a), d))) and br(ge0(dt(sub(b, q), d))) for q in cut):
            return Multi('GeometryCollection', [Polygon(left), Polygon(right)])
        return Multi('GeometryCollection', [g])
    raise Unsupported('split')


def affine_transform(g, m):
    if not isinstance(g, Geom):
        raise AttributeError("%r object has no attribute 'is_empty'" % type(g).__name__)
    a, b, d, e, x, y = m

    def f(c):
        return (a * c[0] + b * c[1] + x, d * c[0] + e * c[1] + y)
    if isinstance(g, Polygon):
        r = Polygon([])
        r.p = [tuple(map(S, f(c))) for c in g.p]
        r.is_empty = g.is_empty
        return r
    if isinstance(g, Point):
        return Point(f(g.c))
    if isinstance(g, LineString):
        r = type(g).__new__(type(g))
        r.p = [tuple(map(S, f(c))) for c in g.p]
        r.is_empty = g.is_empty
        return r
    if isinstance(g, Multi):
        return Multi(g.geom_type, [affine_transform(x, m) for x in g.geoms])
    if hasattr(g, 'affine'):
        return g.affine(m)
    raise Unsupported('affine_transform')


def translate(g, xoff=0.0, yoff=0.0, zoff=0.0):
    return affine_transform(g, [1, 0, 0, 1, xoff, yoff])


def rotate(g, angle, origin='center', use_radians=False):
    if not use_radians:
        angle = angle * (np.pi / 180)
    if origin == 'center':
        raise Unsupported('rotate about the centre')
    if origin == 'centroid':
        origin = g.centroid.c
    ox, oy = pt(origin)
    c, s = S(angle).cos(), S(angle).sin()
    return affine_transform(g, [c, -s, s, c, ox - ox * c + oy * s, oy - ox * s - oy * c])


def make():
    m = types.ModuleType('shapely')
    m.__path__ = []
    g = types.ModuleType('shapely.geometry')
    g.__path__ = []
    o = types.ModuleType('shapely.ops')
    a = types.ModuleType('shapely.affinity')
    for k in ('Point', 'LineString', 'LinearRing', 'Polygon', 'MultiPoint', 'MultiPolygon', 'MultiLineString',
              'GeometryCollection', 'box'):
        setattr(g, k, globals()[k])
        setattr(m, k, globals()[k])
    for k in ('orient', 'unary_union', 'nearest_points', 'split'):
        setattr(o, k, globals()[k])
    m.unary_union = unary_union
    m.union_all = unary_union
    g.polygon = types.SimpleNamespace(orient=orient, Polygon=Polygon)
    o.polygonize = None
    for k in ('affine_transform', 'translate', 'rotate'):
        setattr(a, k, globals()[k])
    m.geometry, m.ops, m.affinity = g, o, a
    for n, f in {'intersects': lambda p, q: p.intersects(q), 'contains': lambda p, q: p.contains(q),
                 'intersection': lambda p, q: p.intersection(q), 'difference': lambda p, q: p.difference(q),
                 'disjoint': lambda p, q: p.disjoint(q), 'distance': lambda p, q: p.distance(q),
                 'area': lambda p: p.area, 'is_empty': lambda p: p.is_empty, 'union': lambda p, q: p.union(q),
                 'covers': lambda p, q: p.covers(q), 'within': lambda p, q: p.within(q),
                 'contains_xy': lambda p, x, y: p.contains(Point(x, y)),
                 'intersects_xy': lambda p, x, y: p.covers(Point(x, y)),
                 'buffer': lambda p, d, **k: p.buffer(d, **k),
                 'get_coordinates': lambda p: symnp.array(list(p.exterior.coords) if isinstance(p, Polygon) else list(p.coords)),
                 }.items():
        setattr(m, n, f)
    m.__version__ = rs.__version__
    return {'shapely': m, 'shapely.geometry': g, 'shapely.ops': o, 'shapely.affinity': a,
            'shapely.geometry.polygon': g.polygon}
