from common import harness
from shapes import *
from h_cone import crs, off

# ring (counter-clockwise) and a point of its kernel; d*: non-adjacent edges in line, edge lines meeting in one point
POLY = {
    'dart': ([[0.0, 0.0], [3.0, -1.0], [1.0, 0.25], [2.0, 3.0]], [0.5, 0.125]),
    'ell': ([[0.0, 0.0], [3.0, 0.0], [3.0, 1.0], [1.0, 1.0], [1.0, 2.0], [0.0, 2.0]], [0.5, 0.5]),
    'star4': ([[3.0, 0.25], [1.0, 1.0], [0.0, 4.0], [-1.0, 1.0], [-3.0, 0.0], [-1.0, -1.0], [0.5, -3.0], [1.0, -1.0]], [-0.0, -0.0]),
    'p0': ([[0.375, 0.5], [-0.125, 2.625], [-1.125, 0.0], [-1.5, -0.25], [-0.5, -0.125], [0.25, -0.375], [0.625, -0.75]], [0.0, 0.375]),
    'p1': ([[0.125, 1.25], [-0.875, 1.375], [-0.5, 0.0], [-0.5, -0.125], [-0.5, -1.75], [-0.25, -1.625], [1.125, -2.25], [0.25, -0.375]], [-0.125, -0.375]),
    'p2': ([[2.0, 1.0], [0.375, 0.875], [0.0, 1.25], [-1.25, 0.875], [-1.375, -0.25], [-0.125, -2.125], [1.875, -1.5], [1.25, -0.375]], [-0.125, -0.375]),
    'p3': ([[1.75, 0.75], [-1.625, 1.875], [-1.0, 0.375], [-1.25, 0.0], [-2.5, -1.0], [-1.375, -1.0], [2.75, -1.0]], [0.75, -0.125]),
    'p4': ([[1.75, 1.75], [0.25, 0.375], [1.0, 2.625], [-0.25, 0.625], [-0.75, 1.0], [-1.625, 0.5], [-0.375, -1.5], [0.875, -0.375]], [-0.375, -0.625]),
    'p5': ([[1.875, 1.625], [0.25, 1.5], [-1.75, 2.25], [-1.375, 0.25], [-2.5, -0.625], [0.0, -0.625], [0.875, -1.0]], [0.25, 0.375]),
    'p6': ([[0.25, 2.75], [-2.375, -0.75], [-0.375, -0.5], [0.125, -1.0], [1.25, -2.25]], [-0.125, 0.75]),
    'p7': ([[2.5, 0.5], [-1.875, 2.125], [-1.25, 0.625], [-1.25, -0.125], [-0.25, -0.375], [-0.25, -1.625], [0.125, -0.5], [0.5, -0.75], [1.375, -0.375]], [0.125, 0.625]),
    'p8': ([[1.5, 1.375], [0.0, 0.375], [-1.125, 0.25], [-1.5, 0.125], [-1.125, -1.125], [-0.875, -2.25], [0.875, -1.625], [1.875, -1.0], [1.5, -0.375]], [0.125, -0.75]),
    'p9': ([[0.625, 0.25], [0.125, 0.5], [-0.875, 2.875], [-1.25, 2.125], [-3.0, 0.125], [-2.25, -1.25], [-0.625, -1.375], [0.0, -0.875], [1.5, -1.0], [1.0, -0.125]], [-1.0, 0.0]),
    'p10': ([[0.875, 0.625], [0.375, 1.5], [0.0, 2.625], [-1.0, -0.25], [-1.25, -0.875], [-0.375, -0.5], [0.625, -1.25]], [-0.0, 0.625]),
    'p11': ([[0.5, 1.625], [0.25, 1.375], [-1.375, 2.5], [-0.25, -0.5], [0.125, -1.75], [1.125, -0.25]], [0.25, 0.0]),
    'p12': ([[-1.25, 2.125], [-1.375, 0.375], [-2.25, -1.25], [-0.375, -0.25], [-1.0, -1.5], [0.75, -1.625], [0.625, -0.25]], [-0.0, 0.125]),
    'p13': ([[0.875, 0.375], [1.5, 1.25], [-1.0, 0.125], [-2.875, -0.25], [1.375, -1.25]], [-0.5, -0.25]),
    'd0': ([[2.5, 0.7], [1.1, 0.6], [0.3, 1.2], [-0.3, 0.5], [-1.2, 0.7], [-1.3, -0.7], [-0.6, -2.3]], [0.0, -0.625]),
    'd1': ([[2.1, 1.6], [0.5, 0.9], [-0.1, 0.7], [-0.4, 1.0], [-0.4, -1.5], [0.4, -2.2], [1.4, -0.8], [0.5, -0.2]], [-0.125, -0.375]),
    'd2': ([[2.0, 1.0], [1.0, 1.0], [1.0, 2.0], [-1.0, -1.0], [1.0, -1.0], [1.0, 0.0]], [0.25, -0.0]),
    'd3': ([[0.3, 0.1], [1.2, 2.1], [-0.5, 1.4], [-2.6, 1.0], [-0.5, -0.2], [-1.5, -0.9], [-0.1, -0.8], [-0.1, -1.2], [0.1, -0.3], [1.8, -0.3]], [0.0, -0.125]),
    'd4': ([[1.0, 1.0], [0.0, 1.0], [0.0, 2.0], [-1.0, 0.0], [0.0, -1.0], [0.0, 0.0], [1.0, -1.0], [2.0, -1.0]], [-0.25, 0.625]),
    'd5': ([[2.0, 0.6], [-0.6, 1.6], [-0.7, 1.2], [-0.3, 0.2], [-2.2, -0.5], [-0.6, -0.2], [-1.3, -2.2], [0.3, -1.5], [0.7, -1.3]], [0.875, 0.375]),
    'd6': ([[1.6, 1.2], [-1.4, -0.8], [-0.3, -0.5], [0.4, -1.1], [2.8, -0.8]], [1.0, 0.25]),
    'd7': ([[0.8, 0.1], [0.2, 1.1], [-0.4, 1.5], [-0.6, 1.2], [-1.3, 2.1], [-2.5, 0.1], [-1.0, -1.8], [0.0, -0.6], [1.6, -1.2], [0.7, -0.2]], [-0.5, 0.125]),
    'd8': ([[0.4, 0.5], [0.5, 2.3], [0.1, 1.6], [-0.1, 1.0], [-0.5, 1.4], [-1.2, 1.7], [-1.3, -0.3], [-1.5, -1.0], [0.1, -1.3], [0.5, -1.5], [0.7, -0.1]], [-0.125, -0.25]),
}


def halfplanes(E, q, ring, tol=0):
    """q on the inner side of every edge of the ccw ring"""
    return E.And(*[cross(a, b, q) > tol for a, b in edges(ring)])


QUICK = ('dart', 'ell', 'star4', 'p0', 'p1', 'p5', 'p9', 'p12', 'd0', 'd1', 'd2', 'd3', 'd4', 'd6')
CP = {('' if k in QUICK else '+') + k: dict(name=k) for k in POLY}


def check(E, R, o, ring, q, pos=(0., 0.)):
    k = o.kernel()
    pt = R.np.array([q[0] + pos[0], q[1] + pos[1]])
    c = k.contains(R.shapely.geometry.Point(pt))
    E.prove(E.Or(c, E.Not(halfplanes(E, q, ring, 1e-4))), 'every point that sees everything')
    E.prove(E.Or(E.Not(c), halfplanes(E, q, ring, -1e-4)), 'only points that see everything')
    xr = o.xr()
    E.prove(halfplanes(E, [xr[0] - pos[0], xr[1] - pos[1]], ring, -1e-6), 'default reference point sees everything')


# ---------------------------------------------------------------- C12
@harness('C12', params=CP, bounds='fixed polygons listed from any vertex in either orientation, any point in [-5,5]^2')
def fixed(E, R, name):
    ring = POLY[name][0]
    o = R.StarshapedPolygon(variant(E, ring))
    E.prove(o.kernel(R.Frame.OBSTACLE).is_valid, 'a proper polygon')
    check(E, R, o, ring, E.vec('q', -5, 5))


def generic(E, ring):
    """no vertex on the line of another edge, no three edge lines in one point"""
    L = [(b[1] - a[1], a[0] - b[0], a[0] * b[1] - a[1] * b[0]) for a, b in edges(ring)]
    n = len(ring)
    D = [L[i][0] * ring[j][0] + L[i][1] * ring[j][1] - L[i][2] for i in range(n) for j in range(n) if j not in (i, (i + 1) % n)]
    D += [L[i][0] * (L[j][1] * L[k][2] - L[j][2] * L[k][1]) - L[i][1] * (L[j][0] * L[k][2] - L[j][2] * L[k][0])
          + L[i][2] * (L[j][0] * L[k][1] - L[j][1] * L[k][0]) for i in range(n) for j in range(i) for k in range(j)]
    for d in D:
        if not (isinstance(d, float) or getattr(d, 'is_const', bool)()):
            E.assume(off(E, d, 1e-3))


def shift(ring, i, t):
    """edge i -> i+1 moved in parallel, the neighbouring edges stay on their lines"""
    n = len(ring)
    a, b, c, d = ring[i - 1], ring[i], ring[(i + 1) % n], ring[(i + 2) % n]
    e = [c[0] - b[0], c[1] - b[1]]
    u, w = [b[0] - a[0], b[1] - a[1]], [c[0] - d[0], c[1] - d[1]]
    ku, kw = crs(e, w), crs(e, u)
    s = max(abs(x * k) for v, k in ((u, ku), (w, kw)) for x in v)
    f = 0.5
    while s * f > 1:
        f /= 2
    ring = [list(p) for p in ring]
    ring[i] = [b[0] + t * (ku * f * u[0]), b[1] + t * (ku * f * u[1])]
    ring[(i + 1) % n] = [c[0] + t * (kw * f * w[0]), c[1] + t * (kw * f * w[1])]
    return ring


SH = {}
for _k in POLY:
    if not _k.startswith('d'):
        for _i in range(len(POLY[_k][0])):
            SH[('' if _k in ('ell', 'p0', 'p2', 'p5', 'p12', 'p13') else '+') + '%s_%d' % (_k, _i)] = dict(name=_k, i=_i)
SH.update({'dart_%d' % i: dict(name='dart', i=i) for i in range(4)})


@harness('C12', params=SH, bounds='one edge of a polygon moved in parallel by up to about one unit either way (the polygon stays starshaped; no vertex within 1e-3 of '
         'another edge line and no three edge lines within 1e-3 of one point unless always so), any point in [-5,5]^2')
def shifted(E, R, name, i):
    ring, c = POLY[name]
    ring = shift(ring, i, E.real('t', -1, 1))
    E.assume(halfplanes(E, c, ring, 0.01))
    generic(E, ring)
    ring = ring[i + 2:] + ring[:i + 2]
    check(E, R, R.StarshapedPolygon(ring), ring, E.vec('q', -5, 5))


@harness('C12', params={'+%s_%d' % (k, i): dict(name=k, i=i) for k, i in (('dart', 0), ('dart', 2), ('ell', 1), ('ell', 2), ('p5', 0), ('p12', 0), ('p13', 0), ('p13', 3))},
         bounds='one vertex of a polygon moved along a line by up to 0.75 either way (the polygon stays starshaped), any point in [-5,5]^2')
def moved(E, R, name, i):
    ring, c = POLY[name]
    ring = [list(p) for p in ring]
    t = E.real('t', -0.75, 0.75)
    d = [[1., 0.5], [-0.5, 1.]][i % 2]
    ring[i] = [ring[i][0] + t * d[0], ring[i][1] + t * d[1]]
    E.assume(halfplanes(E, c, ring, 0.01))
    ring = ring[i + 2:] + ring[:i + 2]
    check(E, R, R.StarshapedPolygon(ring), ring, E.vec('q', -5, 5))


KN = {'dart': dict(name='dart'), 'ell': dict(name='ell'), 'p0': dict(name='p0'), '+p5': dict(name='p5'), '+star4': dict(name='star4')}


@harness('C12', params=KN, bounds='fixed polygons, any new reference point in [-5,5]^2 given in either frame at any position in two orientations, more than 1e-4 from the boundary of the kernel')
def safe_reference(E, R, name):
    ring, c = POLY[name]
    pos = E.vec('pos', -20, 20)
    rot, (cs, sn) = [(R.np.arctan2(4., 3.), (0.6, 0.8)), (-R.np.pi / 2, (0., -1.))][E.choice('rot', 2)]
    mm = R.mm.Static(pos, rot)
    o = R.StarshapedPolygon(ring, xr=c, motion_model=mm)
    q = E.vec('q', -5, 5)
    glob = E.choice('frame', 2)
    g = R.np.array([pos[0] + cs * q[0] - sn * q[1], pos[1] + sn * q[0] + cs * q[1]]) if glob else q
    o.set_xr(g, R.Frame.GLOBAL if glob else R.Frame.OBSTACLE, safe_set=True)
    xr = o.xr(R.Frame.OBSTACLE)
    def at(p):
        return E.And(*[E.And(xr[k] - p[k] <= 1e-6, p[k] - xr[k] <= 1e-6) for k in (0, 1)])
    E.prove(E.Or(at(q), E.Not(halfplanes(E, q, ring, 1e-4))), 'a point of the kernel is accepted')
    E.prove(E.Or(at(c), halfplanes(E, q, ring, -1e-4)), 'a point outside of the kernel is refused')
    E.prove(halfplanes(E, [xr[0], xr[1]], ring, -1e-4), 'reference point sees everything')


SC = {'%s%s_%d' % (q, n, i): dict(name=n, lo=lo, hi=hi) for n, q in (('dart', ''), ('ell', ''), ('star4', ''), ('p0', '+'), ('d3', '+'), ('p12', '+'))
      for i, (lo, hi) in enumerate(((0.01, 1.), (1., 100.), (100., 10000.)))}


@harness('C12', params=SC, bounds='fixed polygons of any size from a hundredth to ten thousand times, any point within five times the scale')
def scaled(E, R, name, lo, hi):
    ring = POLY[name][0]
    s = E.real('s', lo, hi)
    o = R.StarshapedPolygon([[s * p[0], s * p[1]] for p in ring])
    q = E.vec('q', -5, 5)
    c = o.kernel().contains(R.shapely.geometry.Point([s * q[0], s * q[1]]))
    E.prove(E.Or(c, E.Not(halfplanes(E, q, ring, 1e-4))), 'every point that sees everything')
    E.prove(E.Or(E.Not(c), halfplanes(E, q, ring, -1e-4)), 'only points that see everything')
    x = o.xr()
    E.prove(E.And(*[(b[0] - a[0]) * (x[1] - s * a[1]) - (b[1] - a[1]) * (x[0] - s * a[0]) > -1e-6 * s for a, b in edges(ring)]), 'default reference point sees everything')
