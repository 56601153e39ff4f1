from common import harness
from shapes import *
from h_frames import put, ring as coords

PADS = [0.25, 1.]
SH = {n: dict(shape=n.strip('+').split('_')[0], star='_star' in n) for n in ('tri', 'square_star', 'dart_star', 'ell', '+tri_star', '+square', '+dart',
      '+ell_star', '+penta', '+cup', '+star4_star')}


def inner(t, r):
    """almost all points nearer than r"""
    return grown(t, 0.99 * r, 32, False)


def outer(t, r):
    """all points at most r away, and few others"""
    return grown(t, r, 32, True)


def build(R, t, star, mm=None):
    if star:
        return R.StarshapedPolygon(t['ring'], xr=t['kernel'], motion_model=mm)
    return R.Polygon(t['ring'], motion_model=mm)


# ---------------------------------------------------------------- C25
@harness('C25', params=SH, bounds='fixed polygons and paddings (0.25 and 1; thorough: more shapes), every point in [-8,8]^2', tmo=8000)
def polygon_region(E, R, shape, star):
    F = R.Frame
    t = T[shape]
    o = build(R, t, star)
    r = PADS[E.choice('padding', len(PADS))]
    d = o.dilated_obstacle(r, 'temporary', None)
    x = E.vec('x', -8, 8)
    l = d.point_location(x, F.OBSTACLE)
    E.prove(E.Implies(in_any(E, x, inner(t, r)), l < 0), 'every point nearer than the padding is inside')
    E.prove(E.Implies(l <= 0, in_any(E, x, outer(t, 1.001 * r))), 'nothing farther than the padding')
    k = o.point_location(x, F.OBSTACLE)
    E.prove(E.Iff(k <= 0, closure(E, x, t)), 'original unchanged')


@harness('C25', params=SH, bounds='fixed polygons and paddings, any pose before and after')
def polygon_parts(E, R, shape, star):
    """everything that describes the dilated obstacle describes the grown ring"""
    F = R.Frame
    t = T[shape]
    mm = R.mm.Static(E.vec('pos', -20, 20), E.real('rot', -3, 3))
    o = build(R, t, star, mm)
    q = E.boolean('world polygon first')
    if q:
        o.polygon()
    r = PADS[E.choice('padding', len(PADS))]
    d = o.dilated_obstacle(r, 'temporary', None)
    own = coords(d.polygon(F.OBSTACLE))
    fl = [(float(p[0]), float(p[1])) for p in own[:-1]]
    E.prove(len(fl) > len(t['ring']), 'rounded')
    far = [max(p[i] for p in fl) - max(p[i] for p in t['ring']) for i in (0, 1)]
    E.prove(all(0.997 * r < f < 1.000001 * r for f in far), 'grows by the padding along the axes')
    w = coords(d.polygon())
    E.prove(len(w) == len(own), 'world polygon')
    for p, s in zip(w, own):
        E.prove(E.vclose(p, put(R, mm.pos(), mm.rot(), s)), 'world polygon is the grown one at the current pose')
    E.prove(sorted((float(p[0]), float(p[1])) for p in d.vertices) == sorted(fl), 'vertices of the grown ring')
    cv = [(float(p[0]), float(p[1])) for p in d.circular_vertices]
    E.prove(cv[0] == cv[-1] and sorted(cv[:-1]) == sorted(fl), 'closed vertices of the grown ring')
    e = d.extreme_points(F.OBSTACLE)
    E.prove(sorted((float(p[0]), float(p[1])) for p in e) == sorted(fl), 'extreme points of the grown ring')
    E.prove(abs(float(d.area()) - abs(shoelace(fl))) < 1e-6, 'area of the grown ring')
    b = coords(o.polygon(F.OBSTACLE))
    E.prove(sorted((float(p[0]), float(p[1])) for p in b[:-1]) == sorted(map(tuple, t['ring'])), 'original polygon unchanged')
    E.prove(sorted((float(p[0]), float(p[1])) for p in o.vertices) == sorted(map(tuple, t['ring'])), 'original vertices unchanged')
    E.prove(abs(float(o.area()) - abs(shoelace(t['ring']))) < 1e-9, 'original area unchanged')
    for p, s in zip(coords(o.polygon()), b):
        E.prove(E.vclose(p, put(R, mm.pos(), mm.rot(), s)), 'original world polygon unchanged')


# reference points near one end, rays to the other end
RAYS = {'square': dict(shape='square', xr=[-0.96875, -0.96875], q=0, dirs=[0.40, 0.43], r=0.25),
        'square_1': dict(shape='square', xr=[-0.96875, -0.96875], q=0, dirs=[0.40, 0.42], r=1.),
        'tri': dict(shape='tri', xr=[1.9375, 0.03125], q=1, dirs=[0.38, 0.42], r=0.25),
        'ell': dict(shape='ell', xr=[0.0625, 0.0625], q=0, dirs=[0.15, 0.17], r=0.25),
        '+dart': dict(shape='dart', xr=[0.5, 0.125], q=0, dirs=[0.3, 0.6], r=0.25),
        '+ell_wide': dict(shape='ell', xr=[0.0625, 0.0625], q=0, dirs=[0.1, 0.3], r=0.25),
        '+square_wide': dict(shape='square', xr=[-0.96875, -0.96875], q=0, dirs=[0.2, 0.6], r=0.25),
        '+penta': dict(shape='penta', xr=[2.9375, 1.], q=1, dirs=[0.8, 1.], r=0.25)}


@harness('C25', params=RAYS, bounds='fixed starshaped polygons with a reference point next to the boundary, paddings 0.25 or 1, points on '
         'every ray in a sector, at any distance in [0.1,10]', tmo=8000)
def dilated_projection(E, R, shape, xr, q, dirs, r):
    F = R.Frame
    t = T[shape]
    o = R.StarshapedPolygon(t['ring'], xr=xr)
    d = o.dilated_obstacle(r, 'temporary', None)
    s, u = E.real('s', dirs[0], dirs[1]), E.real('u', 0.1, 10)
    v = [(1 - s * s) / (1 + s * s), 2 * s / (1 + s * s)]
    if q:
        v = [-v[1], v[0]]
    x = R.np.array([xr[0] + u * v[0], xr[1] + u * v[1]])
    b = d.boundary_mapping(x, F.OBSTACLE, F.OBSTACLE)
    E.prove(b is not None, 'a boundary point exists on every ray')
    if b is None:
        return
    k = cross(xr, x, b)
    E.prove(E.And(k <= 1e-4, k >= -1e-4), 'on the line through the point')
    E.prove((b[0] - xr[0]) * v[0] + (b[1] - xr[1]) * v[1] > 0, 'on its side of the reference point')
    E.prove(in_any(E, b, outer(t, 1.001 * r)), 'at most the padding from the original')
    E.prove(E.Not(in_any(E, b, inner(t, r))), 'not nearer than the padding')


@harness('C25', bounds='any semi-axes in [0.1,20], padding in [0,10], point in [-50,50]^2')
def ellipse(E, R):
    F = R.Frame
    a, b, r = E.real('a', 0.1, 20), E.real('b', 0.1, 20), E.real('r', 0, 10)
    o = R.Ellipse([a, b], xr=[0., 0.], n_pol=4)
    d = o.dilated_obstacle(r, 'temporary', None)
    x = E.vec('x', -50, 50)
    f = (x[0] / (a + r)) * (x[0] / (a + r)) + (x[1] / (b + r)) * (x[1] / (b + r)) - 1
    E.prove(E.Iff(d.point_location(x, F.OBSTACLE) > 0, f > 0), 'exterior of the grown ellipse')
    E.prove(E.Iff(d.point_location(x, F.OBSTACLE) < 0, f < 0), 'interior of the grown ellipse')
    g = (x[0] / a) * (x[0] / a) + (x[1] / b) * (x[1] / b) - 1
    E.prove(E.Iff(o.point_location(x, F.OBSTACLE) > 0, g > 0), 'original unchanged')
    E.prove(E.Implies(g <= 0, d.point_location(x, F.OBSTACLE) <= 0), 'contains the original')
    P = coords(d.polygon(F.OBSTACLE))
    for p in P:
        E.prove((p[0] / (a + r)) * (p[0] / (a + r)) + (p[1] / (b + r)) * (p[1] / (b + r)) >= 1, 'polygon of the grown ellipse')


@harness('C25', bounds='any semi-axes in [0.5,5], padding in [0,3]; projection and normal of points on any ray through the centre')
def ellipse_queries(E, R):
    F = R.Frame
    np = R.np
    r = E.real('r', 0, 3)
    o = R.Ellipse([2., 1.], n_pol=4)
    d = o.dilated_obstacle(r, 'temporary', None)
    A, B = 2 + r, 1 + r
    c, s = E.real('c', -1, 1), E.real('s', -1, 1)
    E.assume(c * c + s * s == 1)
    x = np.array([3 * A * c, 3 * B * s])
    tp = d.tangent_points(x, F.OBSTACLE, F.OBSTACLE)
    E.prove(len(tp) == 2, 'two tangent points')
    for p in tp:
        E.prove(E.close((p[0] / A) * (p[0] / A) + (p[1] / B) * (p[1] / B), 1), 'on the grown ellipse')
    n = d.normal(np.array([A * c, B * s]), F.OBSTACLE, F.OBSTACLE, x_is_boundary=True)
    E.prove(E.close(n[0] * (-A * s) + n[1] * B * c, 0), 'normal of the grown ellipse')
    l = d.line_intersection([np.array([0., 0.]), x], F.OBSTACLE, F.OBSTACLE)
    E.prove(len(l) == 1, 'leaves once')
    E.prove(E.vclose(l[0], [A * c, B * s], 1e-5), 'on the grown ellipse')


ECC = {'end': [-0.875, 0.], '+side': [0.25, 0.375], '+centre': [0., 0.]}


@harness('C25', params={k: dict(xr=v) for k, v in ECC.items()}, bounds='ellipse 1 by 0.5 with fixed reference points, paddings 0.25, 1 and 2, every direction and distance 0.01 to 30', tmo=8000)
def ellipse_radial(E, R, xr):
    from h_ellipse import direction
    F = R.Frame
    r = [0.25, 1., 2.][E.choice('padding', 3)]
    d = R.Ellipse([1., 0.5], xr=R.np.array(xr), n_pol=4).dilated_obstacle(r, 'temporary', None)
    u = direction(E)
    k = E.real('k', 0.01, 30)
    x = R.np.array([xr[0] + k * u[0], xr[1] + k * u[1]])
    p = d.boundary_mapping(x, F.OBSTACLE, F.OBSTACLE)
    E.prove(p is not None, 'always a projection')
    w = [p[0] - xr[0], p[1] - xr[1]]
    E.prove(E.close(w[0] * u[1] - w[1] * u[0], 0), 'on the line through the reference point')
    E.prove(w[0] * u[0] + w[1] * u[1] > 0, 'on the side of the given point')
    A, B = 1 + r, 0.5 + r
    E.prove(E.close(p[0] * p[0] / (A * A) + p[1] * p[1] / (B * B), 1, 1e-5), 'on the grown ellipse')


@harness('C25', bounds='ellipse 2 by 1 with its polygon computed before, paddings 0.25 and 1, every point')
def ellipse_polygon(E, R):
    F = R.Frame
    o = R.Ellipse([2., 1.], n_pol=8)
    own = [(float(p[0]), float(p[1])) for p in coords(o.polygon(F.OBSTACLE))[:-1]]
    r = PADS[E.choice('padding', len(PADS))]
    d = o.dilated_obstacle(r, 'temporary', None)
    t = dict(ring=own, pieces=[list(range(len(own)))])
    x = E.vec('x', -8, 8)
    g = d.polygon(F.OBSTACLE)
    P = R.shapely.geometry.Point(x)
    E.prove(E.Implies(in_any(E, x, inner(t, r)), g.contains(P)), 'polygon grown by the padding')
    E.prove(E.Implies(g.contains(P), in_any(E, x, outer(t, 1.001 * r))), 'and no more')
    k = d.kernel(F.OBSTACLE)
    E.prove(E.Iff(k.contains(P), g.contains(P)), 'kernel of the grown ellipse')
    E.prove([(float(p[0]), float(p[1])) for p in coords(o.polygon(F.OBSTACLE))[:-1]] == own, 'original unchanged')
