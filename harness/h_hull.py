from common import harness
from shapes import *
from h_cone import crs, off
from h_ellipse import val


def tri_in(E, q, a, b, c, strict, tol=0):
    """q in the triangle a b c (given counter-clockwise)"""
    z = [cross(a, b, q), cross(b, c, q), cross(c, a, q)]
    return E.And(*[v > tol for v in z]) if strict else E.And(*[v >= -tol for v in z])


def reach(E, q, k, ring, strict=False, tol=0):
    """q in the convex hull of the convex ring and k"""
    vis = [(a, b) for a, b in edges(ring) if E.is_true(cross(a, b, k) < 0)]
    return E.Or(in_convex(E, q, ring, tol=0 if strict else tol), *[tri_in(E, q, k, b, a, strict, tol) for a, b in vis])


CV = {'tri': {}, 'square': {}, 'penta': {}, 'odd': {}}
CV = {k: dict(shape=k.strip('+')) for k in CV}
LN = [([0., 0.25], [1., 0.5]), ([-3., 1.0625], [1., 0.]), ([2.5, 0.], [-0.25, 1.]), ([0., 3.], [1., -0.75]), ([0.5, 0.75], [-0.5, 1.]), ([0., -2.], [1., 0.25])]


# ---------------------------------------------------------------- C16
@harness('C16', params=CV, bounds='fixed convex polygons, any kernel point in [-6,6]^2, any point in [-8,8]^2', tmo=30000)
def point(E, R, shape):
    t = T[shape]
    o = R.Polygon(t['ring'])
    k, q = E.vec('k', -6, 6), E.vec('q', -8, 8)
    E.assume(E.And(*[off(E, cross(a, b, k)) for a, b in edges(t['ring'])]))
    h = R.sh.kernel_starshaped_hull(o, R.np.array([k]))
    in_h = h.contains(R.shapely.geometry.Point(q))
    E.prove(E.Or(E.Not(in_h), reach(E, q, k, t['ring'])), 'nothing outside the hull of obstacle and kernel point')
    E.prove(E.Or(E.Not(reach(E, q, k, t['ring'], True)), in_h, in_convex(E, q, t['ring'])), 'every segment from the kernel point to the obstacle')


OFFS = {'small': [[0., 0.25], [-0.25, -0.125], [0.25, -0.125]], 'wide': [[0., 2.], [-2., -1.], [2., -1.]], 'skew': [[0.5, 0.5], [-1., 0.25], [1., -3.]]}
KT = {}
for _s in ('tri', 'square', 'penta'):
    for _o in OFFS:
        for _l in range(len(LN)):
            quick = (_s, _o) in (('tri', 'wide'), ('square', 'small')) or (_s, _o, _l) == ('penta', 'skew', 2)
            KT['%s%s_%s_%d' % ('' if quick else '+', _s, _o, _l)] = dict(shape=_s, offs=_o, line=_l)


@harness('C16', params=KT, bounds='fixed convex polygons, three kernel points at fixed offsets around any centre on six lines within [-6,6], any point in [-8,8]^2', tmo=10000)
def triangle(E, R, shape, offs, line):
    t = T[shape]
    ring = t['ring']
    o = R.Polygon(ring)
    b, d = LN[line]
    r = E.real('r', -6, 6)
    c = R.np.array([b[0] + r * d[0], b[1] + r * d[1]])
    ks = [c + R.np.array(d) for d in OFFS[offs]]
    pts = [list(p) for p in ring] + ks
    n = len(pts)
    E.assume(E.And(*[off(E, cross(pts[i], pts[j], pts[m])) for m in range(len(ring), n) for j in range(m) for i in range(j)]))
    h = R.sh.kernel_starshaped_hull(o, R.np.array(ks))
    if E.is_true(E.And(*[in_convex(E, k, ring) for k in ks])):
        E.prove(h.is_empty, 'nothing added for kernel points inside')
        return
    q = E.vec('q', -8, 8)
    P = R.shapely.geometry.Point
    in_h = h.contains(P(q))
    in_o = in_convex(E, q, ring)
    for k in ks:
        E.prove(E.Or(E.Not(reach(E, q, k, ring, True, 1e-5)), in_h, in_o), 'every segment from a kernel point to the obstacle covered')
    sep = []
    for i in range(len(pts)):
        for j in range(len(pts)):
            if i != j and (i >= len(ring) or j >= len(ring) or j == (i + 1) % len(ring)):
                sep.append(E.And(cross(pts[i], pts[j], q) < -1e-5, *[cross(pts[i], pts[j], z) >= 0 for m, z in enumerate(pts) if m not in (i, j)]))
    E.prove(E.Not(E.And(in_h, E.Or(*sep))), 'nothing outside the hull of obstacle and kernel points')
    deep = E.And(*[h.contains(P(q + R.np.array(e))) for e in ([0.001, 0.], [0., 0.001], [-0.001, 0.], [0., -0.001])])
    for k in ks:
        z = (k + q) / 2
        E.prove(E.Or(E.Not(deep), h.contains(P(z)), in_convex(E, z, ring)), 'starshaped with respect to every kernel point')


@harness('C16', params={'tri': dict(shape='tri'), '+square': dict(shape='square'), '+penta': dict(shape='penta')}, bounds='fixed convex polygons at any position in '
         '[-20,20]^2 and three orientations, five kernel points relative to it, any point within [-8,8]^2 of it')
def placed(E, R, shape):
    t = T[shape]
    pos = E.vec('pos', -20, 20)
    # 3-4-5 rotations and a quarter turn
    rot, (cs, sn) = [(R.np.arctan2(4., 3.), (0.6, 0.8)), (R.np.arctan2(-3., 4.), (0.8, -0.6)), (-R.np.pi / 2, (0., -1.))][E.choice('rot', 3)]
    o = R.Polygon(t['ring'], motion_model=R.mm.Static(pos, rot))
    ring = [[cs * p[0] - sn * p[1], sn * p[0] + cs * p[1]] for p in t['ring']]
    k, q = R.np.array([[4., 2.5], [-3., 0.125], [0.625, -2.25], [-1.25, 3.], [2.125, 0.25]][E.choice('k', 5)]), E.vec('q', -8, 8)
    h = R.sh.kernel_starshaped_hull(o, R.np.array([pos + k]))
    in_h = h.contains(R.shapely.geometry.Point(pos + q))
    E.prove(E.Or(E.Not(in_h), reach(E, q, k, ring, tol=1e-5)), 'nothing outside the hull of obstacle and kernel point')
    E.prove(E.Or(E.Not(reach(E, q, k, ring, True, 1e-5)), in_h, in_convex(E, q, ring)), 'every segment from the kernel point to the obstacle')


EL = {'wide': dict(a=2., b=1.), 'tall': dict(a=1., b=3.), 'flat': dict(a=8., b=0.5), '+circle': dict(a=1.5, b=1.5)}
KS = [[2.5, 0.], [0., 4.], [-3., 3.], [1.25, -3.5], [-0.25, -1.25], [4.5, 0.25], [-1.125, 0.], [0.25, 0.5], [0., 0.]]


def ell_reach(E, w, k, a, b, tol):
    """k + w in the hull of the ellipse and k (a point outside): grown (tol > 0) or shrunken (tol < 0)"""
    A = w[0] * w[0] * b * b + w[1] * w[1] * a * a
    B = -(k[0] * w[0] * b * b + k[1] * w[1] * a * a)
    C = val(k, a, b)
    q = [k[0] + w[0], k[1] + w[1]]
    return E.Or(val(q, a, b) <= tol, E.And(B * B - A * C >= -tol, B > 0, A <= B + tol))


@harness('C16', params=EL, bounds='fixed semi-axes and nine kernel points, any point within [-20,20]^2 of it', tmo=10000)
def ellipse(E, R, a, b):
    p = KS[E.choice('k', len(KS))]
    k = R.np.array([p[0] * a, p[1] * b])
    w = E.vec('w', -20, 20)
    h = R.sh.kernel_starshaped_hull(R.Ellipse([a, b]), R.np.array([k]))
    if p[0] ** 2 + p[1] ** 2 <= 1:
        E.prove(h.is_empty, 'nothing added for kernel points inside')
        return
    in_h = h.contains(R.shapely.geometry.Point(k + w))
    E.prove(E.Or(E.Not(in_h), ell_reach(E, w, k, a, b, 0.001)), 'nothing outside the hull of obstacle and kernel point')
    q = [k[0] + w[0], k[1] + w[1]]
    E.prove(E.Or(E.Not(ell_reach(E, w, k, a, b, -0.001)), in_h, val(q, a, b) <= 0), 'every segment from the kernel point to the obstacle')


DIRS = [[1., 0.], [0.75, 1.], [-1., 0.5], [-0.5, -1.], [1., -0.75], [0.125, 1.]]


EP = {'%s_%d' % (n.strip('+'), i): dict(line=i, **v) for n, v in EL.items() for i in range(3)}


@harness('C16', params=EP, bounds='fixed semi-axes, kernel points at any distance (to eight times the ellipse) in six directions, any point of three lines through it', tmo=20000)
def ellipse_points(E, R, a, b, line):
    p = DIRS[E.choice('direction', 6)]
    r = E.real('r', 0, 8)
    k = R.np.array([r * p[0] * a, r * p[1] * b])
    C = val(k, a, b)
    E.assume(off(E, C, 0.01))
    h = R.sh.kernel_starshaped_hull(R.Ellipse([a, b]), R.np.array([k]))
    if E.is_true(C <= 0):
        E.prove(h.is_empty, 'nothing added for kernel points inside')
        return
    d = [[-p[0], -p[1]], [0.25 - p[0], -p[1]], [-p[0], -0.5 - p[1]]][line]
    s = E.real('s', -12, 12)
    w = [s * d[0] * a, s * d[1] * b]
    in_h = h.contains(R.shapely.geometry.Point(k + R.np.array(w)))
    # in the coordinates of the unit circle: k = r p, the point is r p + s d
    pp, pd, dd = p[0] * p[0] + p[1] * p[1], p[0] * d[0] + p[1] * d[1], d[0] * d[0] + d[1] * d[1]
    in_o = r * r * pp + 2 * r * s * pd + s * s * dd <= 1

    def seen(tol):
        return E.And(s > 0, r * pd < 0, r * r * (pd * pd - dd * pp) + dd >= -tol, s * dd + r * pd <= tol)
    E.prove(E.Or(E.Not(in_h), seen(0.001), r * r * pp + 2 * r * s * pd + s * s * dd <= 1.001), 'nothing outside the hull of obstacle and kernel point')
    E.prove(E.Or(E.Not(E.Or(in_o, seen(-0.001))), in_h, in_o), 'every segment from the kernel point to the obstacle')


PLACES = {'apart': [('tri', 0., 0.), ('square', 4., 1.)], 'overlap': [('tri', 0., 0.), ('square', 0.5, 0.5)], '+three': [('tri', 0., 0.), ('square', -3., 0.5), ('penta', 3., -2.)]}
PLACES = {k: dict(places=v) for k, v in PLACES.items()}


@harness('C16', params=PLACES, bounds='two or three fixed convex obstacles, any kernel point in [-6,6]^2, any point in [-8,8]^2', tmo=10000)
def several(E, R, places):
    obs, rings = [], []
    for s, x, y in places:
        obs.append(R.Polygon(T[s]['ring'], motion_model=R.mm.Static([x, y])))
        rings.append([[p[0] + x, p[1] + y] for p in T[s]['ring']])
    k, q = E.vec('k', -6, 6), E.vec('q', -8, 8)
    for g in rings:
        E.assume(E.And(*[off(E, cross(a, b, k)) for a, b in edges(g)]))
    h = R.sh.kernel_starshaped_hull(obs, R.np.array([k]))
    if E.is_true(E.And(*[in_convex(E, k, g) for g in rings])):
        E.prove(h is None, 'nothing to add for kernel points in all obstacles')
        return
    E.prove(h is not None, 'something to add')
    in_h = h.contains(R.shapely.geometry.Point(q))
    E.prove(E.Or(E.Not(in_h), *[reach(E, q, k, g) for g in rings]), 'nothing outside the hulls of obstacle and kernel point')
    in_o = in_any(E, q, rings)
    for g in rings:
        E.prove(E.Or(E.Not(reach(E, q, k, g, True)), in_h, in_o), 'every segment from the kernel point to an obstacle')


ST = {'%s%d' % ('' if i in (0, 4) else '+', i): dict(line=i) for i in range(len(LN))}


@harness('C16', params=ST, bounds='a triangle and a square apart, three kernel points at fixed offsets around any centre on six lines within [-6,6], any point in [-8,8]^2', tmo=10000)
def several_triangle(E, R, line):
    obs, rings = [], []
    for s, x, y in PLACES['apart']['places']:
        obs.append(R.Polygon(T[s]['ring'], motion_model=R.mm.Static([x, y])))
        rings.append([[p[0] + x, p[1] + y] for p in T[s]['ring']])
    b, d = LN[line]
    r = E.real('r', -6, 6)
    c = R.np.array([b[0] + r * d[0], b[1] + r * d[1]])
    ks = [c + R.np.array(o) for o in OFFS['small']]
    for g in rings:
        E.assume(E.And(*[off(E, cross(a, e, k)) for a, e in edges(g) for k in ks]))
    h = R.sh.kernel_starshaped_hull(obs, R.np.array(ks))
    E.prove(h is not None, 'something to add')
    q = E.vec('q', -8, 8)
    in_h = h.contains(R.shapely.geometry.Point(q))
    in_o = in_any(E, q, rings)
    for g in rings:
        for k in ks:
            E.prove(E.Or(E.Not(reach(E, q, k, g, True, 1e-5)), in_h, in_o), 'every segment from a kernel point to an obstacle')
