from common import harness
from shapes import *
from h_cone import crs, dot, off
from h_ellipse import direction, val

SH = {'tri': {}, 'square': {}, 'dart': {}, 'ell': {}, '+star4': {}, '+cup': {}, '+penta': {}}
SH = {k: dict(shape=k.strip('+')) for k in SH}


def hits(E, w, corners):
    """the ray from the origin in direction w meets one of the segments (away from their ends)"""
    n = len(corners)
    f = []
    for i in range(n):
        a, b = corners[i], corners[(i + 1) % n]
        p, q = crs(w, a), crs(w, b)
        k = crs(a, b)
        f.append(E.Or(E.And(p < 0, q > 0, k > 0), E.And(p > 0, q < 0, k < 0)))
    return E.Or(*f)


# ---------------------------------------------------------------- C14
@harness('C14', params=SH, bounds='fixed polygons, any excluded point in [-6,6]^2, any kernel point within [-20,20]^2 of it (kernel point not '
         'in line with a corner)')
def polygon(E, R, shape):
    t = T[shape]
    o = R.Polygon(t['ring'])
    x, w = E.vec('x', -6, 6), E.vec('w', -20, 20)
    E.assume(E.Not(closure(E, x, t, tol=0.001)))
    c = [[p[0] - x[0], p[1] - x[1]] for p in t['ring']]
    E.assume(E.And(*[off(E, crs(w, p)) for p in c]))
    K = R.sh.admissible_kernel(o, x)
    if K is None:
        # no ray from x is free
        E.prove(hits(E, w, c), 'none only for an enclosed point')
    else:
        E.prove(E.Iff(K.point_in_cone(x + w), E.Not(hits(E, [-w[0], -w[1]], c))), 'exactly the points whose line of sight through the excluded '
                'point is free')


@harness('C14', params=SH, bounds='fixed polygons, any point of the interior')
def polygon_interior(E, R, shape):
    t = T[shape]
    o = R.Polygon(t['ring'])
    x = E.vec('x', -6, 6)
    E.assume(E.Or(*[in_convex(E, x, q) for q in pieces(t)]))
    E.assume(E.Not(E.Or(*[near_seg(E, x, a, b, 0.001) for a, b in edges(t['ring'])])))
    E.prove(R.sh.admissible_kernel(o, x) is None, 'no kernel excludes an interior point')


EL = {'wide': dict(a=2., b=1.), 'tall': dict(a=1., b=3.), 'flat': dict(a=8., b=0.5), '+circle': dict(a=1.5, b=1.5)}
PTS = [[2.5, 0.], [0., 4.], [-3., 3.], [1.25, -3.5], [-0.25, -1.25], [4.5, 0.25], [-1.125, 0.]]


@harness('C14', params=EL, bounds='fixed semi-axes and seven excluded points, every direction of the kernel point', tmo=10000)
def ellipse(E, R, a, b):
    p = PTS[E.choice('x', len(PTS))]
    x = R.np.array([p[0] * a, p[1] * b])
    w = E.vec('w', -20, 20)
    K = R.sh.admissible_kernel(R.Ellipse([a, b]), x)
    E.prove(K is not None, 'always from outside')
    # x - s w on the ellipse: A s^2 - 2 B s + C = 0, C > 0
    A = w[0] * w[0] * b * b + w[1] * w[1] * a * a
    B = x[0] * w[0] * b * b + x[1] * w[1] * a * a
    C = val(x, a, b)
    D = B * B - A * C
    E.assume(off(E, D, 0.01))
    E.prove(E.Iff(K.point_in_cone(x + w), E.Not(E.And(D > 0, B > 0))), 'exactly the points whose line of sight through the excluded point is '
            'free')


@harness('C14', params=EL, bounds='fixed semi-axes, six kernel directions, excluded points at any distance (to ten times the ellipse) in six directions', tmo=10000)
def ellipse_points(E, R, a, b):
    p = [[1., 0.], [0.75, 1.], [-1., 0.5], [-0.5, -1.], [1., -0.75], [0.125, 1.]][E.choice('direction', 6)]
    r = E.real('r', 0, 10)
    x = R.np.array([r * p[0] * a, r * p[1] * b])
    w = [[1., 0.5], [-0.25, 1.], [-3., -1.], [0.75, -2.], [1., -1.], [0., 1.]][E.choice('w', 6)]
    C = val(x, a, b)
    E.assume(E.Or(C <= 0, C >= 0.001))
    K = R.sh.admissible_kernel(R.Ellipse([a, b]), x)
    if E.is_true(C <= 0):
        E.prove(K is None, 'no kernel excludes an interior point')
        return
    E.prove(K is not None, 'always from outside')
    A = w[0] * w[0] * b * b + w[1] * w[1] * a * a
    B = x[0] * w[0] * b * b + x[1] * w[1] * a * a
    D = B * B - A * C
    E.assume(off(E, D, 0.01))
    E.prove(E.Iff(K.point_in_cone(x + R.np.array(w)), E.Not(E.And(D > 0, B > 0))), 'exactly the points whose line of sight through the excluded '
            'point is free')


CONVEX = {'tri': dict(shape='tri', xs=[[1.5, -1.], [-0.5, 0.25], [1.25, 1.5]]), 'square': dict(shape='square', xs=[[1.5, -1.5], [0.25, 2.]]),
          '+penta': dict(shape='penta', xs=[[-1., 0.5], [4., 2.], [1., 5.]]), '+tri_any': dict(shape='tri', xs=None),
          '+square_any': dict(shape='square', xs=None)}


@harness('C14', params=CONVEX, bounds='fixed convex polygons and excluded points (thorough: any excluded point in [-6,6]^2), any admissible kernel point within [-20,20]^2 '
         'of it', tmo=10000)
def hull_excludes(E, R, shape, xs):
    t = T[shape]
    o = R.Polygon(t['ring'])
    x = R.np.array(xs[E.choice('x', len(xs))]) if xs else E.vec('x', -6, 6)
    w = E.vec('w', -20, 20)
    if not xs:
        E.assume(E.Not(closure(E, x, t, tol=0.001)))
    c = [[p[0] - x[0], p[1] - x[1]] for p in t['ring']]
    E.assume(E.And(*[off(E, crs(w, p)) for p in c]))
    K = R.sh.admissible_kernel(o, x)
    if K is None or not E.is_true(K.point_in_cone(x + w)):
        return
    k = x + w
    E.assume(E.Not(E.Or(*[near_seg(E, k, a, b, 0.001) for a, b in edges(t['ring'])])))
    h = R.sh.kernel_starshaped_hull([o], R.np.array([k]))
    if h is None:
        E.prove(closure(E, k, t), 'nothing to add only from inside')
        return
    E.prove(E.Not(h.contains(R.shapely.geometry.Point(x))), 'excluded point outside the hull')


@harness('C14', params={'tri': dict(shape='tri'), '+ell': dict(shape='ell')}, bounds='fixed polygons at any position in [-20,20]^2 and two '
         'orientations, any excluded point within [-6,6]^2 of it, any kernel point within [-20,20]^2')
def placed(E, R, shape):
    t = T[shape]
    pos = E.vec('pos', -20, 20)
    # a 3-4-5 rotation and a quarter turn
    rot, (cs, sn) = [(R.np.arctan2(4., 3.), (0.6, 0.8)), (-R.np.pi / 2, (0., -1.))][E.choice('rot', 2)]
    o = R.Polygon(t['ring'], motion_model=R.mm.Static(pos, rot))
    y, w = E.vec('x', -6, 6), E.vec('w', -20, 20)
    ring = [[cs * p[0] - sn * p[1], sn * p[0] + cs * p[1]] for p in t['ring']]
    ps = [[[cs * p[0] - sn * p[1], sn * p[0] + cs * p[1]] for p in q] for q in pieces(t)]
    E.assume(E.Not(E.Or(*[in_convex(E, y, q, tol=0.001) for q in ps])))
    c = [[p[0] - y[0], p[1] - y[1]] for p in ring]
    E.assume(E.And(*[off(E, crs(w, p)) for p in c]))
    x = pos + y
    K = R.sh.admissible_kernel(o, x)
    if K is None:
        E.prove(hits(E, w, c), 'none only for an enclosed point')
    else:
        E.prove(E.Iff(K.point_in_cone(x + w), E.Not(hits(E, [-w[0], -w[1]], c))), 'exactly the points whose line of sight through the excluded '
                'point is free')
