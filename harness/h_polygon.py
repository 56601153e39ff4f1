from common import harness
from shapes import *

STARS = ['tri', 'square', 'penta', 'dart', 'ell', 'star4']


def P(*names):
    return {n: dict(shape=n.strip('+')) for n in names}


# ---------------------------------------------------------------- C08
@harness('C08', params=P('tri', 'square', 'dart', 'ell', 'cup', 'collinear', '+penta', '+star4'), bounds='fixed simple polygons, listed '
         'from any vertex in either orientation, as polygon and (where starshaped) as starshaped polygon; any point in [-20,20]^2')
def location(E, R, shape):
    F = R.Frame
    t = T[shape]
    ring = t['ring']
    x = E.vec('x', -20, 20)
    if 'kernel' in t and E.boolean('star'):
        o = R.StarshapedPolygon(variant(E, ring), xr=t['kernel'])
    else:
        o = R.Polygon(variant(E, ring))
    on = on_boundary(E, x, ring)
    cl = closure(E, x, t)
    l = o.point_location(x, F.OBSTACLE)
    E.prove(E.Iff(l == 0, on), 'zero exactly on the boundary')
    E.prove(E.Iff(l < 0, E.And(cl, E.Not(on))), 'negative exactly inside')
    E.prove(E.Iff(l > 0, E.Not(cl)), 'positive exactly outside')
    E.prove(E.Iff(o.interior_point(x, F.OBSTACLE), E.And(cl, E.Not(on))), 'interior test')
    E.prove(E.Iff(o.exterior_point(x, F.OBSTACLE), E.Not(cl)), 'exterior test')
    E.prove(E.Iff(o.boundary_point(x, F.OBSTACLE), on), 'boundary test')


@harness('C08', bounds='triangles with one free vertex in [-5,5]^2 (any orientation, area at least 0.01), any point in [-6,6]^2')
def any_triangle(E, R):
    F = R.Frame
    v = E.vec('v', -5, 5)
    x = E.vec('x', -6, 6)
    ring = [[0., 0.], [2., 1.], v]
    s = cross(*ring)
    E.assume(E.Or(s >= 0.02, s <= -0.02))
    o = R.Polygon(ring)
    k = [cross(a, b, x) * s for a, b in edges(ring)]
    out = E.Or(*[c < 0 for c in k])
    inn = E.And(*[c > 0 for c in k])
    l = o.point_location(x, F.OBSTACLE)
    E.prove(E.Iff(l > 0, out), 'outside')
    E.prove(E.Iff(l < 0, inn), 'inside')
    a = o.area()
    E.prove(E.Or(E.close(a, s / 2), E.close(a, -s / 2)), 'area')
    E.prove(a > 0, 'positive area')


@harness('C08', params=P('tri', 'square', 'dart', 'ell', 'cup', 'collinear'), bounds='fixed polygons, any pose')
def measures(E, R, shape):
    F = R.Frame
    ring = T[shape]['ring']
    pos, rot = E.vec('pos', -20, 20), E.real('rot', -3, 3)
    o = R.Polygon(variant(E, ring), motion_model=R.mm.Static(pos, rot))
    E.prove(E.close(o.area(), shoelace(ring)), 'area of the given ring')
    pts = o.extreme_points(F.OBSTACLE)
    E.prove(len(pts) == len(ring), 'one extreme point per vertex')
    E.prove(sorted((float(p[0]), float(p[1])) for p in pts) == sorted(map(tuple, ring)), 'extreme points are the vertices')
    w = o.extreme_points()
    E.prove(len(w) == len(pts), 'as many in the world frame')
    c, s = R.np.cos(rot), R.np.sin(rot)
    for p, q in zip(pts, w):
        E.prove(E.vclose(q, [pos[0] + c * p[0] - s * p[1], pos[1] + s * p[0] + c * p[1]]), 'world extreme points are the placed ones')


# ---------------------------------------------------------------- C09
SEGP = {}
for n, ps in {'square': [[0., 0.], [-3., 0.5], [2., 2.]], 'dart': [[0.5, 0.125], [2., 0.75], [-2., 1.]],
              'cup': [[2., 2.], [0.5, 0.5], [5., 2.]], 'ell': [[2., 2.], [0.5, 1.5]], 'tri': [[3., 1.], [0.75, 0.5]],
              'star4': [[0., 0.], [3., 3.], [-4., 0.5]], 'penta': [[1., 1.], [5., 0.5]]}.items():
    for i, p in enumerate(ps):
        q = '+' if n in ('star4', 'penta') else ''
        SEGP['%s%s_%d' % (q, n, i)] = dict(shape=n, p=p)


@harness('C09', params=SEGP, bounds='fixed polygons, segments from a fixed point to any point in [-10,10]^2')
def segment(E, R, shape, p):
    F = R.Frame
    ring = T[shape]['ring']
    p = R.np.array(p)
    q = E.vec('q', -10, 10)
    E.assume(E.Or(q[0] != p[0], q[1] != p[1]))
    o = R.Polygon(ring)
    rev = E.boolean('reversed segment')
    out = o.line_intersection([q, p] if rev else [p, q], F.OBSTACLE, F.OBSTACLE)
    hits = [proper(E, p, q, a, b) for a, b in edges(ring)]
    for z in out:
        E.prove(near_seg(E, z, p, q, 1e-5), 'on the segment')
        E.prove(E.Or(*[near_seg(E, z, a, b, 1e-5) for a, b in edges(ring)]), 'on the boundary')
    for h, (a, b) in zip(hits, edges(ring)):
        E.prove(E.Implies(h, E.Or(*[near_seg(E, z, a, b, 1e-5) for z in out])), 'every crossing reported')
    if not out:
        touch = E.Or(*[E.And(cross(a, b, p) * cross(a, b, q) <= 0, cross(p, q, a) * cross(p, q, b) <= 0) for a, b in edges(ring)])
        coll = E.Or(*[cross(p, q, a) == 0 for a in ring])
        E.prove(E.Or(coll, E.Not(touch)), 'nothing reported only when they do not meet')
    for i in range(len(out)):
        for j in range(i):
            same = E.And(out[i][0] == out[j][0], out[i][1] == out[j][1])
            E.prove(E.Not(same), 'no point twice')


ALONG = {'square_bottom': dict(shape='square', y=-1., runs=[(-1., 1.)], pts=[]),
         'cup_top': dict(shape='cup', y=3., runs=[(0., 1.), (3., 4.)], pts=[]),
         'cup_inner': dict(shape='cup', y=1., runs=[(1., 3.)], pts=[0., 4.]),
         'ell_step': dict(shape='ell', y=1., runs=[(1., 3.)], pts=[0.])}


@harness('C09', params=ALONG, bounds='segments on the line of an edge, any ends in [-6,6]')
def along_edge(E, R, shape, y, runs, pts):
    F = R.Frame
    ring = T[shape]['ring']
    p, q = E.real('p', -6, 6), E.real('q', -6, 6)
    np = R.np
    lo, hi = np.minimum(p, q), np.maximum(p, q)
    E.assume(hi - lo >= 0.001)
    o = R.Polygon(ring)
    out = o.line_intersection([np.array([p, y]), np.array([q, y])], F.OBSTACLE, F.OBSTACLE)
    has = lambda v: E.Or(*[E.vclose(z, [v, y], 1e-5) for z in out])
    for z in out:
        E.prove(E.And(E.close(z[1], y), z[0] >= lo - 1e-6, z[0] <= hi + 1e-6), 'on the segment')
        E.prove(E.Or(*([E.And(z[0] >= a - 1e-6, z[0] <= b + 1e-6) for a, b in runs] + [E.close(z[0], v) for v in pts])), 'on the boundary')
    for a, b in runs:
        if E.is_true(E.And(lo < b, hi > a)):
            E.prove(has(np.maximum(lo, a)), 'start of the overlap reported')
            E.prove(has(np.minimum(hi, b)), 'end of the overlap reported')
    for v in pts:
        if E.is_true(E.And(lo < v, v < hi)):
            E.prove(has(v), 'crossing beside the overlap reported')


# ---------------------------------------------------------------- C10
@harness('C10', params=P('tri', 'square', 'dart', 'ell', 'penta', '+star4', '+cup', '+collinear'), bounds='fixed polygons, any viewpoint in '
         '[-10,10]^2 off the boundary', tmo=8000)
def tangent(E, R, shape):
    F = R.Frame
    t = T[shape]
    ring = t['ring']
    x = E.vec('x', -10, 10)
    o = R.StarshapedPolygon(ring, xr=t['kernel']) if 'kernel' in t and E.boolean('star') else R.Polygon(ring)
    cl = closure(E, x, t)
    E.assume(E.Not(on_boundary(E, x, ring)))
    res = o.tangent_points(x, F.OBSTACLE, F.OBSTACLE)
    if E.is_true(cl):
        E.prove(len(res) == 0, 'none from the interior')
        return
    E.prove(len(res) == 2, 'two from outside')
    a, b = res
    for z in res:
        E.prove(E.Or(*[E.vclose(z, v) for v in ring]), 'tangent points are vertices')
    H = hull(ring)
    if E.is_true(E.Not(in_convex(E, x, H))):
        for v in ring:
            E.prove(cross(x, a, v) <= 1e-6, 'polygon clockwise of the first')
            E.prove(cross(x, b, v) >= -1e-6, 'polygon counter-clockwise of the second')
        E.prove(cross(x, a, b) < 0, 'ordered')
    elif E.is_true(in_convex(E, x, H, strict=True)):
        # in a pocket: the free directions are those from the first ccw to the second
        for v in ring:
            E.prove(E.Not(E.And(cross(x, a, v) > 1e-6, cross(x, b, v) < -1e-6, cross(x, a, b) > 1e-6)), 'no vertex in the free directions')
        E.prove(cross(x, a, b) > 0, 'free directions lie ccw of the first')


# a chamber with a door in its upper wall
CAVE = [[-2., -2.], [2., -2.], [2., 2.], [0.25, 2.], [0.25, 1.5], [1.5, 1.5], [1.5, -1.5], [-1.5, -1.5], [-1.5, 1.5], [-0.5, 1.5], [-0.5, 2.], [-2., 2.]]


@harness('C10', bounds='a fixed chamber with a narrow door, any viewpoint in it', tmo=8000)
def pocket(E, R):
    F = R.Frame
    x = E.vec('x', -1.4375, 1.4375)
    o = R.Polygon(CAVE)
    res = o.tangent_points(x, F.OBSTACLE, F.OBSTACLE)
    # the free directions, by the corners of the door that bound the view
    door = [CAVE[3], CAVE[4], CAVE[9], CAVE[10]]

    def cr(a, b):
        return cross(x, a, b)
    r1, r2, l2, l1 = door
    # rightmost and leftmost free direction: the inner one of the two corners on that side
    right = [E.is_true(cr(r2, r1) >= 0), r1, r2]
    right = right[1] if right[0] else right[2]
    left = [E.is_true(cr(l1, l2) >= 0), l2, l1]
    left = left[2] if left[0] else left[1]
    gap = cr(right, left)
    E.assume(E.Or(gap > 0.01, gap < -0.01))
    E.assume(E.And(*[E.Or(cr(p, q) > 0.01, cr(p, q) < -0.01) for p, q in ((r1, r2), (l1, l2))]))
    if E.is_true(gap > 0):
        E.prove(len(res) == 2, 'two when there is a view through the door')
        E.prove(E.vclose(res[0], right), 'first one bounds the view on the right')
        E.prove(E.vclose(res[1], left), 'second one bounds the view on the left')
    else:
        E.prove(len(res) == 0, 'none without a view')


SPIRAL = [[0., 0.], [6., 0.], [6., 5.], [1., 5.], [1., 2.], [4., 2.], [4., 3.], [3., 3.], [2., 3.], [2., 4.], [5., 4.], [5., 1.], [0., 1.]]


@harness('C10', bounds='a fixed spiral, any viewpoint in its innermost pocket', tmo=8000)
def enclosed(E, R):
    F = R.Frame
    ring = SPIRAL
    x = R.np.array([E.real('x', 2.1, 3.9), E.real('y', 3.1, 3.9)])
    o = R.Polygon(ring)
    E.prove(len(o.tangent_points(x, F.OBSTACLE, F.OBSTACLE)) == 0, 'no free line of sight')


# ---------------------------------------------------------------- C11
@harness('C11', params={'quad': dict(n=4), 'penta': dict(n=5), 'before': dict(n='before'), 'after': dict(n='after'), '+hexa': dict(n=6)}, bounds='polygons with one free vertex in [-5,5]^2, '
         'listed from any vertex in either orientation, also with a straight vertex next to a corner formed with the free one, simple (other corners at least 1e-4 away from collinear unless exactly so)')
def flag(E, R, n):
    base = {4: [[0., 0.], [3., 0.], [2., 2.]], 5: [[0., 0.], [3., 0.], [4., 2.], [2., 3.]],
            6: [[0., 0.], [2., 0.], [4., 0.], [4., 2.], [2., 3.]],
            # the vertex next to the free one has a straight vertex on its other side
            'before': [[0., 4.], [0., 0.], [6., 0.], [5., 1.], [4., 2.]], 'after': [[2., 4.], [1., 5.], [0., 6.], [0., 0.], [4., 0.]]}[n]
    v = E.vec('v', -5, 5)
    ring = base + [v]
    # the two edges at the free vertex meet no other edge
    for i in range(len(base) - 1):
        a, b = base[i], base[i + 1]
        for p in ([base[-1]] if i < len(base) - 2 else []) + ([base[0]] if i > 0 else []):
            E.assume(E.Not(E.And(cross(p, v, a) * cross(p, v, b) <= 0, cross(a, b, p) * cross(a, b, v) <= 0)))
    N = len(ring)
    turns = [cross(ring[i - 1], ring[i], ring[(i + 1) % N]) for i in range(N)]
    for t in turns:
        E.assume(E.Or(t >= 1e-4, t <= -1e-4, t == 0))
    a = shoelace(ring)
    E.assume(E.Or(a >= 0.01, a <= -0.01))
    o = R.Polygon(variant(E, ring))
    conv = E.Or(E.And(*[t >= 0 for t in turns]), E.And(*[t <= 0 for t in turns]))
    E.prove(E.Iff(o.is_convex(), conv), 'convex flag')
    E.prove(E.Iff(o.is_starshaped(), conv), 'starshaped flag of a polygon')


@harness('C11', params=P('tri', 'square', 'penta', 'dart', 'ell', 'cup', 'collinear', 'star4'), bounds='fixed polygons, listed from any vertex in '
         'either orientation, any pose')
def flag_fixed(E, R, shape):
    ring = T[shape]['ring']
    pos, rot = E.vec('pos', -20, 20), E.real('rot', -3, 3)
    conv = shape in ('tri', 'square', 'penta', 'collinear')
    o = R.Polygon(variant(E, ring), motion_model=R.mm.Static(pos, rot))
    if E.boolean('polygon first'):
        o.polygon()
    E.prove(E.Iff(o.is_convex(), conv), 'convex flag')
    E.prove(E.Iff(o.is_starshaped(), conv), 'starshaped flag')
    if 'kernel' in T[shape]:
        s = R.StarshapedPolygon(ring, xr=T[shape]['kernel'])
        E.prove(E.And(s.is_starshaped(), E.Iff(s.is_convex(), conv)), 'flags of a starshaped polygon')


# ---------------------------------------------------------------- C28
CORNER = {'square_corner': [-0.9375, -0.875], 'tri_corner': [1.75, 0.125], 'dart_corner': [0.0625, 0.], 'ell_corner': [0.0625, 0.125], 'penta_corner': [2.75, 0.875]}
STARP = P('tri', 'square', 'dart', 'ell', '+penta', '+star4', '+collinear')
STARP.update({('' if k[0] in 'std' else '+') + k: dict(shape=k.split('_')[0], xr=v) for k, v in CORNER.items()})


@harness('C28', params=STARP, bounds='fixed starshaped polygons and reference '
         'points, any query point at distance 0.01..30 from the reference point', tmo=6000)
def radial(E, R, shape, xr=None):
    radial_body(E, R, shape, xr, lambda ring, xr: R.StarshapedPolygon(ring, xr=xr))


@harness('C28', params={'square': dict(shape='square', xr=[-0.9375, -0.875]), 'dart': dict(shape='dart', xr=[0.0625, 0.]), '+ell': dict(shape='ell', xr=[0.0625, 0.125]), '+penta': dict(shape='penta', xr=[2.75, 0.875])},
         bounds='fixed starshaped polygons whose reference point was moved to a fixed point (safely or not, before or after a query), any query point at distance 0.01..30 from it', tmo=6000)
def radial_moved(E, R, shape, xr):
    def make(ring, xr):
        o = R.StarshapedPolygon(ring, xr=T[shape]['kernel'])
        if E.boolean('query first'):
            o.normal(R.np.array([9., 9.5]), R.Frame.OBSTACLE, R.Frame.OBSTACLE)
        o.set_xr(R.np.array(xr), safe_set=bool(E.boolean('safe')))
        return o
    radial_body(E, R, shape, xr, make)


def radial_body(E, R, shape, xr, make):
    from h_ellipse import direction
    F = R.Frame
    t = T[shape]
    ring, xr = t['ring'], xr or t['kernel']
    d = direction(E)
    r = E.real('r', 0.01, 30)
    x = R.np.array([xr[0] + r * d[0], xr[1] + r * d[1]])
    o = make(ring, xr)
    p = o.boundary_mapping(x, F.OBSTACLE, F.OBSTACLE)
    E.prove(p is not None, 'always a projection')
    w = [p[0] - xr[0], p[1] - xr[1]]
    E.prove(E.close(w[0] * d[1] - w[1] * d[0], 0), 'on the line through the reference point')
    E.prove(w[0] * d[0] + w[1] * d[1] > 0, 'on the side of the given point')
    E.prove(E.Or(*[near_seg(E, p, a, b, 1e-5) for a, b in edges(ring)]), 'on the boundary')
    f = o.distance_function(x, F.OBSTACLE)
    on, cl = on_boundary(E, x, ring), closure(E, x, t)
    E.prove(E.Implies(E.And(cl, E.Not(on)), f < 1), 'below one inside')
    E.prove(E.Implies(E.Not(cl), f > 1), 'above one outside')
    E.prove(E.Implies(on, E.close(f, 1, 1e-4)), 'one on the boundary')
    n = o.normal(x, F.OBSTACLE, F.OBSTACLE)
    E.prove(E.close(n[0] * n[0] + n[1] * n[1], 1), 'unit normal')
    for a, b in edges(ring):
        e = [b[0] - a[0], b[1] - a[1]]
        ca = (a[0] - xr[0]) * d[1] - (a[1] - xr[1]) * d[0]
        cb = (b[0] - xr[0]) * d[1] - (b[1] - xr[1]) * d[0]
        # the ray passes strictly between a and b (ccw): a to the right, b to the left of it
        hit = E.And(ca > 1e-6, cb < -1e-6)
        E.prove(E.Implies(hit, E.And(E.close(n[0] * e[0] + n[1] * e[1], 0), n[0] * e[1] - n[1] * e[0] > 0)), 'outward normal of the edge hit')
