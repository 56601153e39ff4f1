from common import harness
from shapes import *
from h_cone import crs, dot, off
from h_ellipse import direction

# combinations of polygons; pieces: convex parts of all members; ring: the union, counter-clockwise; xr sees it all
SQ = [[-1., -1.], [1., -1.], [1., 1.], [-1., 1.]]
BAR = [[0., -0.5], [4., -0.5], [4., 0.5], [0., 0.5]]
UP = [[-0.5, 0.], [0.5, 0.], [0.75, 3.], [-0.25, 3.]]
FAN = [[-2.5, -0.5], [0., -2.], [0.5, 0.]]   # meets SQ in points with short binary coordinates
FAN2 = [[-3., -0.5], [0., -2.], [0.25, 0.25]]
WEDGE = [[0., 0.], [2.5, -0.25], [1.5, 2.]]
COMBI = {
    'two': dict(members=[SQ, BAR], hull=None, xr=[0.5, 0.125]),
    'cross': dict(members=[BAR, UP], hull=None, xr=[0.25, 0.25]),
    'hull': dict(members=[SQ], hull=WEDGE, xr=[0.25, 0.25]),
    'only_hull': dict(members=[], hull=WEDGE, xr=[1.25, 0.5]),
    'empty_hull': dict(members=[SQ, FAN], hull=[], xr=[-0.125, -0.25]),
    '+three': dict(members=[SQ, BAR, UP], hull=WEDGE, xr=[0.25, 0.25]),
    '+fan': dict(members=[FAN2, UP], hull=SQ, xr=[0.0625, 0.125]),
    '+ell': dict(members=[T['ell']['ring'], SQ], hull=None, xr=[0.5, 0.5], parts=[T['ell']['pieces'], [[0, 1, 2, 3]]]),
}


def members(c):
    """convex parts of members and hull"""
    out = []
    for i, m in enumerate(c['members']):
        idx = c['parts'][i] if 'parts' in c else [range(len(m))]
        out += [[m[j] for j in q] for q in idx]
    return out + ([c['hull']] if c['hull'] else [])


def rings(c):
    return list(c['members']) + ([c['hull']] if c['hull'] else [])


def build(R, c, n=None):
    hull = None if c['hull'] is None else R.shapely.geometry.Polygon(c['hull'])
    mm = n or [None] * len(c['members'])
    return R.StarshapedPrimitiveCombination([R.Polygon(m, motion_model=k) for m, k in zip(c['members'], mm)], hull, R.np.array(c['xr']))


CP = {k: dict(name=k.strip('+')) for k in COMBI}
COMBI = {k.strip('+'): v for k, v in COMBI.items()}


def two_boundaries(E, x, c, tol=0.001):
    """near the boundary of two members at once (where they cross or share an edge)"""
    rs = [E.Or(*[near_seg(E, x, a, b, tol) for a, b in edges(r)]) for r in rings(c)]
    return E.Or(*[E.And(rs[i], rs[j]) for i in range(len(rs)) for j in range(i)]) if len(rs) > 1 else (0 > E.const(1))


def beyond(E, p, d, parts):
    """the ray from p in direction d meets no part (beyond a small distance)"""
    for q in parts:
        f = []
        for a, b in edges(q):
            n = [b[1] - a[1], a[0] - b[0]]
            # outside this edge from there on, or all the way
            f.append(E.And(crs([b[0] - a[0], b[1] - a[1]], [p[0] + 1e-4 * d[0] - a[0], p[1] + 1e-4 * d[1] - a[1]]) < 0, dot(n, d) >= 0))
        g = E.Or(*f)
        if not E.is_true(g):
            e = E.real('e', 0.0001, 10)
            E.prove(E.Not(in_convex(E, [p[0] + e * d[0], p[1] + e * d[1]], q)), 'nothing farther')
    E.prove(True, 'nothing farther')


# ---------------------------------------------------------------- C26
@harness('C26', params=CP, bounds='fixed combinations of polygons, any point in [-8,8]^2 that is not next to the boundaries of two members')
def location(E, R, name):
    c = COMBI[name]
    o = build(R, c)
    x = E.vec('x', -8, 8)
    E.assume(E.Not(two_boundaries(E, x, c)))
    ps = members(c)
    l = o.point_location(x)
    inn, clo = in_any(E, x, ps, True), in_any(E, x, ps)
    edge = E.Or(*[on_boundary(E, x, r) for r in rings(c)])
    E.prove(E.Iff(l > 0, E.Not(clo)), 'exterior')
    E.prove(E.Implies(inn, l < 0), 'interior of a member is interior')
    E.prove(E.Implies(l < 0, clo), 'interior only inside a member')
    if not E.is_true(inn):
        E.prove(E.Implies(edge, l == 0), 'boundary')
    E.prove(E.Iff(o.interior_point(x), l < 0), 'interior test')
    E.prove(E.Iff(o.exterior_point(x), l > 0), 'exterior test')
    E.prove(E.Iff(o.boundary_point(x), l == 0), 'boundary test')


@harness('C26', params=CP, bounds='fixed combinations of polygons, any point in [-8,8]^2')
def union(E, R, name):
    c = COMBI[name]
    o = build(R, c)
    x = E.vec('x', -8, 8)
    p = o.polygon()
    pt = R.shapely.geometry.Point(x)
    ps = members(c)
    E.prove(E.Implies(in_any(E, x, ps, True), p.contains(pt)), 'polygon covers every member')
    E.prove(E.Implies(p.contains(pt), in_any(E, x, ps)), 'polygon covers nothing else')
    E.prove(o.is_starshaped(), 'starshaped')


@harness('C26', params=CP, bounds='fixed combinations of polygons and reference points, every direction and distance 0.001 to 100')
def projection(E, R, name):
    c = COMBI[name]
    o = build(R, c)
    xr = c['xr']
    d = direction(E)
    r = E.real('r', 0.001, 100)
    p = o.boundary_mapping(R.np.array([xr[0] + r * d[0], xr[1] + r * d[1]]))
    E.prove(p is not None, 'always a projection')
    v = [p[0] - xr[0], p[1] - xr[1]]
    E.prove(E.close(crs(d, v), 0), 'on the ray')
    E.prove(dot(d, v) > 0, 'in the direction of the point')
    ps = members(c)
    E.prove(E.Or(*[in_convex(E, p, q, tol=1e-6) for q in ps]), 'on a member')
    beyond(E, p, d, ps)


@harness('C26', params=CP, bounds='fixed combinations of polygons and reference points, every direction and distance 0.1 to 100, not towards a corner')
def edge_normal(E, R, name):
    c = COMBI[name]
    o = build(R, c)
    xr = c['xr']
    d = direction(E)
    r = E.real('r', 0.1, 100)
    ring = o.polygon().exterior.coords[:-1]
    ring = [[float(p[0]), float(p[1])] for p in ring]
    if shoelace(ring) < 0:
        ring = ring[::-1]
    E.assume(E.And(*[off(E, crs(d, [p[0] - xr[0], p[1] - xr[1]])) for p in ring]))
    # the edge of the union in that direction
    hit = [(a, b) for a, b in edges(ring) if E.is_true(E.And(crs(d, [a[0] - xr[0], a[1] - xr[1]]) < 0, crs(d, [b[0] - xr[0], b[1] - xr[1]]) > 0))]
    E.prove(len(hit) == 1, 'one edge')
    (a, b), = hit
    l = ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5
    want = [(b[1] - a[1]) / l, (a[0] - b[0]) / l]
    x = R.np.array([xr[0] + r * d[0], xr[1] + r * d[1]])
    n = o.normal(x, type='polygon_approx')
    E.prove(E.vclose(n, want), 'unit outward normal of the edge')
    E.prove(n[0] * d[0] + n[1] * d[1] > 0, 'away from the reference point')


@harness('C26', params=CP, bounds='fixed combinations of polygons and reference points, every point of the boundary except near the corners', tmo=8000)
def boundary_normal(E, R, name):
    c = COMBI[name]
    o = build(R, c)
    ring = [[float(p[0]), float(p[1])] for p in o.polygon().exterior.coords[:-1]]
    if shoelace(ring) < 0:
        ring = ring[::-1]
    es = edges(ring)
    a, b = es[E.choice('edge', len(es))]
    s = E.real('s', 0.02, 0.98)
    x = R.np.array([a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])])
    n = o.normal(x)
    E.prove(E.close(n[0] * n[0] + n[1] * n[1], 1), 'unit length')
    E.prove(n[0] * (b[1] - a[1]) + n[1] * (a[0] - b[0]) > 0, 'outward')
    E.prove(n[0] * (x[0] - c['xr'][0]) + n[1] * (x[1] - c['xr'][1]) > 0, 'away from the reference point')


@harness('C26', params=CP, bounds='fixed combinations of polygons and reference points, eight points on every boundary edge')
def boundary_normal_value(E, R, name):
    c = COMBI[name]
    o = build(R, c)
    ring = [[float(p[0]), float(p[1])] for p in o.polygon().exterior.coords[:-1]]
    if shoelace(ring) < 0:
        ring = ring[::-1]
    es = edges(ring)
    a, b = es[E.choice('edge', len(es))]
    s = [0.02, 0.125, 0.375, 0.5, 0.625, 0.875, 0.96, 0.98][E.choice('s', 8)]
    l = ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5
    n = o.normal(R.np.array([a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])]))
    E.prove(E.vclose(n, [(b[1] - a[1]) / l, (a[0] - b[0]) / l], 1e-4), 'outward normal of the boundary')


@harness('C26', params={k: dict(name=k.strip('+')) for k in ('hull', 'only_hull', '+two', '+cross')}, bounds='fixed combinations of '
         'starshaped polygons and a hull extension that sees the reference point, every point of the boundary except near the corners', tmo=8000)
def member_normal(E, R, name):
    c = COMBI[name]
    xr = c['xr']
    ms = [R.StarshapedPolygon(m, xr=R.np.array([sum(v[0] for v in m) / len(m), sum(v[1] for v in m) / len(m)])) for m in c['members']]
    o = R.StarshapedPrimitiveCombination(ms, None if c['hull'] is None else R.shapely.geometry.Polygon(c['hull']), R.np.array(xr))
    ring = [[float(p[0]), float(p[1])] for p in o.polygon().exterior.coords[:-1]]
    if shoelace(ring) < 0:
        ring = ring[::-1]
    es = edges(ring)
    a, b = es[E.choice('edge', len(es))]
    s = E.real('s', 0.02, 0.98)
    x = R.np.array([a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])])
    l = ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5
    n = o.normal(x, type='sub_normal')
    E.prove(E.vclose(n, [(b[1] - a[1]) / l, (a[0] - b[0]) / l], 1e-4), 'outward normal of the boundary')


@harness('C26', bounds='a fixed hull extension alone, any point at distance 0.1 to 100 of the reference point, not towards a corner')
def hull_normal(E, R):
    c = COMBI['only_hull']
    o = build(R, c)
    xr, ring = c['xr'], c['hull']
    d = direction(E)
    r = E.real('r', 0.1, 100)
    E.assume(E.And(*[off(E, crs(d, [p[0] - xr[0], p[1] - xr[1]])) for p in ring]))
    hit = [(a, b) for a, b in edges(ring) if E.is_true(E.And(crs(d, [a[0] - xr[0], a[1] - xr[1]]) < 0, crs(d, [b[0] - xr[0], b[1] - xr[1]]) > 0))]
    (a, b), = hit
    l = ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5
    n = o.normal(R.np.array([xr[0] + r * d[0], xr[1] + r * d[1]]), type='sub_normal')
    E.prove(E.vclose(n, [(b[1] - a[1]) / l, (a[0] - b[0]) / l]), 'outward normal of the hull edge')


ELL = {'ell_hull': dict(a=2., b=1., hull=WEDGE, xr=[0.5, 0.25]), 'ell_bar': dict(a=1., b=2., member=BAR, xr=[0.25, 0.125]),
       '+circle': dict(a=1., b=1., member=BAR, hull=WEDGE, xr=[0.25, 0.125])}


def ell_build(R, a, b, member, hull, xr, mm=None, mm2=None):
    ms = [R.Ellipse([a, b], motion_model=mm)] + ([R.StarshapedPolygon(member, motion_model=mm2)] if member else [])
    return R.StarshapedPrimitiveCombination(ms, R.shapely.geometry.Polygon(hull) if hull else None, R.np.array(xr)), ms


@harness('C26', params=ELL, bounds='fixed ellipse with a polygon and/or hull, any point in [-8,8]^2', tmo=8000)
def ellipse_location(E, R, a, b, xr, member=None, hull=None):
    o, ms = ell_build(R, a, b, member, hull, xr)
    x = E.vec('x', -8, 8)
    q = [r for r in (member, hull) if r]
    v = (x[0] / a) * (x[0] / a) + (x[1] / b) * (x[1] / b)
    E.assume(E.And(*[E.Not(near_seg(E, x, s, t, 1e-3)) for r in q for s, t in edges(r)]))
    E.assume(off(E, v - 1))
    inn = E.Or(v < 1, in_any(E, x, q))
    l = o.point_location(x)
    E.prove(E.Iff(l < 0, inn), 'interior exactly inside a member')
    E.prove(E.Iff(l > 0, E.Not(inn)), 'exterior otherwise')


@harness('C26', params=ELL, bounds='fixed ellipse with a polygon and/or hull, every direction and distance 0.001 to 100', tmo=8000)
def ellipse_projection(E, R, a, b, xr, member=None, hull=None):
    o, ms = ell_build(R, a, b, member, hull, xr)
    d = direction(E)
    r = E.real('r', 0.001, 100)
    p = o.boundary_mapping(R.np.array([xr[0] + r * d[0], xr[1] + r * d[1]]))
    E.prove(p is not None, 'always a projection')
    s = (p[0] - xr[0]) * d[0] + (p[1] - xr[1]) * d[1]
    E.prove(E.close(crs(d, [p[0] - xr[0], p[1] - xr[1]]), 0), 'on the ray')
    E.prove(s > 0, 'in the direction of the point')
    g = p[0] * p[0] / (a * a) + p[1] * p[1] / (b * b) - 1
    q = [t for t in (member, hull) if t]
    E.prove(g >= -1e-6, 'not inside the ellipse')
    E.prove(E.Or(g <= 1e-6, *[in_convex(E, p, t, tol=1e-6) for t in q]), 'on a member')
    beyond(E, p, d, q)


@harness('C26', params={k: v for k, v in ELL.items() if v.get('member')}, bounds='fixed ellipse and polygon moving along their first axis at any '
         'speeds, 10 directions, distance 0.001 to 100')
def velocity(E, R, a, b, xr, member=None, hull=None):
    import math
    m1, m2 = E.real('m1', -5, 5), E.real('m2', -5, 5)
    mms = [R.mm.SinusVelocity([0., 0.], 0, True, x1_mag=m, x1_period=0) for m in (m1, m2)]
    o, ms = ell_build(R, a, b, member, hull, xr, *mms)
    d = [[1., 0.25], [1., -0.125], [0.5, 1.], [0., 1.], [-1., 1.], [-1., -0.25], [-0.5, -1.], [0.25, -1.], [1., 0.5], [1., -0.5]][E.choice('d', 10)]
    r = E.real('r', 0.001, 100)
    v = o.vel_intertial_frame(R.np.array([xr[0] + r * d[0], xr[1] + r * d[1]]))
    # the member that ends last along the ray
    A, B = d[0] * d[0] / (a * a) + d[1] * d[1] / (b * b), d[0] * xr[0] / (a * a) + d[1] * xr[1] / (b * b)
    C = xr[0] * xr[0] / (a * a) + xr[1] * xr[1] / (b * b) - 1
    s = (math.sqrt(B * B - A * C) - B) / A
    ends = [crs([p[0] - xr[0], p[1] - xr[1]], [q[0] - p[0], q[1] - p[1]]) / crs(d, [q[0] - p[0], q[1] - p[1]]) for p, q in edges(member)
            if crs(d, [p[0] - xr[0], p[1] - xr[1]]) < 0 < crs(d, [q[0] - xr[0], q[1] - xr[1]])]
    E.prove(E.vclose(v, mms[0 if s > max(ends) else 1].lin_vel()), 'velocity of the member that bounds the obstacle there')
