from common import harness
from shapes import *
from h_cone import crs, off
from h_admissible import hits

# obstacles (ring, kernel point or None), excluded points, half-planes of the common kernel (None: there is no common kernel)
BOX1 = [[-2., -1.], [1., -1.], [1., 1.], [-2., 1.]]
BOX2 = [[0., -3.], [2., -3.], [2., 0.5], [0., 0.5]]
BOX3 = [[1.5, -3.5], [5., -3.5], [5., -2.], [1.5, -2.]]
DART = [[0., 0.], [3., -1.], [1., 0.25], [2., 3.]]
CUP = T['cup']['ring']
SCENE = {
    'tri': dict(obs=['tri'], x=[-4., 1.], xg=[5., 1.25]),
    'dart': dict(obs=['dart'], x=[-4., 0.25], xg=[5., 0.5]),
    'two': dict(obs=['b1', 'b2'], x=[-4., 0.125], xg=[5., 0.25]),
    'three': dict(obs=['b1', 'b2', 'b3'], x=[-4., -2.5], xg=[7., 1.]),
    'cup': dict(obs=['cup'], x=[-5., 1.], xg=[6., 1.5]),
    'steep': dict(obs=['b1', 'b2'], x=[0.5, 5.], xg=[0.75, -6.]),
}
RING = {'tri': T['tri']['ring'], 'dart': T['dart']['ring'], 'cup': T['cup']['ring'], 'b1': BOX1, 'b2': BOX2, 'b3': BOX3}


def obstacle(R, n):
    if n == 'dart':
        return R.StarshapedPolygon(T[n]['ring'], xr=T[n]['kernel'])
    if n == 'cup':
        return R.Polygon(T[n]['ring'])
    return R.StarshapedPolygon(RING[n])


def cluster(R, names, x, xg):
    cl = R.cs.ObstacleCluster([obstacle(R, n) for n in names])
    cone = [R.cs.Cone.list_intersection([R.sh.admissible_kernel(o, p) for o in cl.obstacles], same_apex=True) for p in (x, xg)]
    cl.admissible_kernel = cone[0].intersection(cone[1])
    return cl


def previous(R, c):
    cl = type('Previous', (), {})()
    cl.kernel_points = R.np.array([[c[0] - 0.25, c[1] + 0.5], [c[0] + 0.5, c[1] - 0.25], [c[0] - 0.25, c[1] - 0.25]])
    return cl


def sees(E, k, p, rings):
    """the excluded point p is not covered from k: the ray from p away from k meets no obstacle"""
    w = [p[0] - k[0], p[1] - k[1]]
    return E.And(*[E.Not(hits(E, w, [[v[0] - p[0], v[1] - p[1]] for v in r])) for r in rings])


def sq(p):
    return p[0] * p[0] + p[1] * p[1]


def triangle(E, k, eps, x, xg, rings, common):
    d = [[k[i][0] - k[j][0], k[i][1] - k[j][1]] for i, j in ((0, 1), (1, 2), (2, 0))]
    m = [(k[0][i] + k[1][i] + k[2][i]) / 3 for i in (0, 1)]
    r = [[p[0] - m[0], p[1] - m[1]] for p in k]
    E.prove(E.And(*[sq(q) <= (eps * eps) * 1.000001 for q in d]), 'side at most the requested width')
    E.prove(E.And(E.close(sq(d[0]), sq(d[1])), E.close(sq(d[1]), sq(d[2]))), 'sides of equal length')
    if common:
        E.prove(sq(d[0]) > 0, 'a proper triangle')
    for p in k:
        E.prove(E.And(sees(E, p, x, rings), sees(E, p, xg, rings)), 'corners lie in the admissible kernel')
        for r in common:
            E.prove(E.And(*[cross(a, b, p) >= -1e-9 for a, b in edges(r)]), 'corners lie in the common kernel')
    return m


COMMON = {'tri': ['tri'], 'dart': ['dart'], 'two': ['b1', 'b2'], 'steep': ['b1', 'b2']}


@harness('C20', params={('+' if k == 'three' else '') + k: dict(scene=k) for k in SCENE}, bounds='fixed scenes (one to three obstacles), any previous centre in [-8,8]^2, any width in [0.01,2]')
def kept(E, R, scene):
    s = SCENE[scene]
    x, xg = R.np.array(s['x']), R.np.array(s['xg'])
    cl = cluster(R, s['obs'], x, xg)
    c, eps = E.vec('c', -8, 8), E.real('eps', 0.01, 2)
    rings = [RING[n] for n in s['obs']]
    common = [RING[n] for n in COMMON.get(scene, [])]
    E.assume(off(E, cross(s['x'], s['xg'], c), 1e-3))
    k = R.cs.compute_kernel_points(cl, x, xg, eps, previous(R, c), R.Ellipse([1e10, 1e10]))
    m = triangle(E, k, eps, x, xg, rings, common)
    same = E.And(*[E.And(m[i] - c[i] <= 1e-9, c[i] - m[i] <= 1e-9) for i in (0, 1)])
    if common:
        E.prove(E.Or(same, E.Not(E.And(sees(E, c, x, rings), sees(E, c, xg, rings), *[cross(a, b, c) >= 1e-3 for r in common for a, b in edges(r)]))), 'previous centre kept')


REG = {'tri': (T['tri']['ring'], 'tri'), 'box': (BOX1, 'b1'), 'penta': (T['penta']['ring'], 'penta')}
RING['penta'] = T['penta']['ring']
SD = {}
for _n in REG:
    for _g, _q in ((0.25, ''), (-0.5, ''), (4., '+'), (-1., '+')):
        SD['%s%s_%s' % ('+' if _n == 'penta' else _q, _n, _g)] = dict(region=_n, slope=_g)


@harness('C20', params=SD, bounds='one convex obstacle, excluded points on any line of a given direction through its neighbourhood, any previous centre in '
         '[-8,8]^2 more than 1e-3 from that line, admissible kernel a fixed box around')
def side(E, R, region, slope):
    ring, name = REG[region]
    s = E.real('s', -4, 4)
    c = E.vec('c', -8, 8)
    x, xg = ([-8., s - 8. * slope], [8., s + 8. * slope]) if abs(slope) <= 1 else ([s - 8. / slope, -8.], [s + 8. / slope, 8.])
    def at(p):
        return cross(x, xg, p)
    E.assume(off(E, at(c), 1e-3))
    cl = R.cs.ObstacleCluster([obstacle(R, name)])
    cl.admissible_kernel = R.shapely.geometry.box(-30, -30, 30, 30)
    k = R.cs.compute_kernel_points(cl, R.np.array(x), R.np.array(xg), 0.5, previous(R, c), R.Ellipse([1e10, 1e10]))
    m = triangle(E, k, 0.5, x, xg, [], [ring])
    for sg in (1, -1):
        E.prove(E.Or(at(c) * sg <= 0, at(m) * sg >= -1e-9, E.And(*[at(v) * sg <= 1e-3 for v in ring])), 'centre stays on the side of the previous one')
    same = E.And(*[E.And(m[i] - c[i] <= 1e-9, c[i] - m[i] <= 1e-9) for i in (0, 1)])
    E.prove(E.Or(same, E.Not(E.And(*[cross(a, b, c) >= 1e-3 for a, b in edges(ring)]))), 'previous centre kept')


@harness('C20', params={k: dict(scene=k) for k in SCENE}, bounds='fixed scenes (one to three obstacles), no previous centre, any width in [0.01,4]')
def first(E, R, scene):
    s = SCENE[scene]
    x, xg = R.np.array(s['x']), R.np.array(s['xg'])
    cl = cluster(R, s['obs'], x, xg)
    eps = E.real('eps', 0.01, 4)
    k = R.cs.compute_kernel_points(cl, x, xg, eps, None, R.Ellipse([1e10, 1e10]))
    triangle(E, k, eps, x, xg, [RING[n] for n in s['obs']], [RING[n] for n in COMMON.get(scene, [])])


@harness('C20', params={k: dict(region=k) for k in ('tri', 'box', '+penta')}, bounds='one convex obstacle, no previous centre, excluded points on any line of slope '
         '1/4 or -1/2 through its neighbourhood and off the centre of the obstacle, any width in [0.01,4], admissible kernel a fixed box around')
def first_side(E, R, region):
    ring, name = REG[region]
    slope = [0.25, -0.5][E.choice('slope', 2)]
    s, eps = E.real('s', -4, 4), E.real('eps', 0.01, 4)
    x, xg = [-8., s - 8. * slope], [8., s + 8. * slope]
    cl = R.cs.ObstacleCluster([obstacle(R, name)])
    cl.admissible_kernel = R.shapely.geometry.box(-30, -30, 30, 30)
    ct = obstacle(R, name).polygon().centroid
    E.assume(off(E, cross(x, xg, [ct.x, ct.y]), 1e-3))
    k = R.cs.compute_kernel_points(cl, R.np.array(x), R.np.array(xg), eps, None, R.Ellipse([1e10, 1e10]))
    triangle(E, k, eps, x, xg, [], [ring])


WS = {'tri': dict(obs=['tri'], ws=[[-5., -5.], [1., -5.], [1., 5.], [-5., 5.]], keep=[[1., -9.], [9., -9.], [9., 9.], [1., 9.]]),
      'two': dict(obs=['b1', 'b2'], ws=[[-6., 0.], [6., 0.], [6., 6.], [-6., 6.]], keep=[[-9., -9.], [9., -9.], [9., 0.], [-9., 0.]]),
      'dart': dict(obs=['dart'], ws=[[-5., -5.], [5., -5.], [5., 0.125], [-5., 0.125]], keep=[[-9., 0.125], [9., 0.125], [9., 9.], [-9., 9.]])}


@harness('C20', params={k: dict(scene=k) for k in WS}, bounds='fixed scenes with an obstacle reaching out of a fixed workspace, previous centre anywhere in [-8,8]^2 or none, any width in [0.01,4]')
def outside(E, R, scene):
    s = SCENE[scene]
    w = WS[scene]
    x, xg = R.np.array(s['x']), R.np.array(s['xg'])
    cl = cluster(R, s['obs'], x, xg)
    c, eps = E.vec('c', -8, 8), E.real('eps', 0.01, 4)
    E.assume(off(E, cross(s['x'], s['xg'], c), 1e-3))
    prev = previous(R, c) if E.boolean('previous') else None
    k = R.cs.compute_kernel_points(cl, x, xg, eps, prev, R.Polygon(w['ws']))
    triangle(E, k, eps, x, xg, [RING[n] for n in s['obs']], [RING[n] for n in COMMON.get(scene, [])])
    for p in k:
        E.prove(E.And(*[cross(a, b, p) >= -1e-9 for a, b in edges(w['keep'])]), 'corners lie outside of the workspace')
