from common import harness
from shapes import *
from h_cone import crs, off
from h_hull import OFFS

# lines on which the kernel centre moves: base, direction (parameter in [-1, 1])
LINE = {
    'dart': [([1.5, 0.875], [4., 1.]), ([1., 1.], [-1., 4.]), ([1.75, 0.], [3., -3.])],
    'ell': [([1., 0.625], [4., 1.5]), ([1.75, 1.75], [-3., 3.]), ([0.625, 1.], [0.25, 4.])],
    'cup': [([2., 1.875], [4., 0.75]), ([2.125, 1.5], [-0.5, 4.]), ([1., 2.], [4., 3.])],
    'star4': [([0.125, 0.25], [4., 1.]), ([0.25, -0.125], [-1., 5.])],
}


def hull_of(E, pts):
    """the supporting pairs (a, b): every point on the left of a -> b"""
    n = len(pts)
    return [(pts[i], pts[j]) for i in range(n) for j in range(n) if i != j
            and E.is_true(E.And(*[cross(pts[i], pts[j], pts[k]) >= 0 for k in range(n) if k not in (i, j)]))]


def check(E, R, h, ring, ps, ks, c, q, known=None):
    def prove(cond, what):
        E.prove(cond, what, known=known)
    v = [p for p in h.exterior.coords][:-1]
    n = len(v)
    v = [[p[0], p[1]] for p in v]
    # orientation of the result
    if E.is_true(sum(crs([a[0] - c[0], a[1] - c[1]], [b[0] - c[0], b[1] - c[1]]) for a, b in edges(v)) < 0):
        v = v[::-1]
    for k in ks:
        for a, b in edges(v):
            prove(cross(a, b, k) >= -1e-6, 'starshaped with respect to every kernel point')
    if len(ks) > 1:
        up = [E.And(cross(a, b, c) > 0, a[1] <= c[1], b[1] > c[1]) for a, b in edges(v)]
        prove(E.And(E.Or(*up), *[E.Not(E.And(up[i], up[j])) for i in range(n) for j in range(i)]), 'a simple ring around the kernel points')
    # (a kernel point outside of the polygon is a vertex of the hull: no triangles at its own edges)
    fan = [[c, a, b] for a, b in edges(v) if E.is_true(cross(a, b, c) > 1e-10)]
    spec = [hull_of(E, [list(p) for p in piece] + ks) for piece in ps]
    strict = [E.And(*[cross(a, b, q) > 1e-3 for a, b in s]) for s in spec]
    closed = E.Or(*[E.And(*[cross(a, b, q) >= -1e-3 for a, b in s]) for s in spec])
    inside = [E.And(cross(a, b, q) >= 0, cross(c, a, q) >= 0, cross(b, c, q) >= 0) for _, a, b in fan]
    for s in strict:
        prove(E.Or(E.Not(s), *inside), 'every segment from a kernel point to the polygon')
    for s in inside:
        prove(E.Or(E.Not(s), closed), 'only segments from kernel points to the polygon')


# every position on these pieces of the lines is across the boundary, or the solver needs too long
SKIP = {('dart', 1, 3), ('dart', 2, 4), ('ell', 1, 2), ('ell', 1, 1), ('cup', 0, 6), ('cup', 1, 2), ('cup', 1, 7), ('cup', 2, 5), ('cup', 2, 6)}
KT = {}
for _s in LINE:
    for _l in range(len(LINE[_s])):
        for _w in range(8):
            if (_s, _l, _w) in SKIP:
                continue
            KT['%s%s_small_%d_%d' % ('' if _s == 'dart' and (_l, _w) != (1, 2) else '+', _s, _l, _w)] = dict(shape=_s, offs='small', line=_l, lo=_w / 4. - 1)
        for _w in range(2):
            KT['%s%s_one_%d_%d' % ('+' if _s == 'star4' else '', _s, _l, _w)] = dict(shape=_s, offs='one', line=_l, lo=_w - 1., size=1.)
KT['cup_small_F2'] = dict(shape='cup', offs='small', line=1, lo=-0.2198, size=0.002)


@harness('C17', params=KT, bounds='fixed nonconvex polygons, one kernel point or three around a centre on fixed lines (not across the boundary of the polygon), any point in [-8,8]^2', tmo=10000)
def moving(E, R, shape, offs, line, lo, size=0.25):
    t = T[shape]
    ring = t['ring']
    b, d = LINE[shape][line]
    r = E.real('r', lo, lo + size)
    c = [b[0] + r * d[0], b[1] + r * d[1]]
    ks = [[c[0] + e[0], c[1] + e[1]] for e in OFFS['small']] if offs == 'small' else [c]
    for k in ks:
        E.assume(E.And(*[off(E, cross(ring[i], ring[j], k)) for i in range(len(ring)) for j in range(i)]))
    for i in range(len(ks)):
        for j in range(i):
            E.assume(E.And(*[off(E, cross(ks[i], ks[j], p)) for p in ring]))
    for k, l in edges(ks) if len(ks) > 1 else []:
        for a, b in edges(ring):
            p, m, u, w = cross(a, b, k), cross(a, b, l), cross(k, l, a), cross(k, l, b)
            E.assume(E.Not(E.And(E.Or(E.And(p > 0, m < 0), E.And(p < 0, m > 0)), E.Or(E.And(u > 0, w < 0), E.And(u < 0, w > 0)))))
    o = R.Polygon(ring)
    h = R.sh.kernel_starshaped_hull(o, R.np.array(ks))
    # finding F2: a sliver where the lines of sight to both rims cross just above the bottom of the cavity
    known = ('F2', E.And(r > -0.2192, r < -0.2182)) if (shape, offs, line) == ('cup', 'small', 1) else None
    check(E, R, h, ring, pieces(t), ks, c, E.vec('q', -8, 8), known)


def valid(E, v):
    """no two edges of the ring cross"""
    return not [e for i, e in enumerate(edges(v)) for f in edges(v)[i + 1:] if E.is_true(E.And(cross(*e, f[0]) * cross(*e, f[1]) < 0, cross(*f, e[0]) * cross(*f, e[1]) < 0))]


# findings: kernel triangles across the boundary, and next to a sharp corner
BAD = {'dart': ('F1', [1.29946899, 0.82486725]), 'corner': ('F3', [3.2189217472201337, -0.9808956210042155])}


@harness('C17', params={k: dict(case=k) for k in BAD}, bounds='two kernel triangles at a fixed polygon (findings F1 and F3)')
def straddling(E, R, case):
    fid, c = BAD[case]
    ks = [[c[0] + e[0], c[1] + e[1]] for e in OFFS['small']]
    h = R.sh.kernel_starshaped_hull(R.Polygon(T['dart']['ring']), R.np.array(ks))
    v = [[p[0], p[1]] for p in h.exterior.coords][:-1]
    E.prove(valid(E, v), 'a simple ring', known=(fid, E.const(1) > 0))


PLACE = {'dart': [[0.5, 0.125], [3.5, 0.5], [0.75, 2.]], 'ell': [[0.5, 1.0625], [2.5, 2.5], [-1., 0.5]], 'cup': [[2.1875, 0.34375], [2., 2.125], [5., 1.5]]}
SC = {'%s%s_%d_%d%s' % (q, n, k, i, o): dict(shape=n, c=PLACE[n][k], lo=lo, hi=hi, one=o == '') for n in PLACE for k in range(3) for o in ('', '_small')
      for i, (lo, hi, q) in enumerate(((0.01, 20., '+'), (20., 400., '+'), (400., 10000., '' if o == '' else '+')))}


@harness('C17', params=SC, bounds='fixed nonconvex polygons and kernel points, everything at any size from a hundredth to ten thousand times', tmo=10000)
def scaled(E, R, shape, c, lo, hi, one):
    t = T[shape]
    s = E.real('s', lo, hi)
    ks = [c] if one else [[c[0] + e[0], c[1] + e[1]] for e in OFFS['small']]
    h = R.sh.kernel_starshaped_hull(R.Polygon([[s * p[0], s * p[1]] for p in t['ring']]), R.np.array([[s * k[0], s * k[1]] for k in ks]))
    E.prove(E.is_true(h.is_valid), 'a proper polygon')
    unit = R.shapely.geometry.Polygon([[p[0] / s, p[1] / s] for p in h.exterior.coords][:-1])
    check(E, R, unit, t['ring'], pieces(t), ks, c, E.vec('q', -8, 8))
