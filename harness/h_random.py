import math
from common import harness
from shapes import cross

# ---------------------------------------------------------------- C23
STAR = {'n3': dict(n=3), 'n4': dict(n=4), 'n5': dict(n=5), '+n6': dict(n=6), '+n8': dict(n=8), '+n12': dict(n=12)}


@harness('C23', params=STAR, bounds='fixed numbers of vertices, any centre in [-20,20]^2, average radius in [0.1,10], irregularity in [0,0.98], spikiness in [0,1], every '
         'outcome of the random source')
def star(E, R, n):
    c, r = E.vec('centre', -20, 20), E.real('radius', 0.1, 10)
    irr, sp = E.real('irregularity', 0, 0.98), E.real('spikiness', 0, 1)
    p = R.cg.generate_star_polygon(c, r, irr, sp, n)
    E.prove(len(p) == n, 'requested number of vertices')
    b = [E.bearing([q[0] - c[0], q[1] - c[1]]) for q in p]
    b = [x for x in b if x is not None]
    for a, d in b:
        E.prove(E.And(d >= -1e-9, d <= 2 * r + 1e-9), 'at most twice the average radius')
    total = 0
    for (a, d), (a2, d2) in zip(b, b[1:]):
        t = E.turn(a, a2)
        E.prove(t >= 0, 'counter-clockwise order')
        total = total + t
    E.prove(total <= 2 * math.pi + 1e-6, 'once around the centre')


@harness('C23', params=STAR, bounds='fixed numbers of vertices, irregularity in [0,0.98], every outcome of the random source')
def steps(E, R, n):
    irr = E.real('irregularity', 0, 0.98)
    w = irr * (2 * math.pi / n)
    a = R.cg.random_angle_steps(n, w)
    E.prove(len(a) == n, 'one step per vertex')
    s = 0
    for x in a:
        E.prove(x >= 0, 'no step backwards')
        s = s + x
    E.prove(E.close(s, 2 * math.pi), 'steps add up to one turn')
    for x in a:
        for y in a:
            E.prove(x * (1 + irr) >= y * (1 - irr) - 1e-6, 'spacing within the irregularity')


@harness('C23', bounds='any irregularity and spikiness in [-2,3]')
def arguments(E, R):
    irr, sp = E.real('irregularity', -2, 3), E.real('spikiness', -2, 3)
    ok = E.And(irr >= 0, irr <= 0.98, sp >= 0, sp <= 1)
    E.assume(E.Or(irr <= 0.98, irr > 1))
    E.prove(E.Iff(E.Not(ok), E.raises(lambda: R.cg.generate_star_polygon([0., 0.], 1., irr, sp, 3), ValueError)), 'rejects others')


CONVEX = {'+n3_wide': dict(n=3, box=[2., 0.5]), '+n3_default': dict(n=3, box=None), '+n3_tall': dict(n=3, box=[1., 3.])}


def promised(E, p, n, w, h):
    E.prove(len(p) == n, 'requested number of vertices')
    sx = sum(q[0] for q in p)
    sy = sum(q[1] for q in p)
    E.prove(E.And(E.close(sx, 0), E.close(sy, 0)), 'vertex mean at the origin')
    N = range(n)
    E.prove(E.And(*[E.And(p[i][0] - p[j][0] <= w + 1e-9, p[i][1] - p[j][1] <= h + 1e-9) for i in N for j in N if i != j]), 'within the box')
    E.prove(E.And(*[cross(p[i], p[(i + 1) % n], p[j]) >= -1e-9 for i in N for j in N if j not in (i, (i + 1) % n)]), 'convex')


@harness('C23', params=CONVEX, bounds='triangles in fixed boxes, every outcome of the random source')
def convex(E, R, n, box):
    p = R.cg.generate_convex_polygon(n, box)
    w, h = box or [1., 1.]
    promised(E, p, n, w, h)


SORTED = {'n3': dict(n=3, box=[2., 0.5]), 'n4': dict(n=4, box=[1., 1.], xs=[0.125, 0.25, 0.75, 0.875], ys=1),
          '+n4_b': dict(n=4, box=[3., 1.], xs=[0.25, 0.5, 1.5, 2.], ys=1), '+n4_any': dict(n=4, box=[1., 2.], ys=1),
          '+n5': dict(n=5, box=[1., 1.], xs=[0.125, 0.25, 0.625, 0.75, 1.], ys=1)}
SORTED = {'%s_%d' % (k, f): dict(v, first=f) for k, v in SORTED.items() for f in (0, 1)}


@harness('C23', params=SORTED, bounds='three to four (thorough: five) vertices, x coordinates drawn in ascending order (four vertices: as given), y coordinates in any order '
         '(four vertices: ascending), every other outcome of the random source')
def convex_sorted(E, R, n, box, first, xs=None, ys=None):
    def limit(i, v):
        if i < n:
            return [E.close(v[i] * box[0], xs[i], 0)] if xs else [v[i] > v[i - 1]] if i else []
        if i < 2 * n:
            return [v[i] > v[i - 1]] if ys and i > n else []
        return [v[i] == first] if i == 2 * n else []
    E.draws(limit)
    p = R.cg.generate_convex_polygon(n, box)
    promised(E, p, n, *box)


@harness('C23', bounds='any triangle in [-20,20]^2, every outcome of the random source')
def in_triangle(E, R):
    a, b, c = E.vec('a', -20, 20), E.vec('b', -20, 20), E.vec('c', -20, 20)
    k = cross(a, b, c)
    E.assume(k >= 0)
    q = R.cg.point_in_triangle(a, b, c)
    E.prove(E.And(cross(a, b, q) >= -1e-6, cross(b, c, q) >= -1e-6, cross(c, a, q) >= -1e-6), 'point of the triangle')
