from common import harness
from shapes import cross, edges, near_seg, hull, proper, on_seg, in_convex
from h_ellipse import direction


# ---------------------------------------------------------------- C21
@harness('C21', bounds='any three points in [-100,100]^2')
def orientation(E, R):
    cg = R.cg
    a, u, w = E.vec('a', -100, 100), E.vec('u', -100, 100), E.vec('w', -100, 100)
    b, c = a + u, a + w
    k = cross(a, b, c)
    v = cg.orientation_val(a, b, c)
    E.prove(E.close(v, -k), 'orientation value is the negated cross product')
    E.prove(E.close(cg.orientation_val(b, a, c), -v), 'antisymmetric')
    E.prove(E.close(cg.orientation_val(a, c, b), -v), 'antisymmetric')
    E.prove(E.close(cg.orientation_val(b, c, a), v), 'cyclic')
    E.prove(E.close(cg.orientation_val(c, a, b), v), 'cyclic')
    E.assume(E.Or(k >= 1e-8, k <= -1e-8, k == 0))
    E.prove(E.Iff(cg.is_ccw(a, b, c), k > 0), 'ccw')
    E.prove(E.Iff(cg.is_cw(a, b, c), k < 0), 'cw')
    E.prove(E.Iff(cg.is_collinear(a, b, c), k == 0), 'collinear')
    m = cg.np_orientation_val(R.np.array([a, b]), R.np.array([b, c]), R.np.array([c, a]))
    E.prove(E.And(E.close(m[0], v), E.close(m[1], v)), 'batched value')


@harness('C21', bounds='any three points in [-100,100]^2, any offset of the third point along and off the segment, segment length at least '
         '0.1')
def between(E, R):
    cg = R.cg
    a = E.vec('a', -100, 100)
    w = E.vec('w', -100, 100)
    t, h = E.real('t', -3, 3), E.real('h', -1, 1)
    l2 = w[0] * w[0] + w[1] * w[1]
    E.assume(l2 >= 0.01)
    c = a + w
    b = R.np.array([a[0] + t * w[0] - h * w[1], a[1] + t * w[1] + h * w[0]])
    E.assume(E.Or(h == 0, h * h * l2 >= 1e-4))
    E.assume(E.Or(E.And(t >= 0, t <= 1), t >= 1.01, t <= -0.01))
    E.prove(E.Iff(cg.is_between(a, b, c), E.And(h == 0, t >= 0, t <= 1)), 'between exactly on the segment')


LINES = {'a': dict(p=[0., 0.], q=[1., 0.]), 'b': dict(p=[-1., 2.], q=[2., 0.5]), 'c': dict(p=[1., -1.], q=[1., 3.]),
         '+d': dict(p=[-3., -1.], q=[-3.5, -2.]), '+e': dict(p=[0.25, 0.5], q=[4., 4.])}


def on_line(E, z, a, b):
    k = cross(a, b, z)
    return E.And(k <= 1e-5, k >= -1e-5)


@harness('C21', params=LINES, bounds='a fixed first line, any second one with points in [-10,10]^2 (both orders)', tmo=6000)
def line_objects(E, R, p, q):
    cg = R.cg
    c, d = E.vec('c', -10, 10), E.vec('d', -10, 10)
    den = (q[0] - p[0]) * (d[1] - c[1]) - (q[1] - p[1]) * (d[0] - c[0])
    E.assume(E.Or(den >= 1e-4, den <= -1e-4, den == 0))
    P = lambda z: cg.Point(z[0], z[1])
    kind = E.choice('kind', 3)
    cls = [cg.Line, cg.LineSegment, cg.Ray][kind]
    m = ['line_intersection', 'line_segment_intersection', 'ray_intersection'][kind]
    s, o = cls(P(p), P(q)), cls(P(c), P(d))
    if E.boolean('swap'):
        s, o = o, s
    z = getattr(s, m)(o)
    if E.is_true(den == 0):
        E.prove(z is None, 'none for parallel lines')
        return
    # parameters of the crossing of the two lines, times den
    t = (c[0] - p[0]) * (d[1] - c[1]) - (c[1] - p[1]) * (d[0] - c[0])
    u = (c[0] - p[0]) * (q[1] - p[1]) - (c[1] - p[1]) * (q[0] - p[0])
    sg = 1 if E.is_true(den > 0) else -1
    if kind == 0:
        hit = E.And()
    elif kind == 1:
        hit = E.And(sg * t >= 0, sg * t <= sg * den, sg * u >= 0, sg * u <= sg * den)
    else:
        hit = E.And(sg * t >= 0, sg * u >= 0)
    E.prove(E.Iff(z is not None, hit), 'found exactly when they meet')
    if z is not None:
        E.prove(E.And(E.close((z[0] - p[0]) * den, t * (q[0] - p[0])), E.close((z[1] - p[1]) * den, t * (q[1] - p[1]))), 'on the first')
        E.prove(E.And(E.close((z[0] - c[0]) * den, u * (d[0] - c[0])), E.close((z[1] - c[1]) * den, u * (d[1] - c[1]))), 'on the second')


def frame(E, p, q, name, origin):
    """any point, by its coordinates along and across the line pq"""
    v = E.vec(name, -5, 5)
    w = [q[0] - p[0], q[1] - p[1]]
    return [origin[0] + p[0] + v[0] * w[0] - v[1] * w[1], origin[1] + p[1] + v[0] * w[1] + v[1] * w[0]]


@harness('C21', params=LINES, bounds='a first segment of fixed direction at any place, any second one with ends within five segment '
         'lengths, in general position (both orders)', tmo=6000)
def crossing(E, R, p, q):
    cg = R.cg
    np = R.np
    o = E.vec('o', -10, 10)
    c, d = np.array(frame(E, p, q, 'c', o)), np.array(frame(E, p, q, 'd', o))
    p, q = np.array([o[0] + p[0], o[1] + p[1]]), np.array([o[0] + q[0], o[1] + q[1]])
    for k in (cross(p, c, d), cross(q, c, d), cross(p, q, c), cross(p, q, d)):
        E.assume(E.Or(k >= 1e-4, k <= -1e-4))
    x = proper(E, p, q, c, d)
    P = lambda z: cg.Point(z[0], z[1])
    E.prove(E.Iff(cg.intersect(p, q, c, d), x), 'segments intersect')
    E.prove(E.Iff(cg.intersect(c, d, p, q), x), 'segments intersect')
    E.prove(E.Iff(cg.Line(P(p), P(q)).intersects(cg.Line(P(c), P(d))), x), 'line objects intersect')
    z = cg.get_intersection(c, d, p, q) if E.boolean('swap') else cg.get_intersection(p, q, c, d)
    E.prove(E.Iff(z is not None, x), 'found exactly when they cross')
    if z is not None:
        den = (q[0] - p[0]) * (d[1] - c[1]) - (q[1] - p[1]) * (d[0] - c[0])
        t = (c[0] - p[0]) * (d[1] - c[1]) - (c[1] - p[1]) * (d[0] - c[0])
        E.prove(E.And(E.close((z[0] - p[0]) * den, t * (q[0] - p[0])), E.close((z[1] - p[1]) * den, t * (q[1] - p[1]))), 'the crossing point')


@harness('C21', params=LINES, bounds='a fixed segment, one that ends anywhere on it, or runs along its line', tmo=6000)
def touching(E, R, p, q):
    cg = R.cg
    np = R.np
    p, q = np.array(p), np.array(q)
    t = E.real('t', 0.01, 0.99)
    z = p + t * (q - p)
    if E.boolean('along'):
        s = E.real('s', 1.01, 9)
        e = p + s * (q - p)
        r = cg.get_intersection(z, e, p, q) if E.boolean('swap') else cg.get_intersection(p, q, e, z)
        E.prove(r is not None, 'overlapping segments meet')
        E.prove(E.And(near_seg(E, r, p, q), near_seg(E, r, z, e)), 'reported point on both')
        f = cg.get_intersection(p, q, e, p + (s + 1) * (q - p))
        E.prove(f is None, 'separate segments on one line do not meet')
        return
    e = E.vec('e', -10, 10)
    k = cross(p, q, e)
    E.assume(E.Or(k >= 1e-4, k <= -1e-4))
    r = cg.get_intersection(e, z, p, q) if E.boolean('swap') else cg.get_intersection(p, q, z, e)
    E.prove(r is not None, 'a segment ending on another meets it')
    E.prove(E.vclose(r, z, 1e-5), 'at its end')


@harness('C21', bounds='any points in [-100,100]^2')
def helper_lines(E, R):
    cg = R.cg
    a, b, c = E.vec('a', -100, 100), E.vec('b', -100, 100), E.vec('c', -100, 100)
    E.assume(E.Or(a[0] - b[0] >= 0.01, b[0] - a[0] >= 0.01))
    l = list(cg.line(a, b).coords)
    E.prove(len(l) == 2, 'two ends')
    for (x, y), lo, hi in ((l[0], 0, 0.001), (l[1], 0.999, 1)):
        t = (x - a[0]) / (b[0] - a[0])
        E.prove(E.And(t > lo, t < hi), 'open segment just inside its ends')
        E.prove(E.close(y, a[1] + t * (b[1] - a[1]), 1e-5), 'on the segment')
    r = list(cg.ray(c, a, b).coords)
    E.prove(len(r) == 2, 'two ends')
    for (x, y), lo, hi in ((r[0], 0, 0.001), (r[1], 1000, 1e9)):
        t = (x - c[0]) / (b[0] - a[0])
        E.prove(E.And(t > lo, t < hi), 'ray starts just after its apex and is long')
        E.prove(E.close(y, c[1] + t * (b[1] - a[1]), 1e-3), 'ray follows the direction')


# ---------------------------------------------------------------- C15
def check_hull(E, out, pts, what=''):
    for v in out:
        E.prove(E.Or(*[E.vclose(v, p) for p in pts]), 'hull vertices are input points')
    n = len(out)
    area2 = 0
    for i in range(n):
        area2 = area2 + out[i][0] * out[(i + 1) % n][1] - out[i][1] * out[(i + 1) % n][0]
    for i in range(n):
        a, b, c = out[i - 1], out[i], out[(i + 1) % n]
        E.prove(E.Or(E.And(area2 >= -1e-6, cross(a, b, c) >= -1e-6), E.And(area2 <= 1e-6, cross(a, b, c) <= 1e-6)), 'always turning the same way')
        for p in pts:
            E.prove(E.Or(E.And(area2 >= -1e-6, cross(b, c, p) >= -1e-6), E.And(area2 <= 1e-6, cross(b, c, p) <= 1e-6)), 'contains every input point')
        for j in range(i):
            E.prove(E.Not(E.And(out[i][0] == out[j][0], out[i][1] == out[j][1])), 'no vertex twice')


BASE = {'tri': [[0., 0.], [2., 1.], [1., -1.]], 'square': [[0., 0.], [2., 0.], [2., 2.], [0., 2.]],
        'line': [[0., 0.], [1., 1.], [3., 3.]], 'inner': [[0., 0.], [4., 0.], [1., 3.], [1.5, 1.]],
        '+penta': [[0., 0.], [2., -1.], [3., 1.], [1.5, 2.5], [-0.5, 1.5]]}


def order(E, n, full):
    """a permutation, all of them (or all rotations of both directions)"""
    if not full:
        k = E.choice('first', n)
        r = [(k + i) % n for i in range(n)]
        return r[::-1] if E.boolean('backwards') else r
    rest, out = list(range(n)), []
    while len(rest) > 1:
        out.append(rest.pop(E.choice('pick%d' % len(out), len(rest))))
    return out + rest


@harness('C15', params={k: dict(base=k.strip('+')) for k in BASE}, bounds='fixed points plus one anywhere in [-6,6]^2, in every order (more than '
         'four: every rotation and reversal)')
def hull_of(E, R, base):
    B = BASE.get(base) or BASE['+' + base]
    x = E.vec('x', -6, 6)
    # away from the collinearity threshold of the orientation predicates
    for i in range(len(B)):
        for j in range(i):
            k = cross(B[i], B[j], x)
            E.assume(E.Or(k >= 1e-6, k <= -1e-6, k == 0))
    pts = B + [[x[0], x[1]]]
    pts = [pts[i] for i in order(E, len(pts), len(pts) <= 4)]
    out = R.cg.convex_hull(pts if E.boolean('list') else R.np.array(pts))
    E.prove(len(out) <= len(pts), 'no more vertices than points')
    check_hull(E, out, pts)


@harness('C15', params={'line': dict(free=False), '+free': dict(free=True)}, bounds='two fixed points and one on each of two fixed lines (thorough: both anywhere in [-6,6]^2), every rotation and reversal', tmo=6000)
def hull_two_free(E, R, free):
    if free:
        x, y = E.vec('x', -6, 6), E.vec('y', -6, 6)
    else:
        s, t = E.real('s', -6, 6), E.real('t', -6, 6)
        x, y = [0.75 + 0.25 * s, s], [t, 0.75 - 0.5 * t]
    pts = [[0., 0.], [1., 0.], [x[0], x[1]], [y[0], y[1]]]
    for i in range(4):
        for j in range(i):
            for l in range(j):
                k = cross(pts[i], pts[j], pts[l])
                E.assume(E.Or(k >= 1e-4, k <= -1e-4))
    pts = [pts[i] for i in order(E, 4, False)]
    check_hull(E, R.cg.convex_hull(pts), pts)


@harness('C15', params={k: dict(base=k.strip('+')) for k in BASE}, bounds='fixed points with a repeated one, scaled and moved anywhere, every '
         'order (more than four: every rotation and reversal)')
def hull_repeated(E, R, base):
    B = BASE.get(base) or BASE['+' + base]
    s, t = E.real('s', 0.1, 10), E.vec('t', -10, 10)
    pts = [[s * p[0] + t[0], s * p[1] + t[1]] for p in B]
    pts.append(list(pts[E.choice('repeated', len(B))]))
    pts = [pts[i] for i in order(E, len(pts), len(pts) <= 5)]
    out = R.cg.convex_hull(pts)
    E.prove(len(out) < len(pts), 'repeated point once')
    check_hull(E, out, pts)


LINE = {'down': (0., -1.), 'up': (0., 1.), 'east': (1., 0.), 'west': (-1., 0.), 'slope': (1., 0.5), '+back': (-0.5, -1.)}


@harness('C15', params={k: dict(line=k) for k in LINE}, bounds='four points on a line, one of them anywhere along it, and one beside it, in every order')
def hull_collinear(E, R, line):
    d = LINE[line]
    t = E.real('t', -6, 6)
    E.assume(E.And(*[E.Or(t - k >= 1e-3, k - t >= 1e-3) for k in (0, 1, 3)]))
    pts = [[d[0] * k, d[1] * k] for k in (0, 1, 3)] + [[d[0] * t, d[1] * t], [d[0] - 2 * d[1], d[1] + 2 * d[0]]]
    pts = [pts[i] for i in order(E, 5, True)]
    check_hull(E, R.cg.convex_hull(pts), pts)


MANY = {'seven': [[0., 0.], [3., -1.], [4., 1.], [2., 3.], [0.5, 2.5], [2., 1.]], 'eight': [[0., 0.], [3., -1.], [4., 1.], [4., 2.5], [2., 3.], [0.5, 2.5], [1.5, 1.25]],
        '+nine': [[0., 0.], [1., -1.], [3., -1.], [4., 1.], [4., 2.5], [2., 3.5], [0.5, 2.5], [1.5, 1.25]]}


@harness('C15', params={k: dict(base=k) for k in MANY}, bounds='six or seven (thorough: eight) fixed points plus one anywhere on a line across them, every rotation and reversal of their order')
def hull_many(E, R, base):
    B = MANY[base]
    t = E.real('t', -4, 8)
    x = [t, 0.25 * t + 0.7]
    for i in range(len(B)):
        for j in range(i):
            k = cross(B[i], B[j], x)
            E.assume(E.Or(k >= 1e-6, k <= -1e-6))
    pts = B + [[x[0], x[1]]]
    pts = [pts[i] for i in order(E, len(pts), False)]
    check_hull(E, R.cg.convex_hull(pts), pts)


@harness('C15', params={**{str(k): dict(scale=10. ** k) for k in (-3, 4)}, **{'+%d' % k: dict(scale=10. ** k) for k in (2, 6)}}, bounds='five points of which four are on a line, one anywhere along a line, at two (thorough: four) fixed scales, in every order (large scales: every rotation and reversal)')
def hull_scaled(E, R, scale):
    t = E.real('t', -2, 4)
    pts = [[0., 0.], [0.3, 0.1], [0.9, 0.3], [1.5, 0.5], [t, 2.]]
    pts = [[scale * p[0], scale * p[1]] for p in pts]
    pts = [pts[i] for i in order(E, 5, scale < 1)]
    out = R.cg.convex_hull(pts)
    check_hull(E, [[p[0] / scale, p[1] / scale] for p in out], [[p[0] / scale, p[1] / scale] for p in pts])


# ---------------------------------------------------------------- C27
@harness('C27', bounds='centroid in [-50,50]^2, side in [1e-6,1000], any angle in [-7,7]')
def triangle(E, R):
    c, s, rot = E.vec('c', -50, 50), E.real('s', 1e-6, 1000), E.real('rot', -7, 7)
    if E.boolean('default rotation'):
        t = R.cg.equilateral_triangle(c, s)
    else:
        t = R.cg.equilateral_triangle(c, s, rot)
        k, w = R.np.cos(rot), R.np.sin(rot)
        for p, q in zip(t, R.cg.equilateral_triangle([0., 0.], s)):
            E.prove(E.vclose(p, [c[0] + k * q[0] - w * q[1], c[1] + w * q[0] + k * q[1]]), 'the default triangle turned by the angle')
    E.prove(len(t) == 3, 'three points')
    for i in range(3):
        d = t[i] - t[i - 1]
        q = d[0] * d[0] + d[1] * d[1]
        E.prove(E.And(q <= s * s * 1.0001 + 1e-12, q >= s * s * 0.9999 - 1e-12), 'side length')
    E.prove(E.vclose((t[0] + t[1] + t[2]) / 3, c), 'mean is the centroid')


@harness('C27', bounds='every outcome of the two random numbers in [0,1], corners in [-10,10]^2')
def random_point(E, R):
    a, b, c = E.vec('a', -10, 10), E.vec('b', -10, 10), E.vec('c', -10, 10)
    x, y = R.cg.point_in_triangle(a, b, c)
    # solve for the weights in a fixed non-degenerate triangle, and check the same weights work for the free one
    k = cross(a, b, c)
    E.assume(E.Or(k >= 1e-3, k <= -1e-3))
    p = [x, y]
    w = [cross(b, c, p) / k, cross(c, a, p) / k, cross(a, b, p) / k]
    for v in w:
        E.prove(E.And(v >= -1e-6, v <= 1 + 1e-6), 'weights between zero and one')
    E.prove(E.close(w[0] + w[1] + w[2], 1), 'weights sum to one')


@harness('C27', bounds='every outcome of the two random numbers in [0,1]')
def random_point_axes(E, R):
    """with unit corners the coordinates are the weights themselves"""
    x, y = R.cg.point_in_triangle([1., 0.], [0., 1.], [0., 0.])
    E.prove(E.And(x >= 0, y >= 0, x + y <= 1 + 1e-9), 'a convex combination')
    z, _ = R.cg.point_in_triangle([0., 0.], [0., 0.], [1., 0.])
    E.prove(E.And(z >= -1e-9, z <= 1 + 1e-9), 'third weight')
