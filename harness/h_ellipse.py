from common import harness
from h_frames import put, turn

ALL = 'semi-axes in [0.2,20]'


def axes(E):
    return E.real('a', 0.2, 20), E.real('b', 0.2, 20)


def level(p, a, b):
    return (p[0] / a) * (p[0] / a) + (p[1] / b) * (p[1] / b)


def val(p, a, b):
    """positive outside, times (a b)^2"""
    return p[0] * p[0] * b * b + p[1] * p[1] * a * a - a * a * b * b


# ---------------------------------------------------------------- C04
@harness('C04', bounds=ALL + ', any point in [-50,50]^2')
def classify(E, R):
    F = R.Frame
    a, b = axes(E)
    pos, rot = E.vec('pos', -20, 20), E.real('rot', -3, 3)
    E.is_true(rot == 0)
    x = E.vec('x', -50, 50)
    o = R.Ellipse([a, b], motion_model=R.mm.Static(pos, rot))
    l = o.point_location(x, F.OBSTACLE)
    E.prove(E.close(o.point_location(R.np.array(put(R, pos, rot, x))), l), 'same value for the placed point')
    v = val(x, a, b)
    E.prove(E.Iff(l < 0, v < 0), 'negative exactly inside')
    E.prove(E.Iff(l > 0, v > 0), 'positive exactly outside')
    E.prove(E.close(l, level(x, a, b) - 1), 'value of the ellipse equation')
    E.prove(E.Iff(o.interior_point(x, F.OBSTACLE), v < 0), 'interior test')
    E.prove(E.Iff(o.exterior_point(x, F.OBSTACLE), v > 0), 'exterior test')
    if E.is_true(v == 0):
        E.prove(o.boundary_point(x, F.OBSTACLE), 'points of the ellipse are boundary points')
    elif E.is_true(E.Or(l > 0.001, l < -0.001)):
        E.prove(E.Not(o.boundary_point(x, F.OBSTACLE)), 'points off the ellipse are no boundary points')
    E.prove(o.is_convex() and o.is_starshaped(), 'an ellipse is convex and starshaped')


SHAPES = {'centred': dict(a=2., b=1., xr=[0., 0.]), 'off': dict(a=2., b=1., xr=[0.5, 0.25]), 'tall': dict(a=1., b=3., xr=[-0.25, 1.5]),
          'circle': dict(a=1.5, b=1.5, xr=[0., -0.75]), '+far': dict(a=2., b=1., xr=[1.5, 0.5]),
          '+flat': dict(a=8., b=0.5, xr=[-6., 0.125])}


def direction(E, name='u'):
    """every unit vector: rational parametrisation of the right half circle, and its negative"""
    u = E.real(name, -1, 1)
    sg = 1 if E.choice(name + ' half', 2) == 0 else -1
    n = 1 + u * u
    return [sg * (1 - u * u) / n, sg * 2 * u / n]


def ray_point(E, R, xr, lo=0.01, hi=30):
    """a point at distance r from xr: all points of the plane in that range of distances"""
    d = direction(E)
    r = E.real('r', lo, hi)
    return d, r, R.np.array([xr[0] + r * d[0], xr[1] + r * d[1]])


@harness('C04', params=SHAPES, bounds='fixed semi-axes and reference points, any query point at distance 0.01..30 from the reference '
         'point', tmo=4000)
def distance_level(E, R, a, b, xr):
    F = R.Frame
    d, r, x = ray_point(E, R, xr)
    o = R.Ellipse([a, b], xr=xr)
    f = o.distance_function(x, F.OBSTACLE)
    # radius of the ellipse in this direction: the positive root of A s^2 + 2 B s + C = 0 (C < 0)
    A = d[0] * d[0] * b * b + d[1] * d[1] * a * a
    B = d[0] * xr[0] * b * b + d[1] * xr[1] * a * a
    C = val(xr, a, b)
    s = (R.np.sqrt(B * B - A * C) - B) / A
    E.prove(E.close(f * s * s, r * r, 1e-4), 'squared ratio of the distances from the reference point to the point and the boundary')
    E.prove(f > 0, 'positive')


@harness('C04', bounds='any quadratic with positive leading and negative constant coefficient')
def level_lemma(E, R):
    """why the squared ratio is below one exactly inside: along a ray the ellipse equation has one positive root"""
    o = R.Ellipse([2., 1.])
    d = direction(E)
    r, s = E.real('r', 0, 30), E.real('s', 0.01, 30)
    xr = E.vec('xr', -2, 2)
    E.assume(o.point_location(xr, R.Frame.OBSTACLE) < 0)
    at = lambda t: o.point_location(R.np.array([xr[0] + t * d[0], xr[1] + t * d[1]]), R.Frame.OBSTACLE)
    E.assume(at(s) == 0)
    E.prove(E.Implies(r < s, at(r) < 0), 'inside before the boundary')


@harness('C04', params=SHAPES, bounds='fixed semi-axes and reference points, any ray, any two distances in 0.01..30', tmo=4000)
def distance_quadratic(E, R, a, b, xr):
    F = R.Frame
    d, r, x = ray_point(E, R, xr)
    k = E.real('k', 0.1, 10)
    y = R.np.array([xr[0] + k * r * d[0], xr[1] + k * r * d[1]])
    o = R.Ellipse([a, b], xr=xr)
    f = o.distance_function(x, F.OBSTACLE)
    g = o.distance_function(y, F.OBSTACLE)
    E.prove(E.close(g, k * k * f, 1e-3), 'grows quadratically along a ray')


# ---------------------------------------------------------------- C05
def seg_params():
    P = {}
    for n, (a, b) in {'wide': (2., 1.), 'tall': (1., 3.), '+circle': (1.5, 1.5), '+flat': (8., 0.5), '+thin': (0.25, 2.)}.items():
        for steep in (False, True):
            P[n + ('_steep' if steep else '_shallow')] = dict(a=a, b=b, steep=steep)
    return P


@harness('C05', params=seg_params(), bounds='fixed semi-axes; every segment whose ends have first coordinate in [-10,10] with '
         'slope in [-99,99] and intercept in [-1000,1000], or second coordinate in [-10,10] with inverse slope in [-0.01,0.01] '
         'and intercept in [-10,10], both directions; not a tangent and no end on the ellipse', tmo=4000, prove_tmo=30000)
def segment(E, R, a, b, steep):
    F = R.Frame
    m, c = (E.real('m', -0.01, 0.01), E.real('c', -10, 10)) if steep else (E.real('m', -99, 99), E.real('c', -1000, 1000))
    p, q = E.real('p', -10, 10), E.real('q', -10, 10)
    P = R.np.array([p, m * p + c]) if not steep else R.np.array([m * p + c, p])
    Q = R.np.array([q, m * q + c]) if not steep else R.np.array([m * q + c, q])
    A2, B2 = (a * a, b * b) if not steep else (b * b, a * a)
    # in the coordinate along the segment: (B2 + A2 m^2) t^2 + 2 A2 m c t + A2 (c^2 - B2) = 0
    K = B2 + A2 * m * m
    disc = K - c * c
    E.assume(disc != 0)
    f0, f1 = val(P, a, b), val(Q, a, b)
    E.assume(E.And(p != q, f0 != 0, f1 != 0))
    o = R.Ellipse([a, b])
    out = o.line_intersection([P, Q], F.OBSTACLE, F.OBSTACLE)
    n = len(out)
    E.prove(n <= 2, 'at most two')
    i = 1 if steep else 0
    for z in out:
        E.prove(E.close(val(z, a, b), 0, 1e-5), 'on the ellipse')
        E.prove(E.close(z[1 - i], m * z[i] + c), 'on the line')
        E.prove(E.Or(E.And(z[i] >= p - 1e-6, z[i] <= q + 1e-6), E.And(z[i] >= q - 1e-6, z[i] <= p + 1e-6)), 'within the segment')
    in0, in1 = f0 < 0, f1 < 0
    mid = -A2 * m * c / K
    through = E.And(disc > 0, E.Or(E.And(p < mid, mid < q), E.And(q < mid, mid < p)))
    if n == 0:
        E.prove(E.Or(E.And(in0, in1), E.And(f0 > 0, f1 > 0, E.Not(through))), 'nothing missed')
    elif n == 1:
        E.prove(E.Or(E.And(in0, E.Not(in1)), E.And(in1, E.Not(in0))), 'one crossing only for one end inside')
    else:
        E.prove(E.And(f0 > 0, f1 > 0, through), 'two crossings only when passing through')
        d = out[0][i] - out[1][i]
        E.prove(E.close(d * d, 4 * A2 * B2 * disc / (K * K)), 'both crossings of the line')


@harness('C05', params={'h': dict(a=2., b=1., vert=False), 'v': dict(a=2., b=1., vert=True)},
         bounds='axis-parallel segments incl. tangents and ends on the ellipse, ends in [-10,10]', tmo=4000)
def axis_parallel(E, R, a, b, vert):
    F = R.Frame
    c, p, q = E.real('c', -10, 10), E.real('p', -10, 10), E.real('q', -10, 10)
    P, Q = (R.np.array([c, p]), R.np.array([c, q])) if vert else (R.np.array([p, c]), R.np.array([q, c]))
    o = R.Ellipse([a, b])
    out = o.line_intersection([P, Q], F.OBSTACLE, F.OBSTACLE)
    lo, hi = R.np.minimum(p, q), R.np.maximum(p, q)
    E.assume(hi - lo >= 0.001)
    i = 1 if vert else 0
    half = a if vert else b
    for z in out:
        E.prove(E.close(val(z, a, b), 0, 1e-5), 'on the ellipse')
        E.prove(E.And(E.close(z[1 - i], c), z[i] >= lo - 1e-6, z[i] <= hi + 1e-6), 'on the segment')
    if E.is_true(E.Or(c > half, c < -half)):
        E.prove(len(out) == 0, 'nothing beyond the ellipse')
    elif E.is_true(E.Or(c == half, c == -half)):
        E.prove(len(out) == (1 if E.is_true(E.And(lo <= 0, 0 <= hi)) else 0), 'a tangent touches once, within the segment')


@harness('C05', bounds='degenerate segment: both ends equal, anywhere in [-10,10]^2')
def degenerate(E, R):
    F = R.Frame
    x = E.vec('x', -10, 10)
    E.assume(E.Or(val(x, 2, 1) >= 0.001, val(x, 2, 1) <= -0.001))
    o = R.Ellipse([2., 1.])
    E.prove(len(o.line_intersection([x, x], F.OBSTACLE, F.OBSTACLE)) == 0, 'a point off the ellipse meets it nowhere')


@harness('C05', params={'g': {}}, bounds='semi-axes in [0.2,20], horizontal and vertical chords at any offset')
def chord_any_axes(E, R):
    F = R.Frame
    a, b = axes(E)
    c = E.real('c', -0.9, 0.9)
    vert = E.boolean('vert')
    o = R.Ellipse([a, b])
    P, Q = ([c * a, -30], [c * a, 30]) if vert else ([-30, c * b], [30, c * b])
    out = o.line_intersection([R.np.array(P), R.np.array(Q)], F.OBSTACLE, F.OBSTACLE)
    E.prove(len(out) == 2, 'a chord crosses twice')
    for z in out:
        E.prove(E.close(level(z, a, b), 1), 'on the ellipse')


# ---------------------------------------------------------------- C06
TSH = {'wide': dict(a=2., b=1.), 'tall': dict(a=1., b=3.), 'flat': dict(a=8., b=0.5), '+circle': dict(a=1.5, b=1.5), '+thin': dict(a=0.25, b=2.)}


@harness('C06', params=TSH, bounds='fixed semi-axes, any point in [-20,20]^2', tmo=8000)
def tangent(E, R, a, b):
    F = R.Frame
    x = E.vec('x', -20, 20)
    v = val(x, a, b)
    E.assume(E.Or(v <= 0, v >= 1e-6))
    o = R.Ellipse([a, b])
    t = o.tangent_points(x, F.OBSTACLE, F.OBSTACLE)
    if E.is_true(v <= 0):
        E.prove(len(t) == 0, 'none from inside')
        return
    E.prove(len(t) == 2, 'two from outside')
    for p in t:
        E.prove(E.close(val(p, a, b), 0), 'on the ellipse')
        E.prove(E.close(p[0] * x[0] * b * b + p[1] * x[1] * a * a, a * a * b * b), 'line of sight touches')
    d0, d1 = t[0] - x, t[1] - x
    E.prove(d0[1] * x[0] - d0[0] * x[1] < 0, 'centre clockwise of the first')
    E.prove(d1[1] * x[0] - d1[0] * x[1] > 0, 'centre counter-clockwise of the second')


@harness('C06', bounds='semi-axes in [0.2,20], any point in [-40,40]^2', tmo=8000)
def tangent_any_axes(E, R):
    F = R.Frame
    a, b = axes(E)
    q = E.vec('q', -2, 2)
    E.assume(q[0] * q[0] + q[1] * q[1] >= 1.001)
    x = R.np.array([q[0] * a, q[1] * b])
    o = R.Ellipse([a, b])
    t = o.tangent_points(x, F.OBSTACLE, F.OBSTACLE)
    E.prove(len(t) == 2, 'two from outside')
    for p in t:
        l = level(p, a, b)
        E.prove(E.close(l, 1), 'on the ellipse')
        E.prove(E.close(p[0] / a * q[0] + p[1] / b * q[1], 1), 'line of sight touches')


@harness('C06', params=TSH, bounds='fixed semi-axes and viewpoints, any point of the ellipse', tmo=10000)
def brackets_ellipse(E, R, a, b):
    F = R.Frame
    p = [[2.5, 0.], [0., 4.], [-3., 3.], [1.25, -3.5], [-0.25, -1.25], [4.5, 0.25]][E.choice('x', 6)]
    x = R.np.array([p[0] * a, p[1] * b])
    u = direction(E)
    e = [a * u[0], b * u[1]]
    t = R.Ellipse([a, b]).tangent_points(x, F.OBSTACLE, F.OBSTACLE)
    E.prove(len(t) == 2, 'two from outside')
    d0, d1 = t[0] - x, t[1] - x
    E.prove(d0[0] * (e[1] - x[1]) - d0[1] * (e[0] - x[0]) <= 1e-6, 'every ellipse point clockwise of the first')
    E.prove(d1[0] * (e[1] - x[1]) - d1[1] * (e[0] - x[0]) >= -1e-6, 'every ellipse point counter-clockwise of the second')


# ---------------------------------------------------------------- C07
@harness('C07', params=SHAPES, bounds='fixed semi-axes and reference points, any query point at distance 0.01..30 from the reference '
         'point', tmo=6000)
def radial(E, R, a, b, xr):
    F = R.Frame
    d, r, x = ray_point(E, R, xr)
    o = R.Ellipse([a, b], xr=xr)
    p = o.boundary_mapping(x, F.OBSTACLE, F.OBSTACLE)
    E.prove(p is not None, 'always a projection')
    w = [p[0] - xr[0], p[1] - xr[1]]
    E.prove(E.close(val(p, a, b), 0, 1e-5), 'on the ellipse')
    E.prove(E.close(w[0] * d[1] - w[1] * d[0], 0), 'on the line through the reference point')
    E.prove(w[0] * d[0] + w[1] * d[1] > 0, 'on the side of the given point')
    n = o.normal(x, F.OBSTACLE, F.OBSTACLE)
    E.prove(E.close(n[0] * n[0] + n[1] * n[1], 1), 'unit normal')
    g = [p[0] / (a * a), p[1] / (b * b)]
    E.prove(E.close(n[0] * g[1] - n[1] * g[0], 0), 'orthogonal to the boundary')
    E.prove(n[0] * g[0] + n[1] * g[1] > 0, 'outward')


@harness('C07', bounds='semi-axes in [0.2,20], any boundary point', tmo=6000)
def normal_on_boundary(E, R):
    F = R.Frame
    a, b = axes(E)
    u = direction(E)
    p = R.np.array([a * u[0], b * u[1]])
    o = R.Ellipse([a, b])
    n = o.normal(p, F.OBSTACLE, F.OBSTACLE, x_is_boundary=True)
    E.prove(E.close(n[0] * n[0] + n[1] * n[1], 1), 'unit normal')
    g = [p[0] / (a * a), p[1] / (b * b)]
    E.prove(E.close(n[0] * g[1] - n[1] * g[0], 0), 'orthogonal to the boundary')
    E.prove(n[0] * g[0] + n[1] * g[1] > 0, 'outward')
