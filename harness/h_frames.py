from common import harness


def put(R, pos, rot, p):
    c, s = R.np.cos(rot), R.np.sin(rot)
    return [pos[0] + c * p[0] - s * p[1], pos[1] + s * p[0] + c * p[1]]


def turn(R, rot, p):
    c, s = R.np.cos(rot), R.np.sin(rot)
    return [c * p[0] - s * p[1], s * p[0] + c * p[1]]


TRI = [[0., 0.], [2., 0.], [0.5, 1.5]]
DART = [[0., 0.], [3., -1.], [1., 0.25], [2., 3.]]


def make(R, kind, mm):
    if kind == 'ellipse':
        return R.Ellipse([2., 1.], motion_model=mm, n_pol=4)
    if kind == 'polygon':
        return R.Polygon(TRI, motion_model=mm)
    if kind == 'dart':
        return R.Polygon(DART, motion_model=mm)
    if kind == 'star':
        return R.StarshapedPolygon(DART, xr=[0.5, 0.125], motion_model=mm)
    if kind == 'tri':
        return R.StarshapedPolygon(TRI, xr=[0.5, 0.5], motion_model=mm)
    raise ValueError(kind)


# ---------------------------------------------------------------- C01
@harness('C01', params={k: dict(kind=k) for k in ('ellipse', 'polygon', 'star')},
         bounds='any pose and point with coordinates in [-50,50], any angle in [-10,10]',
         assumes=['rotation enters only through its cosine and sine'])
def transform_roundtrip(E, R, kind):
    F = R.Frame
    pos = E.vec('pos', -50, 50)
    rot = E.real('rot', -10, 10)
    x = E.vec('x', -50, 50)
    y = E.vec('y', -50, 50)
    mm = R.mm.Static(pos, rot)
    o = make(R, kind, mm)
    g = o.transform(x, F.OBSTACLE, F.GLOBAL)
    back = o.transform(g, F.GLOBAL, F.OBSTACLE)
    E.prove(E.vclose(back, x), 'global->obstacle inverts obstacle->global')
    l = o.transform(x, F.GLOBAL, F.OBSTACLE)
    E.prove(E.vclose(o.transform(l, F.OBSTACLE, F.GLOBAL), x), 'obstacle->global inverts global->obstacle')
    h = o.transform(y, F.OBSTACLE, F.GLOBAL)
    d0, d1 = x - y, g - h
    E.prove(E.close(d0[0] * d0[0] + d0[1] * d0[1], d1[0] * d1[0] + d1[1] * d1[1]), 'distances preserved')
    E.prove(E.vclose(g, put(R, pos, rot, x)), 'pose is position plus ccw rotation')
    E.prove(E.vclose(put(R, pos, rot, l), x), 'world point is the placed own-frame point')
    # directions
    u = o.rotate(x, F.OBSTACLE, F.GLOBAL)
    E.prove(E.vclose(u, turn(R, rot, x)), 'direction rotated by the angle, not translated')
    E.prove(E.vclose(o.rotate(u, F.GLOBAL, F.OBSTACLE), x), 'direction mapping inverts')
    v = o.rotate(x, F.GLOBAL, F.OBSTACLE)
    E.prove(E.vclose(turn(R, rot, v), x), 'direction mapped into the obstacle frame')
    for f in (F.GLOBAL, F.OBSTACLE):
        E.prove(E.vclose(o.transform(x, f, f), x), 'same frame is identity')
        E.prove(E.vclose(o.rotate(x, f, f), x), 'same frame is identity for directions')
    E.prove(E.vclose(o.pos(), pos), 'position reported')
    E.prove(E.close(o.rot(), rot), 'angle reported')
    E.prove(E.vclose(o.pos(F.OBSTACLE), [0, 0]), 'own-frame position is the origin')
    E.prove(E.close(o.rot(F.OBSTACLE), 0), 'own-frame angle is zero')
    if kind != 'polygon':
        xr = o.xr(F.OBSTACLE)
        E.prove(E.vclose(o.xr(), put(R, pos, rot, xr)), 'reference point placed by the pose')
        o.set_xr(g, input_frame=F.GLOBAL)
        E.prove(E.vclose(o.xr(F.OBSTACLE), x), 'reference point set in the world frame')


@harness('C01', params={k: dict(kind=k) for k in ('ellipse', 'polygon', 'star')},
         bounds='any point with coordinates in [-50,50]')
def no_pose(E, R, kind):
    F = R.Frame
    x = E.vec('x', -50, 50)
    o = make(R, kind, None)
    for a in (F.GLOBAL, F.OBSTACLE):
        for b in (F.GLOBAL, F.OBSTACLE):
            E.prove(E.vclose(o.transform(x, a, b), x), 'no pose: transform is identity')
            E.prove(E.vclose(o.rotate(x, a, b), x), 'no pose: rotate is identity')
        E.prove(E.vclose(o.pos(a), [0, 0]), 'no pose: origin')
        E.prove(E.close(o.rot(a), 0), 'no pose: zero angle')
    if kind != 'polygon':
        E.prove(E.vclose(o.xr(), o.xr(F.OBSTACLE)), 'no pose: one reference point')


@harness('C01', bounds='coordinates in [-50,50], angle in [-10,10]')
def affine(E, R):
    t = E.vec('t', -50, 50)
    a = E.real('a', -10, 10)
    x = E.vec('x', -50, 50)
    f = R.utils.affine_transform(x, a, t)
    E.prove(E.vclose(f, put(R, t, a, x)), 'forward map')
    E.prove(E.vclose(R.utils.affine_transform(f, a, t, inverse=True), x), 'inverse map undoes it')
    b = R.utils.affine_transform(x, a, t, inverse=True)
    E.prove(E.vclose(put(R, t, a, b), x), 'inverse map')
    # batched form: one row per coordinate
    y = E.vec('y', -50, 50)
    m = R.np.array([[x[0], y[0]], [x[1], y[1]]])
    fm = R.utils.affine_transform(m, a, t)
    E.prove(E.vclose([fm[0, 1], fm[1, 1]], put(R, t, a, y)), 'batched forward map')


# ---------------------------------------------------------------- C02
def ring(g):
    return [(p[0], p[1]) for p in g.exterior.coords]


def same_ring(E, R, g, own, pos, rot, what):
    a, b = ring(g), ring(own)
    E.prove(len(a) == len(b), what + ': vertex count')
    for p, q in zip(a, b):
        E.prove(E.vclose(p, put(R, pos, rot, q)), what)


def hist_params():
    P = {}
    for k in ('ellipse', 'polygon', 'star', 'tri'):
        P[k] = dict(kind=k, n=3)
        P['+4_' + k] = dict(kind=k, n=4)
    return P


@harness('C02', params=hist_params(), bounds='every sequence of 3 (thorough: 4) operations out of: query polygon, query kernel, '
         'set position, set angle, replace the pose, move one step (any velocity); any pose', weight=3)
def pose_history(E, R, kind, n):
    F = R.Frame
    pos = E.vec('pos0', -20, 20)
    rot = E.real('rot0', -3, 3)
    m = R.mm.SinusVelocity(pos, rot, cartesian_coords=True, x1_mag=E.real('v1', -2, 2), x2_mag=E.real('v2', -2, 2))
    o = make(R, kind, m)
    own = None
    for i in range(n):
        op = E.choice('op%d' % i, 6)
        if op == 0:
            o.polygon()
        elif op == 1:
            if kind == 'polygon':
                o.polygon(F.OBSTACLE)
            else:
                o.kernel()
        elif op == 2:
            m.set_pos(E.vec('pos%d' % (i + 1), -20, 20))
        elif op == 3:
            m.set_rot(E.real('rot%d' % (i + 1), -3, 3))
        elif op == 4:
            m = R.mm.Static(E.vec('pos%d' % (i + 1), -20, 20), E.real('rot%d' % (i + 1), -3, 3))
            o.set_motion_model(m)
        else:
            o.move(E.real('dt%d' % i, 0, 1))
        if own is None and op in (0, 1):
            own = ring(o.polygon(F.OBSTACLE))
    p, r = m.pos(), m.rot()
    if own is not None:
        now = ring(o.polygon(F.OBSTACLE))
        E.prove(len(now) == len(own), 'own-frame polygon unchanged')
        for a, b in zip(own, now):
            E.prove(E.vclose(a, b), 'own-frame polygon unchanged')
    same_ring(E, R, o.polygon(), o.polygon(F.OBSTACLE), p, r, 'world polygon is the own polygon at the current pose')
    if kind != 'polygon':
        same_ring(E, R, o.kernel(), o.kernel(F.OBSTACLE), p, r, 'world kernel is the own kernel at the current pose')
    same_ring(E, R, o.polygon(), o.polygon(F.OBSTACLE), p, r, 'world polygon again')
    if kind == 'polygon' or kind == 'tri':
        a = [(float(q[0]), float(q[1])) for q in ring(o.polygon(F.OBSTACLE))[:-1]]
        E.prove(sorted(a) == sorted((q[0], q[1]) for q in TRI), 'own polygon is the given one')


@harness('C02', bounds='two axis-aligned squares, any positions in [-20,20], query before and after a move', weight=2)
def intersects_follows_pose(E, R):
    sq = [[-1, -1], [1, -1], [1, 1], [-1, 1]]
    p, q, v = E.vec('p', -20, 20), E.vec('q', -20, 20), E.vec('v', -20, 20)
    m = R.mm.Static(p, 0.)
    a = R.Polygon(sq, motion_model=m)
    b = R.Polygon(sq, motion_model=R.mm.Static(q, 0.))
    np = R.np

    def expect(u, w):
        d0, d1 = np.abs(u[0] - w[0]), np.abs(u[1] - w[1])
        return E.And(d0 <= 2, d1 <= 2), E.And(E.Or(d0 <= 1.999999, d0 >= 2.000001), E.Or(d1 <= 1.999999, d1 >= 2.000001))
    yes, clear = expect(p, q)
    E.assume(clear)
    E.prove(E.Iff(a.intersects(b), yes), 'intersection test before moving')
    m.set_pos(v)
    yes, clear = expect(v, q)
    E.assume(clear)
    E.prove(E.Iff(a.intersects(b), yes), 'intersection test after moving')
    E.prove(E.Iff(b.intersects(a), yes), 'intersection test is symmetric')


@harness('C02', params={k: dict(kind=k) for k in ('ellipse', 'polygon', 'star')}, bounds='any query frame order')
def no_pose_geometry(E, R, kind):
    F = R.Frame
    o = make(R, kind, None)
    z = E.real('z', 0, 1)
    if E.boolean('world first'):
        g, l = o.polygon(), o.polygon(F.OBSTACLE)
    else:
        l, g = o.polygon(F.OBSTACLE), o.polygon()
    same_ring(E, R, g, l, [0, 0], 0, 'no pose: one polygon')
    if kind != 'polygon':
        same_ring(E, R, o.kernel(), o.kernel(F.OBSTACLE), [0, 0], 0, 'no pose: one kernel')


@harness('C02', bounds='ellipse with any semi-axes in [0.1,50], 4 or 5 polygon vertices')
def ellipse_polygon(E, R):
    n = 4 + E.choice('n', 2)
    a, b = E.real('a', 0.1, 50), E.real('b', 0.1, 50)
    o = R.Ellipse([a, b], n_pol=n)
    pts = ring(o.polygon())
    E.prove(len(pts) == n + 1, 'polygon has the requested number of vertices')
    for x, y in pts:
        E.prove(E.And((x / a) * (x / a) + (y / b) * (y / b) >= 1, E.close((x / (a + 0.001)) * (x / (a + 0.001)) + (y / (b + 0.001)) * (y / (b + 0.001)), 1)),
                'polygon vertices lie on the slightly enlarged ellipse')
