from common import harness

SMALL = 'positions and points in [-20,20]^2'


def vec_free(E, n, lo=-20, hi=20):
    return E.vec(n, lo, hi)


def build(E, R, kind):
    """any model of a kind, with the arrays given to its constructor"""
    np = R.np
    p = E.vec('p', -20, 20)
    given = np.array([p[0], p[1]])
    if kind == 'static':
        return R.mm.Static(given, E.real('rot', -3, 3)), given, p
    if kind == 'sine':
        return R.mm.SinusVelocity(given, E.real('rot', -3, 3), True, E.real('m1', -5, 5), 2.5, E.real('m2', -5, 5), 4.), given, p
    if kind == 'body':
        return R.mm.SinusVelocity(given, E.real('rot', -3, 3), False, E.real('m1', -5, 5), 2.5, E.real('m2', -5, 5), 4.), given, p
    a, b = E.vec('a', -20, 20), E.vec('b', -20, 20)
    if kind == 'interval':
        return R.mm.Interval(given, [(E.real('t1', 0.1, 5), a), (E.real('t2', 0.1, 5), b)]), given, p
    return R.mm.Waypoints(given, [a, b], E.real('v', 0, 5), 0.25), given, p


@harness('C22', params={k: dict(kind=k) for k in ('static', 'sine', 'body', 'interval', 'way')}, bounds=SMALL + ', any velocities, a position '
         'set by the caller in between, two steps of any length in [0,3]', tmo=6000)
def integrates(E, R, kind):
    np = R.np
    m, given, p = build(E, R, kind)
    for i in range(2):
        if i == 1 and kind == 'interval':
            E.assume(m._t >= 0)
        q, r, t = [m.pos()[0], m.pos()[1]], m.rot(), m._t
        dt = E.real('dt%d' % i, 0, 3)
        v, w = m.lin_vel(), m.rot_vel()
        v = [v[0], v[1]]
        m.move(None, dt)
        E.prove(E.vclose(m.pos(), [q[0] + v[0] * dt, q[1] + v[1] * dt]), 'position moves by the velocity')
        E.prove(E.close(m.rot(), r + w * dt), 'angle moves by the angular velocity')
        E.prove(E.close(m._t, t + dt), 'time advances')
        E.prove(E.vclose(given, p), 'array given to the constructor unchanged')
        if kind == 'static':
            E.prove(E.vclose(m.pos(), q), 'static model stays')
            E.prove(E.close(m.rot(), r), 'static model does not turn')
        if i == 0:
            s = E.vec('s', -20, 20)
            mine = np.array([s[0], s[1]])
            m.set_pos(mine)
            m.set_rot(E.real('rot1', -3, 3))
            E.prove(E.vclose(m.pos(), s), 'position set')
            p2 = mine
        else:
            E.prove(E.vclose(p2, s), 'array given to the setter unchanged')


@harness('C22', bounds='no position given: starts at the origin; integers accepted')
def defaults(E, R):
    for m in (R.mm.Static(), R.mm.SinusVelocity(x1_mag=E.real('m', -5, 5)), R.mm.Static([1, 2]), R.mm.SinusVelocity([1, 2], x1_mag=E.real('k', -5, 5))):
        q = [m.pos()[0], m.pos()[1]]
        E.prove(E.Or(E.vclose(q, [0, 0]), E.vclose(q, [1, 2])), 'start position')
        E.prove(E.close(m.rot(), 0), 'start angle')
        v = m.lin_vel()
        dt = E.real('dt', 0, 3)
        m.move(None, dt)
        E.prove(E.vclose(m.pos(), [q[0] + v[0] * dt, q[1] + v[1] * dt]), 'moves by its velocity')
    a, b = R.mm.Static(), R.mm.SinusVelocity(x1_mag=1.)
    b.move(None, E.real('dt2', 0, 3))
    E.prove(E.vclose(a.pos(), [0, 0]), 'models do not share their position')


PERIODS = {'2': dict(p1=2., p2=3.), '0': dict(p1=0, p2=2.), '00': dict(p1=1.5, p2=0), '+half': dict(p1=0.5, p2=10.)}


@harness('C22', params=PERIODS, bounds='any magnitudes in [-5,5], angle and three steps in [0,3], fixed periods (zero: constant velocity), both '
         'coordinate conventions')
def sinusoidal(E, R, p1, p2):
    np = R.np
    m1, m2, rot = E.real('m1', -5, 5), E.real('m2', -5, 5), E.real('rot', -3, 3)
    cart = E.boolean('cartesian')
    m = R.mm.SinusVelocity([1., 2.], rot, cart, m1, p1, m2, p2)
    t = 0
    for i in range(3):
        c1 = np.cos(2 * np.pi / p1 * t) if p1 else 1
        c2 = np.cos(2 * np.pi / p2 * t) if p2 else 1
        v, w = m.lin_vel(), m.rot_vel()
        if cart:
            E.prove(E.vclose(v, [m1 * c1, m2 * c2]), 'cosine velocity along both axes')
            E.prove(E.close(w, 0), 'no turning')
        else:
            r = m.rot()
            E.prove(E.vclose(v, [np.cos(r) * m1 * c1, np.sin(r) * m1 * c1]), 'cosine velocity along the heading')
            E.prove(E.close(w, m2 * c2), 'cosine angular velocity')
        d = E.real('d%d' % i, 0, 3)
        m.move(None, d)
        t = t + d


@harness('C22', params={'2': dict(n=2), '3': dict(n=3), '+4': dict(n=4)}, bounds='any points in [-20,20]^2, two or three intervals of length '
         'in [0.1,5], each covered in one or two steps, and one or two further steps')
def interval(E, R, n):
    pts = [E.vec('p%d' % i, -20, 20) for i in range(n + 1)]
    T = [E.real('t%d' % i, 0.1, 5) for i in range(n)]
    m = R.mm.Interval(pts[0], [(T[i], pts[i + 1]) for i in range(n)])
    for i in range(n):
        f = 0
        if E.boolean('split%d' % i):
            f = E.choice('where%d' % i, 2) * 0.5 + 0.25
            m.move(None, T[i] * f)
            E.prove(E.vclose(m.pos(), [pts[i][j] + f * (pts[i + 1][j] - pts[i][j]) for j in (0, 1)]), 'uniform motion between points')
        m.move(None, T[i] - f * T[i])
        E.prove(E.vclose(m.pos(), pts[i + 1]), 'at each point at its time')
    for i in range(2):
        m.move(None, E.real('after%d' % i, 0, 5))
        E.prove(E.vclose(m.pos(), pts[n]), 'rests at the last point')
    E.prove(E.close(m.rot(), 0), 'does not turn')


@harness('C22', params={'1': dict(n=1), '2': dict(n=2), '+3': dict(n=3)}, bounds='any waypoints in [-20,20]^2, speed in [0.1,5], threshold in '
         '[0.05,1], any position when asked', tmo=6000)
def waypoints(E, R, n):
    """the state after reaching k waypoints, then anywhere"""
    np = R.np
    pts = [E.vec('p%d' % i, -20, 20) for i in range(n + 1)]
    v, th = E.real('v', 0.1, 5), E.real('th', 0.05, 1)
    m = R.mm.Waypoints(pts[0], pts[1:], v, th)
    k = 0
    for step in range(n + 1):
        q = [m.pos()[0], m.pos()[1]]
        # next waypoint not within reach, in order
        while k <= n:
            d = [pts[k][0] - q[0], pts[k][1] - q[1]]
            d2 = d[0] * d[0] + d[1] * d[1]
            if not E.is_true(d2 < th * th):
                break
            k += 1
        u = m.lin_vel()
        if k > n:
            E.prove(E.vclose(u, [0, 0]), 'stops after the last waypoint')
            m.move(None, E.real('dt%d' % step, 0, 3))
            E.prove(E.vclose(m.pos(), q), 'stays after the last waypoint')
            return
        E.prove(E.close(u[0] * u[0] + u[1] * u[1], v * v), 'moves at the given speed')
        E.prove(E.close(u[0] * d[1], u[1] * d[0]), 'straight to the next waypoint')
        E.prove(u[0] * d[0] + u[1] * d[1] > 0, 'towards the next waypoint')
        E.prove(E.close(m.rot_vel(), 0), 'does not turn')
        if E.boolean('reach%d' % step):
            m.set_pos(pts[k])
        else:
            m.set_pos(E.vec('q%d' % step, -20, 20))


@harness('C22', bounds='two waypoints in general direction, one step exactly onto the waypoint or anywhere before it')
def waypoint_steps(E, R):
    L = E.real('L', 1, 20)
    f = E.real('f', 0, 1)
    v = E.real('v', 0.1, 5)
    m = R.mm.Waypoints([1., 1.], [[1. + 0.6 * L, 1. + 0.8 * L], [1. + 0.6 * L, 3.]], v, 0.25)
    m.move(None, f * L / v)
    E.prove(E.vclose(m.pos(), [1 + 0.6 * L * f, 1 + 0.8 * L * f]), 'on the way to the waypoint')
    E.assume(E.Or(L - f * L >= 0.2501, L - f * L <= 0.2499))
    u = m.lin_vel()
    if E.is_true(L - f * L >= 0.25):
        E.prove(E.vclose(u, [0.6 * v, 0.8 * v]), 'still heading there')
    else:
        E.prove(u[1] * (3 - m.pos()[1]) + u[0] * (1 + 0.6 * L - m.pos()[0]) >= 0, 'heading on or stopped')
