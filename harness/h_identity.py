from common import harness
from shapes import *
from h_frames import make, put, ring as coords

KINDS = ('ellipse', 'polygon', 'star')
NEW, TEMP, BAD = ('new', 'n'), ('temporary', 'temp', 't'), (0, -1, -7, 'foo', None, 2.5)


def pose(E, R, n):
    return R.mm.Static(E.vec('pos' + n, -20, 20), E.real('rot' + n, -3, 3))


def build(R, kind, mm, id):
    if kind == 'ellipse':
        return R.Ellipse([2., 1.], xr=[0.5, 0.25], motion_model=mm, n_pol=4, id=id)
    if kind == 'polygon':
        return R.Polygon(T['dart']['ring'], motion_model=mm, id=id)
    return R.StarshapedPolygon(T['dart']['ring'], xr=[0.5, 0.125], motion_model=mm, id=id)


# ---------------------------------------------------------------- C24
@harness('C24', params={k: dict(kind=k) for k in KINDS}, bounds='any number of identifiers already used (6 to 1000), two '
         'constructions with any kind of identifier argument')
def fresh(E, R, kind):
    O = R.Obstacle
    K = E.integer('K', 6, 1000)
    O.id_counter = K
    top, ids = K, []
    for i in range(2):
        c = E.choice('kind%d' % i, 4)
        if c == 0:
            o = build(R, kind, None, NEW[E.choice('new%d' % i, len(NEW))])
            top = top + 1
            E.prove(o.id() == top, 'fresh increasing identifier')
        elif c == 1:
            o = build(R, kind, None, TEMP[E.choice('temp%d' % i, len(TEMP))])
            E.prove(o.id() is None, 'temporary obstacles have none')
        elif c == 2:
            o = build(R, kind, None, BAD[E.choice('bad%d' % i, len(BAD))])
            E.prove(o.id() is None, 'invalid identifiers are not assigned')
        else:
            k = E.integer('int%d' % i, -5, 1200)
            o = build(R, kind, None, k)
            if o.id() is None:
                E.prove(E.Or(k <= 0, top < k), 'identifiers in use can be given again')
            else:
                E.prove(E.And(o.id() == k, k > 0, top >= k), 'only identifiers in use are assigned')
        E.prove(O.id_counter == top, 'only new obstacles use up identifiers')


@harness('C24', params={k: dict(kind=k) for k in KINDS}, bounds='any number of identifiers already used, any pose, a copy with any kind of '
         'identifier argument, changed afterwards in any of the ways offered')
def copies(E, R, kind):
    F = R.Frame
    O = R.Obstacle
    K = E.integer('K', 6, 1000)
    O.id_counter = K
    m = pose(E, R, '0')
    o = build(R, kind, m, 'new')
    if E.boolean('polygon first'):
        o.polygon()
    if kind == 'star' and E.boolean('new reference'):
        o.set_xr(R.np.array([0.75, 0.25]))
    c = E.choice('id', 5)
    if c == 0:
        d = o.copy()
    elif c == 1:
        d = o.copy('temporary', None)
    elif c == 2:
        d = o.copy('duplicate', None)
    elif c == 3:
        d = o.copy('d', 'a name')
    else:
        d = o.copy('new', 'a name')
    if c < 2:
        E.prove(d.id() is None, 'copies are temporary by default')
    elif c < 4:
        E.prove(d.id() == K + 1, 'duplicates keep the identifier')
    else:
        E.prove(d.id() == K + 2, 'new copies get a fresh identifier')
    E.prove(o.id() == K + 1, 'identifier of the original unchanged')
    own, xr = coords(o.polygon(F.OBSTACLE)), None
    a = coords(d.polygon(F.OBSTACLE))
    E.prove(len(a) == len(own), 'same shape')
    for p, q in zip(a, own):
        E.prove(E.vclose(p, q), 'same shape')
    E.prove(E.vclose(d.pos(), o.pos()), 'same position')
    E.prove(E.close(d.rot(), o.rot()), 'same angle')
    x = E.vec('x', -6, 6)
    E.prove(E.close(o.point_location(x, F.OBSTACLE), d.point_location(x, F.OBSTACLE)), 'same classification')
    if kind != 'polygon':
        xr = o.xr(F.OBSTACLE)
        xr = [xr[0], xr[1]]
        E.prove(E.vclose(d.xr(F.OBSTACLE), xr), 'same reference point')
    w = coords(o.polygon())
    # change the copy
    how = E.choice('change', 4)
    if how == 0:
        d.set_motion_model(R.mm.Static(E.vec('pos1', -20, 20), E.real('rot1', -3, 3)))
        d.polygon()
    elif how == 1 and kind != 'polygon':
        d.set_xr(R.np.array([0.25, 0.125]))
    elif how == 2 and kind == 'ellipse':
        d = d.dilated_obstacle(0.5, 'temporary', None)
    elif how == 3 and kind == 'ellipse':
        d._a[0] = d._a[0] + 1
        d._xr[0] = d._xr[0] + 1
    elif how == 3:
        d.vertices[0, 0] = d.vertices[0, 0] + 1
        d.circular_vertices[1, 1] = d.circular_vertices[1, 1] + 1
        if kind == 'star':
            d._xr[0] = d._xr[0] + 1
    b = coords(o.polygon(F.OBSTACLE))
    E.prove(len(b) == len(own), 'shape of the original unchanged')
    for p, q in zip(b, own):
        E.prove(E.vclose(p, q), 'shape of the original unchanged')
    for p, q in zip(coords(o.polygon()), w):
        E.prove(E.vclose(p, q), 'world polygon of the original unchanged')
    if kind == 'ellipse':
        E.prove(E.close(o.point_location(x, F.OBSTACLE), x[0] * x[0] / 4 + x[1] * x[1] - 1), 'classification of the original unchanged')
    else:
        v = o.vertices
        E.prove(sorted((float(p[0]), float(p[1])) for p in v) == sorted(map(tuple, T['dart']['ring'])), 'vertices of the original unchanged')
        v = o.circular_vertices
        E.prove(sorted({(float(p[0]), float(p[1])) for p in v}) == sorted(map(tuple, T['dart']['ring'])), 'vertices of the original unchanged')
    if xr:
        E.prove(E.vclose(o.xr(F.OBSTACLE), xr), 'reference point of the original unchanged')
    E.prove(o.id() == K + 1, 'identifier of the original unchanged')


@harness('C24', params={k: dict(kind=k) for k in KINDS}, bounds='any number of identifiers already used, dilation with each kind of identifier')
def dilated_ids(E, R, kind):
    O = R.Obstacle
    K = E.integer('K', 6, 1000)
    O.id_counter = K
    o = build(R, kind, None, 'new')
    c = E.choice('id', 3)
    d = o.dilated_obstacle(0.5) if c == 0 else o.dilated_obstacle(0.5, 'duplicate', None) if c == 1 else o.dilated_obstacle(0.5, 'temporary', 'n')
    if c == 0:
        E.prove(d.id() == K + 2, 'dilated obstacles are new by default')
    elif c == 1:
        E.prove(d.id() == K + 1, 'duplicates keep the identifier')
    else:
        E.prove(d.id() is None, 'temporary')
        E.prove(str(d) == 'n', 'name given')
    E.prove(o.id() == K + 1, 'identifier of the original unchanged')
