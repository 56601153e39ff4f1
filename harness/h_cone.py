from common import harness
from shapes import cross

D8 = [[1., 0.], [1., 1.], [0., 1.], [-1., 1.], [-1., 0.], [-1., -1.], [0., -1.], [1., -1.]]
D = [[1., 0.25], [2., 1.5], [0.5, 1.], [-0.25, 1.], [-1., 0.75], [-1., -0.5], [-0.75, -1.], [0.5, -1.], [1., -0.75]]


def crs(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def inside(E, w, d1, d2):
    """w strictly between d1 and d2, counter-clockwise (away from the two directions)"""
    k = crs(d1, d2)
    a, b = crs(d1, w), crs(w, d2)
    return E.Or(E.And(k > 0, a > 0, b > 0), E.And(k <= 0, E.Or(a > 0, b > 0)))


def off(E, v, tol=0.001):
    return E.Or(v >= tol, v <= -tol)


# ---------------------------------------------------------------- C13
@harness('C13', bounds='any apex in [-50,50]^2, any two directions in [-5,5]^2 that are not parallel or exactly opposite, any point '
         'within [-50,50]^2 of the apex and off the two boundary rays')
def membership(E, R):
    a, d1, d2, w = E.vec('apex', -50, 50), E.vec('d1', -5, 5), E.vec('d2', -5, 5), E.vec('w', -50, 50)
    if E.boolean('half plane'):
        d2 = -d1
        E.assume(dot(d1, d1) >= 0.01)
    else:
        E.assume(off(E, crs(d1, d2)))
    E.assume(E.And(off(E, crs(d1, w)), off(E, crs(w, d2))))
    c = R.cg.Cone(a, d1, d2)
    E.prove(E.Iff(c.point_in_cone(a + w), inside(E, w, d1, d2)), 'between the two directions')


QUAD = {'q%d' % i: dict(i=i) for i in range(9)}


@harness('C13', params=QUAD, bounds='81 pairs of directions in all octants, any apex in [-100,100]^2, any point within [-1000,1000]^2 of the apex')
def region(E, R, i):
    d1, d2 = D[i], D[E.choice('second', 9)]
    if d1 == d2:
        d2 = [-d1[0], -d1[1]]
    a, w = E.vec('apex', -100, 100), E.vec('w', -1000, 1000)
    E.assume(E.And(off(E, crs(d1, w)), off(E, crs(w, d2))))
    c = R.cg.Cone(a, d1, d2)
    p = c.polygon()
    E.prove(E.Iff(p.contains(R.shapely.geometry.Point(a + w)), inside(E, w, d1, d2)), 'polygon of the cone')


BOX = {'c%d' % i: dict(i=i) for i in range(8)}


@harness('C13', params=BOX, bounds='first direction: all of one octant, second direction: 9 fixed ones, fixed apex; any point in [-1000,1000]^2')
def octants(E, R, i):
    t = E.real('t', 0.001, 0.999)
    p, q = D8[i], D8[(i + 1) % 8]
    d1 = R.np.array([p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])])
    d2 = D[E.choice('second', 9)]
    a, w = R.np.array([3., -7.]), E.vec('w', -1000, 1000)
    E.assume(off(E, crs(d1, d2)))
    E.assume(E.And(off(E, crs(d1, w)), off(E, crs(w, d2))))
    s = E.boolean('swap')
    if s:
        d1, d2 = d2, d1
    c = R.cg.Cone(a, d1, d2)
    E.prove(E.Iff(c.polygon().contains(R.shapely.geometry.Point(a + w)), inside(E, w, d1, d2)), 'polygon of the cone')


DIAG = {'d%d' % i: dict(i=i) for i in range(4)}


@harness('C13', params=DIAG, bounds='one direction next to a diagonal (within 1e-4), the other one of 9, fixed apexes off the origin; any point in [-1000,1000]^2')
def diagonal(E, R, i):
    t = E.real('t', -0.0001, 0.0001)
    q = D8[2 * i + 1]
    d1 = R.np.array([q[0], q[1] * (1 + t)]) if E.boolean('tilt') else R.np.array([q[0] * (1 + t), q[1]])
    d2 = D[E.choice('second', 9)]
    a, w = R.np.array([[3., -7.], [-20., -4.], [10., 50.], [0., -16.]][E.choice('apex', 4)]), E.vec('w', -1000, 1000)
    E.assume(E.And(off(E, crs(d1, w)), off(E, crs(w, d2))))
    if E.boolean('swap'):
        d1, d2 = d2, d1
    c = R.cg.Cone(a, d1, d2)
    E.prove(E.Iff(c.polygon().contains(R.shapely.geometry.Point(a + w)), inside(E, w, d1, d2)), 'polygon of the cone')


def sector(E, name):
    """every direction, by octant"""
    i = E.choice(name + ' octant', 8)
    t = E.real(name, 0, 1)
    p, q = D8[i], D8[(i + 1) % 8]
    return [p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])]


def one_apex(E, R, s1, s2, o1, o2, w):
    for o in (o1, o2):
        for s in (s1, s2):
            if o is not s:
                E.assume(off(E, crs(o, s)))
    if o1 is not o2:
        E.assume(off(E, crs(o1, o2)))
    E.assume(E.And(*[off(E, crs(w, d)) for d in (s1, s2, o1, o2)]))
    both = E.And(inside(E, w, s1, s2), inside(E, w, o1, o2))
    C = R.cg.Cone
    a = R.np.array([2., -1.])
    s1, s2, o1, o2, w = map(R.np.array, (s1, s2, o1, o2, w))
    L = C(a, s1, s2).intersection_same_apex(C(a, o1, o2))
    E.prove(E.Iff(E.Or(*[c.point_in_cone(a + w) for c in L]), both), 'common points of cones with one apex')


PAIR = {'%s%d%s' % ('+' if i > 2 else '', i, 'ab'[k]): dict(i=i, narrow=not k) for i in range(9) for k in range(2)}


@harness('C13', params=PAIR, bounds='18 fixed first cones (quick: 6); second cone with one fixed direction (9, or shared with the first cone) and one '
         'that is any direction (or shared with the first cone), in either order; any point off the boundary rays')
def same_apex(E, R, i, narrow):
    s1 = D[i]
    s2 = D[(i + (2 if narrow else 6)) % 9]
    k1, k2 = E.choice('first', 3), E.choice('second', 11)
    o1 = sector(E, 'o1') if k1 == 0 else [s1, s2][k1 - 1]
    o2 = ([s1, s2] + [list(d) for d in D])[k2]
    if o1 is o2 or (k1 and k2 > 1 and o2 in (s1, s2)):
        return
    o1, o2 = (s1 if o1 == s1 else s2 if o1 == s2 else o1), (s1 if o2 == s1 else s2 if o2 == s2 else o2)
    if E.boolean('swap'):
        o1, o2 = o2, o1
    one_apex(E, R, s1, s2, o1, o2, E.vec('w', -50, 50))


FREE = {'%s%d' % ('+' if i > 0 else '+', i): dict(i=i) for i in range(8)}


@harness('C13', params=FREE, bounds='first cone from a fixed direction to any, second cone between any two directions; any point off the boundary rays')
def any_directions(E, R, i):
    one_apex(E, R, D8[i], sector(E, 's2'), sector(E, 'o1'), sector(E, 'o2'), sector(E, 'w'))


LISTS = {'wide': [(0, 5), (8, 4), (6, 3)], 'two_parts': [(0, 8), (4, 2), (3, 7)], 'narrow': [(1, 4), (2, 3), (0, 7)], 'empty': [(0, 2), (3, 5)],
         'shared': [(0, 3), (0, 5), (7, 3)], 'touch': [(0, 3), (3, 6)], 'single': [(2, 7)], 'same': [(1, 6), (1, 6)]}
LISTS = {k: dict(cones=v) for k, v in LISTS.items()}


@harness('C13', params=LISTS, bounds='fixed lists of one to three cones with a common apex (fixed), any point within [-1000,1000]^2')
def lists(E, R, cones):
    a = R.np.array([2., -1.])
    C = R.cg.Cone
    cs = [C(a, D[i], D[j]) for i, j in cones]
    w = E.vec('w', -1000, 1000)
    E.assume(E.And(*[off(E, crs(w, D[k]), 0.01) for ij in cones for k in ij]))
    spec = E.And(*[inside(E, w, D[i], D[j]) for i, j in cones])
    pt = R.shapely.geometry.Point(a + w)
    E.prove(E.Iff(C.list_intersection(cs, same_apex=True).contains(pt), spec), 'list, shared apex')
    E.prove(E.Iff(C.list_intersection(cs).contains(pt), spec), 'list, any apex')
    if len(cs) == 2:
        E.prove(E.Iff(cs[0].intersection(cs[1], same_apex=True).contains(pt), spec), 'pair, shared apex')
        E.prove(E.Iff(cs[0].intersection(cs[1]).contains(pt), spec), 'pair, any apex')


THIRD = {str(i): dict(i=i) for i in range(9)}


@harness('C13', params=THIRD, bounds='lists of two fixed wide cones whose intersection has two parts and a third one from a fixed direction to any of the others, in any position of the list; any point within [-1000,1000]^2')
def third(E, R, i):
    a = R.np.array([2., -1.])
    C = R.cg.Cone
    W = [((1., 1.), (1., -1.)), ((-1., -1.), (-1., 1.))]
    j = E.choice('j', 8)
    k = E.choice('k', 3)
    dirs = list(W)
    dirs.insert(k, (tuple(D[i]), tuple(D[j + (j >= i)])))
    cs = [C(a, R.np.array(p), R.np.array(q)) for p, q in dirs]
    w = E.vec('w', -1000, 1000)
    E.assume(E.And(*[off(E, crs(w, d), 0.01) for pq in dirs for d in pq]))
    spec = E.And(*[inside(E, w, p, q) for p, q in dirs])
    pt = R.shapely.geometry.Point(a + w)
    E.prove(E.Iff(C.list_intersection(cs, same_apex=True).contains(pt), spec), 'list, shared apex')


APART = {'acute': (1, 4, 8, 3, 5, -2), 'obtuse': (0, 7, 6, 2, -3, 4), 'both': (4, 3, 1, 0, -8, -5), 'away': (0, 2, 4, 5, 10, -6)}
APART = {k: dict(v=v) for k, v in APART.items()}


@harness('C13', params=APART, bounds='fixed pairs of cones, second apex anywhere within [-1,1]^2 of a fixed one, any point in [-100,100]^2')
def apart(E, R, v):
    a = R.np.array([2., -1.])
    b = a + R.np.array([float(v[4]), float(v[5])]) + E.vec('b', -1, 1)
    C = R.cg.Cone
    c, d = C(a, D[v[0]], D[v[1]]), C(b, D[v[2]], D[v[3]])
    x = E.vec('x', -100, 100)
    E.assume(E.And(*[off(E, crs(x - a, D[k]), 0.01) for k in v[:2]]))
    E.assume(E.And(*[off(E, crs(x - b, D[k]), 0.01) for k in v[2:4]]))
    spec = E.And(inside(E, x - a, D[v[0]], D[v[1]]), inside(E, x - b, D[v[2]], D[v[3]]))
    pt = R.shapely.geometry.Point(x)
    E.prove(E.Iff(c.intersection(d).contains(pt), spec), 'pair')
    E.prove(E.Iff(C.list_intersection([d, c]).contains(pt), spec), 'list')
