from common import harness
from shapes import *


class Shape:
    """a polygon known only by whether it meets the others"""
    def __init__(self, i, meets):
        self.i = i
        self.meets = meets
        self.geom_type = 'Polygon'
        self.is_empty = False

    def intersects(self, o):
        return True if o.i == self.i else self.meets[min(o.i, self.i), max(o.i, self.i)]

    def disjoint(self, o):
        m = self.intersects(o)
        return (not m) if isinstance(m, bool) else m == False

    def polygon(self):
        return self


class Body:
    """an obstacle known only by its identity"""
    def __init__(self, n):
        self.n = n

    def id(self):
        return self.n


def clusters_of(R, sizes, shapes):
    out, k = [], 0
    for n, s in zip(sizes, shapes):
        cl = R.cs.ObstacleCluster([Body(k + j) for j in range(n)])
        cl.cluster_obstacle = s
        k += n
        out.append(cl)
    return out


def components(E, n, meets):
    """reach[i, j]: formula for 'there is a chain of meeting clusters from i to j'"""
    reach = {(i, j): meets[min(i, j), max(i, j)] for i in range(n) for j in range(n) if i != j}
    for k in range(n):
        reach = {(i, j): (f if k in (i, j) else E.Or(f, E.And(reach[i, k], reach[k, j]))) for (i, j), f in reach.items()}
    return reach


def check_partition(E, cls, sizes, meets, new, flag):
    n = len(cls)
    members = [list(c.obstacles) for c in cls]
    some = E.Or(*[meets[i, j] for i in range(n) for j in range(i + 1, n)]) if n > 1 else E.const(0) > 1
    E.prove(E.Iff(flag, some), 'reports an intersection exactly when there is one')
    where = {}
    for k, c in enumerate(new):
        for o in c.obstacles:
            where.setdefault(id(o), []).append(k)
    every = [o for m in members for o in m]
    E.prove(len(where) == len(every) and all(len(where.get(id(o), ())) == 1 for o in every), 'every obstacle exactly once')
    E.prove(all(c.obstacles for c in new), 'no empty cluster')
    reach = components(E, n, meets)
    for i in range(n):
        k = where[id(members[i][0])][0]
        E.prove(all(where[id(o)][0] == k for o in members[i]), 'an obstacle cluster is never torn apart')
        for j in range(i + 1, n):
            together = where[id(members[j][0])][0] == k
            if together:
                E.prove(reach[i, j], 'only connected obstacles are put together')
            else:
                E.prove(E.Not(reach[i, j]), 'connected obstacles are put together')
    E.prove(all(c.name == '_'.join(str(o.id()) for o in c.obstacles) for c in new), 'named after its obstacles')


SIZES = {'one': [1], 'pair': [1, 1], 'three': [1, 1, 1], 'mixed': [2, 1, 3], 'four': [1, 1, 1, 1], 'four_mixed': [1, 2, 1, 1], 'five': [1] * 5, '+six': [1] * 6,
         '+five_mixed': [1, 2, 1, 3, 1]}


@harness('C18', params={k: dict(name=k.strip('+')) for k in SIZES}, bounds='up to 5 clusters (6 in the thorough tier) of 1 to 3 obstacles each, every intersection relation',
         stubs=['polygons of the clusters: only their intersects relation, an arbitrary symmetric relation'], max_paths=40000)
def relation(E, R, name):
    sizes = {k.strip('+'): v for k, v in SIZES.items()}[name]
    n = len(sizes)
    meets = {(i, j): E.boolean('m%d%d' % (i, j)) for i in range(n) for j in range(i + 1, n)}
    cls = clusters_of(R, sizes, [Shape(i, meets) for i in range(n)])
    given = list(cls)
    before = [list(c.obstacles) for c in cls]
    new, flag = R.cs.get_intersection_clusters(cls)
    check_partition(E, given, sizes, meets, new, flag)
    E.prove(len(cls) == n and all(a is b for a, b in zip(cls, given)), 'the given list is left alone')
    E.prove(all(len(c.obstacles) == len(b) and all(x is y for x, y in zip(c.obstacles, b)) for c, b in zip(given, before)), 'the given clusters are left alone')
    if not E.is_true(flag):
        E.prove(len(new) == n and all(a is b for a, b in zip(new, given)), 'without intersections the clusters come back unchanged')


# squares of side 2 at symbolic places: real geometry decides who meets whom
@harness('C18', params={'row': dict(ys=[0, 0, 0]), 'stairs': dict(ys=[0, 1.5, 3]), 'far': dict(ys=[0, 5, 1])},
         bounds='three squares of side 2 with fixed heights, every horizontal placement in [-6,6]')
def squares(E, R, ys):
    xs = [E.real('x%d' % i, -6, 6) for i in range(3)]
    cls = []
    for i, (x, y) in enumerate(zip(xs, ys)):
        p = R.shapely.geometry.Polygon([[x - 1, y - 1], [x + 1, y - 1], [x + 1, y + 1], [x - 1, y + 1]])
        cl = R.cs.ObstacleCluster([Body(i)])
        cl.cluster_obstacle = type('O', (), dict(polygon=lambda self, p=p: p))()
        cls.append(cl)
    meets = {}
    for i in range(3):
        for j in range(i + 1, 3):
            d = xs[i] - xs[j]
            # near touching is left out: there the last bit decides
            E.assume(E.Or(d > 2.001, d < -2.001, E.And(d < 1.999, d > -1.999)))
            meets[i, j] = E.And(d <= 2, d >= -2) if abs(ys[i] - ys[j]) <= 2 else E.const(0) > 1
    new, flag = R.cs.get_intersection_clusters(cls)
    check_partition(E, cls, [1, 1, 1], meets, new, flag)
