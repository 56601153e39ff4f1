from common import harness
from shapes import *
from h_points import sees
from h_cone import off


class World:
    """The geometry the main loop relies on, known only through its answers: which points are free, which admissible kernels
    are empty, which hulls are needed and which starshaped obstacles meet - all of them arbitrary."""
    def __init__(self, E, R, kinds, step=''):
        self.E, self.R, self.step = E, R, step
        self.ans = {}
        self.made = []
        self.clock = 0
        self.bodies = [Body(self, i, k) for i, k in enumerate(kinds)]
        self.given_prev = []

    def ask(self, *key):
        k = '_'.join(str(i) for i in key) + self.step
        if k not in self.ans:
            self.ans[k] = self.E.boolean(k)
        return self.ans[k]

    def asked(self, what):
        return [v for k, v in self.ans.items() if k.startswith(what + '_')]

    def names(self, s):
        return ''.join(str(i) for i in sorted(s))

    def meets(self, a, b):
        a, b = sorted((self.names(a), self.names(b)))
        return True if a == b else self.ask('meet', a, b)

    def tic(self):
        return 0

    def toc(self, t0):
        self.clock += 1
        return self.clock

    def admissible_kernel(self, o, p):
        if not self.ask('free', o.n, int(p[0])):
            return None
        return Region(self, {(o.n, int(p[0]))})

    def compute_kernel_points(self, cl, x, xg, epsilon, cl_prev, workspace):
        k = len(self.made)
        self.made.append((cl.admissible_kernel, frozenset(o.n for o in cl.obstacles)))
        self.given_prev.append((cl, cl_prev))
        return self.R.np.array([[10. * k, 0.], [10. * k + 3, 0.], [10. * k, 3.]])

    def kernel_starshaped_hull(self, obstacles, kp):
        obstacles = obstacles if type(obstacles) is list else [obstacles]
        covers = {o.n for o in obstacles if not o.convex}
        if not covers and not self.ask('hull', self.names([o.n for o in obstacles])):
            return None
        return Hull(covers, int(kp[0][0]) // 10)

    def combination(self, obstacles, hull_cluster, xr=None, id='temp', **kw):
        return Star(self, obstacles, hull_cluster, xr, id)

    def run(self, **kw):
        cs, sh, w = self.R.cs, self.R.cs.sh, self
        old = [(m, n, getattr(m, n)) for m, n in ((cs, 'tic'), (cs, 'toc'), (cs, 'compute_kernel_points'), (cs, 'Cone'), (cs, 'StarshapedPrimitiveCombination'),
                                                 (sh, 'admissible_kernel'), (sh, 'kernel_starshaped_hull'))]
        try:
            cs.tic, cs.toc, cs.compute_kernel_points, cs.Cone = w.tic, w.toc, w.compute_kernel_points, Cones
            cs.StarshapedPrimitiveCombination = w.combination
            sh.admissible_kernel, sh.kernel_starshaped_hull = w.admissible_kernel, w.kernel_starshaped_hull
            return cs.cluster_and_starify(list(self.bodies), self.R.np.array([1., 0.]), self.R.np.array([2., 0.]), 0.5, **kw)
        finally:
            for m, n, v in old:
                setattr(m, n, v)


class Region:
    def __init__(self, w, cons):
        self.w = w
        self.cons = frozenset(cons)
        self.geom_type = 'Polygon'

    def intersection(self, o):
        return Region(self.w, self.cons | o.cons)

    def polygon(self):
        return self

    @property
    def is_empty(self):
        return bool(self.w.ask('empty', *['%d%d' % c for c in sorted(self.cons)]))

    @property
    def area(self):
        return 0. if self.is_empty else 1.


class Cones:
    @staticmethod
    def list_intersection(cones, same_apex=False):
        r = cones[0]
        for c in cones[1:]:
            r = r.intersection(c)
        return r


class Hull:
    def __init__(self, covers, k):
        self.covers = set(covers)
        self.k = k
        self.is_empty = False


class Outline:
    def __init__(self, w, covers):
        self.w = w
        self.covers = frozenset(covers)
        self.geom_type = 'Polygon'
        self.is_empty = False

    def intersects(self, o):
        return self.w.meets(self.covers, o.covers)

    def disjoint(self, o):
        m = self.intersects(o)
        return (not m) if isinstance(m, bool) else self.w.E.Not(m)


class Star:
    def __init__(self, w, obstacles, hull, xr, i):
        self.w = w
        self.covers = {o.n for o in obstacles} | (hull.covers if hull is not None else set())
        self.k = hull.k if hull is not None else None
        self._xr = xr
        self._id = 1000 + len(w.made) if i == 'new' else i

    def id(self):
        return self._id

    def polygon(self):
        return Outline(self.w, self.covers)

    def xr(self, *a, **k):
        return self._xr


class Body:
    def __init__(self, w, n, kind):
        self.w = w
        self.n = n
        self.convex = kind == 'convex'
        self.star = kind != 'polygon'
        self._xr = None
        self.covers = {n}
        self.k = None

    def id(self):
        return [1, 2, 12, 21][self.n]

    def is_convex(self):
        return self.convex

    def is_starshaped(self):
        return self.star

    def polygon(self):
        return Outline(self.w, {self.n})

    def set_xr(self, xr, *a, **k):
        self._xr = xr

    def xr(self, *a, **k):
        return self._xr

    def extreme_points(self, *a, **k):
        return self.w.R.np.array([[100. + self.n, 0.], [200. + self.n, 0.]])

    def exterior_point(self, p, *a, **k):
        return bool(self.w.ask('free', self.n, int(p[0])))


def verify(E, R, w, out, T=None, limit=None, history=False):
    cls, times, flag, n_iter = out[:4]
    n = len(w.bodies)
    E.prove(len(out) == (5 if history else 4) and len(times) == 4 and flag in (0, 1), 'form of the result')
    free = E.And(*[w.ask('free', i, p) for i in range(n) for p in (1, 2)])
    if flag == 0:
        E.prove(len(cls) == n and all(len(c.obstacles) == 1 and c.obstacles[0] is b for c, b in zip(cls, w.bodies)), 'the input obstacles one per cluster')
        late = [E.const(T) < w.clock] if T is not None else []
        over = [E.const(1) > 0] if limit is not None and n_iter >= limit else []
        E.prove(E.Or(E.Not(free), *(w.asked('empty') + late + over)), 'incompletion has a reason')
        return
    E.prove(free, 'completion only with free excluded points')
    where = [[c for c in cls if any(o is b for o in c.obstacles)] for b in w.bodies]
    E.prove(all(len(m) == 1 for m in where) and sum(len(c.obstacles) for c in cls) == n, 'every obstacle in exactly one cluster')
    for c in cls:
        ids = {o.n for o in c.obstacles}
        E.prove(c.cluster_obstacle is not None and ids <= set(c.cluster_obstacle.covers), 'the cluster obstacle covers its obstacles')
        E.prove(c.kernel_points is not None, 'kernel points selected')
        k = int(c.kernel_points[0][0]) // 10
        reg, of = w.made[k]
        E.prove({(i, p) for i in ids for p in (1, 2)} <= set(reg.cons), 'kernel points selected in the admissible kernel of the whole cluster')
        E.prove(E.Not(w.ask('empty', *['%d%d' % q for q in sorted((i, p) for i in ids for p in (1, 2))])), 'the admissible kernel is not empty')
        E.prove(c.cluster_obstacle.k in (None, k), 'hull computed for the kernel points of the cluster')
        xr = c.cluster_obstacle.xr()
        E.prove(abs(xr[0] - (10 * k + 1)) < 1e-9 and abs(xr[1] - 1) < 1e-9, 'reference point inside of the kernel points')
    for i, a in enumerate(cls):
        for b in cls[:i]:
            m = w.meets(set(a.cluster_obstacle.covers), set(b.cluster_obstacle.covers))
            E.prove(E.Not(m) if not isinstance(m, bool) else not m, 'returned cluster obstacles are disjoint')


KIND = {'one': ['convex'], 'one_p': ['polygon'], 'two': ['convex', 'polygon'], 'two_s': ['star', 'convex'], 'three': ['convex', 'star', 'convex'], 'three_p': ['polygon', 'convex', 'polygon'],
        '+four': ['convex', 'polygon', 'convex', 'star']}
STUBS = ['admissible kernels, cones, kernel points and hulls: only which of them are empty or needed, arbitrary', 'outlines: only their intersects relation, arbitrary', 'clock: one tick per reading']


@harness('C19', params={k: dict(name=k) for k in KIND}, bounds='up to 3 obstacles (4 in the thorough tier) of fixed kinds, any free/empty/needed/meets answers', stubs=STUBS, max_paths=60000)
def loop(E, R, name):
    w = World(E, R, KIND[name])
    verify(E, R, w, w.run())


@harness('C19', params={k: dict(name=k) for k in ('two', 'three_p')}, bounds='2 or 3 obstacles, any limit on the time from before the start to beyond the end', stubs=STUBS, max_paths=60000)
def clock(E, R, name):
    w = World(E, R, KIND[name])
    T = E.real('T', -1, 100)
    out = w.run(max_compute_time=T, return_history=True)
    verify(E, R, w, out, T=T, history=True)


@harness('C19', params={'three_%d' % m: dict(m=m) for m in (1, 2, 3)}, bounds='3 obstacles, at most 1, 2 or 3 iterations', stubs=STUBS, max_paths=60000)
def limit(E, R, m):
    w = World(E, R, KIND['three'])
    verify(E, R, w, w.run(max_iterations=m), limit=m)


@harness('C19', params={k: dict(name=k) for k in ('two', '+three')}, bounds='2 obstacles (3 in the thorough tier) excluding each other\'s extreme points', stubs=STUBS, max_paths=60000)
def exclude(E, R, name):
    w = World(E, R, KIND[name.strip('+')])
    verify(E, R, w, w.run(exclude_obstacles=True))


@harness('C19', params={k: dict(name=k) for k in ('two', '+three')}, bounds='two consecutive steps with 2 obstacles (3 in the thorough tier), the answers of the second independent of the first', stubs=STUBS, max_paths=60000)
def steps(E, R, name):
    w = World(E, R, KIND[name.strip('+')], 'a')
    prev = w.run()[0]
    v = World(E, R, KIND[name.strip('+')], 'b')
    out = v.run(previous_clusters=prev)
    verify(E, R, v, out)
    for cl, p in v.given_prev:
        E.prove(p is None or (p in prev and [o.n for o in p.obstacles] == [o.n for o in cl.obstacles]), 'a previous cluster is one of the same obstacles')
    if out[2] == 1:
        for c in out[0]:
            for p in prev:
                if len(c.obstacles) > 1 and [o.n for o in p.obstacles] == [o.n for o in c.obstacles] and p.cluster_obstacle is not None:
                    E.prove(c.cluster_obstacle.id() == p.cluster_obstacle.id(), 'a cluster seen before keeps its identity')


# --- the real geometry
RING = {'a': [[-2., -1.], [1., -1.], [1., 1.], [-2., 1.]], 'b': [[0., -3.], [2., -3.], [2., 0.5], [0., 0.5]], 'c': [[4., -1.], [6., -1.], [6., 2.], [4., 2.]],
        'd': [[0., 0.], [3., -1.], [1., 0.25], [2., 3.]], 'e': [[2.25, 1.], [3.5, 1.25], [2.75, 2.5]], 'u': T['cup']['ring'],
        'f': [[0.5, 1.5], [3., 1.75], [3., 2.25], [0.5, 2.5]], 'g': [[2.5, 1.], [4., 1.], [4., 3.], [2.5, 3.]], 'h': [[2.5, 0.875], [3.25, 1.], [2.75, 1.5]],
        'w': [[0., 0.], [6., -3.], [1.5, 0.25], [4., 6.]], 's': [[3.25, 0.125], [3.625, 0.125], [3.625, 0.5], [3.25, 0.5]]}
SCENE = {'inside': dict(obs='w', x=[-5., 0.125], xg=[3., 1.]), 'inside_r': dict(obs='w', x=[3., 1.], xg=[-5., 0.125]), 'edge': dict(obs='w', x=[-5., 0.125], xg=[5., 1.5]),
         'notch': dict(obs='ws', x=[-5., 0.125], xg=[9., 1.25]), 'notch_r': dict(obs='sw', x=[-5., 0.125], xg=[9., 1.25]),
         'gap': dict(obs='fga', x=[-5., 0.125], xg=[7., 0.25]), 'cave': dict(obs='dh', x=[-5., 0.125], xg=[7., 0.25]),
         'single': dict(obs='a', x=[-5., 0.125], xg=[7., 0.25]), 'pair': dict(obs='ab', x=[-5., 0.125], xg=[7., 0.25]),
         'apart': dict(obs='bc', x=[-5., 0.125], xg=[9., 0.25]), 'mixed': dict(obs='abc', x=[-5., 0.125], xg=[9., 0.25]),
         'dart': dict(obs='d', x=[-5., 0.125], xg=[7., 0.25]), 'dart_e': dict(obs='de', x=[-5., 0.125], xg=[7., 0.25]), 'cup': dict(obs='u', x=[-5., 0.125], xg=[7., 0.25])}


def build(R, n):
    return R.Polygon(RING[n]) if n == 'u' else R.StarshapedPolygon(RING[n], xr=T['dart']['kernel']) if n in 'dw' else R.StarshapedPolygon(RING[n])


def outcome(E, R, s, obs, out):
    cls, times, flag, n = out[:4]
    rings = [RING[n] for n in s['obs']]
    pcs = [pieces(dict(T['dart'], ring=RING[n])) if n in 'dw' else pieces(T['cup']) if n == 'u' else [RING[n]] for n in s['obs']]
    E.prove(flag == 1, 'complete')
    where = [[c for c in cls if any(o is b for o in c.obstacles)] for b in obs]
    E.prove(all(len(m) == 1 for m in where) and sum(len(c.obstacles) for c in cls) == len(obs), 'every obstacle in exactly one cluster')
    q = E.vec('q', -9, 9)
    pt = R.shapely.geometry.Point(q)
    shape = [c.cluster_obstacle.polygon() for c in cls]
    for i in range(len(cls)):
        for j in range(i):
            E.prove(E.Not(E.And(shape[i].contains(pt), shape[j].contains(pt))), 'returned cluster obstacles are disjoint')
    for c, g in zip(cls, shape):
        own = [k for k, b in enumerate(obs) if any(o is b for o in c.obstacles)]
        for k in c.kernel_points:
            E.prove(E.And(sees(E, k, s['x'], [rings[i] for i in own]), sees(E, k, s['xg'], [rings[i] for i in own])), 'kernel points lie in the admissible kernel')
        for p in [p for i in own for p in pcs[i]]:
            E.prove(E.Or(g.intersects(pt), E.Not(E.And(*[cross(a, b, q) >= 1e-3 for a, b in edges(p)]))), 'the cluster obstacle covers its obstacles')
        for p in (s['x'], s['xg']):
            E.prove(E.Not(g.intersects(R.shapely.geometry.Point(p))), 'the cluster obstacle stays off the excluded points')
        # starshaped: with every point of the cluster obstacle the segment to any kernel point
        lam = E.real('lam', 0, 1)
        for k in c.kernel_points:
            E.prove(E.Or(E.Not(g.contains(pt)), g.intersects(R.shapely.geometry.Point([k[0] + lam * (q[0] - k[0]), k[1] + lam * (q[1] - k[1])]))), 'starshaped with respect to its kernel points')


@harness('C19', params={k: dict(scene=k) for k in SCENE if k != 'cup'}, bounds='fixed scenes of one to three obstacles, any kernel width in [0.01,1]')
def width(E, R, scene):
    s = SCENE[scene]
    obs = [build(R, n) for n in s['obs']]
    eps = E.real('eps', 0.01, 1)
    outcome(E, R, s, obs, R.cs.cluster_and_starify(list(obs), R.np.array(s['x']), R.np.array(s['xg']), eps))


@harness('C19', params={k: dict(scene=k) for k in ('pair', 'dart_e', 'gap')}, bounds='fixed scenes, two consecutive steps with any kernel widths in [0.01,1], the first step complete or not (an excluded point inside of an obstacle)')
def history(E, R, scene):
    s = SCENE[scene]
    e1, e2 = E.real('e1', 0.01, 1), E.real('e2', 0.01, 1)
    blocked = E.is_true(E.boolean('blocked'))
    x = (T['dart']['kernel'] if s['obs'][0] == 'd' else [sum(p[i] for p in RING[s['obs'][0]]) / len(RING[s['obs'][0]]) for i in (0, 1)]) if blocked else s['x']
    first = R.cs.cluster_and_starify([build(R, n) for n in s['obs']], R.np.array(x), R.np.array(s['xg']), e1)
    E.prove((first[2] == 0) == blocked, 'complete unless the robot is inside of an obstacle')
    obs = [c.obstacles[0] for c in first[0]] if blocked else [build(R, n) for n in s['obs']]
    if not blocked:
        for o, b in zip(obs, sorted((b for c in first[0] for b in c.obstacles), key=lambda b: b.id())):
            o._id = b._id
    out = R.cs.cluster_and_starify(list(obs), R.np.array(s['x']), R.np.array(s['xg']), e2, previous_clusters=first[0])
    outcome(E, R, s, obs, out)


@harness('C19', params={k: dict(scene=k) for k in ('pair', 'dart', 'dart_e', 'gap', 'cave', 'notch', 'notch_r', 'inside', 'inside_r', 'edge')}, bounds='fixed scenes, convex hulls requested, any kernel width in [0.01,1]')
def convex(E, R, scene):
    s = SCENE[scene]
    obs = [build(R, n) for n in s['obs']]
    eps = E.real('eps', 0.01, 1)
    out = R.cs.cluster_and_starify(list(obs), R.np.array(s['x']), R.np.array(s['xg']), eps, make_convex=True)
    outcome(E, R, s, obs, out)
    # left nonconvex only for a reason: the convex hull reaches an excluded point or the hull of another cluster
    for c in out[0]:
        ps = [p for o in c.obstacles for p in RING[s['obs'][[o is b for b in obs].index(True)]]]
        if not c.cluster_obstacle.is_convex():
            others = [p for d in out[0] if d is not c for o in d.obstacles for p in RING[s['obs'][[o is b for b in obs].index(True)]]]
            E.prove(len(others) > 0 or scene[:6] in ('inside', 'edge'), 'made convex when nothing is in the way')
