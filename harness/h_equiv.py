from common import harness
from h_frames import put, turn, DART, TRI


def build(R, kind, pos, rot):
    m = R.mm.Static(pos, rot)
    if kind == 'ellipse':
        return R.Ellipse([2., 1.], xr=[0.5, 0.25], motion_model=m, n_pol=4)
    if kind == 'polygon':
        return R.Polygon(DART, motion_model=m)
    if kind == 'star':
        return R.StarshapedPolygon(DART, xr=[0.5, 0.125], motion_model=m)


QUERIES = ['point_location', 'line_intersection', 'tangent_points', 'boundary_mapping', 'normal', 'normal_b', 'reference_direction',
           'distance_function', 'in_out']


def params():
    P = {}
    for k in ('ellipse', 'polygon', 'star'):
        for q in QUERIES:
            if k == 'polygon' and q not in ('point_location', 'line_intersection', 'tangent_points', 'in_out'):
                continue
            if k == 'star' and q == 'normal_b':
                continue
            P[k + '_' + q] = dict(kind=k, q=q)
    return P


@harness('C03', params=params(), bounds='fixed ellipse, nonconvex and starshaped polygon; any pose (coordinates in [-20,20], any angle), '
         'any query point in [-20,20]^2 (segments: any two such points)', weight=2, tmo=3000)
def frames_agree(E, R, kind, q):
    F = R.Frame
    pos = E.vec('pos', -20, 20)
    rot = E.real('rot', -3, 3)
    E.is_true(rot == 0)      # the code treats a zero angle separately: decide it first
    o = build(R, kind, pos, rot)
    x = E.vec('x', -20, 20)
    g = E.np_array(put(R, pos, rot, x)) if hasattr(E, 'np_array') else R.np.array(put(R, pos, rot, x))
    pts = {F.OBSTACLE: x, F.GLOBAL: g}
    combos = [(a, b) for a in (F.OBSTACLE, F.GLOBAL) for b in (F.OBSTACLE, F.GLOBAL)]

    def as_world(p, f):
        return p if f == F.GLOBAL else put(R, pos, rot, p)

    def same_points(A, B, f, what):
        E.prove((A is None) == (B is None), what + ': same outcome')
        if A is None:
            return
        E.prove(len(A) == len(B), what + ': same number of points')
        for p, r in zip(A, B):
            E.prove(E.vclose(put(R, pos, rot, p), as_world(r, f)), what + ': same points in the same order')
    if q not in ('point_location', 'in_out', 'line_intersection', 'tangent_points'):
        # off the reference point (and, for a boundary normal, off the centre)
        E.assume(E.Or(x[0] >= 0.51, x[0] <= 0.49))
    if q in ('point_location', 'distance_function'):
        fn = getattr(o, q)
        a = fn(x, F.OBSTACLE)
        E.prove(E.close(fn(g, F.GLOBAL), a), q + ': same value')
        E.prove(E.close(fn(g), a), q + ': world frame is the default')
        return
    if q == 'in_out':
        for n in ('interior_point', 'exterior_point', 'boundary_point'):
            fn = getattr(o, n)
            a = fn(x, F.OBSTACLE)
            E.prove(E.Iff(fn(g, F.GLOBAL), a), n + ': same answer')
            E.prove(E.Iff(fn(g), a), n + ': world frame is the default')
        return
    if q == 'line_intersection':
        y = E.array([4., 0.75])
        h = R.np.array(put(R, pos, rot, y))
        seg = {F.OBSTACLE: [x, y], F.GLOBAL: [g, h]}
        a = o.line_intersection([x, y], F.OBSTACLE, F.OBSTACLE)
        for i, u in combos[1:]:
            same_points(a, o.line_intersection(seg[i], i, u), u, q)
        return
    if q == 'tangent_points':
        a = o.tangent_points(x, F.OBSTACLE, F.OBSTACLE)
        for i, u in combos[1:]:
            same_points(a, o.tangent_points(pts[i], i, u), u, q)
        return
    if q == 'boundary_mapping':
        a = o.boundary_mapping(x, F.OBSTACLE, F.OBSTACLE)
        for i, u in combos[1:]:
            b = o.boundary_mapping(pts[i], i, u)
            same_points(None if a is None else [a], None if b is None else [b], u, q)
        return
    if q in ('normal', 'normal_b'):
        kw = {'x_is_boundary': True} if q == 'normal_b' else {}
        if q == 'normal_b':
            E.assume(x[1] >= 0.01)
        a = o.normal(x, F.OBSTACLE, F.OBSTACLE, **kw)
        for i, u in combos[1:]:
            b = o.normal(pts[i], i, u, **kw)
            E.prove((a is None) == (b is None), 'normal: same outcome')
            if a is not None:
                E.prove(E.vclose(turn(R, rot, a), b if u == F.GLOBAL else turn(R, rot, b)), 'normal: same direction')
        return
    if q == 'reference_direction':
        a = o.reference_direction(x, F.OBSTACLE, F.OBSTACLE)
        b = o.reference_direction(g, F.GLOBAL, F.GLOBAL)
        E.prove(E.vclose(turn(R, rot, a), b), 'reference direction')
        b = o.reference_direction(g)
        E.prove(E.vclose(turn(R, rot, a), b), 'reference direction: world frame is the default')
        b = o.reference_direction(x, F.OBSTACLE, F.GLOBAL)
        E.prove(E.vclose(turn(R, rot, a), b), 'reference direction, own frame in, world frame out')
        b = o.reference_direction(g, F.GLOBAL, F.OBSTACLE)
        E.prove(E.vclose(a, b), 'reference direction, world frame in, own frame out')
