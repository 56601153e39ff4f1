"""Polygon templates with an independent description of their region (convex pieces), and exact predicates."""

T = {
    'tri': dict(ring=[[0., 0.], [2., 0.], [0.5, 1.5]], pieces=[[0, 1, 2]], kernel=[0.75, 0.5]),
    'square': dict(ring=[[-1., -1.], [1., -1.], [1., 1.], [-1., 1.]], pieces=[[0, 1, 2, 3]], kernel=[0.25, 0.125]),
    'penta': dict(ring=[[0., 0.], [2., -0.5], [3., 1.], [1.5, 2.5], [-0.5, 1.5]], pieces=[[0, 1, 2, 3, 4]], kernel=[1., 1.]),
    'dart': dict(ring=[[0., 0.], [3., -1.], [1., 0.25], [2., 3.]], pieces=[[0, 1, 2], [0, 2, 3]], kernel=[0.5, 0.125]),
    'ell': dict(ring=[[0., 0.], [3., 0.], [3., 1.], [1., 1.], [1., 2.], [0., 2.]], pieces=[[0, 1, 2, 3], [0, 3, 4, 5]], kernel=[0.5, 0.375]),
    'star4': dict(ring=[[3., 0.25], [1., 1.], [0., 4.], [-1., 1.], [-3., 0.], [-1., -1.], [0.5, -3.], [1., -1.]],
                  pieces=[[1, 3, 5, 7], [7, 0, 1], [1, 2, 3], [3, 4, 5], [5, 6, 7]], kernel=[0.125, 0.25]),
    'cup': dict(ring=[[0., 0.], [4., 0.], [4., 3.], [3., 3.], [3., 1.], [1., 1.], [1., 3.], [0., 3.]],
                pieces=[[0, 1, 4, 5], [1, 2, 3, 4], [0, 5, 6, 7]]),
    'odd': dict(ring=[[0.0126953125, -0.0166015625], [0.3408203125, -0.3330078125], [1.3466796875, 0.2373046875], [0.7763671875, 1.2333984375]], pieces=[[0, 1, 2, 3]], kernel=[0.625, 0.25]),
    'collinear': dict(ring=[[0., 0.], [1., 0.], [2., 0.], [2., 2.], [0., 2.], [0., 1.]], pieces=[[0, 2, 3, 4]], kernel=[0.75, 0.5]),
}


def cross(o, a, b):
    """positive when o, a, b turn counter-clockwise"""
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def edges(ring):
    return [(ring[i], ring[(i + 1) % len(ring)]) for i in range(len(ring))]


def on_seg(E, p, a, b):
    d = (p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])
    l = (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1])
    return E.And(cross(a, b, p) == 0, d >= 0, d <= l)


def near_seg(E, p, a, b, tol=1e-6):
    """within a small distance of the segment (tolerance on the unscaled cross and dot products)"""
    d = (p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])
    l = (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1])
    c = cross(a, b, p)
    return E.And(c <= tol, c >= -tol, d >= -tol, d <= l + tol)


def in_convex(E, p, ring, strict=False, tol=0):
    return E.And(*[cross(a, b, p) > tol if strict else cross(a, b, p) >= -tol for a, b in edges(ring)])


def pieces(t):
    return [[t['ring'][i] for i in q] for q in t['pieces']]


def closure(E, p, t, tol=0):
    return E.Or(*[in_convex(E, p, q, tol=tol) for q in pieces(t)])


def on_boundary(E, p, ring):
    return E.Or(*[on_seg(E, p, a, b) for a, b in edges(ring)])


def proper(E, p, q, a, b):
    """the open segments cross at one inner point"""
    return E.And(cross(p, q, a) * cross(p, q, b) < 0, cross(a, b, p) * cross(a, b, q) < 0)


def shoelace(ring):
    s = 0
    for a, b in edges(ring):
        s = s + a[0] * b[1] - a[1] * b[0]
    return s / 2


def hull(pts):
    """convex hull of concrete points, ccw, without collinear points"""
    P = sorted(set(map(tuple, pts)))
    if len(P) < 3:
        return [list(p) for p in P]

    def half(Q):
        h = []
        for p in Q:
            while len(h) >= 2 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h
    a, b = half(P), half(P[::-1])
    return [list(p) for p in a[:-1] + b[:-1]]


def variant(E, ring):
    """the same ring, listed from any vertex in either orientation (as chosen)"""
    k = E.choice('first vertex', len(ring))
    r = ring[k:] + ring[:k]
    return r[::-1] if E.boolean('reversed') else r


def grown(t, r, n, outer):
    """the pieces of a template, each enlarged by a regular n-gon inside (outside) the disc of radius r"""
    import math
    rr = r / math.cos(math.pi / n) if outer else r
    k = [(rr * math.cos(2 * math.pi * i / n), rr * math.sin(2 * math.pi * i / n)) for i in range(n)]
    # short binary fractions keep the arithmetic small
    k = [(round(q[0] * 2 ** 16) / 2 ** 16, round(q[1] * 2 ** 16) / 2 ** 16) for q in k]
    return [hull([(p[0] + q[0], p[1] + q[1]) for p in g for q in k]) for g in pieces(t)]


def in_any(E, p, rings, strict=False):
    return E.Or(*[in_convex(E, p, g, strict) for g in rings])
