"""Harness registry, shared by the symbolic run and the concrete replay."""
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESSES = {}


class Harness:
    def __init__(self, fn, prop, name, params, bounds, assumes, stubs, opts):
        self.fn = fn
        self.prop = prop
        self.name = name
        self.params = params            # list of (tag, kwargs, tier)
        self.bounds = bounds
        self.assumes = assumes
        self.stubs = stubs
        self.opts = opts


def harness(prop, params=None, bounds='', assumes=(), stubs=(), **opts):
    """params: {tag: kwargs}; a tag starting with '+' runs in the thorough tier only."""
    def deco(fn):
        ps = params or {'': {}}
        HARNESSES[prop + '/' + fn.__name__] = Harness(fn, prop, fn.__name__, ps, bounds, list(assumes), list(stubs), opts)
        return fn
    return deco


def load_repo():
    """Imports the code under test (with whatever numpy/shapely sys.modules holds)."""
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import utils
    import utils.cg
    import utils.misc
    import obstacles
    import obstacles.motion_model as mm
    import obstacles.obstacle
    import starshaped_hull
    import importlib
    cs = importlib.import_module('starshaped_hull.cluster_and_starify')
    R = types.SimpleNamespace()
    import numpy as np
    import shapely
    import shapely.geometry
    import shapely.ops
    R.np, R.shapely = np, shapely
    R.utils, R.cg, R.obstacles, R.mm, R.sh, R.cs = utils, utils.cg, obstacles, mm, starshaped_hull, cs
    R.shmod = importlib.import_module('starshaped_hull.starshaped_hull')
    for n in ('Frame', 'Obstacle', 'StarshapedObstacle', 'Ellipse', 'Polygon', 'StarshapedPolygon',
              'StarshapedPrimitiveCombination'):
        setattr(R, n, getattr(obstacles, n))
    return R


def load_harnesses():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
    sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.startswith('h_') and f.endswith('.py'):
            __import__(f[:-3])
    return HARNESSES


class Close:
    pass
