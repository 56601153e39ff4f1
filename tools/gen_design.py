#!/usr/bin/env python3
"""Writes DESIGN.md (run from /verif): the text below plus what the harnesses, the seeded changes and known_findings.json say."""
import ast
import glob
import json
import os

TEXT = r'''# Solver-based checking of starworlds

Generated by `tools/gen_design.py` (hand-written text in there; bounds, findings and planted changes are read from the harnesses,
`known_findings.json` and `seeded/`).

## 1. Method

`run.py Cxx quick|thorough` imports **the current source of /repo** (`VERIF_REPO` names another tree) into CPython with `numpy`, `math`,
`shapely`, `scipy`, `matplotlib`, `time` and `random` replaced by the models in `symex/`, and executes the real functions on symbolic
numbers. Nothing is transcribed: the encoding is whatever the code on disk does when it runs.

* `symex/core.py`, `poly.py` - exact rational functions over real variables. A truth test on a symbolic condition asks z3 (nonlinear real
  arithmetic) which outcomes are possible under the path so far, forks when both are, and explores all outcomes (depth first, re-execution
  from the start with a recorded prefix). Square roots and quotients become fresh variables with their defining constraints;
  division by zero and roots of negative numbers are reported as undefined behaviour on that path.
* `symex/angle.py` - angles as points on the unit circle (`arctan2`, `cos`, `sin`, wrapping, comparison of angles by octant and cross product).
* `symex/symnp.py`, `symshapely.py`, `runtime.py` - the models of the libraries: arrays, stacking, sorting (forking), norms; points, line strings,
  polygons, predicates and clippings of convex polygons by exact sign conditions, polygons with concrete coordinates handed to the real shapely,
  set expressions of which membership of a point is known. An operation that is not modelled raises `Unsupported`: such a
  run can never pass (exit 2, no answer). Before giving up, solver models spread over the path that got stuck are replayed on the real code; only an assertion
  that fails there, stably, turns the missing answer into a VIOLATION.
* Angles that differ by a constant share one sine/cosine pair; a modulo is decided for every multiple in reach; rounding (`np.round`) yields any
  value within half a unit that keeps the order of the numbers rounded, so what is proved holds for the real rounding too, and candidates are replayed.
* A harness (`harness/h_*.py`) creates symbolic inputs with bounds, calls the real code and states the property with `E.prove(condition, what)`.
  z3 is given the negation together with the path condition: *unsat* on every path is the verdict "holds for all values within the bounds".
  A model is a counterexample: it is **replayed** in a separate process on the real code with the real numpy and shapely
  (`symex/replay.py`), and reported as a VIOLATION only if the assertion (or an unexpected exception) fails there too, stably under small
  changes of the input where the failing set has an interior (so one unlucky last bit is no alarm). A counterexample that does not reproduce is tried again away
  from the rounding limits; if nothing reproduces, the run ends with exit 2 - this never happens on the unchanged tree.
* **Translation validation**: for several paths per harness a model of the path is also replayed, and every assertion evaluated on the real
  libraries ("wit n" in the output, `traces_validated_against_impl` in the evidence). A wrong model of numpy or shapely shows up there.
* Tags starting with `+` belong to the thorough tier only. Tags run in parallel processes, each with a path limit and a time limit; exceeding
  one is exit 2, not a pass.

### What the verdicts mean, and what lies outside
* Numbers are exact reals. Rounding is outside of the encoding: assertions carry small tolerances and bounds leave out bands
  (usually 1e-3 to 1e-9) around degenerate positions where the last bit decides; these exclusions are in the bounds of the harness. Defects
  that *are* rounding (three of the kernel fixes, the convex hull with repeated points) were found by the replays of witnesses and then
  expressed as exact inputs where possible.
* Angles: conditions on `cos`/`sin` of symbolic angles are exact; two angles are never related other than through their points on the circle and
  the harness bounds.
* Polygon shapes are mostly *templates* (triangle, square, pentagon, dart, L, cup, four-pointed star, ...) with the query, the pose, one vertex,
  one edge or the kernel points symbolic. Arbitrary shapes with an arbitrary number of vertices are outside; this is the main bound and the reason for
  claiming bounded model checking, not proof.
* Stubs: only `h_cluster`, `h_starify` (its first five harnesses) and `h_random` (random source: arbitrary values in its range; one angle fixed per harness where noted)
  replace code of the repository or its environment by arbitrary answers; the stub is always more permissive than the code replaced.
* Evidence (`evidence/<id>.json`) is written by each run: paths, decisions, functions of /repo entered, assertions discharged, queries by verdict,
  solver time, bounds, assumptions, sample paths with replayed inputs.

## 2. Why this reaches what the tests cannot
The sixteen stable tests run one scene or a handful of random points and mostly draw. The properties below quantify over every query point,
pose, operation order, previous state or intersection behaviour; the branches that matter (a vertex exactly in line with the viewpoint, a kernel unbounded
until the last edge, the third cluster merged late) have measure zero or are position dependent. z3 visits each such branch because it is a
branch, not because a sample fell into it.

## 3. Properties
For each: the oracle (independent of the code), then the harnesses with their bounds.
'''

ORACLE = {
    'C01': 'Oracle: the rotation matrix of the pose applied directly; composition, inverse, preservation of distances and of orientation.',
    'C02': 'Oracle: a freshly built obstacle at the final pose, after every sequence of queries and pose changes (history = symbolic choice of operations).',
    'C03': 'Oracle: the same query on the obstacle without pose, transformed by the pose. All four frame arguments are combined.',
    'C04': 'Oracle: the sign of (x/a)^2+(y/b)^2-1; the distance value through the quadratic on the ray (convexity and the three values at the reference point, boundary and infinity decide it; `level_lemma` proves that step for all quadratics).',
    'C05': 'Oracle: the quadratic of the segment parameter has a root in [0,1]; returned points lie on both and none is missing.',
    'C06': 'Oracle: returned points lie on the ellipse, the line from the viewpoint is the tangent there, and every point of the ellipse lies between the two in order.',
    'C07': 'Oracle: the projection lies on the ellipse and on the ray from the reference point through the query; the normal is the normalised gradient.',
    'C08': 'Oracle: membership in a convex decomposition of the template given by hand; boundary by the segments.',
    'C09': 'Oracle: pairwise segment crossings by cross products; overlaps give their ends.',
    'C10': 'Oracle: from the viewpoint all vertices lie between the two tangents; none is returned exactly when no free direction exists.',
    'C11': 'Oracle: signs of all corner cross products; starshaped iff the half planes of the edges have a common interior point.',
    'C12': 'Oracle: the half planes of all edges (membership of an arbitrary point), against the kernel polygon the code builds edge by edge.',
    'C13': 'Oracle: the two half planes of a cone (and / or depending on its opening); polygon, same-apex and list intersections against the conjunction.',
    'C14': 'Oracle: k admissible iff the ray from the excluded point x away from k misses the obstacle, by exact ray-segment conditions.',
    'C15': 'Oracle: result is convex, ccw, its points are input points and every input point is on the inner side of every edge.',
    'C16': 'Oracle: membership in conv(obstacle with kernel points) as the union over (kernel point or pair, boundary point) segments.',
    'C17': 'Oracle: hull = union over the convex pieces of conv(piece and kernel points), through a fan from the kernel centre; ring simple; starshaped with respect to each kernel point.',
    'C18': 'Oracle: transitive closure of the relation, computed as a formula.',
    'C19': 'Oracle (abstract harnesses): partition, coverage, kernel points and hull belong to the cluster, disjointness, and a reason for every incompletion, with all geometric answers arbitrary. Oracle (real geometry): membership of an arbitrary point and an arbitrary ratio along the segment to each kernel point.',
    'C20': 'Oracle: equal sides, side bound, `sees` (C14) for each corner, half planes of the common kernel, side of the line by cross products.',
    'C21': 'Oracle: cross and dot products written out.',
    'C22': 'Oracle: position change = velocity times step (piecewise), positions at the given times, waypoint within threshold before the next.',
    'C23': 'Oracle: radii positive, angles increasing through one turn, inside the promised box; triangles by half planes.',
    'C24': 'Oracle: identifiers differ from all earlier ones, copies share nothing that a later change would reach.',
    'C25': 'Oracle: distance of an arbitrary point to the polygon compared with the padding; semi-axes of ellipses.',
    'C26': 'Oracle: union of memberships; last boundary point along the ray; normal of the member that owns the boundary point.',
    'C27': 'Oracle: side lengths, centroid, barycentric coordinates.',
    'C28': 'Oracle: half planes of the edge crossed by the ray from the reference point; distance value 0, 1, monotone along the ray; edge normal.',
}

LATER = r'''
## 5. False alarms met on the way, and what was changed
* The cache of decided conditions used a key built on Python's `hash`; `hash(-1) == hash(-2)` let two polynomials share a verdict. Keys are exact now.
* `on_segment` of the shapely model held for a degenerate edge (both ends equal) at every point of a line; it compares the points now.
* C20: "stays on the side of the previous centre" was stated for every selection set; when the line between the excluded points does not divide the set,
  the code keeps the set as it is, which is right - the statement now says so.
* C12: vertices within about 1e-10 of another edge's line (three lines through one point up to rounding) can lose the kernel, e.g. the ring
  (-1.75,2.25) (-1.375,.25) (-2.5,-.625) (0,-.625) (.875,-1) (1.8771368492838438,1.63060922937009) (.23795180722939122,1.5045180722889784). This is rounding, outside of exact arithmetic;
  the bound asks for general position (1e-3).
* Plotting in error branches of the kernel construction used to end a path as "unsupported"; the plotting model is silent now and such branches count as failures.
* C17: kernel triangles straddling the boundary are finding F1, not a bound that was chosen for convenience; the statement excludes them and the harness `straddling` keeps the failing input.
* Harness mistakes: the mean of the dart's corners is outside of the dart (C19 `history`), `dart` windows in which every position straddles are vacuous and were removed (C17).

## 6. Outside of what is checked
* Drawing, timing print-outs, `draw_*` functions: no semantic guarantee.
* `StarshapedPolygon` of arbitrary vertex counts, `Ellipse` with symbolic semi-axes in queries of degree above four (distance with off-centre reference point, C04): fixed semi-axes instead.
* `cluster_and_starify` with symbolic robot or obstacle position: the admissible kernels are then nonconvex regions with symbolic corners 1e6 away, whose areas and centroids the
  encoding does not have; C19 covers them through the arbitrary answers of the abstract harnesses and C13, C14, C16, C17, C20 separately.
* C17 windows in which the solver needs more than ten minutes (listed as SKIP in `h_starhull.py`).
* An ellipse has no `area()`, and a plain `Polygon` as member of a combination has no inertial velocity: missing features, no stated guarantee.
'''


def main():
    props = [json.loads(l) for l in open('properties.jsonl')]
    hs = {}
    for f in sorted(glob.glob('harness/h_*.py')):
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.FunctionDef) and n.decorator_list and isinstance(n.decorator_list[0], ast.Call):
                d = n.decorator_list[0]
                kw = {k.arg: k.value for k in d.keywords}

                def text(k):
                    try:
                        v = ast.literal_eval(kw[k]) if k in kw else ''
                    except ValueError:
                        v = ast.unparse(kw[k])
                    return v
                hs.setdefault(d.args[0].value, []).append((os.path.basename(f), n.name, text('bounds'), text('stubs')))
    out = [TEXT]
    for p in props:
        i = p['id']
        out.append('\n### %s %s\n%s\n\n%s\n' % (i, p['title'], p['statement'], ORACLE[i]))
        for f, n, b, s in hs.get(i, []):
            out.append('* `%s:%s` - %s%s' % (f, n, b, (' *Stubs:* %s.' % ('; '.join(s) if isinstance(s, list) else s)) if s else ''))
    k = json.load(open('known_findings.json'))
    out.append('\n\n## 4. Defects of starworlds found by the checks\n### Recorded, not repaired\n')
    for f in k['findings']:
        out.append('* **%s** (%s): %s.' % (f['id'], f.get('property', ''), f['what']))
    out.append('''
They sit in the insertion loops of `polygon_kernel_starshaped_hull`; a repair that orders the insertions by distance was tried and left other straddling
positions wrong, so the algorithm needs more than a small change there.

### Repaired (one `fix:` commit each)
''')
    for f in k['fixed']:
        out.append('* ' + f)
    out.append(LATER)
    out.append('## 7. Planted changes (`seeded/`) and the checks that catch them\n')
    out.append('Each one passes the stable tests, needs the stated circumstances, and was confirmed in a scratch copy with `tools/plant.py`.\n')
    out.append('| change | property | needs | caught by |\n|---|---|---|---|')
    for d in sorted(glob.glob('seeded/*/meta.json')):
        m = json.load(open(d))
        out.append('| %s | %s | %s | %s |' % (d.split('/')[1], m['property'], m['needs'].replace('|', '/'), m.get('caught', m['property'] + ' quick')))
    open('DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
