#!/usr/bin/env python3
"""Writes properties.jsonl (run from /verif)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


OB, SO, EL, PO, SP, PC, MM, CG = ['obstacles/%s.py' % n for n in (
    'obstacle', 'starshaped_obstacle', 'ellipse', 'polygon', 'starshaped_polygon', 'starshaped_primitive_combination',
    'motion_model')] + ['utils/cg.py']
SH, CS = 'starshaped_hull/starshaped_hull.py', 'starshaped_hull/cluster_and_starify.py'

p('C01', 'Frame transforms are rigid motions and mutually inverse',
  'Mapping a point or direction between the world frame and an obstacle\'s own frame is the rigid motion given by the '
  'obstacle\'s current position and rotation angle (counter-clockwise): the two directions of the mapping undo each other, '
  'distances are preserved, directions are rotated but not translated, and mapping to the same frame, or mapping an obstacle '
  'that has no pose, changes nothing.',
  ['inputs', 'configurations'], 'every pose (position, angle incl. 0 and negative), every point and direction, every frame pair',
  'test_utils checks one affine transform; no test checks inverse, direction or degenerate-angle cases.',
  [OB, CG], [('affine_transform', 'utils/cg.py'), ('transform/rotate/pos/rot', OB)])
p('C02', 'World-frame geometry always reflects the current pose',
  'After any sequence of moves, pose changes and earlier queries, the world-frame polygon and kernel of an obstacle equal its '
  'own-frame polygon and kernel placed at the current pose, the own-frame geometry itself is unchanged, and intersection tests '
  'between obstacles use these current polygons.',
  ['histories', 'inputs'], 'every interleaving of polygon/kernel queries with moves and explicit pose changes, every pose',
  'The tests draw moved obstacles but assert nothing about cached geometry after a history.',
  [OB, SO, EL, SP], [('polygon cache keyed by pose', OB), ('kernel cache keyed by pose', SO)],
  [('_polygon_global/_polygon_global_pose', 'cached world polygon and the pose it was made for', OB),
   ('_kernel_global/_kernel_global_pose', 'same for the kernel', SO)])
p('C03', 'Geometric queries are equivariant under the obstacle pose',
  'Every geometric query on an obstacle (point classification, segment intersection, tangent points, radial projection, normal, '
  'reference direction, distance function) gives the same answer whether points are supplied and returned in the world frame or '
  'in the obstacle frame, up to the rigid motion between the two frames, for each combination of input and output frame.',
  ['inputs', 'configurations'], 'every pose, every query point, each input/output frame combination, each obstacle class',
  'The tests query in the world frame only, at a handful of poses, and mostly plot the result.',
  [OB, SO, EL, PO, SP], [('input_frame/output_frame handling in each query', 'obstacles/*.py')])
p('C04', 'Ellipse point classification and distance value',
  'A point is classified interior, boundary or exterior to an ellipse exactly according to the ellipse equation in its own frame, '
  'and the distance value with respect to the reference point is below, equal to or above one respectively, growing '
  'quadratically along rays from the reference point; an ellipse is always reported convex and starshaped.',
  ['inputs'], 'every ellipse (semi-axes), every pose, every interior reference point, every query point',
  'test_ellipse plots random cases and asserts nothing about classification.',
  [EL, OB, SO], [('point_location', EL), ('distance_function', SO), ('interior_point/exterior_point/boundary_point', OB)])
p('C05', 'Ellipse segment intersections are sound and complete',
  'The reported intersections of a segment with an ellipse are exactly the points that lie on both the segment and the ellipse '
  'boundary: every reported point is on both, no crossing is missed, and the count is at most two.',
  ['inputs'], 'every ellipse, every segment (any slope including vertical, any position relative to the centre)',
  'Tests sample a few random lines and only plot the intersection points; steep and vertical lines are a separate branch.',
  [EL], [('line_intersection', EL)])
p('C06', 'Ellipse tangent points touch and bracket the ellipse',
  'From a point strictly outside an ellipse exactly two tangent points are returned, both on the ellipse, each with the line of '
  'sight touching the ellipse without entering it, ordered so that the ellipse lies clockwise of the first and counter-clockwise '
  'of the second as seen from the point; from an interior point none are returned.',
  ['inputs'], 'every ellipse, every pose, every query point incl. those where a tangent is parallel to an axis',
  'Tests use random viewpoints; the vertical-tangent branch has measure zero and is never sampled.',
  [EL], [('tangent_points', EL), ('is_ccw ordering', CG)])
p('C07', 'Ellipse radial projection and outward normal',
  'The radial projection of a point onto an ellipse is the boundary point on the ray from the reference point through the given '
  'point, and the normal there is the outward unit vector orthogonal to the boundary.',
  ['inputs'], 'every ellipse, interior reference point, pose and query direction, inside or outside',
  'Tests draw the projection for random points only.',
  [EL, SO], [('boundary_mapping', EL), ('normal', EL), ('reference_direction', SO)])
p('C08', 'Polygon point classification',
  'A point is classified interior, boundary or exterior to a polygonal obstacle exactly according to the polygon\'s closed region, '
  'including points on edges, vertices and extreme edges of the bounding box, independent of the orientation in which the '
  'vertices were given; reported area and extreme points are those of the polygon.',
  ['inputs'], 'every query point and every vertex placement within the polygon families of the bounds, both vertex orders',
  'Random samples never hit boundaries or the bounding-box early exit at equality.',
  [PO, OB], [('point_location', PO), ('area, extreme_points', PO)])
p('C09', 'Polygon segment intersections are sound and complete',
  'The reported intersections of a segment with a polygonal obstacle are points that lie on both the segment and the polygon '
  'boundary; every transversal crossing is reported, a segment lying along an edge is represented by the ends of the overlap, and '
  'nothing is reported when they do not meet.',
  ['inputs'], 'every segment and every vertex placement within the polygon families of the bounds',
  'Tests plot the points for a few random segments.',
  [PO], [('line_intersection', PO)])
p('C10', 'Polygon tangent points touch and bracket the polygon',
  'From a point that can see around a polygon two vertices are returned such that the whole polygon lies clockwise of the first '
  'and counter-clockwise of the second, seen from the point; from a point in the interior, or enclosed so that no free line of '
  'sight exists, none are returned.',
  ['inputs'], 'every viewpoint off the polygon boundary and every vertex placement within the polygon families of the bounds',
  'Angle unwrapping across the branch cut depends on the exact viewpoint; tests sample a few viewpoints.',
  [PO], [('tangent_points: angle unwrapping', PO)])
p('C11', 'Convexity and starshapedness flags are exact',
  'A polygonal obstacle is reported convex exactly when its region is convex, whatever vertex is listed first, whatever the '
  'orientation, and with collinear vertices allowed; convex obstacles are reported starshaped.',
  ['inputs'], 'every vertex placement within the polygon families of the bounds, both orientations, every starting vertex',
  'Tests assert convexity for two fixed polygons.',
  [PO, OB], [('_check_convexity', PO), ('is_convex/is_starshaped', OB)])
p('C12', 'Starshaped-polygon kernel is the set that sees everything',
  'The kernel reported for a starshaped polygon is exactly the set of points from which the whole polygon is visible (the '
  'intersection of the inner half-planes of its edges), and the reference point chosen by default lies in it. A safe change of the reference point takes effect exactly when the new point lies in the kernel.',
  ['inputs'], 'every query point and every vertex placement within the template polygons of the bounds',
  'test_star_polygon plots kernels of random polygons without an oracle; the incremental algorithm has many rare cases.',
  [SP, SO, CG], [('_compute_kernel', SP), ('get_intersection/is_between', CG)])
p('C13', 'Cones: membership, polygon and intersections agree',
  'A cone contains exactly the points between its first and second boundary direction, counter-clockwise, its polygon is that '
  'set within the bounding box, and the intersection of cones (pairwise or of a list, with or without the shared-apex shortcut) is '
  'the set of points common to all of them.',
  ['inputs', 'configurations'], 'every apex, every pair of directions (convex and reflex), every query point off the boundary',
  'test_cone plots two fixed cones; the corner walk and the four-way case split need specific directions.',
  [CG], [('Cone.polygon/point_in_cone/intersection/intersection_same_apex/list_intersection', CG)])
p('C14', 'Admissible kernel keeps the excluded point outside the hull',
  'The admissible kernel of an obstacle and a point outside it is the set of kernel points whose segments to the obstacle do not '
  'pass through that point: choosing any point of it as kernel point leaves the excluded point outside, any point whose '
  'extended line of sight through the excluded point hits the obstacle is not in it, and for an interior point there is none.',
  ['inputs'], 'every excluded point, every candidate kernel point, ellipses of any size and convex and nonconvex polygons',
  'Two plots in the tests, no assertion.',
  [SH, EL, PO, CG], [('admissible_kernel', SH), ('tangent_points ordering', 'obstacles/')])
p('C15', 'Convex hull contains all points and only uses them',
  'The convex hull of a point list is a convex counter-clockwise or clockwise polygon whose vertices are input points, that '
  'contains every input point, for any input order and with duplicate or collinear points.',
  ['inputs'], 'every placement of up to the bounded number of points, including ties and collinear triples',
  'test_convex_hull samples random points, for which ties never occur.',
  [CG], [('convex_hull', CG)])
p('C16', 'Starshaped hull of convex obstacles',
  'For a convex obstacle and kernel points, the computed hull extension together with the obstacle covers every segment from a '
  'kernel point to the obstacle, is starshaped with respect to every kernel point, and adds nothing outside the convex hull of '
  'obstacle and kernel points; for kernel points inside the obstacle nothing is added, and for several obstacles the result is '
  'the union of the individual extensions.',
  ['inputs', 'configurations'], 'every kernel point (triangle) position and every obstacle placement within the bounds',
  'The tests for the starshaped hull are empty.',
  [SH], [('convex_kernel_starshaped_hull', SH), ('kernel_starshaped_hull', SH)])
p('C17', 'Starshaped hull of a nonconvex polygon',
  'The starshaped hull computed for a nonconvex polygon and kernel points whose triangle does not straddle its boundary contains the polygon, is starshaped with '
  'respect to every kernel point, and contains nothing but points on segments from the hull of the kernel points to the polygon.',
  ['inputs'], 'every kernel point position within the regions of the bounds for each template polygon',
  'The tests for the starshaped hull are empty; the vertex/ray case analysis is position dependent.',
  [SH], [('polygon_kernel_starshaped_hull', SH)])
p('C18', 'Intersection clustering forms the connected components',
  'Clustering by intersection returns the obstacles partitioned into the connected components of the "polygons intersect" '
  'relation, every obstacle exactly once, and reports that an intersection existed exactly when two of the given clusters '
  'intersect, in which case the input is otherwise returned unchanged.',
  ['inputs', 'configurations'], 'every intersection relation on up to the bounded number of clusters, any cluster sizes',
  'Tests sample random scenes; chains and late merges are rare.',
  [CS], [('get_intersection_clusters', CS)])
p('C19', 'Clustering and star-hull computation delivers disjoint star obstacles',
  'When the computation reports completion, every input obstacle is in exactly one returned cluster, the returned cluster '
  'obstacles are pairwise disjoint, each covers the obstacles of its cluster, stays off both excluded points and is starshaped with '
  'respect to its kernel points, which lie in the admissible kernel for both excluded points; when it cannot complete (excluded point '
  'not free, admissible kernel empty, out of time or of iterations) it '
  'reports incompletion and returns the input obstacles one per cluster.',
  ['inputs', 'histories', 'configurations'], 'every intersection behaviour over the iterations, option combination and time-out point within the bounds',
  'test_moving_cluster runs one scene and asserts nothing; iteration, reuse and option paths depend on the scene.',
  [CS, SH], [('cluster_and_starify main loop', CS), ('cluster history by name', CS), ('make_convex', CS)])
p('C20', 'Kernel points are an admissible equilateral triangle',
  'The kernel points selected for a cluster form an equilateral triangle with side at most the requested width whose corners lie '
  'in the admissible kernel (and inside the obstacles\' common kernel when that intersects it); a previous triangle centre is kept '
  'while it remains selectable, and otherwise the new centre stays on the same side of the line between the excluded points '
  'whenever that line divides the selection set; for a cluster reaching out of the workspace the triangle lies outside of it.',
  ['inputs', 'histories', 'configurations'], 'every previous centre, excluded point and admissible region within the bounds',
  'No test looks at kernel points at all.',
  [CS, CG], [('compute_kernel_points', CS), ('equilateral_triangle', CG)])
p('C21', 'Line, segment, ray and orientation primitives are exact',
  'Orientation predicates give the sign of the cross product (antisymmetric, cyclic, at most one of clockwise, '
  'counter-clockwise, collinear true), betweenness holds exactly for points on the segment, and the intersection of lines, '
  'segments or rays exists exactly when they properly meet and then lies on both.',
  ['inputs'], 'every configuration of endpoints off the numerical tolerance bands',
  'test_orientation samples random triples; line/segment/ray classes are untested.',
  [CG], [('orientation_val/is_cw/is_ccw/is_collinear/is_between/intersect/get_intersection', CG), ('Line/LineSegment/Ray', CG),
         ('line/ray', CG)])
p('C22', 'Motion models integrate the velocity they report',
  'Each step moves position and angle by the reported velocities times the time step and advances time, without changing any '
  'array the caller passed in or obtained earlier through a pose setter; the static model never moves, the sinusoidal model '
  'follows its cosine velocities (world or body frame), the interval model passes its points at its times, and the '
  'waypoint model heads to each waypoint in order at the given speed and stops after the last.',
  ['inputs', 'histories'], 'every parameter, state and sequence of time steps within the bounds',
  'The tests move obstacles for fixed steps and only plot them.',
  [MM], [('MotionModel.move', MM), ('Static/SinusVelocity/Interval/Waypoints.lin_vel, rot_vel', MM)],
  [('_pos, _rot, _t', 'pose and time of the model', MM), ('_wp_idx', 'next waypoint', MM)])
p('C23', 'Random polygon generators produce what they promise',
  'For every outcome of the random source, the convex generator returns the requested number of vertices forming a convex polygon '
  'with its vertex mean at the origin and extents within the requested box, and the star generator returns vertices in '
  'counter-clockwise angular order once around the centre, each at most twice the average radius away; the random point of a '
  'triangle lies in the triangle.',
  ['inputs', 'schedules'], 'every sequence of random draws for the bounded number of vertices',
  'Tests draw a few samples from the generator.',
  [CG], [('generate_convex_polygon', CG), ('generate_star_polygon/random_angle_steps', CG)])
p('C24', 'Obstacle identities and copies',
  'New obstacles get fresh increasing identifiers, temporary ones have none, duplicates keep the original\'s, invalid '
  'identifiers are never assigned, and a copy has the same geometry, pose and reference point as the original while later '
  'changes of the copy never change the original\'s geometry.',
  ['histories', 'inputs'], 'every sequence of creations and copies within the bounds, every kind of id argument',
  'No test inspects identifiers or copies.',
  [OB, EL, SP], [('_set_id_name/id_counter', OB), ('copy', 'obstacles/')], [('id_counter', 'last id handed out', OB)])
p('C25', 'Dilation grows an obstacle by exactly the padding',
  'The dilated copy of an obstacle contains the original, no boundary point of its region is farther than the padding from the '
  'original (an ellipse has both semi-axes grown by the padding), all its queries refer to the grown shape, and the original '
  'is unchanged.',
  ['inputs', 'histories'], 'every padding, shape and query point within the bounds, before or after cached polygon use',
  'No test dilates an obstacle.',
  [EL, PO, SP], [('dilated_obstacle', 'obstacles/ellipse.py, polygon.py, starshaped_polygon.py')])
p('C26', 'Combined star obstacle behaves as the union of its parts',
  'An obstacle combined from several obstacles and a hull extension classifies a point as interior, boundary or exterior according '
  'to the union of its parts, its polygon is that union, its radial projection is the farthest boundary crossing from the '
  'reference point in the direction of the point, and its normal is a unit vector pointing away from the reference point.',
  ['inputs', 'configurations'], 'every query point and reference point within the bounds, with and without a hull extension',
  'The combination is only drawn by the tests.',
  [PC], [('point_location', PC), ('line_intersection', PC), ('boundary_mapping', PC), ('normal', PC)])
p('C27', 'Triangle helpers',
  'The equilateral triangle helper returns three points pairwise at the requested side length whose mean is the requested '
  'centroid, whatever the rotation, which turns the triangle counter-clockwise about that mean; a random point in a triangle is always a convex combination of its corners.',
  ['inputs'], 'every centroid, side length, rotation and pair of random draws',
  'Tests use one triangle without rotation.',
  [CG], [('equilateral_triangle', CG), ('point_in_triangle', CG)])
p('C28', 'Starshaped polygon radial projection, distance and normal',
  'For a starshaped polygon with a reference point in its kernel, the radial projection of any other point is the boundary point on '
  'the ray from the reference point through it, the distance value is below, equal to or above one inside, on or outside the '
  'boundary, and the edge normal is the outward unit normal of the edge hit by that ray.',
  ['inputs'], 'every reference point in the kernel and every query point within the template polygons of the bounds',
  'test_star_polygon plots random cases.',
  [SP, SO], [('boundary_mapping', SP), ('distance_function', SP), ('normal (edge)', SP), ('vertex_angles', SP)])
with open('properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
