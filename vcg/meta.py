"""Texts of the properties; `python3-vt -m vcg.meta` writes properties.jsonl and MANIFEST.json."""
import json
import os
from . import props

REAL = "Proved over the reals for every input the contract admits (rounding of float arithmetic is not modelled); "
META = {}


def P(id_, title, statement, over, text, why, files, mech, note='', state=None, level='proof', technique=None):
    META[id_] = dict(id=id_, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, state=state,
                     level=level, technique=technique)


P('C01', 'Rotations are rigid and their algebra is consistent',
  "Rotating a vector by a unit quaternion preserves lengths, angles and handedness, and composing, inverting, normalising, integrating and converting unit "
  "quaternions (to and from matrices, axis-angle, shortest arc, Euler angles, interpolation) gives unit quaternions that represent exactly the rotation they "
  "stand for. Transforming a point between world and object space and back gives the point again.",
  ['inputs'], "every unit quaternion, vector, angle and time step",
  "math_test samples a few quaternions; the identities are over all unit quaternions",
  ['include/edyn/math/quaternion.hpp', 'src/edyn/math/quaternion.cpp', 'include/edyn/math/transform.hpp', 'include/edyn/math/matrix3x3.hpp'],
  ['quaternion product / rotate / conjugate / integrate / slerp', 'to_matrix3x3, to_quaternion, shortest_arc, to_world_space, to_object_space'])
P('C02', 'Vector and matrix operations satisfy linear algebra',
  "Vector and matrix operators compute the component-wise sums, products, dot and cross products, transposes, determinants, inverses and projections they are "
  "named after, for every argument. The inverse of an invertible matrix multiplies with it to the identity, a singular one gives the zero matrix, and normalised "
  "vectors have unit length and the original direction. Comparisons, rounding and angle normalisation have their mathematical meaning.",
  ['inputs'], "every vector, matrix and scalar operand",
  "vector3_test and matrix3x3_test compare a handful of constants",
  ['include/edyn/math/vector3.hpp', 'include/edyn/math/vector2.hpp', 'include/edyn/math/matrix3x3.hpp', 'include/edyn/math/math.hpp',
   'include/edyn/math/vector2_3_util.hpp'],
  ['operators and free functions of vector2, vector3, matrix3x3; scalar helpers'])
P('C03', 'Closest point queries return optimal points on the features',
  "Closest-point queries between points, lines, segments, circles, discs and boxes return points that lie on the queried features at the returned parameters, and return "
  "their (squared) distance. No other pair of points of the features is closer; for parallel overlapping segments the optional second pair is as close as the first, and "
  "degenerate segments (points) are handled. Between circles and lines or other circles, parallel cases are optimal too; at an angle, the points are on the features and one is the closest to the other.",
  ['inputs'], "every position, direction, radius and extent, degenerate and parallel configurations included",
  "geom_test samples a few configurations; optimality is a claim over all competing points of the features",
  ['src/edyn/math/geom.cpp', 'include/edyn/math/geom.hpp'],
  ['closest_point_segment, closest_point_line, closest_point_line_line, closest_point_segment_segment', 'closest_point_disc, closest_point_box_outside/inside', 'closest_point_circle_line, closest_point_circle_circle'],
  note='for circles at an angle to lines or circles the Newton iteration is cut by its invariant (any angle): that the angle it ends at is the optimal one is not claimed.')
P('C04', 'Intersection queries hit exactly when the features meet',
  "Line, ray, segment, circle, sphere, box, triangle, cylinder and prism intersection tests report an intersection exactly when the features have a common point (away from the "
  "documented epsilon tolerances), the reported parameters name points that lie on both features, in order along the line, and for rays the first such point. Parallel, collinear, "
  "tangent and concentric configurations are told apart.",
  ['inputs'], "every position, direction, radius and extent, tangent, parallel and collinear configurations included",
  "geom_test samples a few configurations; the claim is an equivalence over all of them",
  ['src/edyn/math/geom.cpp', 'include/edyn/math/geom.hpp', 'src/edyn/math/triangle.cpp'],
  ['intersect_line_circle, intersect_circle_circle, intersect_segments, intersect_line_aabb, intersect_segment_aabb, intersect_aabb_minkowski_face',
   'intersect_ray_sphere, intersect_ray_cylinder, point_in_polygonal_prism', 'intersect_segment_triangle'],
  note='the box test for segments is separated by the six axes the code tests within its epsilon; coplanar segment-triangle pairs and ray directions within epsilon of a tolerance band are excluded by precondition')
P('C05', 'Tangent frames are orthonormal and right handed',
  "For every unit normal the generated tangent vectors have unit length, are perpendicular to the normal and to each other and form a right handed frame with it, so "
  "friction rows and contact frames never degenerate; the basis matrix has the normal as its second column.",
  ['inputs'], "every unit normal, both branches of the component test",
  "no existing test covers the tangent frames",
  ['include/edyn/math/geom.hpp', 'src/edyn/math/geom.cpp'],
  ['plane_space', 'make_tangent_basis'])
P('C06', 'Support queries return extreme points and features',
  "The support point of a box, cylinder, circle, capsule, triangle or vertex set along a direction belongs to the shape and no point of the shape is further along it; support "
  "projections equal the projection of that point, also for world-space positions and orientations. Support features (vertex, edge, face, cap, side edge) consist of the elements "
  "that are extreme within the given threshold, and leave none out.",
  ['inputs'], "every shape dimension, direction, pose and threshold",
  "no existing test covers support features; extremality is a claim over all points of the shape",
  ['src/edyn/util/shape_util.cpp', 'src/edyn/shapes/box_shape.cpp', 'src/edyn/shapes/cylinder_shape.cpp', 'src/edyn/math/triangle.cpp', 'src/edyn/math/geom.cpp'],
  ['support_point_circle, cylinder_support_point, capsule_support_projection', 'box_shape::support_point, support_feature', 'cylinder_shape::support_point, support_feature',
   'get_triangle_support_point, get_triangle_support_feature', 'support_point_box'],
  note='support_point_vertices is proved for 3 and 4 vertices; box support features are stated over the vertices of the face best aligned with the direction')
P('C07', 'Volume, centroid and inertia are those of the uniform solid',
  "Volumes of spheres, boxes, cylinders, capsules and compounds are the geometric ones. Volume and centroid of a closed mesh are those of the solid it bounds: they follow the mesh "
  "when it is translated, do not depend on where a face starts, and are exact for tetrahedra and parallelepipeds; generated box and plane meshes are closed, correctly wound and "
  "cover exactly the box or rectangle asked for. Moments of inertia are those of the uniform solid about the shape's origin, including products of inertia, any axis, and compounds.",
  ['inputs'], "every size, placement, orientation, mass and axis; meshes: every tetrahedron, parallelepiped and octahedron, plane grids up to 4x3",
  "tests check one box, one translated mesh and a few primitive volumes",
  ['src/edyn/math/shape_volume.cpp', 'src/edyn/util/shape_util.cpp', 'include/edyn/util/shape_util.hpp', 'src/edyn/dynamics/moment_of_inertia.cpp', 'include/edyn/shapes/compound_shape.hpp'],
  ['shape_volume, mesh_volume, mesh_centroid', 'make_box_mesh, make_plane_mesh', 'moment_of_inertia, moment_of_inertia_polyhedron, shift_moment_of_inertia'],
  note='meshes are covered per topology (tetrahedron, parallelepiped, octahedron, box), with arbitrary vertex positions; moment_of_inertia.cpp is compiled against declaration-only stand-ins for EnTT headers')
P('C08', 'Constraint rows solve to clamped impulses that meet their target',
  "Preparing a constraint row gives the effective mass that is the inverse of J M^-1 J^T and a right hand side that cancels the relative velocity (with restitution "
  "and error correction). Solving it keeps the accumulated impulse within the row's limits and returns exactly its change; applying that change to the bodies' delta velocities "
  "meets the velocity target unless a limit is active, and conserves linear momentum.",
  ['inputs', 'histories'], "every Jacobian, mass, inertia, velocity, accumulated impulse and limit, at any solver iteration",
  "no existing test runs the solver rows",
  ['src/edyn/constraints/constraint_row.cpp', 'include/edyn/constraints/constraint_row.hpp'],
  ['prepare_row, solve, apply_row_impulse, warm_start'])
P('C09', 'Friction impulses never exceed the normal load',
  "After solving a friction row the accumulated friction impulse is within the friction coefficient times the normal impulse of the contact row it refers to; below that limit it "
  "equals the unconstrained target. Exactly the change of the accumulated impulse is applied to the two bodies, and warm starting applies exactly the stored impulse.",
  ['inputs', 'histories'], "every normal impulse, coefficient, velocity and previous impulse, at any solver iteration",
  "no existing test runs the friction rows",
  ['src/edyn/constraints/constraint_row_spin_friction.cpp', 'src/edyn/constraints/constraint_row_friction.cpp'],
  ['solve_spin_friction, solve_friction, warm_start'])
P('C10', 'AABB queries agree with point-set semantics',
  "Boxes report containment and intersection exactly when the corresponding point sets do, the enclosing box of two boxes is the smallest box containing both, and inset, "
  "center, size and area are those of the box.",
  ['inputs'], "every pair of boxes and every point",
  "no existing test covers AABBs beyond single samples",
  ['include/edyn/comp/aabb.hpp', 'src/edyn/math/geom.cpp'],
  ['AABB::contains, intersect, enclosing_aabb, AABB::inset/center/size/area'])
P('C11', 'A bounding volume tree finds every leaf that a query or a ray touches',
  "Building a static tree from boxes puts every box in exactly one leaf, gives no leaf more than the allowed number of boxes, and makes every node's bounds enclose all that is below it, with links from parents to their two children. "
  "A query visits exactly the leaves whose bounds intersect the query box, each once, a ray visits every leaf it has a point in, a cleared tree can be built again, and no traversal visits what its test rejects.",
  ['inputs'], "every set of boxes (any overlap, coincidence or arrangement), query box and ray, and every outcome of the visiting test",
  "tests build one mesh; a leaf lost in a split or a wrong bound shows only for particular arrangements of boxes",
  ['include/edyn/collision/static_tree.hpp', 'include/edyn/collision/tree_node.hpp', 'include/edyn/collision/query_tree.hpp', 'include/edyn/collision/tree_view.hpp'],
  ['static_tree::build, detail::aabb_set_partition', 'static_tree::query, raycast, clear', 'detail::query_tree', 'tree_traverse'],
  note='the number of boxes is that of the contracts (up to 4, 5 in the thorough tier), their coordinates are unbounded; for four or more boxes, those lying along one axis.')

P('C12', 'The dynamic tree of the broadphase keeps every entry findable through any edit',
  "After any sequence of create, move, destroy and clear, every live entry has exactly one leaf with its entity whose bounds enclose its box, every internal node encloses its two children, knows its height and is the parent they "
  "name, and there is one root, with heights balanced. A query visits exactly the leaves whose bounds intersect the box; a move returns whether the leaf changed, and a destroyed entry is never visited again.",
  ['inputs', 'histories'], "every box, every move and the histories of creates, moves and removals of the contracts",
  "the tree needs an ECS the tests do not have; a lost or stale leaf needs a particular rotation or removal order",
  ['src/edyn/collision/dynamic_tree.cpp', 'include/edyn/collision/dynamic_tree.hpp', 'include/edyn/collision/query_tree.hpp'],
  ['dynamic_tree::create, move, destroy, insert, remove, best, refit, balance, allocate, free', 'dynamic_tree::query', 'detail::query_tree'],
  note='histories are those of the contracts (up to 6 entries; every removal order), boxes are arbitrary, along one axis for more than three; EnTT is replaced by declarations.')

P('C13', 'Containers keep what was inserted and nothing else',
  "The free list, the flat nested array, the vector, array and tuple helpers, the constraint row cache and the action list and history keep exactly the elements put into them: live elements of a free list have distinct indices and "
  "keep their values across removals, reuse, growth and clearing; count and empty agree with the live elements; nested arrays keep their rows; merged histories are ordered and without duplicates; erasing until a timestamp drops exactly the older entries.",
  ['inputs', 'histories'], "every value and every sequence of operations of the stated lengths",
  "wrong links between free slots only show after particular sequences of removals and insertions",
  ['include/edyn/core/free_list.hpp', 'include/edyn/core/flat_nested_array.hpp', 'include/edyn/networking/comp/action_history.hpp', 'include/edyn/dynamics/row_cache.hpp'],
  ['free_list', 'flat_nested_array', 'action_history', 'row_cache'],
  note="sequences of operations have the stated lengths (values are unbounded); assumptions are listed in the evidence file.")

P('C14', 'Unordered pairs and material mixing are order independent',
  "A pair of ids compares equal to the same ids in either order and is ordered by a strict weak order in which exactly equal pairs are equivalent, so lookups in the material "
  "mixing table do not depend on the order of the two materials. Mixed material properties are symmetric, and are the minimum, the geometric mean, the maximum or the series "
  "combination of the two as documented for each.",
  ['inputs', 'histories'], "every pair of ids and material values, every sequence of table operations",
  "no existing test covers pairs or mixing",
  ['include/edyn/core/unordered_pair.hpp', 'include/edyn/dynamics/material_mixing.hpp'],
  ['unordered_pair::operator==, operator<', 'material_mix_* functions, material_mix_table'])

P('C15', 'What is serialized is read back unchanged and bad input fails safely',
  "Whatever an output archive writes - numbers, enums, vectors, quaternions, matrices, standard containers, optionals, variants, shapes, trees, contact points, constraints, components, packets - an input archive reads back with equal values, consuming exactly "
  "the written bytes, and serialization_sizeof announces their number. An archive that runs out of data or of room fails, stays failed, leaves later targets untouched and never accesses memory outside its buffer.",
  ['inputs', 'faults'], "every value of every field, every prefix of the data and every size of the output buffer",
  "a field left out, read in another order or a truncated packet goes unnoticed unless that very field or length is tested",
  ['include/edyn/serialization/memory_archive.hpp', 'include/edyn/serialization/std_s11n.hpp', 'include/edyn/serialization/s11n_util.hpp', 'include/edyn/serialization/static_tree_s11n.hpp'],
  ['memory_input_archive', 'serialize (std containers)', 'serialize_enum', 'serialize (static_tree)'],
  note="container sizes are those of the contracts (values are unbounded); the 65535 element limit of containers is checked by bounded runs; EnTT is replaced by declarations.")

P('C16', 'Meshes know their own geometry: normals, edges, neighbours and materials',
  "A triangle mesh lists each edge once, agrees with the triangles about which edges and faces meet, marks as boundary exactly the edges of one triangle and as convex those that fall away, has unit normals on the counter-clockwise side and gives each side the "
  "normal of the triangle across it; box and ray queries visit every triangle they touch once, and per-vertex values interpolate affinely over faces and edges. A convex mesh has outward unit normals, each edge once with its two faces, "
  "symmetric neighbours, one representative of each face and edge direction, stays the same when recalculated, and its rotated copy is its rotation; walking neighbours finds the extreme vertex. "
  "Separating axes of edges and vertices are clipped into the cone of the normals around them.",
  ['inputs'], "every vertex position, query box, ray, orientation and vertex value, over the mesh topologies of the contracts (all ways two triangles can meet)",
  "trimesh_test builds one mesh; wrong adjacency or convexity shows only for particular topologies and shapes of edges",
  ['include/edyn/shapes/triangle_mesh.hpp', 'src/edyn/shapes/triangle_mesh.cpp', 'src/edyn/shapes/convex_mesh.cpp', 'src/edyn/util/shape_util.cpp', 'src/edyn/sys/update_rotated_meshes.cpp', 'src/edyn/math/triangle.cpp'],
  ['visit_triangles, raycast, visit_all, adjacency getters', 'initialize, calculate_face_normals, init_edge_indices, calculate_adjacent_normals, build_triangle_tree, friction and restitution getters, barycentric_coordinates',
   'calculate_normals, calculate_edges, calculate_neighbors, calculate_relevant_faces, calculate_relevant_edges, validate, shift_to_centroid', 'polyhedron_support_projection, make_box_mesh, get_triangle_mesh_feature_index', 'update_rotated_mesh', 'clip_triangle_separating_axis'],
  note='topologies are those of the contracts: all pairs of triangles over five vertices, triples, a tetrahedron, boxes and pyramids; coordinates are unbounded where the contract says so; EnTT is replaced by declarations for convex meshes.')

P('C17', 'The features of a box agree with each other and with its geometry',
  "The vertex, edge and face tables of a box describe one closed box: vertices are its eight distinct corners, each edge joins two corners along one axis, faces lie on their planes and wind "
  "counter-clockwise about the outward normal, each edge lies on exactly the two faces reported for it, and index look-ups invert each other. World-space variants are the "
  "rotated and translated local features; the closest feature on a face is the face, edge or vertex within the tolerance of the point, on the side of the point.",
  ['inputs'], "every box size, pose, feature index, point and tolerance",
  "no existing test covers the feature tables",
  ['src/edyn/shapes/box_shape.cpp', 'include/edyn/shapes/box_shape.hpp'],
  ['get_vertex, get_edge, get_face, get_face_normal, get_face_basis, get_edge_index, get_face_edge_index, get_edge_face_indices', 'edge_indices, face_indices, get_box_num_features'])

P('C18', 'Polygon and triangle queries agree with planar geometry',
  "A triangle is reported counter-clockwise exactly when its signed area is positive, and sorting makes it so; edges and the bounding box are those of its vertices, and a point is in a triangle's prism or a convex "
  "polygon exactly when it is beyond none of its edges. The closest point of a polygon is on its boundary with no closer one; a convex hull is a counter-clockwise subset of the points beyond "
  "which no point lies by more than the tolerance, and support polygons contain exactly the points within the tolerance of the extreme.",
  ['inputs'], "every triangle, polygon, point set, query point and tolerance",
  "no existing test covers these queries; containment and optimality are claims over all points of the plane",
  ['src/edyn/util/shape_util.cpp', 'include/edyn/util/shape_util.hpp', 'src/edyn/math/triangle.cpp'],
  ['is_triangle_ccw, sort_triangle_ccw, point_inside_convex_polygon, closest_point_convex_polygon, closest_point_polygon, calculate_convex_hull', 'point_cloud_support_point, point_cloud_support_polygon',
   'get_triangle_edges, get_triangle_aabb, point_in_triangle'],
  note='polygon loops are unrolled exactly for 3 and 4 vertices and clouds of 1, 3 and 4 points; hulls of 4 and 5 points are bounded random runs of the real code, reported as bounded and not counted as proved')
P('C19', 'Jobs run exactly once, in order, and every wait ends',
  "A job queue hands out each pushed job once, in the order of insertion and unchanged; a pop waits only while the queue is empty, survives spurious wake-ups and jobs taken by other threads, and every push "
  "wakes a waiting thread; shared state is only touched with its mutex held. A worker runs each job once, in order, reports the jobs it has left and ends after a stop, however early the stop comes; a dispatcher "
  "starts as many workers as asked, hands jobs to idle workers first, and stopping or destroying it joins all threads. A counter releases its waiter exactly when the last decrement has happened, and is not touched after that.",
  ['schedules', 'histories'], "every history of pushes and pops of up to six steps, every point where another thread can act (waits, unlocks, joins) for the scenarios of the contracts",
  "no existing test covers the job system; lost wake-ups, lost stops and use after destruction depend on the schedule",
  ['src/edyn/parallel/job_queue.cpp', 'src/edyn/parallel/job_dispatcher.cpp', 'include/edyn/parallel/worker.hpp', 'include/edyn/parallel/atomic_counter_sync.hpp', 'include/edyn/parallel/job.hpp'],
  ['job_queue::push/pop/try_pop/size', 'worker::push_job/run/once/stop/size', 'job_dispatcher::start/stop/async', 'atomic_counter_sync::decrement/wait'],
  note='threads are ghost state: another thread acts where this one waits, unlocks or joins; locking discipline is an obligation at every access of guarded memory; atomics are sequentially consistent')
P('C20', 'Contact manifolds stay bounded and never get worse',
  "Inserting a point into a contact manifold appends it only while there is room, merges it with a point closer than the merging threshold and otherwise replaces a current point or ignores the new one, "
  "never exceeding four points. Off-line and off-plane points are appended; collinear sets keep their extreme points; a full manifold is changed only when that enlarges its surface, and then by the best replacement.",
  ['inputs', 'histories'], "every current set of zero to four points and every new point",
  "no existing test covers point insertion",
  ['src/edyn/math/geom.cpp', 'include/edyn/math/geom.hpp'],
  ['insertion_point_index', 'point_insertion_type'])

NOT_APPLICABLE = []


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [i for i in sorted(META) if i in props.PROPS]
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for i in sorted(META):
            m = META[i]
            rec = {'id': i, 'title': m['title'], 'statement': m['statement'], 'quantifier': {'over': m['over'], 'text': m['text']},
                   'why_tests_cant': m['why'],
                   'anchors': {'files': m['files'], 'mechanism': [{'name': x, 'where': m['files'][min(k, len(m['files']) - 1)]} for k, x in enumerate(m['mech'])]}}
            assert len(m['title']) <= 80, m['title']
            f.write(json.dumps(rec) + '\n')
    checks = []
    for i in ids:
        m = META[i]
        checks.append({'property': i, 'quick_cmd': f"python3-vt -m vcg.check {i}", 'thorough_cmd': f"VERIF_TIER=thorough python3-vt -m vcg.check {i}",
                       'technique': m['technique'] or 'contract-based deductive verification of the LLVM IR of the real code (own VC generator; z3/cvc5 back ends)',
                       'level': m['level'], 'level_note': REAL + (m['note'] or 'assumptions are listed in the evidence file.')})
    man = {'version': 1, 'setup_cmd': 'python3-vt -m vcg.setup', 'checks': checks,
           'not_applicable': [{'property': p, 'reason': r} for p, r in NOT_APPLICABLE]}
    json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    missing = [i for i in props.PROPS if i not in META]
    assert not missing, missing


if __name__ == '__main__':
    main()
