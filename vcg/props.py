"""Which contracts and which repository sources decide which property."""
M = 'src/edyn/math/'
S = 'src/edyn/shapes/'
PROPS = {
    'C01': {'groups': [{'contract': 'c01_rotation.cpp', 'sources': [M + 'quaternion.cpp', M + 'geom.cpp']}]},
    'C02': {'groups': [{'contract': 'c02_algebra.cpp', 'sources': []}]},
    'C07': {'groups': [{'contract': 'c07_mass.cpp', 'sources': [M + 'shape_volume.cpp', M + 'quaternion.cpp', 'src/edyn/util/shape_util.cpp', M + 'geom.cpp', M + 'triangle.cpp', S + 'triangle_mesh.cpp', S + 'polyhedron_shape.cpp']},
        {'contract': 'c07_inertia.cpp', 'shim': True, 'sources': ['src/edyn/dynamics/moment_of_inertia.cpp', M + 'shape_volume.cpp', M + 'quaternion.cpp', 'src/edyn/util/shape_util.cpp', M + 'geom.cpp', M + 'triangle.cpp', S + 'triangle_mesh.cpp', S + 'polyhedron_shape.cpp']}]},
    'C08': {'groups': [{'contract': 'c08_rows.cpp', 'sources': ['src/edyn/constraints/constraint_row.cpp']}]},
    'C09': {'groups': [{'contract': 'c09_friction.cpp', 'sources': ['src/edyn/constraints/constraint_row_spin_friction.cpp']},
                       {'contract': 'c09_circle.cpp', 'shim': True, 'sources': ['src/edyn/constraints/constraint_row_friction.cpp', 'src/edyn/util/constraint_util.cpp']}]},
    'C10': {'groups': [{'contract': 'c10_aabb.cpp', 'sources': [M + 'geom.cpp', M + 'quaternion.cpp']}]},
    'C11': {'groups': [{'contract': 'c11_tree.cpp', 'sources': [M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp']}]},
    'C12': {'groups': [{'contract': 'c12_dyntree.cpp', 'shim': True, 'sources': ['src/edyn/collision/dynamic_tree.cpp', M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp']}]},
    'C13': {'groups': [{'contract': 'c13_containers.cpp', 'sources': []}]},
    'C14': {'groups': [{'contract': 'c14_pairs.cpp', 'sources': []}]},
    'C15': {'groups': [{'contract': 'c15_archive.cpp', 'sources': []},
        {'contract': 'c15_s11n.cpp', 'shim': True, 'sources': []}]},
    'C16': {'groups': [{'contract': 'c16_mesh.cpp', 'sources': [M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp', 'src/edyn/util/shape_util.cpp', S + 'triangle_mesh.cpp']},
        {'contract': 'c16_convex.cpp', 'shim': True, 'sources': [M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp', M + 'shape_volume.cpp', 'src/edyn/util/shape_util.cpp', S + 'triangle_mesh.cpp', S + 'convex_mesh.cpp', 'src/edyn/sys/update_rotated_meshes.cpp']}]},
    'C19': {'groups': [{'contract': 'c19_jobs.cpp', 'sources': ['src/edyn/parallel/job_queue.cpp', 'src/edyn/parallel/job_dispatcher.cpp']}]},
    'C04': {'groups': [{'contract': 'c04_intersect.cpp', 'sources': [M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp']}]},
    'C05': {'groups': [{'contract': 'c05_basis.cpp', 'sources': [M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp']}]},
    'C06': {'groups': [{'contract': 'c06_support.cpp', 'sources': [M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp', 'src/edyn/util/shape_util.cpp', S + 'box_shape.cpp', S + 'cylinder_shape.cpp', S + 'triangle_mesh.cpp']}]},
    'C03': {'groups': [{'contract': 'c03_circles.cpp', 'sources': [M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp']}, {'contract': 'c03_closest.cpp', 'sources': [M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp']}]},
    'C17': {'groups': [{'contract': 'c17_box.cpp', 'sources': [M + 'quaternion.cpp', S + 'box_shape.cpp', 'src/edyn/util/shape_util.cpp', M + 'geom.cpp', M + 'triangle.cpp', S + 'triangle_mesh.cpp']}]},
    'C18': {'groups': [{'contract': 'c18_polygons.cpp', 'sources': [M + 'quaternion.cpp', 'src/edyn/util/shape_util.cpp', M + 'geom.cpp', M + 'triangle.cpp', S + 'triangle_mesh.cpp']}]},
    'C20': {'groups': [{'contract': 'c20_manifold.cpp', 'sources': [M + 'geom.cpp', M + 'quaternion.cpp', M + 'triangle.cpp', S + 'triangle_mesh.cpp']}]},
}
