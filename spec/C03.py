'''An answer depends on what was asked, and on nothing asked before.'''
from sa import same, freeze, unchanged, outcome
from spec_calls import CASES, NAMES, FORMS, Given


def o_again(call=NAMES, form=('floats', 'ints', 'lists')):
    args, fn = CASES[call](Given(form))
    first = freeze(outcome(fn, *args))
    same(outcome(fn, *args), first, '%s answers the same when asked again' % call)


def o_after_others(call=NAMES, form=('floats', 'ints'), other=('floats', 'lists')):
    args, fn = CASES[call](Given(form))
    first = freeze(outcome(fn, *args))
    oargs, ofn = CASES[call](Given(other, 'z'))
    outcome(ofn, *oargs)
    again, fn = CASES[call](Given(form))
    same(outcome(fn, *again), first, '%s answers the same after another was asked' % call)


# Calls which share a module, or state such as a class or a table.
TOGETHER = {
    'apex': ('apex', 'inflection_points', 'farthest', 'polyline_apex'),
    'shapes': ('prism', 'prism_faces', 'cube', 'triangular_prism', 'triangular_prism_flat', 'horizontal', 'box', 'box_ranges', 'box_points', 'box_numbers', 'triangular_prism_lists'),
    'plane': ('plane', 'plane_points', 'plane_vector', 'plane_fit', 'plane_asks', 'plane_flipped', 'plane_sign', 'plane_signed_distance', 'plane_in_front', 'plane_in_front_indices', 'plane_distance', 'plane_distance_of_one', 'plane_project', 'plane_text', 'plane_zero', 'plane_in_front_inverted', 'plane_in_front_indices_plain'),
    'crossing': ('plane_line', 'plane_segment', 'plane_lines', 'plane_segments', 'plane_polyline', 'polyline_intersect', 'line_intersect', 'line_intersect3', 'polyline_intersect_plain', 'plane_parallel_lines', 'plane_some_segments'),
    'mesh': ('plane_mesh', 'plane_meshes', 'plane_mesh_near', 'plane_mesh_faces'),
    'polyline': ('polyline', 'polyline_asks', 'polyline_segments', 'polyline_copy', 'polyline_dict', 'polyline_reindexed', 'partition', 'partition_segment', 'partition_segment_old', 'polyline_partition', 'polyline_flip', 'polyline_assign', 'polyline_text', 'polyline_open_reindexed', 'polyline_reindexed_plain'),
    'cut': ('polyline_cut', 'polyline_cut_closed', 'polyline_intersect'),
    'transform': ('transform', 'transform_back', 'transform_part', 'transform_none', 'transform_matrix', 'append4', 'append3', 'translate', 'reorient', 'rotate', 'rotate_matrix', 'to44', 'to33', 'append4_alone', 'append3_alone', 'scale', 'convert_units', 'translate_matrix', 'rotate_matrix_for', 'reorient_matrix', 'transform_several'),
    'coordinates': ('coordinates', 'coordinates_back', 'coordinates_mesh', 'transform', 'transform_back', 'coordinates_assign', 'coordinates_unknown', 'coordinates_mesh_back'),
    'rotation': ('rodrigues', 'rodrigues_jacobian', 'rodrigues_back', 'as_rotation', 'as_rotation_same', 'estimate_normal', 'to_xz', 'to_xz_normal', 'up_and_look', 'euler', 'euler_radians', 'euler_number', 'translation', 'translation_default', 'rigid', 'rigid_rotation', 'rigid_rows', 'rigid_rotation_one', 'euler_short', 'up_and_look_wrong'),
    'linalg': ('orthogonalize', 'orthonormalize', 'orthonormalize_indices', 'gs_proj', 'isomorphism', 'isomorphism_wrong'),
    'sparse': ('masks', 'mask_rows', 'mask_columns', 'blocks', 'blocks_matvec', 'blocks_matmat', 'blocks_products', 'lchol', 'sparse', 'sparse_shape', 'blocks_solve', 'blocks_solve_default', 'blocks_products_rows', 'masks_none', 'cg'),
    'numbers': ('numeric_array', 'numeric_array_type', 'bsxfun', 'row', 'reshape', 'scale_to_range', 'zero_safe_divide', 'predicates', 'rounded_list', 'rounded_array', 'round_to', 'numeric_array_transposed', 'zero_safe_divide_default', 'bsxfun_tiles', 'bsxfun_tiles_back'),
    'vx': ('normalize', 'normalize_rows', 'sproj', 'proj', 'reject', 'reject_axis', 'reject_axis_squash', 'magnitude', 'magnitudes', 'angle', 'signed_angle', 'almost_zero', 'almost_collinear', 'pad', 'unpad', 'homogeneous', 'basis', 'proj_rows', 'reject_rows', 'reject_axis_rows', 'unpad_wrong', 'almost_zero_wide'),
    'units': ('unit_names', 'unit_defaults', 'unit_convert', 'unit_convert_list', 'unit_convert_default', 'unit_prettify', 'value_asks', 'value_math', 'value_plus', 'value_compare', 'value_from_json', 'json', 'unit_defaults_plain', 'unit_system_default', 'unit_system_metric', 'unit_prettify_precision', 'unit_prettify_length', 'unit_prettify_length_precision', 'unit_prettify_weight', 'unit_lists', 'unit_factor', 'unit_class', 'value_of_list', 'value_plus_list', 'value_text', 'value_number', 'value_wrong', 'json_array', 'json_array_plain', 'json_sparse', 'json_sparse_rows', 'json_value', 'json_options'),
    'surfaces': ('barycentric', 'barycentrics', 'surface_normal', 'surface_normals', 'convexify', 'convexify_flat', 'barycentrics_flat'),
}
MEMBERS = tuple([g + ' ' + n for g in sorted(TOGETHER) for n in TOGETHER[g]])


def o_after_neighbours(call=MEMBERS):
    group, name = call.split(' ')
    args, fn = CASES[name](Given('floats'))
    first = freeze(outcome(fn, *args))
    for n in TOGETHER[group]:
        if n != name:
            oargs, ofn = CASES[n](Given('floats', 'z'))
            outcome(ofn, *oargs)
    again, fn = CASES[name](Given('floats'))
    same(outcome(fn, *again), first, '%s answers the same after its neighbours were asked' % name)
