'''The answer depends on the values given, not on what they are given in.'''
from sa import same, outcome, freeze, holds
from spec_calls import CASES, NAMES, Given, relaid

# What each form is compared with: an array of floats of its own, of the same values.
PLAIN = {'ints': 'whole', 'views': 'packed', 'columns': 'rows', 'lists': 'floats', 'tuples': 'floats'}

# These are documented to take arrays, or nothing is said; given something else, they may refuse it.
ARRAYS_ONLY = (
    'angle', 'apex', 'append3', 'as_rotation', 'as_rotation_same', 'barycentric', 'barycentrics', 'bsxfun', 'coordinates',
    'coordinates_back', 'farthest', 'homogeneous', 'inflection_points', 'line_intersect3', 'magnitude', 'magnitudes',
    'normalize', 'normalize_rows', 'orthogonalize', 'orthonormalize', 'orthonormalize_indices', 'pad', 'partition',
    'partition_segment', 'partition_segment_old', 'plane', 'plane_fit', 'plane_in_front', 'plane_project', 'plane_segments',
    'proj', 'reject', 'reject_axis', 'reject_axis_squash', 'rigid', 'rigid_rotation', 'signed_angle', 'sproj',
    'surface_normal', 'to44', 'transform', 'transform_back', 'transform_none', 'transform_part', 'transform_several',
    'rigid_rows', 'rigid_rotation_one', 'reject_rows', 'reject_axis_rows', 'proj_rows', 'coordinates_assign',
    'bsxfun_tiles', 'bsxfun_tiles_back', 'barycentrics_flat', 'append3_alone', 'plane_in_front_inverted',
    'plane_sign', 'plane_signed_distance', 'plane_distance', 'plane_distance_of_one', 'plane_in_front_indices',
    'plane_in_front_indices_plain', 'plane_lines', 'plane_some_segments', 'plane_asks', 'plane_flipped', 'surface_normals', 'to33',
    'transform_matrix', 'append4', 'append4_alone', 'scale_to_range', 'almost_zero', 'almost_zero_wide', 'almost_collinear', 'row',
    'reshape', 'unpad', 'unpad_wrong', 'gs_proj', 'isomorphism', 'isomorphism_wrong', 'masks', 'mask_rows', 'mask_columns',
    'masks_none', 'blocks', 'blocks_matvec', 'blocks_matmat', 'blocks_products', 'blocks_solve', 'blocks_solve_default',
    'blocks_products_rows', 'sparse', 'sparse_shape', 'zero_safe_divide', 'zero_safe_divide_default', 'lchol', 'cg',
    'translation', 'translation_default', 'estimate_normal', 'to_xz', 'to_xz_normal', 'polyline_apex', 'polyline_intersect',
    'polyline_intersect_plain', 'polyline_cut', 'polyline_cut_closed', 'plane_mesh', 'plane_meshes', 'plane_mesh_near',
    'plane_mesh_faces', 'plane_polyline', 'convexify', 'convexify_flat', 'reorient', 'reorient_matrix', 'translate', 'translate_matrix',
    'plane_zero', 'plane_text')


def o_arrays(call=NAMES, form=('ints', 'views', 'columns')):
    args, fn = CASES[call](Given(PLAIN[form]))
    want = freeze(outcome(fn, *args))
    args, fn = CASES[call](Given(form))
    if form != 'ints' and call != 'reshape':        # which is documented to refuse what it would have to copy
        args = relaid(args, form)
    same(outcome(fn, *args), want, '%s gives for %s what it gives for arrays of floats' % (call, form))


def o_lists(call=NAMES, form=('lists', 'tuples')):
    args, fn = CASES[call](Given(PLAIN[form]))
    want = outcome(fn, *args)
    args, fn = CASES[call](Given(form))
    got = outcome(fn, *args)
    if call in ARRAYS_ONLY and got[0] == 'error':
        return
    same(got, want, '%s gives for %s what it gives for arrays' % (call, form))
