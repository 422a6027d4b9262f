'''The properties: what each says, where it is anchored, and which analyses decide it.'''

VN = ('The current source of every module of the library is parsed and abstractly interpreted (nothing is imported or run): '
      'inputs are value numbers of a given sign, shape and kind class, heap objects are tracked by identity, branches whose '
      'condition is undecided are both followed and joined with gated (phi) values. Each obligation template in spec/ states a '
      'relation over the public API for every value in the class; it is discharged when both sides have the same normal form, '
      'reported as a violation when the derived value numbers are definitely different (or a definite exception, shape, kind, '
      'aliasing or mutation error) on a feasible path, and left undecided (quiet, listed) when any part is not modelled. '
      'The parameters of the templates enumerate finite classes (units, sign patterns, shapes, histories, flags) completely as listed.')

ASSUME = [
    'Arithmetic is over the reals: floating-point rounding, overflow and tolerances are outside the abstraction; symbolic inputs are in generic position relative to each other unless the class says otherwise.',
    'The summaries of Python, numpy and other external operations in sa/ are faithful to the versions installed for the repository (numpy 2.3.5, Python 3.12).',
    'Shapes, lengths and parameter classes are those the templates enumerate.',
]

PROPERTIES = []


def P(id, title, statement, over, text, why, files, mechanism, specs=None, engines=None, technique=None, note=None,
      observe=(), state=(), explanation=None, assumptions=None):
    engines = list(engines or ())
    if specs:
        engines.insert(0, {'engine': 'interpret', 'specs': list(specs)})
    PROPERTIES.append({
        'id': id, 'title': title, 'statement': statement, 'over': list(over), 'text': text, 'why': why, 'files': list(files),
        'mechanism': list(mechanism), 'observe': list(observe), 'state': list(state), 'engines': engines,
        'technique': technique or 'abstract interpretation of the source over value numbers and heap shapes, against obligation templates',
        'note': note or ('Static; the relations hold for every value of the enumerated shape, sign and kind classes, in exact arithmetic '
                         'and generic position. Trusts the interpreter and its summaries of numpy; what it cannot model is left undecided and listed.'),
        'explanation': explanation or VN,
        'assumptions': list(assumptions or ASSUME),
    })


G = 'blmath/geometry/'
N = 'blmath/numerics/'

P('C04', 'Polyline edges, segments and lengths always follow vertices and closedness',
  'After any sequence of constructing, assigning vertices, and opening or closing a polyline, its edges are exactly the consecutive vertex pairs (plus last-to-first when closed), and its segments, segment lengths and total length are those of the current vertices. '
  'Copies are independent of the original, flipping reverses the vertices, and the dict form describes the current state.',
  ('histories', 'inputs'), 'every order of assigning vertices and closedness, any number of vertices (0, 1, 2, 3, 5 analysed), any coordinates',
  'Tests build a handful of polylines and assign once; the derived arrays must track every history of assignments, and every vertex count.',
  [G + 'primitives/polyline.py'],
  [{'name': 'Polyline._update_edges called from both setters', 'where': G + 'primitives/polyline.py'}],
  specs=['C04'], observe=['Polyline.e', 'Polyline.segments', 'Polyline.segment_lengths', 'Polyline.total_length'],
  state=[{'name': 'e', 'meaning': 'edges derived from the vertices and closedness', 'where': G + 'primitives/polyline.py'}])

P('C05', 'Arithmetic on Values is unit-safe',
  'Adding or subtracting Values converts the right operand to the units of the left and gives a Value in those units; a ratio or floor ratio of like-unit Values is unitless and independent of the units either side is expressed in; scaling keeps the units. '
  'Combining Values of different kinds of units (or unitless with united), multiplying two Values, dividing a number by a Value, and taking a power or modulus of one, all raise instead of giving a number. No operation changes its operands.',
  ('inputs',), 'all numbers, every listed pairing of like and unlike units, scalars, lists and in-place forms',
  'Tests sample a few numbers and unit pairs; unit safety is a claim about every pair of operands.',
  ['blmath/value.py', 'blmath/units.py'],
  [{'name': 'Value._comparable and the arithmetic dunders', 'where': 'blmath/value.py'}], specs=['C05'], observe=['Value operators'])

P('C06', 'Comparisons of Values agree with converted quantities',
  'The six comparisons of two Values of the same kind of units give what comparing the same quantities in a common unit gives, whatever units each is expressed in, are mutually consistent (exactly one of <, ==, > holds; <= and >= are their unions; != is the negation of ==), and agree with the mirrored comparison. '
  'Comparing with a plain number compares the number in the units of the Value; comparing Values of different kinds of units raises.',
  ('inputs',), 'all pairs of quantities, unit pairs, and orderings of the two (less, equal, greater)',
  'Each operator is a separate method and each unit pair separate constants; tests sample a few of the combinations.',
  ['blmath/value.py'], [{'name': 'Value.__lt__ .. __ne__', 'where': 'blmath/value.py'}], specs=['C06'], observe=['Value comparison operators'])

P('C07', 'A Value keeps a float and a known unit, and converts and coerces faithfully',
  'A Value always holds a float and a recognised unit or None: construction, assignment and JSON decoding with anything else raise. Conversion by method, by unit-named attribute or to a system default gives the same quantity in the asked-for units, unitless Values refuse conversion, and an unknown attribute raises AttributeError. '
  'float, int, bool, abs, neg, round, indexing, text, JSON and prettified forms all reflect the current number and units, including after reassignment.',
  ('inputs', 'histories'), 'all numbers and every supported unit; every reassignment of number or units',
  'Tests check a few numbers and units, and never reassign before reading the derived forms.',
  ['blmath/value.py', 'blmath/units.py'], [{'name': 'the value and units setters', 'where': 'blmath/value.py'}, {'name': 'Value.__getattr__', 'where': 'blmath/value.py'}],
  specs=['C07'], observe=['Value attributes, builtins and conversions'])

P('C08', 'The registry of units is complete and consistent',
  'Every supported unit belongs to exactly one class of units, and the class listing, the list of all units and the class lookup agree; each unit (with its aliases) has its physical size. '
  'Every unit system has a default unit for every class, and each default is a supported unit of that class. Looking up an unknown unit or class raises.',
  ('inputs', 'configurations'), 'every supported unit, class and unit system',
  'Tests check a handful of units; the registry is a table where any single entry can be wrong.',
  ['blmath/units.py'], [{'name': 'the table of units and the defaults', 'where': 'blmath/units.py'}], specs=['C08'],
  observe=['units.units_class', 'units.units_in_class', 'units.all_units', 'units.default_units'])

P('C09', 'Conversions agree with each other for every pair of units',
  'For every pair of units of one class, factor, convert and the list, to-default and from-default conversions describe the same linear map: convert multiplies by the factor, factors compose transitively, the factor back is the inverse, and a unit converts to itself unchanged. '
  'Units of different classes, and unknown units, are refused with ValueError; None means unitless. Prettifying picks units of the same class and leaves the quantity the same up to the rounding it announces.',
  ('inputs',), 'every pair of supported units, all numbers',
  'There are thousands of ordered pairs of units; tests reach a few dozen.',
  ['blmath/units.py'], [{'name': 'units.factor, convert, convert_list, convert_to_default, convert_from_default, prettify', 'where': 'blmath/units.py'}],
  specs=['C09'], observe=['units functions'])

P('C10', 'Coercion, predicates and rounding give what they document for all input',
  'Coercion returns a numeric array with the same numbers in the requested shape and dtype (transposing only when only the transpose fits), and raises ValueError for None, non-numeric or misshapen input unless allowed. The numeric predicates answer correctly for scalars, arrays, lists, text, None and empty input. '
  'Rounding to a nearest step, scaling to a range, zero-safe division and the reshape and read-only helpers give the documented result without altering their inputs.',
  ('inputs',), 'every enumerated kind, dtype and shape of input; all numbers',
  'Tests sample one or two inputs per kind.',
  [N + 'coercion.py', N + 'predicates.py', N + 'rounding.py', N + 'operations.py', N + 'numpy_ext.py'],
  [{'name': 'as_numeric_array', 'where': N + 'coercion.py'}, {'name': 'isnumeric*', 'where': N + 'predicates.py'}], specs=['C10'])

P('C11', 'vx on a stack of vectors gives, row by row, what a single vector gives',
  'normalize, magnitude, proj, sproj, reject, reject_axis, pad, unpad and applying a homogeneous transform to a stack of vectors give, row by row, exactly what they give for each row alone, for any number of rows, without changing the input. '
  'Arrays of other dimensionality or width, a bad axis, and homogeneous coordinates whose last component is not one, are refused with ValueError.',
  ('inputs',), 'any stack of 1-4 rows (and single vectors), float and integer, all coordinates',
  'Tests compare one or two stacks of two rows; the claim is about every row of every stack.',
  [N + 'vector_shortcuts.py'], [{'name': 'the 1-d and 2-d branches of each function', 'where': N + 'vector_shortcuts.py'}], specs=['C11'])

P('C12', 'The vector shortcuts satisfy the algebra of vectors',
  'Normalised vectors have length one and the original direction; the projection plus the rejection of a vector gives the vector back, the projection being parallel and the rejection perpendicular to the other vector. Angles depend only on direction, are symmetric, are signed by the reference direction, and honour the units asked for. '
  'The almost-zero and almost-collinear predicates hold exactly for vectors within their tolerance, and the axis constants are the unit axes.',
  ('inputs',), 'all vectors of the enumerated sign classes; exact arithmetic',
  'Identities over all vectors; tests check single numeric examples.',
  [N + 'vector_shortcuts.py'], [{'name': 'normalize, proj, reject, angle, signed_angle, almost_*', 'where': N + 'vector_shortcuts.py'}], specs=['C12'])

P('C13', 'A plane\'s equation, distances and projections agree',
  'However a plane is built (point and normal, three points, two points and a vector), its normal has length one in the stated direction, its reference point satisfies its equation, signed distance is the equation evaluated at the point, and distance is its absolute value for single and stacked points. '
  'Projecting a point moves it along the normal onto the plane; the canonical point is the projection of the origin; flipping negates the normal and keeps the plane. Inputs are left alone and a zero normal or bad shapes raise.',
  ('inputs',), 'all planes and points of the enumerated sign classes',
  'Tests check a few axis-aligned planes.', [G + 'primitives/plane.py'],
  [{'name': 'Plane', 'where': G + 'primitives/plane.py'}], specs=['C13'])

P('C14', 'Points are classified by the side of a plane they are on',
  'The sign of each point is +1 in front, -1 behind and 0 on the plane, in order. Selecting the points in front returns exactly those in front or on the plane (inverted: behind or on it), in order, as points or as indices as asked.',
  ('inputs',), 'every enumerated side pattern of up to 6 points against planes in general and axis-aligned position',
  'Tests use one plane and one point set; classification must be right for every pattern of sides, including points on the plane.',
  [G + 'primitives/plane.py'], [{'name': 'sign, points_in_front', 'where': G + 'primitives/plane.py'}], specs=['C14'])

P('C15', 'Line and segment intersections with a plane are right, single or stacked',
  'The intersection of a line with a plane lies on both, and is None (or flagged invalid, with NaNs) exactly when they are parallel. The intersection of a segment with a plane is the point of the line when the ends are on opposite sides or touch the plane, and None otherwise. '
  'The stacked versions give, row by row, what the single versions give, and do not change their inputs.',
  ('inputs',), 'every side pattern of segment ends (in front, behind, on), general and axis-aligned planes, mixed stacks',
  'Tests check two or three segments of one plane.',
  [G + 'primitives/plane.py'], [{'name': 'line_xsection(s), line_segment_xsection(s)', 'where': G + 'primitives/plane.py'}], specs=['C15'])

P('C16', 'Cutting, crossing, subdividing and reindexing polylines preserve geometry',
  'Cutting a polyline by a plane keeps exactly the part in front: the kept vertices in order, ended by the exact points where it crosses; it raises when there is nothing to cut or the result would be in several pieces. Intersecting reports one point per crossing edge, in edge order, each on the plane and on its edge, with the edge indices when asked. '
  'Subdividing adds evenly spaced points in place so that no piece exceeds the maximum length, and reports where the original vertices went; reindexing a closed polyline starts it at the given vertex (cyclically) and refuses open ones; cutting, intersecting and reindexing leave the original alone.',
  ('inputs', 'histories'), 'every side pattern of up to 5-6 vertices against general and axis-aligned planes, open and closed',
  'Tests use one fixed curve; the splice logic depends on where the crossings fall in the vertex order.',
  [G + 'primitives/polyline.py', G + 'primitives/plane.py'],
  [{'name': 'cut_by_plane, intersect_plane, partition_by_length, reindexed', 'where': G + 'primitives/polyline.py'}], specs=['C16'])

P('C17', 'Every accessor of a Box agrees with its origin and shape',
  'For any origin and non-negative shape, the mins, maxes, mids, ranges, width, height, depth, centre and floor points, volume and surface area of a box are those of the axis-aligned cuboid; a negative or misshapen shape is refused. Reading them changes nothing.',
  ('inputs',), 'all boxes (positive and degenerate), as arrays, lists, tuples and integers',
  'Tests do not cover boxes at all.', [G + 'primitives/box.py'], [{'name': 'Box', 'where': G + 'primitives/box.py'}], specs=['C17'])

P('C18', 'Composite transforms compose in order and reverse exactly',
  'Applying a composite transform applies each appended transform in the order appended; applying it in reverse undoes it, and a range or single index selects exactly those transforms in either direction. Each kind of transform (scale, translate, convert units, rotate, reorient, 3x3 or 4x4 matrix) is the map it names, with its inverse as the reverse, and the returned index denotes it. '
  'The combined matrix agrees with applying the transforms to points, is the caller\'s own copy, and inputs and other instances are not affected.',
  ('inputs', 'histories'), 'sequences of up to 4 transforms of all kinds, all ranges, all parameters in general position',
  'Tests check single transforms and one composite; order, ranges and reverses are claims about every sequence.',
  [G + 'transform/composite.py', G + 'transform/rotation.py', 'blmath/units.py'],
  [{'name': 'CompositeTransform.append*, matrix_for, __call__', 'where': G + 'transform/composite.py'}], specs=['C18'])

P('C19', 'Points set at one coordinate tag read back consistently at every other tag',
  'After any interleaving of tags and transforms, points assigned at one tag are returned unchanged when read at that tag, and read at any other tag are exactly the transforms between the two applied forward or in reverse. Reassigning replaces them everywhere; meshes are mapped by their vertices without changing the original. '
  'Unknown tags raise KeyError from the transform and AttributeError or KeyError from the manager, reading before assigning raises ValueError, and separate managers share nothing.',
  ('histories', 'inputs'), 'every pair of up to 4 tags with transforms between them, any points, meshes',
  'Tests check one chain of tags and one direction.',
  [G + 'transform/coordinate_manager.py', G + 'transform/composite.py'],
  [{'name': 'CoordinateManager.__setattr__, __getattr__, do_transform', 'where': G + 'transform/coordinate_manager.py'}], specs=['C19'])

P('C20', 'JSON written by the library reads back as it was',
  'A Value, alone or anywhere inside a structure of lists and dicts, written to text or to a file and read back, is a Value of the same number and units, and everything else reads back as plain JSON does. '
  'Documents holding an array or a sparse matrix in the documented form decode to one with exactly those entries, shape, dtype and format, and incomplete or unknown forms are left alone or rejected. Nothing written or decoded is changed, and options are passed on.',
  ('inputs',), 'all numbers and listed units, nested structures, array shapes and dtypes, sparse formats',
  'Tests round-trip a single Value; encoding and decoding must agree for every number, unit and nesting.',
  ['blmath/util/json.py', 'blmath/value.py'],
  [{'name': 'json.dump, dumps, load, loads, decode_json; Value.for_json, from_json', 'where': 'blmath/util/json.py'}], specs=['C20'],
  assumptions=ASSUME + ['simplejson is modelled: for_json objects are replaced by what they return, tuples become lists, object_hook sees every decoded dict innermost first.'])

P('C21', 'Rotations, translations and rigid alignments are what they are documented to be',
  'The matrix from up and look, from Euler angles in any order, and from a rotation vector are proper rotations with the documented action; a vector and its matrix convert into each other (with the exact Jacobian on request), and singular input is rejected. Rotating points to the x-z plane and translating them return the image, the matrix and the offset that produce it. '
  'Aligning two sets of points that differ by a rigid motion recovers that motion, rejecting reflections as documented, and no input is changed.',
  ('inputs',), 'all vectors, angles, orders of axes, shapes of vectors, unit axes, rotations by a unit quaternion, clouds in general position or flat',
  'Tests check canonical axes and fixed angles; that every output is a rotation with the right action is a claim about all inputs.',
  [G + 'transform/rotation.py', G + 'transform/rodrigues.py', G + 'transform/translation.py', G + 'transform/rigid_transform.py'],
  [{'name': 'rotation_from_up_and_look, euler, rotate_to_xz_plane', 'where': G + 'transform/rotation.py'},
   {'name': 'rodrigues, as_rotation_matrix', 'where': G + 'transform/rodrigues.py'},
   {'name': 'find_rigid_transform, find_rigid_rotation', 'where': G + 'transform/rigid_transform.py'}], specs=['C21'],
  assumptions=ASSUME + ['The singular value decomposition is assumed to be one the template supplies, after proving that it is a decomposition of what the library passes; cv2.Rodrigues of a vector is its closed form.'])

P('C22', 'Segments, lines, triangles and extreme points obey their geometry',
  'Partitions of segments are evenly spaced with the documented ends and counts; lines in the plane and in space meet in a point of both, also when they share an endpoint, and parallel lines have no intersection. Barycentric coordinates add up to one and give the projection of the point, also in stacks and for triangles without area; triangle normals follow the right hand rule. '
  'The apex and the farthest point are extreme points of the input, inflection points are where curvature changes sign, and no input is changed.',
  ('inputs',), 'all coordinates, either side of an intersection, axis-aligned and shared-endpoint lines, stacks of up to 3, sizes of partitions, orders of points along an axis',
  'Tests check single examples; each is a claim about all coordinates and orders.',
  [G + 'segment.py', G + 'barycentric.py', G + 'apex.py', G + 'surface_normals.py'],
  [{'name': 'partition, partition_segment, line_intersect, line_intersect3', 'where': G + 'segment.py'},
   {'name': 'barycentric_coordinates_of_projection', 'where': G + 'barycentric.py'},
   {'name': 'apex, farthest, inflection_points', 'where': G + 'apex.py'}], specs=['C22'])

P('C23', 'Generated shapes are closed, consistently oriented and of the documented size',
  'Boxes, cubes and triangular prisms have exactly the documented corners, and their triangles form a closed surface without duplicate or missing triangles, all facing outward, enclosing the documented volume; the prism extends behind its base. The horizontal plane is two triangles facing the same way. '
  'The flattened form is the corners of the same triangles in the same order, the arguments are not changed, and the result shares nothing with them.',
  ('inputs',), 'all origins, sizes and corners, both forms of result, arrays and lists',
  'No test covers the shapes; orientation and closedness are claims about all triangles together.',
  [G + 'shapes.py'],
  [{'name': 'create_rectangular_prism, create_cube, create_triangular_prism, create_horizontal_plane', 'where': G + 'shapes.py'}], specs=['C23'],
  assumptions=ASSUME + ['lace.topology.quads_to_tris is modelled as the fan from the first corner of each quad.'])

P('C24', 'A plane cuts a mesh into exactly its curves of intersection',
  'Intersecting a mesh with a plane gives exactly the faces with vertices on both sides, and one curve per connected piece of the intersection: its points are exactly the crossings of edges with the plane, each once, consecutive ones joined by a face, closed exactly when the piece is a loop. '
  'No curve is reported for a mesh on one side; with a neighborhood, only the component nearest to it is returned, and flattening the result to one polyline keeps all of it. The mesh and the plane are not changed.',
  ('inputs',), 'meshes with and without boundary, of up to 9 vertices, with loops, open curves and several components, in every tested order of faces and corners, vertices anywhere on their side',
  'Tests cut one box and two boxes; the walk over the crossing edges depends on the order of faces and corners.',
  [G + 'primitives/plane.py', G + 'primitives/polyline.py'],
  [{'name': 'Plane.mesh_xsections, mesh_xsection, mesh_intersecting_faces', 'where': G + 'primitives/plane.py'}], specs=['C24'],
  assumptions=ASSUME + ['cKDTree.query is modelled as the nearest point; the mesh is any object with v and f.'])

P('C25', 'Differentiable normals have the right values and exact Jacobians',
  'The row-wise cross product, the triangle edges, the scaled and unit normals of triangles and the normals of vertices are what they are named for, and the Jacobian each reports with respect to each input is the exact derivative of its value. '
  'Both stay right after an input is set anew or changed in place, whether or not values or Jacobians were asked for before; no input is changed.',
  ('inputs', 'histories'), 'all coordinates; meshes of one to four triangles with shared and isolated vertices, in both orders of corners; every order of asking and setting',
  'Tests compare a few Jacobians numerically at one point; exactness and freshness are claims about all points and histories.',
  ['blmath/optimization/objectives/normals.py'],
  [{'name': 'CrossProduct, TriEdges, TriNormals, TriNormalsScaled, NormalizedNx3, VertNormals', 'where': 'blmath/optimization/objectives/normals.py'}], specs=['C25'],
  assumptions=ASSUME + ['chumpy (absent here) is modelled after its documentation: terms and dterms, caching, the chain rule.'])

P('C26', 'The console asks until it gets a number, and gives what was typed',
  'Asking for a number or a value returns exactly what was typed, as a float or as a Value in the units asked for; input that is not a number is asked for again, however often; an empty answer is accepted only when it is allowed, and gives None.',
  ('inputs', 'histories'), 'every unit, a range of notations of numbers, any refused answers before, empty answers allowed or not',
  'The console is not tested at all.',
  ['blmath/console.py'],
  [{'name': 'input_float, input_value', 'where': 'blmath/console.py'}], specs=['C26'],
  assumptions=ASSUME + ['plumbum.cli.terminal.prompt is modelled: it parses what is typed with the type it is given, asks again on ValueError, and returns the default for an empty answer.'])

P('C29', 'Convexified curves are the hull of the curve, in its plane and order',
  'Convexifying a planar curve hulls an undistorted projection of it along its normal (given or estimated), and returns exactly the vertices on the hull, in hull order, at their original positions, closed as the curve is, with their indices on request. '
  'Flattening moves vertices only along the normal, to the plane through their center. The direction and length of the normal do not matter; the curve is not changed and the result is apart from it.',
  ('inputs',), 'all coordinates in every listed orientation of the plane, any vertices on the hull, both entry points and all flags, curves of no or one vertex',
  'Tests hull one or two curves in one plane; the projection must be right for every plane.',
  [G + 'convexify.py'],
  [{'name': 'convexify_planar_curve, convexify_and_flatten_planar_curve', 'where': G + 'convexify.py'}], specs=['C29'],
  assumptions=ASSUME + ['Which vertices scipy reports as the hull, and the frame the principal components give, are supplied by the template.'])

P('C30', 'Block-sparse products equal those of the matrix they came from',
  'Masking a sparse matrix keeps exactly the entries in the chosen rows and columns (when masking by both, a mask choosing none is ignored). However its rows and columns are split in sparse and dense ones (given, or found by the threshold), a block-sparse matrix has the blocks it names, and its products with vectors and matrices, M M.T and M.T M are those of the matrix it came from, which never changes. '
  'The conjugate gradient solvers pass on the right operator, right hand side and starting point, and each step is the exact step of the method.',
  ('inputs',), 'all entries, every mask of matrices up to 4 by 4, csr, csc, coo and lil formats, every pattern listed (with empty rows, tall, wide, full)',
  'Tests multiply one random matrix; every mask and pattern must agree.',
  [N + 'linalg/static_block_sparse_matrix.py', N + 'linalg/sparse_cg.py'],
  [{'name': 'StaticBlockSparseMatrix, mask_sparse_matrix', 'where': N + 'linalg/static_block_sparse_matrix.py'},
   {'name': 'block_sparse_cg_solve, conjGradSolve', 'where': N + 'linalg/'}], specs=['C30'])

P('C31', 'Gram-Schmidt, changes of basis and matrix helpers obey their algebra',
  'Orthogonalized vectors are mutually orthogonal and span what the originals span, in the same order, and orthonormalized ones have unit length; the isomorphism between two bases maps each vector to its counterpart, and dependent vectors are refused. '
  'Broadcasting, sparse construction, reshaping, row and column views, safe division and scaling to a range compute what their documentation says for every shape and order, refuse shapes which do not fit, and leave their inputs alone.',
  ('inputs',), 'all entries; up to 3 (4 for flags of axes) vectors; every listed shape, operator, order of values and place of a zero divisor',
  'Tests give a few numeric examples; the algebra must hold for all vectors and shapes.',
  [N + 'linalg/gram_schmidt.py', N + 'linalg/isomorphism.py', N + 'matlab.py', N + 'numpy_ext.py', N + 'operations.py'],
  [{'name': 'orthogonalize, orthonormalize, isomorphism', 'where': N + 'linalg/'},
   {'name': 'bsxfun, sparse, row, col', 'where': N + 'matlab.py'},
   {'name': 'np_reshape_safe, np_readonly', 'where': N + 'numpy_ext.py'},
   {'name': 'zero_safe_divide, scale_to_range', 'where': N + 'operations.py'}], specs=['C31'])

P('C28', 'The sparse Cholesky factor is returned whole, and nothing is leaked',
  'For every sparse matrix the factorization is of the lower triangle of the matrix given, and what is returned is the factor, its permutation and where it fails: L times its transpose is the matrix reordered, and when the matrix is not positive definite, the columns before the failure. '
  'On every path through the compiled code each reference and allocation is released exactly once, no memory is read or written beyond its end or after its release, and a failure raises; the matrix is never changed, whatever types it has.',
  ('inputs',), 'every path through the compiled module over symbolic sizes; matrices up to 3 by 3 with every listed permutation, place of failure, type and format around it',
  'Tests factorize one matrix; leaks, overruns and paths of failure do not show there.',
  [N + 'linalg/lchol.py', N + 'linalg/cholmod.c'],
  [{'name': 'lchol', 'where': N + 'linalg/lchol.py'}, {'name': 'cholmod_lchol_c, sputil_trim, sputil_config', 'where': N + 'linalg/cholmod.c'}], specs=['C28'],
  engines=[{'engine': 'csource'}],
  technique='ownership, bounds and dataflow analysis of every path of the C source (clang syntax tree); abstract interpretation of its Python caller',
  assumptions=ASSUME + ['CHOLMOD, Python and numpy functions do what they document; what only running out of memory makes NULL is not judged.'])

P('C01', 'No call changes what it is given',
  'No public function, method, property or constructor changes the arguments it is given, or the object it asks a question of, whatever form they come in: float or integer arrays, lists, tuples, or views of larger arrays; not even when it raises. '
  'This leaves out calls whose purpose is to change their object: setters, appending to a transform, closing a polyline.',
  ('inputs', 'programs'), 'about 130 public calls by six forms of argument, each made twice; all values of the entries',
  'Tests look at results; a changed argument shows later and elsewhere, in code of the caller.',
  ['blmath/'],
  [{'name': 'the public API', 'where': 'blmath/geometry, blmath/numerics, blmath/units.py, blmath/value.py, blmath/util'}], specs=['C01'])

P('C02', 'What a call computes is the caller\'s own',
  'What a public call computes shares no storage with its arguments, with the library\'s own tables and defaults, or with the result of another call: writing to one result changes no argument and no other answer. '
  'Left out are calls which hand back what they were given or hold, such as the farthest of some points, a plane\'s reference point or a polyline\'s vertices; even these give away no table or default of the library.',
  ('inputs', 'programs'), 'about 130 public calls by four forms of argument; all values of the entries',
  'Shared storage shows only when someone writes to a result later.',
  ['blmath/'],
  [{'name': 'the public API', 'where': 'blmath/geometry, blmath/numerics, blmath/units.py, blmath/value.py, blmath/util'}], specs=['C02'])

P('C03', 'An answer depends on nothing asked before',
  'Every public call gives the same answer for equal arguments, whatever was called before it: the same call on the same object, the same call with other values and other types, or any of its neighbours in the library.',
  ('inputs', 'histories'), 'about 130 public calls: asked twice; after the same call with other values, as arrays, integers or lists; after all the calls it shares a module or table with',
  'Tests call each function in a fixed order with a few values; leftover state needs a particular history.',
  ['blmath/'],
  [{'name': 'the public API', 'where': 'blmath/geometry, blmath/numerics, blmath/units.py, blmath/value.py, blmath/util'}], specs=['C03'])

P('C27', 'An answer depends on values, not on what they come in',
  'Every public call gives the same answer for an array of integers, a view of every second row of a larger array, or an array stored by columns as it gives for an ordinary array of floats with the same values. '
  'Where lists or tuples are taken instead of arrays they give that answer as well; a function which only takes arrays refuses them with an exception, and never answers something else.',
  ('inputs',), 'about 130 public calls by integers, strided views, column order, lists and tuples; all values of the entries',
  'Tests use arrays of floats; integer arithmetic, truncation and memory order show only in other forms.',
  ['blmath/'],
  [{'name': 'the public API', 'where': 'blmath/geometry, blmath/numerics, blmath/units.py, blmath/value.py, blmath/util'}], specs=['C27'])

P('C32', 'Correspondences move the given vertices as source moves to destination',
  'Applying a correspondence establishes it from exactly the source and destination given and applies it to exactly the vertices given, by position or by keyword. '
  'The result is differentiable (and follows its inputs when they move) exactly when one of them is, and is a plain array otherwise; nothing given is changed.',
  ('inputs',), 'every combination of plain and differentiable source, destination and vertices',
  'The function is not tested at all: it needs a package which is not public.',
  [G + 'transform/correspondence.py'],
  [{'name': 'apply_correspondence', 'where': G + 'transform/correspondence.py'}], specs=['C32'],
  assumptions=ASSUME + ['bodylabs (not available) is modelled: coefficients are the offsets of the destination from the source, landmarks the vertices plus those.'])



def X(id, title, statement, over, text, why, files, mechanism, reason):
    NOT_APPLICABLE.append({'id': id, 'title': title, 'statement': statement, 'over': list(over), 'text': text, 'why': why,
                           'files': list(files), 'mechanism': list(mechanism), 'reason': reason})


NOT_APPLICABLE = []

X('C33', 'Results are accurate to a few units in the last place',
  'Distances, projections, intersections, transforms and conversions are within a small relative error of the exact result, for inputs of any magnitude, including badly conditioned ones.',
  ('inputs',), 'all floating-point inputs',
  'Error depends on magnitude and conditioning, which no sample covers.',
  [G + 'primitives/plane.py', G + 'segment.py', N + 'vector_shortcuts.py'],
  [{'name': 'all floating-point arithmetic', 'where': N + 'vector_shortcuts.py'}],
  'The analysis is over the reals. A sound bound needs the ranges and conditioning of run-time operands, which callers choose freely. What rounding can break qualitatively (domain of acos and sqrt, exact comparisons) is decided under C12 and C21.')

X('C34', 'Conjugate gradients converge to the solution within the iteration limit',
  'For every symmetric positive definite matrix, the conjugate gradient solver ends with a residual under the tolerance within the allowed iterations, or says it did not.',
  ('inputs',), 'all symmetric positive definite systems',
  'Convergence depends on the spectrum of the matrix.',
  [N + 'linalg/static_block_sparse_matrix.py', N + 'linalg/sparse_cg.py'],
  [{'name': 'conjGradSolve', 'where': N + 'linalg/static_block_sparse_matrix.py'}],
  'The number of iterations depends on run-time eigenvalues and on rounding; no static bound is in reach. The recurrence itself, the stopping rule and the exact answer after n steps for small systems are decided under C30.')

X('C35', 'Rigid alignment of noisy points is the least-squares optimum',
  'For corresponding points related by a rigid transform plus noise, the transform found minimises the sum of squared distances over all rigid transforms.',
  ('inputs',), 'all sets of corresponding points',
  'Tests align a few exactly related sets.',
  [G + 'transform/rigid_transform.py'],
  [{'name': 'find_rigid_transform, find_rigid_rotation', 'where': G + 'transform/rigid_transform.py'}],
  'Optimality rests on the singular value decomposition computed by LAPACK at run time, whose source is not here; C21 decides what is passed to it and what is made of the factors, for exactly related points.')

X('C36', 'The hull found by qhull is the convex hull',
  'The vertices kept by convexifying a curve are exactly the extreme points of its convex hull, however many vertices it has.',
  ('inputs',), 'all planar curves',
  'Tests hull one or two curves.',
  [G + 'convexify.py'],
  [{'name': 'scipy.spatial.ConvexHull', 'where': G + 'convexify.py'}],
  'The hull is computed by qhull at run time on coordinates; its source is not in this repository. C29 decides that it is given an undistorted projection and that its answer is used faithfully.')

X('C37', 'The estimated normal is the direction in which points vary least',
  'Estimating the normal of nearly planar points gives the unit direction of least variance.',
  ('inputs',), 'all nearly planar point sets',
  'The estimate is not tested.',
  [G + 'transform/rotation.py'],
  [{'name': 'estimate_normal', 'where': G + 'transform/rotation.py'}],
  'The components come from the PCA of scikit-learn at run time. C21 and C29 decide which component is taken, that it has length one, and what is done with it.')

X('C38', 'The sparse Cholesky factor is numerically that of the matrix',
  'For every sparse positive definite matrix the factor times its transpose is the permuted matrix up to rounding, whatever its sparsity pattern.',
  ('inputs',), 'all sparse positive definite matrices',
  'Tests factor one matrix.',
  [N + 'linalg/lchol.py', N + 'linalg/cholmod.c'],
  [{'name': 'cholmod_l_analyze, cholmod_l_factorize', 'where': N + 'linalg/cholmod.c'}],
  'The factor is computed by SuiteSparse at run time. C28 decides that it is given the whole lower triangle and that its factor, permutation and failure column come back whole.')

X('C39', 'Large meshes and matrices are handled in time and memory near linear',
  'Cutting meshes, masking sparse matrices and building block-sparse patterns take time and memory near linear in their size.',
  ('inputs',), 'all sizes',
  'Tests use small meshes.',
  [G + 'primitives/plane.py', N + 'linalg/static_block_sparse_matrix.py'],
  [{'name': 'mesh_xsections, StaticBlockSparseMatrix', 'where': G + 'primitives/plane.py'}],
  'Cost is a run-time quantity of numpy, scipy and the interpreter; the library states no bound which a static rule could be checked against.')
