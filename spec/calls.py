'''Every public call, with its arguments in each form a caller may use.'''
import numpy as np
import scipy.sparse as sp
from scipy.spatial import ConvexHull
from sklearn.decomposition import PCA
import sa
from sa import svd_is, eig_is
from blmath import units, value
from blmath.geometry import apex as apex_module
from blmath.geometry import Box, Plane, Polyline, segment, shapes
from blmath.geometry import surface_normals, barycentric, convexify
from blmath.geometry.transform import CompositeTransform, CoordinateManager
from blmath.geometry.transform import composite, rigid_transform, rodrigues, rotation, translation
from blmath.numerics import coercion, matlab, numpy_ext, operations, predicates, rounding, vx
from blmath.numerics.linalg import gram_schmidt, isomorphism, static_block_sparse_matrix, lchol, sparse_cg
from blmath.numerics.linalg.cholmod import Factor
from blmath.util import json
from blmath.value import Value
from spec_frames import frame

FORMS = ('floats', 'ints', 'lists', 'tuples', 'views', 'columns')


class Prefix(object):
    '''Tells the inputs of one call from those of another.'''
    text = ''


def sym(name, *args, **kwargs):
    return sa.sym(Prefix.text + name, *args, **kwargs)


def arr(name, *args, **kwargs):
    return sa.arr(Prefix.text + name, *args, **kwargs)


class Given(object):
    '''Makes arguments of one form.'''
    def __init__(self, form, prefix=''):
        self.form = form
        Prefix.text = prefix

    def of(self, name, shape, sign='?'):
        if self.form in ('views', 'packed'):
            # Every second row of something larger.
            a = arr(name, (2 * shape[0],) + tuple(shape[1:]), sign)[::2]
            return a if self.form == 'views' else a.copy()
        if self.form in ('columns', 'rows'):
            a = arr(name, tuple(shape[::-1]), sign)
            return a.T if self.form == 'columns' else a.T.copy()
        a = arr(name, shape, sign, integer=self.form in ('ints', 'whole'))
        if self.form == 'whole':
            return a.astype(np.float64)
        if self.form == 'lists':
            return a.tolist()
        if self.form == 'tuples':
            if len(shape) == 1:
                return tuple(a.tolist())
            return tuple([tuple(r) for r in a.tolist()])
        return a

    def points(self, name, n=3):
        return self.of(name, (n, 3))

    def vector(self, name, sign='?'):
        return self.of(name, (3,), sign)

    def number(self, name, sign='?'):
        a = sym(name, sign, integer=self.form in ('ints', 'whole'))
        return float(a) if self.form == 'whole' else a

    def quarter_turn(self):
        m = np.array([[0., -1., 0.], [1., 0., 0.], [0., 0., 1.]])
        svd_is(m.copy(), np.ones(3), np.eye(3))
        if self.form == 'columns':
            return m.T.copy().T
        if self.form == 'views':
            out = np.zeros((6, 3))
            out[::2] = m
            return out[::2]
        return m.tolist() if self.form in ('lists', 'tuples') else m

    def exactly(self, values):
        '''Some whole numbers.'''
        if self.form in ('lists', 'tuples'):
            return list(values) if self.form == 'lists' else tuple(values)
        if self.form == 'views':
            out = np.zeros((2 * len(values),))
            out[::2] = values
            return out[::2]
        if self.form == 'ints':
            return np.array([int(x) for x in values])
        return np.array(values)


def plane():
    return Plane(arr('pp', (3,)), np.array([0., .6, .8]))


def line(n=3, closed=False, name='v'):
    return Polyline(arr(name, (n, 3)), closed=closed)


def zigzag(closed=False):
    '''A polyline through the plane.'''
    p = plane()
    hs = [sym('h%d' % i, '+' if i < 2 else '-') for i in range(4)]
    q = arr('q', (4, 3))
    n = np.array([0., .6, .8])
    v = np.array([p.reference_point + h * n + sym('a%d' % i) * np.array([1., 0., 0.]) + sym('b%d' % i) * np.array([0., .8, -.6]) for i, h in enumerate(hs)])
    return p, Polyline(v, closed=closed)


class Mesh(object):
    def __init__(self, v, f):
        self.v = v
        self.f = f


def tetra():
    p = plane()
    hs = [sym('h%d' % i, '+' if i < 1 else '-') for i in range(4)]
    n = np.array([0., .6, .8])
    v = np.array([p.reference_point + h * n + sym('a%d' % i) * np.array([1., 0., 0.]) + sym('b%d' % i) * np.array([0., .8, -.6]) for i, h in enumerate(hs)])
    return p, Mesh(v, np.array([(0, 1, 2), (0, 3, 1), (1, 3, 2), (2, 3, 0)], dtype=np.uint32))


def relaid(x, form):
    '''The same, its arrays laid out otherwise in memory.'''
    if isinstance(x, np.ndarray):
        if len(x.shape) == 0:
            return x
        if form == 'columns':
            return x.T.copy().T
        out = np.zeros((2 * x.shape[0],) + tuple(x.shape[1:]), dtype=x.dtype)
        out[::2] = x
        return out[::2]
    if isinstance(x, Mesh):
        return Mesh(relaid(x.v, form), relaid(x.f, form))
    if isinstance(x, Polyline):
        return x if x.v is None else Polyline(relaid(x.v, form), closed=x.closed)
    if isinstance(x, Box):
        return Box(relaid(x.origin, form), relaid(x.shape, form))
    if isinstance(x, (list, tuple)):
        return type(x)([relaid(y, form) for y in x])
    return x


def transforms():
    t = CompositeTransform()
    t.scale(sym('t0', '+'))
    t.translate(arr('t1', (3,)))
    return t


def coordinates():
    t = CoordinateManager()
    t.tag_as('source')
    t.scale(sym('t0', '+'))
    t.tag_as('target')
    return t


def sparse_matrix():
    d = arr('m', (3, 4), '+') * np.array([[1., 1., 1., 1.], [1., 1., 1., 1.], [1., 0., 0., 0.]])
    return sp.csr_matrix(d)


def square_blocks():
    m = sp.csr_matrix(arr('m', (2, 2), '+'))
    return static_block_sparse_matrix.StaticBlockSparseMatrix(m, np.array([True, True]), np.array([True, True]))


def transform_of(build):
    t = CompositeTransform()
    i = build(t)
    return [i, t.matrix_for(), t.matrix_for(reverse=True)]


def assigned(p, x):
    t = CoordinateManager()
    t.tag_as('before')
    t.translate(x)
    t.tag_as('after')
    t.before = p
    return t.after


def assigned_v(p, q):
    r = Polyline(p)
    a = r.total_length
    r.v = q
    b = r.total_length
    r.closed = True
    return [a, b, r.total_length]


def flipped(p):
    r = Polyline(p)
    r.flip()
    return r.total_length


def outcome_of(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__


CASES = {}


def case(f):
    '''name -> (arguments, call).'''
    CASES[f.__name__[:-1]] = f
    return f

@case
def apex_(g):
    return (g.points('p'), g.exactly([0., 1., 0.])), apex_module.apex


@case
def inflection_points_(g):
    return (g.points('p', 4), g.exactly([0., 1., 0.]), g.exactly([1., 0., 0.])), apex_module.inflection_points


@case
def farthest_(g):
    return (g.vector('f'), g.points('p')), apex_module.farthest


@case
def barycentric_(g):
    return (g.vector('p'), g.vector('q'), g.vector('u'), g.vector('v')), barycentric.barycentric_coordinates_of_projection


@case
def barycentrics_(g):
    return (g.points('p', 2), g.points('q', 2), g.points('u', 2), g.points('v', 2)), barycentric.barycentric_coordinates_of_projection


@case
def convexify_(g):
    u, w, k = frame(0)
    ConvexHull.pretend = (0, 1, 2)
    PCA.pretend = (u, w, k)
    v = np.array([sym('a%d' % i) * u + sym('b%d' % i) * w for i in range(4)])
    return (Polyline(v, closed=True),), lambda p: convexify.convexify_planar_curve(p, want_vertices=True)


@case
def convexify_flat_(g):
    u, w, k = frame(0)
    ConvexHull.pretend = (0, 1, 2)
    PCA.pretend = (u, w, k)
    v = np.array([sym('a%d' % i) * u + sym('b%d' % i) * w + sym('c%d' % i) * k for i in range(4)])
    return (Polyline(v, closed=False), g.exactly([0., 0., 1.])), lambda p, n: convexify.convexify_and_flatten_planar_curve(p, normal=n)


@case
def box_(g):
    return (g.vector('o'), g.vector('s', '+')), lambda o, s: Box(o, s).volume


@case
def box_ranges_(g):
    return (Box(arr('o', (3,)), arr('s', (3,), '+')),), lambda b: b.ranges


@case
def box_points_(g):
    return (Box(arr('o', (3,)), arr('s', (3,), '+')),), lambda b: [b.center_point, b.floor_point]


@case
def box_numbers_(g):
    return (Box(arr('o', (3,)), arr('s', (3,), '+')),), lambda b: [b.min_x, b.mid_y, b.max_z, b.width, b.height, b.depth, b.volume, b.surface_area]


@case
def plane_(g):
    return (g.vector('a'), g.vector('n')), lambda a, n: Plane(a, n).equation


@case
def plane_points_(g):
    return (g.vector('a'), g.vector('b'), g.vector('c')), lambda a, b, c: Plane.from_points(a, b, c).equation


@case
def plane_vector_(g):
    return (g.vector('a'), g.vector('b'), g.vector('c')), lambda a, b, c: Plane.from_points_and_vector(a, b, c).equation


@case
def plane_fit_(g):
    eig_is(np.array([sym('s2', '+'), sym('s1', '+'), 0.]), np.array(frame(3)).T)
    return (g.points('p', 4),), lambda p: Plane.fit_from_points(p).equation


@case
def plane_asks_(g):
    return (plane(),), lambda p: [p.equation, p.reference_point, p.canonical_point, p.normal]


@case
def plane_flipped_(g):
    return (plane(),), lambda p: p.flipped()


@case
def plane_sign_(g):
    return (plane(), g.points('q')), lambda p, q: p.sign(q)


@case
def plane_in_front_(g):
    return (plane(), g.points('q')), lambda p, q: p.points_in_front(q)


@case
def plane_in_front_indices_(g):
    return (plane(), g.points('q')), lambda p, q: p.points_in_front(q, inverted=True, ret_indices=True)


@case
def plane_signed_distance_(g):
    return (plane(), g.points('q')), lambda p, q: p.signed_distance(q)


@case
def plane_distance_(g):
    return (plane(), g.points('q')), lambda p, q: p.distance(q)


@case
def plane_distance_of_one_(g):
    return (plane(), g.vector('q')), lambda p, q: p.signed_distance(q)


@case
def plane_project_(g):
    return (plane(), g.vector('q')), lambda p, q: p.project_point(q)


@case
def plane_polyline_(g):
    p, q = zigzag()
    return (p, q), lambda p, q: p.polyline_xsection(q, ret_edge_indices=True)


@case
def plane_line_(g):
    return (plane(), g.vector('a'), g.vector('b')), lambda p, a, b: p.line_xsection(a, b)


@case
def plane_segment_(g):
    return (plane(), g.vector('a'), g.vector('b')), lambda p, a, b: p.line_segment_xsection(a, b)


@case
def plane_lines_(g):
    return (plane(), g.points('a', 2), g.points('b', 2)), lambda p, a, b: p.line_xsections(a, b)


@case
def plane_segments_(g):
    return (plane(), g.points('a', 2), g.points('b', 2)), lambda p, a, b: p.line_segment_xsections(a, b)


@case
def plane_mesh_(g):
    return tetra(), lambda p, m: p.mesh_xsection(m)


@case
def plane_meshes_(g):
    return tetra(), lambda p, m: p.mesh_xsections(m)


@case
def plane_mesh_near_(g):
    p, m = tetra()
    return (p, m, np.array([[0., 0., 0.]])), lambda p, m, x: p.mesh_xsections(m, neighborhood=x)


@case
def plane_mesh_faces_(g):
    return tetra(), lambda p, m: p.mesh_intersecting_faces(m)


@case
def polyline_(g):
    return (g.points('p'),), lambda p: Polyline(p, closed=True).total_length


@case
def polyline_asks_(g):
    return (line(),), lambda p: [p.v, p.e, p.closed, len(p), p.total_length, p.segment_lengths, p.segment_vectors]


@case
def polyline_segments_(g):
    return (line(closed=True),), lambda p: p.segments


@case
def polyline_copy_(g):
    return (line(closed=True),), lambda p: p.copy()


@case
def polyline_dict_(g):
    return (line(),), lambda p: p.to_dict()


@case
def polyline_reindexed_(g):
    return (line(4, True),), lambda p: p.reindexed(2, ret_edge_mapping=True)


@case
def polyline_apex_(g):
    return (line(), g.exactly([0., 1., 0.])), lambda p, x: p.apex(x)


@case
def polyline_intersect_(g):
    p, q = zigzag(True)
    return (q, p), lambda q, p: q.intersect_plane(p, ret_edge_indices=True)


@case
def polyline_cut_(g):
    p, q = zigzag()
    return (q, p), lambda q, p: q.cut_by_plane(p)


@case
def polyline_cut_closed_(g):
    p, q = zigzag(True)
    return (q, p), lambda q, p: q.cut_by_plane(p)


@case
def partition_(g):
    return (g.points('p'),), lambda p: segment.partition(p, 2)


@case
def partition_segment_(g):
    return (g.vector('a'), g.vector('b')), lambda a, b: segment.partition_segment(a, b, 3)


@case
def partition_segment_old_(g):
    return (g.vector('a'), g.vector('b')), lambda a, b: segment.partition_segment_old(a, b, 3)


@case
def line_intersect_(g):
    return (g.of('a', (2,)), g.of('b', (2,)), g.of('c', (2,)), g.of('d', (2,))), segment.line_intersect


@case
def line_intersect3_(g):
    return (g.vector('a'), g.vector('b'), g.vector('c'), g.vector('d')), segment.line_intersect3


@case
def prism_(g):
    return (g.vector('o'), g.vector('s', '+')), shapes.create_rectangular_prism


@case
def prism_faces_(g):
    return (g.vector('o'), g.vector('s', '+')), lambda o, s: shapes.create_rectangular_prism(o, s, ret_unique_vertices_and_faces=True)


@case
def cube_(g):
    return (g.vector('o'), g.number('s', '+')), lambda o, s: shapes.create_cube(o, s, ret_unique_vertices_and_faces=True)


@case
def triangular_prism_(g):
    return (g.vector('a'), g.vector('b'), g.vector('c'), g.number('h', '+')), lambda a, b, c, h: shapes.create_triangular_prism(a, b, c, h, ret_unique_vertices_and_faces=True)


@case
def triangular_prism_flat_(g):
    return (g.vector('a'), g.vector('b'), g.vector('c'), g.number('h', '+')), shapes.create_triangular_prism


@case
def horizontal_(g):
    return (True,), shapes.create_horizontal_plane


@case
def surface_normal_(g):
    return (g.points('p'),), surface_normals.surface_normal


@case
def surface_normals_(g):
    return (g.of('p', (2, 3, 3)) if g.form in ('floats', 'ints', 'whole') else arr('p', (2, 3, 3)),), lambda p: surface_normals.surface_normal(p, normalize=False)


@case
def to44_(g):
    return (g.of('m', (3, 3)),), composite.convert_33_to_44


@case
def to33_(g):
    m = np.eye(4)
    m[:3, :3] = arr('m', (3, 3))
    return (m,), composite.convert_44_to_33


@case
def transform_(g):
    return (transforms(), g.points('p')), lambda t, p: t(p)


@case
def transform_back_(g):
    return (transforms(), g.points('p')), lambda t, p: t(p, reverse=True)


@case
def transform_part_(g):
    return (transforms(), g.points('p')), lambda t, p: t(p, from_range=(0, 1))


@case
def transform_none_(g):
    return (CompositeTransform(), g.points('p')), lambda t, p: t(p)


@case
def transform_matrix_(g):
    return (transforms(),), lambda t: [t.matrix_for(), t.matrix_for((1, 2)), t.matrix_for(reverse=True), t.matrix_for((1, 1))]


@case
def append4_(g):
    f, r = arr('f', (4, 4)), arr('r', (4, 4))
    f[3] = [0., 0., 0., 1.]
    r[3] = [0., 0., 0., 1.]
    return (f, r), lambda f, r: [CompositeTransform().append_transform4(f, r)]


@case
def append3_(g):
    return (g.of('f', (3, 3)), g.of('r', (3, 3))), lambda f, r: [CompositeTransform().append_transform3(f, r)]


@case
def translate_(g):
    return (g.vector('x'),), lambda x: [CompositeTransform().translate(x)]


@case
def reorient_(g):
    return (g.exactly([0., 1., 0.]), g.exactly([0., 0., 1.])), lambda up, look: [CompositeTransform().reorient(up, look)]


@case
def rotate_(g):
    return (g.vector('x'),), lambda x: [CompositeTransform().rotate(x)]


@case
def rotate_matrix_(g):
    return (g.quarter_turn(),), lambda x: [CompositeTransform().rotate(x)]


@case
def coordinates_(g):
    return (coordinates(), g.points('p')), lambda t, p: t.do_transform(p, 'source', 'target')


@case
def coordinates_back_(g):
    return (coordinates(), g.points('p')), lambda t, p: t.do_transform(p, 'target', 'source')


@case
def coordinates_mesh_(g):
    return (coordinates(), Mesh(arr('p', (3, 3)), np.array([(0, 1, 2)]))), lambda t, p: t.do_transform(p, 'source', 'target')


@case
def rigid_(g):
    svd_is(np.array(frame(3)), np.array([sym('s0', '+'), sym('s1', '+'), sym('s2', '+')]), np.array(frame(3)).T)
    return (g.of('a', (3, 4)), g.of('b', (3, 4))), rigid_transform.find_rigid_transform


@case
def rigid_rotation_(g):
    svd_is(np.array(frame(3)), np.array([sym('s0', '+'), sym('s1', '+'), sym('s2', '+')]), np.array(frame(3)).T)
    return (g.of('a', (3, 4)), g.of('b', (3, 4))), lambda a, b: rigid_transform.find_rigid_rotation(a, b, allow_scaling=True)


@case
def rodrigues_(g):
    return (g.vector('r'),), rodrigues.rodrigues


@case
def rodrigues_jacobian_(g):
    return (g.vector('r'),), lambda r: rodrigues.rodrigues(r, calculate_jacobian=True)


@case
def rodrigues_back_(g):
    return (g.quarter_turn(),), rodrigues.rodrigues


@case
def as_rotation_(g):
    return (g.vector('r'),), rodrigues.as_rotation_matrix


@case
def as_rotation_same_(g):
    return (g.quarter_turn(),), lambda m: [np.array(rodrigues.as_rotation_matrix(m))]


@case
def estimate_normal_(g):
    PCA.pretend = frame(3)
    return (g.points('p', 4),), rotation.estimate_normal


@case
def to_xz_(g):
    PCA.pretend = frame(3)
    return (g.points('p', 4),), rotation.rotate_to_xz_plane


@case
def to_xz_normal_(g):
    return (g.points('p', 4), g.exactly([0., 0., 1.])), rotation.rotate_to_xz_plane


@case
def up_and_look_(g):
    return (g.exactly([0., 1., 0.]), g.exactly([0., 0., 1.])), rotation.rotation_from_up_and_look


@case
def euler_(g):
    return (g.vector('x'),), rotation.euler


@case
def euler_radians_(g):
    return (g.vector('x'), 'zxz', 'rad'), rotation.euler


@case
def euler_number_(g):
    return (g.number('x'), 'y'), rotation.euler


@case
def translation_(g):
    return (arr('p', (3, 3)) if g.form in ('lists', 'tuples') else g.points('p'), g.vector('t')), translation.translation


@case
def translation_default_(g):
    return (g.points('p'),), translation.translation


@case
def numeric_array_(g):
    return (g.of('a', (2, 3)), (2, 3)), lambda a, s: [np.array(coercion.as_numeric_array(a, s))]


@case
def numeric_array_type_(g):
    return (g.of('a', (2, 3)), (3, 2)), lambda a, s: [np.array(coercion.as_numeric_array(a, s, dtype=np.float64))]


@case
def orthogonalize_(g):
    return (g.of('a', (3, 2)),), gram_schmidt.orthogonalize


@case
def orthonormalize_(g):
    return (g.of('a', (3, 2)),), gram_schmidt.orthonormalize


@case
def orthonormalize_indices_(g):
    return (g.of('a', (3, 3)), [1, 0]), gram_schmidt.orthonormalize


@case
def gs_proj_(g):
    return (g.vector('u'), g.vector('v')), gram_schmidt.proj


@case
def isomorphism_(g):
    return (g.of('u', (3, 3)), g.of('v', (3, 3))), isomorphism.isomorphism


@case
def masks_(g):
    return (sparse_matrix(), np.array([True, False, True]), np.array([True, True, False, True])), static_block_sparse_matrix.mask_sparse_matrix


@case
def mask_rows_(g):
    return (sparse_matrix(), np.array([True, False, True])), static_block_sparse_matrix.mask_sparse_matrix_by_rows


@case
def mask_columns_(g):
    return (sparse_matrix(), np.array([True, False, True, True])), static_block_sparse_matrix.mask_sparse_matrix_by_columns


def blocks():
    return static_block_sparse_matrix.StaticBlockSparseMatrix(sparse_matrix())


@case
def blocks_(g):
    return (sparse_matrix(), np.array([False, False, True])), lambda m, r: static_block_sparse_matrix.StaticBlockSparseMatrix(m, row_sparsity=r).shape


@case
def blocks_matvec_(g):
    return (blocks(), arr('x', (4,))), lambda m, x: m.matvec(x)


@case
def blocks_matmat_(g):
    return (blocks(), arr('x', (4, 2))), lambda m, x: m.matmat(x)


@case
def blocks_products_(g):
    return (blocks(),), lambda m: [m.MMT(), m.MTM()]


@case
def lchol_(g):
    Factor.pretend = (np.array([0, 1, 1]), np.array([0, 2, 3]), arr('l', (3,), '+'), 0, np.array([1, 0]))
    return (sp.csc_matrix(arr('m', (2, 2), '+', integer=g.form in ('ints', 'whole'))),), lchol.lchol


@case
def bsxfun_(g):
    return (np.add, g.of('a', (2, 3)), g.of('b', (1, 3))), matlab.bsxfun


@case
def sparse_(g):
    return (np.array([0, 1, 1]), np.array([0, 0, 2]), arr('d', (3,), '+')), matlab.sparse


@case
def sparse_shape_(g):
    return (np.array([0, 1, 1]), np.array([0, 0, 2]), arr('d', (3,), '+'), 2, 4), matlab.sparse


@case
def row_(g):
    return (arr('a', (2, 3)),), lambda a: [np.array(matlab.row(a)), np.array(matlab.col(a))]


@case
def reshape_(g):
    return (arr('a', (2, 3)), (3, 2)), lambda a, s: [np.array(numpy_ext.np_reshape_safe(a, s))]


@case
def scale_to_range_(g):
    return (g.of('a', (4,)), g.number('lo'), g.number('hi')), operations.scale_to_range


@case
def zero_safe_divide_(g):
    b = arr('b', (3,), '+')
    b[1] = 0.
    return (g.of('a', (3,)), b), operations.zero_safe_divide


@case
def predicates_(g):
    return (g.of('a', (2,)),), lambda a: [predicates.isnumeric(a), predicates.isnumericarray(a), predicates.isnumericscalar(a), predicates.is_empty_arraylike(a)]


@case
def rounded_list_(g):
    return ([sym('a'), sym('b')],), rounding.rounded_list


@case
def rounded_array_(g):
    return (arr('a', (3,)),), lambda a: rounding.rounded_list(a, 1)


@case
def round_to_(g):
    return (g.number('a'), g.number('b', '+')), rounding.round_to


@case
def normalize_(g):
    return (g.vector('a'),), vx.normalize


@case
def normalize_rows_(g):
    return (g.points('a'),), vx.normalize


@case
def sproj_(g):
    return (g.vector('a'), g.vector('b')), vx.sproj


@case
def proj_(g):
    return (g.vector('a'), g.vector('b')), vx.proj


@case
def reject_(g):
    return (g.vector('a'), g.vector('b')), vx.reject


@case
def reject_axis_(g):
    return (g.vector('a'), 1), vx.reject_axis


@case
def reject_axis_squash_(g):
    return (g.vector('a'), 1), lambda a, i: vx.reject_axis(a, i, squash=True)


@case
def magnitude_(g):
    return (g.vector('a'),), vx.magnitude


@case
def magnitudes_(g):
    return (g.points('a'),), vx.magnitude


@case
def angle_(g):
    return (g.vector('a'), g.vector('b'), g.vector('c')), vx.angle


@case
def signed_angle_(g):
    return (g.vector('a'), g.vector('b'), g.exactly([0., 0., 1.])), vx.signed_angle


@case
def almost_zero_(g):
    return (g.vector('a'),), vx.almost_zero


@case
def almost_collinear_(g):
    return (g.vector('a'), g.vector('b')), vx.almost_collinear


@case
def pad_(g):
    return (g.points('a'),), vx.pad_with_ones


@case
def unpad_(g):
    a = np.ones((2, 4))
    a[:, :3] = arr('a', (2, 3))
    return (a,), vx.unpad


@case
def homogeneous_(g):
    m = np.eye(4)
    m[:3] = arr('m', (3, 4))
    return (g.points('a'), m), vx.apply_homogeneous


@case
def basis_(g):
    return (vx.basis,), lambda b: [b.x, b.y, b.z, b.neg_x, b.neg_y, b.neg_z]


@case
def unit_names_(g):
    return ('length',), lambda c: [units.units_in_class(c), units.units_class('cm')]


@case
def unit_defaults_(g):
    return ('united_states', {'length': 'ft'}), units.default_units


@case
def unit_convert_(g):
    return (g.number('a'), 'in', 'cm'), units.convert


@case
def unit_convert_list_(g):
    return ([g.number('a'), g.number('b')], 'lbs', 'kg'), units.convert_list


@case
def unit_convert_default_(g):
    return (g.number('a'), 'in', {'length': 'cm', 'weight': 'kg'}), units.convert_to_default


@case
def unit_prettify_(g):
    return (2.5, 'min'), units.prettify


@case
def value_asks_(g):
    return (Value(sym('a'), 'cm'),), lambda v: [v.value, v.units, v.convert('in'), v.meters, v.convert_to_system_default('united_states'), v.round(1), float(v), v.for_json()]


@case
def value_math_(g):
    return (Value(sym('a', '+'), 'cm'), Value(sym('b', '+'), 'in')), lambda a, b: [a + b, a - b, a * 2, a / 2, a / b, -a, abs(a), a // 2]


@case
def value_plus_(g):
    return (Value(sym('a', '+'), 'cm'),), lambda a: +a


@case
def value_compare_(g):
    return (Value(sym('a', '+'), 'cm'), Value(sym('b', '+'), 'in')), lambda a, b: [a == b, a < b, a >= b, a != b]


@case
def value_from_json_(g):
    return ({'__value__': {'value': sym('a'), 'units': 'cm'}},), Value.from_json


@case
def json_(g):
    return ({'a': [sym('a'), True, None], 'b': [Value(sym('b'), 'cm'), 'text']},), lambda d: json.loads(json.dumps(d))


@case
def unit_defaults_plain_(g):
    return ('metric',), units.default_units


@case
def unit_system_default_(g):
    return (g.number('a'), 'in', 'united_states'), units.convert_to_system_default


@case
def unit_system_metric_(g):
    return (g.number('a'), 'ft'), units.convert_to_system_default


@case
def unit_prettify_precision_(g):
    return (2.5, 'min', 3), units.prettify


@case
def unit_prettify_length_(g):
    return (g.number('a'), 'cm'), units.prettify


@case
def unit_prettify_length_precision_(g):
    return (g.number('a'), 'in', 2), units.prettify


@case
def unit_prettify_weight_(g):
    return (g.number('a'), 'stone'), units.prettify


@case
def unit_lists_(g):
    return (units._units,), lambda u: [u.lengths, u.weights, u.angles, u.times, u.time_rates, [x for x in u.all_units], sorted(u.all_units_classes)]


@case
def unit_factor_(g):
    return ('in', 'cm'), lambda a, b: [units.factor(a, b), units.factor(a, b, units_class='length'), units.factor(b, a), units.factor(a, a), units.raw(a)]


@case
def unit_class_(g):
    return ('hours',), lambda u: [units.units_class(u), units.units_class(None), units.units_class('')]


@case
def value_of_list_(g):
    return (Value(sym('a', '+'), 'cm'), [1., 2.]), lambda a, b: [a * b, b * a]


@case
def value_plus_list_(g):
    return (Value(sym('a', '+'), 'cm'), [Value(sym('b', '+'), 'in'), Value(sym('c', '+'), 'cm')]), lambda a, b: [a + b, a - b, b - a]


@case
def value_text_(g):
    return (Value(2.5, 'cm'),), lambda v: [str(v), repr(v), v[0], v[1], bool(v), int(v), round(v, 1), v.prettified]


@case
def value_number_(g):
    return (Value(sym('a', '+'), 'cm'), g.number('b', '+')), lambda a, b: [a + b, b + a, a - b, b - a, a < b, b < a, a == b]


@case
def value_wrong_(g):
    return (Value(sym('a', '+'), 'cm'), Value(sym('b', '+'), 'kg')), lambda a, b: [outcome_of(lambda: a + b), outcome_of(lambda: a / b), outcome_of(lambda: a * b), outcome_of(lambda: a < b), outcome_of(lambda: a.convert('kg')), outcome_of(lambda: 2 / a)]


@case
def json_array_(g):
    return ({'__ndarray__': [[1., 2.], [3., 4.]], 'dtype': 'float32'},), json.decode_json


@case
def json_array_plain_(g):
    return ({'__ndarray__': [[1., 2.], [3., 4.]]},), json.decode_json


@case
def json_sparse_(g):
    return ({'__scipy.sparse.sparsematrix__': True, 'dtype': 'float64', 'shape': [2, 3], 'format': 'csc', 'data': [1., 2.], 'row': [0, 1], 'col': [2, 0]},), json.decode_json


@case
def json_sparse_rows_(g):
    return ({'__scipy.sparse.sparsematrix__': True, 'dtype': 'float64', 'shape': [2, 3], 'format': 'csr', 'data': [1., 2.], 'row': [0, 1], 'col': [2, 0]},), json.decode_json


@case
def json_value_(g):
    return ({'__value__': {'value': sym('a'), 'units': 'in'}},), json.decode_json


@case
def json_options_(g):
    return ({'b': 1, 'a': [1, 2]},), lambda d: [json.dumps(d, sort_keys=True), json.dumps(d, indent=2, sort_keys=True)]


@case
def blocks_solve_(g):
    return (square_blocks(), arr('b', (2,)), arr('x', (2,))), lambda m, b, x: m.conjGradSolve(b, x0=x, maxiter=1)


@case
def blocks_solve_default_(g):
    return (square_blocks(), arr('b', (2,))), lambda m, b: m.conjGradSolve(b, maxiter=1)


@case
def blocks_products_rows_(g):
    return (sparse_matrix(), np.array([True, False, True]), np.array([True, True, True, True])), lambda m, r, c: static_block_sparse_matrix.StaticBlockSparseMatrix(m, r, c).MMT()


@case
def masks_none_(g):
    return (sparse_matrix(), np.array([False, False, False]), np.array([True, True, False, True])), static_block_sparse_matrix.mask_sparse_matrix


@case
def cg_(g):
    m = sp.csr_matrix(arr('m', (2, 2), '+'))
    return (m, arr('x', (2,))), sparse_cg.block_sparse_cg_solve


@case
def append4_alone_(g):
    f = np.eye(4)
    f[:3, 3] = arr('f', (3,))
    return (f,), lambda f: transform_of(lambda t: t.append_transform4(f))


@case
def append3_alone_(g):
    return (g.of('f', (3, 3)),), lambda f: transform_of(lambda t: t.append_transform3(f))


@case
def scale_(g):
    return (g.number('s', '+'),), lambda s: transform_of(lambda t: t.scale(s))


@case
def convert_units_(g):
    return ('cm', 'm'), lambda a, b: transform_of(lambda t: t.convert_units(a, b))


@case
def translate_matrix_(g):
    return (g.vector('x'),), lambda x: transform_of(lambda t: t.translate(x))


@case
def rotate_matrix_for_(g):
    return (g.vector('x'),), lambda x: transform_of(lambda t: t.rotate(x))


@case
def reorient_matrix_(g):
    return (g.exactly([0., 1., 0.]), g.exactly([1., 0., 0.])), lambda up, look: transform_of(lambda t: t.reorient(up, look))


@case
def transform_several_(g):
    t = transforms()
    t.scale(sym('t2', '+'))
    t.translate(arr('t3', (3,)))
    return (t, g.points('p')), lambda t, p: [t(p, from_range=(1, 3)), t(p, from_range=(1, 3), reverse=True), t(p, from_range=(0, 0))]


@case
def coordinates_assign_(g):
    return (g.points('p'), arr('x', (3,))), assigned


@case
def coordinates_unknown_(g):
    return (coordinates(), g.points('p')), lambda t, p: outcome_of(lambda: t.do_transform(p, 'source', 'elsewhere'))


@case
def coordinates_mesh_back_(g):
    return (coordinates(), Mesh(arr('p', (3, 3)), np.array([(0, 1, 2)]))), lambda t, p: t.do_transform(p, 'target', 'source')


@case
def polyline_partition_(g):
    # Between whole numbers, so that the pieces are known.
    return (np.array([[0., 0., 0.], [3., 0., 0.], [3., 1., 0.]]),), lambda p: Polyline(p, closed=False).partition_by_length(1., ret_indices=True)


@case
def polyline_flip_(g):
    return (g.points('p'),), flipped


@case
def polyline_assign_(g):
    return (g.points('p'), g.points('q', 4)), assigned_v


@case
def polyline_text_(g):
    return (line(),), lambda p: [repr(p), p.total_length]


@case
def polyline_open_reindexed_(g):
    return (line(4),), lambda p: outcome_of(lambda: p.reindexed(1))


@case
def polyline_reindexed_plain_(g):
    return (line(4, True),), lambda p: p.reindexed(1)


@case
def polyline_intersect_plain_(g):
    p, q = zigzag()
    return (q, p), lambda q, p: q.intersect_plane(p)


@case
def plane_parallel_lines_(g):
    b = np.array([[1., 0., 0.], [0., 1., 0.]])
    return (plane(), g.points('a', 2), b), lambda p, a, b: p.line_xsections(a, b)


@case
def plane_some_segments_(g):
    p, q = zigzag()
    return (p, q.v[:3], q.v[1:]), lambda p, a, b: p.line_segment_xsections(a, b)


@case
def plane_text_(g):
    return (Plane(np.zeros(3), np.array([0., 1., 0.])),), repr


@case
def plane_zero_(g):
    return (g.vector('a'), np.zeros(3)), lambda a, n: outcome_of(lambda: Plane(a, n))


@case
def plane_in_front_inverted_(g):
    return (plane(), g.points('q', 2)), lambda p, q: p.points_in_front(q, inverted=True)


@case
def plane_in_front_indices_plain_(g):
    return (plane(), g.points('q', 2)), lambda p, q: p.points_in_front(q, ret_indices=True)


@case
def barycentrics_flat_(g):
    u = arr('u', (2, 3))
    v = np.array([arr('v', (3,)), 2. * u[1]])
    return (g.points('p', 2), arr('q', (2, 3)), u, v), barycentric.barycentric_coordinates_of_projection


@case
def rigid_rows_(g):
    svd_is(np.array(frame(3)), np.array([sym('s0', '+'), sym('s1', '+'), sym('s2', '+')]), np.array(frame(3)).T)
    return (g.of('a', (4, 3)), g.of('b', (4, 3))), rigid_transform.find_rigid_transform


@case
def rigid_rotation_one_(g):
    svd_is(np.array(frame(3)), np.array([sym('s0', '+'), sym('s1', '+'), sym('s2', '+')]), np.array(frame(3)).T)
    return (g.of('a', (3, 1)), g.of('b', (3, 1))), rigid_transform.find_rigid_rotation


@case
def euler_short_(g):
    return (g.of('x', (2,)),), rotation.euler


@case
def up_and_look_wrong_(g):
    return (g.exactly([0., 1., 0.]), g.exactly([0., 2., 0.])), lambda up, look: outcome_of(lambda: rotation.rotation_from_up_and_look(up, look))


@case
def numeric_array_transposed_(g):
    return (g.of('a', (2, 3)),), lambda a: [np.array(coercion.as_numeric_array(a, (3, 2))), outcome_of(lambda: coercion.as_numeric_array(a, (3, 3))), outcome_of(lambda: coercion.as_numeric_array(a, (6,)))]


@case
def zero_safe_divide_default_(g):
    b = arr('b', (3,), '+')
    b[0] = 0.
    return (g.of('a', (3,)), b), lambda a, b: operations.zero_safe_divide(a, b, default_error_value=7.)


@case
def bsxfun_tiles_(g):
    return (np.subtract, g.of('a', (1, 2)), g.of('b', (3, 1))), matlab.bsxfun


@case
def bsxfun_tiles_back_(g):
    return (np.multiply, g.of('a', (3, 1)), g.of('b', (1, 2))), matlab.bsxfun


@case
def proj_rows_(g):
    return (g.points('a'), g.vector('b')), vx.proj


@case
def reject_rows_(g):
    return (g.points('a'), g.vector('b')), vx.reject


@case
def reject_axis_rows_(g):
    return (g.points('a'), 2), lambda a, i: [vx.reject_axis(a, i), vx.reject_axis(a, i, squash=True)]


@case
def unpad_wrong_(g):
    a = np.ones((2, 4))
    a[:, :3] = arr('a', (2, 3))
    a[1, 3] = 2.
    return (a,), lambda a: [outcome_of(lambda: vx.unpad(a)), outcome_of(lambda: vx.pad_with_ones(a)), outcome_of(lambda: vx.reject_axis(a, 5, squash=True))]


@case
def almost_zero_wide_(g):
    return (g.vector('a'),), lambda a: vx.almost_zero(a, atol=0.5)


@case
def isomorphism_wrong_(g):
    u = arr('u', (3, 3))
    v = np.array([u[0], u[1], u[0]])
    return (u, v), lambda u, v: outcome_of(lambda: isomorphism.isomorphism(u, v))


@case
def triangular_prism_lists_(g):
    return (g.exactly([1., 0., 0.]), g.exactly([0., 2., 0.]), g.exactly([0., 0., 0.]), 3.), shapes.create_triangular_prism


NAMES = tuple(sorted(CASES))
