'''CoordinateManager: points set at one tag and read at another.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds, apart
from spec_frames import SCALES
from blmath.geometry.transform import CoordinateManager, CompositeTransform

TAGS = ('a', 'b', 'c', 'd')


class Mesh(object):
    def __init__(self, v, name='mesh'):
        self.v = v
        self.name = name


class CopyingMesh(object):
    def __init__(self, v, name='mesh'):
        self.v = v
        self.name = name

    def copy(self):
        return CopyingMesh(np.copy(self.v), self.name + ' copy')


def setup():
    '''Tags a, b, c, d: b is two steps after a, c is at the same place as b, d is one step after.'''
    m = CoordinateManager()
    k, v, c = sym('k', '+'), arr('v', (3,)), sym('c', '+')
    m.tag_as('a')
    m.scale(k)
    m.translate(v)
    m.tag_as('b')
    m.tag_as('c')
    m.scale(c)
    m.tag_as('d')
    # What each tag is, as a function of the points at a.
    there = {
        'a': lambda p: p,
        'b': lambda p: k * p + v,
        'c': lambda p: k * p + v,
        'd': lambda p: c * (k * p + v),
    }
    return m, there


def o_points(src=TAGS, dst=TAGS, n=sizes(1, 2), scale=SCALES):
    at_scale(scale)
    m, there = setup()
    p = arr('p', (n, 3))
    # The points as they are at src.
    given = there[src](p)
    before = freeze((p, given))
    setattr(m, src, given)
    want = there[dst](p)
    same(getattr(m, dst), want, 'read at another tag')
    same(getattr(m, dst), want, 'read again')
    same(getattr(m, src), given, 'read where they were set')
    same(m.do_transform(given, src, dst), want, 'do_transform')
    same(m.do_transform(points_or_mesh=given, from_tag=src, to_tag=dst), want, 'do_transform by keyword')
    unchanged((p, given), before, 'the points')


def o_set_again(src=TAGS, src2=TAGS, dst=TAGS, scale=SCALES):
    at_scale(scale)
    m, there = setup()
    p, q = arr('p', (1, 3)), arr('q', (1, 3))
    setattr(m, src, there[src](p))
    getattr(m, dst)
    setattr(m, src2, there[src2](q))
    same(getattr(m, dst), there[dst](q), 'the points set last')


def o_tag_later(when=('before', 'after'), scale=SCALES):
    # Transforms appended after points were set count, and tags can move.
    at_scale(scale)
    m, there = setup()
    p = arr('p', (2, 3))
    if when == 'before':
        m.a = p
    w = arr('w', (3,))
    m.translate(w)
    m.tag_as('e')
    if when == 'after':
        m.a = p
    same(m.e, there['d'](p) + w, 'a tag added later')
    same(m.d, there['d'](p), 'the tag before it')
    m.tag_as('b')
    same(m.b, there['d'](p) + w, 'a tag that was moved')
    same(m.c, there['c'](p), 'another tag at the old place')


def o_set_then_move(src=TAGS, src2=TAGS, dst=TAGS, how=('moved', 'added')):
    # What counts is where the points were set last; other tags can move after.
    m, there = setup()
    p, q = arr('p', (1, 3)), arr('q', (1, 3))
    setattr(m, src, there[src](p))
    setattr(m, src2, there[src2](q))
    w = arr('w', (3,))
    m.translate(w)
    if how == 'added':
        m.tag_as('e')
        same(m.e, there['d'](q) + w, 'a tag added later')
    elif src2 != src:
        m.tag_as(src)
        same(getattr(m, src), there['d'](q) + w, 'a tag moved later')
    if how == 'added' or dst != src:
        same(getattr(m, dst), there[dst](q), 'a tag which stayed')


def o_mesh(src=TAGS, dst=TAGS, copying=(False, True), scale=SCALES):
    at_scale(scale)
    m, there = setup()
    p = arr('p', (2, 3))
    given = there[src](p)
    mesh = CopyingMesh(given) if copying else Mesh(given)
    before = freeze(mesh)
    setattr(m, src, mesh)
    r = getattr(m, dst)
    same(r.v, there[dst](p), 'the vertices of the result')
    same(r.name, 'mesh copy' if copying else 'mesh', 'the other attributes of the result')
    holds(r is not mesh, 'the result is another mesh')
    unchanged(mesh, before, 'the mesh given')
    holds(mesh.v is given, 'the mesh given keeps its vertices')


def o_empty_mesh(src=TAGS, dst=TAGS, scale=SCALES):
    at_scale(scale)
    m, there = setup()
    mesh = Mesh(None)
    setattr(m, src, mesh)
    holds(getattr(m, dst) is mesh, 'a mesh without vertices comes back as it is')


def o_unknown(scale=SCALES):
    at_scale(scale)
    m, there = setup()
    p = arr('p', (1, 3))
    raises(AttributeError, 'setting at an unknown tag', setattr, m, 'z', p)
    raises(ValueError, 'reading before anything is set', getattr, m, 'a')
    m.a = p
    raises((KeyError, AttributeError), 'reading at an unknown tag', getattr, m, 'z')
    raises((KeyError, AttributeError), 'an unknown tag', m.do_transform, p, 'a', 'z')
    raises((KeyError, AttributeError), 'an unknown tag', m.do_transform, p, 'z', 'a')
    same(m.b, there['b'](p), 'after failed reads')


def o_instances(scale=SCALES):
    at_scale(scale)
    a = CoordinateManager()
    a.tag_as('x')
    a.scale(2)
    a.tag_as('y')
    a.x = arr('p', (1, 3))
    b = CoordinateManager()
    raises(AttributeError, 'another manager has no tags', setattr, b, 'x', arr('p', (1, 3)))
    raises(ValueError, 'another manager has no points', getattr, b, 'x')
    b.tag_as('x')
    b.tag_as('y')
    q = arr('q', (1, 3))
    b.x = q
    same(b.y, q, 'another manager has no transforms')


def o_methods(name=('scale', 'translate', 'convert_units', 'reorient', 'rotate', 'append_transform3', 'append_transform4'), scale=SCALES):
    # Each method does what CompositeTransform's does.
    at_scale(scale)
    args = {
        'scale': (sym('k', '+'),),
        'translate': (arr('v', (3,)),),
        'convert_units': ('cm', 'in'),
        'reorient': (arr('u', (3,)), arr('l', (3,))),
        'rotate': (arr('v', (3,)),),
        'append_transform3': (arr('f', (3, 3)), arr('r', (3, 3))),
        'append_transform4': (np.vstack([arr('f', (3, 4)), [[0, 0, 0, 1]]]), np.vstack([arr('r', (3, 4)), [[0, 0, 0, 1]]])),
    }[name]
    t = CompositeTransform()
    getattr(t, name)(*args)
    m = CoordinateManager()
    m.tag_as('before')
    getattr(m, name)(*args)
    m.tag_as('after')
    p = arr('p', (1, 3))
    m.before = p
    same(m.after, t(p), name)
    m.after = p
    same(m.before, t(p, reverse=True), name + ', in reverse')


def o_methods_by_name(name=('scale', 'translate', 'convert_units', 'reorient', 'rotate', 'append_transform3', 'append_transform4', 'inverse3', 'inverse4')):
    a, b, c = sym('a', '+'), sym('b', '+'), sym('c', '-')
    args = {
        'scale': {'factor': a},
        'translate': {'vector': arr('v', (3,))},
        'convert_units': {'from_units': 'cm', 'to_units': 'in'},
        'reorient': {'up': arr('u', (3,)), 'look': arr('l', (3,))},
        'rotate': {'rot': arr('v', (3,))},
        'append_transform3': {'forward': arr('f', (3, 3)), 'reverse': arr('r', (3, 3))},
        'append_transform4': {'forward': np.vstack([arr('f', (3, 4)), [[0, 0, 0, 1]]]), 'reverse': np.vstack([arr('r', (3, 4)), [[0, 0, 0, 1]]])},
        'inverse3': {'forward': np.diag([a, b, c])},
        'inverse4': {'forward': np.diag([a, b, c, 1.])},
    }[name]
    name = name.replace('inverse', 'append_transform')
    t = CompositeTransform()
    getattr(t, name)(**args)
    m = CoordinateManager()
    m.tag_as('before')
    getattr(m, name)(**args)
    m.tag_as('after')
    p = arr('p', (1, 3))
    m.before = p
    same(m.after, t(p), name)
    m.after = p
    same(m.before, t(p, reverse=True), name + ', in reverse')


def o_nearly_nothing(e=(.03, 1e-3, 2e-5, 1e-6), sign=(1, -1)):
    # Small steps count.
    m = CoordinateManager()
    p, v = arr('p', (2, 3)), arr('v', (3,))
    k = 1 + sign * e
    m.tag_as('a')
    m.scale(k)
    m.tag_as('b')
    m.translate(sign * e * v)
    m.tag_as('c')
    m.a = p
    same((m.b - p) / e, sign * p, 'a little scaled')
    same((m.c - p) / e, sign * (p + v), 'a little scaled and moved')
    m.c = p
    same((m.b - p) / e, -sign * v + np.zeros((2, 3)), 'a little moved back')
    same((m.a - p) / e, ((p - sign * e * v) / k - p) / e, 'a little moved and scaled back')


def o_nearly_the_same_points(e=(1e-3, 2e-5, 1e-6, 1e-8), dst=TAGS):
    # Points set again count, however little they differ from those before.
    m, there = setup()
    p, d = arr('p', (2, 3)), arr('d', (2, 3))
    m.a = p
    before = getattr(m, dst)
    m.a = p + e * d
    same((getattr(m, dst) - before) / e, (there[dst](p + e * d) - there[dst](p)) / e, 'what changed')


def o_methods_keywords(scale=SCALES):
    at_scale(scale)
    m = CoordinateManager()
    m.tag_as('before')
    k = sym('k', '+')
    m.scale(factor=k)
    m.translate(vector=[1, 2, 3])
    m.convert_units(from_units='m', to_units='cm')
    m.tag_as('after')
    p = arr('p', (1, 3))
    m.before = p
    same(m.after, 100 * (k * p + np.array([1, 2, 3])), 'keywords')


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    m = CoordinateManager()
    m.tag_as('a')
    m.translate(np.array([0., k, 1.]))
    m.tag_as('b')
    m.scale(2.)
    m.tag_as('c')
    p = np.array([[i * k, -k, float(i)] for i in range(n)])
    m.b = p
    same(m.a, p - np.array([0., k, 1.]), 'many points')
    same(m.c, 2. * p, 'many points')
