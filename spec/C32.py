'''apply_correspondence: which vertices go where, and what comes back.'''
import chumpy as ch
import numpy as np
from sa import arr, same, holds, freeze, unchanged, apart
from blmath.geometry.transform.correspondence import apply_correspondence

FORMS = ('array', 'ch')


def as_(form, v):
    return ch.Ch(v) if form == 'ch' else v


def o_correspondence(src=FORMS, dst=FORMS, vertices=FORMS, n=(1, 3), how=('positional', 'keyword')):
    s, d, v = arr('s', (n, 3)), arr('d', (n, 3)), arr('v', (n, 3))
    before = freeze((s, d, v))
    a, b, c = as_(src, s), as_(dst, d), as_(vertices, v)
    if how == 'positional':
        r = apply_correspondence(a, b, c)
    else:
        r = apply_correspondence(vertices=c, correspondence_dst=b, correspondence_src=a)
    want = v + (d - s)
    differentiable = 'ch' in (src, dst, vertices)
    same(isinstance(r, ch.Ch), differentiable, 'differentiable exactly when it is given something differentiable')
    same(isinstance(r, np.ndarray), not differentiable, 'an array exactly when it is given arrays only')
    same(r.r if differentiable else r, want, 'the vertices, moved as the source is to the destination')
    unchanged((s, d, v), before, 'the vertices given')


def o_moves_with_its_vertices(which=('src', 'dst', 'vertices')):
    # What is differentiable follows the vertices it was made from.
    s, d, v, w = arr('s', (2, 3)), arr('d', (2, 3)), arr('v', (2, 3)), arr('w', (2, 3))
    given = {'src': s, 'dst': d, 'vertices': v}
    moving = ch.Ch(given[which])
    given[which] = moving
    r = apply_correspondence(given['src'], given['dst'], given['vertices'])
    same(r.r, v + (d - s), 'the vertices, moved as the source is to the destination')
    moving.x = w
    want = {'src': v + (d - w), 'dst': v + (w - s), 'vertices': w + (d - s)}
    same(r.r, want[which], 'after the vertices moved')
