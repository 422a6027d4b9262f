'''What is computed belongs to the caller.'''
import numpy as np
from sa import arr, apart, private, same, unchanged, freeze
from spec_calls import CASES, NAMES, FORMS, Given

# These hand back what they were given, or part of it: a point of those given, an attribute
# of the thing asked.
PARTS = ('apex', 'coordinates_mesh', 'coordinates_mesh_back', 'farthest', 'line_intersect3', 'plane_asks', 'plane_flipped', 'polyline_apex', 'polyline_asks', 'polyline_dict', 'to33', 'translation', 'value_plus')
COMPUTED = tuple([n for n in NAMES if n not in PARTS])
SHAPED = ('floats', 'ints', 'lists', 'views')


def o_computed(call=COMPUTED, form=SHAPED):
    args, fn = CASES[call](Given(form))
    try:
        r = fn(*args)
    except Exception:
        return
    apart(r, args, '%s gives nothing of its arguments away' % call)
    private(r, '%s gives nothing of the library away' % call)
    apart(r, fn(*args), '%s gives a new result each time' % call)


def o_parts(call=PARTS, form=SHAPED):
    args, fn = CASES[call](Given(form))
    try:
        r = fn(*args)
    except Exception:
        return
    private(r, '%s gives nothing of the library away' % call)
