'''Conversions agree with each other.'''
from sa import at_scale, sym, same, near, holds, raises, apart, freeze, unchanged
from spec_frames import SCALES
from blmath import units
from blmath.numerics import round_to
from spec_unitlib import UNIT, CLASS, SIZE, ratio
from spec_C08 import DEFAULTS

ALL = tuple(sorted(UNIT))


def o_pairs(u=ALL, w=ALL, s=('?', '0', '1', '-1', 'i'), scale=SCALES):
    at_scale(scale)
    x = sym('x', s)
    if CLASS[u] != CLASS[w] and s not in '?0':
        return
    if CLASS[u] == CLASS[w]:
        f = units.factor(u, w)
        near(f, ratio(u, w), 'factor')
        same(units.raw(u) / units.raw(w), f, 'raw')
        same(f * units.factor(w, u), 1, 'there and back', tol=1e-9)
        same(units.convert(x, u, w), (x * f, w), 'convert')
        same(units.convert(x, u, w, units_class=CLASS[u]), (x * f, w), 'convert, class given')
        same(units.factor(u, w, CLASS[u]), f, 'factor, class given')
        same(units.convert_list([x, 2 * x], u, w), [f * x, 2 * f * x], 'convert_list')
        same(units.convert(None, u, w), (None, None), 'convert None')
        if u == w:
            same(f, 1, 'factor to itself')
    else:
        raises(ValueError, 'factor between unlike units', units.factor, u, w)
        raises(ValueError, 'convert between unlike units', units.convert, x, u, w)
        raises(ValueError, 'convert None between unlike units', units.convert, None, u, w)
        raises(ValueError, 'convert_list between unlike units', units.convert_list, [x], u, w)


def o_wrong_class(u=('cm', 'kg', 'deg', 'yr'), c=('length', 'weight', 'angle', 'time', 'time_rate'), scale=SCALES):
    at_scale(scale)
    x = sym('x')
    if CLASS[u] != c:
        for w in SIZE[CLASS[u]]:
            units.factor(u, w)
            units.factor(u, w, CLASS[u])
            units.convert(x, u, w)
            raises(ValueError, 'factor of the wrong class', units.factor, u, w, c)
            raises(ValueError, 'factor of the wrong class', units.factor, u, w, units_class=c)
            raises(ValueError, 'convert of the wrong class', units.convert, x, u, w, c)
            raises(ValueError, 'convert of the wrong class', units.convert, x, u, w, units_class=c)
    else:
        for w in SIZE[CLASS[u]]:
            same(units.factor(u, w, c), units.factor(u, w), 'factor of the right class')


def o_transitive(c=tuple(sorted(SIZE)), scale=SCALES):
    at_scale(scale)
    us = sorted(SIZE[c])
    for u in us:
        for v in us[:3]:
            for w in us:
                same(units.factor(u, v) * units.factor(v, w), units.factor(u, w), 'conversion by way of a third unit', tol=1e-9)


def o_none(u=(None, ''), w=(None, ''), scale=SCALES):
    at_scale(scale)
    same(units.factor(u, w), 1.0, 'factor between no units')
    x = sym('x')
    same(units.convert(x, u, w)[0], x, 'convert between no units')


def o_unknown(u=('cm', 'kg'), w=('parsecs', 'CM'), scale=SCALES):
    at_scale(scale)
    raises((KeyError, ValueError), 'factor to an unknown unit', units.factor, u, w)
    raises((KeyError, ValueError), 'factor from an unknown unit', units.factor, w, u)


def o_none_against_unit(u=('cm', 'kg'), w=(None, ''), scale=SCALES):
    at_scale(scale)
    raises((KeyError, ValueError), 'factor to no unit', units.factor, u, w)
    raises((KeyError, ValueError), 'factor from no unit', units.factor, w, u)


def o_list(u=(('cm', 'm'), ('lb', 'kg')), scale=SCALES):
    at_scale(scale)
    xs = [sym('a'), sym('b'), sym('c')]
    before = freeze(xs)
    r = units.convert_list(xs, u[0], u[1])
    near(r, [x * ratio(u[0], u[1]) for x in xs], 'convert_list')
    unchanged(xs, before, 'the list passed in')
    same(units.convert_list([], u[0], u[1]), [], 'convert_list of nothing')
    for w in ('deg', 'yr', 'hours_per_week'):
        raises(ValueError, 'convert_list of nothing between unlike units', units.convert_list, [], u[0], w)
    near(units.convert_list(tuple(xs), u[0], u[1]), [x * ratio(u[0], u[1]) for x in xs], 'convert_list of a tuple')


def o_defaults(u=ALL, system=('metric', 'united_states'), scale=SCALES):
    at_scale(scale)
    x = sym('x')
    w = DEFAULTS[system][CLASS[u]]
    want = units.convert(x, u, w)
    same(units.convert_to_system_default(x, u, system), want, 'convert_to_system_default')
    same(units.convert_to_default(x, u, DEFAULTS[system]), want, 'convert_to_default')
    same(want[1], w, 'the unit')
    if system == 'metric':
        same(units.convert_to_system_default(x, u), want, 'convert_to_system_default, default system')


def o_default_of_nothing(u=(None, ''), scale=SCALES):
    at_scale(scale)
    x = sym('x')
    same(units.convert_to_default(x, u, DEFAULTS['metric']), (x, u), 'convert_to_default of no unit')


def o_own_defaults(scale=SCALES):
    at_scale(scale)
    x = sym('x')
    d = {'length': 'ft', 'weight': 'g'}
    near(units.convert_to_default(x, 'm', d), (x / 0.3048, 'ft'), 'convert_to_default, own defaults')
    same(d, {'length': 'ft', 'weight': 'g'}, 'the defaults passed in')


NEAREST = {'cm': 0.5, 'in': 0.25, 'kg': 0.5, 'lb': 1.0, 'yr': 1.0}


def o_prettify(u=ALL, scale=SCALES):
    at_scale(scale)
    x = sym('x', '+')
    m = DEFAULTS['metric'][CLASS[u]]
    i = DEFAULTS['united_states'][CLASS[u]]
    a = units.convert(x, u, m)[0]
    b = units.convert(x, u, i)[0]
    r = units.prettify(x, u)
    same(r, (round_to(a, NEAREST.get(m, 0.1)), m, round_to(b, NEAREST.get(i, 0.1)), i), 'prettify')
    for p in (1, 2, 3):
        r = units.prettify(x, u, precision=p)
        same(r, (round_to(a, 1.0 / 10 ** p), m, round_to(b, 1.0 / 10 ** p), i), 'prettify with a precision')
    r = units.prettify(x, u, 0)
    same(r, (round_to(a, 1.0), m, round_to(b, 1.0), i), 'prettify with precision 0')
