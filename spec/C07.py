'''What a Value holds, and how it behaves as a number.'''
from sa import at_scale, sym, same, near, holds, raises, freeze, unchanged, differ
from spec_frames import SCALES
from blmath.value import Value
from blmath import units
from spec_unitlib import UNIT, CLASS, ratio

ALL = tuple(sorted(UNIT))
NUMBERS = ('?', '0', '1', '-1', 'i')


def o_attributes(u=('cm', 'lb', 'rad', 'yr', 'hours_per_week', None), scale=SCALES):
    at_scale(scale)
    x = sym('x')
    v = Value(x, u)
    same((v.value, v.units), (x, u), 'value and units')
    same((v[0], v[1]), (x, u), 'indexing')
    same(float(v), x, 'float()')
    holds(isinstance(v.value, float), 'the value is a float')
    w = Value(3, u)
    holds(isinstance(w.value, float), 'an int becomes a float')
    raises(KeyError, 'index 2', lambda: v[2])


def o_default_is_unitless(scale=SCALES):
    at_scale(scale)
    same(Value(sym('x')).units, None, 'no units')


def o_bad_units(bad=('parsecs', '', 'CM', 'cms', 'length', 3), scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'making a Value with an unknown unit', Value, sym('x'), bad)
    v = Value(sym('x'), 'cm')
    before = freeze((v.value, v.units))
    raises(ValueError, 'setting an unknown unit', setattr, v, 'units', bad)
    unchanged((v.value, v.units), before, 'a rejected unit leaves the Value as it was')


def o_bad_value(u=('cm', None), scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'making a Value of None', Value, None, u)
    raises((ValueError, TypeError), 'making a Value of text', Value, 'long', u)
    v = Value(sym('x'), u)
    before = freeze((v.value, v.units))
    raises(ValueError, 'setting None', setattr, v, 'value', None)
    unchanged((v.value, v.units), before, 'a rejected value leaves the Value as it was')


def o_convert(u=ALL, w=ALL, s=NUMBERS, scale=SCALES):
    at_scale(scale)
    if CLASS[u] != CLASS[w]:
        if s in '?0':
            return_unlike(u, w, s)
    else:
        x = sym('x', s)
        v = Value(x, u)
        before = freeze((v.value, v.units))
        r = v.convert(w)
        near(r, Value(x * ratio(u, w), w), 'convert()')
        near(getattr(v, w), Value(x * ratio(u, w), w), 'conversion by attribute')
        unchanged((v.value, v.units), before, 'the converted quantity')


def return_unlike(u, w, s):
    v = Value(sym('x', s), u)
    raises(ValueError, 'convert() to a unit of another class', v.convert, w)
    raises(ValueError, 'attribute of a unit of another class', getattr, v, w)


def o_convert_unitless(w=('cm', 'kg', 'deg', 'yr'), s=NUMBERS, scale=SCALES):
    at_scale(scale)
    v = Value(sym('x', s), None)
    raises(ValueError, 'converting a unitless Value', v.convert, w)
    raises(ValueError, 'attribute of a unitless Value', getattr, v, w)


def o_unknown_attribute(u=('cm', None), name=('parsecs', 'foo', '_x', '__array_interface__'), scale=SCALES):
    at_scale(scale)
    v = Value(sym('x'), u)
    raises(AttributeError, 'an unknown attribute', getattr, v, name)
    same(hasattr(v, name), False, 'hasattr() of an unknown attribute')


DEFAULTS = {
    'metric': {'length': 'cm', 'weight': 'kg', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
    'united_states': {'length': 'in', 'weight': 'lb', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
}


def o_system_default(u=ALL, system=('metric', 'united_states'), s=NUMBERS, scale=SCALES):
    at_scale(scale)
    x = sym('x', s)
    w = DEFAULTS[system][CLASS[u]]
    near(Value(x, u).convert_to_system_default(system), Value(x * ratio(u, w), w), 'conversion to the default of a unit system')


def o_bool(s=('+', '-', '0'), u=('cm', None), scale=SCALES):
    at_scale(scale)
    v = Value(sym('x', s), u)
    same(bool(v), s != '0', 'truth value')
    same((1 if v else 2), (2 if s == '0' else 1), 'a Value as a condition')


def o_int(u=('cm', None), scale=SCALES):
    at_scale(scale)
    same(int(Value(7.9, u)), 7, 'int()')
    same(int(Value(-7.9, u)), -7, 'int()')


def o_builtin_round(u=('cm', 'kg', None), scale=SCALES):
    at_scale(scale)
    same(round(Value(1234.5678, u), 2), Value(1234.57, u), 'round(value, places)')
    same(round(Value(1234.5678, u), -2), Value(1200, u), 'round(value, places)')
    same(round(Value(1234.5678, u), 0), Value(1235, u), 'round(value, 0)')
    same(round(Value(1234.5678, u)), Value(1235, u), 'round(value)')


def o_round_nearest(u=('cm', 'kg'), scale=SCALES):
    at_scale(scale)
    same(Value(10.3, u).round(0.5), Value(10.5, u), 'value.round(nearest)')
    same(Value(10.2, u).round(0.25), Value(10.25, u), 'value.round(nearest)')


def o_prettified(u=('cm', 'in', 'm', 'kg', 'lb', 'stone', 'deg', 'rad', 'yr', 'days'), scale=SCALES):
    at_scale(scale)
    x = 123.456
    v = Value(x, u)
    same(v.prettified, units.prettify(x, u), 'prettified')
    v.value = 77.123
    same(v.prettified, units.prettify(77.123, u), 'prettified after the value is set')


def o_prettified_units(scale=SCALES):
    at_scale(scale)
    v = Value(100.0, 'cm')
    first = v.prettified
    v.units = 'm'
    same(v.prettified, units.prettify(100.0, 'm'), 'prettified after the unit is set')


def o_set(u=('cm', 'kg'), w=('cm', 'yr', None), scale=SCALES):
    at_scale(scale)
    v = Value(sym('x'), u)
    y = sym('y')
    v.value = y
    same((v.value, v.units), (y, u), 'setting the value')
    v.units = w
    same((v.value, v.units), (y, w), 'setting the units')


def o_json(u=('cm', 'lb', None), scale=SCALES):
    at_scale(scale)
    x = sym('x')
    v = Value(x, u)
    same(v.for_json(), {'__value__': {'value': x, 'units': u}}, 'for_json()')
    same(Value.from_json(v.for_json()), v, 'from_json() after for_json()')
    raises(ValueError, 'from_json() of an unknown unit', Value.from_json, {'__value__': {'value': x, 'units': 'parsecs'}})


def o_text(u=('cm', 'lb'), scale=SCALES):
    at_scale(scale)
    same(str(Value(1.5, u)), '1.500000 ' + u, 'str()')
    same(repr(Value(1.5, u)), '<Value 1.500000 ' + u + '>', 'repr()')
    same(Value(1.5, u).__unicode__(), '1.500000 ' + u, 'unicode')
