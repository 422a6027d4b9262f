'''The table of units.'''
from sa import at_scale, sym, same, near, holds, raises, apart, freeze
from spec_frames import SCALES
from blmath import units
from spec_unitlib import UNIT, CLASS, SIZE

ALL = tuple(sorted(UNIT))


def o_class(u=ALL, scale=SCALES):
    at_scale(scale)
    same(units.units_class(u), CLASS[u], 'the class of a unit')
    holds(u in units.all_units, 'a supported unit')
    holds(u in units.units_in_class(CLASS[u]), 'a unit is listed in its class')


def o_size(u=ALL, scale=SCALES):
    at_scale(scale)
    ref = {'length': 'm', 'weight': 'kg', 'angle': 'deg', 'time': 'sec', 'time_rate': 'hours_per_week'}[CLASS[u]]
    near(units.factor(u, ref), UNIT[u], 'the size of a unit')


def o_groups():
    for name, us in (('length', units.lengths), ('weight', units.weights), ('angle', units.angles),
                     ('time', units.times), ('time_rate', units.time_rates)):
        same(sorted(us), sorted(units.units_in_class(name)), 'the units in a class')
        for u in SIZE[name]:
            holds(u in us, 'unit %s of class %s' % (u, name))
        for u in us:
            same(units.units_class(u), name, 'the class of a listed unit')
    same(sorted(units.all_units_classes), sorted(SIZE), 'the classes')


def o_every_unit_has_one_class():
    n = 0
    for c in units.all_units_classes:
        n = n + len(units.units_in_class(c))
    same(n, len(list(units.all_units)), 'the classes partition the units')


def o_no_units(u=(None, '')):
    same(units.units_class(u), None, 'the class of no unit')


def o_unknown(u=('parsecs', 'CM', 'length')):
    raises(KeyError, 'the class of an unknown unit', units.units_class, u)


DEFAULTS = {
    'metric': {'length': 'cm', 'weight': 'kg', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
    'united_states': {'length': 'in', 'weight': 'lb', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
}


def o_defaults(system=('metric', 'united_states')):
    same(units.default_units(system), DEFAULTS[system], 'the default units of a system')
    want = dict(DEFAULTS[system])
    want['length'] = 'ft'
    exc = {'length': 'ft'}
    same(units.default_units(system, exc), want, 'the default units, with exceptions')
    same(exc, {'length': 'ft'}, 'the exceptions passed in')
    same(units.default_units(system, exceptions={'length': 'ft'}), want, 'the default units, with exceptions')
    same(units.default_units(system), DEFAULTS[system], 'the default units after a call with exceptions')
    got = units.default_units(system)
    got['weight'] = 'stone'
    same(units.default_units(system), DEFAULTS[system], 'the default units after a result was changed')
    raises(KeyError, 'an unknown system', units.default_units, 'imperial')


def o_default_default():
    same(units.default_units(), DEFAULTS['metric'], 'the default system')


def o_defaults_are_units(system=('metric', 'united_states')):
    d = units.default_units(system)
    for c in d:
        same(units.units_class(d[c]), c, 'a default unit is of its class')
    same(sorted(d), sorted(units.all_units_classes), 'each class has a default')
