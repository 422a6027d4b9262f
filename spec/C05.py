'''Value arithmetic is unit safe.'''
from sa import at_scale, sym, same, near, raises, freeze, unchanged, apart
from spec_frames import SCALES
from blmath.value import Value
from spec_unitlib import ratio, UNIT

# Pairs of the same class (different sizes, aliases, the same unit) and of different classes.
LIKE = (('cm', 'cm'), ('cm', 'm'), ('in', 'cm'), ('ft', 'inches'), ('kg', 'lb'), ('stone', 'g'), ('rad', 'deg'),
        ('min', 'hr'), ('yr', 'days'), ('hours_per_week', 'hours_per_week'), ('millimeters', 'fathoms'))
UNLIKE = (('cm', 'kg'), ('kg', 'deg'), ('deg', 'sec'), ('yr', 'hours_per_week'), ('in', 'lb'), ('hours_per_week', 'm'))
SIGNS = ('+', '-', '0')


def o_add_sub(u=LIKE, s=SIGNS, t=SIGNS, scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a', s), u[0]), Value(sym('b', t), u[1])
    x, y = a.value, b.value
    k = ratio(u[1], u[0])
    near(a + b, Value(x + k * y, u[0]), 'the sum of two quantities, in the unit of the left one')
    near(a - b, Value(x - k * y, u[0]), 'the difference of two quantities, in the unit of the left one')
    same((a.value, a.units, b.value, b.units), (x, u[0], y, u[1]), 'the operands')


def o_scalar(u=('cm', 'kg', 'rad', None), s=SIGNS, n=('?', '+', '-', '1', '-1', 'i'), scale=SCALES):
    at_scale(scale)
    x, k = sym('x', s), sym('k', n)
    a = Value(x, u)
    same(a + k, Value(x + k, u), 'Value + number')
    same(k + a, Value(x + k, u), 'number + Value')
    same(a - k, Value(x - k, u), 'Value - number')
    same(k - a, Value(k - x, u), 'number - Value')
    same(a * k, Value(x * k, u), 'Value * number')
    same(k * a, Value(x * k, u), 'number * Value')
    same(a / k, Value(x / k, u), 'Value / number')
    same(-a, Value(-x, u), '-Value')
    same(+a, Value(x, u), '+Value')
    same(abs(a), Value(abs(x), u), 'abs(Value)')


def o_unitless_pair(s=SIGNS, t=('+', '-'), scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a', s)), Value(sym('b', t))
    same(a + b, Value(a.value + b.value), 'the sum of unitless Values')
    same(a - b, Value(a.value - b.value), 'the difference of unitless Values')
    same(a / b, Value(a.value / b.value), 'the ratio of unitless Values')
    same(a // b, Value(a.value // b.value), 'the floor ratio of unitless Values')


def o_sum(u=('cm', 'lb'), scale=SCALES):
    at_scale(scale)
    xs = [sym('x'), sym('y'), sym('z')]
    same(sum([Value(x, u) for x in xs]), Value(xs[0] + xs[1] + xs[2], u), 'sum() of values')


def o_iterables(u=('cm', 'lb'), kind=('list', 'tuple'), scale=SCALES):
    at_scale(scale)
    x = sym('x')
    ks = [sym('k0'), sym('k1'), sym('k2')]
    it = ks if kind == 'list' else tuple(ks)
    a = Value(x, u)
    same(a * it, [Value(x * k, u) for k in ks], 'Value * sequence')
    same(it * a if kind == 'x' else a.__rmul__(it), [Value(x * k, u) for k in ks], 'sequence * Value')
    same(a + it, [Value(x + k, u) for k in ks], 'Value + sequence')
    same(a.__radd__(it), [Value(x + k, u) for k in ks], 'sequence + Value')
    same(a - it, [Value(x - k, u) for k in ks], 'Value - sequence')
    same(a.__rsub__(it), [Value(k - x, u) for k in ks], 'sequence - Value')


def o_iterables_of_values(u=LIKE, scale=SCALES):
    at_scale(scale)
    x = sym('x')
    ks = [Value(sym('k0'), u[1]), Value(sym('k1'), u[0])]
    a = Value(x, u[0])
    r = ratio(u[1], u[0])
    near(a + ks, [Value(x + r * ks[0].value, u[0]), Value(x + ks[1].value, u[0])], 'Value + [Value]')
    near(a - ks, [Value(x - r * ks[0].value, u[0]), Value(x - ks[1].value, u[0])], 'Value - [Value]')


def o_ratio(u=LIKE, s=('+', '-', '1'), t=('?', '0', '1'), scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a', t), u[0]), Value(sym('b', s), u[1])
    near(a / b, Value(a.value / (ratio(u[1], u[0]) * b.value), None), 'the ratio of two like quantities is a pure number')
    # As Python 2 has it.
    same(a.__div__(b), a / b, 'the same by the older name')
    raises(ValueError, 'a number over a Value', b.__rdiv__, 2.)


def o_floor_ratio(u=LIKE, s=('+', '-', '0'), t=('+', '-'), scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a', s), u[0]), Value(sym('b', t), u[1])
    near(a // b, Value(a.value // (ratio(u[1], u[0]) * b.value), None), 'the floor ratio of two like quantities is a pure number')
    k = sym('k', t)
    same(a // k, Value(a.value // k, u[0]), 'Value // number')


def o_unlike(u=UNLIKE, s=('?', '0', '1'), t=('?', '0', '1'), scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a', s), u[0]), Value(sym('b', t), u[1])
    raises(ValueError, 'adding unlike quantities', lambda: b + a)
    raises(ValueError, 'subtracting unlike quantities', lambda: b - a)
    raises(ValueError, 'adding unlike quantities in a list', lambda: a + [a, b])
    raises(ValueError, 'summing unlike quantities', lambda: sum([a, b]))
    raises(ValueError, 'adding unlike quantities', lambda: a + b)
    raises(ValueError, 'subtracting unlike quantities', lambda: a - b)
    raises(ValueError, 'dividing unlike quantities', lambda: a / b)
    raises(ValueError, 'floor dividing unlike quantities', lambda: a // b)


def o_unitless(u=('cm', 'kg', 'deg'), s=('?', '0', '1'), t=('?', '0', '1'), scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a', s), u), Value(sym('b', t), None)
    raises((ValueError, KeyError, TypeError), 'unitless Value - quantity', lambda: b - a)
    raises((ValueError, KeyError, TypeError), 'quantity // unitless Value', lambda: a // b)
    raises((ValueError, KeyError, TypeError), 'unitless Value // quantity', lambda: b // a)
    raises((ValueError, KeyError, TypeError), 'quantity + unitless Value', lambda: a + b)
    raises((ValueError, KeyError, TypeError), 'unitless Value + quantity', lambda: b + a)
    raises((ValueError, KeyError, TypeError), 'quantity - unitless Value', lambda: a - b)
    raises((ValueError, KeyError, TypeError), 'quantity / unitless Value', lambda: a / b)
    raises((ValueError, KeyError, TypeError), 'unitless Value / quantity', lambda: b / a)


def o_unsupported(u=LIKE + UNLIKE + ((None, 'cm'), ('kg', None), (None, None)), s=('?', '0', '1'), n=('?', '0', '1'), scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a', s), u[0]), Value(sym('b'), u[1])
    k = sym('k', n)
    raises(ValueError, 'the product of two quantities', lambda: b * a)
    raises(ValueError, 'the product of a quantity and itself', lambda: a * a)
    raises(ValueError, 'the product of two quantities', lambda: a * b)
    raises(ValueError, 'number / Value', lambda: k / a)
    raises(ValueError, 'number // Value', lambda: k // a)
    raises(Exception, 'Value % number', lambda: a % k)
    raises(Exception, 'Value % Value', lambda: a % b)
    raises(Exception, 'Value ** number', lambda: a ** 2)


def o_inplace(u=LIKE, scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a'), u[0]), Value(sym('b'), u[1])
    c = a
    x = a.value
    c += b
    near(c, Value(x + ratio(u[1], u[0]) * b.value, u[0]), 'a += b')
    same((a.value, a.units), (x, u[0]), 'the other name of the left operand of +=')
    c = a
    c *= 2
    same((a.value, a.units, c.value, c.units), (x, u[0], 2 * x, u[0]), 'a *= 2')


def o_nothing_to_do(u=('cm', 'lb', None), s=SIGNS, scale=SCALES):
    # Adding nothing, or scaling by one, gives a new Value as well.
    at_scale(scale)
    x = sym('x', s)
    a = Value(x, u)
    none = Value(0, u)
    for got in (a + 0, 0 + a, a + 0., a - 0, a * 1, 1 * a, a * 1., a / 1, a + none, none + a, a - none, a / 1.):
        same(got, Value(x, u), 'the same quantity')
        got.value = got.value + 1
        same(a.value, x, 'after the result was set anew')
        same(none.value, 0, 'after the result was set anew')


def o_by_zero(u=LIKE, s=SIGNS, z=(0, 0.)):
    a, b = Value(sym('a', s), u[0]), Value(z, u[1])
    raises(ZeroDivisionError, 'a ratio to nothing', lambda: a / b)
    raises(ZeroDivisionError, 'a floor ratio to nothing', lambda: a // b)
    raises(ZeroDivisionError, 'Value / 0', lambda: a / z)
    raises(ZeroDivisionError, 'Value // 0', lambda: a // z)
