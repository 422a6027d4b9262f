'''Comparisons of Values.'''
from sa import at_scale, sym, same, holds, raises
from spec_frames import SCALES
from blmath.value import Value
from spec_unitlib import ratio
from spec_C05 import LIKE, UNLIKE

SIGNS = ('+', '-', '0')


def six(a, b):
    return (a < b, a <= b, a > b, a >= b, a == b, a != b)


def o_same_unit(u=('cm', 'kg', 'deg', 'yr', 'hours_per_week', None), s=SIGNS, t=SIGNS, scale=SCALES):
    at_scale(scale)
    x, y = sym('x', s), sym('y', t)
    same(six(Value(x, u), Value(y, u)), six(x, y), 'comparisons of two quantities in the same unit')


def o_number(u=('cm', 'lb', None), s=SIGNS + ('1', 'i'), n=('?', '0', '1', '-1', 'i'), scale=SCALES):
    at_scale(scale)
    x, y = sym('x', s), sym('y', n)
    same(six(Value(x, u), y), six(x, y), 'comparisons of a quantity with a number')
    same(six(y, Value(x, u)), six(y, x), 'comparisons of a number with a quantity')


def o_nearly_equal(u=('cm', 'kg', None), s=('+', '-'), e=(1e-3, 1e-5, 1e-7, 1e-10)):
    # Quantities which differ, however little, are not equal.
    x = sym('x', s)
    y = x + e * sym('e', '+')
    for a, b in ((Value(x, u), Value(y, u)), (Value(x, u), y), (x, Value(y, u))):
        same(six(a, b), six(0, 1), 'a quantity against a slightly greater one')
        same(six(b, a), six(1, 0), 'a quantity against a slightly lesser one')
    if u == 'cm':
        same(six(Value(x, 'm'), Value(100 * y, 'cm')), six(0, 1), 'a quantity against a slightly greater one, in another unit')
        same(six(Value(100 * y, 'cm'), Value(x, 'm')), six(1, 0), 'a quantity against a slightly lesser one, in another unit')


def o_like(u=LIKE, s=SIGNS, scale=SCALES):
    # Bounds are chosen a relative 1e-3 apart, so that a few digits of the conversion factors suffice.
    at_scale(scale)
    y = sym('y', s)
    e = sym('e', '+')
    for f in (-1, 1):
        x = ratio(u[1], u[0]) * y + f * (e + 1e-3 * abs(y) * ratio(u[1], u[0]))
        same(six(Value(x, u[0]), Value(y, u[1])), six(f, 0), 'comparisons of two like quantities')
        same(six(Value(y, u[1]), Value(x, u[0])), six(0, f), 'comparisons of two like quantities, reversed')


def o_equal(u=LIKE, scale=SCALES):
    at_scale(scale)
    y = sym('y')
    a = Value(y, u[0])
    same(six(a, a), six(0, 0), 'a quantity is equal to itself')
    same(six(a, Value(y, u[0])), six(0, 0), 'equal quantities')


EXACT = (('m', 'cm'), ('cm', 'm'), ('kg', 'g'), ('inches', 'in'), ('lbs', 'pounds'), ('yr', 'years'))


def o_equal_across_units(u=EXACT, s=('?', '+', '-', '0', '1'), scale=SCALES):
    at_scale(scale)
    y = sym('y', s)
    a, b = Value(y, u[0]), Value(y * ratio(u[0], u[1]), u[1])
    same(six(a, b), six(0, 0), 'the same quantity in two units')
    e = sym('e', '+')
    c = Value(y * ratio(u[0], u[1]) + e, u[1])
    same(six(a, c), six(0, 1), 'a quantity against a greater one')
    same(six(c, a), six(1, 0), 'a quantity against a lesser one')


NAN, INF = float('nan'), float('inf')


def o_no_number(u=('cm', 'kg', None), x=(NAN, INF, -INF, 'x'), y=(NAN, INF, -INF, 'y')):
    a = sym('x') if x == 'x' else x
    b = sym('y') if y == 'y' else y
    same(six(Value(a, u), Value(b, u)), six(a, b), 'comparisons of two quantities')
    same(six(Value(a, u), b), six(a, b), 'comparisons of a quantity with a number')
    same(six(a, Value(b, u)), six(a, b), 'comparisons of a number with a quantity')
    if u == 'cm':
        same(six(Value(a, 'm'), Value(b, 'cm')), six(a * 100, b), 'comparisons of two like quantities')


def o_unlike(u=UNLIKE, op=('<', '<=', '>', '>=', '==', '!='), s=('?', '0', '1'), t=('?', '0', '1'), scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a', s), u[0]), Value(sym('b', t), u[1])
    raises(ValueError, 'unlike quantities: ' + op, compare, op, a, b)
    raises(ValueError, 'unlike quantities: ' + op, compare, op, b, a)


def o_unitless(u=('cm', 'kg'), op=('<', '<=', '>', '>=', '==', '!='), s=('?', '0', '1'), t=('?', '0', '1'), scale=SCALES):
    at_scale(scale)
    a, b = Value(sym('a', s), u), Value(sym('b', t), None)
    raises((ValueError, KeyError, TypeError), 'quantity against unitless: ' + op, compare, op, a, b)
    raises((ValueError, KeyError, TypeError), 'unitless against quantity: ' + op, compare, op, b, a)


def compare(op, a, b):
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == '==':
        return a == b
    return a != b


def o_order(u=('cm', 'kg'), scale=SCALES):
    at_scale(scale)
    v = [Value(2, u), Value(1, u), Value(3, u)]
    same([x.value for x in sorted(v)], [1, 2, 3], 'sorted() of values')
    same((max(v).value, min(v).value), (3, 1), 'max() and min() of values')
