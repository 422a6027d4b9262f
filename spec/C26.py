'''Numbers and values typed at the console.'''
from plumbum.cli import terminal, ask
from sa import same, holds, raises
from blmath.console import input_float, input_value
from blmath.value import Value
from spec_unitlib import UNIT

LISTED = tuple(sorted(UNIT))

NUMBERS = ('12', '12.5', '-3', '0', '1e3', '0.0')
JUNK = ('', 'x', '1,5')


def o_float(typed=NUMBERS, allow=('default', False, True), before=((), ('x',), ('1,5', 'two'))):
    ask(*(before + (typed,)))
    got = input_float('Size: ') if allow == 'default' else input_float('Size: ', allow_empty=allow)
    same(got, float(typed), 'the number typed')
    holds(isinstance(got, float), 'a float')
    same(len(terminal.asked), len(before) + 1, 'asked again for what is not a number')
    for q in terminal.asked:
        holds('Size' in q, 'shows the prompt')


def o_float_empty(allow=('default', False, True), before=((), ('x',))):
    ask(*(before + ('', '7')))
    got = input_float('Size: ') if allow == 'default' else input_float('Size: ', allow)
    same(got, None if allow is True else 7., 'nothing, when that is allowed, and otherwise what is typed next')
    same(len(terminal.asked), len(before) + (1 if allow is True else 2), 'asked again only when empty is not allowed')


def o_value(units=LISTED, typed=NUMBERS, allow=('default', False, True), before=((), ('x',))):
    ask(*(before + (typed,)))
    got = input_value('Waist', units) if allow == 'default' else input_value('Waist', units, allow_empty=allow)
    holds(isinstance(got, Value), 'a Value')
    same(got.value, float(typed), 'the number typed')
    same(got.units, units, 'in the units asked for')
    same(len(terminal.asked), len(before) + 1, 'asked again for what is not a number')
    for q in terminal.asked:
        holds('Waist' in q, 'shows the label')
        holds(units in q, 'shows the units')


def o_value_empty(units=('cm', 'kg', 'deg'), allow=('default', False, True)):
    ask('', '7')
    got = input_value('Waist', units) if allow == 'default' else input_value('Waist', units, allow)
    if allow is True:
        same(got, None, 'nothing')
    else:
        holds(isinstance(got, Value), 'a Value')
        same((got.value, got.units), (7., units), 'what is typed next')


def o_value_zero(units=('cm', 'kg'), allow=(False, True)):
    ask('0')
    got = input_value('Waist', units, allow)
    holds(isinstance(got, Value), 'zero is not nothing')
    same(got.value, 0., 'zero')


def o_value_unitless(typed=NUMBERS, allow=(False, True)):
    ask('x', typed)
    got = input_value('Scale', None, allow)
    holds(isinstance(got, Value), 'a Value without units is a Value')
    same((got.value, got.units), (float(typed), None), 'the number typed, without units')
