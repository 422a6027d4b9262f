'''No call changes what it is given.'''
from sa import freeze, unchanged, outcome
from spec_calls import CASES, NAMES, FORMS, Given


def o_inputs(call=NAMES, form=FORMS):
    args, fn = CASES[call](Given(form))
    before = freeze(args)
    outcome(fn, *args)
    unchanged(args, before, '%s leaves its arguments alone' % call)
    outcome(fn, *args)
    unchanged(args, before, '%s leaves its arguments alone the second time' % call)
