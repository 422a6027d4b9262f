'''The engine that checks obligation templates by abstract interpretation.'''
import os

from .spec import Spec


def run(root, tier, seed, here, specs):
    S = Spec(root, os.path.join(here, 'spec'), specs)
    S.tier = tier
    errors = ['%s: %s' % kv for kv in S.spec_errors.items()]
    for n in specs:
        S.run(n)
    info = {
        'functions_of_the_library_interpreted': len(S.I.functions),
        'functions': sorted(S.I.functions),
        'modules_loaded': len(S.I.modules),
        'modules_that_do_not_load': {k: str(v) for k, v in S.load_errors.items()},
        'unmodelled_calls': dict(S.I.unmodelled),
    }
    return S.results, info, errors
