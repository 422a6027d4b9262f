'''JSON: what is written reads back as it was.'''
import numpy as np
import scipy.sparse as sp
import simplejson
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds, apart
from spec_frames import SCALES
from blmath.util import json
from blmath.value import Value

UNITS = ('cm', 'lb', 'rad', 'yr', 'hours_per_week', None)


class File(object):
    def __init__(self):
        self.parts = []

    def write(self, text):
        self.parts.append(text)

    def read(self):
        return self.parts[0]


def through(x, how):
    if how == 'plain':
        return simplejson.loads(simplejson.dumps(x))
    if how == 'text':
        return json.loads(json.dumps(x))
    f = File()
    json.dump(x, f)
    return json.load(f)


def o_value(u=UNITS, s=('?', '0', '1', '-1'), how=('text', 'file'), scale=SCALES):
    at_scale(scale)
    x = sym('x', s)
    v = Value(x, u)
    before = freeze(v)
    r = through(v, how)
    holds(isinstance(r, Value), 'a Value reads back as a Value')
    same((r.value, r.units), (x, u), 'a Value reads back')
    unchanged(v, before, 'the Value written')


def o_nested(how=('text', 'file'), scale=SCALES):
    at_scale(scale)
    a, b, c = sym('a'), sym('b'), sym('c')
    x = {'one': Value(a, 'cm'), 'many': [Value(b, 'lb'), {'deep': (Value(c, None), 'text', None, True, 3)}], 'plain': {'value': a, 'units': 'cm'}, 'none': {}}
    before = freeze(x)
    r = through(x, how)
    same(r, {'one': Value(a, 'cm'), 'many': [Value(b, 'lb'), {'deep': [Value(c, None), 'text', None, True, 3]}], 'plain': {'value': a, 'units': 'cm'}, 'none': {}}, 'a structure reads back')
    unchanged(x, before, 'the structure written')


def o_plain(x=({'a': [1, 2.5, None, True, 'x']}, [], 'text', 3, None, [[], {}], {'value': 1, 'units': 'cm'}, {'dtype': 'int64'}), how=('text', 'file'), scale=SCALES):
    at_scale(scale)
    same(through(x, how), x, 'plain data reads back as it was')


def o_unknown_unit(scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'a Value in an unknown unit', json.decode_json, {'__value__': {'value': sym('x'), 'units': 'parsecs'}})
    raises(ValueError, 'a Value of nothing', json.decode_json, {'__value__': {'value': None, 'units': 'cm'}})


def o_not_serializable(what=('object', 'key', 'set', 'array', 'nan', 'inf', 'nan value', 'complex'), nested=(False, True), how=('text', 'file'), scale=SCALES):
    # Nothing is left out, or written as something else.
    at_scale(scale)
    bad = {'object': lambda: object(), 'key': lambda: {('a', 1): 2}, 'set': lambda: set([1]), 'array': lambda: np.array([1., 2.]), 'nan': lambda: float('nan'),
           'inf': lambda: -float('inf'), 'nan value': lambda: Value(float('nan'), 'cm'), 'complex': lambda: 1j}[what]()
    e = ValueError if what in ('nan', 'inf', 'nan value') else TypeError
    raises(e, 'an object without a JSON form', through, {'a': [1, bad]} if nested else bad, how)


def o_order(how=('text', 'file'), scale=SCALES):
    # Keys stay in order, and numbers as keys become text, as in plain JSON.
    at_scale(scale)
    x = {'z': sym('z'), 'b': Value(sym('b'), 'cm'), 'y': {'d': 1, 'c': 2}, 'a': None}
    r = through(x, how)
    same((list(r), list(r['y'])), (['z', 'b', 'y', 'a'], ['d', 'c']), 'the order of the keys')
    same(through({1: 2, True: 3, None: 4}, how), through({1: 2, True: 3, None: 4}, 'plain'), 'keys which are not text')


def o_ndarray(shape=((3,), (2, 3), (2, 2, 2), (1,), (0,)), dtype=(None, 'float64', 'float32'), nested=(False, True), scale=SCALES):
    at_scale(scale)
    a = arr('a', shape)
    if dtype == 'float32':
        a = a.astype(np.float32)
    d = {'__ndarray__': a.tolist()}
    if dtype is not None:
        d['dtype'] = dtype
    before = freeze(d)
    r = json.decode_json(d)
    holds(isinstance(r, np.ndarray), 'an array is decoded')
    same(r, a, 'the numbers of the array')
    same(r.shape, shape, 'the shape of the array')
    same(r.dtype == np.dtype(dtype if dtype is not None else np.float64), True, 'the dtype of the array')
    unchanged(d, before, 'what is decoded')
    if nested:
        r = json.loads(json.dumps({'x': [d], 'y': 1}))
        same(r['x'][0], a, 'an array inside a structure')
        same(r['y'], 1, 'the rest of the structure')


def o_ndarray_ints(dtype=('int64', 'int32', 'uint8', 'bool'), scale=SCALES):
    at_scale(scale)
    r = json.decode_json({'__ndarray__': [[1, 0], [0, 1]], 'dtype': dtype})
    same(r.dtype == np.dtype(dtype), True, 'the dtype of the array')
    same(r.astype(np.int64), [[1, 0], [0, 1]], 'the numbers of the array')


def o_ndarray_default_dtype(scale=SCALES):
    at_scale(scale)
    r = json.decode_json({'__ndarray__': [1, 2]})
    same(r.dtype == np.float64, True, 'the dtype of an array which does not say')


SPARSE = '__scipy.sparse.sparsematrix__'


def o_sparse(fmt=('coo', 'csr', 'csc'), dtype=('float64', 'float32'), shape=((3, 3), (4, 2)), nested=(False, True), scale=SCALES):
    at_scale(scale)
    a, b, c = np.array([sym('a'), sym('b'), sym('c')]).astype(dtype).tolist()
    d = {SPARSE: True, 'dtype': dtype, 'shape': list(shape), 'data': [a, b, c], 'format': fmt, 'row': [0, 2, 1], 'col': [1, 0, 1]}
    if nested:
        r = json.loads(json.dumps({'m': d}))['m']
    else:
        before = freeze(d)
        r = json.decode_json(d)
        unchanged(d, before, 'what is decoded')
    holds(sp.issparse(r), 'a sparse matrix is decoded')
    want = np.zeros(shape)
    want[0, 1] = a
    want[2, 0] = b
    want[1, 1] = c
    same(r.toarray(), want, 'the entries of the matrix')
    same(tuple(r.shape), shape, 'the shape of the matrix')
    same(r.format, fmt, 'the format of the matrix')
    same(r.dtype == np.dtype(dtype), True, 'the dtype of the matrix')


def o_sparse_no_entries(fmt=('coo', 'csr', 'csc'), shape=((3, 3), (0, 2), (0, 0)), nested=(False, True)):
    d = {SPARSE: True, 'dtype': 'float64', 'shape': list(shape), 'data': [], 'format': fmt, 'row': [], 'col': []}
    if shape == (0, 0) or shape == (0, 2):
        if fmt != 'coo':
            return
    r = json.loads(json.dumps({'m': d}))['m'] if nested else json.decode_json(d)
    holds(sp.issparse(r), 'a sparse matrix without entries is decoded')
    same(tuple(r.shape), shape, 'the shape of the matrix')
    same(r.toarray(), np.zeros(shape), 'the entries of the matrix')


def o_sparse_incomplete(gone=('dtype', 'shape', 'data', 'format', 'row', 'col'), scale=SCALES):
    at_scale(scale)
    d = {SPARSE: True, 'dtype': 'float64', 'shape': [2, 2], 'data': [1.0], 'format': 'csr', 'row': [0], 'col': [1]}
    del d[gone]
    before = freeze(d)
    r = json.decode_json(d)
    unchanged(r, before, 'an incomplete sparse matrix stays as it was')


def o_options(scale=SCALES):
    at_scale(scale)
    t = json.dumps([1], indent=2, sort_keys=True)
    same(t.options['indent'], 2, 'options of dumps')
    same(t.options['sort_keys'], True, 'options of dumps')
    f = File()
    json.dump([1], f, indent=3)
    same(f.parts[0].options['indent'], 3, 'options of dump')

    x = {'a': [1, 2.5, True, Value(2.5, 'cm')]}
    twice = lambda x: 2 * float(x)
    for parse, want in (({}, [1, 2.5, True, 2.5]), ({'parse_float': twice}, [1, 5., True, 5.]), ({'parse_int': twice}, [2., 2.5, True, 2.5])):
        got = json.loads(json.dumps(x), **parse)['a']
        same(got[:3] + [got[3].value], want, 'options of loads')
        f = File()
        json.dump(x, f)
        got = json.load(f, **parse)['a']
        same(got[:3] + [got[3].value], want, 'options of load')


def o_only_marked(how=('text', 'file'), also=((), ('__scipy',), ('__sparse__',)), scale=SCALES):
    # All that a sparse matrix has, except for the mark.
    at_scale(scale)
    x = {'dtype': 'float64', 'shape': [2, 2], 'data': [1.5], 'format': 'csr', 'row': [0], 'col': [1]}
    for k in also:
        x[k] = True
    before = freeze(x)
    same(through(x, how), before, 'stays as it is')


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    a = [float(i % 7) - 1.5 for i in range(n)]
    same(json.decode_json({'__ndarray__': a}), np.array(a), 'an array of many numbers')
    at = [(i * 7) % n for i in range(n)]
    d = {SPARSE: True, 'dtype': 'float64', 'shape': [n, 2], 'data': a, 'format': 'coo', 'row': list(range(n)), 'col': [i % 2 for i in range(n)]}
    r = json.decode_json(d)
    same(r.toarray(), np.array([[x if i % 2 == j else 0. for j in range(2)] for i, x in enumerate(a)]), 'a sparse matrix of many entries')
    same(json.loads(json.dumps({'x': a})), {'x': a}, 'a long list')
