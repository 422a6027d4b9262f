'''
simplejson, without the text: what would be written is kept as a tree of plain
dicts, lists and scalars.
'''


class JSONDecodeError(ValueError):
    pass


class Text(str):
    pass


class JsonText(object):
    def __init__(self, tree, options):
        self.tree = tree
        self.options = options


def _encode(obj, o, depth):
    if isinstance(obj, float) and (obj != obj or obj == float('inf') or obj == -float('inf')):
        if o['ignore_nan']:
            return None
        if not o['allow_nan']:
            raise ValueError('Out of range float values are not JSON compliant')
        return obj
    if obj is None or isinstance(obj, (str, bool, int, float)):
        return obj
    if o['for_json'] and hasattr(obj, 'for_json'):
        return _encode(obj.for_json(), o, depth + 1)
    if isinstance(obj, dict):
        out = {}
        keys = sorted(obj) if o['sort_keys'] else list(obj)
        for q in keys:
            k, v = q, obj[q]
            if k is None:
                k = 'null'
            elif k is True:
                k = 'true'
            elif k is False:
                k = 'false'
            elif isinstance(k, (int, float)):
                k = str(k)
            elif not isinstance(k, str):
                if o['skipkeys']:
                    continue
                raise TypeError('keys must be str, int, float, bool or None')
            out[k] = _encode(v, o, depth + 1)
        return out
    if isinstance(obj, list) or isinstance(obj, tuple) and o['tuple_as_array']:
        return [_encode(v, o, depth + 1) for v in obj]
    if o['iterable_as_array'] and hasattr(obj, '__iter__'):
        return [_encode(v, o, depth + 1) for v in obj]
    if o['default'] is not None:
        return _encode(o['default'](obj), o, depth + 1)
    raise TypeError('Object is not JSON serializable')


def dumps(obj, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=False, cls=None, indent=None, separators=None,
          encoding='utf-8', default=None, use_decimal=True, namedtuple_as_object=True, tuple_as_array=True, bigint_as_string=False,
          sort_keys=False, item_sort_key=None, for_json=False, ignore_nan=False, int_as_string_bitcount=None, iterable_as_array=False):
    options = {'skipkeys': skipkeys, 'indent': indent, 'sort_keys': sort_keys, 'separators': separators, 'ignore_nan': ignore_nan, 'allow_nan': allow_nan,
               'for_json': for_json, 'default': default, 'iterable_as_array': iterable_as_array, 'tuple_as_array': tuple_as_array}
    return JsonText(_encode(obj, options, 0), options)


def dump(obj, fp, *args, **kwargs):
    fp.write(dumps(obj, *args, **kwargs))


def _decode(t, hook, parse_float=None, parse_int=None):
    if isinstance(t, dict):
        out = {}
        for k, v in t.items():
            out[k] = _decode(v, hook, parse_float, parse_int)
        return hook(out) if hook is not None else out
    if isinstance(t, list):
        return [_decode(v, hook, parse_float, parse_int) for v in t]
    if isinstance(t, bool):
        return t
    if isinstance(t, int) and parse_int is not None:
        return parse_int(t)
    if isinstance(t, float) and parse_float is not None:
        return parse_float(t)
    return t


def loads(s, encoding=None, cls=None, object_hook=None, parse_float=None, parse_int=None, parse_constant=None, object_pairs_hook=None,
          use_decimal=False, allow_nan=False):
    return _decode(s.tree, object_hook, parse_float, parse_int)


def load(fp, encoding=None, cls=None, object_hook=None, parse_float=None, parse_int=None, parse_constant=None, object_pairs_hook=None,
         use_decimal=False, namedtuple_as_object=True, tuple_as_array=True, allow_nan=False):
    return _decode(fp.read().tree, object_hook, parse_float, parse_int)
