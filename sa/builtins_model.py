'''Models of Python's builtins and of the standard-library names the package uses.'''
import math
import string

from . import terms as tm
from . import num
from .values import *          # noqa: F401,F403
from .values import Val, term, bterm

EXCEPTIONS = '''
BaseException
 Exception
  ArithmeticError
   OverflowError
   ZeroDivisionError
   FloatingPointError
  AssertionError
  AttributeError
  BufferError
  EOFError
  ImportError
   ModuleNotFoundError
  LookupError
   IndexError
   KeyError
  MemoryError
  NameError
   UnboundLocalError
  OSError
   FileNotFoundError
  RuntimeError
   NotImplementedError
   RecursionError
  StopIteration
  SyntaxError
  TypeError
  ValueError
   UnicodeError
   LinAlgError
  Warning
   DeprecationWarning
   UserWarning
   RuntimeWarning
   FutureWarning
 KeyboardInterrupt
 SystemExit
 GeneratorExit
'''


class Const(object):
    def __init__(self, v):
        self.v = v


def mkclass(I, name, bases, ns=None):
    oid = I.next
    I.next += 1
    I.base[oid] = DictC({k: (k, v) for k, v in (ns or {}).items()})
    return ClassV(name, bases, Ref(oid), None, True)


def method(name, fn):
    b = BuiltinV(name, fn)
    b.method = True
    return b


def install(I):
    I.builtins = {}
    I.cls_call = {}
    I.builtin_attrs = {}
    B = I.builtins
    obj = I.object_cls = mkclass(I, 'object', [])

    def set_attr(I, a, k):
        I.obj_setattr(a[0], a[1], a[2])

    def get_attribute(I, a, k):
        c = I.content(a[0])
        m = I.class_attr(c.cls, a[1])
        if m is not None and I.is_data_descriptor(m):
            return I.bind(m, a[0], c.cls)
        if a[1] in c.attrs:
            return c.attrs[a[1]]
        if m is not None:
            return I.bind(m, a[0], c.cls)
        I.attr_error(c.cls.name, a[1])
    d = I.base[obj.ns.oid].d
    for n, f in (('__setattr__', set_attr), ('__getattribute__', get_attribute)):
        d[n] = (n, method(n, f))

    def new_obj(I, a, k):
        cls = a[0]
        return I.new(ObjC(cls, {}))
    T = I.types = {'object': obj}
    for n in ('int', 'float', 'complex', 'str', 'bytes', 'list', 'dict', 'tuple', 'set', 'frozenset', 'range', 'slice',
              'type', 'property', 'staticmethod', 'classmethod', 'function', 'builtin', 'module', 'NoneType', 'iterator',
              'generator', 'ellipsis', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'method', 'super'):
        T[n] = mkclass(I, n, [obj])
    T['bool'] = mkclass(I, 'bool', [T['int']])
    for n in ('int', 'float', 'complex', 'str', 'bytes', 'list', 'dict', 'tuple', 'set', 'frozenset', 'range', 'slice',
              'type', 'property', 'staticmethod', 'classmethod', 'bool', 'object', 'enumerate', 'zip', 'map', 'filter', 'reversed'):
        B[n] = T[n]
    stack = []
    for line in EXCEPTIONS.strip('\n').split('\n'):
        ind = len(line) - len(line.lstrip())
        n = line.strip()
        del stack[ind:]
        c = mkclass(I, n, [stack[-1]] if stack else [obj])
        stack.append(c)
        I.excs[n] = c
        if n != 'LinAlgError':
            B[n] = c
    I.excs['IOError'] = B['IOError'] = B['EnvironmentError'] = I.excs['OSError']
    I.base[I.excs['BaseException'].ns.oid].d['__init__'] = ('__init__', method('__init__', _exc_init))
    B['NotImplemented'] = NotImplemented
    B['Ellipsis'] = Ellipsis
    B['__name__'] = '__main__'

    fns = dict(len=_len, abs=_abs, min=_minmax(False), max=_minmax(True), sum=_sum, any=_any, all=_all, round=_round,
               sorted=_sorted, isinstance=_isinstance, issubclass=_issubclass, hasattr=_hasattr, getattr=_getattr,
               setattr=_setattr, delattr=_delattr, callable=_callable, iter=_iter, next=_next, id=_id, hash=_hash,
               repr=_repr, print=_print, divmod=_divmod, pow=_powf, ord=_ord, chr=_chr, format=_format, vars=_vars)
    for n, f in fns.items():
        B[n] = BuiltinV(n, f)
    C = I.cls_call
    C[T['int']] = _int
    C[T['float']] = _float
    C[T['bool']] = lambda I, a, k: num.sb(I.truth(a[0])) if a else False
    C[T['str']] = lambda I, a, k: I.str_(a[0]) if a else ''
    C[T['list']] = lambda I, a, k: I.new(ListC(I.iterate(a[0]) if a else ()))
    C[T['tuple']] = lambda I, a, k: tuple(I.iterate(a[0])) if a else ()
    C[T['set']] = lambda I, a, k: I.new(SetC(I.keyed(I.iterate(a[0])) if a else {}))
    C[T['frozenset']] = lambda I, a, k: I.new(SetC(I.keyed(I.iterate(a[0])) if a else {}, True))
    C[T['dict']] = _dict
    C[T['range']] = _range
    C[T['slice']] = _slice
    C[T['type']] = _type
    C[T['property']] = lambda I, a, k: PropertyV(*(list(a) + [None] * 3)[:3])
    C[T['staticmethod']] = lambda I, a, k: StaticV(a[0])
    C[T['classmethod']] = lambda I, a, k: ClassMethodV(a[0])
    C[T['enumerate']] = _enumerate
    C[T['zip']] = _zip
    C[T['map']] = _map
    C[T['filter']] = _filter
    C[T['reversed']] = _reversed
    C[T['object']] = lambda I, a, k: I.new(ObjC(obj, {}))
    I.builtin_attrs[('object', '__new__')] = BuiltinV('object.__new__', new_obj)

    def onew(I, a, k):
        return I.new(ObjC(a[0], {}))
    # Reached through super().__new__ or object.__new__.
    I.object_new = BuiltinV('object.__new__', onew)
    import types as _t
    for n, f in (('container_attr', container_attr), ('scalar_attr', scalar_attr), ('proxy_attr', proxy_attr),
                 ('builtin_cls_attr', builtin_cls_attr), ('type_of', type_of), ('isinstance_', isinstance_)):
        setattr(I, n, _t.MethodType(f, I))


def _exc_init(I, a, k):
    I.setraw(a[0], 'args', tuple(a[1:]))


def need(I, a, k, name, n, m=None):
    m = n if m is None else m
    if not n <= len(a) + len(k) <= m:
        I.raise_('TypeError', '%s() takes %d to %d arguments' % (name, n, m))


# --- types ------------------------------------------------------------------

def type_of(I, v):
    '''The class of a value (ClassV).'''
    T = I.types
    if isinstance(v, bool):
        return T['bool']
    if isinstance(v, int):
        return T['int']
    if isinstance(v, float):
        return T['float']
    if isinstance(v, Sym):
        if v.np:
            return T[{'f': 'numpy.float64', 'i': 'numpy.int64', 'b': 'numpy.bool'}[v.ty]]
        return T[{'f': 'float', 'i': 'int', 'b': 'bool'}[v.ty]]
    if isinstance(v, (str, StrV)):
        return T['str']
    if isinstance(v, bytes):
        return T['bytes']
    if isinstance(v, tuple):
        return T['tuple']
    if isinstance(v, range):
        return T['range']
    if isinstance(v, slice):
        return T['slice']
    if v is None:
        return T['NoneType']
    if v is Ellipsis:
        return T['ellipsis']
    if isinstance(v, complex):
        return T['complex']
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ListC):
            return T['list']
        if isinstance(c, DictC):
            return T['dict']
        if isinstance(c, SetC):
            return T['frozenset' if c.frozen else 'set']
        if isinstance(c, ObjC):
            return c.cls
        if isinstance(c, ArrC):
            return T['numpy.matrix' if c.matrix else 'numpy.ndarray']
        if isinstance(c, IterC):
            return T['iterator']
    if isinstance(v, ClassV):
        return T['type']
    if isinstance(v, FuncV):
        return T['function']
    if isinstance(v, BoundV):
        return T['method']
    if isinstance(v, BuiltinV):
        return T['builtin']
    if isinstance(v, PropertyV):
        return T['property']
    if isinstance(v, ModuleV):
        return T['module']
    if isinstance(v, DictProxyV):
        return T['dict']
    if type(v).__name__ == 'ExtV':
        return T['builtin']
    raise Unsupported('type of %r' % (v,))


ABSTRACT = {
    'collections.abc.Iterable': '__iter__', 'collections.Iterable': '__iter__',
    'collections.abc.Sized': '__len__', 'collections.abc.Callable': '__call__', 'collections.abc.Hashable': '__hash__',
}


def isinstance_(I, v, t):
    '''A boolean term.'''
    v, t = I.force(v), I.force(t)
    if isinstance(t, tuple):
        return tm.or_(*[isinstance_(I, v, x) for x in t])
    if isinstance(v, OpaqueV):
        return tm.bapp('isinstance', v.t, I.key(t))
    if isinstance(t, ExtV):
        t2 = I.ext_value(t.path)
        if isinstance(t2, ClassV):
            t = t2
        elif t.path in ABSTRACT:
            return I.hasattr_(v, ABSTRACT[t.path])
        elif t.path in ('collections.abc.Sequence',):
            return tm.TRUE if type_of(I, v) in [I.types[n] for n in ('list', 'tuple', 'str', 'bytes', 'range')] else tm.FALSE
        elif t.path in ('collections.abc.Mapping', 'collections.abc.MutableMapping'):
            return tm.TRUE if type_of(I, v) is I.types['dict'] else tm.FALSE
        elif t.path.startswith('numbers.'):
            n = t.path.split('.')[1]
            k = type_of(I, v)
            integral = [I.types[x] for x in ('int', 'bool', 'numpy.int64')]
            real = integral + [I.types[x] for x in ('float', 'numpy.float64')]
            return tm.TRUE if k in (integral if n in ('Integral', 'Rational') else real) else tm.FALSE
        elif isinstance(v, Ref) and isinstance(I.content(v), ObjC):
            e = I.memo.get(('extcls', t.path))
            return tm.TRUE if e is not None and I.content(v).cls.issub(e) else tm.FALSE
        else:
            if I.external_exists(t.path) is False:
                I.raise_('AttributeError', 'no such name: %s' % t.path)
            # An instance of a class the analysis knows nothing about: builtin values are not.
            return tm.FALSE
    if isinstance(t, ClassV):
        return tm.TRUE if type_of(I, v).issub(t) else tm.FALSE
    if isinstance(t, OpaqueV):
        return tm.bapp('isinstance', I.key(v), t.t)
    I.raise_('TypeError', 'isinstance() arg 2 must be a type or tuple of types')


def _isinstance(I, a, k):
    need(I, a, k, 'isinstance', 2)
    return num.sb(isinstance_(I, a[0], a[1]))


def _issubclass(I, a, k):
    need(I, a, k, 'issubclass', 2)

    def one(t):
        if isinstance(t, tuple):
            return any(one(x) for x in t)
        if isinstance(t, ExtV):
            t = I.ext_value(t.path)
        if isinstance(t, ExtV):
            raise Unsupported('issubclass')
        return a[0].issub(t)
    c = a[0]
    if isinstance(c, ExtV):
        c = I.ext_value(c.path)
    if not isinstance(c, ClassV):
        I.raise_('TypeError', 'issubclass() arg 1 must be a class')
    return one(a[1])


def _type(I, a, k):
    if len(a) == 1:
        return type_of(I, a[0])
    raise Unsupported('type()')


# --- conversions --------------------------------------------------------------

def _float(I, a, k):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, (int, float)):
        try:
            return float(v)
        except OverflowError as e:
            I.raise_('OverflowError', str(e))
    if isinstance(v, Sym):
        return Sym(term(v), 'f')
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            I.raise_('ValueError', 'could not convert string to float: %r' % v)
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ArrC):
            if c.idx.size != 1:
                I.raise_('TypeError', 'only length-1 arrays can be converted to Python scalars')
            return _float(I, [I.np.item(I, v)], {})
        if isinstance(c, ObjC):
            for n in ('__float__', '__index__'):
                m = I.class_attr(c.cls, n)
                if m is not None:
                    r = I.force(I.call(I.bind(m, v, c.cls), [], {}))
                    if isinstance(r, OpaqueV):
                        return r
                    if not is_num(r) or n == '__float__' and ty_of(r) != 'f':
                        I.raise_('TypeError', '%s.%s returned non-float' % (c.cls.name, n))
                    return _float(I, [r], {})
    if isinstance(v, OpaqueV):
        return Sym(tm.app('float', v.t), 'f')
    if isinstance(v, StrV):
        return Sym(tm.app('float', v.t), 'f')
    I.raise_('TypeError', 'float() argument must be a string or a real number')


def _int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (int, float)):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            I.raise_(type(e).__name__, str(e))
    if isinstance(v, Sym):
        if v.ty in 'ib':
            return Sym(term(v), 'i')
        t = term(v)
        if t.op == 'nan':
            I.raise_('ValueError', 'cannot convert float NaN to integer')
        if t.op == 'inf':
            I.raise_('OverflowError', 'cannot convert float infinity to integer')
        r = Sym(tm.fn('trunc', t), 'i')
        n = num.native(r)
        return r if n is None else int(n)
    if isinstance(v, str):
        try:
            return int(v, *a[1:])
        except ValueError:
            I.raise_('ValueError', 'invalid literal for int()')
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ArrC):
            if c.idx.size != 1:
                I.raise_('TypeError', 'only length-1 arrays can be converted to Python scalars')
            return _int(I, [I.np.item(I, v)], {})
        if isinstance(c, ObjC):
            for n in ('__int__', '__index__', '__trunc__'):
                m = I.class_attr(c.cls, n)
                if m is not None:
                    r = I.force(I.call(I.bind(m, v, c.cls), [], {}))
                    if not is_num(r) or ty_of(r) == 'f':
                        I.raise_('TypeError', '__int__ returned non-int')
                    return r
    if isinstance(v, (OpaqueV, StrV)):
        return Sym(tm.app('int', v.t), 'i')
    I.raise_('TypeError', 'int() argument must be a string or a real number')


def _dict(I, a, k):
    d = {}
    if a:
        v = a[0]
        if isinstance(v, DictProxyV) or isinstance(v, Ref) and isinstance(I.content(v), DictC):
            for kk, vv in I.dict_items(v):
                I.dput(d, kk, vv)
        else:
            for it in I.iterate(v):
                p = I.iterate(it)
                if len(p) != 2:
                    I.raise_('ValueError', 'dictionary update sequence element has length %d; 2 is required' % len(p))
                I.dput(d, p[0], p[1])
    for kk, vv in k.items():
        d[kk] = (kk, vv)
    return I.new(DictC(d))


def _range(I, a, k):
    need(I, a, k, 'range', 1, 3)
    n = []
    for x in a:
        i = I.as_index(x)
        if i is None:
            I.raise_('TypeError', 'object cannot be interpreted as an integer')
        n.append(i)
    try:
        return range(*n)
    except ValueError as e:
        I.raise_('ValueError', str(e))


def _slice(I, a, k):
    need(I, a, k, 'slice', 1, 3)
    return slice(*a)


# --- iteration ----------------------------------------------------------------

def _len(I, a, k):
    need(I, a, k, 'len', 1)
    return I.length(a[0])


def _enumerate(I, a, k):
    start = k.get('start', a[1] if len(a) > 1 else 0)
    return I.new(IterC([(start + i, x) for i, x in enumerate(I.iterate(a[0]))]))


def _zip(I, a, k):
    ls = [I.iterate(x) for x in a]
    if k.get('strict') and len(set(map(len, ls))) > 1:
        I.raise_('ValueError', 'zip() arguments have different lengths')
    return I.new(IterC(list(zip(*ls))))


def _map(I, a, k):
    ls = [I.iterate(x) for x in a[1:]]
    return I.new(IterC([I.call(a[0], list(x), {}) for x in zip(*ls)]))


def _filter(I, a, k):
    out = []
    for x in I.iterate(a[1]):
        r = x if a[0] is None else I.call(a[0], [x], {})
        if I.decide(I.truth(r)):
            out.append(x)
    return I.new(IterC(out))


def _reversed(I, a, k):
    return I.new(IterC(I.iterate(a[0])[::-1]))


def _iter(I, a, k):
    v = a[0]
    if isinstance(v, Ref) and isinstance(I.content(v), IterC):
        return v
    return I.new(IterC(I.iterate(v)))


def _next(I, a, k):
    v = a[0]
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, IterC):
            if c.pos < len(c.items):
                I.put(v, IterC(c.items, c.pos + 1))
                return c.items[c.pos]
            if len(a) > 1:
                return a[1]
            I.raise_('StopIteration')
        if isinstance(c, ObjC):
            m = I.class_attr(c.cls, '__next__')
            if m is not None:
                return I.call(I.bind(m, v, c.cls), [], {})
    I.raise_('TypeError', 'object is not an iterator')


def _any(I, a, k):
    return num.sb(tm.or_(*[I.truth(x) for x in I.iterate(a[0])]))


def _all(I, a, k):
    return num.sb(tm.and_(*[I.truth(x) for x in I.iterate(a[0])]))


def _sum(I, a, k):
    acc = k.get('start', a[1] if len(a) > 1 else 0)
    for x in I.iterate(a[0]):
        acc = I.binop('Add', acc, x)
    return acc


def _minmax(biggest):
    def f(I, a, k):
        items = list(a) if len(a) > 1 else I.iterate(a[0])
        if not items:
            if 'default' in k:
                return k['default']
            I.raise_('ValueError', 'min() or max() arg is an empty sequence')
        items = [I.force(x) for x in items]
        key = k.get('key')
        if key is None and all(is_num(x) for x in items):
            if not any(isinstance(x, Sym) for x in items):
                return max(items) if biggest else min(items)
            out = items[0]
            for v in items[1:]:
                c = I.simp(num.cmp('>' if biggest else '<', v, out))
                out = num.choose(c, v, out)
            return out
        keys = items if key is None else [I.call(key, [x], {}) for x in items]
        best = 0
        for i in range(1, len(items)):
            if I.decide(I.truth(I.compare('Gt' if biggest else 'Lt', keys[i], keys[best]))):
                best = i
        return items[best]
    return f


def _sorted(I, a, k):
    items = I.iterate(a[0])
    return I.new(ListC(sort_items(I, items, k.get('key'), k.get('reverse', False))))


def sort_items(I, items, key=None, reverse=False):
    keys = items if key is None else [I.call(key, [x], {}) for x in items]
    pairs = list(zip(keys, items))
    if all(isinstance(x, (int, float)) for x in keys) or all(isinstance(x, str) for x in keys):
        pairs.sort(key=lambda p: p[0], reverse=bool(reverse))
        return [p[1] for p in pairs]
    if reverse:
        pairs.reverse()
    out = []
    for p in pairs:
        j = len(out)
        while j > 0 and I.decide(I.truth(I.compare('Lt', p[0], out[j - 1][0]))):
            j -= 1
        out.insert(j, p)
    if reverse:
        out.reverse()
    return [p[1] for p in out]


# --- numbers -------------------------------------------------------------------

def _abs(I, a, k):
    need(I, a, k, 'abs', 1)
    v = a[0]
    if isinstance(v, Sym):
        return Sym(tm.abs_(term(v)), 'i' if v.ty == 'b' else v.ty, v.np)
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, OpaqueV):
        return OpaqueV(tm.app('abs', v.t))
    if I.is_arr(v):
        return I.call_ext('numpy.abs', [v], {})
    c = I.user_obj(v)
    if c is not None:
        m = I.class_attr(c.cls, '__abs__')
        if m is not None:
            return I.call(I.bind(m, v, c.cls), [], {})
    I.raise_('TypeError', 'bad operand type for abs()')


def _round(I, a, k):
    v = a[0]
    n = a[1] if len(a) > 1 else k.get('ndigits')
    c = I.user_obj(v)
    if c is not None:
        m = I.class_attr(c.cls, '__round__')
        if m is None:
            I.raise_('TypeError', "type %s doesn't define __round__ method" % c.cls.name)
        return I.call(I.bind(m, v, c.cls), [n] if len(a) > 1 or k else [], {})
    if isinstance(v, OpaqueV):
        return OpaqueV(tm.app('round', v.t, I.key(n)))
    if not is_num(v):
        I.raise_('TypeError', 'type does not define __round__ method')
    if n is None:
        if not isinstance(v, Sym):
            try:
                return round(v)
            except (ValueError, OverflowError) as e:
                I.raise_(type(e).__name__, str(e))
        return Sym(tm.fn('rint', term(v)), 'i')
    if isinstance(n, Sym):
        n2 = num.native(n)
        if n2 is None:
            return Sym(tm.app('round', term(v), term(n)), v.ty if isinstance(v, Sym) else 'f')
        n = n2
    if isinstance(n, float) or not isinstance(n, int):
        I.raise_('TypeError', 'object cannot be interpreted as an integer')
    if not isinstance(v, Sym):
        return round(v, n)
    s = tm.const(10 ** n) if n >= 0 else tm.div(tm.ONE, tm.const(10 ** -n))
    return Sym(tm.div(tm.fn('rint', tm.mul(term(v), s)), s), v.ty, v.np)


def _divmod(I, a, k):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


def _powf(I, a, k):
    if len(a) > 2:
        raise Unsupported('pow mod')
    return I.binop('Pow', a[0], a[1])


def _ord(I, a, k):
    return ord(a[0])


def _chr(I, a, k):
    return chr(a[0])


# --- objects -------------------------------------------------------------------

def _hasattr(I, a, k):
    return num.sb(I.hasattr_(a[0], a[1]))


def _getattr(I, a, k):
    if not isinstance(a[1], str):
        I.raise_('TypeError', 'attribute name must be string')
    if len(a) > 2:
        h = I.hasattr_(a[0], a[1])
        return I.fork(h, lambda: I.getattr_(a[0], a[1]), lambda: a[2])
    return I.getattr_(a[0], a[1])


def _setattr(I, a, k):
    I.setattr_(a[0], a[1], a[2])


def _delattr(I, a, k):
    I.delattr_(a[0], a[1])


def _callable(I, a, k):
    v = a[0]
    if isinstance(v, (FuncV, BoundV, BuiltinV, ClassV, PartialV)):
        return True
    if isinstance(v, ExtV):
        return True
    if isinstance(v, OpaqueV):
        return Sym(tm.bapp('callable', v.t), 'b')
    c = I.user_obj(v)
    return c is not None and I.has_class_attr(c.cls, '__call__')


def _id(I, a, k):
    v = a[0]
    if isinstance(v, Ref):
        return 10 ** 9 + v.oid
    raise Unsupported('id()')


def _hash(I, a, k):
    v = a[0]
    c = I.user_obj(v)
    if c is not None:
        m = I.class_attr(c.cls, '__hash__')
        if m is not None and not isinstance(m, BuiltinV):
            return I.call(I.bind(m, v, c.cls), [], {})
        if I.has_class_attr(c.cls, '__eq__'):
            I.raise_('TypeError', 'unhashable type')
        return Sym(tm.app('hash', tm.const(v.oid)), 'i')
    I.hkey(v, {})
    return Sym(tm.app('hash', I.key(v)), 'i')


def _repr(I, a, k):
    return I.repr_(a[0])


def _print(I, a, k):
    for x in a:
        I.str_(x)
    return None


def _format(I, a, k):
    return I.format_(a[0], a[1] if len(a) > 1 else '')


def _vars(I, a, k):
    if not a:
        raise Unsupported('vars()')
    return I.getattr_(a[0], '__dict__')


def builtin_cls_attr(I, cls, name):
    if name == '__new__':
        return I.object_new
    if name == 'mro':
        return BuiltinV('mro', lambda I, a, k: I.new(ListC(cls.mro)))
    if name == '__bases__':
        return tuple(cls.bases)
    if cls is I.types['dict'] and name == 'fromkeys':
        return BuiltinV(name, lambda I, a, k: I.new(DictC({I.hkey(x): (x, a[1] if len(a) > 1 else None) for x in I.iterate(a[0])})))
    if cls.name in ('list', 'dict', 'set', 'tuple', 'str', 'float', 'int') and cls.builtin:
        # Unbound method: list.append(x, 1)
        return BuiltinV(name, lambda I, a, k: I.call(I.getattr_(a[0], name), a[1:], k))
    if name == '__init__':
        return BuiltinV('__init__', lambda I, a, k: None)
    return None


# --- methods of containers ----------------------------------------------------

def container_attr(I, v, c, name):
    if isinstance(c, ListC):
        table = LIST
    elif isinstance(c, DictC):
        table = DICT
    elif isinstance(c, SetC):
        table = SET
    elif isinstance(c, IterC):
        table = ITER
    else:
        raise Unsupported('attribute %s of %s' % (name, type(c).__name__))
    if name == '__class__':
        return type_of(I, v)
    f = table.get(name)
    if f is None:
        dunder = _dunder(I, v, name, table)
        if dunder is not None:
            return dunder
        I.attr_error(type_of(I, v).name, name)
    b = BuiltinV(name, f)
    b.method = True
    return BoundV(b, v)


def _dunder(I, v, name, table):
    simple = {
        '__len__': lambda I, a, k: I.length(v), '__iter__': lambda I, a, k: _iter(I, [v], {}),
        '__getitem__': lambda I, a, k: I.getitem(v, a[0]), '__setitem__': lambda I, a, k: I.setitem(v, a[0], a[1]),
        '__contains__': lambda I, a, k: num.sb(I.contains(v, a[0])), '__eq__': lambda I, a, k: I.compare('Eq', v, a[0]),
        '__str__': lambda I, a, k: I.str_(v), '__repr__': lambda I, a, k: I.repr_(v),
    }
    if table is ITER and name in ('__len__', '__getitem__', '__setitem__'):
        return None
    if table is SET and name in ('__getitem__', '__setitem__'):
        return None
    if name == '__add__' and table is LIST:
        return BuiltinV(name, lambda I, a, k: I.binop('Add', v, a[0]))
    f = simple.get(name)
    return BuiltinV(name, f) if f else None


def _items(I, v):
    return I.content(v).items


def l_append(I, a, k):
    need(I, a, k, 'append', 2)
    I.put(a[0], ListC(_items(I, a[0]) + (a[1],)))


def l_extend(I, a, k):
    new = tuple(I.iterate(a[1]))
    I.put(a[0], ListC(_items(I, a[0]) + new))


def l_insert(I, a, k):
    it = list(_items(I, a[0]))
    it.insert(I.as_index(a[1]), a[2])
    I.put(a[0], ListC(it))


def l_pop(I, a, k):
    it = list(_items(I, a[0]))
    i = I.as_index(a[1]) if len(a) > 1 else -1
    if not it:
        I.raise_('IndexError', 'pop from empty list')
    if not -len(it) <= i < len(it):
        I.raise_('IndexError', 'pop index out of range')
    r = it.pop(i)
    I.put(a[0], ListC(it))
    return r


def _find(I, items, x):
    for i, y in enumerate(items):
        if I.decide(tm.or_(I.is_same(y, x), I.equal(y, x))):
            return i
    return None


def l_remove(I, a, k):
    it = list(_items(I, a[0]))
    i = _find(I, it, a[1])
    if i is None:
        I.raise_('ValueError', 'list.remove(x): x not in list')
    del it[i]
    I.put(a[0], ListC(it))


def l_index(I, a, k):
    it = a[0] if isinstance(a[0], tuple) else _items(I, a[0])
    i = _find(I, it, a[1])
    if i is None:
        I.raise_('ValueError', 'is not in list')
    return i


def l_count(I, a, k):
    it = a[0] if isinstance(a[0], tuple) else _items(I, a[0])
    acc = 0
    for y in it:
        acc = num.arith('+', acc, num.choose(I.equal(y, a[1]), 1, 0))
    return acc


def l_reverse(I, a, k):
    I.put(a[0], ListC(_items(I, a[0])[::-1]))


def l_sort(I, a, k):
    I.put(a[0], ListC(sort_items(I, list(_items(I, a[0])), k.get('key'), k.get('reverse', False))))


LIST = {
    'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'remove': l_remove, 'index': l_index,
    'count': l_count, 'reverse': l_reverse, 'sort': l_sort,
    'copy': lambda I, a, k: I.new(ListC(_items(I, a[0]))),
    'clear': lambda I, a, k: I.put(a[0], ListC(())),
}


def d_get(I, a, k):
    d = I.content(a[0]).d
    hk = I.hkey(a[1], d)
    if hk in d:
        return d[hk][1]
    if isinstance(a[1], (StrV, OpaqueV)):
        raise Unsupported('dictionary lookup with an unknown key')
    return a[2] if len(a) > 2 else k.get('default')


def d_pop(I, a, k):
    c = I.content(a[0])
    hk = I.hkey(a[1], c.d)
    if hk in c.d:
        d = dict(c.d)
        r = d.pop(hk)[1]
        I.put(a[0], DictC(d, c.default))
        return r
    if len(a) > 2:
        return a[2]
    I.raise_('KeyError', a[1])


def d_setdefault(I, a, k):
    c = I.content(a[0])
    hk = I.hkey(a[1], c.d)
    if hk in c.d:
        return c.d[hk][1]
    x = a[2] if len(a) > 2 else None
    I.setitem(a[0], a[1], x)
    return x


def d_update(I, a, k):
    new = I.content(_dict(I, a[1:], k)).d
    if isinstance(a[0], DictProxyV):
        for kk, vv in new.values():
            I.setraw(a[0].ref, kk, vv)
        return
    c = I.content(a[0])
    d = dict(c.d)
    for kk, vv in new.values():
        I.dput(d, kk, vv)
    I.put(a[0], DictC(d, c.default))


def d_popitem(I, a, k):
    c = I.content(a[0])
    if not c.d:
        I.raise_('KeyError', 'popitem(): dictionary is empty')
    d = dict(c.d)
    hk = list(d)[-1]
    r = d.pop(hk)
    I.put(a[0], DictC(d, c.default))
    return r


DICT = {
    'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault, 'update': d_update, 'popitem': d_popitem,
    'keys': lambda I, a, k: I.new(ListViewC(a[0], 'keys')) if False else keys_view(I, a[0]),
    'values': lambda I, a, k: I.new(ListC([x for _, x in I.content(a[0]).d.values()])),
    'items': lambda I, a, k: I.new(ListC([(q, x) for q, x in I.content(a[0]).d.values()])),
    'copy': lambda I, a, k: I.new(DictC(I.content(a[0]).d, I.content(a[0]).default)),
    'clear': lambda I, a, k: I.put(a[0], DictC({}, I.content(a[0]).default)),
    'has_key': None,
}
DICT.pop('has_key')


def keys_view(I, ref):
    # A snapshot: a view that is read after the dictionary changed is not modelled.
    return I.new(ListC([q for q, _ in I.content(ref).d.values()]))


def s_add(I, a, k):
    c = I.content(a[0])
    d = dict(c.d)
    d.setdefault(I.hkey(a[1], d), a[1])
    I.put(a[0], SetC(d))


def s_remove(I, a, k):
    c = I.content(a[0])
    hk = I.hkey(a[1], c.d)
    if hk not in c.d:
        I.raise_('KeyError', a[1])
    d = dict(c.d)
    del d[hk]
    I.put(a[0], SetC(d))


def s_discard(I, a, k):
    c = I.content(a[0])
    d = dict(c.d)
    d.pop(I.hkey(a[1], d), None)
    I.put(a[0], SetC(d))


def s_pop(I, a, k):
    c = I.content(a[0])
    if not c.d:
        I.raise_('KeyError', 'pop from an empty set')
    order = I.set_order(c)
    x = order[0]
    d = dict(c.d)
    del d[I.hkey(x, d)]
    I.put(a[0], SetC(d))
    return x


def s_update(I, a, k):
    d = dict(I.content(a[0]).d)
    for other in a[1:]:
        for x in I.iterate(other):
            d.setdefault(I.hkey(x, d), x)
    I.put(a[0], SetC(d))


def _setop(op):
    def f(I, a, k):
        acc = a[0]
        for o in a[1:]:
            if not (isinstance(o, Ref) and isinstance(I.content(o), SetC)):
                o = I.new(SetC(I.keyed(I.iterate(o))))
            acc = I.binop(op, acc, o)
        return acc if acc is not a[0] else I.new(SetC(I.content(a[0]).d))
    return f


SET = {
    'add': s_add, 'remove': s_remove, 'discard': s_discard, 'pop': s_pop, 'update': s_update,
    'union': _setop('BitOr'), 'intersection': _setop('BitAnd'), 'difference': _setop('Sub'),
    'symmetric_difference': _setop('BitXor'),
    'copy': lambda I, a, k: I.new(SetC(I.content(a[0]).d)),
    'clear': lambda I, a, k: I.put(a[0], SetC({})),
    'issubset': lambda I, a, k: set(I.content(a[0]).d) <= {I.hkey(x) for x in I.iterate(a[1])},
    'issuperset': lambda I, a, k: set(I.content(a[0]).d) >= {I.hkey(x) for x in I.iterate(a[1])},
    'isdisjoint': lambda I, a, k: not set(I.content(a[0]).d) & {I.hkey(x) for x in I.iterate(a[1])},
}
ITER = {'__next__': _next, '__iter__': lambda I, a, k: a[0]}


# --- attributes of scalars ------------------------------------------------------

def scalar_attr(I, v, name):
    if name == '__class__':
        return type_of(I, v)
    if isinstance(v, str):
        return str_attr(I, v, name)
    if isinstance(v, StrV):
        if hasattr(str, name):
            return BuiltinV(name, lambda I, a, k: StrV(tm.app('str.' + name, v.t, *[I.key(x) for x in a])))
        I.attr_error('str', name)
    if isinstance(v, tuple):
        if name == 'index':
            return BuiltinV(name, lambda I, a, k: l_index(I, [v] + list(a), k))
        if name == 'count':
            return BuiltinV(name, lambda I, a, k: l_count(I, [v] + list(a), k))
        if name == '__add__':
            return BuiltinV(name, lambda I, a, k: I.binop('Add', v, a[0]))
        d = _dunder(I, v, name, SET if name == '__setitem__' else TUPLE)
        if d is not None and name != '__setitem__':
            return d
        I.attr_error('tuple', name)
    if isinstance(v, Sym) and v.np:
        return I.np.scalar_np_attr(I, v, name)
    if is_num(v):
        return num_attr(I, v, name)
    if isinstance(v, slice) and name in ('start', 'stop', 'step'):
        return getattr(v, name)
    if isinstance(v, range) and name in ('start', 'stop', 'step'):
        return getattr(v, name)
    if isinstance(v, I.np.DType):
        return I.np.dtype_attr(I, v, name)
    if v is None:
        if hasattr(None, name):
            raise Unsupported('attribute of None')
        I.attr_error('NoneType', name)
    if isinstance(v, (bytes, range, complex)):
        if hasattr(v, name):
            raise Unsupported('attribute %s' % name)
        I.attr_error(type(v).__name__, name)
    if isinstance(v, PartialV):
        if name == 'func':
            return v.fn
    raise Unsupported('attribute %s of %r' % (name, v))


TUPLE = {}
NUMOPS = {'__add__': ('Add', 0), '__radd__': ('Add', 1), '__sub__': ('Sub', 0), '__rsub__': ('Sub', 1),
          '__mul__': ('Mult', 0), '__rmul__': ('Mult', 1), '__truediv__': ('Div', 0), '__rtruediv__': ('Div', 1),
          '__floordiv__': ('FloorDiv', 0), '__rfloordiv__': ('FloorDiv', 1), '__mod__': ('Mod', 0), '__pow__': ('Pow', 0)}
NUMCMP = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}


def num_attr(I, v, name):
    ty = ty_of(v)
    if name == 'real':
        return v
    if name == 'imag':
        return 0 if ty != 'f' else 0.0
    if name == 'conjugate':
        return BuiltinV(name, lambda I, a, k: v)
    if name == 'is_integer' and ty == 'f':
        return BuiltinV(name, lambda I, a, k: num.sb(num.eq(Sym(tm.fn('trunc', term(v))), v)))
    if name in ('__float__',):
        return BuiltinV(name, lambda I, a, k: _float(I, [v], {}))
    if name in ('__int__', '__trunc__') or name == '__index__' and ty != 'f':
        return BuiltinV(name, lambda I, a, k: _int(I, [v], {}))
    if name == '__round__':
        return BuiltinV(name, lambda I, a, k: _round(I, [v] + list(a), {}))
    if name == '__abs__':
        return BuiltinV(name, lambda I, a, k: _abs(I, [v], {}))
    if name == '__neg__':
        return BuiltinV(name, lambda I, a, k: I.unary('USub', v))
    if name == '__bool__':
        return BuiltinV(name, lambda I, a, k: num.sb(I.truth(v)))
    if name in ('__str__', '__repr__'):
        return BuiltinV(name, lambda I, a, k: I.str_(v))
    if name in NUMOPS:
        op, r = NUMOPS[name]

        def f(I, a, k):
            if not is_num(a[0]):
                return NotImplemented
            return I.binop(op, a[0], v) if r else I.binop(op, v, a[0])
        return BuiltinV(name, f)
    if name in NUMCMP:
        def g(I, a, k):
            if not is_num(a[0]):
                return NotImplemented
            return I.compare(NUMCMP[name], v, a[0])
        return BuiltinV(name, g)
    base = {'f': 0.5, 'i': 1, 'b': True}[ty]
    if hasattr(base, name):
        raise Unsupported('number attribute %s' % name)
    I.attr_error(type(base).__name__, name)


def str_attr(I, v, name):
    if not hasattr(v, name):
        I.attr_error('str', name)
    if name == 'format':
        return BuiltinV(name, lambda I, a, k: str_format(I, v, a, k))
    if name == 'join':
        def join(I, a, k):
            items = [I.force(x) for x in I.iterate(a[0])]
            for x in items:
                if not isinstance(x, (str, StrV, OpaqueV)):
                    I.raise_('TypeError', 'sequence item: expected str instance')
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(v)
                parts.append(x)
            return I.concat(parts) if parts else ''
        return BuiltinV(name, join)
    f = getattr(v, name)

    def call(I, a, k):
        a = [x for x in a]
        if any(isinstance(x, (StrV, OpaqueV, Sym, Ref)) for x in a):
            if any(isinstance(x, Ref) for x in a):
                raise Unsupported('str.%s' % name)
            return StrV(tm.app('str.' + name, I.key(v), *[I.key(x) for x in a]))
        try:
            r = f(*a, **k)
        except (TypeError, ValueError, LookupError) as e:
            n = type(e).__name__
            I.raise_(n if n in I.excs else 'ValueError', str(e))
        if isinstance(r, list):
            return I.new(ListC(r))
        if isinstance(r, (str, bool, int, tuple, bytes)):
            return r
        raise Unsupported('str.%s' % name)
    return BuiltinV(name, call)


def str_format(I, fmt, a, k):
    parts = []
    auto = [0]
    try:
        parsed = list(string.Formatter().parse(fmt))
    except ValueError as e:
        I.raise_('ValueError', str(e))
    for lit, field, spec, conv in parsed:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        first, rest = string._string.formatter_field_name_split(field)
        if first == '':
            first = auto[0]
            auto[0] += 1
        if isinstance(first, int):
            if first >= len(a):
                I.raise_('IndexError', 'Replacement index %d out of range for positional args tuple' % first)
            x = a[first]
        else:
            if first not in k:
                I.raise_('KeyError', first)
            x = k[first]
        for isattr, n in rest:
            x = I.getattr_(x, n) if isattr else I.getitem(x, n)
        if spec and '{' in spec:
            spec = str_format(I, spec, a[auto[0]:], k)
        if conv == 'r':
            x = I.repr_(x)
        elif conv == 's':
            x = I.str_(x)
        parts.append(I.format_(x, spec))
    return I.concat(parts) if parts else ''


def proxy_attr(I, v, name):
    def pr(f):
        return BuiltinV(name, f)
    ref = v.ref

    def attrs():
        return {q: x for q, x in I.content(ref).attrs.items() if not q.startswith('$')}
    if name == 'update':
        return pr(lambda I, a, k: d_update(I, [v] + list(a), k))
    if name == 'get':
        return pr(lambda I, a, k: attrs().get(a[0], a[1] if len(a) > 1 else None))
    if name == 'keys':
        return pr(lambda I, a, k: I.new(ListC(list(attrs()))))
    if name == 'values':
        return pr(lambda I, a, k: I.new(ListC(list(attrs().values()))))
    if name == 'items':
        return pr(lambda I, a, k: I.new(ListC(list(attrs().items()))))
    if name == 'copy':
        return pr(lambda I, a, k: I.new(DictC({q: (q, x) for q, x in attrs().items()})))
    if name == 'setdefault':
        def sd(I, a, k):
            if a[0] not in attrs():
                I.setraw(ref, a[0], a[1] if len(a) > 1 else None)
            return attrs()[a[0]]
        return pr(sd)
    if name == 'pop':
        def pop(I, a, k):
            at = dict(I.content(ref).attrs)
            if a[0] in at:
                r = at.pop(a[0])
                I.put(ref, ObjC(I.content(ref).cls, at))
                return r
            if len(a) > 1:
                return a[1]
            I.raise_('KeyError', a[0])
        return pr(pop)
    raise Unsupported('__dict__.%s' % name)


# --- standard library -----------------------------------------------------------

def ext_table(I):
    t = {}

    def ext(path):
        def deco(f):
            t[path] = f
            return f
        return deco

    for n in ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'fabs', 'degrees',
              'radians', 'trunc', 'atan2', 'hypot', 'pow', 'isnan', 'isinf', 'isclose', 'copysign', 'fsum', 'fmod', 'isfinite'):
        t['math.' + n] = _mathfn(n)
    t['math.pi'] = Const(math.pi)
    t['math.e'] = Const(math.e)
    t['math.inf'] = Const(math.inf)
    t['math.nan'] = Const(math.nan)
    t['math.tau'] = Const(math.tau)

    t['six.moves.reduce'] = t['functools.reduce'] = _reduce
    t['six.iterkeys'] = lambda I, a, k: _iter(I, [I.call(I.getattr_(a[0], 'keys'), [], {})], {})
    t['six.itervalues'] = lambda I, a, k: _iter(I, [I.call(I.getattr_(a[0], 'values'), [], {})], {})
    t['six.iteritems'] = lambda I, a, k: _iter(I, [I.call(I.getattr_(a[0], 'items'), [], {})], {})
    t['six.string_types'] = Const((I.types['str'],))
    t['six.integer_types'] = Const((I.types['int'],))
    t['six.text_type'] = I.types['str']
    t['six.PY2'] = Const(False)
    t['six.PY3'] = Const(True)
    for n in ('range', 'zip', 'map', 'filter'):
        t['six.moves.' + n] = I.types[n]
        t['builtins.' + n] = I.types[n]
    t['six.moves.xrange'] = I.types['range']
    t['functools.partial'] = lambda I, a, k: PartialV(a[0], a[1:], k)
    t['functools.wraps'] = lambda I, a, k: BuiltinV('wraps', lambda I2, a2, k2: a2[0])
    t['functools.cached_property'] = lambda I, a, k: PropertyV(a[0], None, None, True)
    t['cached_property.cached_property'] = lambda I, a, k: PropertyV(a[0], None, None, True)
    t['copy.copy'] = _copy
    t['copy.deepcopy'] = _deepcopy
    t['inspect.isfunction'] = lambda I, a, k: isinstance(a[0], FuncV)
    t['inspect.getfullargspec'] = _argspec
    t['warnings.warn'] = lambda I, a, k: None
    t['warnings.catch_warnings'] = lambda I, a, k: BuiltinV('ctx', lambda I2, a2, k2: None)
    t['warnings.simplefilter'] = _simplefilter
    t['warnings.filterwarnings'] = _simplefilter
    t['itertools.chain'] = lambda I, a, k: I.new(IterC([y for x in a for y in I.iterate(x)]))
    t['itertools.chain.from_iterable'] = lambda I, a, k: I.new(IterC([y for x in I.iterate(a[0]) for y in I.iterate(x)]))
    t['itertools.product'] = _itertool('product')
    t['itertools.combinations'] = _itertool('combinations')
    t['itertools.permutations'] = _itertool('permutations')
    t['itertools.repeat'] = lambda I, a, k: I.new(IterC([a[0]] * I.as_index(a[1])))
    t['itertools.islice'] = lambda I, a, k: I.new(IterC(I.iterate(a[0])[slice(*[I.as_index(x) if x is not None else None for x in a[1:]])]))
    t['itertools.zip_longest'] = _itertool('zip_longest')
    t['itertools.starmap'] = lambda I, a, k: I.new(IterC([I.call(a[0], I.iterate(x), {}) for x in I.iterate(a[1])]))
    t['itertools.accumulate'] = _accumulate
    t['collections.defaultdict'] = lambda I, a, k: I.new(DictC(I.content(_dict(I, a[1:], k)).d, a[0] if a else None))
    t['collections.OrderedDict'] = _dict
    t['collections.deque'] = lambda I, a, k: I.new(ListC(I.iterate(a[0]) if a else ()))
    t['collections.Counter'] = _unsup('collections.Counter')
    t['collections.namedtuple'] = _unsup('collections.namedtuple')
    for n, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('pow', 'Pow'),
                  ('matmul', 'MatMult'), ('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor')):
        t['operator.' + n] = _opf(op)
    for n, op in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq'), ('is_', 'Is'), ('is_not', 'IsNot')):
        t['operator.' + n] = _cmpf(op)
    t['operator.contains'] = lambda I, a, k: I.compare('In', a[1], a[0])
    t['operator.methodcaller'] = lambda I, a, k: BuiltinV('methodcaller', lambda I2, a2, k2: I2.call(I2.getattr_(a2[0], a[0]), a[1:], k))
    t['operator.abs'] = _abs
    t['operator.neg'] = lambda I, a, k: I.unary('USub', a[0])
    t['operator.not_'] = lambda I, a, k: num.sb(tm.not_(I.truth(a[0])))
    t['operator.getitem'] = lambda I, a, k: I.getitem(a[0], a[1])
    t['operator.itemgetter'] = lambda I, a, k: BuiltinV('itemgetter', lambda I2, a2, k2: I2.getitem(a2[0], a[0]) if len(a) == 1 else tuple(I2.getitem(a2[0], x) for x in a))
    t['operator.attrgetter'] = lambda I, a, k: BuiltinV('attrgetter', lambda I2, a2, k2: I2.getattr_(a2[0], a[0]))
    t['contextlib.contextmanager'] = _unsup('contextlib.contextmanager')
    return t


def _unsup(name):
    def f(I, a, k):
        raise Unsupported(name)
    return f


def _simplefilter(I, a, k):
    I.events.append(('warnings', 'filters', '', I.where()))


def _opf(op):
    return lambda I, a, k: I.binop(op, a[0], a[1])


def _cmpf(op):
    return lambda I, a, k: I.compare(op, a[0], a[1])


def _itertool(n):
    import itertools

    def f(I, a, k):
        if n == 'product':
            r = itertools.product(*[I.iterate(x) for x in a], repeat=k.get('repeat', 1))
        elif n == 'zip_longest':
            r = itertools.zip_longest(*[I.iterate(x) for x in a], fillvalue=k.get('fillvalue'))
        elif n == 'combinations':
            r = itertools.combinations(I.iterate(a[0]), I.as_index(a[1] if len(a) > 1 else k['r']))
        else:
            r = itertools.permutations(I.iterate(a[0]), I.as_index(a[1]) if len(a) > 1 else None)
        return I.new(IterC(list(r)))
    return f


def _accumulate(I, a, k):
    out = []
    f = a[1] if len(a) > 1 else None
    for x in I.iterate(a[0]):
        out.append(x if not out else (I.call(f, [out[-1], x], {}) if f else I.binop('Add', out[-1], x)))
    return I.new(IterC(out))


def _reduce(I, a, k):
    items = I.iterate(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            I.raise_('TypeError', 'reduce() of empty iterable with no initial value')
        acc, items = items[0], items[1:]
    for x in items:
        acc = I.call(a[0], [acc, x], {})
    return acc


def _copy(I, a, k):
    v = a[0]
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ListC):
            return I.new(ListC(c.items))
        if isinstance(c, DictC):
            return I.new(DictC(c.d, c.default))
        if isinstance(c, SetC):
            return I.new(SetC(c.d, c.frozen))
        if isinstance(c, ObjC):
            m = I.class_attr(c.cls, '__copy__')
            if m is not None:
                return I.call(I.bind(m, v, c.cls), [], {})
            # copy.copy() looks for __reduce_ex__ on the class, and __setstate__ on the new instance.
            if I.class_attr(c.cls, '__setstate__') is not None or I.class_attr(c.cls, '__getstate__') is not None:
                raise Unsupported('copy protocol')
            return I.new(ObjC(c.cls, dict(c.attrs)))
        if isinstance(c, ArrC):
            return I.call(I.np.array_attr(I, v, 'copy'), [], {})
        raise Unsupported('copy')
    if isinstance(v, OpaqueV):
        return OpaqueV(tm.app('copy', v.t))
    return v


def _deepcopy(I, a, k, memo=None):
    memo = {} if memo is None else memo

    def go(v):
        v = I.force(v)
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if not isinstance(v, Ref):
            return v
        if v.oid in memo:
            return memo[v.oid]
        c = I.content(v)
        if isinstance(c, ArrC):
            r = I.call(I.np.array_attr(I, v, 'copy'), [], {})
            memo[v.oid] = r
            return r
        r = I.new(c)
        memo[v.oid] = r
        if isinstance(c, ListC):
            I.put(r, ListC([go(x) for x in c.items]))
        elif isinstance(c, DictC):
            I.put(r, DictC({q: (go(y), go(x)) for q, (y, x) in c.d.items()}, c.default))
        elif isinstance(c, SetC):
            I.put(r, SetC(c.d, c.frozen))
        elif isinstance(c, ObjC):
            m = I.class_attr(c.cls, '__deepcopy__')
            if m is not None:
                raise Unsupported('__deepcopy__')
            I.put(r, ObjC(c.cls, {q: go(x) for q, x in c.attrs.items()}))
        else:
            raise Unsupported('deepcopy')
        return r
    return go(a[0])


def _mathfn(n):
    def f(I, a, k):
        if n in ('isclose',):
            rel = k.get('rel_tol', 1e-9)
            ab = k.get('abs_tol', 0.0)
            d = tm.abs_(tm.sub(_fterm(I, a[0]), _fterm(I, a[1])))
            m = num.minmax([Sym(tm.abs_(_fterm(I, a[0]))), Sym(tm.abs_(_fterm(I, a[1])))], True)
            lim = num.minmax([Sym(tm.mul(term(rel), term(m))), Sym(term(ab))], True)
            return num.sb(tm.not_(tm.gt0(tm.sub(d, term(lim)))))
        if n == 'fsum':
            return _sum(I, [a[0], 0.0], {})
        ts = [_fterm(I, x) for x in a]
        if any(t is None for t in ts):
            return OpaqueV(tm.app('math.' + n, *[I.key(x) for x in a]))
        return mathop(I, n, ts)
    return f


def _fterm(I, v):
    r = _float(I, [v], {})
    if isinstance(r, OpaqueV):
        return None
    return term(r)


def mathop(I, n, ts):
    '''math.<n>, with Python's domain errors.'''
    t = ts[0]
    if n == 'sqrt':
        if tm.sign(t) == '-':
            I.raise_('ValueError', 'math domain error')
        return Sym(tm.sqrt(t), 'f')
    if n in ('acos', 'asin'):
        if t.op == 'c' and abs(t.args[0]) > 1:
            I.raise_('ValueError', 'math domain error')
        return Sym(tm.fn(n, t), 'f')
    if n == 'log':
        if len(ts) > 1:
            return Sym(tm.div(tm.fn('log', t), tm.fn('log', ts[1])), 'f')
        if tm.sign(t) in ('-', '0'):
            I.raise_('ValueError', 'math domain error')
        return Sym(tm.fn('log', t), 'f')
    if n == 'fabs':
        return Sym(tm.abs_(t), 'f')
    if n == 'degrees':
        return Sym(tm.mul(t, tm.const(180 / math.pi)), 'f')
    if n == 'radians':
        return Sym(tm.mul(t, tm.const(math.pi / 180)), 'f')
    if n in ('floor', 'ceil', 'trunc'):
        r = Sym(tm.fn(n, t), 'i')
        x = num.native(r)
        return r if x is None else int(x)
    if n == 'pow':
        return num.arith('**', Sym(ts[0]), Sym(ts[1]))
    if n == 'hypot':
        return Sym(tm.sqrt(tm.add(*[tm.mul(x, x) for x in ts])), 'f')
    if n == 'isnan':
        return num.sb(isnan_term(t))
    if n == 'isinf':
        return num.sb(isinf_term(t))
    if n == 'isfinite':
        return num.sb(tm.and_(tm.not_(isnan_term(t)), tm.not_(isinf_term(t))))
    if n == 'copysign':
        return Sym(tm.ite(tm.gt0(tm.neg(ts[1])), tm.neg(tm.abs_(t)), tm.abs_(t)), 'f')
    if n == 'fmod':
        return Sym(tm.sub(t, tm.mul(ts[1], tm.fn('trunc', tm.div(t, ts[1])))), 'f')
    return Sym(tm.fn(n, *ts), 'f')


def _argspec(I, a, k):
    f = a[0]
    if not isinstance(f, FuncV):
        raise Unsupported('the arguments of %s' % f)
    g = f.node.args
    return (I.new(ListC([x.arg for x in g.posonlyargs + g.args])),)


def isnan_term(t):
    if t.op == 'nan':
        return tm.TRUE
    if t.op == 'ite':
        return tm.ite(t.args[0], isnan_term(t.args[1]), isnan_term(t.args[2]))
    return tm.FALSE


def isinf_term(t):
    if t.op == 'inf':
        return tm.TRUE
    if t.op == 'ite':
        return tm.ite(t.args[0], isinf_term(t.args[1]), isinf_term(t.args[2]))
    return tm.FALSE
