'''Abstract values and heap contents of the abstract interpreter.'''
from . import terms as tm


class Dead(Exception):
    '''The current abstract path ends here (raise, return, break, continue).'''


class Unsupported(Exception):
    '''The analysis does not model this construct: the obligation stays undecided.'''


class Val(object):
    __slots__ = ()


class Sym(Val):
    '''A number or truth value known as a term. np: a numpy scalar or array element.'''
    __slots__ = ('t', 'ty', 'np')

    def __init__(self, t, ty='f', np=False):
        self.t = t
        self.ty = ty
        self.np = np

    def __repr__(self):
        return 'Sym(%s:%s)' % (self.t, self.ty)

    # Operators for numpy object arrays.
    def _bin(self, other, op, r=False):
        from .num import arith
        if not isinstance(other, (Sym, int, float, bool)):
            return NotImplemented
        return arith(op, other, self) if r else arith(op, self, other)

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __floordiv__(self, o): return self._bin(o, '//')
    def __rfloordiv__(self, o): return self._bin(o, '//', True)
    def __mod__(self, o): return self._bin(o, '%')
    def __rmod__(self, o): return self._bin(o, '%', True)
    def __pow__(self, o): return self._bin(o, '**')
    def __rpow__(self, o): return self._bin(o, '**', True)

    def __neg__(self):
        from .num import arith
        return arith('-', 0, self)

    def __bool__(self):
        raise Unsupported('truth value of a term inside the numpy model')

    __hash__ = object.__hash__


class Ref(Val):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref(%d)' % self.oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))


class ChoiceV(Val):
    '''A gated join: a when cond, else b.'''
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __repr__(self):
        return 'Choice(%s, %r, %r)' % (self.cond, self.a, self.b)


class Undef(Val):
    def __repr__(self):
        return '<undefined>'


UNDEF = Undef()


class StrV(Val):
    '''A string with an unknown content.'''
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'StrV(%s)' % self.t


class OpaqueV(Val):
    '''The result of something that is not modelled.'''
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Opaque(%s)' % self.t


class FuncV(Val):
    def __init__(self, node, frame, module, defaults, kwdefaults, name, qualname):
        self.node = node
        self.frame = frame          # oid of the enclosing frame, or None
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.qualname = qualname
        self.defcls = None
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qualname


class BoundV(Val):
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return '<bound %r>' % (self.fn,)


class ClassV(Val):
    def __init__(self, name, bases, ns, module=None, builtin=False):
        self.name = name
        self.bases = bases
        self.ns = ns                # Ref to a DictC
        self.module = module
        self.builtin = builtin
        self.mro = self._mro()

    def _mro(self):
        # C3
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in x[1:] for x in seqs):
                        break
                else:
                    raise Unsupported('mro')
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        return [self] + merge([b.mro for b in self.bases] + [list(self.bases)])

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


class ModuleV(Val):
    def __init__(self, name, frame, path=None, package=False):
        self.name = name
        self.frame = frame          # oid of the FrameC
        self.path = path
        self.package = package

    def __repr__(self):
        return '<module %s>' % self.name


class BuiltinV(Val):
    '''fn(interp, args, kwargs)'''
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class ExtV(Val):
    '''A name from outside the package (numpy.vstack, scipy.linalg, ...).'''
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<ext %s>' % self.path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))


class PropertyV(Val):
    def __init__(self, fget=None, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached


class StaticV(Val):
    def __init__(self, fn):
        self.fn = fn


class ClassMethodV(Val):
    def __init__(self, fn):
        self.fn = fn


class PartialV(Val):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class SuperV(Val):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class DictProxyV(Val):
    '''obj.__dict__'''
    def __init__(self, ref):
        self.ref = ref


class FlagsV(Val):
    def __init__(self, ref):
        self.ref = ref


class FlatV(Val):
    def __init__(self, ref):
        self.ref = ref


# --- heap contents (never changed in place; replaced in State.heap) ----------

class ListC(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class DictC(object):
    __slots__ = ('d', 'default')

    def __init__(self, d, default=None):
        self.d = d                  # key -> (key value, value)
        self.default = default


class SetC(object):
    __slots__ = ('d', 'frozen')

    def __init__(self, d, frozen=False):
        self.d = d
        self.frozen = frozen


class ObjC(object):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class FrameC(object):
    __slots__ = ('vars', 'parent', 'kind')

    def __init__(self, vars_, parent=None, kind='function'):
        self.vars = vars_
        self.parent = parent
        self.kind = kind


class ArrC(object):
    '''An ndarray object: a window (idx) on a buffer.'''
    __slots__ = ('buf', 'idx', 'dtype', 'ro', 'matrix')

    def __init__(self, buf, idx, dtype, ro=False, matrix=False):
        self.buf = buf
        self.idx = idx
        self.dtype = dtype
        self.ro = ro
        self.matrix = matrix

    @property
    def shape(self):
        return self.idx.shape


class BufC(object):
    __slots__ = ('data',)

    def __init__(self, data):
        self.data = data


class IterC(object):
    __slots__ = ('items', 'pos')

    def __init__(self, items, pos=0):
        self.items = tuple(items)
        self.pos = pos


class MergedC(object):
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class State(object):
    __slots__ = ('heap', 'pc')

    def __init__(self, heap=None, pc=()):
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.heap), self.pc)


def is_num(v):
    return isinstance(v, (int, float, bool, Sym))


class NoNumber(TypeError):
    '''None where a number is needed.'''


def term(v):
    '''The term of a number (bool counts as 0/1).'''
    if isinstance(v, Sym):
        if v.ty == 'b':
            return tm.ite(v.t, tm.ONE, tm.ZERO)
        return v.t
    if v is None:
        raise NoNumber("unsupported operand type(s): 'NoneType'")
    return tm.const(v)


def bterm(v):
    '''The truth value of a scalar as a boolean term.'''
    if isinstance(v, Sym):
        if v.ty == 'b':
            return v.t
        return tm.not_(tm.eq0(v.t))
    return tm.TRUE if v else tm.FALSE


def ty_of(v):
    if isinstance(v, Sym):
        return v.ty
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    return 'f'
