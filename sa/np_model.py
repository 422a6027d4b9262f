'''
Model of the numpy names the package uses (and of those a change is likely to
use), on arrays of value numbers with exact window (view / copy) tracking.

An array is a window of integer positions on a buffer. The window is itself a
real strided integer array, so that numpy decides, on positions only, whether a
structural operation makes a view or a copy.
'''
import inspect
from fractions import Fraction
import types as _types

import numpy as np

from . import terms as tm
from . import num
from .values import *          # noqa: F401,F403
from .values import Val, term, bterm
from .builtins_model import Const, mkclass, mathop, isnan_term, isinf_term, method, _float, _int, sort_items
from . import builtins_model as bm

F8 = np.dtype('f8')
I8 = np.dtype('i8')
B1 = np.dtype('?')
OB = np.dtype('O')
REQ = object()


FEWER = set()


def fewer_digits(t, dtype):
    '''What is left of a number in a type of fewer digits: not all of it (and no less when done again).'''
    if t in FEWER or tm.special(t):
        return t
    if tm.is_const(t) and float(dtype.type(float(t.args[0]))) == float(t.args[0]):
        return t
    t = tm.scale(1 + Fraction(1, 2 ** 17), t)
    FEWER.add(t)
    return t


class OpaqueArg(Exception):
    pass


def kind_ty(dt):
    k = dt.kind
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k)


def guard(I, f, *a, **k):
    '''Run a structural numpy function on object arrays; its value errors are the program's.'''
    try:
        return f(*a, **k)
    except np.exceptions.AxisError as e:
        I.raise_('ValueError', str(e))
    except ValueError as e:
        I.raise_('ValueError', str(e))
    except IndexError as e:
        I.raise_('IndexError', str(e))
    except np.linalg.LinAlgError as e:
        I.raise_('LinAlgError', str(e))
    except (TypeError, AttributeError) as e:
        raise Unsupported('numpy model: %s' % e)


def ob(shape):
    return np.empty(shape, dtype=object)


def obarr(nested_flat, shape):
    o = ob(len(nested_flat))
    for i, x in enumerate(nested_flat):
        o[i] = x
    return o.reshape(shape)


class NP(object):
    DType = np.dtype

    # --- making and reading arrays -----------------------------------------
    def new(self, I, o, dtype, matrix=False):
        o = np.asarray(o, dtype=object)
        flat = ob(o.size)
        ty = kind_ty(dtype)
        src = o.ravel()
        for i in range(o.size):
            x = src[i]
            flat[i] = self.cast(I, x, dtype) if ty else x
        buf = I.new(BufC(flat))
        idx = np.arange(o.size).reshape(o.shape)
        return I.new(ArrC(buf, idx, dtype, False, matrix))

    def view(self, I, ref, idx, **kw):
        c = I.content(ref)
        return I.new(ArrC(c.buf, idx, kw.get('dtype', c.dtype), kw.get('ro', c.ro), kw.get('matrix', c.matrix)))

    def get(self, I, ref):
        c = I.content(ref)
        data = I.content(c.buf).data
        o = ob(c.idx.shape)
        if c.idx.size:
            o[...] = data[c.idx] if c.idx.shape else obarr([data[int(c.idx)]], ())
        return o, c.dtype

    def cast(self, I, x, dtype, strict=False):
        '''An element of an array of the given type.'''
        ty = kind_ty(dtype)
        if ty is None:
            if dtype.kind == 'c' and is_num(x):
                return Sym(term(x), 'f', True)
            return x
        if isinstance(x, ChoiceV):
            x = I.force(x)
        if isinstance(x, OpaqueV):
            if ty == 'b':
                return Sym(tm.bapp('bool', x.t), 'b', True)
            return Sym(tm.app('float' if ty == 'f' else 'int', x.t), ty, True)
        if not is_num(x):
            if isinstance(x, Ref) and not I.is_arr(x) or isinstance(x, (str, StrV)):
                x = (_float if ty == 'f' else _int)(I, [x], {})
            elif I.is_arr(x):
                c = I.content(x)
                if c.idx.size != 1:
                    I.raise_('ValueError', 'setting an array element with a sequence.')
                x = self.item(I, x)
            elif x is None:
                if ty == 'f':
                    x = float('nan')
                elif ty == 'b':
                    x = False
                else:
                    I.raise_('TypeError', "int() argument must be a string or a number, not 'NoneType'")
            else:
                I.raise_('TypeError', 'float() argument must be a string or a real number')
        xt = ty_of(x)
        if ty == 'f':
            return Sym(fewer_digits(term(x), dtype) if dtype.itemsize < 8 and xt == 'f' else term(x), 'f', True)
        if ty == 'b':
            return Sym(bterm(x), 'b', True)
        t = term(x)
        if xt == 'f':
            if t.op in ('nan', 'inf'):
                if strict:
                    I.raise_('ValueError', 'cannot convert float NaN to integer')
                return Sym(tm.app('intnan'), 'i', True)
            t = tm.fn('trunc', t)
        if dtype.itemsize < 8:
            n = tm.number(t)
            if n is not None and n == int(n):
                least, most = np.iinfo(dtype).min, np.iinfo(dtype).max
                if not least <= n <= most:
                    if strict:
                        I.raise_('OverflowError', 'Python integer %d out of bounds for %s' % (n, dtype.name))
                    return Sym(tm.const((int(n) - int(least)) % (int(most) - int(least) + 1) + int(least)), 'i', True)
        return Sym(t, 'i', True)

    def out(self, I, o, dtype, matrix=False):
        '''An array, or a scalar for a 0-d result.'''
        if not isinstance(o, np.ndarray) or o.shape == ():
            x = o[()] if isinstance(o, np.ndarray) else o
            return self.cast(I, x, dtype)
        return self.new(I, o, dtype, matrix)

    def collect(self, I, v):
        '''(shape, flat elements) of an array-like.'''
        v = I.force(v)
        if isinstance(v, OpaqueV):
            raise OpaqueArg()
        if is_num(v) or v is None or isinstance(v, (str, StrV, bytes)):
            return (), [v]
        if isinstance(v, Ref):
            c = I.content(v)
            if isinstance(c, ArrC):
                o, _ = self.get(I, v)
                return o.shape, list(o.ravel())
            if isinstance(c, ListC):
                return self.stacked(I, c.items)
            if isinstance(c, ObjC):
                m = I.class_attr(c.cls, '__array__')
                if m is not None:
                    return self.collect(I, I.call(I.bind(m, v, c.cls), [], {}))
                if I.has_class_attr(c.cls, '__len__') and I.has_class_attr(c.cls, '__getitem__'):
                    return self.stacked(I, I.iterate(v))
            return (), [v]
        if isinstance(v, (tuple, range)):
            return self.stacked(I, list(v))
        return (), [v]

    def stacked(self, I, items):
        if not items:
            return (0,), []
        parts = [self.collect(I, x) for x in items]
        shape = parts[0][0]
        if any(p[0] != shape for p in parts):
            I.raise_('ValueError', 'setting an array element with a sequence. The requested array has an inhomogeneous shape')
        flat = []
        for p in parts:
            flat += p[1]
        return (len(items),) + shape, flat

    def natural_dtype(self, I, v, flat):
        v = I.force(v)
        if I.is_arr(v):
            return I.content(v).dtype
        dts = []

        def walk(x):
            x = I.force(x)
            if I.is_arr(x):
                dts.append(I.content(x).dtype)
            elif isinstance(x, (tuple, range)):
                for y in x:
                    walk(y)
            elif isinstance(x, Ref) and isinstance(I.content(x), ListC):
                for y in I.content(x).items:
                    walk(y)
            elif isinstance(x, Ref):
                dts.append(OB)
            elif isinstance(x, (str, StrV)):
                dts.append(np.dtype('U'))
            elif is_num(x):
                dts.append({'f': F8, 'i': I8, 'b': B1}[ty_of(x)])
            else:
                dts.append(OB)
        walk(v)
        if not dts:
            return F8
        if any(d == OB for d in dts):
            return OB
        kinds = set(d.kind for d in dts)
        if 'U' in kinds and len(kinds) > 1:
            return np.dtype('U')
        return np.result_type(*set(dts)) if len(dts) > 1 else dts[0]

    def obj(self, I, v, dtype=None):
        '''(object ndarray, dtype) of an array-like.'''
        v = I.force(v)
        if I.is_arr(v):
            o, dt = self.get(I, v)
            if dtype is None or dtype == dt:
                return o, dt
            flat = [self.cast(I, x, dtype) for x in o.ravel()]
            return obarr(flat, o.shape), dtype
        shape, flat = self.collect(I, v)
        dt = self.natural_dtype(I, v, flat) if dtype is None else dtype
        if dtype is not None and dtype.kind in 'ifub' and not (is_num(v)):
            flat = [self.cast(I, x, dt, strict=True) for x in flat]
        elif kind_ty(dt):
            flat = [self.cast(I, x, dt) for x in flat]
        return obarr(flat, shape), dt

    def item(self, I, ref):
        o, _ = self.get(I, ref)
        return o.ravel()[0]

    def dtype_of(self, I, v):
        '''The np.dtype a dtype argument stands for.'''
        v = I.force(v)
        if v is None:
            return None
        if isinstance(v, np.dtype):
            return v
        if isinstance(v, ExtV):
            v = I.ext_value(v.path)
        if isinstance(v, ClassV):
            d = I.np_dtypes.get(v)
            if d is not None:
                return d
            return OB
        if isinstance(v, str):
            try:
                return np.dtype(v)
            except TypeError as e:
                I.raise_('TypeError', str(e))
        if isinstance(v, (OpaqueV, StrV)):
            raise OpaqueArg()
        if isinstance(v, ExtV):
            if I.external_exists(v.path) is False:
                I.raise_('AttributeError', 'no such name: %s' % v.path)
            raise Unsupported('dtype %s' % v.path)
        I.raise_('TypeError', 'Cannot interpret %r as a data type' % (v,))

    def dtype_eq(self, I, a, b):
        try:
            return self.dtype_of(I, a) == self.dtype_of(I, b)
        except Dead:
            raise Unsupported('dtype comparison')

    def dtype_attr(self, I, d, name):
        if name in ('kind', 'name', 'char', 'itemsize', 'str', 'num'):
            return getattr(d, name)
        if name == 'type':
            for c, x in I.np_dtypes.items():
                if x == d and c.name.startswith('numpy.'):
                    return c
        raise Unsupported('dtype.%s' % name)

    # --- elementwise -----------------------------------------------------------
    def emap(self, I, f, *os):
        '''Broadcast f over object arrays; a bare value for 0-d.'''
        try:
            b = np.broadcast(*os) if len(os) > 1 else None
        except ValueError as e:
            I.raise_('ValueError', 'operands could not be broadcast together: %s' % e)
        shape = b.shape if b is not None else os[0].shape
        os = [np.broadcast_to(o, shape) for o in os]
        out = ob(shape)
        of = out.reshape(-1)
        flats = [o.reshape(-1) for o in os]
        for i in range(out.size):
            of[i] = f(*[fl[i] for fl in flats])
        return of.reshape(shape)

    def operand(self, I, v):
        '''(object array, dtype, weak python scalar or None)'''
        v = I.force(v)
        if is_num(v) and not num.isnp(v):
            o = obarr([v], ())
            return o, {'f': F8, 'i': I8, 'b': B1}[ty_of(v)], {'f': 1.0, 'i': 1, 'b': True}[ty_of(v)]
        if is_num(v):
            return obarr([v], ()), {'f': F8, 'i': I8, 'b': B1}[ty_of(v)], None
        o, d = self.obj(I, v)
        return o, d, None

    def result(self, ops):
        w = [x[2] if x[2] is not None else x[1] for x in ops]
        if all(x[2] is not None for x in ops):
            w = [x[1] for x in ops]
        try:
            return np.result_type(*w)
        except TypeError:
            return OB

    def arith(self, I, op, a, b):
        x, y = self.operand(I, a), self.operand(I, b)
        dt = self.result([x, y])
        bad = x[1].kind in 'OU' or y[1].kind in 'OU'
        if bad:
            if x[1].kind == 'U' or y[1].kind == 'U':
                I.raise_('TypeError', 'ufunc did not contain a loop with signature matching types')
            return self.emap(I, lambda p, q: I.binop({v: k for k, v in I.NUMOP.items()}[op], p, q), x[0], y[0]), OB
        if dt.kind == 'b':
            if op == '+':
                return self.emap(I, lambda p, q: Sym(tm.or_(bterm(p), bterm(q)), 'b', True), x[0], y[0]), dt
            if op == '*':
                return self.emap(I, lambda p, q: Sym(tm.and_(bterm(p), bterm(q)), 'b', True), x[0], y[0]), dt
            if op == '-':
                I.raise_('TypeError', 'numpy boolean subtract, the `-` operator, is not supported')
            dt = np.dtype('i1')
        if op == '/':
            dt = F8 if dt.kind != 'f' else dt
        if op == '**' and dt.kind in 'iu':
            for q in y[0].ravel():
                n = num.native(q)
                if n is not None and n < 0:
                    I.raise_('ValueError', 'Integers to negative integer powers are not allowed.')

        def f(p, q):
            p = p if num.isnp(p) else Sym(term(p), ty_of(p) if ty_of(p) != 'b' else 'i', True)
            q = q if num.isnp(q) else Sym(term(q), ty_of(q) if ty_of(q) != 'b' else 'i', True)
            r = num.arith(op, p, q)
            return r
        return self.emap(I, f, x[0], y[0]), dt

    OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**'}

    def ismat(self, I, *vs):
        return any(isinstance(v, Ref) and isinstance(I.content(v), ArrC) and I.content(v).matrix for v in vs)

    def binop(self, I, op, a, b):
        try:
            return self._binop(I, op, a, b)
        except OpaqueArg:
            return OpaqueV(tm.app('np' + op, I.key(a), I.key(b)))

    def _binop(self, I, op, a, b):
        if a is None or b is None or isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            I.raise_('TypeError', 'unsupported operand type(s) for %s' % op)
        for v in (a, b):
            if isinstance(v, Ref) and isinstance(I.content(v), (DictC, SetC)) or isinstance(v, (ClassV, FuncV, BoundV)):
                I.raise_('TypeError', 'unsupported operand type(s) for %s' % op)
        mat = self.ismat(I, a, b)
        if op == 'MatMult' or op == 'Mult' and mat and not is_num(a) and not is_num(b):
            return self.matmul(I, a, b, mat)
        if op == 'Pow' and mat:
            raise Unsupported('matrix power')
        sy = self.OPS.get(op)
        if sy is not None:
            o, dt = self.arith(I, sy, a, b)
            return self.out(I, o, dt, mat)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(I, op, a, b)
        raise Unsupported('array operator %s' % op)

    def bitop(self, I, op, a, b):
        x, y = self.operand(I, a), self.operand(I, b)
        dt = self.result([x, y])
        if dt.kind == 'f':
            I.raise_('TypeError', "ufunc 'bitwise' not supported for the input types")

        def f(p, q):
            if dt.kind == 'b':
                s, t = bterm(p), bterm(q)
                r = tm.and_(s, t) if op == 'BitAnd' else tm.or_(s, t) if op == 'BitOr' else tm.ite(s, tm.not_(t), t)
                return Sym(r, 'b', True)
            m, n = num.native(p), num.native(q)
            if m is None or n is None:
                return Sym(tm.app(op, term(p), term(q)), 'i', True)
            m, n = int(m), int(n)
            return {'BitAnd': m & n, 'BitOr': m | n, 'BitXor': m ^ n}[op]
        return self.out(I, self.emap(I, f, x[0], y[0]), dt, self.ismat(I, a, b))

    def unary(self, I, op, v):
        o, dt = self.get(I, v)
        if op == 'USub':
            if dt.kind == 'b':
                I.raise_('TypeError', 'The numpy boolean negative, the `-` operator, is not supported')
            return self.out(I, self.emap(I, lambda x: I.unary('USub', x), o), dt, self.ismat(I, v))
        if op == 'UAdd':
            return self.out(I, o, dt, self.ismat(I, v))
        if op == 'Invert':
            if dt.kind == 'b':
                return self.out(I, self.emap(I, lambda x: Sym(tm.not_(bterm(x)), 'b', True), o), dt, self.ismat(I, v))
            if dt.kind in 'iu':
                return self.out(I, self.emap(I, lambda x: num.arith('-', -1, x), o), dt, self.ismat(I, v))
            I.raise_('TypeError', "ufunc 'invert' not supported for the input types")
        raise Unsupported(op)

    def compare(self, I, op, a, b):
        try:
            return self._compare(I, op, a, b)
        except OpaqueArg:
            return OpaqueV(tm.app('np' + op, I.key(a), I.key(b)))

    def _compare(self, I, op, a, b):
        a, b = I.force(a), I.force(b)
        if op in ('Eq', 'NotEq'):
            x = self.obj(I, a)
            y = self.obj(I, b)
            try:
                np.broadcast(x[0], y[0])
            except ValueError as e:
                if True:
                    # numpy 2: == raises like the other comparisons.
                    I.raise_('ValueError', str(e))

            def eq(p, q):
                if is_num(p) and is_num(q):
                    t = num.cmp(I.CMP[op], p, q)
                else:
                    t = I.equal(p, q)
                    t = t if op == 'Eq' else tm.not_(t)
                return Sym(I.simp(t), 'b', True)
            return self.out(I, self.emap(I, eq, x[0], y[0]), B1, self.ismat(I, a, b))
        x, y = self.operand(I, a), self.operand(I, b)
        if x[1].kind == 'U' or y[1].kind == 'U':
            raise Unsupported('comparison of string arrays')

        def f(p, q):
            if not (is_num(p) and is_num(q)):
                return I.compare(op, p, q)
            return Sym(I.simp(num.cmp(I.CMP[op], p, q)), 'b', True)
        return self.out(I, self.emap(I, f, x[0], y[0]), B1, self.ismat(I, a, b))

    def inplace(self, I, op, a, b):
        c = I.content(a)
        try:
            r = self._binop(I, op, a, b)
        except OpaqueArg:
            raise Unsupported('in-place update with an unmodelled value')
        if I.is_arr(r):
            o, dt = self.get(I, r)
        else:
            o, dt = obarr([r], ()), {'f': F8, 'i': I8, 'b': B1}[ty_of(r)]
        if o.shape != c.shape:
            if op == 'MatMult':
                raise Unsupported('in-place matmul')
            I.raise_('ValueError', 'non-broadcastable output operand with shape %s' % (c.shape,))
        if not np.can_cast(dt, c.dtype, 'same_kind') and c.dtype.kind != 'O':
            I.raise_('TypeError', "Cannot cast ufunc output from dtype('%s') to dtype('%s') with casting rule 'same_kind'" % (dt, c.dtype))
        self.write(I, a, c.idx, o)
        return a

    def write(self, I, ref, idx, o):
        '''Store an object array at the given positions of ref's buffer.'''
        c = I.content(ref)
        if c.ro:
            I.raise_('ValueError', 'assignment destination is read-only')
        buf = I.content(c.buf)
        data = buf.data.copy()
        o = np.broadcast_to(o, np.shape(idx))
        fi = np.asarray(idx).reshape(-1)
        fo = o.reshape(-1)
        for i in range(len(fi)):
            data[int(fi[i])] = self.cast(I, fo[i], c.dtype, strict=True) if kind_ty(c.dtype) else fo[i]
        I.put(c.buf, BufC(data))

    # --- indexing ----------------------------------------------------------------
    def key(self, I, ref, k):
        '''(native key, fancy?)'''
        fancy = [False]
        shape = I.content(ref).shape

        def one(x):
            x = I.force(x)
            if x is None or x is Ellipsis:
                return x
            if isinstance(x, ExtV) and x.path == 'numpy.newaxis':
                return None
            if isinstance(x, slice):
                return I.native_slice(x)
            if isinstance(x, bool):
                fancy[0] = True
                return x
            if isinstance(x, int):
                return x
            if isinstance(x, float):
                I.raise_('IndexError', 'only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices')
            if isinstance(x, Sym):
                if x.ty == 'b':
                    fancy[0] = True
                    return I.decide(I.truth(x))
                if x.ty == 'f':
                    I.raise_('IndexError', 'only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices')
                return I.as_index(x)
            if isinstance(x, OpaqueV):
                raise OpaqueArg()
            if isinstance(x, (str, StrV)):
                I.raise_('IndexError', 'only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices')
            if isinstance(x, (Ref, tuple, range)):
                o, dt = self.obj(I, x)
                fancy[0] = True
                if o.size == 0 and not I.is_arr(x):
                    return np.zeros(o.shape, dtype=int)
                if dt.kind == 'b':
                    r = np.zeros(o.shape, dtype=bool)
                    for i, e in np.ndenumerate(o):
                        r[i] = I.decide(I.truth(e))
                    return r
                if dt.kind in 'iu':
                    r = np.zeros(o.shape, dtype=int)
                    for i, e in np.ndenumerate(o):
                        r[i] = I.as_index(e)
                    if o.shape == ():
                        fancy[0] = False
                        return int(r)
                    return r
                I.raise_('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            I.raise_('IndexError', 'only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices')
        if isinstance(k, tuple):
            nk = tuple(one(x) for x in k)
        else:
            nk = one(k)
        return nk, fancy[0]

    def getitem(self, I, ref, k):
        try:
            nk, fancy = self.key(I, ref, k)
        except OpaqueArg:
            return OpaqueV(tm.app('getitem', I.key(ref), I.key(k)))
        c = I.content(ref)
        try:
            r = c.idx[nk]
        except IndexError as e:
            I.raise_('IndexError', str(e))
        except ValueError as e:
            I.raise_('ValueError', str(e))
        if c.matrix and isinstance(r, np.ndarray) and r.ndim < 2:
            r = self.mat_shape(c.idx, nk, r)
        if not isinstance(r, np.ndarray):
            return I.content(c.buf).data[int(r)]
        if fancy:
            data = I.content(c.buf).data
            o = ob(r.shape)
            if r.size:
                o[...] = data[r]
            return self.new(I, o, c.dtype, c.matrix)
        return self.view(I, ref, r)

    @staticmethod
    def mat_shape(idx, nk, r):
        # np.matrix keeps two dimensions.
        if isinstance(nk, tuple) and len(nk) > 1 and not isinstance(nk[0], slice) and isinstance(nk[1], (slice,)):
            return r.reshape(1, -1)
        if isinstance(nk, tuple) and len(nk) > 1 and np.isscalar(nk[1]):
            return r.reshape(-1, 1)
        return r.reshape(1, -1)

    def setitem(self, I, ref, k, v):
        c = I.content(ref)
        try:
            nk, _ = self.key(I, ref, k)
            o, dt = self.obj(I, v)
        except OpaqueArg:
            raise Unsupported('store of an unmodelled value')
        try:
            target = c.idx[nk]
        except IndexError as e:
            I.raise_('IndexError', str(e))
        tshape = np.shape(target)
        try:
            if o.shape != tshape:
                while o.ndim > len(tshape) and o.shape[0] == 1:
                    o = o[0]
                o = np.broadcast_to(o, tshape)
        except ValueError as e:
            I.raise_('ValueError', 'could not broadcast input array into shape %s: %s' % (tshape, e))
        if dt.kind == 'U' and kind_ty(c.dtype):
            pass
        self.write(I, ref, target, o)

    def iterate(self, I, ref):
        c = I.content(ref)
        if not c.shape:
            I.raise_('TypeError', 'iteration over a 0-d array')
        out = []
        data = I.content(c.buf).data
        for i in range(c.shape[0]):
            r = c.idx[i]
            if isinstance(r, np.ndarray):
                if c.matrix and r.ndim < 2:
                    r = r.reshape(1, -1)
                out.append(self.view(I, ref, r))
            else:
                out.append(data[int(r)])
        return out

    def truth(self, I, ref):
        c = I.content(ref)
        if c.idx.size == 1:
            return I.truth(self.item(I, ref))
        if c.idx.size == 0:
            I.raise_('ValueError', 'The truth value of an empty array is ambiguous.')
        I.raise_('ValueError', 'The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def any_term(self, I, r):
        if I.is_arr(r):
            o, _ = self.get(I, r)
            return tm.or_(*[I.truth(x) for x in o.ravel()])
        return I.truth(r)

    def ravel_view(self, I, ref, write=False):
        c = I.content(ref)
        idx = c.idx.reshape(-1)
        if write and idx.size and not np.shares_memory(idx, c.idx):
            # A flat iterator writes through even when the window is strided.
            return I.new(ArrC(c.buf, idx, c.dtype, c.ro, False))
        return I.new(ArrC(c.buf, idx, c.dtype, c.ro, False))

    # --- attributes ---------------------------------------------------------------
    def array_attr(self, I, v, name):
        c = I.content(v)
        if name == 'shape':
            return tuple(int(n) for n in c.shape)
        if name == 'ndim':
            return c.idx.ndim
        if name == 'size':
            return int(c.idx.size)
        if name == 'dtype':
            return c.dtype
        if name == 'T':
            return self.view(I, v, c.idx.T)
        if name == 'flags':
            return FlagsV(v)
        if name == 'flat':
            return FlatV(v)
        if name == 'itemsize':
            return c.dtype.itemsize
        if name == 'nbytes':
            return c.dtype.itemsize * int(c.idx.size)
        if name in ('real',):
            return self.view(I, v, c.idx)
        if name == '__class__':
            return I.type_of(v)
        if name == 'base':
            return None
        if c.matrix:
            if name == 'I':
                return call(I, 'numpy.linalg.inv', [v])
            if name in ('A',):
                return self.view(I, v, c.idx, matrix=False)
            if name == 'A1':
                return self.view(I, v, c.idx.reshape(-1), matrix=False)
            if name == 'H':
                return self.view(I, v, c.idx.T)
        f = ARRAY_METHODS.get(name)
        if f is not None:
            return BoundV(method(name, f), v)
        if name in bm.NUMOPS:
            op, r = bm.NUMOPS[name]
            return BuiltinV(name, lambda I, a, k: I.binop(op, a[0], v) if r else I.binop(op, v, a[0]))
        if name in bm.NUMCMP:
            return BuiltinV(name, lambda I, a, k: I.compare(bm.NUMCMP[name], v, a[0]))
        d = bm._dunder(I, v, name, bm.TUPLE) if name != '__add__' else None
        if d is not None:
            return d
        if hasattr(np.ndarray, name):
            raise Unsupported('ndarray.%s' % name)
        I.attr_error('numpy.ndarray', name)

    def scalar_np_attr(self, I, v, name):
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name == 'dtype':
            return {'f': F8, 'i': I8, 'b': B1}[v.ty]
        if name in ('T', 'real'):
            return v
        if name in ('item', 'tolist'):
            return BuiltinV(name, lambda I, a, k: py_scalar(v))
        if name in ('copy', 'squeeze', 'conj', 'conjugate', 'min', 'max', 'sum', 'mean', 'prod', 'view', 'transpose') and name != 'view':
            return BuiltinV(name, lambda I, a, k: v)
        if name in ('__len__', '__iter__'):
            I.attr_error('numpy.float64', name)
        if v.ty == 'f' and hasattr(float, name) or name.startswith('__'):
            return bm.num_attr(I, v, name)
        tp = {'f': np.float64, 'i': np.int64, 'b': np.bool_}[v.ty]
        if not hasattr(tp, name):
            I.attr_error(tp.__name__, name)
        arr = self.new(I, obarr([v], ()), {'f': F8, 'i': I8, 'b': B1}[v.ty])
        return self.array_attr(I, arr, name)

    def array_setattr(self, I, v, name, value):
        c = I.content(v)
        if name == 'shape':
            shape = shape_arg(I, [value])
            idx = guard(I, c.idx.reshape, shape)
            if idx.size and not np.shares_memory(idx, c.idx):
                I.raise_('AttributeError', 'Incompatible shape for in-place modification. Use `.reshape()` to make a copy with the desired shape.')
            I.put(v, ArrC(c.buf, idx, c.dtype, c.ro, c.matrix))
            return
        if name in ('dtype', 'strides', 'data', 'flat', 'real', 'imag'):
            if name == 'flat':
                self.setitem(I, self.ravel_view(I, v, True), Ellipsis, value)
                return
            raise Unsupported('set ndarray.%s' % name)
        I.attr_error('numpy.ndarray', name)

    def flags_get(self, I, v, name):
        c = I.content(v.ref)
        if name == 'writeable':
            return not c.ro
        if name in ('c_contiguous', 'contiguous'):
            return bool(c.idx.flags.c_contiguous)
        if name == 'f_contiguous':
            return bool(c.idx.flags.f_contiguous)
        if name == 'owndata':
            raise Unsupported('flags.owndata')
        raise Unsupported('flags.%s' % name)

    def flags_set(self, I, v, name, value):
        if name != 'writeable':
            raise Unsupported('flags.%s' % name)
        c = I.content(v.ref)
        ro = not I.decide(I.truth(value))
        if not ro and c.ro:
            base_ro = I.memo.get(('robuf', c.buf.oid))
            if base_ro:
                I.raise_('ValueError', 'cannot set WRITEABLE flag to True of this array')
        I.put(v.ref, ArrC(c.buf, c.idx, c.dtype, ro, c.matrix))

    def flat_attr(self, I, v, name):
        if name == 'copy':
            return BuiltinV(name, lambda I, a, k: call(I, 'numpy.ravel', [v.ref]))
        raise Unsupported('flatiter.%s' % name)

    # --- linear algebra -----------------------------------------------------------
    def dot_sum(self, I, xs, ys):
        acc = None
        for x, y in zip(xs, ys):
            p = num.arith('*', x, y)
            acc = p if acc is None else num.arith('+', acc, p)
        return acc if acc is not None else Sym(tm.ZERO, 'f', True)

    def matmul(self, I, a, b, mat=False, dot=False):
        x, dx, _ = self.operand(I, a)
        y, dy, _ = self.operand(I, b)
        dt = np.result_type(dx, dy)
        if dt.kind not in 'iufb':
            if any(e is None for z in (x, y) for e in np.asarray(z, dtype=object).ravel()):
                I.raise_('TypeError', "unsupported operand type(s) for *: 'NoneType'")
            raise Unsupported('dot of objects')
        if dt.kind == 'b':
            raise Unsupported('dot of booleans')
        if mat:
            x = x.reshape(1, -1) if x.ndim < 2 else x
            y = y.reshape(1, -1) if y.ndim < 2 else y
        if x.ndim == 0 or y.ndim == 0:
            if not dot:
                I.raise_('ValueError', 'matmul: Input operand does not have enough dimensions')
            return self.out(I, self.emap(I, lambda p, q: num.arith('*', p, q), x, y), dt, mat)
        ky = y.ndim - 2 if y.ndim > 1 else 0
        if x.shape[-1] != y.shape[ky]:
            I.raise_('ValueError', 'shapes %s and %s not aligned: %d (dim %d) != %d (dim %d)' % (x.shape, y.shape, x.shape[-1], x.ndim - 1, y.shape[ky], ky))
        if x.ndim <= 2 and y.ndim <= 2 or dot:
            ym = np.moveaxis(y, ky, -1)
            shape = x.shape[:-1] + ym.shape[:-1]
            out = ob(shape)
            for i in np.ndindex(*x.shape[:-1]):
                for j in np.ndindex(*ym.shape[:-1]):
                    out[i + j] = self.dot_sum(I, x[i], ym[j])
            if shape == ():
                return self.cast(I, out[()], dt)
            return self.new(I, out, dt, mat)
        # matmul broadcasts leading dimensions
        x2 = x if x.ndim > 1 else x[None, :]
        y2 = y if y.ndim > 1 else y[:, None]
        lead = guard(I, np.broadcast_shapes, x2.shape[:-2], y2.shape[:-2])
        xb = np.broadcast_to(x2, lead + x2.shape[-2:])
        yb = np.broadcast_to(y2, lead + y2.shape[-2:])
        out = ob(lead + (x2.shape[-2], y2.shape[-1]))
        for i in np.ndindex(*out.shape):
            out[i] = self.dot_sum(I, xb[i[:-2] + (i[-2],)], yb[i[:-2]][:, i[-1]])
        if x.ndim == 1:
            out = out[..., 0, :]
        if y.ndim == 1:
            out = out[..., 0]
        return self.out(I, out, dt, mat)


def py_scalar(v):
    if isinstance(v, Sym):
        n = num.native(v) if v.t.op in ('c', 'nan', 'inf', 'true', 'false') else None
        if n is not None:
            return n
        return Sym(v.t, v.ty, False)
    return v


def call(I, path, a, k=None):
    return I.ext[path](I, list(a), k or {})


def shape_arg(I, a):
    '''A shape given as ints or as one tuple.'''
    if len(a) == 1:
        v = I.force(a[0])
        if isinstance(v, tuple) or isinstance(v, Ref) and isinstance(I.content(v), (ListC, ArrC)):
            a = I.iterate(v)
    out = []
    for x in a:
        i = I.as_index(x)
        if i is None:
            I.raise_('TypeError', 'object cannot be interpreted as an integer')
        out.append(i)
    return tuple(out)


TABLE = {}
ARRAY_METHODS = {}


def real_arity(paths):
    '''How many positional arguments numpy's own function takes.'''
    try:
        f = np
        for n in paths.split()[0].split('.'):
            f = getattr(f, n)
        ps = inspect.signature(f).parameters.values()
        if any(p.kind == p.VAR_POSITIONAL for p in ps):
            return 99
        return len([p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)])
    except (IndexError, AttributeError):
        return 0
    except (TypeError, ValueError):
        return 99


def npf(paths, sig='', meth=None):
    '''Register a model. sig: names; "x=1" gives a default; extra keywords are refused.'''
    names = []
    for p in sig.split():
        if '=' in p:
            n, d = p.split('=')
            names.append((n, {'None': None, 'True': True, 'False': False}.get(d, REQ if d == '' else None) if not d.lstrip('-').replace('.', '').isdigit() else (float(d) if '.' in d else int(d))))
        else:
            names.append((p, REQ))

    def deco(f):
        def wrapped(I, a, k):
            vals = {}
            if len(a) > len(names):
                if real_arity(paths) > len(names):
                    raise Unsupported('%s() with %d positional arguments' % (paths or meth, len(a)))
                I.raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (paths.split()[0] if paths else meth, len(names), len(a)))
            for (n, _), v in zip(names, a):
                vals[n] = v
            for n, v in k.items():
                if n not in [q for q, _ in names]:
                    raise Unsupported('%s(%s=)' % (paths or meth, n))
                if n in vals:
                    I.raise_('TypeError', '%s() got multiple values for argument %s' % (paths or meth, n))
                vals[n] = v
            for n, d in names:
                if n not in vals:
                    if d is REQ:
                        I.raise_('TypeError', '%s() missing required argument %s' % (paths or meth, n))
                    vals[n] = d
            vals = {n: I.force(v) for n, v in vals.items()}
            try:
                return f(I, **vals)
            except NoNumber as e:
                I.raise_('TypeError', str(e))
            except OpaqueArg:
                return I.opaque_call((paths or meth).split()[0], a, k)
        for p in paths.split():
            TABLE['numpy.' + p] = wrapped
        if meth:
            for m in meth.split():
                ARRAY_METHODS[m] = wrapped
        return wrapped
    return deco


NPI = NP()


def O(I, v, dtype=None):
    return NPI.obj(I, v, dtype)


def mat(I, v):
    return NPI.ismat(I, v)


def norm_axis(I, axis, ndim):
    if axis is None:
        return None
    if isinstance(axis, tuple) or isinstance(axis, Ref):
        return tuple(norm_axis(I, x, ndim) for x in I.iterate(axis))
    i = I.as_index(axis)
    if i is None:
        I.raise_('TypeError', 'axis must be an integer')
    if not -ndim <= i < ndim:
        I.raise_('ValueError', 'axis %d is out of bounds for array of dimension %d' % (i, ndim))
    return i % ndim


def reduce_(I, v, axis, f, dtype=None, keepdims=False, empty=None, name='reduce'):
    o, dt = O(I, v)
    m = mat(I, v)
    if keepdims is None:
        keepdims = False
    ax = norm_axis(I, axis, o.ndim)
    if ax is None:
        axes = tuple(range(o.ndim))
    else:
        axes = ax if isinstance(ax, tuple) else (ax,)
    keep = [i for i in range(o.ndim) if i not in axes]
    t = np.transpose(o, keep + list(axes))
    kshape = tuple(o.shape[i] for i in keep)
    n = 1
    for i in axes:
        n *= o.shape[i]
    t = t.reshape(kshape + (n,))
    out = ob(kshape)
    for i in np.ndindex(*kshape):
        xs = list(t[i])
        if not xs:
            if empty is None:
                I.raise_('ValueError', 'zero-size array to reduction operation %s which has no identity' % name)
            out[i] = empty
        else:
            out[i] = f(xs)
    rdt = dtype(dt) if callable(dtype) else (dtype or dt)
    if keepdims or m and axis is not None:
        out = out.reshape(tuple(1 if i in axes else o.shape[i] for i in range(o.ndim)))
    return NPI.out(I, out, rdt, m and axis is not None)


def numeric(I, dt):
    if dt.kind in 'U':
        I.raise_('TypeError', 'the resolved dtypes are not compatible')


def sum_dt(dt):
    return I8 if dt.kind in 'b' else dt


def _sumf(xs):
    acc = xs[0]
    if ty_of(acc) == 'b' or not num.isnp(acc):
        acc = Sym(term(acc), 'i' if ty_of(acc) == 'b' else ty_of(acc), True)
    if len(xs) > 1 and all(isinstance(x, Sym) for x in xs):
        ty = 'f' if any(ty_of(x) == 'f' for x in xs) else 'i'
        t = tm.add(*[term(x) for x in xs])
        return Sym(num.slip(t, term(xs[0])) if num.SLIPS[0] and ty == 'f' and any(term(x).op != 'c' for x in xs) else t, ty, True)
    for x in xs[1:]:
        acc = num.arith('+', acc, x)
    return acc


@npf('sum', 'a axis=None dtype=None out=None keepdims=False', meth='sum')
def np_sum(I, a, axis, dtype, out, keepdims):
    return with_out(I, out, reduce_(I, a, axis, _obj_sum(I), NPI.dtype_of(I, dtype) or sum_dt, keepdims, 0))


def _obj_sum(I):
    def f(xs):
        if all(is_num(x) for x in xs):
            return _sumf(xs)
        acc = xs[0]
        for x in xs[1:]:
            acc = I.binop('Add', acc, x)
        return acc
    return f


@npf('nansum', 'a axis=None')
def np_nansum(I, a, axis):
    return reduce_(I, a, axis, lambda xs: _sumf([num.choose(isnan_term(term(x)), 0, x) for x in xs]), sum_dt, False, 0)


def with_out(I, out, r):
    if out is None:
        return r
    NPI.setitem(I, out, Ellipsis, r)
    return out


@npf('mean average', 'a axis=None dtype=None out=None keepdims=False', meth='mean')
def np_mean(I, a, axis, dtype, out, keepdims):
    return with_out(I, out, reduce_(I, a, axis, lambda xs: num.arith('/', _sumf(xs), len(xs)), lambda d: d if d.kind == 'f' else F8, keepdims, float('nan')))


@npf('prod', 'a axis=None dtype=None out=None keepdims=False', meth='prod')
def np_prod(I, a, axis, dtype, out, keepdims):
    def f(xs):
        acc = xs[0] if ty_of(xs[0]) != 'b' else Sym(term(xs[0]), 'i', True)
        for x in xs[1:]:
            acc = num.arith('*', acc, x)
        return acc
    return with_out(I, out, reduce_(I, a, axis, f, sum_dt, keepdims, 1))


def _mm(biggest, I):
    def f(xs):
        if any(term(x).op == 'nan' for x in xs):
            return Sym(tm.NAN, 'f', True)
        out = xs[0]
        for v in xs[1:]:
            out = num.choose(I.simp(num.cmp('>' if biggest else '<', v, out)), v, out)
        return out
    return f


@npf('max amax', 'a axis=None out=None keepdims=False', meth='max')
def np_max(I, a, axis, out, keepdims):
    return with_out(I, out, reduce_(I, a, axis, _mm(True, I), None, keepdims, None, 'maximum'))


@npf('min amin', 'a axis=None out=None keepdims=False', meth='min')
def np_min(I, a, axis, out, keepdims):
    return with_out(I, out, reduce_(I, a, axis, _mm(False, I), None, keepdims, None, 'minimum'))


@npf('ptp', 'a axis=None')
def np_ptp(I, a, axis):
    return I.binop('Sub', np_max(I, [a, axis], {}), np_min(I, [a, axis], {}))


@npf('any', 'a axis=None out=None keepdims=False', meth='any')
def np_any(I, a, axis, out, keepdims):
    return with_out(I, out, reduce_(I, a, axis, lambda xs: Sym(tm.or_(*[I.truth(x) for x in xs]), 'b', True), B1, keepdims, False))


@npf('all', 'a axis=None out=None keepdims=False', meth='all')
def np_all(I, a, axis, out, keepdims):
    return with_out(I, out, reduce_(I, a, axis, lambda xs: Sym(tm.and_(*[I.truth(x) for x in xs]), 'b', True), B1, keepdims, True))


@npf('count_nonzero', 'a axis=None')
def np_count_nonzero(I, a, axis):
    return reduce_(I, a, axis, lambda xs: _sumf([Sym(tm.ite(I.truth(x), tm.ONE, tm.ZERO), 'i', True) for x in xs]), I8, False, 0)


def _argbest(biggest, I):
    def f(xs):
        best, bi = xs[0], 0
        for i, v in enumerate(xs[1:], 1):
            c = I.simp(num.cmp('>' if biggest else '<', v, best))
            best = num.choose(c, v, best)
            bi = num.choose(c, i, bi)
        return Sym(term(bi), 'i', True)
    return f


@npf('argmax', 'a axis=None', meth='argmax')
def np_argmax(I, a, axis):
    return reduce_(I, a, axis, _argbest(True, I), I8, False, None, 'argmax')


@npf('argmin', 'a axis=None', meth='argmin')
def np_argmin(I, a, axis):
    return reduce_(I, a, axis, _argbest(False, I), I8, False, None, 'argmin')


@npf('var', 'a axis=None dtype=None out=None ddof=0', meth='var')
def np_var(I, a, axis, dtype, out, ddof):
    def f(xs):
        n = len(xs)
        m = num.arith('/', _sumf(xs), n)
        return num.arith('/', _sumf([num.arith('**', num.arith('-', x, m), 2) for x in xs]), n - ddof)
    return with_out(I, out, reduce_(I, a, axis, f, F8, False, float('nan')))


@npf('std', 'a axis=None dtype=None out=None ddof=0', meth='std')
def np_std(I, a, axis, dtype, out, ddof):
    return with_out(I, out, call(I, 'numpy.sqrt', [np_var(I, [a, axis, dtype, None, ddof], {})]))


@npf('cumsum', 'a axis=None', meth='cumsum')
def np_cumsum(I, a, axis):
    o, dt = O(I, a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    o = np.moveaxis(o, norm_axis(I, axis, o.ndim), 0)
    out = ob(o.shape)
    for i in range(o.shape[0]):
        for j in np.ndindex(*o.shape[1:]):
            out[(i,) + j] = o[(i,) + j] if i == 0 else num.arith('+', out[(i - 1,) + j], o[(i,) + j])
    return NPI.new(I, np.moveaxis(out, 0, norm_axis(I, axis, o.ndim)), sum_dt(dt))


# --- elementwise functions --------------------------------------------------------

def ufunc1(I, x, f, dtype=None, out=None, where=True):
    o, dt, _ = NPI.operand(I, x)
    if dt.kind in 'UO' and not all(is_num(e) for e in o.ravel()):
        if any(isinstance(e, OpaqueV) for e in o.ravel()):
            raise OpaqueArg()
        I.raise_('TypeError', 'ufunc not supported for the input types')
    rdt = dtype(dt) if callable(dtype) else (dtype or dt)
    r = NPI.emap(I, f, o)
    if where is not True:
        if out is None:
            raise Unsupported('where= without out=')
        w, _ = O(I, where)
        oo, _ = O(I, out)
        r = NPI.emap(I, lambda c, p, q: num.choose(I.truth(c), p, q), w, r, oo)
    r = NPI.out(I, r, rdt, mat(I, x))
    return with_out(I, out, r)


def fdt(d):
    return d if d.kind == 'f' else F8


def reg1(names, f, dtype=None, method_=None):
    @npf(names, 'x out=None where=True dtype=None', meth=method_)
    def g(I, x, out, where, dtype_=None, **kw):
        return ufunc1(I, x, lambda e: f(I, e), dtype, out, where)

    def h(I, x, out, where, dtype):
        return ufunc1(I, x, lambda e: f(I, e), dt_, out, where)
    dt_ = dtype
    return npf(names, 'x out=None where=True dtype=None', meth=method_)(h)


def S(t, ty='f'):
    return Sym(t, ty, True)


def _same(d):
    return d


reg1('sqrt', lambda I, e: S(tm.sqrt(term(e))), fdt)
reg1('square', lambda I, e: num.arith('*', e, e))
reg1('abs absolute fabs', lambda I, e: S(tm.abs_(term(e)), ty_of(e)))
reg1('negative', lambda I, e: I.unary('USub', e))
reg1('positive', lambda I, e: e)
reg1('sign', lambda I, e: S(tm.sign_term(term(e)), ty_of(e)))
reg1('conj conjugate real', lambda I, e: e, method_='conj conjugate')
reg1('reciprocal', lambda I, e: num.arith('/', S(tm.ONE), e), fdt)
for _n, _m in (('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('arcsin', 'asin'), ('arccos', 'acos'), ('arctan', 'atan'),
               ('exp', 'exp'), ('sinh', 'sinh'), ('cosh', 'cosh'), ('tanh', 'tanh')):
    reg1(_n, (lambda m: lambda I, e: S(tm.fn(m, term(e))))(_m), fdt)
reg1('log', lambda I, e: S(tm.fn('log', term(e))), fdt)
reg1('log10', lambda I, e: S(tm.div(tm.fn('log', term(e)), tm.const(float(np.log(10))))), fdt)
reg1('log2', lambda I, e: S(tm.div(tm.fn('log', term(e)), tm.const(float(np.log(2))))), fdt)
for _n, _m in (('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc'), ('rint', 'rint'), ('fix', 'trunc')):
    reg1(_n, (lambda m: lambda I, e: S(tm.fn(m, term(e)), ty_of(e)))(_m))
reg1('radians deg2rad', lambda I, e: S(tm.mul(term(e), tm.const(float(np.pi / 180)))), fdt)
reg1('degrees rad2deg', lambda I, e: S(tm.mul(term(e), tm.const(float(180 / np.pi)))), fdt)
reg1('isnan', lambda I, e: S(isnan_term(term(e)), 'b'), B1)
reg1('isinf', lambda I, e: S(isinf_term(term(e)), 'b'), B1)
reg1('isposinf', lambda I, e: S(tm.and_(isinf_term(term(e)), num.cmp('>', e, 0)), 'b'), B1)
reg1('isneginf', lambda I, e: S(tm.and_(isinf_term(term(e)), num.cmp('<', e, 0)), 'b'), B1)
reg1('isfinite', lambda I, e: S(tm.and_(tm.not_(isnan_term(term(e))), tm.not_(isinf_term(term(e)))), 'b'), B1)
reg1('logical_not', lambda I, e: S(tm.not_(I.truth(e)), 'b'), B1)
reg1('signbit', lambda I, e: S(num.cmp('<', e, 0), 'b'), B1)


@npf('bitwise_not invert', 'x')
def np_invert(I, x):
    if isinstance(x, Sym) or isinstance(x, (int, bool)):
        return I.unary('Invert', Sym(bterm(x), 'b', True) if ty_of(x) == 'b' else x)
    o, dt = O(I, x)
    return NPI.unary(I, 'Invert', NPI.new(I, o, dt))


@npf('around round round_', 'a decimals=0 out=None', meth='round')
def np_round(I, a, decimals, out):
    n = I.as_index(decimals)
    s = tm.const(10 ** n) if n >= 0 else tm.div(tm.ONE, tm.const(10 ** -n))
    return ufunc1(I, a, lambda e: e if ty_of(e) != 'f' and n >= 0 else S(tm.div(tm.fn('rint', tm.mul(term(e), s)), s), ty_of(e)), None, out)


@npf('clip', 'a a_min=None a_max=None out=None min=None max=None', meth='clip')
def np_clip(I, a, a_min, a_max, out, min, max):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = call(I, 'numpy.maximum', [r, lo])
    if hi is not None:
        r = call(I, 'numpy.minimum', [r, hi])
    return with_out(I, out, r)


@npf('nan_to_num', 'x copy=True nan=0.0')
def np_nan_to_num(I, x, copy, nan):
    if copy is not True:
        raise Unsupported('nan_to_num copy=False')
    big = 1.7976931348623157e308
    return ufunc1(I, x, lambda e: num.choose(isnan_term(term(e)), S(term(nan)), num.choose(isinf_term(term(e)), S(tm.ite(tm.gt0(term(e)) if term(e).op != 'inf' else (tm.TRUE if term(e).args[0] > 0 else tm.FALSE), tm.const(big), tm.const(-big))), e)))


def ufunc2(I, x, y, f, dtype=None, out=None, where=True):
    p, q = NPI.operand(I, x), NPI.operand(I, y)
    for o in (p, q):
        if o[1].kind in 'UO' and not all(is_num(e) for e in o[0].ravel()):
            if any(isinstance(e, OpaqueV) for e in o[0].ravel()):
                raise OpaqueArg()
            I.raise_('TypeError', 'ufunc not supported for the input types')
    dt = NPI.result([p, q])
    rdt = dtype(dt) if callable(dtype) else (dtype or dt)
    npn = lambda e: e if num.isnp(e) else Sym(bterm(e) if ty_of(e) == 'b' else term(e), ty_of(e), True)
    r = NPI.emap(I, lambda a, b: f(npn(a), npn(b)), p[0], q[0])
    if where is not True:
        if out is None:
            raise Unsupported('where= without out=')
        w, _ = O(I, where)
        oo, _ = O(I, out)
        r = NPI.emap(I, lambda c, a, b: num.choose(I.truth(c), a, b), w, r, oo)
    return with_out(I, out, NPI.out(I, r, rdt, mat(I, x) or mat(I, y)))


def reg2(names, f, dtype=None):
    def h(I, x1, x2, out, where):
        return ufunc2(I, x1, x2, lambda a, b: f(I, a, b), dtype, out, where)
    return npf(names, 'x1 x2 out=None where=True')(h)


def reg_arith(names, op):
    def h(I, x1, x2, out, where):
        if where is not True or out is not None:
            return ufunc2(I, x1, x2, lambda a, b: num.arith(I.NUMOP[op], a, b), fdt if op == 'Div' else None, out, where)
        o, dt = NPI.arith(I, I.NUMOP[op], x1, x2)
        return NPI.out(I, o, dt, mat(I, x1) or mat(I, x2))
    return npf(names, 'x1 x2 out=None where=True')(h)


reg_arith('add', 'Add')
reg_arith('subtract', 'Sub')
reg_arith('multiply', 'Mult')
reg_arith('divide true_divide', 'Div')
reg_arith('floor_divide', 'FloorDiv')
reg_arith('mod remainder', 'Mod')
reg_arith('power float_power', 'Pow')
for _n, _o in (('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>='), ('equal', '=='), ('not_equal', '!=')):
    reg2(_n, (lambda op: lambda I, a, b: S(I.simp(num.cmp(op, a, b)), 'b'))(_o), B1)
reg2('logical_and', lambda I, a, b: S(tm.and_(I.truth(a), I.truth(b)), 'b'), B1)
reg2('logical_or', lambda I, a, b: S(tm.or_(I.truth(a), I.truth(b)), 'b'), B1)
reg2('logical_xor', lambda I, a, b: S(tm.ite(I.truth(a), tm.not_(I.truth(b)), I.truth(b)), 'b'), B1)


def _pick(big):
    def f(I, a, b):
        if term(a).op == 'nan' or term(b).op == 'nan':
            return S(tm.NAN)
        return num.choose(I.simp(num.cmp('>' if big else '<', b, a)), b, a)
    return f


reg2('maximum', _pick(True))
reg2('minimum', _pick(False))
reg2('arctan2', lambda I, a, b: S(tm.fn('atan2', term(a), term(b))), fdt)
reg2('hypot', lambda I, a, b: S(tm.sqrt(tm.add(tm.mul(term(a), term(a)), tm.mul(term(b), term(b))))), fdt)
reg2('copysign', lambda I, a, b: num.choose(num.cmp('<', b, 0), num.arith('-', S(tm.ZERO), S(tm.abs_(term(a)))), S(tm.abs_(term(a)))), fdt)


@npf('bitwise_and', 'x1 x2')
def np_bitand(I, x1, x2):
    return NPI.bitop(I, 'BitAnd', x1, x2)


@npf('bitwise_or', 'x1 x2')
def np_bitor(I, x1, x2):
    return NPI.bitop(I, 'BitOr', x1, x2)


@npf('bitwise_xor', 'x1 x2')
def np_bitxor(I, x1, x2):
    return NPI.bitop(I, 'BitXor', x1, x2)


# Methods of the universal functions.

def _reg_outer(name):
    def h(I, A, B):
        x, y = O(I, A)[0], O(I, B)[0]
        x = A if not x.ndim else np_reshape(I, [A, tuple(x.shape) + (1,) * y.ndim], {}) if I.is_arr(A) else NPI.new(I, x.reshape(tuple(x.shape) + (1,) * y.ndim), O(I, A)[1])
        return TABLE['numpy.' + name](I, [x, B], {})
    npf(name + '.outer', 'A B')(h)


for _n in 'add subtract multiply divide true_divide power less less_equal greater greater_equal equal not_equal logical_and logical_or maximum minimum'.split():
    _reg_outer(_n)


def _reg_reduce(name, other):
    def h(I, array, axis, dtype, out, keepdims):
        axis = 0 if axis == 'first' else axis
        k = {'axis': axis, 'keepdims': keepdims}
        if out is not None:
            k['out'] = out
        return TABLE['numpy.' + other](I, [array], k)

    def g(I, a, k):
        k = dict(k)
        if len(a) < 2 and 'axis' not in k:
            k['axis'] = 0
        return f(I, a, k)
    f = npf(name + '.reduce', 'array axis=None dtype=None out=None keepdims=False')(h)
    TABLE['numpy.%s.reduce' % name] = g


for _n, _o in (('add', 'sum'), ('multiply', 'prod'), ('maximum', 'max'), ('minimum', 'min'), ('logical_and', 'all'), ('logical_or', 'any')):
    _reg_reduce(_n, _o)


@npf('add.accumulate', 'array')
def np_add_accumulate(I, array):
    return np_cumsum(I, [array], {'axis': 0})


def close_term(a, b, rtol, atol):
    x, y = term(a), term(b)
    if x.op == 'nan' or y.op == 'nan':
        return tm.FALSE
    if x.op == 'inf' or y.op == 'inf':
        return tm.TRUE if x is y else tm.FALSE
    d = tm.abs_(tm.sub(x, y))
    return tm.not_(tm.gt0(tm.sub(d, tm.add(term(atol), tm.mul(term(rtol), tm.abs_(y))))))


@npf('isclose', 'a b rtol=1e-05 atol=1e-08 equal_nan=False')
def np_isclose(I, a, b, rtol, atol, equal_nan):
    rtol = 1e-5 if rtol is None else rtol
    atol = 1e-8 if atol is None else atol
    return ufunc2(I, a, b, lambda p, q: S(I.simp(close_term(p, q, rtol, atol)), 'b'), B1)


@npf('allclose', 'a b rtol=1e-05 atol=1e-08 equal_nan=False')
def np_allclose(I, a, b, rtol, atol, equal_nan):
    r = np_isclose(I, [a, b, rtol, atol, equal_nan], {})
    return num.sb(I.truth(np_all(I, [r], {})))


@npf('array_equal', 'a1 a2 equal_nan=False')
def np_array_equal(I, a1, a2, equal_nan):
    x, _ = O(I, a1)
    y, _ = O(I, a2)
    if x.shape != y.shape:
        return False
    return num.sb(tm.and_(*[I.equal(p, q) for p, q in zip(x.ravel(), y.ravel())]))


@npf('array_equiv', 'a1 a2')
def np_array_equiv(I, a1, a2):
    raise Unsupported('array_equiv')


# --- construction -------------------------------------------------------------------

def make(I, object, dtype, copy, ndmin=0, keep_matrix=False):
    dt = NPI.dtype_of(I, dtype)
    v = object
    if isinstance(v, OpaqueV):
        raise OpaqueArg()
    if I.is_arr(v):
        c = I.content(v)
        if not copy and (dt is None or dt == c.dtype) and ndmin <= c.idx.ndim:
            if c.matrix and not keep_matrix:
                return NPI.view(I, v, c.idx, matrix=False)
            return v
        o, d = O(I, v, dt)
        r = NPI.new(I, o, d)
    else:
        if isinstance(v, (FlatV,)):
            v = NPI.ravel_view(I, v.ref)
        o, d = O(I, v, dt)
        if d.kind == 'U' and dt is not None and kind_ty(dt):
            d = dt
        r = NPI.new(I, o, d)
    if ndmin > I.content(r).idx.ndim:
        c = I.content(r)
        r = NPI.view(I, r, c.idx.reshape((1,) * (ndmin - c.idx.ndim) + c.shape))
    return r


@npf('array', 'object dtype=None copy=True order=None subok=False ndmin=0')
def np_array(I, object, dtype, copy, order, subok, ndmin):
    return make(I, object, dtype, copy is not False and copy is not None, ndmin)


@npf('asarray asfarray require', 'a dtype=None order=None copy=None')
def np_asarray(I, a, dtype, order, copy):
    return make(I, a, dtype, copy is True)


def packed(name, order):
    @npf(name, 'a dtype=None')
    def f(I, a, dtype):
        r = make(I, a, dtype, False, 1)
        idx = I.content(r).idx
        flat = idx.ravel(order=order)
        whole = flat.size < 2 or bool((np.diff(flat) == 1).all())
        return r if whole else make(I, r, None, True, 0)
    return f


packed('ascontiguousarray', 'C')
packed('asfortranarray', 'F')


@npf('asanyarray', 'a dtype=None')
def np_asanyarray(I, a, dtype):
    return make(I, a, dtype, False, 0, True)


@npf('copy', 'a order=None subok=False')
def np_copy(I, a, order, subok):
    return make(I, a, None, True)


@npf('matrix asmatrix mat', 'data dtype=None copy=True')
def np_matrix(I, data, dtype, copy):
    r = make(I, data, dtype, True)
    c = I.content(r)
    if c.idx.ndim > 2:
        I.raise_('ValueError', 'matrix must be 2-dimensional')
    idx = c.idx if c.idx.ndim == 2 else c.idx.reshape(1, -1)
    return NPI.view(I, r, idx, matrix=True)


@npf('fromiter', 'iter dtype count=-1')
def np_fromiter(I, iter, dtype, count):
    return make(I, I.new(ListC(I.iterate(iter))), dtype, True)


def filled(I, shape, x, dtype, default=F8):
    dt = NPI.dtype_of(I, dtype) or default
    s = shape_arg(I, [shape])
    if any(n < 0 for n in s):
        I.raise_('ValueError', 'negative dimensions are not allowed')
    n = 1
    for q in s:
        n *= q
    return NPI.new(I, obarr([x] * n, s), dt)


@npf('zeros', 'shape dtype=None order=None')
def np_zeros(I, shape, dtype, order):
    return filled(I, shape, 0, dtype)


@npf('ones', 'shape dtype=None order=None')
def np_ones(I, shape, dtype, order):
    return filled(I, shape, 1, dtype)


@npf('full', 'shape fill_value dtype=None')
def np_full(I, shape, fill_value, dtype):
    if not is_num(fill_value):
        raise Unsupported('np.full')
    return filled(I, shape, fill_value, dtype, {'f': F8, 'i': I8, 'b': B1}[ty_of(fill_value)])


_uninit = [0]


@npf('empty ndarray', 'shape dtype=None order=None')
def np_empty(I, shape, dtype, order):
    s = shape_arg(I, [shape])
    dt = NPI.dtype_of(I, dtype) or F8
    n = 1
    for q in s:
        n *= q
    items = []
    for i in range(n):
        _uninit[0] += 1
        items.append(Sym(tm.app('uninitialised', tm.const(_uninit[0])), 'f', True))
    if dt.kind not in 'fiu':
        items = [Sym(tm.bapp('uninitialised', tm.const(i)), 'b', True) for i in range(n)]
    return NPI.new(I, obarr(items, s), dt)


def like(f):
    def h(I, a, dtype, shape):
        o, d = O(I, a)
        return f(I, [shape if shape is not None else o.shape], {'dtype': dtype if dtype is not None else d})
    return h


npf('zeros_like', 'a dtype=None shape=None')(like(np_zeros))
npf('ones_like', 'a dtype=None shape=None')(like(np_ones))
npf('empty_like', 'a dtype=None shape=None')(like(np_empty))


@npf('full_like', 'a fill_value dtype=None')
def np_full_like(I, a, fill_value, dtype):
    o, d = O(I, a)
    return np_full(I, [o.shape, fill_value, dtype if dtype is not None else d], {})


@npf('eye', 'N M=None k=0 dtype=None')
def np_eye(I, N, M, k, dtype):
    n = I.as_index(N)
    m = n if M is None else I.as_index(M)
    return NPI.new(I, np.eye(n, m, I.as_index(k)).astype(int).astype(object), NPI.dtype_of(I, dtype) or F8)


@npf('identity', 'n dtype=None')
def np_identity(I, n, dtype):
    return np_eye(I, [n], {'dtype': dtype})


@npf('arange', 'start stop=None step=1 dtype=None')
def np_arange(I, start, stop, step, dtype):
    if stop is None:
        start, stop = 0, start
    dt = NPI.dtype_of(I, dtype)
    if all(ty_of(x) != 'f' for x in (start, stop, step)):
        r = range(I.as_index(start), I.as_index(stop), I.as_index(step))
        return NPI.new(I, obarr(list(r), (len(r),)), dt or I8)
    n = [num.native(x) for x in (start, stop, step)]
    if any(x is None for x in n):
        # The count must be known; the values may be symbolic.
        cnt = num.native(Sym(tm.fn('ceil', tm.div(tm.sub(term(stop), term(start)), term(step)))))
        if cnt is None:
            raise Unsupported('np.arange with an undecided length')
        items = [num.arith('+', start, num.arith('*', i, step)) for i in range(max(0, int(cnt)))]
    else:
        items = list(np.arange(*n).tolist())
    return NPI.new(I, obarr(items, (len(items),)), dt or F8)


@npf('linspace', 'start stop num=50 endpoint=True retstep=False dtype=None axis=0')
def np_linspace(I, start, stop, num, endpoint, retstep, dtype, axis):
    from . import num as nm
    n = I.as_index(num)
    if n is None:
        I.raise_('TypeError', 'object cannot be interpreted as an integer')
    if n < 0:
        I.raise_('ValueError', 'Number of samples must be non-negative')
    x, _ = O(I, start)
    y, _ = O(I, stop)
    div = n - 1 if I.decide(I.truth(endpoint)) else n
    rows = []
    for i in range(n):
        rows.append(NPI.emap(I, lambda p, q: nm.arith('+', p, nm.arith('*', nm.arith('-', q, p), Sym(tm.const(tm.Fr(i, div)) if div else tm.ZERO, 'f', True))), x, y))
    shape = np.broadcast(x, y).shape
    o = ob((n,) + shape)
    for i in range(n):
        o[i] = rows[i] if shape else rows[i][()]
    return NPI.new(I, o, F8)


@npf('diag', 'v k=0')
def np_diag(I, v, k):
    o, dt = O(I, v)
    k = I.as_index(k)
    if o.ndim == 1:
        n = len(o) + abs(k)
        out = ob((n, n))
        out[...] = Sym(tm.FALSE if dt.kind == 'b' else tm.ZERO, kind_ty(dt) or 'f', True)
        for i in range(len(o)):
            out[i + max(0, -k), i + max(0, k)] = o[i]
        return NPI.new(I, out, dt)
    if o.ndim == 2 and I.is_arr(v):
        return NPI.view(I, v, np.diagonal(I.content(v).idx, k), ro=True)
    return NPI.new(I, guard(I, np.diagonal, o, k).copy(), dt)


@npf('diagonal', 'a offset=0 axis1=0 axis2=1', meth='diagonal')
def np_diagonal(I, a, offset, axis1, axis2):
    if I.is_arr(a):
        return NPI.view(I, a, guard(I, np.diagonal, I.content(a).idx, offset, axis1, axis2), ro=True)
    o, dt = O(I, a)
    return NPI.new(I, guard(I, np.diagonal, o, offset, axis1, axis2).copy(), dt)


@npf('trace', 'a offset=0', meth='trace')
def np_trace(I, a, offset):
    return np_sum(I, [np_diagonal(I, [a, offset], {})], {})


@npf('tril', 'm k=0')
def np_tril(I, m, k):
    o, dt = O(I, m)
    return NPI.new(I, obarr([o[i, j] if j - i <= k else 0 for i in range(o.shape[0]) for j in range(o.shape[1])], o.shape), dt)


@npf('triu', 'm k=0')
def np_triu(I, m, k):
    o, dt = O(I, m)
    return NPI.new(I, obarr([o[i, j] if j - i >= k else 0 for i in range(o.shape[0]) for j in range(o.shape[1])], o.shape), dt)


# --- joining -------------------------------------------------------------------------

def join(name):
    real = getattr(np, name)

    def h(I, arrs, **kw):
        items = I.iterate(arrs) if not I.is_arr(arrs) else NPI.iterate(I, arrs)
        os, dts = [], []
        m = False
        for x in items:
            o, d = O(I, x)
            os.append(o)
            dts.append(d)
            m = m or mat(I, x)
        if not os:
            I.raise_('ValueError', 'need at least one array to concatenate')
        kw = {q: (I.as_index(v) if v is not None else None) for q, v in kw.items()}
        r = guard(I, real, os, **kw)
        dt = guard(I, np.result_type, *dts)
        return NPI.new(I, r, dt, m)
    return h


for _n in ('vstack', 'hstack', 'dstack', 'column_stack'):
    npf(_n + (' row_stack' if _n == 'vstack' else ''), 'tup')((lambda h: lambda I, tup: h(I, tup))(join(_n)))
npf('concatenate concat', 'arrays axis=0')((lambda h: lambda I, arrays, axis: h(I, arrays, axis=axis))(join('concatenate')))
npf('stack', 'arrays axis=0')((lambda h: lambda I, arrays, axis: h(I, arrays, axis=axis))(join('stack')))


@npf('append', 'arr values axis=None')
def np_append(I, arr, values, axis):
    x, dx = O(I, arr)
    y, dy = O(I, values)
    r = guard(I, np.append, x, y, axis=None if axis is None else I.as_index(axis))
    return NPI.new(I, r, np.result_type(dx, dy))


def native_index(I, v):
    '''A native int, slice or int/bool array for an index argument.'''
    v = I.force(v)
    if isinstance(v, slice):
        return I.native_slice(v)
    if is_num(v):
        i = I.as_index(v)
        if i is None:
            I.raise_('IndexError', 'arrays used as indices must be of integer (or boolean) type')
        return i
    o, dt = O(I, v)
    if dt.kind == 'b':
        return np.array([bool(I.decide(I.truth(e))) for e in o.ravel()], dtype=bool).reshape(o.shape)
    return np.array([I.as_index(e) for e in o.ravel()], dtype=int).reshape(o.shape)


@npf('delete', 'arr obj axis=None')
def np_delete(I, arr, obj, axis):
    x, dx = O(I, arr)
    r = guard(I, np.delete, x, native_index(I, obj), axis=None if axis is None else I.as_index(axis))
    return NPI.new(I, r, dx)


@npf('insert', 'arr obj values axis=None')
def np_insert(I, arr, obj, values, axis):
    x, dx = O(I, arr)
    y, _ = O(I, values)
    r = guard(I, np.insert, x, native_index(I, obj), y, axis=None if axis is None else I.as_index(axis))
    return NPI.new(I, r, dx)


@npf('repeat', 'a repeats axis=None', meth='repeat')
def np_repeat(I, a, repeats, axis):
    x, dx = O(I, a)
    r = guard(I, np.repeat, x, native_index(I, repeats), axis=None if axis is None else I.as_index(axis))
    return NPI.new(I, r, dx)


@npf('tile', 'A reps')
def np_tile(I, A, reps):
    x, dx = O(I, A)
    return NPI.new(I, guard(I, np.tile, x, shape_arg(I, [reps])), dx)


@npf('take', 'a indices axis=None', meth='take')
def np_take(I, a, indices, axis):
    x, dx = O(I, a)
    r = guard(I, np.take, x, native_index(I, indices), axis=None if axis is None else I.as_index(axis))
    return NPI.out(I, r, dx)


@npf('roll', 'a shift axis=None')
def np_roll(I, a, shift, axis):
    x, dx = O(I, a)
    s = shape_arg(I, [shift]) if not is_num(shift) else I.as_index(shift)
    return NPI.new(I, guard(I, np.roll, x, s, axis=None if axis is None else I.as_index(axis)), dx)


@npf('pad', 'array pad_width mode=None constant_values=0')
def np_pad(I, array, pad_width, mode, constant_values):
    if mode not in (None, 'constant'):
        raise Unsupported('np.pad mode %s' % mode)
    x, dx = O(I, array)
    w, _ = O(I, pad_width)
    w = np.array([I.as_index(e) for e in w.ravel()]).reshape(w.shape)
    pos = np.arange(x.size).reshape(x.shape)
    p = guard(I, np.pad, pos, w, mode='constant', constant_values=-1)
    if not is_num(constant_values):
        raise Unsupported('np.pad constant_values')
    flat = x.ravel()
    cv = NPI.cast(I, constant_values, dx)
    return NPI.new(I, obarr([cv if i < 0 else flat[i] for i in p.ravel()], p.shape), dx)


@npf('r_.__getitem__', 'key')
def np_r_(I, key):
    items = key if isinstance(key, tuple) else (key,)
    out = []
    for x in items:
        x = I.force(x)
        if isinstance(x, slice):
            s = I.native_slice(x)
            out.append(call(I, 'numpy.arange', [s.start or 0, s.stop, s.step or 1]))
        elif isinstance(x, str):
            raise Unsupported('np.r_ directive')
        else:
            out.append(np_atleast(1)(I, [x], {}))
    return call(I, 'numpy.concatenate', [tuple(out)])


@npf('c_.__getitem__', 'key')
def np_c_(I, key):
    items = key if isinstance(key, tuple) else (key,)
    out = []
    for x in items:
        x = I.force(x)
        if isinstance(x, (slice, str)):
            raise Unsupported('np.c_')
        o, dt = O(I, x)
        out.append(NPI.new(I, o.reshape(-1, 1) if o.ndim < 2 else o, dt))
    return call(I, 'numpy.concatenate', [tuple(out), -1])


@npf('split array_split', 'ary indices_or_sections axis=0')
def np_split(I, ary, indices_or_sections, axis):
    c = I.content(make(I, ary, None, False))
    ref = make(I, ary, None, False)
    sec = indices_or_sections
    sec = I.as_index(sec) if is_num(sec) else [I.as_index(x) for x in I.iterate(sec)]
    parts = guard(I, np.split, c.idx, sec, axis=I.as_index(axis))
    return I.new(ListC([NPI.view(I, ref, p) for p in parts]))


# --- shape -----------------------------------------------------------------------------

def viewed(I, v, f):
    '''Apply a structural function to the window of an array: a view when numpy makes one.'''
    r = make(I, v, None, False, 0, True)
    c = I.content(r)
    idx = guard(I, f, c.idx)
    if idx.size == 0 or np.shares_memory(idx, c.idx):
        return NPI.view(I, r, idx)
    data = I.content(c.buf).data
    o = ob(idx.shape)
    o[...] = data[idx]
    return NPI.new(I, o, c.dtype, c.matrix)


@npf('reshape', 'a newshape order=None copy=None')
def np_reshape(I, a, newshape, order, copy):
    if order not in (None, 'C'):
        o = order
        return viewed(I, a, lambda i: i.reshape(shape_arg(I, [newshape]), order=o))
    s = shape_arg(I, [newshape])
    return viewed(I, a, lambda i: i.reshape(s))


def m_reshape(I, a, k):
    order = k.get('order', 'C')
    s = shape_arg(I, a[1:])
    if not isinstance(order, str):
        raise Unsupported('reshape order')
    return viewed(I, a[0], lambda i: i.reshape(s, order=order))


ARRAY_METHODS['reshape'] = m_reshape


@npf('ravel', 'a order=None', meth='ravel')
def np_ravel(I, a, order):
    o = order or 'C'
    return viewed(I, a, lambda i: i.ravel(order=o))


def m_flatten(I, a, k):
    order = a[1] if len(a) > 1 else k.get('order', 'C')
    o, dt = NPI.get(I, a[0])
    return NPI.new(I, o.flatten(order=order), dt)


ARRAY_METHODS['flatten'] = m_flatten


@npf('transpose permute_dims', 'a axes=None')
def np_transpose(I, a, axes):
    ax = None if axes is None else shape_arg(I, [axes])
    return viewed(I, a, lambda i: i.transpose(ax))


def m_transpose(I, a, k):
    ax = shape_arg(I, a[1:]) if len(a) > 1 and a[1] is not None else None
    return viewed(I, a[0], lambda i: i.transpose(ax))


ARRAY_METHODS['transpose'] = m_transpose


@npf('swapaxes', 'a axis1 axis2', meth='swapaxes')
def np_swapaxes(I, a, axis1, axis2):
    return viewed(I, a, lambda i: i.swapaxes(I.as_index(axis1), I.as_index(axis2)))


@npf('moveaxis', 'a source destination')
def np_moveaxis(I, a, source, destination):
    return viewed(I, a, lambda i: np.moveaxis(i, I.as_index(source), I.as_index(destination)))


@npf('rollaxis', 'a axis start=0')
def np_rollaxis(I, a, axis, start):
    return viewed(I, a, lambda i: np.rollaxis(i, I.as_index(axis), I.as_index(start)))


@npf('squeeze', 'a axis=None', meth='squeeze')
def np_squeeze(I, a, axis):
    ax = None if axis is None else (I.as_index(axis) if is_num(axis) else shape_arg(I, [axis]))
    r = viewed(I, a, lambda i: i.squeeze(ax))
    return r


@npf('expand_dims', 'a axis')
def np_expand_dims(I, a, axis):
    return viewed(I, a, lambda i: np.expand_dims(i, I.as_index(axis) if is_num(axis) else shape_arg(I, [axis])))


def np_atleast(n):
    f = {1: np.atleast_1d, 2: np.atleast_2d, 3: np.atleast_3d}[n]

    def g(I, a, k):
        if any(isinstance(x, OpaqueV) for x in a):
            return I.opaque_call('numpy.atleast_%dd' % n, a, k)
        r = [viewed(I, x, f) for x in a]
        return r[0] if len(r) == 1 else tuple(r)
    return g


for _k in (1, 2, 3):
    TABLE['numpy.atleast_%dd' % _k] = np_atleast(_k)


@npf('flipud', 'm')
def np_flipud(I, m):
    return viewed(I, m, np.flipud)


@npf('fliplr', 'm')
def np_fliplr(I, m):
    return viewed(I, m, np.fliplr)


@npf('flip', 'm axis=None')
def np_flip(I, m, axis):
    return viewed(I, m, lambda i: np.flip(i, None if axis is None else I.as_index(axis)))


@npf('rot90', 'm k=1')
def np_rot90(I, m, k):
    return viewed(I, m, lambda i: np.rot90(i, k))


@npf('broadcast_to', 'array shape')
def np_broadcast_to(I, array, shape):
    r = make(I, array, None, False)
    c = I.content(r)
    return NPI.view(I, r, guard(I, np.broadcast_to, c.idx, shape_arg(I, [shape])), ro=True)


def np_broadcast_arrays(I, a, k):
    rs = [make(I, x, None, False) for x in a]
    shape = guard(I, np.broadcast_shapes, *[I.content(r).shape for r in rs])
    return tuple(NPI.view(I, r, np.broadcast_to(I.content(r).idx, shape)) for r in rs)


TABLE['numpy.broadcast_arrays'] = np_broadcast_arrays


@npf('shape', 'a')
def np_shape(I, a):
    return tuple(O(I, a)[0].shape)


@npf('ndim', 'a')
def np_ndim(I, a):
    return O(I, a)[0].ndim


@npf('size', 'a axis=None')
def np_size(I, a, axis):
    o = O(I, a)[0]
    return int(o.size) if axis is None else o.shape[I.as_index(axis)]


# --- selection ---------------------------------------------------------------------------

@npf('where', 'condition x=None y=None')
def np_where(I, condition, x, y):
    if x is None and y is None:
        return np_nonzero(I, [condition], {})
    c, _ = O(I, condition)
    p, dp, wp = NPI.operand(I, x)
    q, dq, wq = NPI.operand(I, y)
    dt = NPI.result([(p, dp, wp), (q, dq, wq)])
    return NPI.out(I, NPI.emap(I, lambda a, b, d: (num.choose(I.truth(a), b, d) if is_num(b) and is_num(d) else I.gate(I.truth(a), b, d)), c, p, q), dt)


@npf('nonzero', 'a', meth='nonzero')
def np_nonzero(I, a):
    o, _ = O(I, a)
    if o.ndim == 0:
        I.raise_('ValueError', 'Calling nonzero on 0d arrays is not allowed.')
    m = np.array([bool(I.decide(I.truth(e))) for e in o.ravel()], dtype=bool).reshape(o.shape)
    return tuple(NPI.new(I, r.astype(object), I8) for r in m.nonzero())


@npf('flatnonzero', 'a')
def np_flatnonzero(I, a):
    o, _ = O(I, a)
    m = [i for i, e in enumerate(o.ravel()) if I.decide(I.truth(e))]
    return NPI.new(I, obarr(m, (len(m),)), I8)


@npf('argwhere', 'a')
def np_argwhere(I, a):
    return np_transpose(I, [call(I, 'numpy.vstack', [np_nonzero(I, [a], {})])], {})


@npf('compress', 'condition a axis=None')
def np_compress(I, condition, a, axis):
    o, dt = O(I, a)
    return NPI.new(I, guard(I, np.compress, native_index(I, condition), o, axis=None if axis is None else I.as_index(axis)), dt)


@npf('select', 'condlist choicelist default=0')
def np_select(I, condlist, choicelist, default):
    r = default
    for c, v in reversed(list(zip(I.iterate(condlist), I.iterate(choicelist)))):
        r = np_where(I, [c, v, r], {})
    return r


@npf('isin in1d', 'element test_elements assume_unique=False invert=False')
def np_isin(I, element, test_elements, assume_unique, invert):
    o, _ = O(I, element)
    t, _ = O(I, test_elements)

    def f(e):
        r = tm.or_(*[I.equal(e, x) for x in t.ravel()])
        return S(tm.not_(r) if invert else r, 'b')
    return NPI.out(I, NPI.emap(I, f, o), B1)


def order_of(I, xs):
    '''Indices that sort xs (stable), with comparisons decided by the facts of the path.'''
    ids = list(range(len(xs)))
    out = []
    for i in ids:
        j = len(out)
        while j > 0 and I.decide(I.truth(Sym(num.cmp('<', xs[i], xs[out[j - 1]]), 'b'))):
            j -= 1
        out.insert(j, i)
    return out


@npf('argsort', 'a axis=-1 kind=None', meth='argsort')
def np_argsort(I, a, axis, kind):
    o, _ = O(I, a)
    if o.ndim != 1:
        raise Unsupported('argsort of a 2-d array')
    r = order_of(I, list(o))
    return NPI.new(I, obarr(r, (len(r),)), I8)


@npf('sort', 'a axis=-1 kind=None')
def np_sort(I, a, axis, kind):
    o, dt = O(I, a)
    out = ob(o.shape)
    ax = norm_axis(I, axis, o.ndim)
    src = np.moveaxis(o, ax, -1)
    dst = np.moveaxis(out, ax, -1)
    for i in np.ndindex(*src.shape[:-1]):
        xs = list(src[i])
        for j, q in enumerate(order_of(I, xs)):
            dst[i + (j,)] = xs[q]
    return NPI.new(I, out, dt)


def m_sort(I, a, k):
    r = np_sort(I, a, k)
    NPI.setitem(I, a[0], Ellipsis, r)


ARRAY_METHODS['sort'] = m_sort


@npf('unique', 'ar return_index=False return_inverse=False return_counts=False axis=None')
def np_unique(I, ar, return_index, return_inverse, return_counts, axis):
    if return_index or return_inverse or return_counts or axis is not None:
        raise Unsupported('np.unique options')
    o, dt = O(I, ar)
    xs = list(o.ravel())
    out = []
    for i in order_of(I, xs):
        if not out or not I.decide(I.equal(out[-1], xs[i])):
            out.append(xs[i])
    return NPI.new(I, obarr(out, (len(out),)), dt)


@npf('diff', 'a n=1 axis=-1')
def np_diff(I, a, n, axis):
    o, dt = O(I, a)
    if n != 1:
        raise Unsupported('np.diff n')
    ax = norm_axis(I, axis, o.ndim)
    s = np.moveaxis(o, ax, 0)
    r = NPI.emap(I, lambda p, q: num.arith('-', p, q), s[1:], s[:-1])
    return NPI.new(I, np.moveaxis(r, 0, ax), dt)


@npf('gradient', 'f x=None')
def np_gradient(I, f, x):
    o, _ = O(I, f)
    if o.ndim != 1:
        raise Unsupported('np.gradient')
    n = len(o)
    if n < 2:
        I.raise_('ValueError', 'Shape of array too small to calculate a numerical gradient')
    ar = num.arith
    out = ob(n)
    if x is None or is_num(x):
        h = 1.0 if x is None else x
        hs = [h] * (n - 1)
    else:
        p, _ = O(I, x)
        if p.shape != (n,):
            if p.shape == ():
                hs = [p[()]] * (n - 1)
            else:
                I.raise_('ValueError', 'when 1d, distances must match the length of the corresponding dimension')
        else:
            hs = [ar('-', p[i + 1], p[i]) for i in range(n - 1)]
    out[0] = ar('/', ar('-', o[1], o[0]), hs[0])
    out[n - 1] = ar('/', ar('-', o[n - 1], o[n - 2]), hs[n - 2])
    for i in range(1, n - 1):
        d1, d2 = hs[i - 1], hs[i]
        a_ = ar('/', ar('-', 0, d2), ar('*', d1, ar('+', d1, d2)))
        b_ = ar('/', ar('-', d2, d1), ar('*', d1, d2))
        c_ = ar('/', d1, ar('*', d2, ar('+', d1, d2)))
        out[i] = ar('+', ar('+', ar('*', a_, o[i - 1]), ar('*', b_, o[i])), ar('*', c_, o[i + 1]))
    return NPI.new(I, out, F8)


# --- linear algebra --------------------------------------------------------------------------

@npf('dot', 'a b out=None', meth='dot')
def np_dot(I, a, b, out):
    m = mat(I, a) or mat(I, b)
    return with_out(I, out, NPI.matmul(I, a, b, m, dot=True))


@npf('matmul', 'x1 x2')
def np_matmul(I, x1, x2):
    return NPI.matmul(I, x1, x2, mat(I, x1) or mat(I, x2))


@npf('inner', 'a b')
def np_inner(I, a, b):
    y, dy = O(I, b)
    if y.ndim > 1:
        return NPI.matmul(I, a, NPI.new(I, np.moveaxis(y, -1, -2), dy), dot=True)
    return NPI.matmul(I, a, b, dot=True)


@npf('vdot', 'a b')
def np_vdot(I, a, b):
    return NPI.matmul(I, np_ravel(I, [a], {}), np_ravel(I, [b], {}), dot=True)


@npf('outer', 'a b')
def np_outer(I, a, b):
    x, dx = O(I, a)
    y, dy = O(I, b)
    return NPI.new(I, NPI.emap(I, lambda p, q: num.arith('*', p, q), x.reshape(-1, 1), y.reshape(1, -1)), np.result_type(dx, dy))


@npf('tensordot', 'a b axes=2')
def np_tensordot(I, a, b, axes):
    x, dx = O(I, a)
    y, dy = O(I, b)
    if is_num(axes):
        n = I.as_index(axes)
        ax, bx = list(range(x.ndim - n, x.ndim)), list(range(n))
    else:
        p = I.iterate(axes)
        ax = [I.as_index(q) for q in (I.iterate(p[0]) if not is_num(p[0]) else [p[0]])]
        bx = [I.as_index(q) for q in (I.iterate(p[1]) if not is_num(p[1]) else [p[1]])]
    ax = [q % x.ndim for q in ax]
    bx = [q % y.ndim for q in bx]
    fa = [i for i in range(x.ndim) if i not in ax]
    fb = [i for i in range(y.ndim) if i not in bx]
    if [x.shape[i] for i in ax] != [y.shape[i] for i in bx]:
        I.raise_('ValueError', 'shape-mismatch for sum')
    xt = np.transpose(x, fa + ax).reshape([x.shape[i] for i in fa] + [-1])
    yt = np.transpose(y, fb + bx).reshape([y.shape[i] for i in fb] + [-1])
    out = ob(tuple(x.shape[i] for i in fa) + tuple(y.shape[i] for i in fb))
    for i in np.ndindex(*xt.shape[:-1]):
        for j in np.ndindex(*yt.shape[:-1]):
            out[i + j] = NPI.dot_sum(I, xt[i], yt[j])
    return NPI.out(I, out, np.result_type(dx, dy))


def np_einsum(I, a, k):
    spec = a[0]
    if not isinstance(spec, str) or any(q not in ('optimize',) for q in k):
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    if any(isinstance(x, OpaqueV) for x in a[1:]):
        return I.opaque_call('numpy.einsum', a, k)
    os = [O(I, x) for x in a[1:]]
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '...' in spec:
        free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in spec]
        n = max([o.ndim - len(s.replace('...', '')) for s, (o, _) in zip(ins, os) if '...' in s] or [0])
        new = []
        for s, (o, _) in zip(ins, os):
            if '...' in s:
                m = o.ndim - len(s.replace('...', ''))
                s = s.replace('...', ''.join(free[n - m:n]))
            new.append(s)
        ins = new
        if '->' in spec:
            out = out.replace('...', ''.join(free[:n]))
        else:
            raise Unsupported('implicit einsum with ellipsis')
    if '->' not in spec:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    if len(ins) != len(os):
        I.raise_('ValueError', 'einsum: more operands than subscripts')
    dims = {}
    for s, (o, _) in zip(ins, os):
        if len(s) != o.ndim:
            I.raise_('ValueError', 'einstein sum subscripts string contains too many subscripts for operand')
        for c, n in zip(s, o.shape):
            if dims.get(c, n) != n and 1 not in (dims[c], n):
                I.raise_('ValueError', 'operands could not be broadcast together with remapped shapes')
            dims[c] = max(dims.get(c, n), n)
    for c in out:
        if c not in dims:
            I.raise_('ValueError', 'einstein sum subscripts string included output subscript which never appeared in an input')
    summed = [c for c in dims if c not in out]
    res = ob(tuple(dims[c] for c in out))
    dt = np.result_type(*[d for _, d in os])
    for i in np.ndindex(*res.shape):
        env = dict(zip(out, i))
        terms = []
        for j in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, j))
            p = None
            for s, (o, _) in zip(ins, os):
                x = o[tuple(env[c] if o.shape[q] > 1 else 0 for q, c in enumerate(s))]
                p = x if p is None else num.arith('*', p, x)
            terms.append(p)
        res[i] = _sumf(terms) if terms else Sym(tm.ZERO, 'f', True)
    return NPI.out(I, res, dt)


TABLE['numpy.einsum'] = np_einsum


@npf('cross linalg.cross', 'a b axisa=-1 axisb=-1 axisc=-1 axis=None')
def np_cross(I, a, b, axisa, axisb, axisc, axis):
    x, dx = O(I, a)
    y, dy = O(I, b)
    if axis is not None:
        axisa = axisb = axisc = I.as_index(axis)
    if x.ndim == 0 or y.ndim == 0:
        I.raise_('ValueError', 'At least one array has zero dimension')
    x = guard(I, np.moveaxis, x, axisa, -1)
    y = guard(I, np.moveaxis, y, axisb, -1)
    if x.shape[-1] not in (2, 3) or y.shape[-1] not in (2, 3):
        I.raise_('ValueError', 'incompatible dimensions for cross product (dimension must be 2 or 3)')
    if x.shape[-1] == 2 and y.shape[-1] == 2:
        pass
    lead = guard(I, np.broadcast_shapes, x.shape[:-1], y.shape[:-1])
    zero = Sym(tm.ZERO, 'i', True)

    def parts(o):
        o = np.broadcast_to(o, lead + o.shape[-1:])
        p = [o[..., i] for i in range(o.shape[-1])]
        if len(p) == 2:
            z = ob(lead)
            z[...] = zero
            p.append(z)
        return [q if isinstance(q, np.ndarray) else obarr([q], ()) for q in p]
    p, q = parts(x), parts(y)
    mul = lambda m, n: NPI.emap(I, lambda s, t: num.arith('*', s, t), m, n)
    sub = lambda m, n: NPI.emap(I, lambda s, t: num.arith('-', s, t), m, n)
    dt = np.result_type(dx, dy)
    c2 = sub(mul(p[0], q[1]), mul(p[1], q[0]))
    if x.shape[-1] == 2 and y.shape[-1] == 2:
        return NPI.out(I, c2, dt)
    c0 = sub(mul(p[1], q[2]), mul(p[2], q[1]))
    c1 = sub(mul(p[2], q[0]), mul(p[0], q[2]))
    out = ob(lead + (3,))
    for i, c in enumerate((c0, c1, c2)):
        if lead == ():
            out[i] = c[()] if isinstance(c, np.ndarray) else c
        else:
            out[..., i] = c
    return NPI.new(I, np.moveaxis(out, -1, axisc), dt)


def norm_of(xs, ord_):
    if ord_ in (None, 2, 'fro'):
        return S(tm.sqrt(tm.add(*[tm.mul(term(x), term(x)) for x in xs])) if xs else tm.ZERO)
    if ord_ == 1:
        return S(tm.add(*[tm.abs_(term(x)) for x in xs]))
    if ord_ == float('inf'):
        return S(term(num.minmax([S(tm.abs_(term(x))) for x in xs], True)))
    if ord_ == float('-inf'):
        return S(term(num.minmax([S(tm.abs_(term(x))) for x in xs], False)))
    raise Unsupported('norm ord')


@npf('linalg.norm', 'x ord=None axis=None keepdims=False')
def np_norm(I, x, ord, axis, keepdims):
    o, dt = O(I, x)
    if isinstance(ord, Sym):
        raise Unsupported('norm ord')
    if axis is None and o.ndim == 2 and ord not in (None, 'fro'):
        raise Unsupported('matrix norm')
    if isinstance(axis, tuple) and ord is not None:
        raise Unsupported('matrix norm')
    return reduce_(I, x, axis, lambda xs: norm_of(xs, ord), F8, keepdims, 0.0)


TABLE['scipy.linalg.norm'] = TABLE['numpy.linalg.norm']


@npf('linalg.vector_norm', 'x axis=None keepdims=False ord=2')
def np_vnorm(I, x, axis, keepdims, ord):
    return np_norm(I, [x, None if ord == 2 else ord, axis, keepdims], {})


def det_terms(m):
    n = len(m)
    if n == 0:
        return tm.ONE
    if n == 1:
        return m[0][0]
    if n == 2:
        return tm.sub(tm.mul(m[0][0], m[1][1]), tm.mul(m[0][1], m[1][0]))
    out = []
    for j in range(n):
        if m[0][j] is tm.ZERO:
            continue
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        t = tm.mul(m[0][j], det_terms(minor))
        out.append(t if j % 2 == 0 else tm.neg(t))
    return tm.add(*out) if out else tm.ZERO


def square(I, a, what):
    o, dt = O(I, a)
    if o.ndim < 2:
        I.raise_('LinAlgError', '%d-dimensional array given. Array must be at least two-dimensional' % o.ndim)
    if o.shape[-1] != o.shape[-2]:
        I.raise_('LinAlgError', 'Last 2 dimensions of the array must be square')
    if o.ndim > 2 or o.shape[0] > 4:
        raise Unsupported('%s of a large or stacked matrix' % what)
    return [[term(x) for x in r] for r in o]


@npf('linalg.det', 'a')
def np_det(I, a):
    return S(det_terms(square(I, a, 'det')))


TABLE['scipy.linalg.det'] = TABLE['numpy.linalg.det']


def adj(m):
    n = len(m)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for q, r in enumerate(m) if q != i]
            t = det_terms(minor)
            out[j][i] = t if (i + j) % 2 == 0 else tm.neg(t)
    return out


def nonsingular(I, d):
    if I.decide(tm.eq0(d)):
        I.raise_('LinAlgError', 'Singular matrix')


@npf('linalg.inv', 'a')
def np_inv(I, a):
    m = square(I, a, 'inv')
    d = det_terms(m)
    nonsingular(I, d)
    r = [[tm.div(x, d) for x in row] for row in adj(m)]
    n = len(m)
    return NPI.new(I, obarr([S(x) for row in r for x in row], (n, n)), F8, mat(I, a))


TABLE['scipy.linalg.inv'] = TABLE['numpy.linalg.inv']


@npf('linalg.solve', 'a b')
def np_solve(I, a, b):
    m = square(I, a, 'solve')
    y, _ = O(I, b)
    if y.shape[0] != len(m):
        I.raise_('ValueError', 'solve: Input operand 1 has a mismatch in its core dimension')
    d = det_terms(m)
    nonsingular(I, d)
    ad = adj(m)
    cols = y.reshape(len(m), -1)
    out = ob(cols.shape)
    for i in range(len(m)):
        for j in range(cols.shape[1]):
            out[i, j] = S(tm.div(tm.add(*[tm.mul(ad[i][q], term(cols[q, j])) for q in range(len(m))]), d))
    return NPI.new(I, out.reshape(y.shape), F8)


def singular_values(m):
    '''Of a matrix of numbers, or None.'''
    rows = [[tm.number(x) for x in r] for r in m]
    if any(x is None for r in rows for x in r):
        return None
    return np.linalg.svd(np.array(rows, dtype=float))


def pinv_terms(I, m, rcond):
    '''The pseudo-inverse: with full rank by the normal equations, of two rows or columns with rank one as well.'''
    usv = singular_values(m)
    if usv is not None:
        u, s, vt = usv
        keep = s > rcond * s[0]
        if not all(keep):
            n = len(s)
            w = np.array([1 / x if k else 0. for x, k in zip(s, keep)])
            r = vt[:n].T.dot(np.diag(w)).dot(u[:, :n].T)
            return [[tm.const(Fraction(float(x))) for x in row] for row in r]
    rows, cols = len(m), len(m[0])

    def prod(a, b):
        return [[tm.add(*[tm.mul(a[i][k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]
    t = [[m[i][j] for i in range(rows)] for j in range(cols)]
    g = m if rows == cols else prod(t, m) if rows > cols else prod(m, t)
    if len(g) > 4:
        raise Unsupported('pinv of a large matrix')
    d = det_terms(g)
    if I.decide(tm.eq0(d)):
        if len(g) > 2:
            raise Unsupported('pinv of a singular matrix')
        f = tm.add(*[tm.mul(x, x) for r in m for x in r])
        if I.decide(tm.eq0(f)):
            return [[tm.ZERO] * rows for _ in range(cols)]
        return [[tm.div(x, f) for x in r] for r in t]
    inv = [[tm.div(x, d) for x in r] for r in adj(g)] if len(g) > 1 else [[tm.div(tm.ONE, g[0][0])]]
    return inv if rows == cols else prod(inv, t) if rows > cols else prod(t, inv)


def cutoff(I, rcond, default):
    if rcond is None:
        return default
    v = tm.number(term(rcond))
    if v is None:
        raise Unsupported('an unknown rcond')
    return default if v < 0 else v


@npf('linalg.pinv', 'a rcond=None hermitian=False rtol=None')
def np_pinv(I, a, rcond, hermitian, rtol):
    o, dt = O(I, a)
    if o.ndim < 2:
        I.raise_('LinAlgError', '%d-dimensional array given. Array must be at least two-dimensional' % o.ndim)
    if o.ndim > 2 or not o.size:
        raise Unsupported('pinv of a stack')
    r = pinv_terms(I, [[term(x) for x in q] for q in o], cutoff(I, rtol if rcond is None else rcond, 1e-15))
    return NPI.new(I, obarr([S(x) for row in r for x in row], o.shape[::-1]), F8, mat(I, a))


@npf('linalg.lstsq', 'a b rcond=None')
def np_lstsq(I, a, b, rcond):
    o, dt = O(I, a)
    y, _ = O(I, b)
    if o.ndim != 2 or y.ndim not in (1, 2) or not o.size:
        raise Unsupported('lstsq')
    if y.shape[0] != o.shape[0]:
        I.raise_('LinAlgError', 'Incompatible dimensions')
    r = pinv_terms(I, [[term(x) for x in q] for q in o], cutoff(I, rcond, 2.3e-16 * max(o.shape)))
    cols = y.reshape(o.shape[0], -1)
    out = ob((o.shape[1], cols.shape[1]))
    for i in range(o.shape[1]):
        for j in range(cols.shape[1]):
            out[i, j] = S(tm.add(*[tm.mul(r[i][q], term(cols[q, j])) for q in range(o.shape[0])]))
    rest = linalg_tuple('numpy.linalg.lstsq', 4)(I, [a, b], {})
    return (NPI.new(I, out.reshape((o.shape[1],) + y.shape[1:]), F8),) + tuple(rest[1:])


@npf('cov', 'm y=None rowvar=True bias=False ddof=None')
def np_cov(I, m, y, rowvar, bias, ddof):
    o, dt = O(I, m)
    if o.ndim != 2 or y is not None or isinstance(rowvar, Sym) or isinstance(bias, Sym) or isinstance(ddof, Sym):
        raise Unsupported('np.cov')
    if not rowvar and o.shape[0] != 1:
        o = o.T
    n = o.shape[1]
    lost = ddof if ddof is not None else (0 if bias else 1)
    if n <= lost:
        raise Unsupported('np.cov of too few')
    rows = []
    for r in o:
        mu = num.arith('/', _sumf(list(r)), n)
        rows.append([num.arith('-', x, mu) for x in r])
    k = len(rows)
    return NPI.new(I, obarr([num.arith('/', NPI.dot_sum(I, rows[i], rows[j]), n - lost) for i in range(k) for j in range(k)], (k, k)), F8)


# --- predicates and types ---------------------------------------------------------------------

@npf('isscalar', 'element')
def np_isscalar(I, element):
    if isinstance(element, OpaqueV):
        return Sym(tm.bapp('isscalar', element.t), 'b')
    return is_num(element) or isinstance(element, (str, StrV, bytes, complex))


@npf('isrealobj', 'x')
def np_isrealobj(I, x):
    if isinstance(x, OpaqueV):
        raise OpaqueArg()
    o, dt = O(I, x)
    return dt.kind != 'c'


@npf('iscomplexobj', 'x')
def np_iscomplexobj(I, x):
    o, dt = O(I, x)
    return dt.kind == 'c'


@npf('iterable', 'y')
def np_iterable(I, y):
    return num.sb(I.hasattr_(y, '__iter__'))


@npf('issubdtype', 'arg1 arg2')
def np_issubdtype(I, arg1, arg2):
    a = NPI.dtype_of(I, arg1) if not (isinstance(arg1, ClassV) and arg1 in I.np_abstract) else I.np_abstract[arg1]
    b = arg2
    if isinstance(b, ExtV):
        b = I.ext_value(b.path)
    if isinstance(b, ClassV) and b in I.np_abstract:
        return bool(np.issubdtype(a, I.np_abstract[b]))
    return bool(np.issubdtype(a, NPI.dtype_of(I, b)))


def np_result_type(I, a, k):
    return np.result_type(*[NPI.operand(I, x)[1] if not isinstance(x, (np.dtype, ClassV, str)) else NPI.dtype_of(I, x) for x in a])


TABLE['numpy.result_type'] = np_result_type


@npf('shares_memory may_share_memory', 'a b')
def np_shares(I, a, b):
    x, y = I.content(a), I.content(b)
    return x.buf == y.buf and bool(set(x.idx.ravel().tolist()) & set(y.idx.ravel().tolist()))


@npf('spacing', 'x')
def np_spacing(I, x):
    n = num.native(x) if is_num(x) else None
    if n is None:
        raise Unsupported('np.spacing')
    return Sym(tm.const(float(np.spacing(n))), 'f', True)


@npf('finfo', 'dtype')
def np_finfo(I, dtype):
    d = NPI.dtype_of(I, dtype)
    f = np.finfo(d if d.kind == 'f' else F8)
    cls = I.types['object']
    return I.new(ObjC(cls, {'eps': Sym(tm.const(float(f.eps)), 'f', True), 'tiny': Sym(tm.const(float(f.tiny)), 'f', True),
                            'max': Sym(tm.const(float(f.max)), 'f', True), 'min': Sym(tm.const(float(f.min)), 'f', True),
                            'resolution': Sym(tm.const(float(f.resolution)), 'f', True)}))


@npf('iinfo', 'dtype')
def np_iinfo(I, dtype):
    d = NPI.dtype_of(I, dtype)
    f = np.iinfo(d)
    return I.new(ObjC(I.types['object'], {'max': int(f.max), 'min': int(f.min)}))


TABLE['numpy.errstate'] = lambda I, a, k: BuiltinV('ctx', lambda I2, a2, k2: None)


def np_seterr(I, a, k):
    I.events.append(('numpy', 'seterr', '', I.where()))
    return I.new(DictC({}))


TABLE['numpy.seterr'] = np_seterr
TABLE['numpy.set_printoptions'] = np_seterr


@npf('apply_along_axis', 'func1d axis arr')
def np_apply_along_axis(I, func1d, axis, arr):
    o, dt = O(I, arr)
    ax = norm_axis(I, axis, o.ndim)
    src = np.moveaxis(o, ax, -1)
    parts = {}
    for i in np.ndindex(*src.shape[:-1]):
        parts[i] = O(I, I.call(func1d, [NPI.new(I, src[i], dt)], {}))
    if not parts:
        I.raise_('ValueError', 'Cannot apply_along_axis when any iteration dimensions are 0')
    shape = next(iter(parts.values()))[0].shape
    out = ob(src.shape[:-1] + shape)
    for i, (r, d) in parts.items():
        out[i] = r if shape else r[()]
    d = next(iter(parts.values()))[1]
    if shape:
        for _ in shape:
            out = np.moveaxis(out, -1, ax)
    return NPI.new(I, out, d)


# --- mutators -----------------------------------------------------------------------------------

@npf('copyto', 'dst src')
def np_copyto(I, dst, src):
    NPI.setitem(I, dst, Ellipsis, src)


@npf('fill_diagonal', 'a val')
def np_fill_diagonal(I, a, val):
    c = I.content(a)
    NPI.write(I, a, np.diagonal(c.idx), O(I, val)[0])


def m_fill(I, a, k):
    NPI.setitem(I, a[0], Ellipsis, a[1])


ARRAY_METHODS['fill'] = m_fill


def m_copy(I, a, k):
    o, dt = NPI.get(I, a[0])
    return NPI.new(I, o, dt, mat(I, a[0]))


ARRAY_METHODS['copy'] = m_copy
ARRAY_METHODS['__copy__'] = m_copy
ARRAY_METHODS['__deepcopy__'] = m_copy


def m_astype(I, a, k):
    dt = NPI.dtype_of(I, a[1] if len(a) > 1 else k.get('dtype'))
    c = I.content(a[0])
    cp = k.get('copy', True)
    if cp is False and dt == c.dtype:
        return a[0]
    o, d = NPI.obj(I, a[0], dt)
    return NPI.new(I, o, dt, c.matrix)


ARRAY_METHODS['astype'] = m_astype


def m_view(I, a, k):
    if len(a) > 1 or k:
        t = a[1] if len(a) > 1 else list(k.values())[0]
        if isinstance(t, ExtV):
            t = I.ext_value(t.path)
        if t is I.types['numpy.ndarray']:
            return NPI.view(I, a[0], I.content(a[0]).idx, matrix=False)
        raise Unsupported('ndarray.view(dtype)')
    return NPI.view(I, a[0], I.content(a[0]).idx.view())


ARRAY_METHODS['view'] = m_view


def m_tolist(I, a, k):
    o, _ = NPI.get(I, a[0])

    def go(x):
        if isinstance(x, np.ndarray) and x.ndim:
            return I.new(ListC([go(y) for y in x]))
        return py_scalar(x[()] if isinstance(x, np.ndarray) else x)
    return go(o)


ARRAY_METHODS['tolist'] = m_tolist


def m_item(I, a, k):
    c = I.content(a[0])
    if len(a) == 1:
        if c.idx.size != 1:
            I.raise_('ValueError', 'can only convert an array of size 1 to a Python scalar')
        return py_scalar(NPI.item(I, a[0]))
    key = a[1] if len(a) == 2 else tuple(a[1:])
    if len(a) == 2 and not isinstance(key, tuple):
        return py_scalar(NPI.getitem(I, NPI.ravel_view(I, a[0]), key))
    return py_scalar(NPI.getitem(I, a[0], key))


ARRAY_METHODS['item'] = m_item


def m_setflags(I, a, k):
    w = a[1] if len(a) > 1 else k.get('write')
    if w is not None:
        NPI.flags_set(I, FlagsV(a[0]), 'writeable', w)


ARRAY_METHODS['setflags'] = m_setflags


def m_iter(I, a, k):
    return I.new(IterC(NPI.iterate(I, a[0])))


ARRAY_METHODS['__iter__'] = m_iter
ARRAY_METHODS['__array__'] = lambda I, a, k: a[0]
ARRAY_METHODS['cross'] = None
del ARRAY_METHODS['cross']


def m_put(I, a, k):
    raise Unsupported('ndarray.put')


for _n in ('put', 'resize', 'partition', 'byteswap'):
    ARRAY_METHODS[_n] = m_put


# --- functions of other packages that have a simple summary -------------------------------------

def cv2_rodrigues(I, a, k):
    """The rotation matrix about a vector by its length; the way back is uninterpreted."""
    try:
        o, dt = O(I, a[0])
    except OpaqueArg:
        return I.opaque_call('cv2.Rodrigues', a, k)
    if dt.kind != 'f':
        I.raise_('ValueError', 'cv2.error: Rodrigues expects floating point input')
    ts = [term(x) for x in o.ravel()]
    if o.size == 3:
        theta = tm.sqrt(tm.add(*[tm.powi(t, 2) for t in ts]))
        one = tm.ONE
        basis = lambda v: [tm.ZERO, tm.neg(v[2]), v[1], v[2], tm.ZERO, tm.neg(v[0]), tm.neg(v[1]), v[0], tm.ZERO]
        if I.decide(tm.eq0(theta)):
            m = [one if i % 4 == 0 else tm.ZERO for i in range(9)]
            jac = [t for i in range(3) for t in basis([one if j == i else tm.ZERO for j in range(3)])]
        else:
            x, y, z = u = [tm.div(t, theta) for t in ts]
            c, s = tm.fn('cos', theta), tm.fn('sin', theta)
            skew = [tm.ZERO, tm.neg(z), y, z, tm.ZERO, tm.neg(x), tm.neg(y), x, tm.ZERO]
            m = [tm.add(c if i % 4 == 0 else tm.ZERO, tm.mul(tm.sub(one, c), u[i // 3], u[i % 3]), tm.mul(s, skew[i])) for i in range(9)]
            jac = []
            for i in range(3):
                du = [tm.div(tm.sub(one if i == j else tm.ZERO, tm.mul(u[i], u[j])), theta) for j in range(3)]
                dskew = basis(du)
                for j in range(9):
                    p, q = j // 3, j % 3
                    jac.append(tm.add(tm.neg(tm.mul(s, u[i])) if p == q else tm.ZERO, tm.mul(s, u[i], u[p], u[q]),
                                      tm.mul(tm.sub(one, c), tm.add(tm.mul(du[p], u[q]), tm.mul(u[p], du[q]))),
                                      tm.mul(c, u[i], skew[j]), tm.mul(s, dskew[j])))
        return (NPI.new(I, obarr([S(t) for t in m], (3, 3)), F8), NPI.new(I, obarr([S(t) for t in jac], (3, 9)), F8))
    if o.size == 9:
        m = obarr([S(tm.app('cv2.Rodrigues.inv', str(i), *ts)) for i in range(3)], (3, 1))
        return (NPI.new(I, m, F8), OpaqueV(tm.app('cv2.Rodrigues.jacobian', *ts)))
    return I.opaque_call('cv2.Rodrigues', a, k)


TABLE['cv2.Rodrigues'] = cv2_rodrigues


def linalg_tuple(name, n):
    def f(I, a, k):
        r = I.opaque_call(name, a, k)
        return tuple(OpaqueV(tm.app('getitem', r.t, tm.const(i))) for i in range(n))
    return f


def np_eig(name, ascending):
    '''The eigenvalues and eigenvectors the obligation gives, or unknown.'''
    def f(I, a, k):
        spec = getattr(I, 'spec', None)
        c = I.content(spec.eig) if spec is not None and getattr(spec, 'eig', None) is not None else None
        if c is None or len(a) != 1 or k:
            return linalg_tuple(name, 2)(I, a, k)
        o, dt = O(I, a[0])
        if o.ndim != 2:
            raise Unsupported('eigenvectors of a stack')
        I.put(spec.eig, ListC(list(c.items) + [NPI.new(I, o.copy(), F8)]))
        w, v = O(I, c.items[0])[0].copy(), O(I, c.items[1])[0].copy()
        if ascending:
            q = order_of(I, list(w))
            w, v = w[q], v[:, q]
        return (NPI.new(I, w, F8), NPI.new(I, v, F8))
    return f


TABLE['numpy.linalg.eig'] = TABLE['scipy.linalg.eig'] = np_eig('numpy.linalg.eig', False)
TABLE['numpy.linalg.eigh'] = TABLE['scipy.linalg.eigh'] = np_eig('numpy.linalg.eigh', True)


def np_svd(I, a, k):
    '''The decomposition the obligation gives (it proves that it is one, of what the library decomposed), or unknown.'''
    spec = getattr(I, 'spec', None)
    c = I.content(spec.svd) if spec is not None and getattr(spec, 'svd', None) is not None else None
    if c is None:
        return linalg_tuple('numpy.linalg.svd', 3)(I, a, k)
    o, dt = O(I, a[0])
    if o.ndim != 2:
        raise Unsupported('svd of a stack')
    if not any(x in k for x in ('compute_uv',)) and len(a) < 3:
        c = ListC(list(c.items) + [NPI.new(I, o.copy(), F8)])
        I.put(spec.svd, c)
        out = []
        for v in c.items[:3]:
            w, wd = O(I, v)
            out.append(NPI.new(I, w.copy(), F8))
        return tuple(out)
    raise Unsupported('svd without vectors')


TABLE['numpy.linalg.svd'] = TABLE['scipy.linalg.svd'] = np_svd
TABLE['numpy.linalg.qr'] = linalg_tuple('numpy.linalg.qr', 2)


DTYPES = {
    'float64': 'f8', 'double': 'f8', 'float_': 'f8', 'float32': 'f4', 'single': 'f4', 'float16': 'f2', 'longdouble': 'f8',
    'int64': 'i8', 'int_': 'i8', 'intp': 'i8', 'int32': 'i4', 'intc': 'i4', 'int16': 'i2', 'int8': 'i1',
    'uint64': 'u8', 'uint32': 'u4', 'uint16': 'u2', 'uint8': 'u1', 'uint': 'u8', 'longlong': 'i8', 'uintp': 'u8',
    'bool_': '?', 'bool': '?', 'object_': 'O', 'str_': 'U', 'complex128': 'c16', 'complex64': 'c8',
}


def table(I):
    T = I.types
    I.np = NPI
    t = dict(TABLE)
    t['numpy.ndarray'] = T['numpy.ndarray'] = mkclass(I, 'numpy.ndarray', [I.object_cls])
    t['numpy.matrix'] = T['numpy.matrix'] = mkclass(I, 'numpy.matrix', [T['numpy.ndarray']])
    t['numpy.generic'] = g = mkclass(I, 'numpy.generic', [I.object_cls])
    t['numpy.number'] = n = mkclass(I, 'numpy.number', [g])
    t['numpy.inexact'] = ix = mkclass(I, 'numpy.inexact', [n])
    t['numpy.floating'] = fl = mkclass(I, 'numpy.floating', [ix])
    t['numpy.complexfloating'] = cf = mkclass(I, 'numpy.complexfloating', [ix])
    t['numpy.integer'] = it = mkclass(I, 'numpy.integer', [n])
    t['numpy.signedinteger'] = si = mkclass(I, 'numpy.signedinteger', [it])
    t['numpy.unsignedinteger'] = ui = mkclass(I, 'numpy.unsignedinteger', [it])
    I.np_abstract = {g: np.generic, n: np.number, ix: np.inexact, fl: np.floating, cf: np.complexfloating, it: np.integer,
                     si: np.signedinteger, ui: np.unsignedinteger}
    I.np_dtypes = {T['float']: F8, T['int']: I8, T['bool']: B1, T['object']: OB, T['str']: np.dtype('U'), T['complex']: np.dtype('c16')}
    made = {}
    for name, code in DTYPES.items():
        c = made.get(code)
        if c is None:
            d = np.dtype(code)
            if code == 'f8':
                bases = [fl, T['float']]
            else:
                bases = [{'f': fl, 'i': si, 'u': ui, 'b': g, 'O': g, 'U': g, 'c': cf}[d.kind]]
            real = d.type.__name__
            c = made[code] = mkclass(I, 'numpy.' + real, bases)
            I.np_dtypes[c] = d
            T[c.name] = c

            def ctor(d):
                def f(I, a, k):
                    if not a:
                        return NPI.cast(I, 0, d)
                    r = make(I, a[0], d, True)
                    c = I.content(r)
                    return NPI.item(I, r) if c.shape == () else r
                return f
            I.cls_call[c] = ctor(d)
        if name not in ('float_',):
            t['numpy.' + name] = c
    T.setdefault('numpy.bool', made['?'])
    I.cls_call[t['numpy.ndarray']] = TABLE['numpy.empty']
    I.cls_call[t['numpy.matrix']] = TABLE['numpy.matrix']
    t['numpy.dtype'] = dt = mkclass(I, 'numpy.dtype', [I.object_cls])
    I.cls_call[dt] = lambda I, a, k: NPI.dtype_of(I, a[0])
    for nm, v in (('pi', float(np.pi)), ('e', float(np.e)), ('inf', float('inf')), ('nan', float('nan')), ('newaxis', None), ('Inf', None), ('NaN', None)):
        if nm in ('Inf', 'NaN'):
            continue
        t['numpy.' + nm] = Const(v)
    t['numpy.linalg.LinAlgError'] = I.excs['LinAlgError']
    t['scipy.linalg.LinAlgError'] = I.excs['LinAlgError']
    t['numpy.exceptions.AxisError'] = I.excs['ValueError']
    return t
