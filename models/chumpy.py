'''chumpy: numbers which depend on other numbers, computed when read, with the chain rule.'''
import inspect
import numpy as np
import scipy.sparse as sp


def _names(x):
    return (x,) if isinstance(x, str) else tuple(x)


def _dot(lhs, rhs):
    if lhs is None or rhs is None:
        return None
    if isinstance(lhs, (int, float)) or isinstance(rhs, (int, float)):
        return lhs * rhs
    if not sp.issparse(lhs) and sp.issparse(rhs):
        return rhs.T.dot(lhs.T).T
    return lhs.dot(rhs)


class Ch(object):
    terms = []
    dterms = ['x']
    _function = False

    def __new__(cls, *args, **kwargs):
        if len(args) and inspect.isfunction(args[0]):
            cls = ChLambda
        self = object.__new__(cls)
        for name, value in (('_dirty', []), ('_parents', []), ('_computed', None), ('_kept', {})):
            object.__setattr__(self, name, value)
        return self

    def __init__(self, *args, **kwargs):
        if type(self) is Ch:
            order = ['x']
            args = [np.asarray(a, np.float64) for a in args]
        else:
            order = self.term_order if hasattr(self, 'term_order') else self._terms() + self._dterms()
        for name, value in zip(order, args):
            kwargs[name] = value
        for name, value in kwargs.items():
            setattr(self, name, value)

    def _terms(self):
        return () if type(self) is Ch else _names(self.terms)

    def _dterms(self):
        if type(self) is not Ch and self.dterms is Ch.dterms:
            return ()
        return _names(self.dterms)

    def __setattr__(self, name, value):
        if type(self) is Ch:
            if name == 'x':
                self._dirty.append(name)
                self._clear()
            object.__setattr__(self, name, value)
            return
        if name in self._dterms():
            if not isinstance(value, Ch):
                value = Ch(value)
            old = self.__dict__.get(name)
            if old is not None:
                for i in range(len(old._parents)):
                    if old._parents[i][0] is self and old._parents[i][1] == name:
                        del old._parents[i]
                        break
            value._parents.append((self, name))
        if name in self._dterms() or name in self._terms():
            self._dirty.append(name)
            self._forget(name)
            self._clear()
        object.__setattr__(self, name, value)

    def _forget(self, name):
        for k in list(self._kept):
            if name in self._kept[k][0]:
                del self._kept[k]

    def _clear(self):
        object.__setattr__(self, '_computed', None)
        for parent, name in list(self._parents):
            parent._dirty.append(name)
            parent._forget(name)
            parent._clear()

    def add_dterm(self, name, value):
        object.__setattr__(self, 'dterms', list(self._dterms()) + [name])
        setattr(self, name, value)

    def set(self, **kwargs):
        for name, value in kwargs.items():
            setattr(self, name, value)

    def __call__(self, **kwargs):
        self.set(**kwargs)
        return self.r

    def on_changed(self, which):
        pass

    def compute_r(self):
        return self.x

    def compute_dr_wrt(self, wrt):
        if wrt is self:
            return sp.eye(self.x.size, self.x.size)
        return None

    def _call_on_changed(self):
        if len(self._dirty) > 0:
            which = set(self._dirty)
            self.on_changed(which)
            object.__setattr__(self, '_dirty', [])

    @property
    def r(self):
        self._call_on_changed()
        if self._computed is None:
            view = np.asarray(np.atleast_1d(self.compute_r()), dtype=np.float64).view()
            view.flags.writeable = False
            object.__setattr__(self, '_computed', view)
        return self._computed

    @property
    def shape(self):
        return self.r.shape

    @property
    def size(self):
        return self.r.size

    @property
    def ndim(self):
        return self.r.ndim

    @property
    def T(self):
        raise NotImplementedError()

    def __len__(self):
        return len(self.r)

    def __getitem__(self, key):
        raise NotImplementedError()

    def is_dr_wrt(self, wrt):
        if type(self) is Ch:
            return wrt is self
        mine = [self.__dict__[k] for k in self._dterms() if k in self.__dict__]
        return any([d is wrt or d.is_dr_wrt(wrt) for d in mine])

    def dr_wrt(self, wrt):
        self._call_on_changed()
        total = self.compute_dr_wrt(wrt)
        for k in self._dterms():
            if k in self.__dict__:
                p = self.__dict__[k]
                if isinstance(p, Ch) and p is not wrt:
                    inner = p.dr_wrt(wrt)
                    if inner is not None:
                        more = _dot(self.compute_dr_wrt(p), inner)
                        if more is not None:
                            total = more if total is None else total + more
        return total

    def reshape(self, *args):
        return reshape(self, args if len(args) > 1 else args[0])

    def ravel(self):
        return reshape(self, (-1,))

    def sum(self, axis=None):
        return sum(self, axis)

    def __neg__(self):
        return _Elementwise('-', 0., self)

    def __add__(self, other):
        return _Elementwise('+', self, other)

    def __radd__(self, other):
        return _Elementwise('+', other, self)

    def __sub__(self, other):
        return _Elementwise('-', self, other)

    def __rsub__(self, other):
        return _Elementwise('-', other, self)

    def __mul__(self, other):
        return _Elementwise('*', self, other)

    def __rmul__(self, other):
        return _Elementwise('*', other, self)

    def __truediv__(self, other):
        return _Elementwise('/', self, other)

    def __rtruediv__(self, other):
        return _Elementwise('/', other, self)

    def __pow__(self, other):
        return _Power(self, other)


class _Elementwise(Ch):
    terms = 'op'
    dterms = 'a', 'b'

    def compute_r(self):
        a, b = self.a.r, self.b.r
        return a + b if self.op == '+' else a - b if self.op == '-' else a * b if self.op == '*' else a / b

    def compute_dr_wrt(self, wrt):
        if wrt is not self.a and wrt is not self.b:
            return None
        a, b = self.a.r, self.b.r
        out = np.zeros(self.r.shape)
        total = None
        if wrt is self.a:
            total = self._partial(a, out + (1. if self.op in '+-' else b if self.op == '*' else 1. / b))
        if wrt is self.b:
            more = self._partial(b, out + (1. if self.op == '+' else -1. if self.op == '-' else a if self.op == '*' else -a / b ** 2))
            total = more if total is None else total + more
        return total

    def _partial(self, x, d):
        cols = (np.arange(x.size).reshape(x.shape) + np.zeros(d.shape, dtype=np.int64)).ravel()
        return sp.csc_matrix((d.ravel(), (np.arange(d.size), cols)), shape=(d.size, x.size))


class _Power(Ch):
    terms = 'pow'
    dterms = 'x'
    term_order = 'x', 'pow'

    def compute_r(self):
        return self.x.r ** self.pow

    def compute_dr_wrt(self, wrt):
        if wrt is not self.x:
            return None
        return sp.diags([(self.pow * self.x.r ** (self.pow - 1)).ravel()], [0]).tocsc()


class sum(Ch):
    terms = 'axis'
    dterms = 'x'
    term_order = 'x', 'axis'

    def compute_r(self):
        return np.sum(self.x.r, axis=self.axis if hasattr(self, 'axis') else None)

    def compute_dr_wrt(self, wrt):
        if wrt is not self.x:
            return None
        n = self.x.r.size
        axis = self.axis if hasattr(self, 'axis') else None
        if axis is None:
            return np.ones((1, n))
        at = np.arange(self.r.size).reshape(np.sum(self.x.r, axis=axis, keepdims=True).shape)
        rows = (at + np.zeros(self.x.r.shape, dtype=np.int64)).ravel()
        return sp.csc_matrix((np.ones(n), (rows, np.arange(n))), shape=(self.r.size, n))


class _Reshape(Ch):
    terms = 'newshape'
    dterms = 'a'
    term_order = 'a', 'newshape'

    def compute_r(self):
        return self.a.r.reshape(self.newshape)

    def compute_dr_wrt(self, wrt):
        if wrt is self.a:
            return sp.eye(self.a.r.size, self.a.r.size)
        return None


def reshape(a, newshape):
    while isinstance(a, _Reshape):
        a = a.a
    return _Reshape(a, newshape)


class MatVecMult(Ch):
    terms = 'mtx'
    dterms = 'vec'

    def compute_r(self):
        result = self.mtx.dot(self.vec.r.ravel().reshape((-1, 1))).ravel()
        if len(self.vec.r.shape) > 1 and self.vec.r.shape[1] > 1:
            result = result.reshape((-1, self.vec.r.shape[1]))
        return result

    def compute_dr_wrt(self, wrt):
        if wrt is self.vec:
            return sp.csc_matrix(self.mtx)


class _Handle(Ch):
    dterms = ('x',)

    def compute_r(self):
        return self.x.r

    def compute_dr_wrt(self, wrt):
        if wrt is self.x:
            return 1


class ChLambda(Ch):
    terms = ['lmb', 'initial_args']
    dterms = ()

    def __init__(self, lmb, initial_args=None):
        args = {}
        for i, name in enumerate(inspect.getfullargspec(lmb)[0]):
            args[name] = _Handle(x=Ch(i))
        if initial_args is not None:
            for name in initial_args:
                if name in args:
                    args[name].x = initial_args[name]
        result = lmb(**args)
        for name, arg in list(args.items()):
            if result.is_dr_wrt(arg.x):
                self.add_dterm(name, arg.x)
            else:
                object.__setattr__(self, 'terms', list(self._terms()) + [name])
                setattr(self, name, arg.x)
        self.args = args
        self.add_dterm('_result', result)

    def on_changed(self, which):
        for name in self.args:
            if name in which:
                self.args[name].x = getattr(self, name)

    def compute_r(self):
        return self._result.r

    def compute_dr_wrt(self, wrt):
        if wrt is self._result:
            return 1


def depends_on(*deps):
    names = []
    for d in deps:
        names += list(_names(d))

    def deco(func):
        def get(self):
            if func.__name__ not in self._kept:
                value = func(self)
                self._kept[func.__name__] = (names, value)
            return self._kept[func.__name__][1]
        return property(get)
    return deco


def array(x):
    return Ch(x)
