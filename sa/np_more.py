'''
Further numpy names: what a change of the package may call although the package
itself does not (yet). Same conventions as np_model.
'''
import numpy as np

from . import terms as tm
from . import num
from . import np_model as M
from .values import *          # noqa: F401,F403
from .values import term
from .builtins_model import isnan_term
from .np_model import npf, O, NPI, TABLE, F8, I8, B1, ob, obarr, guard, call, norm_axis, reduce_, with_out, order_of, native_index, S


def ints(I, v, what):
    '''A native integer array; its elements must be known on the path.'''
    o, dt = O(I, v)
    if dt.kind not in 'iub':
        I.raise_('TypeError', '%s needs integers' % what)
    return np.array([I.as_index(e) for e in o.ravel()], dtype=int).reshape(o.shape)


def known(I, r, dt=I8):
    r = np.asarray(r)
    return NPI.new(I, obarr([int(x) if dt is I8 else bool(x) for x in r.ravel()], r.shape), dt)


@npf('bincount', 'x weights=None minlength=0')
def np_bincount(I, x, weights, minlength):
    n = ints(I, x, 'bincount')
    if n.ndim != 1:
        I.raise_('ValueError', 'object too deep for desired array')
    if n.size and n.min() < 0:
        I.raise_('ValueError', "'list' argument must have no negative elements")
    size = max(int(n.max()) + 1 if n.size else 0, I.as_index(minlength))
    if weights is None:
        return known(I, np.bincount(n, minlength=size))
    w, _ = O(I, weights)
    if w.shape != n.shape:
        I.raise_('ValueError', 'The weights and list don\'t have the same length.')
    out = [0.0] * size
    for i, v in zip(n, w):
        out[i] = num.arith('+', out[i], v)
    return NPI.new(I, obarr(out, (size,)), F8)


def groups(I, rows, same):
    '''Sorted distinct rows: [(first position, [positions])] in order, and each position's group.'''
    out, inv = [], [None] * len(rows)
    for i in row_order(I, rows):
        if not out or not same(rows[out[-1][0]], rows[i]):
            out.append((i, []))
        out[-1][1].append(i)
        inv[i] = len(out) - 1
    return out, inv


def row_order(I, rows):
    def less(p, q):
        for x, y in zip(p, q):
            if I.decide(I.truth(Sym(num.cmp('<', x, y), 'b'))):
                return True
            if not I.decide(I.equal(x, y)):
                return False
        return False
    out = []
    for i in range(len(rows)):
        j = len(out)
        while j > 0 and less(rows[i], rows[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return out


@npf('unique', 'ar return_index=False return_inverse=False return_counts=False axis=None')
def np_unique(I, ar, return_index, return_inverse, return_counts, axis):
    o, dt = O(I, ar)
    if axis is None:
        rows = [(x,) for x in o.ravel()]
    else:
        ax = norm_axis(I, axis, o.ndim)
        s = np.moveaxis(o, ax, 0)
        rows = [tuple(r.ravel()) for r in s]
    same = lambda p, q: all(I.decide(I.equal(x, y)) for x, y in zip(p, q))
    gs, inv = groups(I, rows, same)
    if axis is None:
        r = NPI.new(I, obarr([rows[g[0]][0] for g in gs], (len(gs),)), dt)
    else:
        r = NPI.new(I, np.moveaxis(s[[g[0] for g in gs]], 0, ax), dt)
    out = [r]
    if I.decide(I.truth(return_index)):
        out.append(known(I, np.array([min(g[1]) for g in gs], dtype=int)))
    if I.decide(I.truth(return_inverse)):
        q = np.array(inv, dtype=int)
        out.append(known(I, q.reshape(o.shape) if axis is None else q))
    if I.decide(I.truth(return_counts)):
        out.append(known(I, np.array([len(g[1]) for g in gs], dtype=int)))
    return out[0] if len(out) == 1 else tuple(out)


@npf('average', 'a axis=None weights=None returned=False keepdims=False')
def np_average(I, a, axis, weights, returned, keepdims):
    if weights is None:
        if returned:
            raise Unsupported('np.average(returned=)')
        return M.np_mean(I, [a, axis], {'keepdims': keepdims})
    o, _ = O(I, a)
    w, _ = O(I, weights)
    if axis is None:
        if w.shape != o.shape:
            I.raise_('TypeError', 'Axis must be specified when shapes of a and weights differ.')
    elif w.shape != o.shape:
        ax = norm_axis(I, axis, o.ndim)
        if isinstance(ax, tuple):
            raise Unsupported('np.average axes')
        if w.ndim != 1:
            I.raise_('TypeError', '1D weights expected when shapes of a and weights differ.')
        if w.shape[0] != o.shape[ax]:
            I.raise_('ValueError', 'Length of weights not compatible with specified axis.')
        w = np.broadcast_to(w.reshape([-1 if i == ax else 1 for i in range(o.ndim)]), o.shape)
    wa = NPI.new(I, w.copy(), F8)
    tot = M.np_sum(I, [wa, axis], {'keepdims': keepdims})
    to, _ = O(I, tot)
    if I.decide(tm.or_(*[tm.eq0(term(x)) for x in to.ravel()])):
        I.raise_('ZeroDivisionError', "Weights sum to zero, can't be normalized")
    return I.binop('Div', M.np_sum(I, [I.binop('Mult', a if I.is_arr(a) else NPI.new(I, o, F8), wa), axis], {'keepdims': keepdims}), tot)


def _nan_free(f):
    def g(xs):
        ys = [x for x in xs if term(x).op != 'nan']
        if any(isnan_term(term(x)) is not tm.FALSE for x in ys):
            raise Unsupported('a value which may be nan')
        return f(ys) if ys else Sym(tm.NAN, 'f', True)
    return g


@npf('nanmin fmin.reduce', 'a axis=None out=None keepdims=False')
def np_nanmin(I, a, axis, out, keepdims):
    return with_out(I, out, reduce_(I, a, axis, _nan_free(M._mm(False, I)), None, keepdims, None, 'fmin'))


@npf('nanmax fmax.reduce', 'a axis=None out=None keepdims=False')
def np_nanmax(I, a, axis, out, keepdims):
    return with_out(I, out, reduce_(I, a, axis, _nan_free(M._mm(True, I)), None, keepdims, None, 'fmax'))


@npf('nanmean', 'a axis=None dtype=None out=None keepdims=False')
def np_nanmean(I, a, axis, dtype, out, keepdims):
    return with_out(I, out, reduce_(I, a, axis, _nan_free(lambda xs: num.arith('/', _s(xs), len(xs))), F8, keepdims, float('nan')))


def _s(xs):
    return M._sumf(xs)


@npf('fmax', 'x1 x2')
def np_fmax(I, x1, x2):
    return _f2(I, x1, x2, True)


@npf('fmin', 'x1 x2')
def np_fmin(I, x1, x2):
    return _f2(I, x1, x2, False)


def _f2(I, a, b, big):
    def f(p, q):
        for x, y in ((p, q), (q, p)):
            n = isnan_term(term(x))
            if n is tm.TRUE:
                return y
            if n is not tm.FALSE:
                raise Unsupported('a value which may be nan')
        return num.choose(I.simp(num.cmp('>' if big else '<', p, q)), p, q)
    return M.ufunc2(I, a, b, f)


@npf('cumprod', 'a axis=None', meth='cumprod')
def np_cumprod(I, a, axis):
    o, dt = O(I, a)
    return scan(I, o, dt, axis, lambda p, q: num.arith('*', p, q))


def scan(I, o, dt, axis, f):
    if axis is None:
        o, axis = o.reshape(-1), 0
    ax = norm_axis(I, axis, o.ndim)
    s = np.moveaxis(o, ax, 0)
    out = ob(s.shape)
    for i in range(s.shape[0]):
        for j in np.ndindex(*s.shape[1:]):
            out[(i,) + j] = s[(i,) + j] if i == 0 else f(out[(i - 1,) + j], s[(i,) + j])
    return NPI.new(I, np.moveaxis(out, 0, ax), M.sum_dt(dt))


def _accumulate(name, f):
    @npf(name + '.accumulate', 'array axis=0')
    def h(I, array, axis):
        o, dt = O(I, array)
        return scan(I, o, dt, axis, lambda p, q: f(I, p, q))


_accumulate('add', lambda I, p, q: num.arith('+', p, q))
_accumulate('multiply', lambda I, p, q: num.arith('*', p, q))
_accumulate('maximum', lambda I, p, q: num.choose(I.simp(num.cmp('>', p, q)), p, q))
_accumulate('minimum', lambda I, p, q: num.choose(I.simp(num.cmp('<', p, q)), p, q))


def _at(name, op):
    @npf(name + '.at', 'a indices b=None')
    def h(I, a, indices, b):
        if isinstance(indices, tuple):
            raise Unsupported('ufunc.at with several indices')
        c = I.content(a)
        n = native_index(I, indices)
        if not isinstance(n, np.ndarray) or n.dtype.kind == 'b':
            raise Unsupported('ufunc.at index')
        o, dt = O(I, a)
        v, _ = O(I, b)
        v = np.broadcast_to(v, n.shape + o.shape[1:])
        o = o.copy()
        if n.size and not (-len(o) <= n.min() and n.max() < len(o)):
            I.raise_('IndexError', 'index out of bounds')
        for i in np.ndindex(*n.shape):
            for j in np.ndindex(*o.shape[1:]):
                o[(n[i],) + j] = num.arith(op, o[(n[i],) + j], v[i + j])
        NPI.setitem(I, a, Ellipsis, NPI.new(I, o, dt))
        return None


_at('add', '+')
_at('subtract', '-')
_at('multiply', '*')


@npf('triu_indices', 'n k=0 m=None')
def np_triu_indices(I, n, k, m):
    return tuple(known(I, x) for x in np.triu_indices(I.as_index(n), I.as_index(k), None if m is None else I.as_index(m)))


@npf('tril_indices', 'n k=0 m=None')
def np_tril_indices(I, n, k, m):
    return tuple(known(I, x) for x in np.tril_indices(I.as_index(n), I.as_index(k), None if m is None else I.as_index(m)))


@npf('diag_indices', 'n ndim=2')
def np_diag_indices(I, n, ndim):
    return tuple(known(I, x) for x in np.diag_indices(I.as_index(n), I.as_index(ndim)))


@npf('tri', 'N M=None k=0 dtype=None')
def np_tri(I, N, M, k, dtype):
    r = np.tri(I.as_index(N), None if M is None else I.as_index(M), I.as_index(k))
    return NPI.new(I, obarr([float(x) for x in r.ravel()], r.shape), NPI.dtype_of(I, dtype) or F8)


def _ix(I, a, k):
    if k:
        raise Unsupported('np.ix_ keywords')
    xs = []
    for v in a:
        n = native_index(I, v)
        xs.append(np.asarray(n))
    return tuple(known(I, x) for x in guard(I, np.ix_, *xs))


TABLE['numpy.ix_'] = _ix


def _meshgrid(I, a, k):
    idx = k.get('indexing', 'xy')
    if set(k) - {'indexing'} or idx not in ('xy', 'ij'):
        raise Unsupported('np.meshgrid options')
    os = [O(I, x) for x in a]
    r = guard(I, np.meshgrid, *[o for o, _ in os], indexing=idx)
    return tuple(NPI.new(I, x, d) for x, (_, d) in zip(r, os))


TABLE['numpy.meshgrid'] = _meshgrid


def _ndindex(I, a, k):
    return I.new(IterC([tuple(i) for i in np.ndindex(*M.shape_arg(I, a))]))


TABLE['numpy.ndindex'] = _ndindex


@npf('ndenumerate', 'arr')
def np_ndenumerate(I, arr):
    o, _ = O(I, arr)
    return I.new(IterC([(tuple(i), e) for i, e in np.ndenumerate(o)]))


@npf('ravel_multi_index', 'multi_index dims')
def np_ravel_multi_index(I, multi_index, dims):
    n = tuple(native_index(I, x) for x in I.iterate(multi_index))
    r = guard(I, np.ravel_multi_index, n, M.shape_arg(I, [dims]))
    return int(r) if np.ndim(r) == 0 else known(I, r)


@npf('asarray_chkfinite', 'a dtype=None order=None')
def np_asarray_chkfinite(I, a, dtype, order):
    o, dt = O(I, a)
    for e in o.ravel():
        if dt.kind == 'f' and I.decide(tm.or_(isnan_term(term(e)), M.isinf_term(term(e)))):
            I.raise_('ValueError', 'array must not contain infs or NaNs')
    return call(I, 'numpy.asarray', [a, dtype])


@npf('block', 'arrays')
def np_block(I, arrays):
    def nat(v):
        if isinstance(I.content(v) if isinstance(v, Obj) else None, ListC):
            return [nat(x) for x in I.iterate(v)]
        o, dt = O(I, v)
        dts.append(dt)
        return o if o.ndim else o.reshape(())[()] if False else o
    dts = []
    r = guard(I, np.block, nat(arrays))
    return NPI.new(I, r, np.result_type(*dts))


for _n, _axis in (('hsplit', 1), ('vsplit', 0), ('dsplit', 2)):
    def _split(n, axis):
        @npf(n, 'ary indices_or_sections')
        def f(I, ary, indices_or_sections):
            o, _ = O(I, ary)
            return call(I, 'numpy.split', [ary, indices_or_sections, 0 if o.ndim == 1 and axis == 1 else axis])
        return f
    _split(_n, _axis)


@npf('fromfunction', 'function shape dtype=None')
def np_fromfunction(I, function, shape, dtype):
    s = M.shape_arg(I, [shape])
    grids = np.indices(s)
    return I.call(function, [known(I, g) if dtype is not None and np.dtype(NPI.dtype_of(I, dtype)).kind == 'i' else NPI.new(I, obarr([float(x) for x in g.ravel()], g.shape), F8) for g in grids])


@npf('unravel_index', 'indices shape')
def np_unravel_index(I, indices, shape):
    n = native_index(I, indices)
    r = guard(I, np.unravel_index, n, M.shape_arg(I, [shape]))
    return tuple(int(x) if np.ndim(x) == 0 else known(I, x) for x in r)


@npf('lexsort', 'keys')
def np_lexsort(I, keys):
    o, _ = O(I, keys)
    if o.ndim != 2:
        raise Unsupported('np.lexsort')
    return known(I, np.array(row_order(I, [tuple(r[::-1]) for r in o.T]), dtype=int))


@npf('argsort', 'a axis=-1 kind=None order=None stable=None', meth='argsort')
def np_argsort(I, a, axis, kind, order, stable):
    o, _ = O(I, a)
    if axis is None:
        o, axis = o.reshape(-1), -1
    ax = norm_axis(I, axis, o.ndim)
    src = np.moveaxis(o, ax, -1)
    out = np.empty(src.shape, dtype=int)
    for i in np.ndindex(*src.shape[:-1]):
        out[i] = order_of(I, list(src[i]))
    return known(I, np.moveaxis(out, -1, ax))


@npf('searchsorted', 'a v side=left sorter=None', meth='searchsorted')
def np_searchsorted(I, a, v, side, sorter):
    side = 'left' if side is None else side
    o, _ = O(I, a)
    if o.ndim != 1 or sorter is not None or side not in ('left', 'right'):
        raise Unsupported('np.searchsorted options')
    w, _ = O(I, v)

    def f(x):
        r = Sym(tm.ZERO, 'i', True)
        for e in o:
            c = num.cmp('<', e, x) if side == 'left' else num.cmp('<=', e, x)
            r = num.arith('+', r, Sym(tm.ite(I.simp(c), tm.ONE, tm.ZERO), 'i', True))
        return r
    return NPI.out(I, NPI.emap(I, f, w), I8)


@npf('digitize', 'x bins right=False')
def np_digitize(I, x, bins, right):
    return np_searchsorted(I, [bins, x, 'left' if I.decide(I.truth(right)) else 'right'], {})


def _sets(name, keep):
    @npf(name, 'ar1 ar2 assume_unique=False')
    def h(I, ar1, ar2, assume_unique):
        p, d1 = O(I, ar1)
        q, d2 = O(I, ar2)
        xs, ys = list(p.ravel()), list(q.ravel())
        isin = lambda e, zs: any(I.decide(I.equal(e, z)) for z in zs)
        r = keep(xs, ys, isin)
        if name == 'setdiff1d' and I.decide(I.truth(assume_unique)):
            return NPI.new(I, obarr(r, (len(r),)), d1)
        return np_unique(I, [NPI.new(I, obarr(r, (len(r),)), np.result_type(d1, d2) if name != 'setdiff1d' else d1)], {})


_sets('setdiff1d', lambda xs, ys, isin: [x for x in xs if not isin(x, ys)])
_sets('intersect1d', lambda xs, ys, isin: [x for x in xs if isin(x, ys)])
_sets('union1d', lambda xs, ys, isin: xs + ys)
_sets('setxor1d', lambda xs, ys, isin: [x for x in xs if not isin(x, ys)] + [y for y in ys if not isin(y, xs)])


@npf('take_along_axis', 'arr indices axis=-1')
def np_take_along_axis(I, arr, indices, axis):
    o, dt = O(I, arr)
    r = guard(I, np.take_along_axis, o, ints(I, indices, 'take_along_axis'), axis=None if axis is None else I.as_index(axis))
    return NPI.new(I, r, dt)


@npf('median', 'a axis=None out=None overwrite_input=False keepdims=False')
def np_median(I, a, axis, out, overwrite_input, keepdims):
    def f(xs):
        ys = [xs[i] for i in order_of(I, xs)]
        n = len(ys)
        return ys[n // 2] if n % 2 else num.arith('/', num.arith('+', ys[n // 2 - 1], ys[n // 2]), 2.0)
    return with_out(I, out, reduce_(I, a, axis, f, F8, keepdims, float('nan')))


@npf('kron', 'a b')
def np_kron(I, a, b):
    x, dx = O(I, a)
    y, dy = O(I, b)
    if x.ndim != y.ndim or x.ndim not in (1, 2):
        raise Unsupported('np.kron of these shapes')
    x2, y2 = np.atleast_2d(x), np.atleast_2d(y)
    out = ob((x2.shape[0] * y2.shape[0], x2.shape[1] * y2.shape[1]))
    for i in np.ndindex(*x2.shape):
        for j in np.ndindex(*y2.shape):
            out[i[0] * y2.shape[0] + j[0], i[1] * y2.shape[1] + j[1]] = num.arith('*', x2[i], y2[j])
    return NPI.new(I, out if x.ndim == 2 else out[0], np.result_type(dx, dy))


@npf('vander', 'x N=None increasing=False')
def np_vander(I, x, N, increasing):
    o, dt = O(I, x)
    n = len(o) if N is None else I.as_index(N)
    out = ob((len(o), n))
    inc = I.decide(I.truth(increasing))
    for i in range(len(o)):
        for j in range(n):
            p = j if inc else n - 1 - j
            out[i, j] = S(tm.mul(*([term(o[i])] * p)) if p else tm.ONE)
    return NPI.new(I, out, dt)


@npf('diagflat', 'v k=0')
def np_diagflat(I, v, k):
    o, dt = O(I, v)
    return call(I, 'numpy.diag', [NPI.new(I, o.reshape(-1), dt), k])


@npf('unstack', 'x axis=0')
def np_unstack(I, x, axis):
    o, dt = O(I, x)
    return tuple(NPI.out(I, r if isinstance(r, np.ndarray) else obarr([r], ()), dt) for r in np.moveaxis(o, norm_axis(I, axis, o.ndim), 0))


@npf('trapezoid trapz', 'y x=None dx=1.0 axis=-1')
def np_trapezoid(I, y, x, dx, axis):
    o, _ = O(I, y)
    if o.ndim != 1 or axis != -1:
        raise Unsupported('np.trapezoid of this shape')
    h = [dx] * (len(o) - 1)
    if x is not None:
        p, _ = O(I, x)
        h = [num.arith('-', p[i + 1], p[i]) for i in range(len(o) - 1)]
    return _s([num.arith('/', num.arith('*', h[i], num.arith('+', o[i], o[i + 1])), 2.0) for i in range(len(o) - 1)]) if h else 0.0


@npf('ediff1d', 'ary to_end=None to_begin=None')
def np_ediff1d(I, ary, to_end, to_begin):
    o, dt = O(I, ary)
    o = o.reshape(-1)
    r = list(NPI.emap(I, lambda p, q: num.arith('-', p, q), o[1:], o[:-1])) if o.size > 1 else []
    for v, front in ((to_begin, True), (to_end, False)):
        if v is not None:
            e = list(O(I, v)[0].ravel())
            r = e + r if front else r + e
    return NPI.new(I, obarr(r, (len(r),)), dt)


@npf('interp', 'x xp fp left=None right=None period=None')
def np_interp(I, x, xp, fp, left, right, period):
    if period is not None:
        raise Unsupported('np.interp(period=)')
    p, _ = O(I, xp)
    f, _ = O(I, fp)
    if p.shape != f.shape or p.ndim != 1:
        I.raise_('ValueError', 'fp and xp are not of the same length.')
    if not p.size:
        I.raise_('ValueError', 'array of sample points is empty')
    o, _ = O(I, x)
    ar = num.arith

    def g(v):
        r = f[-1] if right is None else right
        r = num.choose(I.simp(num.cmp('==', v, p[-1])), f[-1], r)
        for i in range(len(p) - 2, -1, -1):
            s = ar('+', f[i], ar('*', ar('-', v, p[i]), ar('/', ar('-', f[i + 1], f[i]), ar('-', p[i + 1], p[i]))))
            r = num.choose(I.simp(num.cmp('<', v, p[i + 1])), s, r)
        return num.choose(I.simp(num.cmp('<', v, p[0])), f[0] if left is None else left, r)
    return NPI.out(I, NPI.emap(I, g, o), F8)


@npf('heaviside', 'x1 x2')
def np_heaviside(I, x1, x2):
    return M.ufunc2(I, x1, x2, lambda p, q: num.choose(I.simp(num.cmp('<', p, 0)), 0.0, num.choose(I.simp(num.cmp('==', p, 0)), q, 1.0)), F8)


@npf('putmask', 'a mask values')
def np_putmask(I, a, mask, values):
    o, dt = O(I, a)
    m, _ = O(I, mask)
    v, _ = O(I, values)
    if m.shape != o.shape:
        I.raise_('ValueError', 'putmask: mask and data must be the same size')
    v = v.ravel()
    if not v.size:
        return None
    w = obarr([v[i % v.size] for i in range(o.size)], o.shape)
    NPI.setitem(I, a, Ellipsis, M.np_where(I, [mask, NPI.new(I, w, dt), NPI.new(I, o.copy(), dt)], {}))
    return None


@npf('place', 'arr mask vals')
def np_place(I, arr, mask, vals):
    o, dt = O(I, arr)
    m, _ = O(I, mask)
    v = list(O(I, vals)[0].ravel())
    r = list(o.ravel())
    n = 0
    for i, c in enumerate(m.ravel()):
        if I.decide(I.truth(c)):
            if not v:
                I.raise_('ValueError', 'Cannot insert from an empty array!')
            r[i] = v[n % len(v)]
            n += 1
    NPI.setitem(I, arr, Ellipsis, NPI.new(I, obarr(r, o.shape), dt))
    return None


@npf('extract', 'condition arr')
def np_extract(I, condition, arr):
    o, dt = O(I, arr)
    m, _ = O(I, condition)
    r = [e for e, c in zip(o.ravel(), m.ravel()) if I.decide(I.truth(c))]
    return NPI.new(I, obarr(r, (len(r),)), dt)


@npf('choose', 'a choices')
def np_choose(I, a, choices):
    n = ints(I, a, 'choose')
    cs = [O(I, c) for c in I.iterate(choices)]
    sh = guard(I, np.broadcast_shapes, n.shape, *[c[0].shape for c in cs])
    n = np.broadcast_to(n, sh)
    ws = [np.broadcast_to(c[0], sh) for c in cs]
    if n.size and not (0 <= n.min() and n.max() < len(cs)):
        I.raise_('ValueError', 'invalid entry in choice array')
    out = ob(sh)
    for i in np.ndindex(*sh):
        out[i] = ws[n[i]][i]
    return NPI.out(I, out, np.result_type(*[c[1] for c in cs]))


@npf('linalg.multi_dot', 'arrays')
def np_multi_dot(I, arrays):
    xs = I.iterate(arrays)
    if len(xs) < 2:
        I.raise_('ValueError', 'Expecting at least two arrays.')
    r = xs[0]
    for x in xs[1:]:
        r = call(I, 'numpy.dot', [r, x])
    return r


@npf('linalg.matrix_power matrix_power', 'a n')
def np_matrix_power(I, a, n):
    n = I.as_index(n)
    m = M.square(I, a, 'matrix_power')
    if abs(n) > 6:
        raise Unsupported('a large matrix power')
    o, dt = O(I, a)
    if n == 0:
        return call(I, 'numpy.eye', [len(m)])
    b = a if n > 0 else call(I, 'numpy.linalg.inv', [a])
    r = call(I, 'numpy.array', [b])
    for _ in range(abs(n) - 1):
        r = call(I, 'numpy.dot', [r, b])
    return r


for _p, _q in (('linalg.matmul', 'matmul'), ('linalg.outer', 'outer'), ('linalg.tensordot', 'tensordot')):
    if 'numpy.' + _q in TABLE:
        TABLE['numpy.' + _p] = TABLE['numpy.' + _q]


@npf('linalg.trace', 'x')
def np_ltrace(I, x):
    o, _ = O(I, x)
    if o.ndim != 2:
        raise Unsupported('trace of a stack')
    return call(I, 'numpy.trace', [x])


@npf('matrix_transpose linalg.matrix_transpose', 'x')
def np_matrix_transpose(I, x):
    o, _ = O(I, x)
    if o.ndim < 2:
        I.raise_('ValueError', 'Input array must be at least 2-dimensional')
    return call(I, 'numpy.swapaxes', [x, -1, -2])


@npf('vecdot linalg.vecdot', 'x1 x2')
def np_vecdot(I, x1, x2):
    return M.np_sum(I, [call(I, 'numpy.multiply', [x1, x2]), -1], {})


@npf('matvec', 'x1 x2')
def np_matvec(I, x1, x2):
    o, dt = O(I, x2)
    return M.np_sum(I, [call(I, 'numpy.multiply', [x1, NPI.new(I, o[..., None, :], dt)]), -1], {})


@npf('resize', 'a new_shape')
def np_resize(I, a, new_shape):
    o, dt = O(I, a)
    return NPI.new(I, guard(I, np.resize, o, M.shape_arg(I, [new_shape])), dt)


def _vectorize(I, a, k):
    if len(a) != 1 or set(k) - {'otypes', 'doc'}:
        raise Unsupported('np.vectorize options')
    f = a[0]

    def g(I2, a2, k2):
        if k2:
            raise Unsupported('keywords of a vectorized function')
        os = [O(I2, x)[0] for x in a2]
        if not os:
            I2.raise_('TypeError', 'missing arguments')
        r = NPI.emap(I2, lambda *xs: I2.call(f, list(xs), {}), *os)
        flat = list(r.ravel())
        if not flat:
            I2.raise_('ValueError', 'cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        v = call(I2, 'numpy.array', [flat[0]])
        dt = I2.content(v).dtype if I2.is_arr(v) else np.dtype('f8')
        r = NPI.new(I2, r, dt)
        return r
    return BuiltinV('vectorized', g)


TABLE['numpy.vectorize'] = _vectorize
