'''
Value numbers.

The abstract domain for scalars: hash-consed algebraic terms over input atoms
(a global value numbering in which congruent terms are the same object), with

- light canonicalisation when a term is built (linear combinations, products
  of powers, sqrt(x)**2 = x, ...),
- a rational-function normal form, computed on demand, which proves equality,
- a sign domain, which decides comparisons,
- evaluation of a *term* at sample valuations of its atoms (identity testing on
  terms), which certifies that two terms are different.

Nothing here, or anywhere in this package, imports or runs the code under
analysis.
'''
import math
import random
import time
import zlib

import mpmath
from fractions import Fraction as Fr


class Late(Exception):
    '''The time for this obligation is up.'''


deadline = [None]


def tick():
    if deadline[0] is not None and time.monotonic() > deadline[0]:
        raise Late()


class TooBig(Exception):
    pass


class T(object):
    __slots__ = ('op', 'args', 'id', 'nf', 'sg', 'vals', 'flags')

    def __repr__(self):
        return show(self)


_table = {}
_by_id = []


def mk(op, *args):
    key = (op,) + tuple(('#', a.id) if isinstance(a, T) else a for a in args)
    t = _table.get(key)
    if t is None:
        if not len(_by_id) & 63:
            tick()
        t = T()
        t.op = op
        t.args = args
        t.id = len(_by_id)
        t.nf = None
        t.sg = None
        t.vals = None
        t.flags = None
        _table[key] = t
        _by_id.append(t)
    return t


def const(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else NINF
        x = Fr(repr(x))
    return mk('c', Fr(x))


NAN = mk('nan')
INF = mk('inf', 1)
NINF = mk('inf', -1)
ZERO = const(0)
ONE = const(1)
TRUE = mk('true')
FALSE = mk('false')


def var(name, sign='?', integer=False, lo=None, hi=None):
    '''sign: + - ? (nonzero, sign not known).'''
    return mk('v', name, sign, integer, lo, hi)


def is_const(t):
    return t.op == 'c'


def special(t):
    return t.op in ('nan', 'inf')


# --- linear combinations and products ---------------------------------------
# add: args = (const Fr, ((coef Fr, term), ...)); term is never add/c
# mul: args = (((base, int exp), ...),) ; base never mul/c; more than one pair or exp != 1

def _lin(t):
    if t.op == 'c':
        return t.args[0], ()
    if t.op == 'add':
        return t.args
    return Fr(0), ((Fr(1), t),)


def _mklin(c, d):
    items = [(k, _by_id[i]) for i, k in d.items() if k != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][0] == 1:
        return items[0][1]
    items.sort(key=lambda kv: kv[1].id)
    key = ('add', c) + tuple((k, t.id) for k, t in items)
    t = _table.get(key)
    if t is None:
        t = mk('add', c, tuple(items))
        _table[key] = t
    return t


def _spec_lin(ts):
    # Arithmetic with nan or inf among the operands of a sum.
    s = 0
    for t in ts:
        if t.op == 'nan':
            return NAN
        if t.op == 'inf':
            if s and s != t.args[0]:
                return NAN
            s = t.args[0]
    return INF if s > 0 else NINF


def add(*ts):
    if any(special(t) for t in ts):
        return _spec_lin(ts)
    c = Fr(0)
    d = {}
    for t in ts:
        if t.op == 'ite':
            pass
        c0, items = _lin(t)
        c += c0
        for k, u in items:
            d[u.id] = d.get(u.id, 0) + k
    return _mklin(c, d)


def scale(k, t):
    if t.op == 'nan':
        return NAN
    if t.op == 'inf':
        if k == 0:
            return NAN
        return t if k > 0 else (NINF if t.args[0] > 0 else INF)
    if k == 0:
        return ZERO
    c, items = _lin(t)
    return _mklin(k * c, {u.id: k * q for q, u in items})


def neg(t):
    return scale(Fr(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _content(t):
    '''t = k * u, with u's leading coefficient 1 (or t itself).'''
    if t.op == 'c':
        return t.args[0], ONE
    if t.op == 'add':
        c, items = t.args
        k = items[0][0]
        if k == 1:
            return Fr(1), t
        return k, scale(1 / k, t)
    return Fr(1), t


def _factors(t):
    if t.op == 'mul':
        return t.args[0]
    return ((t, 1),)


def _mkmul(k, d):
    # d: base id -> exp. Reduce sqrt powers.
    changed = True
    while changed:
        changed = False
        for i in list(d):
            b, e = _by_id[i], d[i]
            if e == 0:
                del d[i]
                continue
            if b.op == 'fn' and b.args[0] == 'sqrt' and abs(e) >= 2:
                h = int(e / 2)
                r = e - 2 * h
                del d[i]
                if r:
                    d[i] = r
                k2, u = _content(b.args[1])
                k = k * k2 ** h
                for bb, ee in _factors(u):
                    if bb is ONE:
                        continue
                    d[bb.id] = d.get(bb.id, 0) + ee * h
                changed = True
            elif b.op == 'fn' and b.args[0] == 'abs' and e % 2 == 0:
                del d[i]
                k2, u = _content(b.args[1])
                k = k * k2 ** e
                for bb, ee in _factors(u):
                    d[bb.id] = d.get(bb.id, 0) + ee * e
                changed = True
            elif b.op == 'fn' and b.args[0] == 'sign' and sign(b.args[1]) not in (None, '>=0', '<=0', '0') and abs(e) > 1:
                d[i] = e % 2
                changed = True
    items = [(_by_id[i], e) for i, e in d.items() if e]
    if not items:
        return const(k)
    items.sort(key=lambda be: be[0].id)
    if len(items) == 1 and items[0][1] == 1:
        return scale(k, items[0][0])
    key = ('mul',) + tuple((b.id, e) for b, e in items)
    t = _table.get(key)
    if t is None:
        t = mk('mul', tuple(items))
        _table[key] = t
    return scale(k, t)


def mul(*ts):
    if any(special(t) for t in ts):
        s = 1
        for t in ts:
            if t.op == 'nan':
                return NAN
        for t in ts:
            if t.op == 'inf':
                s *= t.args[0]
            else:
                g = sign(t)
                if g == '+':
                    pass
                elif g == '-':
                    s = -s
                elif g == '0':
                    return NAN
                else:
                    return mk('app', 'inf*?', t)
        return INF if s > 0 else NINF
    k = Fr(1)
    d = {}
    for t in ts:
        if t.op == 'c':
            if t.args[0] == 0:
                return ZERO
            k *= t.args[0]
            continue
        k2, u = _content(t)
        k *= k2
        for b, e in _factors(u):
            d[b.id] = d.get(b.id, 0) + e
    return _mkmul(k, d)


def inv(t):
    return div(ONE, t)


def div(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if b.op == 'inf':
        return NAN if a.op == 'inf' else ZERO
    if is_zero_term(b):
        g = sign(a) if a.op != 'inf' else ('+' if a.args[0] > 0 else '-')
        if g == '+':
            return INF
        if g == '-':
            return NINF
        if g == '0' or is_zero_term(a):
            return NAN
        if not opaque(a) and not piecewise(a):
            return ite(gt0(a), INF, NINF)
        return mk('app', 'x/0', a)
    if a.op == 'inf':
        g = sign(b)
        if g in ('+', '-'):
            return a if g == '+' else neg(a)
        return mk('app', 'inf/?', b)
    if b.op == 'c':
        return scale(1 / b.args[0], a)
    k2, u = _content(b)
    if a.op == 'c' and a.args[0] == 0:
        return ZERO
    k, ua = _content(a)
    d = {}
    if ua is not ONE:
        for bb, e in _factors(ua):
            d[bb.id] = d.get(bb.id, 0) + e
    for bb, e in _factors(u):
        d[bb.id] = d.get(bb.id, 0) - e
    return _mkmul(k / k2, d)


def powi(t, n):
    if n == 0:
        return ONE
    if special(t):
        if t.op == 'nan':
            return NAN
        return ZERO if n < 0 else (INF if n % 2 == 0 else t)
    if n < 0:
        return div(ONE, powi(t, -n))
    if t.op == 'c':
        return const(t.args[0] ** n)
    k, u = _content(t)
    return _mkmul(k ** n, {b.id: e * n for b, e in _factors(u)})


def _fsqrt(q):
    n, d = q.numerator, q.denominator
    if n < 0:
        return None
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fr(a, b)
    return None


def _small_part(q):
    '''A power of ten whose square takes the smallness out of a minute number.'''
    if q <= 0 or q > Fr(1, 10 ** 20):
        return Fr(1)
    return Fr(1, 10 ** (len(str(q.denominator // q.numerator)) // 2))


def sqrt(t):
    if t.op == 'nan':
        return NAN
    if t.op == 'inf':
        return INF if t.args[0] > 0 else NAN
    if t.op == 'c':
        if t.args[0] < 0:
            return NAN
        r = _fsqrt(t.args[0])
        if r is not None:
            return const(r)
        h = _small_part(t.args[0])
        return scale(h, mk('fn', 'sqrt', const(t.args[0] / (h * h))))
    if t.op == 'ite':
        return ite(t.args[0], sqrt(t.args[1]), sqrt(t.args[2]))
    k, u = _content(t)
    out, rest = [], []
    kk = Fr(1)
    if k > 0:
        r = _fsqrt(k)
        if r is not None:
            kk = r
            k = Fr(1)
        else:
            kk = _small_part(k)
            k /= kk * kk
    fs = _factors(u)
    if len(fs) > 1 or fs[0][1] != 1:
        for b, e in fs:
            h = e // 2
            if h:
                s = sign(b)
                out.append(powi(b if s in ('+', '>=0') else (abs_(b) if h % 2 else b), h))
            if e % 2:
                rest.append(b)
        u = mul(*rest) if rest else ONE
    u = scale(k, u)
    if u.op == 'c':
        return mul(const(kk), sqrt(u), *out) if u is not t else mk('fn', 'sqrt', u)
    return mul(const(kk), mk('fn', 'sqrt', u), *out)


def abs_(t):
    if t.op == 'nan':
        return NAN
    if t.op == 'inf':
        return INF
    if t.op == 'ite':
        return ite(t.args[0], abs_(t.args[1]), abs_(t.args[2]))
    s = sign(t)
    if s in ('+', '>=0', '0'):
        return t
    if s in ('-', '<=0'):
        return neg(t)
    k, u = _content(t)
    if u.op == 'mul':
        return scale(abs(k), mul(*[powi(abs_(b), e) if e > 0 else div(ONE, powi(abs_(b), -e)) for b, e in u.args[0]]))
    return scale(abs(k), mk('fn', 'abs', u))


def sign_term(t):
    if t.op == 'nan':
        return NAN
    if t.op == 'inf':
        return const(t.args[0])
    if t.op == 'ite':
        return ite(t.args[0], sign_term(t.args[1]), sign_term(t.args[2]))
    s = sign(t)
    if s == '+':
        return ONE
    if s == '-':
        return const(-1)
    if s == '0' or is_zero_term(t):
        return ZERO
    k, u = _content(t)
    r = mk('fn', 'sign', u)
    return r if k > 0 else neg(r)


def fn(name, *ts):
    if any(t.op == 'nan' for t in ts):
        return NAN
    for i, t in enumerate(ts):
        if t.op == 'ite':
            a = list(ts)
            b = list(ts)
            a[i], b[i] = t.args[1], t.args[2]
            return ite(t.args[0], fn(name, *a), fn(name, *b))
    t = ts[0]
    if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'exp', 'cos', 'acos', 'cosh', 'log') and t.op == 'c':
        q = t.args[0]
        if q == 0:
            return {'exp': ONE, 'cos': ONE, 'cosh': ONE, 'acos': const(math.pi / 2), 'log': NINF}.get(name, ZERO)
        if q == 1 and name in ('acos', 'log'):
            return ZERO
        if abs(q) == 1 and name in ('acos', 'asin'):
            return const(math.pi if name == 'acos' else math.pi / 2 * q)
        if q == 0 and name == 'acos':
            return const(math.pi / 2)
        if name in ('acos', 'asin') and abs(q) > 1:
            return NAN
        if name == 'log' and q < 0:
            return NAN
        if name in ('sin', 'cos', 'tan'):
            # Multiples of pi/2 written as floats.
            n = round(float(q) / (math.pi / 2))
            if n and abs(float(q) - n * (math.pi / 2)) < 1e-12 * abs(n) and not (name == 'tan' and n % 2):
                return const({'sin': (0, 1, 0, -1), 'cos': (1, 0, -1, 0), 'tan': (0, 0, 0, 0)}[name][n % 4])
    if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh'):
        k, u = _content(t)
        if k < 0:
            return neg(mk('fn', name, scale(-k, u)))
    if name in ('cos', 'cosh'):
        k, u = _content(t)
        if k < 0:
            t = scale(-k, u)
    if name == 'cos' and t.op == 'fn' and t.args[0] == 'acos':
        return t.args[1]
    if name == 'sin' and t.op == 'fn' and t.args[0] == 'acos':
        return sqrt(sub(ONE, powi(t.args[1], 2)))
    if name == 'sin' and t.op == 'fn' and t.args[0] == 'asin':
        return t.args[1]
    if name == 'cos' and t.op == 'fn' and t.args[0] == 'asin':
        return sqrt(sub(ONE, powi(t.args[1], 2)))
    if name in ('floor', 'ceil', 'trunc', 'rint'):
        if t.op == 'inf':
            return t
        if t.op == 'c':
            q = t.args[0]
            return const({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round}[name](q))
        if is_int_term(t):
            return t
        if closed(t):
            v = evalt(t, 0)
            if v is not None and abs(v - round(v)) > 1e-6:
                return const({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round}[name](v))
    if name == 'floordiv':
        return fn('floor', div(ts[0], ts[1]))
    if name == 'mod':
        a, b = ts
        if b.op == 'c' and b.args[0] == 0:
            return NAN
        return sub(a, mul(b, fn('floor', div(a, b))))
    if any(t.op == 'inf' for t in ts):
        if name in ('exp',):
            return INF if t.args[0] > 0 else ZERO
        if name == 'atan':
            return const(math.copysign(math.pi / 2, t.args[0]))
        return NAN if name in ('sin', 'cos', 'tan', 'acos', 'asin') else mk('fn', name, *ts)
    return mk('fn', name, *ts)


def is_int_term(t):
    if t.op == 'c':
        return t.args[0].denominator == 1
    if t.op == 'v':
        return t.args[2]
    if t.op == 'add':
        return t.args[0].denominator == 1 and all(k.denominator == 1 and is_int_term(u) for k, u in t.args[1])
    if t.op == 'mul':
        return all(e > 0 and is_int_term(b) for b, e in t.args[0])
    if t.op == 'fn':
        return t.args[0] in ('floor', 'ceil', 'trunc', 'sign', 'rint')
    if t.op == 'ite':
        return is_int_term(t.args[1]) and is_int_term(t.args[2])
    return False


def derivative(t, x, memo=None):
    '''The partial derivative of a term by a variable, or None where the term has none the rules below give.'''
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    r = None
    if t is x:
        r = ONE
    elif t.op in ('c', 'v'):
        r = ZERO
    elif t.op == 'add':
        parts = [(k, derivative(u, x, memo)) for k, u in t.args[1]]
        if all(p is not None for _, p in parts):
            r = add(*[scale(k, p) for k, p in parts])
    elif t.op == 'mul':
        parts = [(b, e, derivative(b, x, memo)) for b, e in t.args[0]]
        if all(p[2] is not None for p in parts):
            r = add(*[mul(const(e), div(t, b), d) for b, e, d in parts])
    elif t.op == 'ite':
        a, b = derivative(t.args[1], x, memo), derivative(t.args[2], x, memo)
        if a is not None and b is not None:
            r = ite(t.args[0], a, b)
    elif t.op == 'fn' and t.args[0] == 'pow' and t.args[2].op == 'c':
        d = derivative(t.args[1], x, memo)
        if d is not None:
            r = mul(t.args[2], div(t, t.args[1]), d)
    elif t.op == 'fn' and len(t.args) == 2:
        n, u = t.args
        d = derivative(u, x, memo)
        if d is not None:
            if n in ('floor', 'ceil', 'trunc', 'rint', 'sign'):
                r = ZERO
            else:
                g = {
                    'sqrt': lambda: div(const(Fr(1, 2)), t),
                    'sin': lambda: fn('cos', u),
                    'cos': lambda: neg(fn('sin', u)),
                    'exp': lambda: t,
                    'log': lambda: inv(u),
                    'abs': lambda: sign_term(u),
                    'acos': lambda: neg(inv(sqrt(sub(ONE, powi(u, 2))))),
                    'asin': lambda: inv(sqrt(sub(ONE, powi(u, 2)))),
                    'atan': lambda: inv(add(ONE, powi(u, 2))),
                }.get(n)
                if g is not None:
                    r = mul(g(), d) if d is not ZERO else ZERO
    memo[t.id] = r
    return r


def app(name, *args):
    '''An uninterpreted application: what the model does not know.'''
    return mk('app', name, *args)


def unwritten(t):
    return t.op in ('app', 'bapp') and t.args[0] == 'uninitialised'


# --- flags ------------------------------------------------------------------

def children(t):
    if t.op in ('c', 'v', 'nan', 'inf', 'true', 'false'):
        return ()
    if t.op == 'add':
        return tuple(u for _, u in t.args[1])
    if t.op == 'mul':
        return tuple(b for b, _ in t.args[0])
    return tuple(a for a in t.args if isinstance(a, T))


def flags(t):
    '''bit 1: contains an uninterpreted application; 2: contains an ite; 4: has a variable.'''
    if t.flags is None:
        stack = [t]
        while stack:
            u = stack[-1]
            if u.flags is not None:
                stack.pop()
                continue
            todo = [c for c in children(u) if c.flags is None]
            if todo:
                stack.extend(todo)
                continue
            f = 0
            if u.op in ('app', 'bapp'):
                f |= 1
            if u.op == 'ite':
                f |= 2
            if u.op == 'v':
                f |= 4
            for c in children(u):
                f |= c.flags
            u.flags = f
            stack.pop()
    return t.flags


def opaque(t):
    return bool(flags(t) & 1)


def closed(t):
    return not flags(t) & 5


# --- booleans ---------------------------------------------------------------

def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a in (TRUE, FALSE) or b in (TRUE, FALSE) or is_bool(a):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    return mk('ite', c, a, b)


def is_bool(t):
    return t.op in ('true', 'false', 'gt', 'eq', 'not', 'and', 'or', 'bapp', 'bv')


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return mk('not', c)


def _nary(op, cs, unit, zero):
    out = []
    seen = set()
    for c in cs:
        sub_ = c.args if c.op == op else (c,)
        for d in sub_:
            if d is unit:
                continue
            if d is zero:
                return zero
            if d.id in seen:
                continue
            if not_(d).id in seen:
                return zero
            seen.add(d.id)
            out.append(d)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, *out)


def and_(*cs):
    return _nary('and', cs, TRUE, FALSE)


def or_(*cs):
    return _nary('or', cs, FALSE, TRUE)


def bvar(name):
    return mk('bv', name)


def bapp(name, *args):
    return mk('bapp', name, *args)


GENERIC = {'count': 0}


def _closed_sign(t):
    '''A constant which is not rational: well away from zero, its sign is that of its float.'''
    if closed(t) and not flags(t) & 2:
        v = evalt(t, 0)
        if v is not None and abs(v) > 1e-6:
            return TRUE if v > 0 else FALSE
    return None


def gt0(t):
    '''t > 0'''
    if t.op == 'nan':
        return FALSE
    if t.op == 'inf':
        return TRUE if t.args[0] > 0 else FALSE
    if t.op == 'ite':
        return ite(t.args[0], gt0(t.args[1]), gt0(t.args[2]))
    s = sign(t)
    if s == '+':
        return TRUE
    if s in ('-', '0', '<=0'):
        return FALSE
    c = _closed_sign(t)
    if c is not None:
        return c
    t2 = _lift_ite(t)
    if t2 is not None:
        c, a, b = t2
        return ite(c, gt0(a), gt0(b))
    u = t
    if not opaque(t) and not is_int_term(t) and not piecewise(t):
        # Drop the factors whose sign is known, and orient what is left: in
        # generic position -u > 0 is the opposite of u > 0.
        try:
            n, d = normal(t)
        except TooBig:
            n = None
        if n and len(n) <= 60 and len(d) <= 60:
            flip = False
            odd = {}
            for p in (n, d):
                k, fs = factors(p)
                flip ^= k < 0
                for f in fs:
                    key = tuple(sorted(f.items()))
                    odd[key] = not odd.get(key, False)
            u = ONE
            for key, o in sorted(odd.items()):
                if o:
                    f = dict(key)
                    sf = _psign(f)
                    if sf == '-':
                        flip = not flip
                    elif sf != '+':
                        u = mul(u, from_poly(f))
            if u is ONE:
                return FALSE if flip else TRUE
            k, u = _content(u)
            flip ^= k < 0
            r = _closed_sign(u) or mk('gt', u)
            return not_(r) if flip else r
    k, u = _content(u)
    u = u if k > 0 else neg(u)
    return _closed_sign(u) or mk('gt', u)


def _find_ite(t, depth=0):
    if not flags(t) & 2:
        return None
    if t.op == 'ite':
        return t
    for c in children(t):
        r = _find_ite(c, depth + 1)
        if r is not None:
            return r
    return None


def subst(t, old, new, memo=None):
    '''Replace the subterm `old` by `new`.'''
    if memo is None:
        memo = {}
    if t is old:
        return new
    if t.id in memo:
        return memo[t.id]
    op = t.op
    if op in ('c', 'v', 'nan', 'inf', 'true', 'false', 'bv'):
        r = t
    elif op == 'add':
        r = add(const(t.args[0]), *[scale(k, subst(u, old, new, memo)) for k, u in t.args[1]])
    elif op == 'mul':
        r = ONE
        for b, e in t.args[0]:
            r = mul(r, powi(subst(b, old, new, memo), e))
    else:
        a2 = [subst(a, old, new, memo) if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(a2, t.args)):
            r = t
        elif op == 'ite':
            r = ite(*a2)
        elif op == 'fn':
            n = a2[0]
            r = {'sqrt': sqrt, 'abs': abs_, 'sign': sign_term}[n](a2[1]) if n in ('sqrt', 'abs', 'sign') else fn(*a2)
        elif op == 'gt':
            r = gt0(a2[0])
        elif op == 'eq':
            r = eq0(a2[0])
        elif op == 'not':
            r = not_(a2[0])
        elif op == 'and':
            r = and_(*a2)
        elif op == 'or':
            r = or_(*a2)
        else:
            r = mk(op, *a2)
    memo[t.id] = r
    return r


def _lift_ite(t):
    if not flags(t) & 2:
        return None
    i = _find_ite(t)
    if i is None:
        return None
    return i.args[0], subst(t, i, i.args[1]), subst(t, i, i.args[2])


def eq0(t):
    '''t == 0, in generic position: an algebraic term which is not identically
    zero counts as different from zero. Degenerate inputs are separate classes.'''
    if special(t):
        return FALSE
    if t.op == 'c':
        return TRUE if t.args[0] == 0 else FALSE
    if t.op == 'ite':
        return ite(t.args[0], eq0(t.args[1]), eq0(t.args[2]))
    t2 = _lift_ite(t)
    if t2 is not None:
        c, a, b = t2
        return ite(c, eq0(a), eq0(b))
    if opaque(t):
        k, u = _content(t)
        return mk('eq', u)
    if is_int_term(t) and not closed(t) and sign(t) not in ('+', '-'):
        k, u = _content(t)
        return mk('eq', u)
    if is_zero_term(t):
        return TRUE
    if piecewise(t):
        # sign(), floor() and the like are equal on whole regions.
        if sign(t) in ('+', '-'):
            return FALSE
        k, u = _content(t)
        return mk('eq', u)
    GENERIC['count'] += 1
    return FALSE


def eq0c(t):
    '''The (undecided) fact t == 0.'''
    return mk('eq', _content(t)[1])


def piecewise(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        r = (t.op == 'fn' and t.args[0] in ('floor', 'ceil', 'trunc', 'rint', 'sign', 'abs')) or any(piecewise(c) for c in children(t))
        memo[t.id] = r
    return r


def is_zero_term(t):
    if t.op == 'c':
        return t.args[0] == 0
    if special(t) or t.op == 'v':
        return False
    if t.op == 'ite':
        return is_zero_term(t.args[1]) and is_zero_term(t.args[2])
    if t.op == 'mul':
        return False
    s = closed_sign(t)
    if s is not None:
        return s == '0'
    for k in range(3):
        v = evalt(t, k)
        if v is not None:
            if abs(v) > 1e-7 * max(1.0, magn(t, k)):
                return False
    try:
        n, _ = normal(t)
        return not n
    except TooBig:
        pass
    got = False
    for k in range(3, 10):
        v = evalt(t, k)
        if v is None:
            continue
        got = True
        if abs(v) > 1e-9 * max(1.0, magn(t, k)):
            return False
    return got


def magn(t, k):
    '''A scale for rounding error in evalt(t, k).'''
    if t.op == 'add':
        m = abs(float(t.args[0]))
        for c, u in t.args[1]:
            v = evalt(u, k)
            m = max(m, abs(float(c) * v) if v is not None else 0.0)
        return m
    v = evalt(t, k)
    return abs(v) if v is not None else 0.0


def magn_deep(t, k, memo):
    '''As magn, through products and roots: what t would be if nothing in it cancelled.'''
    m = memo.get(t.id)
    if m is not None:
        return m
    v = evalt(t, k)
    m = abs(v) if isinstance(v, (int, float)) else 0.0
    if t.op == 'add':
        m = max(m, abs(float(t.args[0])))
        for c, u in t.args[1]:
            m = max(m, abs(float(c)) * magn_deep(u, k, memo))
    elif t.op == 'mul':
        r = 1.0
        for b, e in t.args[0]:
            if e > 0:
                r *= magn_deep(b, k, memo) ** e
            else:
                w = evalt(b, k)
                r *= (abs(w) or 1.0) ** e if isinstance(w, (int, float)) else 1.0
        m = max(m, r)
    elif t.op == 'fn' and t.args[0] in ('sqrt', 'abs'):
        r = magn_deep(t.args[1], k, memo)
        m = max(m, r ** .5 if t.args[0] == 'sqrt' else r)
    elif t.op == 'ite':
        m = max(m, magn_deep(t.args[1], k, memo), magn_deep(t.args[2], k, memo))
    memo[t.id] = m
    return m


# --- sign -------------------------------------------------------------------

_FLIP = {'+': '-', '-': '+', '0': '0', '>=0': '<=0', '<=0': '>=0', None: None}


def _smul(a, b):
    if a == '0' or b == '0':
        return '0'
    if a is None or b is None:
        return None
    if a in ('+', '>=0') and b in ('+', '>=0') or a in ('-', '<=0') and b in ('-', '<=0'):
        return '+' if a in '+-' and b in '+-' else '>=0'
    return '-' if a in '+-' and b in '+-' else '<=0'


def _sadd(a, b):
    if a == '0':
        return b
    if b == '0':
        return a
    if a is None or b is None:
        return None
    pa, pb = a in ('+', '>=0'), b in ('+', '>=0')
    if pa != pb:
        return None
    if pa:
        return '+' if '+' in (a, b) else '>=0'
    return '-' if '-' in (a, b) else '<=0'


_MP = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
_MP.prec = 200
_EXACT = {}


def _exact(t):
    '''(value, what it would be if nothing in it cancelled) of a closed term, to many digits; or None.'''
    if t.id in _EXACT:
        return _EXACT[t.id]
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in _EXACT:
            stack.pop()
            continue
        todo = [c for c in children(u) if c.id not in _EXACT]
        if todo:
            stack.extend(todo)
            continue
        try:
            r = _exact_op(u)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError, KeyError):
            r = None
        _EXACT[u.id] = r
        stack.pop()
    return _EXACT[t.id]


def _exact_op(t):
    op = t.op
    if op == 'c':
        v = _MP.mpf(t.args[0].numerator) / t.args[0].denominator
        return v, abs(v)
    if op == 'add':
        s = _MP.mpf(t.args[0].numerator) / t.args[0].denominator
        m = abs(s)
        for c, u in t.args[1]:
            c = _MP.mpf(c.numerator) / c.denominator
            v, w = _EXACT[u.id]
            s += c * v
            m = max(m, abs(c) * w)
        return s, m
    if op == 'mul':
        s = m = _MP.mpf(1)
        for b, e in t.args[0]:
            v, w = _EXACT[b.id]
            s *= v ** e
            m *= w ** e if e > 0 else abs(v) ** e
        return s, m
    if op == 'fn':
        n = t.args[0]
        xs = [_EXACT[a.id] for a in t.args[1:]]
        v, w = xs[0]
        if n == 'sqrt':
            return (_MP.sqrt(v) if v > 0 else _MP.mpf(0)) if v > -1e-13 * w else None, _MP.sqrt(w)
        if n == 'abs':
            return abs(v), w
        if n in ('acos', 'asin'):
            v = max(min(v, _MP.mpf(1)), _MP.mpf(-1)) if abs(v) < 1 + 1e-9 else v
            v = getattr(_MP, n)(v)
        elif n in ('sin', 'cos', 'tan', 'atan', 'exp', 'log', 'atan2'):
            v = getattr(_MP, n)(*[x for x, _ in xs])
        else:
            return None
        return (v, max(abs(v), _MP.mpf(1))) if isinstance(v, _MP.mpf) else None
    return None


def closed_sign(t):
    '''The sign of a term without variables, to rounding of what is in it; None when it cannot be told.'''
    if t.op == 'c' or not closed(t) or flags(t) & 2:
        return None
    r = _exact(t)
    if r is None or r[0] is None:
        return None
    v, m = r
    return '0' if abs(v) <= 1e-13 * m else '+' if v > 0 else '-'


def number(t):
    '''The number a term without variables stands for, or None.'''
    if t.op == 'c':
        return float(t.args[0])
    if not closed(t) or flags(t) & 2:
        return None
    r = _exact(t)
    return None if r is None or r[0] is None else float(r[0])


TINY = Fr(1, 10000)
MINUTE = Fr(1, 10 ** 12)
PART = Fr(1, 10 ** 9)
MINUTE_INPUTS = [False]      # inputs were scaled down: compare relative to their size


def sign(t):
    if t.sg is None:
        t.sg = (_sign(t),)
    return t.sg[0]


def _sign(t):
    if t.op == 'add' and closed(t) and not flags(t) & 2:
        # No free number in it: nothing to take for minute or not.
        v = evalt(t, 0)
        if v is not None and abs(v) > 1e-9:
            return '+' if v > 0 else '-'
        s = closed_sign(t)
        if s is not None:
            return s
    s = _sign0(t)
    if s is not None or t.op in ('app',) or opaque(t):
        return s
    if t.op in ('add', 'fn', 'ite') and closed(t) and t.op != 'ite':
        v = evalt(t, 0)
        if v is not None and abs(v) > 1e-9:
            return '+' if v > 0 else '-'
        return '0' if v is not None and is_zero_term(t) else None
    if t.op in ('add', 'mul') and not flags(t) & 2:
        try:
            n, d = normal(t)
        except TooBig:
            return None
        sn, sd = _psign(n), _psign(d)
        if sn == '0':
            return '0'
        r = _smul(sn, sd)
        if r is None and len(n) <= 120 and len(d) <= 120:
            r = _fsign(n, d)
        return r
    return None


def _fsign(n, d):
    '''The sign of n/d, from the factors of each.'''
    s = '+'
    count = {}
    for p in (n, d):
        k, fs = factors(p)
        if k < 0:
            s = _FLIP[s]
        for f in fs:
            key = tuple(sorted(f.items()))
            count[key] = count.get(key, 0) + 1
    for key, e in count.items():
        if e % 2:
            s = _smul(s, _psign(dict(key)))
            if s is None:
                return None
    return s


def pdiv(p, q):
    '''p / q when exact, else None.'''
    atoms = sorted({a for m in p for a, _ in m} | {a for m in q for a, _ in m})

    def lex(m):
        dm = dict(m)
        return tuple(dm.get(a, 0) for a in atoms)
    lq = max(q, key=lex)
    dq = dict(lq)
    cq = q[lq]
    r = dict(p)
    out = {}
    n = 0
    while r:
        n += 1
        if n > 400:
            return None
        lm = max(r, key=lex)
        dm = dict(lm)
        for a, e in dq.items():
            if dm.get(a, 0) < e:
                return None
            dm[a] -= e
            if not dm[a]:
                del dm[a]
        m = tuple(sorted(dm.items()))
        c = r[lm] / cq
        out[m] = c
        r = padd(r, pmul({m: c}, q), -1)
    return out


def _monic(p):
    k = p[min(p)]
    return k, ({m: c / k for m, c in p.items()} if k != 1 else p)


def factors(p, depth=0):
    '''(constant, [monic factors]) of a polynomial; not always irreducible.'''
    if len(p) == 1:
        (m, c), = p.items()
        return c, [{((a, 1),): Fr(1)} for a, e in m for _ in range(e)]
    out = []
    # The monomial content.
    g = None
    for m in p:
        d = dict(m)
        g = d if g is None else {a: min(e, d.get(a, 0)) for a, e in g.items() if d.get(a, 0)}
    if g:
        out += [{((a, 1),): Fr(1)} for a, e in g.items() for _ in range(e)]
        p = pdiv(p, {tuple(sorted(g.items())): Fr(1)})
    if depth < 6 and len(p) > 2:
        for a in sorted({a for m in p for a, _ in m}):
            coefs = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                coefs.setdefault(e, {})[tuple(x for x in m if x[0] != a)] = c
            if len(coefs) < 2:
                continue
            small = min(coefs.values(), key=len)
            if len(small) < 2:
                continue
            for f in factors(small, depth + 1)[1]:
                if len(f) < 2:
                    continue
                while len(p) > 1:
                    q = pdiv(p, f)
                    if q is None:
                        break
                    out.append(_monic(f)[1])
                    k = _monic(f)[0]
                    p = {m: c * k for m, c in q.items()}
        if len(p) == 1:
            k, fs = factors(p, depth + 1)
            return k, out + fs
    k, p = _monic(p)
    if p != P1:
        out.append(p)
    return k, out


def _sign0(t):
    op = t.op
    if op == 'c':
        q = t.args[0]
        return '+' if q > 0 else '-' if q < 0 else '0'
    if op == 'v':
        s = t.args[1]
        return s if s in ('+', '-', '>=0', '<=0') else None
    if op == 'inf':
        return '+' if t.args[0] > 0 else '-'
    if op == 'add':
        c, items = t.args
        if c:
            most = max(abs(k) for k, u in items)
            if abs(c) <= TINY and abs(c) <= TINY * most:
                # Generic position: what isn't zero is larger than a tolerance.
                s = sign(sub(t, const(c)))
                if s in ('+', '-'):
                    return s
            elif most <= MINUTE and most <= TINY * abs(c):
                # Inputs which were made minute are smaller than any tolerance.
                return '+' if c > 0 else '-'
        elif len(items) > 1:
            # Generic position again: what isn't zero is larger than a minute part of something else.
            most = max(abs(k) for k, u in items)
            rest = [(k, u) for k, u in items if abs(k) > PART * most]
            if len(rest) < len(items) and not any(is_zero_term(u) for k, u in rest):
                s = '0'
                for k, u in rest:
                    su = sign(u)
                    s = _sadd(s, su if k > 0 else _FLIP[su])
                if s in ('+', '-'):
                    return s
        s = '+' if c > 0 else '-' if c < 0 else '0'
        for k, u in items:
            su = sign(u)
            s = _sadd(s, su if k > 0 else _FLIP[su])
            if s is None:
                return None
        return s
    if op == 'mul':
        s = '+'
        for b, e in t.args[0]:
            if e % 2 == 0:
                sb = '+'          # generic position
            else:
                sb = sign(b)
            s = _smul(s, sb)
            if s is None:
                return None
        return s
    if op == 'fn':
        n = t.args[0]
        if n in ('sqrt', 'exp', 'cosh'):
            return '+'
        if n == 'abs':
            return '+'
        if n == 'acos':
            return '+'
        if n in ('sign', 'atan', 'sinh', 'tanh', 'asin'):
            return sign(t.args[1])
        if n in ('ceil',):
            s = sign(t.args[1])
            return {'+': '+', '-': '<=0'}.get(s)
        if n in ('floor',):
            s = sign(t.args[1])
            return {'+': '>=0', '-': '-'}.get(s)
        if n in ('trunc', 'rint'):
            s = sign(t.args[1])
            return {'+': '>=0', '-': '<=0'}.get(s)
        return None
    if op == 'ite':
        a, b = sign(t.args[1]), sign(t.args[2])
        if a == b:
            return a
        if a is None or b is None:
            return None
        if {a, b} <= {'+', '>=0', '0'}:
            return '>=0'
        if {a, b} <= {'-', '<=0', '0'}:
            return '<=0'
        return None
    return None


def _psign(p):
    s = '0'
    for m, k in p.items():
        sm = '+' if k > 0 else '-'
        for a, e in m:
            if e % 2:
                sm = _smul(sm, sign(_by_id[a]))
            if sm is None:
                return None
        s = _sadd(s, sm)
        if s is None:
            return None
    return s


# --- normal form ------------------------------------------------------------
# Polynomials over atoms: {((atom id, exp), ...): Fr}

LIMIT = 6000


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 40:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


P1 = {(): Fr(1)}


def _reduce(p):
    '''sqrt(P)**2 -> P (when P is a polynomial), sin**2 -> 1 - cos**2, sign**2 -> 1, |x|**2 -> x**2.'''
    again = True
    n = 0
    while again:
        again = False
        n += 1
        if n > 60:
            raise TooBig()
        out = {}
        for m, c in p.items():
            hit = None
            for a, e in m:
                if e >= 2:
                    t = _by_id[a]
                    if t.op == 'fn' and t.args[0] in ('sqrt', 'sin', 'abs', 'sign'):
                        if t.args[0] == 'sqrt':
                            nn, dd = normal(t.args[1])
                            if dd != P1:
                                continue
                        hit = (a, e, t)
                        break
            if hit is None:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            again = True
            a, e, t = hit
            rest = tuple(x for x in m if x[0] != a)
            if e - 2:
                rest = tuple(sorted(rest + ((a, e - 2),)))
            if t.args[0] == 'sqrt':
                q = normal(t.args[1])[0]
            elif t.args[0] == 'sin':
                cc = fn('cos', t.args[1])
                q = {(): Fr(1), ((cc.id, 2),): Fr(-1)}
            elif t.args[0] == 'sign':
                q = P1
            else:
                nn, dd = normal(t.args[1])
                if dd != P1:
                    raise TooBig()
                q = pmul(nn, nn)
            out = padd(out, pmul({rest: c}, q))
        p = out
        if len(p) > LIMIT:
            raise TooBig()
    return p


def _pow(p, n):
    r = P1
    for _ in range(n):
        r = pmul(r, p)
    return r


def normal(t):
    if t.nf is not None:
        if t.nf == 'big':
            raise TooBig()
        return t.nf
    try:
        t.nf = _normal(t)
    except TooBig:
        t.nf = 'big'
        raise
    except RecursionError:
        t.nf = 'big'
        raise TooBig()
    return t.nf


def _mono_gcd_cancel(n, d):
    if not n:
        return n, P1
    # Cancel the monomial content.
    g = None
    for p in (n, d):
        for m in p:
            mm = dict(m)
            if g is None:
                g = dict(mm)
            else:
                for a in list(g):
                    e = min(g[a], mm.get(a, 0))
                    if e:
                        g[a] = e
                    else:
                        del g[a]
            if not g:
                break
        if not g:
            break
    if g:
        def dv(p):
            r = {}
            for m, c in p.items():
                mm = dict(m)
                for a, e in g.items():
                    mm[a] -= e
                    if not mm[a]:
                        del mm[a]
                r[tuple(sorted(mm.items()))] = c
            return r
        n, d = dv(n), dv(d)
    lead = d[min(d)]
    if lead != 1:
        n = {m: c / lead for m, c in n.items()}
        d = {m: c / lead for m, c in d.items()}
    # Proportional?
    if d != P1 and len(n) == len(d) and set(n) == set(d):
        k = None
        for m in n:
            r = n[m] / d[m]
            if k is None:
                k = r
            elif k != r:
                break
        else:
            return {(): k}, P1
    return n, d


def _normal(t):
    op = t.op
    if op == 'c':
        q = t.args[0]
        return ({(): q} if q else {}), P1
    if op == 'add':
        c, items = t.args
        parts = [(k, normal(u)) for k, u in items]
        n, d = ({(): c} if c else {}), P1
        for k, (pn, pd) in parts:
            if pd == d:
                n = padd(n, pn, k)
            else:
                n = padd(pmul(n, pd), pmul(pn, d), k)
                d = pmul(d, pd)
        n = _reduce(n)
        d = _reduce(d)
        return _mono_gcd_cancel(n, d)
    if op == 'mul':
        n, d = P1, P1
        for b, e in t.args[0]:
            pn, pd = normal(b)
            if e > 0:
                n = pmul(n, _pow(pn, e))
                d = pmul(d, _pow(pd, e))
            else:
                n = pmul(n, _pow(pd, -e))
                d = pmul(d, _pow(pn, -e))
            n, d = _mono_gcd_cancel(_reduce(n), _reduce(d))
            if not d:
                raise TooBig()
        return n, d
    if op == 'fn' and t.args[0] == 'sqrt':
        n, d = normal(t.args[1])
        if d != P1:
            # sqrt(n/d) = sqrt(n d)/|d|
            if _psign(d) == '+':
                s = from_poly(_reduce(pmul(n, d)))
                r = sqrt(s)
                if r is not t:
                    rn, rd = normal(r)
                    return _mono_gcd_cancel(rn, pmul(rd, d))
        else:
            r = sqrt(from_poly(n))
            if r is not t:
                return normal(r)
        return {((t.id, 1),): Fr(1)}, P1
    if op == 'fn':
        args = []
        for a in t.args[1:]:
            try:
                args.append(canon(a))
            except TooBig:
                args.append(a)
        n = t.args[0]
        r = {'abs': abs_, 'sign': sign_term}[n](*args) if n in ('abs', 'sign') else fn(n, *args)
        if r is not t:
            return normal(r)
        return {((t.id, 1),): Fr(1)}, P1
    return {((t.id, 1),): Fr(1)}, P1


def from_poly(p):
    out = []
    for m, c in sorted(p.items()):
        out.append(scale(c, mul(*[powi(_by_id[a], e) for a, e in m]) if m else ONE))
    return add(*out) if out else ZERO


def canon(t):
    n, d = normal(t)
    return div(from_poly(n), from_poly(d))


# --- sample valuations ------------------------------------------------------

K = 16


# Valuations from LARGE on have everything as many times larger.
LARGE = 100000
FACTORS = (1e3, 1e5, 1e7, 1e10)


def _value_of_var(t, k):
    name, sg, integer, lo, hi = t.args
    if k >= LARGE:
        v = _value_of_var(t, k % LARGE)
        return v if lo is not None or hi is not None else v * FACTORS[k // LARGE - 1]
    rng = random.Random('%s/%d/%d' % (name, k, SEED[0]))
    if lo is not None or hi is not None:
        lo_, hi_ = float(lo if lo is not None else -3), float(hi if hi is not None else 3)
        if integer:
            return float(rng.randint(int(lo_), int(hi_)))
        return rng.uniform(lo_, hi_)
    if integer:
        v = float(rng.randint(1, 9))
    else:
        # Vary the scale too.
        v = rng.uniform(0.15, 2.5) * (1.0, 1.0, 3.0, 0.4)[rng.randrange(4)]
    if sg in ('-', '<=0'):
        return -v
    if sg in ('+', '>=0'):
        return v
    return v if rng.random() < 0.5 else -v


SEED = [1]


def _uf(name, vals):
    h = random.Random(zlib.crc32(repr(name).encode()))
    s = h.uniform(-1, 1)
    for v in vals:
        s += math.sin(h.uniform(0.5, 2.0) * (v if isinstance(v, (int, float)) else 0.3) + h.uniform(0, 3))
    return s


def evalt(t, k):
    '''The value of the term at sample valuation k: float, bool, or None when undefined.'''
    if t.vals is not None and k in t.vals:
        return t.vals[k]
    stack = [t]
    while stack:
        u = stack[-1]
        if u.vals is not None and k in u.vals:
            stack.pop()
            continue
        todo = [c for c in children(u) if c.vals is None or k not in c.vals]
        if todo:
            stack.extend(todo)
            continue
        try:
            v = _evalop(u, k)
            if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                v = None
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            v = None
        if u.vals is None:
            u.vals = {}
        u.vals[k] = v
        stack.pop()
    return t.vals[k]


def _evalop(t, k):
    op = t.op
    if op == 'c':
        return float(t.args[0])
    if op == 'v':
        return _value_of_var(t, k)
    if op in ('nan', 'inf'):
        return None
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'bv':
        return random.Random('%s/%d/%d' % (t.args[0], k, SEED[0])).random() < 0.5
    if op == 'add':
        s = float(t.args[0])
        for c, u in t.args[1]:
            s += float(c) * u.vals[k]
        return s
    if op == 'mul':
        s = 1.0
        for b, e in t.args[0]:
            s *= b.vals[k] ** e
        return s
    if op == 'ite':
        c = t.args[0].vals[k]
        if c is None:
            return None
        return t.args[1].vals[k] if c else t.args[2].vals[k]
    if op == 'fn':
        n = t.args[0]
        xs = [a.vals[k] for a in t.args[1:]]
        if n == 'sqrt':
            if -1e-9 < xs[0] < 0:
                return 0.0
            return math.sqrt(xs[0])
        if n == 'abs':
            return abs(xs[0])
        if n == 'sign':
            return 0.0 if abs(xs[0]) < 1e-12 else math.copysign(1.0, xs[0])
        if n in ('acos', 'asin') and 1 < abs(xs[0]) < 1 + 1e-9:
            xs[0] = math.copysign(1.0, xs[0])
        if n == 'floor':
            return float(math.floor(xs[0] + 1e-9))
        if n == 'ceil':
            return float(math.ceil(xs[0] - 1e-9))
        if n == 'trunc':
            return float(math.trunc(xs[0] + math.copysign(1e-9, xs[0])))
        if n == 'rint':
            return float(round(xs[0]))
        if n == 'pow':
            return xs[0] ** xs[1]
        f = getattr(math, n)
        return f(*xs)
    if op in ('app',):
        return _uf(t.args[0], [a.vals[k] if isinstance(a, T) else (zlib.crc32(repr(a).encode()) % 1000) / 100. for a in t.args[1:]])
    if op == 'bapp':
        return _uf(t.args[0], [a.vals[k] if isinstance(a, T) else (zlib.crc32(repr(a).encode()) % 1000) / 100. for a in t.args[1:]]) > 0
    if op == 'gt':
        return t.args[0].vals[k] > 1e-12
    if op == 'eq':
        return abs(t.args[0].vals[k]) < 1e-12
    if op == 'not':
        return not t.args[0].vals[k] if t.args[0].vals[k] is not None else None
    if op == 'and':
        vs = [a.vals[k] for a in t.args]
        if False in vs:
            return False
        return None if None in vs else True
    if op == 'or':
        vs = [a.vals[k] for a in t.args]
        if True in vs:
            return True
        return None if None in vs else False
    raise ValueError(op)


PROVED, PROBABLE, DIFFERENT, UNKNOWN = 'proved', 'agrees', 'different', 'unknown'

STATS = {'proved': 0, 'agrees': 0, 'different': 0, 'unknown': 0}


def points(pc, n=K):
    '''Sample valuations which satisfy the path facts pc.'''
    out = []
    for k in range(n * 25):
        if all(evalt(c, k) is True for c in pc):
            out.append(k)
            if len(out) >= n:
                break
    return out


def large_points(pc, n=4):
    '''The same, far from what is usual: these tell what the code does past a threshold.'''
    out = []
    for i in range(len(FACTORS)):
        found = 0
        for k in range(n * 8):
            if all(evalt(c, k + (i + 1) * LARGE) is True for c in pc):
                out.append(k + (i + 1) * LARGE)
                found += 1
                if found >= n:
                    break
    return out


def gates(t):
    '''What the term asks of its inputs.'''
    out, seen, stack = [], set(), [t]
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'gt' and not closed(u):
            out.append(u)
        stack.extend(children(u))
    return out


def compare(a, b, pc=(), tol=1e-7):
    r = _compare(a, b, pc, tol)
    STATS[r[0]] += 1
    return r


def _compare(a, b, pc, tol):
    '''(verdict, sample valuation which separates them)'''
    if a is b:
        return PROVED, None
    if is_bool(a) != is_bool(b):
        return UNKNOWN, None
    if special(a) or special(b):
        if special(a) and special(b):
            return DIFFERENT, 0
        other = b if special(a) else a
        if opaque(other):
            return UNKNOWN, None
        if not flags(other) & 2:
            return DIFFERENT, 0
    if opaque(a) or opaque(b):
        # Unknown functions: only congruence is known.
        return UNKNOWN, None
    ks = points(pc) or large_points(pc)
    if not ks:
        return UNKNOWN, None
    r, k, seen = _at_points(a, b, ks, tol)
    if r:
        return r, k
    if not seen:
        return UNKNOWN, None
    if not is_bool(a):
        try:
            d = sub(a, b)
            n, _ = normal(d)
            if not n:
                return PROVED, None
        except TooBig:
            pass
    asked = gates(a) + gates(b)
    if asked:
        # Thresholds which no usual input is past.
        stuck = [(g, evalt(g, ks[0])) for g in asked if len({evalt(g, k) for k in ks}) == 1]
        if stuck:
            past = [k for k in large_points(pc) if any(evalt(g, k) not in (v, None) for g, v in stuck)]
            r, k, seen = _at_points(a, b, past, tol)
            if r:
                return r, k
    return PROBABLE, None


def _at_points(a, b, ks, tol):
    '''(DIFFERENT or PROVED or None, where, at how many they could be compared).'''
    seen = 0
    for k in ks:
        x, y = evalt(a, k), evalt(b, k)
        if x is None and y is None:
            continue
        if x is None or y is None:
            if _is_special_at(a, k) or _is_special_at(b, k):
                return DIFFERENT, k, seen
            continue
        seen += 1
        if isinstance(x, bool) or isinstance(y, bool):
            if bool(x) != bool(y):
                return DIFFERENT, k, seen
            continue
        if abs(x - y) > tol * (max(1.0, abs(x), abs(y)) if not MINUTE_INPUTS[0] else max(magn_deep(a, k, {}), magn_deep(b, k, {}))):
            if abs(x - y) <= 1e-12 * max(magn_deep(a, k, {}), magn_deep(b, k, {})):
                continue        # no more than rounding of what cancels in them
            try:
                if not is_bool(a) and not normal(sub(a, b))[0]:
                    return PROVED, None, seen
            except TooBig:
                pass
            return DIFFERENT, k, seen
    return None, None, seen


def _is_special_at(t, k):
    while t.op == 'ite':
        c = evalt(t.args[0], k)
        if c is None:
            return False
        t = t.args[1] if c else t.args[2]
    return special(t)


def show(t, depth=0):
    if depth > 8:
        return '...'
    op = t.op
    if op == 'c':
        return str(t.args[0])
    if op == 'v':
        return t.args[0]
    if op in ('nan', 'true', 'false'):
        return op
    if op == 'inf':
        return 'inf' if t.args[0] > 0 else '-inf'
    if op == 'add':
        parts = [str(t.args[0])] if t.args[0] else []
        for k, u in t.args[1]:
            s = show(u, depth + 1)
            if u.op == 'add':
                s = '(%s)' % s
            parts.append(s if k == 1 else '-' + s if k == -1 else '%s*%s' % (k, s))
        return ' + '.join(parts)
    if op == 'mul':
        return '*'.join(('(%s)' % show(b, depth + 1) if b.op == 'add' else show(b, depth + 1)) + ('' if e == 1 else '^%d' % e) for b, e in t.args[0])
    if op == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, depth + 1) for a in t.args[1:]))
    if op == 'gt':
        return '%s > 0' % show(t.args[0], depth + 1)
    if op == 'eq':
        return '%s == 0' % show(t.args[0], depth + 1)
    if op == 'bv':
        return t.args[0]
    return '%s(%s)' % (op, ', '.join(show(a, depth + 1) if isinstance(a, T) else str(a) for a in t.args))
