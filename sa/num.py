'''Scalar arithmetic on abstract numbers.'''
import operator

from . import terms as tm
from .values import Sym, term, ty_of, bterm, Unsupported

_NATIVE = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
           '//': operator.floordiv, '%': operator.mod, '**': operator.pow}


def isnp(v):
    return isinstance(v, Sym) and v.np


def mks(t, ty, np=False):
    return Sym(t, ty, np)


SLIPS = [False]         # rounding which does its worst: see slips() of sa/spec.py
EPS = tm.Fr(1, 2 ** 52)


def slip(t, part):
    '''A computed number which is 1 or -1 comes out a rounding error past it, and what cancels out leaves one of a part.'''
    try:
        tm.normal(t)
    except tm.TooBig:
        return t
    if SLIPS[0] in ('ones', 'all'):
        for one in (tm.ONE, tm.const(-1)):
            if tm.is_zero_term(tm.sub(t, one)):
                return tm.scale(1 + EPS, one)
    if SLIPS[0] in ('zeros', 'all') and tm.is_zero_term(t) and not tm.is_zero_term(part):
        return tm.scale(EPS, part)
    return t


def arith(op, a, b):
    '''a op b for numbers. Native numbers stay native.'''
    r = _arith(op, a, b)
    if SLIPS[0] and isinstance(r, Sym) and r.ty == 'f' and not (term(a).op == 'c' and term(b).op == 'c') and op in '+-*/':
        return Sym(slip(r.t, term(a) if op in '+-' else tm.ZERO), r.ty, r.np)
    return r


def _arith(op, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _NATIVE[op](a, b)
    np = isnp(a) or isnp(b)
    ta, tb = ty_of(a), ty_of(b)
    ty = 'f' if 'f' in (ta, tb) else 'i'
    x, y = term(a), term(b)
    if op == '+':
        t = tm.add(x, y)
    elif op == '-':
        t = tm.sub(x, y)
    elif op == '*':
        t = tm.mul(x, y)
    elif op == '/':
        ty = 'f'
        if not np and tm.is_zero_term(y):
            raise ZeroDivisionError('float division by zero')
        t = tm.div(x, y)
    elif op == '//':
        if not np and tm.is_zero_term(y):
            raise ZeroDivisionError('float floor division by zero')
        t = tm.fn('floor', tm.div(x, y))
    elif op == '%':
        if not np and tm.is_zero_term(y):
            raise ZeroDivisionError('float modulo')
        t = tm.fn('mod', x, y)
    elif op == '**':
        t, ty = _pow(x, y, ty)
    else:
        raise Unsupported('operator %s' % op)
    return Sym(t, ty, np)


def _pow(x, y, ty):
    if y.op == 'c':
        q = y.args[0]
        if q.denominator == 1 and abs(q) < 64:
            return tm.powi(x, int(q)), ty if q >= 0 else 'f'
        if q.denominator == 2:
            r = tm.powi(tm.sqrt(x), int(abs(q) * 2)) if abs(q) != tm.Fr(1, 2) else tm.sqrt(x)
            return (r if q > 0 else tm.div(tm.ONE, r)), 'f'
    if x.op == 'c' and y.op == 'c':
        return tm.const(float(x.args[0]) ** float(y.args[0])), 'f'
    return tm.fn('pow', x, y), ty


def lt(a, b):
    return tm.gt0(_diff(b, a))


def _diff(a, b):
    x, y = term(a), term(b)
    if x.op == 'inf' and y is x:
        return tm.ZERO
    return tm.sub(x, y)


def eq(a, b):
    if ty_of(a) == 'b' and ty_of(b) == 'b':
        x, y = bterm(a), bterm(b)
        return tm.ite(x, y, tm.not_(y))
    x, y = term(a), term(b)
    if x is y:
        return tm.FALSE if x is tm.NAN else tm.TRUE
    return tm.eq0(tm.sub(x, y))


def nanish(v):
    return term(v).op == 'nan'


def cmp(op, a, b):
    '''A boolean term.'''
    x, y = term(a), term(b)
    if x.op == 'ite' or y.op == 'ite':
        i = x if x.op == 'ite' else y
        if i is x:
            return tm.ite(x.args[0], cmp(op, Sym(x.args[1]), b), cmp(op, Sym(x.args[2]), b))
        return tm.ite(y.args[0], cmp(op, a, Sym(y.args[1])), cmp(op, a, Sym(y.args[2])))
    if x.op == 'nan' or y.op == 'nan':
        return tm.TRUE if op == '!=' else tm.FALSE
    if op == '<':
        return lt(a, b)
    if op == '>':
        return lt(b, a)
    if op == '<=':
        return tm.not_(lt(b, a))
    if op == '>=':
        return tm.not_(lt(a, b))
    if op == '==':
        return eq(a, b)
    if op == '!=':
        return tm.not_(eq(a, b))
    raise Unsupported('comparison %s' % op)


def minmax(vals, biggest, np=False):
    '''min or max of a sequence as a gated term.'''
    out = vals[0]
    for v in vals[1:]:
        c = cmp('>' if biggest else '<', v, out)
        out = choose(c, v, out)
    return out


def choose(c, a, b):
    if c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    np = isnp(a) or isnp(b)
    ta, tb = ty_of(a), ty_of(b)
    if ta == 'b' and tb == 'b':
        return Sym(tm.ite(c, bterm(a), bterm(b)), 'b', np)
    ty = 'f' if 'f' in (ta, tb) else 'i'
    return Sym(tm.ite(c, term(a), term(b)), ty, np)


def sb(t, np=False):
    '''A boolean term as a value: native when decided and not numpy.'''
    if not np:
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
    return Sym(t, 'b', np)


def native(v):
    '''A native number for a decided abstract one, or None.'''
    if isinstance(v, Sym):
        if v.ty == 'b':
            if v.t is tm.TRUE:
                return True
            if v.t is tm.FALSE:
                return False
            return None
        if v.t.op == 'c':
            q = v.t.args[0]
            if v.ty == 'i':
                return int(q)
            return float(q)
        if v.t.op == 'nan':
            return float('nan')
        if v.t.op == 'inf':
            return float('inf') * v.t.args[0]
        if tm.closed(v.t) and not tm.flags(v.t) & 2:
            x = tm.evalt(v.t, 0)
            return x
        return None
    return v
