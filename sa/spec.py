'''
Obligation templates.

A file in /verif/spec states what the library promises as small programs over
the library's public names: it declares abstract inputs (value numbers of a
given sign and shape class), calls the library, and states relations on what
comes back. The templates are never executed: like the library's source, they
are read by the abstract interpreter, and each relation becomes an obligation on
value numbers, kinds, shapes and heap objects.

An obligation is proved, violated (the analysis derived a definite mismatch, with
no imprecision in it), or undecided (quiet, but listed in the evidence).
'''
import ast
import itertools
import os
import time
from fractions import Fraction as Fr
import traceback

import numpy as np

from . import terms as tm
from . import num
from . import sizes
from .interp import Interp, NeedSplit
from .values import *          # noqa: F401,F403
from .values import Val, term, bterm

# Seconds for one obligation, and for all of them.
EACH, ALL = 90, 600

HELD, AGREES, VIOLATION, UNDECIDED = 'held', 'agrees', 'violation', 'undecided'


class SnapV(Val):
    '''A frozen copy of a value (a tree of terms).'''
    def __init__(self, tree):
        self.tree = tree

    def __repr__(self):
        return 'Snap(%r)' % (self.tree,)


def modules_of(root, package='blmath'):
    out = []
    for d, dirs, fs in os.walk(os.path.join(root, package)):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith('.py') and not f.startswith('test_') and f != 'conftest.py':
                p = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                if p.endswith('.__init__'):
                    p = p[:-9]
                out.append(p)
    return sorted(out)


class Spec(object):
    def __init__(self, root, specdir, names, package='blmath'):
        extra = {}
        for f in os.listdir(specdir):
            if f.endswith('.py'):
                extra['spec_' + f[:-3]] = os.path.join(specdir, f)
        models = os.path.join(os.path.dirname(specdir), 'models')
        model_of = {}
        for f in os.listdir(models):
            if f.endswith('.py'):
                extra['model_' + f[:-3]] = os.path.join(models, f)
                model_of[f[:-3].replace('__', '/').replace('_', '.').replace('/', '_')] = 'model_' + f[:-3]
        self.I = I = Interp(root, package, extra=extra)
        I.model_of = model_of
        I.spec = self
        self.results = []
        self.started = time.monotonic()
        self.seen = set()
        self.root = root
        self.larger, self.many = sizes.of_source(root, package)
        install(self)
        self.model_errors = I.load_all(sorted(model_of.values()))
        self.load_errors = I.load_all(modules_of(root, package))
        self.spec_errors = I.load_all(['spec_' + n for n in names])
        self.names = names
        I.freeze()
        self.subjects = []
        inner = I.call_func

        def call_func(f, args, kwargs):
            if f.module is not None and f.module.name not in I.extra and I.module is not None and I.module.name in I.extra:
                s = (f.module.name, f.qualname, getattr(f.node, 'lineno', 0))
                if s in self.subjects:
                    self.subjects.remove(s)
                self.subjects.append(s)
            return inner(f, args, kwargs)
        I.call_func = call_func

    # --- running -----------------------------------------------------------
    def obligations(self, name):
        '''[(function, {param: value})] of a spec module.'''
        I = self.I
        m = I.modules.get('spec_' + name)
        if m is None:
            return []
        out = []
        for k, v in I.raw(m.frame).vars.items():
            if k.startswith('o_') and isinstance(v, FuncV) and v.module is m:
                ps = [x.arg for x in v.node.args.args]
                assert len(ps) == len(v.defaults), k
                for combo in itertools.product(*v.defaults):
                    out.append((v, dict(zip(ps, combo))))
        return out

    def run(self, name, only=None):
        I = self.I
        start = len(self.results)
        for f, params in self.obligations(name):
            if only and only not in f.name:
                continue
            self.run_one(name, f, params)
        return self.results[start:]

    def run_one(self, specname, f, params):
        I = self.I
        I.reset()
        I.calls = 0
        I.budget = 400000
        self.cur = (specname, f.name, params)
        self.subjects = []
        self.svd = self.eig = None
        self.scale = 1
        tm.MINUTE_INPUTS[0] = num.SLIPS[0] = False
        n0 = len(self.results)
        t0 = time.time()
        now = time.monotonic()
        tm.deadline[0] = min(now + EACH, self.started + ALL)
        try:
            tm.tick()
            I.call(f, [], dict(params))
            if len(self.results) == n0 and not I.sinks[0]:
                return          # this combination of parameters does not apply
        except Dead:
            pass
        except (Unsupported, NeedSplit) as e:
            self.record(UNDECIDED, 'the analysis does not model this: %s %s' % (type(e).__name__, e), where=I.where())
        except RecursionError:
            self.record(UNDECIDED, 'recursion limit of the analysis')
        except tm.TooBig:
            self.record(UNDECIDED, 'term too big')
        except tm.Late:
            self.record(UNDECIDED, 'no time left for this obligation')
        except Exception as e:
            # The analysis fails on this code: it says nothing about it.
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.record(UNDECIDED, 'the analysis fails here: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        tm.deadline[0] = None
        for st, exc in I.sinks[0]:
            c = I.content_in(st, exc)
            if isinstance(c, MergedC):
                v, msg = UNDECIDED, 'merged exception'
            else:
                v, msg = self.feasible(st.pc), 'raises %s' % I.show_exc(exc, st)
            self.record(v, msg, pc=st.pc, where=self.exc_where(st, exc))
        if len(self.results) == n0:
            self.record(UNDECIDED, 'no obligation was reached')
        self.results[-1]['s'] = time.time() - t0

    def exc_where(self, st, exc):
        c = self.I.content_in(st, exc)
        return c.attrs.get('$line') if isinstance(c, ObjC) else None

    def feasible(self, pc):
        '''Is a bad end on this path definite?'''
        if any(tm.opaque(c) for c in pc):
            return UNDECIDED
        if not pc:
            return VIOLATION
        return VIOLATION if tm.points(pc, 1) or tm.large_points(pc, 1) else UNDECIDED

    live = False

    def record(self, verdict, msg, pc=None, where=None, detail=None):
        I = self.I
        if pc is None:
            pc = I.st.pc
        self.results.append({
            'spec': self.cur[0], 'obligation': self.cur[1], 'params': dict(self.cur[2]),
            'verdict': verdict, 'message': msg, 'at': where or I.where(),
            'line': I.line if where is None else None,
            'facts': [tm.show(c) for c in pc][:12],
            'subjects': [self.locate(s) for s in self.subjects[-6:]],
            'detail': detail,
        })

    def locate(self, s):
        mod, qual, line = s
        m = self.I.modules.get(mod)
        p = os.path.relpath(m.path, self.root) if m is not None and m.path else mod
        return '%s:%d %s' % (p, line, qual)

    # --- trees ---------------------------------------------------------------
    def tree(self, v, depth=0, seen=()):
        '''The full content of a value, as nested tuples. Undecided joins split the statement.'''
        I = self.I
        v = I.force(v)
        if isinstance(v, SnapV):
            return v.tree
        if is_num(v):
            if ty_of(v) == 'b':
                return ('b', bterm(v))
            return ('n', term(v))
        if v is None or isinstance(v, (str, bytes)) or v is Ellipsis or v is NotImplemented:
            return ('k', v)
        if isinstance(v, (StrV, OpaqueV)):
            return ('o', v.t)
        if isinstance(v, (tuple, range)):
            return ('seq', [self.tree(x, depth + 1, seen) for x in v])
        if isinstance(v, slice):
            return ('seq', [self.tree(x, depth + 1, seen) for x in (v.start, v.stop, v.step)])
        if isinstance(v, Ref):
            if v.oid in seen:
                return ('k', 'cycle')
            seen = seen + (v.oid,)
            c = I.content(v)
            if isinstance(c, ListC):
                return ('seq', [self.tree(x, depth + 1, seen) for x in c.items])
            if isinstance(c, DictC):
                return ('map', {k: self.tree(x[1], depth + 1, seen) for k, x in c.d.items()})
            if isinstance(c, SetC):
                return ('set', set(c.d))
            if isinstance(c, ArrC):
                o, dt = I.np.get(I, v)
                return ('arr', o.shape, [self.tree(x, depth + 1, seen) for x in o.ravel()])
            if isinstance(c, ObjC):
                return ('obj', c.cls, {k: self.tree(x, depth + 1, seen) for k, x in c.attrs.items() if not k.startswith('$')}, v)
            if isinstance(c, IterC):
                return ('seq', [self.tree(x, depth + 1, seen) for x in c.items[c.pos:]])
            raise Unsupported('tree of %s' % type(c).__name__)
        if isinstance(v, np.dtype):
            return ('k', str(v))
        return ('k', v)

    def as_arr(self, t):
        '''(shape, flat) of a numeric tree or None.'''
        if t[0] == 'arr':
            return t[1], t[2]
        if t[0] in ('n', 'b'):
            return (), [t]
        if t[0] == 'seq':
            parts = [self.as_arr(x) for x in t[1]]
            if any(p is None for p in parts):
                return None
            if not parts:
                return (0,), []
            if any(p[0] != parts[0][0] for p in parts):
                return None
            return (len(parts),) + parts[0][0], [y for p in parts for y in p[1]]
        return None

    def diff(self, a, b, path, out, tol):
        '''Append (verdict, message) for each leaf of two trees.'''
        I = self.I
        if a[0] in 'nb' and b[0] in 'nb':
            ta, tb = a[1], b[1]
            if a[0] != b[0]:
                if a[0] == 'b':
                    ta = tm.ite(ta, tm.ONE, tm.ZERO)
                else:
                    tb = tm.ite(tb, tm.ONE, tm.ZERO)
            r, k = tm.compare(ta, tb, self.I.st.pc, tol)
            if r == tm.PROVED:
                out.append((HELD, ''))
            elif r == tm.PROBABLE:
                out.append((AGREES, ''))
            elif r == tm.UNKNOWN and tm.unwritten(ta) != tm.unwritten(tb) and (tm.points(self.I.st.pc) or tm.large_points(self.I.st.pc)):
                out.append((VIOLATION, '%s: %s against %s, memory which nothing was written to' % (path or 'value', clip(ta), clip(tb))))
            elif r == tm.UNKNOWN:
                out.append((UNDECIDED, '%s: %s against %s' % (path or 'value', clip(ta), clip(tb))))
            else:
                out.append((VIOLATION, '%s is %s, not %s%s' % (path or 'value', clip(ta), clip(tb), self.sample(ta, tb, k))))
            return
        if a[0] == 'o' or b[0] == 'o':
            if a[0] == b[0] and a[1] is b[1]:
                out.append((HELD, ''))
            else:
                out.append((UNDECIDED, '%s: unmodelled value %s against %s' % (path, clip(a[1]), clip(b[1]))))
            return
        if 'arr' in (a[0], b[0]):
            x, y = self.as_arr(a), self.as_arr(b)
            if x is not None and y is not None:
                if x[0] != y[0]:
                    out.append((VIOLATION, '%s has shape %s, not %s' % (path or 'value', x[0], y[0])))
                    return
                for i, (p, q) in enumerate(zip(x[1], y[1])):
                    self.diff(p, q, '%s[%s]' % (path, ','.join(str(j) for j in np.unravel_index(i, x[0])) if x[0] else ''), out, tol)
                if not x[1]:
                    out.append((HELD, ''))
                return
        if a[0] == b[0] == 'seq':
            if len(a[1]) != len(b[1]):
                out.append((VIOLATION, '%s has %d items, not %d' % (path or 'value', len(a[1]), len(b[1]))))
                return
            for i, (p, q) in enumerate(zip(a[1], b[1])):
                self.diff(p, q, '%s[%d]' % (path, i), out, tol)
            if not a[1]:
                out.append((HELD, ''))
            return
        if a[0] == b[0] == 'map':
            if set(a[1]) != set(b[1]):
                out.append((VIOLATION, '%s has keys %s, not %s' % (path or 'value', sorted(map(str, a[1])), sorted(map(str, b[1])))))
                return
            for k in a[1]:
                self.diff(a[1][k], b[1][k], '%s[%r]' % (path, k), out, tol)
            out.append((HELD, ''))
            return
        if a[0] == b[0] == 'set':
            out.append((HELD, '') if a[1] == b[1] else (VIOLATION, '%s differs' % path))
            return
        if a[0] == b[0] == 'obj':
            if a[1] is not b[1]:
                out.append((VIOLATION, '%s is a %s, not a %s' % (path or 'value', a[1].name, b[1].name)))
                return
            for k in sorted(set(a[2]) | set(b[2])):
                if k not in a[2] or k not in b[2]:
                    continue
                if k.startswith('_') and ('k', None) in (a[2][k], b[2][k]):
                    # Something worked out only once it is asked for: ask.
                    if self.live and a[2][k] != b[2][k] and isinstance(I.class_attr(a[1], k.lstrip('_')), PropertyV):
                        x, y = self.tree(I.getattr_(a[3], k.lstrip('_'))), self.tree(I.getattr_(b[3], k.lstrip('_')))
                        self.diff(x, y, '%s.%s' % (path, k.lstrip('_')), out, tol)
                    continue
                self.diff(a[2][k], b[2][k], '%s.%s' % (path, k), out, tol)
            out.append((HELD, ''))
            return
        if a[0] == b[0] == 'k':
            same = a[1] is b[1] or (type(a[1]) is type(b[1]) and a[1] == b[1])
            out.append((HELD, '') if same else (VIOLATION, '%s is %r, not %r' % (path or 'value', a[1], b[1])))
            return
        out.append((VIOLATION, '%s is %s, not %s' % (path or 'value', kind(a), kind(b))))

    def sample(self, a, b, k):
        vs = {}
        for t in (a, b):
            stack = [t]
            seen = set()
            while stack:
                u = stack.pop()
                if u.id in seen:
                    continue
                seen.add(u.id)
                if u.op == 'v':
                    vs[u.args[0]] = tm.evalt(u, k)
                stack.extend(tm.children(u))
        if len(vs) > 12 or not vs:
            return ''
        return ' (they differ at %s)' % ', '.join('%s=%.4g' % kv for kv in sorted(vs.items()))

    def conclude(self, out, msg):
        '''One result for a relation with several leaves.'''
        bad = [m for v, m in out if v == VIOLATION]
        und = [m for v, m in out if v == UNDECIDED]
        leaves = len(out)
        if bad:
            v = self.feasible(self.I.st.pc)
            self.record(v, '%s: %s' % (msg, bad[0]), detail={'leaves': leaves, 'bad': bad[:6]})
        elif und:
            self.record(UNDECIDED, '%s: %s' % (msg, und[0]), detail={'leaves': leaves, 'undecided': und[:3]})
        else:
            v = HELD if all(x[0] == HELD for x in out) else AGREES
            self.record(v, msg, detail={'leaves': leaves})


def clip(t, n=160):
    s = tm.show(t) if isinstance(t, tm.T) else str(t)
    return s if len(s) <= n else s[:n] + '...'


def kind(t):
    if t[0] == 'k':
        return repr(t[1])
    if t[0] in 'nb':
        return 'the number %s' % clip(t[1])
    if t[0] == 'arr':
        return 'an array of shape %s' % (t[1],)
    if t[0] == 'seq':
        return 'a sequence of %d' % len(t[1])
    if t[0] == 'obj':
        return 'a %s' % t[1].name
    return {'map': 'a dict', 'set': 'a set', 'o': 'an unmodelled value'}[t[0]]


def install(spec):
    I = spec.I
    E = I.ext

    def reg(f):
        E['sa.' + f.__name__.rstrip('_')] = f
        return f

    @reg
    def sizes(I, a, k):
        '''sizes(1, 2, 3): these, and those the source under analysis treats apart (many=True: with the large ones only).'''
        if k.get('many'):
            return tuple(a) + tuple([n for n in spec.many if n not in a])
        return tuple(a) + tuple([n for n in spec.larger if n not in a])

    @reg
    def sym(I, a, k):
        '''sym(name, sign='?', integer=False): any float (or int) of that sign class.'''
        name = a[0]
        sg = a[1] if len(a) > 1 else k.get('sign', '?')
        if sg in ('0', '1', '-1'):
            return float(sg)
        integer = k.get('integer', False) or sg == 'i'
        if sg == 'i':
            sg = '?'
        v = tm.var(name, sg, integer, k.get('lo'), k.get('hi'))
        if not integer and not k.get('pure') and spec.scale != 1:
            v = tm.scale(spec.scale, v)
        return Sym(v, 'i' if integer else 'f')

    @reg
    def at_scale(I, a, k):
        '''at_scale(c): from here on inputs are c times free ones, but those said to be pure numbers.'''
        spec.scale = Fr(term(a[0]).args[0])
        tm.MINUTE_INPUTS[0] = spec.scale != 1
        return a[0]

    @reg
    def slips(I, a, k):
        '''slips(what): from here on computed numbers round for the worst. 'ones': what is 1 or -1 comes out a
        rounding error past it. 'zeros': what cancels out leaves a rounding error of its first part. 'all': both. None: neither.'''
        num.SLIPS[0] = a[0]
        return a[0]

    @reg
    def derivative(I, a, k):
        '''derivative(array or number, by): the partial derivatives by a free variable.'''
        by, per = term(a[1]), 1
        if by.op == 'add' and by.args[0] == 0 and len(by.args[1]) == 1:
            per, by = by.args[1][0]

        def d(v):
            r = tm.derivative(term(v), by)
            if r is None:
                raise Unsupported('derivative of %s' % clip(term(v)))
            return Sym(tm.scale(1 / Fr(per), r), 'f', True)
        if is_num(a[0]):
            return d(a[0])
        o, dt = I.np.get(I, a[0])
        out = np.empty(o.shape, dtype=object)
        for ix in np.ndindex(*o.shape):
            out[ix] = d(o[ix])
        return I.np.new(I, out, np.dtype('f8'))

    @reg
    def svd_is(I, a, k):
        '''svd_is(u, s, vt): what svd gives from here on. svd_of() lists what it was asked to decompose.'''
        spec.svd = I.new(ListC(list(a)))
        return None

    @reg
    def svd_of(I, a, k):
        return tuple(I.content(spec.svd).items[3:])

    @reg
    def eig_is(I, a, k):
        '''eig_is(w, v): what eig gives from here on (eigh: in ascending order). eig_of() lists what it was asked to decompose.'''
        spec.eig = I.new(ListC(list(a)))
        return None

    @reg
    def eig_of(I, a, k):
        return tuple(I.content(spec.eig).items[2:])

    @reg
    def flag(I, a, k):
        return Sym(tm.bvar(a[0]), 'b')

    @reg
    def arr(I, a, k):
        '''arr(name, shape, sign='?', dtype): an array of free value numbers.'''
        name, shape = a[0], a[1]
        if isinstance(shape, int):
            shape = (shape,)
        sg = a[2] if len(a) > 2 else k.get('sign', '?')
        integer = k.get('integer', False)
        n = int(np.prod(shape)) if shape else 1
        flat = []
        for i in range(n):
            ix = '_'.join(str(j) for j in np.unravel_index(i, shape)) if shape else ''
            s = sg[i % len(sg)] if isinstance(sg, tuple) else sg
            v = tm.var('%s%s' % (name, ix), s, integer)
            if not integer and not k.get('pure') and spec.scale != 1:
                v = tm.scale(spec.scale, v)
            flat.append(0 if s == '0' else Sym(v, 'i' if integer else 'f', True))
        o = np.empty(n, dtype=object)
        for i, x in enumerate(flat):
            o[i] = x
        return I.np.new(I, o.reshape(shape), np.dtype('i8' if integer else 'f8'))

    @reg
    def assume(I, a, k):
        I.assume(bterm(a[0]) if is_num(a[0]) else I.truth(a[0]))

    @reg
    def same(I, a, k):
        '''same(actual, expected, message)'''
        x, y = spec.tree(a[0]), spec.tree(a[1])
        msg = a[2] if len(a) > 2 else 'result'
        out = []
        spec.live = not any(isinstance(I.force(v), SnapV) for v in a[:2])
        try:
            spec.diff(x, y, '', out, k.get('tol', 1e-7))
        finally:
            spec.live = False
        spec.conclude(out, msg)

    @reg
    def near(I, a, k):
        '''As same, with a looser tolerance for constants given to a few digits.'''
        x, y = spec.tree(a[0]), spec.tree(a[1])
        out = []
        spec.diff(x, y, '', out, k.get('tol', 1e-4))
        spec.conclude(out, a[2] if len(a) > 2 else 'result')

    @reg
    def differ(I, a, k):
        '''The two values are not the same.'''
        x, y = spec.tree(a[0]), spec.tree(a[1])
        out = []
        spec.diff(x, y, '', out, 1e-7)
        if any(v == VIOLATION for v, _ in out):
            spec.record(HELD, a[2])
        elif any(v == UNDECIDED for v, _ in out):
            spec.record(UNDECIDED, a[2])
        else:
            spec.record(spec.feasible(I.st.pc), '%s: they are the same' % a[2])

    @reg
    def holds(I, a, k):
        '''holds(condition, message): the truth value is True on every path.'''
        v = a[0]
        if isinstance(v, OpaqueV):
            spec.record(UNDECIDED, '%s: unmodelled' % a[1])
            return None
        t = I.truth(v) if not is_num(v) else bterm(v)
        if isinstance(t, bool):
            t = tm.TRUE if t else tm.FALSE
        t = I.simp(t)
        out = []
        if t is tm.TRUE:
            out.append((HELD, ''))
        else:
            spec.diff(('b', t), ('b', tm.TRUE), 'condition', out, 1e-7)
        spec.conclude(out, a[1])
        return None

    @reg
    def fail(I, a, k):
        spec.record(spec.feasible(I.st.pc), a[0])

    @reg
    def raises(I, a, k):
        '''raises(exception class(es) or None, message, fn, *args, **kwargs)'''
        excs, msg, fn = a[0], a[1], a[2]
        args = a[3:]
        if excs is not None and not isinstance(excs, tuple):
            excs = (excs,)
        pre = I.st.copy()
        sink = []
        I.sinks.append(sink)
        n = len(I.sinks)
        alive = True
        nctx = len(I.ctxs)
        frame, module, depth = I.frame, I.module, I.depth
        try:
            r = I.call(fn, args, k)
            post = I.st
        except Dead:
            alive = False
        finally:
            del I.sinks[n - 1:]
            del I.ctxs[nctx:]
            I.frame, I.module, I.depth = frame, module, depth
        recs = []
        ends = []
        for st, exc in sink:
            c = I.content_in(st, exc)
            ends.append((st, None))
            if isinstance(c, MergedC):
                recs.append((UNDECIDED, '%s: merged exception' % msg, st.pc, None))
                continue
            if excs is None or any(c.cls.issub(e) for e in excs if isinstance(e, ClassV)):
                recs.append((HELD, msg, st.pc, None))
            else:
                recs.append((spec.feasible(st.pc), '%s: raises %s' % (msg, I.show_exc(exc, st)), st.pc, c.attrs.get('$line')))
        if alive:
            recs.append((spec.feasible(post.pc), '%s: does not raise' % msg, post.pc, None))
        for v, m, pc, w in recs:
            spec.record(v, m, pc=pc, where=w)
        if ends:
            I.merge(ends) if len(ends) > 1 else setattr(I, 'st', ends[0][0])
        elif alive:
            I.st = post
        return None

    @reg
    def outcome(I, a, k):
        '''outcome(fn, *args): ('ok', value) or ('error', exception class name).'''
        fn, args = a[0], a[1:]
        sink = []
        I.sinks.append(sink)
        n = len(I.sinks)
        nctx = len(I.ctxs)
        frame, module, depth = I.frame, I.module, I.depth
        ends = []
        try:
            r = I.call(fn, args, k)
            ends.append((I.st, ('ok', r)))
        except Dead:
            pass
        finally:
            del I.sinks[n - 1:]
            del I.ctxs[nctx:]
            I.frame, I.module, I.depth = frame, module, depth
        for st, exc in sink:
            c = I.content_in(st, exc)
            if isinstance(c, MergedC):
                raise Unsupported('merged exception')
            ends.append((st, ('error', c.cls.name)))
        if not ends:
            raise Dead()
        return I.merge(ends)

    @reg
    def freeze(I, a, k):
        return SnapV(spec.tree(a[0]))

    @reg
    def unchanged(I, a, k):
        '''unchanged(object, snapshot, message)'''
        out = []
        spec.diff(spec.tree(a[0]), a[1].tree, '', out, 0)
        # Any difference in content is a change; new or lost attributes too.
        spec.conclude(out, a[2])

    def reach(v, out, depth=0):
        v = I.force(v)
        if isinstance(v, (tuple,)):
            for x in v:
                reach(x, out)
        elif isinstance(v, BoundV):
            reach(v.self_, out)
        elif isinstance(v, DictProxyV):
            reach(v.ref, out)
        elif isinstance(v, Ref):
            if v.oid in out:
                return
            c = I.content(v)
            if isinstance(c, ArrC):
                if c.idx.size:
                    out[c.buf.oid] = 'array'
                return
            if isinstance(c, ListC):
                out[v.oid] = 'list'
                for x in c.items:
                    reach(x, out)
            elif isinstance(c, DictC):
                out[v.oid] = 'dict'
                for _, x in c.d.values():
                    reach(x, out)
            elif isinstance(c, SetC):
                out[v.oid] = 'set'
            elif isinstance(c, ObjC):
                out[v.oid] = c.cls.name
                for x in c.attrs.values():
                    reach(x, out)
            elif isinstance(c, IterC):
                for x in c.items:
                    reach(x, out)
    spec.reach = reach

    @reg
    def apart(I, a, k):
        '''apart(result, other, message): no mutable storage in common.'''
        x, y = {}, {}
        reach(a[0], x)
        reach(a[1], y)
        both = [x[o] for o in x if o in y]
        if both:
            spec.record(spec.feasible(I.st.pc), '%s: they share %s' % (a[2], ', '.join(sorted(set(both)))))
        else:
            spec.record(HELD, a[2])

    @reg
    def private(I, a, k):
        '''private(result, message): nothing reachable that existed when the library was loaded.'''
        x = {}
        reach(a[0], x)
        both = [x[o] for o in x if o in I.base]
        if both:
            spec.record(spec.feasible(I.st.pc), '%s: shares module state (%s)' % (a[1], ', '.join(sorted(set(both)))))
        else:
            spec.record(HELD, a[1])

    @reg
    def globals_unchanged(I, a, k):
        '''No object that existed when the library was loaded differs from what it was.'''
        bad = []
        for oid, c in I.st.heap.items():
            b = I.base.get(oid)
            if b is not None and c is not b and not same_content(b, c):
                bad.append('%s' % describe(I, oid, b, c))
        if bad:
            spec.record(spec.feasible(I.st.pc), '%s: %s' % (a[0], '; '.join(bad[:3])))
        else:
            spec.record(HELD, a[0])

    @reg
    def is_type(I, a, k):
        '''is_type(value, 'ndarray' | 'float' | 'bool' | 'list' | class, message)'''
        v = I.force(a[0])
        r = I.ext_isinstance(v, a[1]) if hasattr(I, 'ext_isinstance') else None
        return r

    @reg
    def note(I, a, k):
        raise Unsupported(a[0])

    @reg
    def trap(I, a, k):
        import sys
        sys.stderr.write('TRAP %s\n' % (spec.tree(a[0]),))


def same_content(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, FrameC):
        return list(a.vars) == list(b.vars) and all(a.vars[k] is b.vars[k] or same_v(a.vars[k], b.vars[k]) for k in a.vars)
    if isinstance(a, BufC):
        return a.data.shape == b.data.shape and all(same_v(x, y) for x, y in zip(a.data, b.data))
    if isinstance(a, ListC):
        return len(a.items) == len(b.items) and all(same_v(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, DictC):
        return list(a.d) == list(b.d) and all(same_v(a.d[k][1], b.d[k][1]) for k in a.d)
    if isinstance(a, ObjC):
        return a.cls is b.cls and list(a.attrs) == list(b.attrs) and all(same_v(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, SetC):
        return list(a.d) == list(b.d)
    if isinstance(a, ArrC):
        return a.buf == b.buf and a.idx is b.idx and a.dtype == b.dtype and a.ro == b.ro
    return False


def same_v(x, y):
    if x is y:
        return True
    if is_num(x) and is_num(y):
        return ty_of(x) == ty_of(y) and (bterm(x) is bterm(y) if ty_of(x) == 'b' else term(x) is term(y))
    if isinstance(x, (Ref, str, tuple, ExtV)) and type(x) is type(y):
        return x == y
    return False


def describe(I, oid, b, c):
    for n, m in I.modules.items():
        if m.frame == oid:
            ks = [k for k in c.vars if k not in b.vars or not same_v(b.vars[k], c.vars[k])]
            return 'module %s: %s' % (n, ', '.join(ks))
    for n, m in I.modules.items():
        for k, v in I.raw(m.frame).vars.items():
            if isinstance(v, Ref) and v.oid == oid:
                return 'the value of %s.%s' % (n, k)
            if isinstance(v, ClassV) and v.ns.oid == oid:
                return 'class %s.%s' % (n, k)
    return 'an object made when the library was loaded'
