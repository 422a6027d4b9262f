'''
Ownership, bounds and dataflow analysis of the compiled factorization (cholmod.c).

clang parses the source; every path through the entry point (helpers in the same
file inlined) is interpreted over symbolic sizes, with the documented contracts
of the Python, numpy and CHOLMOD functions it calls. Nothing is run.
'''
import glob
import json
import os
import re
import subprocess

SOURCE = 'blmath/numerics/linalg/cholmod.c'
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
         'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8,
         'size_t': 8, 'npy_intp': 8, 'Py_ssize_t': 8, 'Py_intptr_t': 8, 'int64_t': 8, 'int32_t': 4, 'npy_int64': 8,
         'npy_int32': 4, 'npy_double': 8, 'npy_float64': 8, 'SuiteSparse_long': 8, 'intptr_t': 8, 'ssize_t': 8, 'bool': 1, '_Bool': 1}
# numpy type numbers: (bytes, kind).
NPY = {5: (4, 'i'), 6: (4, 'u'), 7: (8, 'i'), 8: (8, 'u'), 9: (8, 'i'), 10: (8, 'u'), 11: (4, 'f'), 12: (8, 'f')}


class Undecided(Exception):
    pass


class Dead(Exception):
    '''The path ends here: what follows cannot be reached, or has been judged.'''


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Goto(Exception):
    def __init__(self, label):
        self.label = label


class Break(Exception):
    pass


class Continue(Exception):
    pass


# Values ---------------------------------------------------------------------

class Lin(object):
    '''An integer: a linear form over symbols.'''
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = tuple(sorted((s, k) for s, k in dict(t).items() if k))

    def __add__(self, o):
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, d)

    def times(self, k):
        return Lin(self.c * k, {s: v * k for s, v in self.t})

    def __sub__(self, o):
        return self + o.times(-1)

    def __eq__(self, o):
        return isinstance(o, Lin) and (self.c, self.t) == (o.c, o.t)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        out = []
        for s, k in self.t:
            out.append(s if k == 1 else '-' + s if k == -1 else '%d*%s' % (k, s))
        if self.c or not out:
            out.append(str(self.c))
        return ' + '.join(out).replace('+ -', '- ')


class Region(object):
    '''Memory, or a Python object.'''

    def __init__(self, name, kind, elem=None, size=None, role=None):
        self.name = name
        self.kind = kind            # var, data, object, array, sparse, factor, common, heap
        self.cells = {}
        self.elem = elem            # bytes of an element
        self.size = size            # number of elements, a Lin
        self.role = role            # what it holds, for the rules
        self.freed = None
        self.null = False           # False: no; None: not known yet; True
        self.risky = False          # may really be NULL: must be tested
        self.owned = 0              # references we must give up
        self.lasting = False        # somebody else keeps it alive
        self.fill = []              # (from, to, source region, source index)
        self.written = False
        self.zeroed = False
        self.typenum = None
        self.onnull = None
        self.dims = None
        self.wraps = None

    def __repr__(self):
        return self.name


class Ptr(object):
    __slots__ = ('r', 'k')

    def __init__(self, r, k=None):
        self.r = r
        self.k = k                  # None: the whole; a field name; a Lin

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r is o.r and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((id(self.r), self.k))

    def __repr__(self):
        return '&%s[%s]' % (self.r, self.k)


class Const(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NULL = Const('NULL')
UNINIT = Const('uninitialised')


class Str(object):
    def __init__(self, s):
        self.s = s


class Func(object):
    def __init__(self, name):
        self.name = name


class Float(object):
    def __init__(self, v):
        self.v = v


ZERO = Lin(0)
ONE = Lin(1)
N = Lin


# Parsing --------------------------------------------------------------------

def includes():
    out = []
    for p in sorted(glob.glob('/usr/include/python3*')) + sorted(glob.glob('/opt/venv/include/python3*')):
        if os.path.exists(os.path.join(p, 'Python.h')):
            out.append(p)
    for p in ('/opt/venv/lib/python3*/site-packages/numpy/_core/include', '/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy/_core/include'):
        out += sorted(glob.glob(p))[:1]
    out.append('/usr/include/suitesparse')
    return out


class Unit(object):
    def __init__(self, root):
        path = os.path.join(root, SOURCE)
        self.text = open(path, encoding='utf-8', errors='replace').read()
        inc = includes()
        p = subprocess.run(['clang', '-fsyntax-only', '-w'] + ['-I' + i for i in inc] + ['-Xclang', '-ast-dump=json', path],
                           capture_output=True, text=True, timeout=300)
        if p.returncode:
            raise IOError('clang: ' + p.stderr[:400])
        tree = json.loads(p.stdout)
        self.functions = {}
        self.globals = {}
        self.enums = {}
        raw = self.text.encode('utf-8', 'replace')
        for x in tree['inner']:
            k = x['kind']
            if k == 'EnumDecl':
                n = 0
                for e in x.get('inner', ()):
                    if e['kind'] != 'EnumConstantDecl':
                        continue
                    v = self.constant(e)
                    n = n if v is None else v
                    self.enums[e['name']] = n
                    n += 1
            elif k in ('FunctionDecl', 'VarDecl'):
                loc = x.get('loc', {})
                loc = loc.get('expansionLoc', loc)
                o = loc.get('offset')
                here = o is not None and raw[o:o + loc.get('tokLen', 0)] == x.get('name', '').encode()
                if k == 'FunctionDecl' and any(y['kind'] == 'CompoundStmt' for y in x.get('inner', ())):
                    if here or x.get('name', '').startswith('PyInit_'):
                        self.functions[x['name']] = x
                elif k == 'VarDecl' and here:
                    self.globals[x['name']] = x
        self.api = {}
        for i in inc:
            h = os.path.join(i, 'numpy', '__multiarray_api.h')
            if os.path.exists(h):
                for m in re.finditer(r'#define (\w+) \\\n(?:[^\n]*\\\n)*?[^\n]*PyArray_API\[(\d+)\]', open(h).read()):
                    self.api[int(m.group(2))] = m.group(1)
                break
        self.starts = [0]
        for i, c in enumerate(raw):
            if c == 10:
                self.starts.append(i + 1)

    def constant(self, e):
        for y in e.get('inner', ()):
            if 'value' in y and re.match(r'-?\d+$', str(y['value'])):
                return int(y['value'])
            v = self.constant(y)
            if v is not None:
                return v
        return None

    def line(self, node):
        b = node.get('range', {}).get('begin', {})
        b = b.get('expansionLoc', b)
        o = b.get('offset')
        if o is None:
            return None
        lo, hi = 0, len(self.starts)
        while hi - lo > 1:
            m = (lo + hi) // 2
            if self.starts[m] <= o:
                lo = m
            else:
                hi = m
        return lo + 1

    def entry(self):
        '''The function the module's method table gives for lchol_c.'''
        for g in self.globals.values():
            for row in self.rows(g):
                names = []
                self.leaves(row, names)
                if ('s', 'lchol_c') in names:
                    for kind, n in names:
                        if kind == 'f' and n in self.functions:
                            return n
        return None

    def rows(self, g):
        for y in g.get('inner', ()):
            if y['kind'] == 'InitListExpr':
                for z in y.get('inner', ()):
                    if z['kind'] == 'InitListExpr':
                        yield z

    def leaves(self, n, out):
        if n['kind'] == 'StringLiteral':
            out.append(('s', json.loads(n['value']) if n['value'].startswith('"') else n['value']))
        elif n['kind'] == 'DeclRefExpr' and n['referencedDecl'].get('kind') == 'FunctionDecl':
            out.append(('f', n['referencedDecl']['name']))
        for y in n.get('inner', ()):
            self.leaves(y, out)


def ctype(t):
    q = t.get('desugaredQualType') or t.get('qualType') or ''
    return re.sub(r'\b(const|volatile|restrict|struct)\b ?', '', q).strip(), re.sub(r'\b(const|volatile|restrict|struct)\b ?', '', t.get('qualType', '')).strip()


def sizeof(t):
    for q in ctype(t):
        if q.endswith('*'):
            return 8
        if q in SIZES:
            return SIZES[q]
        m = re.match(r'(.*?) ?\[(\d+)\]$', q)
        if m and m.group(1) in SIZES:
            return SIZES[m.group(1)] * int(m.group(2))
    return None


def pointee(t):
    for q in ctype(t):
        if q.endswith('*'):
            return sizeof({'qualType': q[:-1].strip()})
    return None


# One path -------------------------------------------------------------------

class Path(object):
    def __init__(self, unit, decisions):
        self.u = unit
        self.decisions = list(decisions)
        self.taken = []
        self.trail = []             # readable decisions
        self.bounds = {}            # homogeneous form -> [lo, hi]
        self.subst = {}
        self.exception = None
        self.common = {}            # region -> state
        self.regions = []
        self.findings = []
        self.now = None
        self.depth = 0
        self.steps = 0
        self.calls = set()
        self.memo = {}
        self.analyzed = None
        self.frames = []
        self.short = False          # something could not be allocated

    # Reporting

    def at(self):
        return '%s:%s' % (SOURCE, self.now)

    def bad(self, rule, message):
        if rule == 'null' and self.short:
            # What only running out of memory makes NULL is beyond the property.
            return
        self.findings.append((rule, message, self.at()))

    # Decisions

    def choose(self, text, options):
        '''Fork. Options: labels.'''
        i = len(self.taken)
        if i < len(self.decisions):
            k = self.decisions[i]
        else:
            k = 0
            self.decisions.append(0)
        self.taken.append((k, len(options)))
        self.trail.append('%s %s' % (text, options[k]))
        return k

    # Numbers

    def canon(self, a):
        if not isinstance(a, Lin):
            return a
        if any(s in self.subst for s, _ in a.t):
            out = Lin(a.c)
            for s, k in a.t:
                out = out + self.canon(self.subst[s]).times(k) if s in self.subst else out + Lin(0, {s: k})
            return out
        return a

    def split(self, a):
        '''a = g*h + c with h primitive and its first coefficient positive.'''
        import math
        g = 0
        for _, k in a.t:
            g = math.gcd(g, abs(k))
        if not g:
            return 0, None, a.c
        if a.t[0][1] < 0:
            g = -g
        return g, tuple((s, k // g) for s, k in a.t), a.c

    def interval(self, a):
        a = self.canon(a)
        g, h, c = self.split(a)
        if h is None:
            return c, c
        lo, hi = self.bounds.get(h, (None, None))
        if len(h) > 1:
            # From the bounds of its parts.
            l2 = h2 = 0
            for s, k in h:
                b = self.bounds.get(((s, 1),), (None, None))
                x, y = b if k > 0 else b[::-1]
                l2 = None if l2 is None or x is None else l2 + k * x
                h2 = None if h2 is None or y is None else h2 + k * y
            lo = l2 if lo is None else lo if l2 is None else max(lo, l2)
            hi = h2 if hi is None else hi if h2 is None else min(hi, h2)
        if g < 0:
            lo, hi = hi, lo
        return (None if lo is None else g * lo + c), (None if hi is None else g * hi + c)

    def sign(self, a):
        lo, hi = self.interval(a)
        out = set()
        if lo is None or lo < 0:
            out.add(-1)
        if (lo is None or lo <= 0) and (hi is None or hi >= 0):
            out.add(0)
        if hi is None or hi > 0:
            out.add(1)
        return out

    def assume(self, a, s):
        '''The sign of a is s.'''
        a = self.canon(a)
        g, h, c = self.split(a)
        if h is None:
            return
        lo, hi = self.interval(Lin(0, h))
        # g*h + c (s) 0
        if s == 0:
            if c % g:
                raise Dead()
            v = -c // g
            lo, hi = v, v
        else:
            if (s > 0) == (g > 0):
                # h > -c/g
                v = (-c) // abs(g) + 1 if g > 0 else c // abs(g) + 1
                lo = v if lo is None else max(lo, v)
            else:
                v = -((c) // abs(g)) - 1 if g > 0 else -((-c) // abs(g)) - 1
                hi = v if hi is None else min(hi, v)
        self.bounds[h] = (lo, hi)
        if s == 0 and len(h) == 2 and sorted(k for _, k in h) == [-1, 1] and h[0][0] not in self.subst:
            (a1, _), (b1, _) = h
            self.subst[b1] = Lin(-lo * (1 if h[0][1] == 1 else -1), {a1: 1})
            b = self.bounds.pop(((b1, 1),), None)
            if b:
                for bound, sg in ((b[0], 1), (b[1], -1)):
                    if bound is not None:
                        x = self.canon(Lin(0, {b1: 1})) - Lin(bound)
                        if -sg in self.sign(x):
                            self.atleast(x.times(sg), 0)

    def atleast(self, a, n):
        '''a >= n'''
        self.assume(a - Lin(n - 1), 1)

    def compare(self, op, a, b):
        d = a - b
        s = self.sign(d)
        want = {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1}, '==': {0}, '!=': {-1, 1}}[op]
        if s <= want:
            return True
        if not s & want:
            return False
        d = self.canon(d)
        groups = [s & want, s - want]
        k = self.choose('%s %s %s' % (a, op, b), ['holds', 'fails'])
        g = groups[k]
        if len(g) == 1:
            self.assume(d, list(g)[0])
        elif g == {0, 1}:
            self.atleast(d, 0)
        elif g == {-1, 0}:
            self.atleast(d.times(-1), 0)
        else:
            j = self.choose('%s' % d, ['< 0', '> 0'])
            self.assume(d, (-1, 1)[j])
        return k == 0

    def symbol(self, name, lo=None, hi=None):
        x = Lin(0, {name: 1})
        if lo is not None or hi is not None:
            self.bounds[((name, 1),)] = (lo, hi)
        return x

    # Memory

    def new(self, *a, **k):
        r = Region(*a, **k)
        self.regions.append(r)
        return r

    def alive(self, r, what):
        if r.null is None:
            if r.risky:
                self.bad('null', '%s may be NULL when %s' % (r.name, what))
                raise Dead()
            r.null = False
        if r.null:
            self.bad('null', '%s is NULL when %s' % (r.name, what))
            raise Dead()
        if r.freed:
            self.bad('use after release', '%s was released at line %s, and is used here: %s' % (r.name, r.freed, what))
            raise Dead()

    def null(self, v):
        '''Whether a pointer is NULL, forking if it is not known.'''
        if v is NULL:
            return True
        if isinstance(v, Lin):
            return self.compare('==', v, ZERO)
        if isinstance(v, (Str, Func, Const)):
            return False
        if isinstance(v, Ptr):
            r = v.r
            if r.null is None:
                k = self.choose('%s is' % r.name, ['given', 'NULL'])
                r.null = k == 1
                if r.null:
                    r.owned = 0
                    self.short = self.short or not r.risky
                if r.onnull:
                    r.onnull(r.null)
            return bool(r.null)
        raise Undecided('whether %r is NULL' % (v,))

    def truth(self, v):
        if v is UNINIT:
            self.bad('uninitialised', 'an uninitialised value is tested')
            raise Dead()
        if isinstance(v, Lin):
            return self.compare('!=', v, ZERO)
        if isinstance(v, Float):
            return v.v != 0
        return not self.null(v)

    def load(self, p, node=None):
        if p is NULL:
            self.bad('null', 'NULL is dereferenced')
            raise Dead()
        if not isinstance(p, Ptr):
            raise Undecided('a load from %r' % (p,))
        r, k = p.r, p.k
        if r.kind != 'var':
            self.alive(r, 'it is read')
        if isinstance(k, Lin):
            k = self.canon(k)
            if r.kind == 'data':
                if node is not None and sizeof(node) not in (None, r.elem) or (node is not None and not self.fits(node, r)):
                    self.bad('type', '%s has elements of %s bytes, and is read as %s' % (r.name, r.elem, ctype(node)[1]))
                self.inside(r, k, 'read')
                if k in r.cells:
                    return r.cells[k]
                if r.fill or r.written:
                    raise Undecided('a read of %s, which was written' % r.name)
                if r.zeroed:
                    return ZERO
                if r.role is None or r.elem is None:
                    self.bad('uninitialised', '%s is read before it is written' % r.name)
                    raise Dead()
                if r.role[1] == 'x' or r.typenum == 12:
                    return Const('%s[%s]' % (r.name, k))
                name = '%s[%s]' % (r.name, k)
                lo, hi = 0, None
                x = self.symbol(name, lo, hi) if name not in self.memo else self.memo[name]
                if name not in self.memo:
                    self.memo[name] = x
                    if r.role[1] == 'p' and r.role[0] == 'L' and self.nz is not None:
                        self.atleast(self.nz - x, 0)
                return x
            k = k.c if not k.t else None
            if k is None:
                raise Undecided('a symbolic index into %s' % r.name)
            if r.size is not None and not 0 <= k < r.size.c:
                self.bad('bounds', '%s is read at %d, beyond its end' % (r.name, k))
                raise Dead()
        if k not in r.cells:
            if r.zeroed:
                return ZERO
            if k is None and r.kind == 'var' and r.cells:
                return p
            if r.kind in ('sparse', 'factor', 'common', 'object', 'array') and r.role != 'local':
                raise Undecided('%s of %s' % (k, r.name))
            self.bad('uninitialised', '%s%s is read before it is set' % (r.name, '.%s' % k if isinstance(k, str) else '[%s]' % k if k is not None else ''))
            raise Dead()
        v = r.cells[k]
        if v is UNINIT:
            self.bad('uninitialised', '%s is read before it is set' % r.name)
            raise Dead()
        return v

    def fits(self, t, r):
        q = ctype(t)[0]
        if q.endswith('*'):
            return False
        fl = q in ('double', 'float', 'npy_double')
        x = r.typenum in (11, 12) or (r.role is not None and r.role[1] == 'x')
        return fl == x or r.role is None and r.typenum is None

    def inside(self, r, k, what):
        if r.size is None:
            return
        if self.sign(k) == {-1} or not self.sign(k - r.size) & {-1}:
            self.bad('bounds', '%s has %s elements, and is %s at %s' % (r.name, self.canon(r.size), what, k))
            raise Dead()

    def store(self, p, v, node=None):
        if p is NULL:
            self.bad('null', 'NULL is written through')
            raise Dead()
        if not isinstance(p, Ptr):
            raise Undecided('a store to %r' % (p,))
        r, k = p.r, p.k
        if r.kind != 'var':
            self.alive(r, 'it is written')
        if isinstance(k, Lin):
            k = self.canon(k)
            if r.kind == 'data':
                if r.role is not None and r.role[0] == 'A':
                    self.bad('input', '%s of the matrix given is written' % r.name)
                if node is not None and not self.fits(node, r):
                    self.bad('type', '%s has elements of %s bytes, and is written as %s' % (r.name, r.elem, ctype(node)[1]))
                self.inside(r, k, 'written')
                r.cells[k] = v
                r.written = True
                return
            if k.t:
                raise Undecided('a symbolic index into %s' % r.name)
            k = k.c
            if r.size is not None and not 0 <= k < r.size.c:
                self.bad('bounds', '%s is written at %d, beyond its end' % (r.name, k))
                raise Dead()
        if r.kind == 'var' and k is None:
            if isinstance(v, Ptr) and v.r.kind == 'var' and v.k is None:
                r.cells = dict(v.r.cells)
                return
        r.cells[k] = v

    # Expressions

    def lvalue(self, n):
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr'):
            return self.lvalue(n['inner'][0])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            return self.variable(d)
        if k == 'MemberExpr':
            b = n['inner'][0]
            if n.get('isArrow'):
                p = self.value(b)
                if p is NULL:
                    self.bad('null', 'NULL->%s' % n['name'])
                    raise Dead()
                if not isinstance(p, Ptr):
                    raise Undecided('->%s of %r' % (n['name'], p))
            else:
                p = self.lvalue(b)
            if p.r.kind != 'var':
                self.alive(p.r, '%s is accessed' % n['name'])
            if p.k is not None and p.r.kind == 'var' and isinstance(p.r.cells.get(p.k), Region):
                p = Ptr(p.r.cells[p.k])
            elif p.k is not None:
                # A struct inside an array or struct of ours: its own region.
                key = ('sub', p.k)
                if key not in p.r.cells:
                    p.r.cells[key] = self.new('%s[%s]' % (p.r.name, p.k), p.r.kind, role=p.r.role)
                p = Ptr(p.r.cells[key])
            return Ptr(p.r, n['name'])
        if k == 'ArraySubscriptExpr':
            base = self.value(n['inner'][0])
            i = self.value(n['inner'][1])
            if isinstance(base, Const) and base is not NULL and isinstance(i, Lin):
                return Const('%s[%s]' % (base.name, i))
            return self.shift(base, i)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return self.value(n['inner'][0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.lvalue(n['inner'][0])
        if k == 'StringLiteral':
            return self.value(n)
        raise Undecided('an lvalue of kind %s' % k)

    def shift(self, p, i):
        if not isinstance(i, Lin):
            raise Undecided('an index %r' % (i,))
        if p is NULL:
            self.bad('null', 'NULL is indexed')
            raise Dead()
        if not isinstance(p, Ptr):
            raise Undecided('an index into %r' % (p,))
        if i == ZERO:
            return p
        if p.k is None:
            if p.r.kind in ('data', 'heap') or p.r.size is not None:
                return Ptr(p.r, i)
            raise Undecided('an index into %s' % p.r.name)
        if not isinstance(p.k, Lin):
            raise Undecided('an index into %s.%s' % (p.r.name, p.k))
        return Ptr(p.r, p.k + i)

    def variable(self, d):
        name = d['name']
        for f in (self.frames[-1:] if self.frames else []):
            if d['id'] in f:
                return Ptr(f[d['id']], *self.keyed(f[d['id']]))
        if name in self.u.globals:
            g = self.u.globals[name]
            key = ('global', name)
            if key not in self.memo:
                r = self.new(name, 'var')
                self.memo[key] = r
                self.declare(g, r)
            return Ptr(self.memo[key], *self.keyed(self.memo[key]))
        return Const(name)

    def keyed(self, r):
        return (None,) if r.role in ('local', 'struct') or r.size is not None else ('value',)

    def value(self, n):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided('a long path')
        l = self.u.line(n)
        if l:
            self.now = l
        k = n['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Undecided('an expression of kind %s' % k)
        return m(n)

    def x_ParenExpr(self, n):
        return self.value(n['inner'][0])

    x_ConstantExpr = x_ParenExpr

    def x_IntegerLiteral(self, n):
        return Lin(int(n['value']))

    def x_CharacterLiteral(self, n):
        return Lin(int(n['value']))

    def x_FloatingLiteral(self, n):
        return Float(float(n['value']))

    def x_StringLiteral(self, n):
        try:
            return Str(json.loads(n['value']))
        except ValueError:
            return Str(n['value'].strip('"'))

    def x_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'FunctionDecl':
            return Func(d['name'])
        if d['kind'] == 'EnumConstantDecl':
            if d['name'] in self.u.enums:
                return Lin(self.u.enums[d['name']])
            raise Undecided('the constant %s' % d['name'])
        return self.variable(d)

    def x_MemberExpr(self, n):
        return self.lvalue(n)

    def x_ArraySubscriptExpr(self, n):
        return self.lvalue(n)

    def x_UnaryExprOrTypeTraitExpr(self, n):
        t = n.get('argType') or (n['inner'][0].get('type') if n.get('inner') else {})
        s = sizeof(t)
        if s is None:
            return Lin(0, {'sizeof(%s)' % t.get('qualType'): 1})
        return Lin(s)

    def x_ImplicitCastExpr(self, n):
        k = n.get('castKind')
        i = n['inner'][0]
        if k == 'NullToPointer':
            return NULL
        if k == 'LValueToRValue':
            p = self.lvalue(i)
            if isinstance(p, Const):
                return p
            if isinstance(p, Ptr) and p.r.kind == 'var' and p.k is None:
                return p
            return self.load(p, n['type'])
        if k == 'ArrayToPointerDecay':
            p = self.lvalue(i) if i['kind'] != 'StringLiteral' else self.value(i)
            if isinstance(p, Ptr) and p.k is None and p.r.size is not None:
                return Ptr(p.r, ZERO)
            return p
        v = self.value(i)
        if k == 'IntegralToFloating' and isinstance(v, Lin):
            return Float(float(v.c)) if not v.t else Const('float')
        if k == 'FloatingToIntegral':
            if isinstance(v, Float):
                return Lin(int(v.v))
            raise Undecided('a float made an integer')
        if k in ('PointerToBoolean',):
            return ZERO if self.null(v) else ONE
        if k == 'PointerToIntegral':
            raise Undecided('a pointer made an integer')
        if k in ('BitCast', 'NoOp') and isinstance(v, Ptr) and v.r.kind == 'heap' and v.r.elem is None:
            e = pointee(n['type'])
            if e and e != 1:
                self.heap(v.r, e)
        return v

    x_CStyleCastExpr = x_ImplicitCastExpr

    def heap(self, r, e):
        '''Memory of so many bytes gets elements.'''
        b = r.cells.pop('bytes', None)
        r.elem = e
        r.kind = 'data'
        if b is not None and all(k % e == 0 for _, k in b.t) and b.c % e == 0:
            r.size = Lin(b.c // e, {s: k // e for s, k in b.t})

    def x_UnaryOperator(self, n):
        op = n['opcode']
        i = n['inner'][0]
        if op == '&':
            j = i
            while j['kind'] == 'ParenExpr':
                j = j['inner'][0]
            if j['kind'] == 'DeclRefExpr' and j['referencedDecl']['kind'] == 'FunctionDecl':
                return Func(j['referencedDecl']['name'])
            return self.lvalue(i)
        if op == '*':
            return self.value(i)
        if op == '!':
            return ZERO if self.truth(self.value(i)) else ONE
        if op in ('++', '--'):
            p = self.lvalue(i)
            v = self.load(p, i['type'])
            if isinstance(v, Lin):
                w = v + Lin(1 if op == '++' else -1)
            elif isinstance(v, Ptr):
                w = self.shift(v, Lin(1 if op == '++' else -1))
            else:
                raise Undecided('++ of %r' % (v,))
            self.store(p, w, i['type'])
            return v if n.get('isPostfix') else w
        v = self.value(i)
        if op == '-':
            if isinstance(v, Lin):
                return v.times(-1)
            if isinstance(v, Float):
                return Float(-v.v)
        if op == '+':
            return v
        if op == '__extension__':
            return v
        raise Undecided('%s of %r' % (op, v))

    def x_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.value(b)
            if v is UNINIT:
                self.bad('uninitialised', 'an uninitialised value is used')
                raise Dead()
            p = self.lvalue(a)
            if isinstance(p, Const):
                raise Undecided('an assignment to %s' % p.name)
            if isinstance(v, Ptr) and v.r.kind == 'heap' and v.r.elem is None:
                e = pointee(a['type'])
                if e and e != 1:
                    self.heap(v.r, e)
            self.store(p, v, a['type'])
            return v
        if op == '&&':
            return ONE if self.truth(self.value(a)) and self.truth(self.value(b)) else ZERO
        if op == '||':
            return ONE if self.truth(self.value(a)) or self.truth(self.value(b)) else ZERO
        if op == ',':
            self.value(a)
            return self.value(b)
        return self.binary(op, self.value(a), self.value(b))

    def binary(self, op, x, y):
        for v in (x, y):
            if v is UNINIT:
                self.bad('uninitialised', 'an uninitialised value is used')
                raise Dead()
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if isinstance(x, Lin) and isinstance(y, Lin):
                return ONE if self.compare(op, x, y) else ZERO
            if op in ('==', '!='):
                if x is NULL or y is NULL or (isinstance(y, Lin) and y == ZERO) or (isinstance(x, Lin) and x == ZERO):
                    o = y if x is NULL or isinstance(x, Lin) else x
                    return ONE if self.null(o) == (op == '==') else ZERO
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    same = x == y
                    return ONE if same == (op == '==') else ZERO
            raise Undecided('%r %s %r' % (x, op, y))
        if isinstance(x, Lin) and isinstance(y, Lin):
            x, y = self.canon(x), self.canon(y)
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                if not x.t:
                    return y.times(x.c)
                if not y.t:
                    return x.times(y.c)
            if op in ('/', '%') and not y.t and y.c:
                if not x.t:
                    q = int(x.c / y.c)
                    return Lin(q if op == '/' else x.c - q * y.c)
                if all(k % y.c == 0 for _, k in x.t) and x.c % y.c == 0:
                    return Lin(x.c // y.c, {s: k // y.c for s, k in x.t}) if op == '/' else ZERO
            if op in ('|', '&', '^', '<<', '>>') and not x.t and not y.t:
                return Lin({'|': x.c | y.c, '&': x.c & y.c, '^': x.c ^ y.c, '<<': x.c << y.c if y.c >= 0 else 0, '>>': x.c >> y.c if y.c >= 0 else 0}[op])
        if isinstance(x, Ptr) and isinstance(y, Lin) and op in '+-':
            return self.shift(x, y if op == '+' else y.times(-1))
        if isinstance(y, Ptr) and isinstance(x, Lin) and op == '+':
            return self.shift(y, x)
        raise Undecided('%r %s %r' % (x, op, y))

    def x_CompoundAssignOperator(self, n):
        a, b = n['inner']
        p = self.lvalue(a)
        v = self.binary(n['opcode'][:-1], self.load(p, a['type']), self.value(b))
        self.store(p, v, a['type'])
        return v

    def x_ConditionalOperator(self, n):
        c, a, b = n['inner']
        return self.value(a if self.truth(self.value(c)) else b)

    def x_InitListExpr(self, n):
        raise Undecided('an initialiser list')

    def x_CallExpr(self, n):
        f = n['inner'][0]
        name = self.callee(f)
        if name == '__builtin_expect':
            return self.value(n['inner'][1])
        args = [self.value(a) for a in n['inner'][1:]]
        for a in args:
            if a is UNINIT:
                self.bad('uninitialised', 'an uninitialised value is passed to %s' % name)
                raise Dead()
        l = self.u.line(n)
        if l:
            self.now = l
        return self.call(name, args, n)

    def callee(self, f):
        while f['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') or (f['kind'] == 'UnaryOperator' and f['opcode'] in '*&'):
            f = f['inner'][0]
        if f['kind'] == 'ArraySubscriptExpr':
            names, nums = [], []

            def walk(x):
                if x['kind'] == 'DeclRefExpr':
                    names.append(x['referencedDecl']['name'])
                if x['kind'] == 'IntegerLiteral':
                    nums.append(int(x['value']))
                for y in x.get('inner', ()):
                    walk(y)
            walk(f)
            if names == ['PyArray_API'] and len(nums) == 1:
                return self.u.api.get(nums[0], 'PyArray_API[%d]' % nums[0])
        if f['kind'] == 'DeclRefExpr':
            return f['referencedDecl']['name']
        raise Undecided('a call through a pointer')

    # Statements

    def stmt(self, n):
        l = self.u.line(n)
        if l:
            self.now = l
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n)
        self.value(n)

    def s_NullStmt(self, n):
        pass

    def s_CompoundStmt(self, n):
        body = n.get('inner', ())
        i = 0
        while i < len(body):
            try:
                self.stmt(body[i])
            except Goto as g:
                for j, s in enumerate(body):
                    if self.labelled(s, g.label):
                        i = j
                        self.jumps = getattr(self, 'jumps', 0) + 1
                        if self.jumps > 50:
                            raise Undecided('a loop of gotos')
                        break
                else:
                    raise
                continue
            i += 1

    def labelled(self, s, label):
        while s['kind'] == 'LabelStmt':
            if s.get('declId') == label:
                return True
            s = s['inner'][0]
        return False

    def s_LabelStmt(self, n):
        self.stmt(n['inner'][0])

    def s_GotoStmt(self, n):
        raise Goto(n.get('targetLabelDeclId'))

    def s_BreakStmt(self, n):
        raise Break()

    def s_ContinueStmt(self, n):
        raise Continue()

    def s_ReturnStmt(self, n):
        v = self.value(n['inner'][0]) if n.get('inner') else None
        l = self.u.line(n)
        if l:
            self.now = l
        raise Return(v)

    def s_IfStmt(self, n):
        parts = n['inner']
        if self.truth(self.value(parts[0])):
            self.stmt(parts[1])
        elif len(parts) > 2:
            self.stmt(parts[2])

    def s_DeclStmt(self, n):
        for d in n['inner']:
            if d['kind'] == 'VarDecl':
                r = self.new(d['name'], 'var')
                self.frames[-1][d['id']] = r
                self.declare(d, r)

    def declare(self, d, r):
        q = ctype(d['type'])
        m = re.match(r'(.*?) ?\[(\d+)\]$', q[0])
        if m:
            r.size = Lin(int(m.group(2)))
            r.elem = SIZES.get(m.group(1).strip())
        elif not q[0].endswith('*') and not any(x in SIZES for x in q) and not q[0].startswith('enum'):
            r.role = 'struct'
            kind = {'cholmod_common': 'common', 'cholmod_common_struct': 'common'}.get(q[1].split('::')[-1]) or {'cholmod_common_struct': 'common'}.get(q[0])
            r.ctype = kind
        else:
            r.cells['value'] = UNINIT
        init = [y for y in d.get('inner', ()) if y['kind'].endswith(('Expr', 'Literal', 'Operator'))]
        if not init:
            return
        e = init[0]
        while e['kind'] in ('ParenExpr',):
            e = e['inner'][0]
        if e['kind'] == 'InitListExpr':
            r.zeroed = True
            if r.size is not None:
                items = e.get('inner') or e.get('array_filler') or []
                items = [y for y in items if y['kind'] != 'ImplicitValueInitExpr']
                for i, y in enumerate(items):
                    if y['kind'] == 'InitListExpr':
                        raise Undecided('an array of structs')
                    r.cells[i] = self.value(y)
                return
            items = e.get('inner') or []
            if all(y['kind'] == 'ImplicitValueInitExpr' or (y['kind'] in ('IntegerLiteral', 'ImplicitCastExpr') and self.u.constant({'inner': [y]}) == 0) for y in items):
                return
            raise Undecided('a struct initialiser')
        v = self.value(e)
        if v is UNINIT:
            self.bad('uninitialised', 'an uninitialised value is used')
            raise Dead()
        if r.role == 'struct':
            if isinstance(v, Ptr) and v.r.kind == 'var':
                r.cells = dict(v.r.cells)
                return
            raise Undecided('a struct copied')
        if isinstance(v, Ptr) and v.r.kind == 'heap' and v.r.elem is None:
            b = pointee(d['type'])
            if b and b != 1:
                self.heap(v.r, b)
        r.cells['value'] = v

    def s_WhileStmt(self, n):
        cond, body = n['inner'][0], n['inner'][-1]
        self.loop(cond, None, body, n)

    def s_DoStmt(self, n):
        body, cond = n['inner']
        v = self.u.constant({'inner': [cond]}) if cond['kind'] in ('IntegerLiteral', 'ImplicitCastExpr', 'ParenExpr') else None
        if v == 0:
            try:
                self.stmt(body)
            except (Break, Continue):
                pass
            return
        try:
            self.stmt(body)
        except Break:
            return
        except Continue:
            pass
        self.loop(cond, None, body, n)

    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        if init.get('kind'):
            self.stmt(init)
        self.loop(cond, inc, body, n)

    def loop(self, cond, inc, body, n):
        '''Concrete iterations, or one general iteration of a copy.'''
        for _ in range(200):
            if cond.get('kind'):
                g = self.general(cond, inc, body)
                if g:
                    return
                if not self.truth(self.value(cond)):
                    return
            try:
                self.stmt(body)
            except Break:
                return
            except Continue:
                pass
            if inc is not None and inc.get('kind'):
                self.value(inc)
        raise Undecided('a long loop')

    def general(self, cond, inc, body):
        '''for (i = a; i < b; i++) with b symbolic: what one iteration stores, for all of them.'''
        c = cond
        while c['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            c = c['inner'][0]
        if c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '!=', '<='):
            return False
        v = c['inner'][0]
        while v['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
            v = v['inner'][0]
        if v['kind'] != 'DeclRefExpr':
            return False
        p = self.lvalue(v)
        lo = self.load(p)
        hi = self.value(c['inner'][1])
        if not isinstance(lo, Lin) or not isinstance(hi, Lin):
            return False
        lo, hi = self.canon(lo), self.canon(hi)
        if c['opcode'] == '<=':
            hi = hi + ONE
        if not (hi - lo).t:
            return False
        if inc is None or not inc.get('kind') or inc['kind'] != 'UnaryOperator' or inc['opcode'] != '++':
            raise Undecided('a loop which is not a count')
        if 1 not in self.sign(hi - lo):
            self.store(p, lo)
            return True
        if self.sign(hi - lo) - {1}:
            if self.compare('<=', hi, lo):
                return True
        i = self.symbol('i%d' % self.steps)
        self.assume(i - lo + ONE, 1)
        self.assume(hi - i, 1)
        before = {r: dict(r.cells) for r in self.regions}
        written = {r: r.written for r in self.regions}
        n0 = len(self.regions)
        self.store(p, i)
        try:
            self.stmt(body)
        except (Break, Continue, Goto):
            raise Undecided('a loop which is left early')
        if self.load(p) != i:
            raise Undecided('a loop which changes its counter')
        for r in self.regions[:n0]:
            for k, x in r.cells.items():
                if k in before[r] and before[r][k] == x:
                    continue
                if r is p.r and k == p.k:
                    continue
                if r.kind != 'data' or not isinstance(k, Lin):
                    raise Undecided('a loop which changes %s' % r.name)
                src = self.source(x)
                if src is None:
                    raise Undecided('a loop which computes')
                # [lo', hi') from source at an offset
                d = k - i
                e = src[1] - i
                if any(s == i.t[0][0] for s, _ in d.t + e.t):
                    raise Undecided('a loop with a stride')
                if not self.sign(lo + d) <= {0, 1} or (r.size is not None and not self.sign(hi + d - r.size) <= {-1, 0}):
                    if r.size is not None and self.sign(hi + d - r.size) == {1}:
                        self.bad('bounds', '%s has %s elements, and is written up to %s' % (r.name, r.size, hi + d))
                    else:
                        raise Undecided('the bounds of a loop')
                s = src[0]
                if s.size is not None and not self.sign(hi + e - s.size) <= {-1, 0}:
                    if self.sign(hi + e - s.size) == {1}:
                        self.bad('bounds', '%s has %s elements, and is read up to %s' % (s.name, s.size, hi + e))
                    else:
                        raise Undecided('the bounds of a loop')
                r.cells = before[r]
                r.written = written[r]
                r.fill.append((lo + d, hi + d, s, lo + e))
        self.store(p, hi)
        return True

    def source(self, x):
        name = x.name if isinstance(x, Const) else x.t[0][0] if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 else None
        if name is None:
            return None
        for r in self.regions:
            if r.kind == 'data' and name.startswith(r.name + '['):
                for k in self.indices(r, name):
                    return r, k
        return None

    def indices(self, r, name):
        inner = name[len(r.name) + 1:-1]
        # The index as printed is that of the loop's symbol, or nothing.
        m = re.match(r'^(i\d+)(?: ([+-]) (\d+))?$', inner)
        if m:
            yield Lin(int((m.group(2) or '+') + (m.group(3) or '0')), {m.group(1): 1})

    # Calls

    def call(self, name, args, node):
        self.calls.add(name)
        m = getattr(self, 'f_' + name, None)
        if m:
            return m(args, node)
        if name in self.u.functions:
            f = self.u.functions[name]
            self.depth += 1
            if self.depth > 20:
                raise Undecided('recursion')
            frame = {}
            ps = [y for y in f.get('inner', ()) if y['kind'] == 'ParmVarDecl']
            for p, a in zip(ps, args):
                r = self.new(p.get('name', '?'), 'var')
                if isinstance(a, Ptr) and a.r.kind == 'heap' and a.r.elem is None:
                    e = pointee(p['type'])
                    if e and e != 1:
                        self.heap(a.r, e)
                r.cells['value'] = a
                frame[p['id']] = r
            self.frames.append(frame)
            body = [y for y in f['inner'] if y['kind'] == 'CompoundStmt'][0]
            try:
                self.stmt(body)
                v = None
            except Return as e:
                v = e.value
            self.frames.pop()
            self.depth -= 1
            return v
        raise Undecided('a call of %s' % name)

    def obj(self, v, what):
        if v is NULL:
            self.bad('null', 'NULL is passed to %s' % what)
            raise Dead()
        if not isinstance(v, Ptr):
            raise Undecided('%r passed to %s' % (v, what))
        self.alive(v.r, 'passed to %s' % what)
        return v.r

    def fresh_object(self, name, kind='object', maybe=True):
        r = self.new(name, kind)
        r.owned = 1
        r.null = None if maybe else False

        def onnull(isnull):
            if isnull:
                self.exception = 'of %s' % name
        r.onnull = onnull
        return r

    # Python

    def f_PyArg_ParseTuple(self, args, node):
        r = self.obj(args[0], 'PyArg_ParseTuple')
        if not isinstance(args[1], Str):
            raise Undecided('a format')
        fmt = args[1].s
        body = re.split('[:;]', fmt)[0]
        if r.role == 'args':
            if body.replace('|', '') != 'O' or len(args) != 3:
                self.bad('arguments', 'the arguments are parsed as %r into %d variables; the caller passes one matrix' % (fmt, len(args) - 2))
                raise Dead()
            if self.choose('the arguments', ['are one matrix', 'are not']):
                self.exception = 'of PyArg_ParseTuple'
                return ZERO
            a = self.new('the matrix', 'object', role='matrix')
            a.lasting = True
            self.store(args[2], Ptr(a))
            return ONE
        if r.role == 'shape' and re.match('^[lniL]{2}$', body) and len(args) == 4:
            for i in (0, 1):
                self.store(args[2 + i], self.dimension(i))
            return ONE
        raise Undecided('PyArg_ParseTuple of %s' % r.name)

    def f_PyArg_UnpackTuple(self, args, node):
        return self.f_PyArg_ParseTuple([args[0], Str('O')] + args[4:], node)

    def dimension(self, i):
        return self.symbol(('nrow', 'ncol')[i], 0) if ('nrow', 'ncol')[i] not in self.memo else self.memo[('nrow', 'ncol')[i]]

    def f_PyObject_GetAttrString(self, args, node):
        r = self.obj(args[0], 'PyObject_GetAttrString')
        if r.role != 'matrix' or not isinstance(args[1], Str):
            raise Undecided('an attribute of %s' % r.name)
        a = args[1].s
        if a not in ('shape', 'indptr', 'indices', 'data', 'nnz'):
            raise Undecided('the attribute %s' % a)
        o = self.fresh_object('matrix.%s' % a, 'array' if a in ('indptr', 'indices', 'data') else 'object')
        o.role = a
        o.lasting = a != 'nnz'
        if a in ('indptr', 'indices', 'data'):
            if a not in self.memo:
                # One array, however often it is asked for.
                size = {'indptr': 'len(indptr)', 'indices': 'len(indices)', 'data': 'len(indices)'}[a]
                d = self.new(a, 'data', 8, self.symbol(size, 0), role=('A', {'indptr': 'p', 'indices': 'i', 'data': 'x'}[a]))
                d.typenum = 12 if a == 'data' else 7
                self.memo[a] = d
            o.cells['data'] = self.memo[a]
            o.dims = [self.memo[a].size]
            o.typenum = self.memo[a].typenum
        return Ptr(o)

    def f_PyTuple_GetItem(self, args, node):
        r = self.obj(args[0], 'PyTuple_GetItem')
        if r.freed_object():
            self.bad('references', '%s is used after its reference was given up' % r.name)
            raise Dead()
        if r.role != 'shape' or not isinstance(args[1], Lin) or args[1] not in (ZERO, ONE):
            raise Undecided('an item of %s' % r.name)
        o = self.new('matrix.shape[%d]' % args[1].c, 'object', role=('int', args[1].c))
        o.lasting = True
        return Ptr(o)

    f_PyTuple_GET_ITEM = f_PyTuple_GetItem

    def f_PySequence_GetItem(self, args, node):
        p = self.f_PyTuple_GetItem(args, node)
        p.r.owned = 1
        return p

    def f_PyLong_AsLong(self, args, node):
        r = self.obj(args[0], 'PyLong_AsLong')
        if r.freed_object():
            self.bad('references', '%s is used after its reference was given up' % r.name)
            raise Dead()
        if isinstance(r.role, tuple) and r.role[0] == 'int':
            return self.dimension(r.role[1])
        if r.role == 'nnz':
            if 'nnz' not in self.memo:
                self.memo['nnz'] = self.symbol('nnz', 0)
            return self.memo['nnz']
        raise Undecided('the integer %s' % r.name)

    f_PyLong_AsSsize_t = f_PyLong_AsLong
    f_PyLong_AsLongLong = f_PyLong_AsLong
    f_PyNumber_AsSsize_t = lambda self, args, node: self.f_PyLong_AsLong(args[:1], node)

    def f_Py_DECREF(self, args, node):
        r = self.obj(args[0], 'Py_DECREF')
        if r.kind not in ('object', 'array'):
            raise Undecided('Py_DECREF of %s' % r.name)
        if r.owned <= 0:
            self.bad('references', 'a reference to %s is given up which is not held' % r.name)
            return None
        r.owned -= 1
        if not r.owned:
            r.gone = self.now
            if r.kind == 'array' and r.role is None:
                r.freed = self.now
                d = r.cells.get('data')
                if d is not None and r.wraps is None:
                    d.freed = self.now
        return None

    f__Py_DECREF = f_Py_DECREF

    def f_Py_XDECREF(self, args, node):
        if self.null(args[0]):
            return None
        return self.f_Py_DECREF(args, node)

    def f_Py_INCREF(self, args, node):
        r = self.obj(args[0], 'Py_INCREF')
        r.owned += 1

    def f_Py_XINCREF(self, args, node):
        if not self.null(args[0]):
            self.f_Py_INCREF(args, node)

    def f__Py_NewRef(self, args, node):
        self.f_Py_INCREF(args, node)
        return args[0]

    f_Py_NewRef = f__Py_NewRef

    def f_PyErr_SetString(self, args, node):
        self.exception = 'set at line %s' % self.now

    f_PyErr_Format = f_PyErr_SetString
    f_PyErr_SetNone = f_PyErr_SetString

    def f_PyErr_NoMemory(self, args, node):
        self.exception = 'set at line %s' % self.now
        return NULL

    def f_PyErr_Clear(self, args, node):
        self.exception = None

    def f_PyErr_Occurred(self, args, node):
        return ONE if self.exception else ZERO

    def f_Py_BuildValue(self, args, node):
        if not isinstance(args[0], Str):
            raise Undecided('a format')
        fmt = args[0].s
        codes = re.sub(r'[\s,:]', '', fmt)
        inner = codes[1:-1] if codes[:1] in '([' and codes[-1:] in ')]' else codes
        if not re.match('^[NOSilnLkKIdh]*$', inner):
            raise Undecided('the format %r' % fmt)
        if len(inner) != len(args) - 1:
            self.bad('result', 'the format %r takes %d values, and %d are given' % (fmt, len(inner), len(args) - 1))
            raise Dead()
        items = []
        for c, a in zip(inner, args[1:]):
            if c in 'NOS':
                r = self.obj(a, 'Py_BuildValue')
                if r.kind not in ('object', 'array'):
                    raise Undecided('%s passed to Py_BuildValue' % r.name)
                if r.owned <= 0 and not r.lasting:
                    self.bad('references', '%s is passed to Py_BuildValue with no reference held' % r.name)
                if c == 'N':
                    if r.owned <= 0:
                        self.bad('references', 'a reference to %s is given away which is not held' % r.name)
                    r.owned -= 1
                r.kept = True
                items.append(r)
            elif c in 'd':
                items.append(a)
            else:
                if not isinstance(a, Lin):
                    self.bad('result', 'the format %r takes an integer where %r is given' % (fmt, a))
                    raise Dead()
                items.append(self.canon(a))
        o = self.fresh_object('the result')
        o.null = False
        o.items = items
        return Ptr(o)

    def f_PyLong_FromLong(self, args, node):
        o = self.fresh_object('an integer')
        o.number = args[0]
        return Ptr(o)

    def f_PyList_New(self, args, node):
        raise Undecided('a list')

    # numpy

    def array(self, dims, typenum, data=None):
        if len(dims) != 1:
            self.bad('result', 'an array of %d dimensions is made' % len(dims))
            raise Dead()
        if not isinstance(typenum, Lin) or typenum.c not in NPY:
            self.bad('result', 'an array of type number %s is made' % typenum)
            raise Dead()
        size = self.canon(dims[0])
        o = self.fresh_object('the array made at line %s' % self.now, 'array')
        o.dims = [size]
        o.typenum = typenum.c
        if data is None:
            d = self.new('the data of %s' % o.name, 'data', NPY[typenum.c][0], size)
            d.typenum = typenum.c
        else:
            d = data.r
            o.wraps = d
        o.cells['data'] = d
        return o

    def f_PyArray_New(self, args, node):
        nd, dims, typ, data = args[1], args[2], args[3], args[5]
        if not isinstance(nd, Lin) or nd.t:
            raise Undecided('the dimensions of an array')
        ds = [self.load(self.shift(dims, Lin(i)), {'qualType': 'long'}) for i in range(nd.c)]
        return Ptr(self.array(ds, typ, None if data is NULL else data))

    def f_PyArray_DescrFromType(self, args, node):
        o = self.new('a dtype', 'object', role='dtype')
        o.lasting = True
        o.number = args[0]
        return Ptr(o)

    def f_PyArray_Zeros(self, args, node):
        nd, dims, typ = args[0], args[1], args[2]
        ds = [self.load(self.shift(dims, Lin(i)), {'qualType': 'long'}) for i in range(nd.c)]
        o = self.array(ds, typ.r.number)
        o.cells['data'].zeroed = True
        return Ptr(o)

    def f_PyArray_Empty(self, args, node):
        nd, dims, typ = args[0], args[1], args[2]
        ds = [self.load(self.shift(dims, Lin(i)), {'qualType': 'long'}) for i in range(nd.c)]
        return Ptr(self.array(ds, typ.r.number))

    def arr(self, v, what):
        r = self.obj(v, what)
        if r.kind != 'array':
            raise Undecided('%s of %s' % (what, r.name))
        return r

    def f_PyArray_DATA(self, args, node):
        return Ptr(self.arr(args[0], 'PyArray_DATA').cells['data'], ZERO)

    f_PyArray_BYTES = f_PyArray_DATA

    def f_PyArray_NDIM(self, args, node):
        self.arr(args[0], 'PyArray_NDIM')
        return ONE

    def f_PyArray_DIMS(self, args, node):
        r = self.arr(args[0], 'PyArray_DIMS')
        if 'dims' not in r.cells:
            d = self.new('the shape of %s' % r.name, 'var', 8, ONE)
            d.cells[0] = r.dims[0]
            r.cells['dims'] = d
        return Ptr(r.cells['dims'], ZERO)

    f_PyArray_SHAPE = f_PyArray_DIMS

    def f_PyArray_DIM(self, args, node):
        return self.arr(args[0], 'PyArray_DIM').dims[0]

    def f_PyArray_ITEMSIZE(self, args, node):
        r = self.arr(args[0], 'PyArray_ITEMSIZE')
        return Lin(NPY[r.typenum][0])

    def f_PyArray_TYPE(self, args, node):
        return Lin(self.arr(args[0], 'PyArray_TYPE').typenum)

    def f_PyArray_MultiplyList(self, args, node):
        return self.load(args[0], {'qualType': 'long'})

    def f_PyArray_Size(self, args, node):
        return self.arr(args[0], 'PyArray_Size').dims[0]

    # libc

    def extent(self, p):
        '''The region, the byte offset and the bytes of what a pointer points to.'''
        if p is NULL:
            self.bad('null', 'NULL is passed')
            raise Dead()
        if not isinstance(p, Ptr):
            raise Undecided('%r' % (p,))
        if p.r.kind != 'var':
            self.alive(p.r, 'its memory is used')
        k = p.k if isinstance(p.k, Lin) else ZERO if p.k is None else None
        if k is None or p.r.elem is None:
            raise Undecided('the memory of %s' % p.r.name)
        return p.r, k.times(p.r.elem), p.r.size.times(p.r.elem) if p.r.size is not None else None

    def f_memcpy(self, args, node):
        d, do, ds = self.extent(args[0])
        s, so, ss = self.extent(args[1])
        n = args[2]
        if not isinstance(n, Lin):
            raise Undecided('the length of memcpy')
        n = self.canon(n)
        if d.kind == 'data' and d.role is not None and d.role[0] == 'A':
            self.bad('input', '%s of the matrix given is written' % d.name)
        for what, off, size, r in (('writes', do, ds, d), ('reads', so, ss, s)):
            over = self.sign(off + n - self.canon(size)) if size is not None else {0}
            if 1 in over:
                self.bad('bounds', 'memcpy %s %s bytes of %s, which has %s' % (what, n, r.name, self.canon(size)))
                raise Dead()
        if d.elem != s.elem or (d.typenum == 12) != (s.typenum == 12 or (s.role is not None and s.role[1] == 'x')):
            self.bad('type', '%s is copied to %s, which is of another type' % (s.name, d.name))
        if s.fill or s.written:
            raise Undecided('a copy of %s, which was written' % s.name)
        e = d.elem

        def units(x):
            if x.c % e or any(k % e for _, k in x.t):
                raise Undecided('%s bytes' % x)
            return Lin(x.c // e, {a: k // e for a, k in x.t})
        d.fill.append((units(do), units(do + n), s, units(so)))
        return args[0]

    f_memmove = f_memcpy
    f___builtin_memcpy = f_memcpy

    def f___builtin___memcpy_chk(self, args, node):
        return self.f_memcpy(args[:3], node)

    def f_memset(self, args, node):
        p = args[0]
        if isinstance(p, Ptr) and p.r.kind == 'var' and p.k is None and args[1] == ZERO:
            p.r.cells = {}
            p.r.zeroed = True
            return p
        raise Undecided('memset')

    def f_printf(self, args, node):
        return self.symbol('printed%d' % self.steps)

    f_fprintf = f_printf
    f_puts = f_printf
    f_PySys_WriteStderr = f_printf

    def f_malloc(self, args, node):
        r = self.new('the memory allocated at line %s' % self.now, 'heap')
        r.cells['bytes'] = args[0]
        r.null = None
        r.heap = True
        return Ptr(r, ZERO)

    def f_calloc(self, args, node):
        r = self.f_malloc([self.binary('*', args[0], args[1])], node).r
        r.zeroed = True
        return Ptr(r, ZERO)

    def f_free(self, args, node):
        if self.null(args[0]):
            return
        r = self.obj(args[0], 'free')
        if not getattr(r, 'heap', False):
            self.bad('memory', '%s is passed to free, and was not allocated by malloc' % r.name)
            raise Dead()
        r.freed = self.now

    f_PyMem_Malloc = f_malloc
    f_PyMem_Free = f_free

    # CHOLMOD

    def cm(self, v, what):
        if not isinstance(v, Ptr) or v.r.role != 'struct':
            raise Undecided('the Common of %s' % what)
        st = self.common.get(v.r)
        if what not in ('cholmod_l_start',) and st is None:
            self.bad('memory', '%s is called before cholmod_l_start' % what)
            raise Dead()
        return v.r

    DEFAULTS = {'final_asis': 1, 'final_super': 1, 'final_ll': 0, 'final_pack': 1, 'final_monotonic': 1, 'final_resymbol': 0,
                'nmethods': 0, 'postorder': 1, 'supernodal': 1, 'print': 3, 'status': 0, 'quick_return_if_not_posdef': 0,
                'prefer_zomplex': 0, 'current': 0, 'selected': 0}

    def f_cholmod_l_start(self, args, node):
        r = self.cm(args[0], 'cholmod_l_start')
        if self.common.get(r) == 'started':
            self.bad('memory', 'Common is started twice: what it held is lost')
        self.common[r] = 'started'
        for k, v in self.DEFAULTS.items():
            r.cells[k] = Lin(v)
        return ONE

    def f_cholmod_l_defaults(self, args, node):
        r = self.cm(args[0], 'cholmod_l_defaults')
        for k, v in self.DEFAULTS.items():
            r.cells[k] = Lin(v)
        return ONE

    def f_cholmod_l_finish(self, args, node):
        r = self.cm(args[0], 'cholmod_l_finish')
        self.common[r] = 'finished'
        return ONE

    def started(self, r, what):
        if self.common.get(r) != 'started':
            self.bad('memory', '%s is called after cholmod_l_finish' % what)
            raise Dead()

    def describe(self, p, what):
        '''The matrix description passed to cholmod is that of the matrix given.'''
        r = p.r
        g = lambda f: self.load(Ptr(r, f))
        vals = {}
        for f in ('nrow', 'ncol', 'nzmax', 'p', 'i', 'x', 'packed', 'sorted', 'itype', 'xtype', 'dtype', 'stype'):
            vals[f] = g(f)
        rule = 'description'
        for f in ('nrow', 'ncol', 'nzmax', 'packed', 'sorted', 'itype', 'xtype', 'dtype', 'stype'):
            if not isinstance(vals[f], Lin):
                raise Undecided('%s of the matrix' % f)
            vals[f] = self.canon(vals[f])
        dims = [self.canon(self.dimension(0)), self.canon(self.dimension(1))]
        got = [vals['nrow'], vals['ncol']]
        if got != dims and got != dims[::-1]:
            self.bad(rule, 'the matrix is described as %s by %s, and is %s by %s' % (got[0], got[1], dims[0], dims[1]))
        nz = vals['nzmax']
        if nz not in (self.canon(self.memo.get('nnz', ZERO)), self.canon(self.symbol('len(indices)', 0))):
            if not nz.t or {s for s, _ in nz.t} & {'nrow', 'ncol', 'len(indptr)', 'nnz', 'len(indices)'}:
                self.bad(rule, 'nzmax is %s, and the matrix has nnz entries' % nz)
            else:
                raise Undecided('nzmax of the matrix')
        for f, a in (('p', 'indptr'), ('i', 'indices'), ('x', 'data')):
            v = vals[f]
            if v is NULL or (isinstance(v, Ptr) and (v.r.role != ('A', f) or v.k != ZERO)):
                if isinstance(v, Ptr) and v.r.role is None:
                    raise Undecided('%s of the matrix is copied' % f)
                self.bad(rule, '%s is %s, and should be the data of matrix.%s' % (f, v, a))
            elif not isinstance(v, Ptr):
                raise Undecided('%s of the matrix' % f)
            else:
                self.alive(v.r, 'given to %s' % what)
        for f, want, text in (('itype', 2, 'CHOLMOD_LONG (the indices are 64-bit)'), ('xtype', 1, 'CHOLMOD_REAL'), ('dtype', 0, 'CHOLMOD_DOUBLE')):
            if vals[f] != Lin(want):
                self.bad(rule, '%s is %s, and should be %s' % (f, vals[f], text))
        if vals['packed'] == ZERO:
            self.bad(rule, 'the matrix is described as unpacked, with no column counts')
        if self.sign(vals['stype']) != {-1}:
            self.bad(rule, 'stype is %s: the lower triangle of a symmetric matrix is to be used' % vals['stype'])

    def f_cholmod_l_analyze(self, args, node):
        c = self.cm(args[1], 'cholmod_l_analyze')
        self.started(c, 'cholmod_l_analyze')
        a = args[0]
        if not isinstance(a, Ptr) or a.r.role != 'struct':
            raise Undecided('the matrix of cholmod_l_analyze')
        self.describe(a, 'cholmod_l_analyze')
        self.analyzed = dict(a.r.cells)
        r = self.new('L', 'factor', role='L')
        r.null = None
        r.risky = True
        ncol = self.dimension(1)

        def onnull(isnull):
            if not isnull:
                self.square()
        r.onnull = onnull
        r.cells['n'] = ncol
        r.cells['minor'] = ncol
        r.cells['is_ll'] = Lin(0)
        perm = self.new('L->Perm', 'data', 8, ncol, role=('L', 'Perm'))
        perm.typenum = 7
        r.cells['Perm'] = Ptr(perm, ZERO)
        r.numeric = False
        r.ll = None
        return Ptr(r)

    def square(self):
        d = self.canon(self.dimension(0)) - self.canon(self.dimension(1))
        if d != ZERO:
            self.assume(d, 0)

    def factorof(self, v, what):
        r = self.obj(v, what)
        if r.kind != 'factor':
            raise Undecided('%s of %s' % (what, r.name))
        return r

    def f_cholmod_l_factorize(self, args, node):
        c = self.cm(args[2], 'cholmod_l_factorize')
        self.started(c, 'cholmod_l_factorize')
        if not isinstance(args[0], Ptr) or args[0].r.role != 'struct':
            raise Undecided('the matrix of cholmod_l_factorize')
        if isinstance(args[1], Ptr) and args[1].r.null is None and not args[1].r.freed:
            # A NULL factor is refused by cholmod itself.
            if self.null(args[1]):
                return ZERO
        if args[1] is NULL:
            return ZERO
        L = self.factorof(args[1], 'cholmod_l_factorize')
        self.describe(args[0], 'cholmod_l_factorize')
        g = lambda f: self.canon(c.cells.get(f, ZERO))
        L.ll = self.sign(g('final_ll')) != {0} and g('final_ll') != ZERO and g('final_asis') == ZERO
        L.numeric = True
        m = self.symbol('minor', 0)
        self.atleast(self.canon(self.dimension(1)) - m, 0)
        L.cells['minor'] = m
        if g('quick_return_if_not_posdef') != ZERO:
            L.quick = True
        self.factored = True
        return self.symbol('factorize()')

    def f_cholmod_l_change_factor(self, args, node):
        L = self.factorof(args[5], 'cholmod_l_change_factor')
        if args[0] != Lin(1):
            raise Undecided('cholmod_l_change_factor')
        L.ll = args[1] != ZERO
        return ONE

    nz = None

    def f_cholmod_l_factor_to_sparse(self, args, node):
        c = self.cm(args[1], 'cholmod_l_factor_to_sparse')
        self.started(c, 'cholmod_l_factor_to_sparse')
        L = self.factorof(args[0], 'cholmod_l_factor_to_sparse')
        if not L.numeric:
            self.bad('result', 'the factor is converted before the matrix is factorized, or twice')
            raise Dead()
        if not L.ll:
            self.bad('result', 'the factor is not set to be LL\' (final_ll true, final_asis false) when the matrix is factorized')
        L.numeric = False
        S = self.new('Lsparse', 'sparse', role='S')
        S.null = None
        S.heapowned = True
        n = self.dimension(1)
        nz = self.symbol('nzmax(L)', 0)
        self.nz = nz
        for f, size in (('p', self.canon(n) + ONE), ('i', nz), ('x', nz)):
            d = self.new('Lsparse->%s' % f, 'data', 8, size, role=('L', f))
            d.typenum = 12 if f == 'x' else 7
            S.cells[f] = Ptr(d, ZERO)
        S.cells.update(nrow=n, ncol=n, nzmax=nz, packed=ONE, sorted=ONE, stype=ZERO, itype=Lin(2), xtype=Lin(1), dtype=ZERO, z=NULL, nz=NULL)
        S.dropped = False
        S.trimmed = None
        # The conversion leaves L symbolic: its minor is reset.
        L.cells['minor'] = L.cells['n']
        return Ptr(S)

    def sparse(self, v, what):
        r = self.obj(v, what)
        if r.kind != 'sparse':
            raise Undecided('%s of %s' % (what, r.name))
        return r

    def f_cholmod_l_realloc(self, args, node):
        n, size, p, q = args[:4]
        if p is NULL or not isinstance(p, Ptr) or p.r.kind != 'data':
            raise Undecided('cholmod_l_realloc')
        self.alive(p.r, 'reallocated')
        if not isinstance(size, Lin) or size != Lin(p.r.elem):
            self.bad('type', '%s has elements of %s bytes, and is reallocated with %s' % (p.r.name, p.r.elem, size))
            raise Dead()
        old = self.load(q, {'qualType': 'unsigned long'})
        if self.sign(old - p.r.size) != {0}:
            self.bad('bounds', '%s has %s elements, and is reallocated as if it had %s' % (p.r.name, self.canon(p.r.size), old))
        new = self.new(p.r.name, 'data', p.r.elem, self.canon(n), role=p.r.role)
        new.typenum = p.r.typenum
        new.cells = dict(p.r.cells)
        new.written, new.fill = p.r.written, p.r.fill
        p.r.freed = self.now
        self.store(q, n)
        return Ptr(new, ZERO)

    def f_cholmod_l_reallocate_sparse(self, args, node):
        S = self.sparse(args[1], 'cholmod_l_reallocate_sparse')
        n = self.canon(args[0])
        for f in ('i', 'x'):
            old = S.cells[f].r
            d = self.new(old.name, 'data', 8, n, role=old.role)
            d.typenum = old.typenum
            old.freed = self.now
            S.cells[f] = Ptr(d, ZERO)
        # At least one entry is kept.
        if self.sign(n) - {1}:
            if self.compare('<=', n, ZERO):
                n = ONE
                for f in ('i', 'x'):
                    S.cells[f].r.size = n
        S.cells['nzmax'] = n
        return ONE

    def f_cholmod_l_nnz(self, args, node):
        S = self.sparse(args[0], 'cholmod_l_nnz')
        return self.load(Ptr(S.cells['p'].r, self.canon(S.cells['ncol'])), {'qualType': 'long'})

    def f_cholmod_l_drop(self, args, node):
        S = self.sparse(args[1], 'cholmod_l_drop')
        t = args[0]
        if isinstance(t, Lin):
            t = Float(float(t.c)) if not t.t else None
        if not isinstance(t, Float):
            raise Undecided('the tolerance of cholmod_l_drop')
        if t.v > 0:
            self.bad('result', 'entries of the factor up to %s are dropped' % t.v)
        S.dropped = True
        raise Undecided('a factor with its zeros dropped')

    def f_cholmod_l_sort(self, args, node):
        self.sparse(args[0], 'cholmod_l_sort')
        return ONE

    def f_cholmod_l_free_factor(self, args, node):
        self.cm(args[1], 'cholmod_l_free_factor')
        v = self.load(args[0])
        if v is NULL or self.null(v):
            return ONE
        r = v.r
        if r.freed:
            self.bad('memory', '%s is freed twice (first at line %s)' % (r.name, r.freed))
            raise Dead()
        if r.kind != 'factor':
            self.bad('memory', '%s is freed as a factor' % r.name)
            raise Dead()
        r.freed = self.now
        r.cells['Perm'].r.freed = self.now
        self.store(args[0], NULL)
        return ONE

    def f_cholmod_l_free_sparse(self, args, node):
        self.cm(args[1], 'cholmod_l_free_sparse')
        v = self.load(args[0])
        if v is NULL or self.null(v):
            return ONE
        r = v.r
        if r.freed:
            self.bad('memory', '%s is freed twice (first at line %s)' % (r.name, r.freed))
            raise Dead()
        if r.kind != 'sparse':
            self.bad('memory', '%s is freed as a sparse matrix' % r.name)
            raise Dead()
        r.freed = self.now
        for f in ('p', 'i', 'x'):
            d = r.cells[f].r
            if d.freed:
                self.bad('use after release', '%s, which %s still names, was reallocated or freed at line %s' % (d.name, r.name, d.freed))
            d.freed = self.now
        self.store(args[0], NULL)
        return ONE

    def f_cholmod_l_check_common(self, args, node):
        return ONE

    # The entry

    def finish(self, v):
        '''The rules at a return.'''
        kept = set()
        if v is None:
            self.bad('result', 'nothing is returned')
            return
        isnull = self.null(v)
        if isnull and not self.exception:
            self.bad('result', 'NULL is returned with no exception set')
        if not isnull and self.exception:
            self.bad('result', 'a result is returned with an exception set (%s)' % self.exception)
        if not isnull:
            r = v.r
            if r.freed_object():
                self.bad('references', 'the result is returned with no reference held')
            r.owned -= 1
            kept.add(r)
        for r in self.regions:
            if r.kind in ('object', 'array') and r.owned > 0 and not r.null:
                self.bad('references', '%s is never released: %d reference%s left' % (r.name, r.owned, 's' if r.owned > 1 else ''))
            elif r.owned < 0:
                self.bad('references', '%s is released too often' % r.name)
            if r.kind in ('factor', 'sparse') and not r.freed and r.null is not True:
                self.bad('memory', '%s is never freed' % r.name)
            if getattr(r, 'heap', False) and not r.freed and r.null is not True:
                self.bad('memory', '%s is never freed' % r.name)
        for r, st in self.common.items():
            if st != 'finished':
                self.bad('memory', 'Common is never finished')
        if not isnull:
            self.result(v.r)

    def result(self, r):
        items = getattr(r, 'items', None)
        if items is None:
            raise Undecided('the result')
        if len(items) != 5:
            self.bad('result', '%d values are returned; the caller takes five' % len(items))
            return
        if not getattr(self, 'factored', False):
            self.bad('result', 'a result is returned of a matrix which was not factorized')
            return
        names = ('indices', 'indptr', 'data', 'where it fails', 'permutation')
        roles = {0: 'i', 1: 'p', 2: 'x', 4: 'Perm'}
        for k in (0, 1, 2, 4):
            o = items[k]
            if not isinstance(o, Region) or o.kind != 'array':
                self.bad('result', 'value %d, the %s, is no array' % (k, names[k]))
                return
            want = (12,) if k == 2 else (7, 9)
            if o.typenum not in want:
                self.bad('result', 'the %s have type number %s' % (names[k], o.typenum))
            d = o.cells['data']
            if o.wraps is not None:
                self.bad('result', 'the %s share memory with %s' % (names[k], d.name))
                return
            n = self.canon(o.dims[0])
            if self.sign(n) <= {-1, 0}:
                continue
            fills = d.fill
            if len(fills) != 1 or d.written:
                if not fills and not d.written:
                    self.bad('result', 'the %s are never filled' % names[k])
                    return
                raise Undecided('how the %s are filled' % names[k])
            lo, hi, s, so = fills[0]
            if self.sign(lo) != {0} or self.sign(hi - n) != {0}:
                if 1 in self.sign(n - hi) and self.sign(n - hi) == {1}:
                    self.bad('result', 'only %s of the %s %s are filled' % (hi, n, names[k]))
                    return
                if self.sign(lo) == {1}:
                    self.bad('result', 'the first %s of the %s are never filled' % (lo, names[k]))
                    return
                raise Undecided('how much of the %s is filled' % names[k])
            if k == 1:
                self.columns = Region(s.name, 'data', 8, role=s.role)
            if s.role != ('L', roles[k]) or self.sign(so) != {0}:
                self.bad('result', 'the %s are those of %s[%s:]' % (names[k], s.name, so))
                return
        ncol = self.canon(self.dimension(1))
        minor = self.canon(self.symbol('minor') if ((('minor', 1),) in self.bounds or True) else ZERO)
        cols = self.canon(items[1].dims[0]) - ONE
        d = self.sign(cols - minor)
        if d != {0}:
            if 0 not in d:
                self.bad('result', 'the factor has %s columns; it should have %s' % (cols, minor))
            else:
                # The trail may leave it open: minor <= n, and equal exactly on success.
                s = self.sign(minor - ncol)
                if cols == ncol and s != {0}:
                    self.bad('result', 'the factor has all %s columns where the factorization may fail at column %s' % (cols, minor))
                else:
                    raise Undecided('the columns of the factor')
        n4 = self.canon(items[4].dims[0])
        if self.sign(n4 - ncol) != {0}:
            self.bad('result', 'the permutation has %s elements; the matrix has %s columns' % (n4, ncol))
        a, b = self.canon(items[0].dims[0]), self.canon(items[2].dims[0])
        if self.sign(a - b) != {0}:
            self.bad('result', 'there are %s indices and %s values' % (a, b))
        last = self.load(Ptr(self.columns, cols), {'qualType': 'long'})
        if -1 in self.sign(a - last):
            self.bad('result', 'there are %s indices, and the columns have %s' % (a, last))
        where = items[3]
        if not isinstance(where, Lin):
            raise Undecided('where it fails')
        s = self.sign(minor - ncol)
        if s == {0}:
            if self.sign(where) != {0}:
                self.bad('result', '%s is returned as the place of failure of a positive definite matrix' % where)
        elif s == {-1}:
            if self.sign(where - minor - ONE) != {0}:
                self.bad('result', '%s is returned as the place of failure; it should be minor + 1' % where)
        else:
            if where == ZERO or self.sign(where) == {0}:
                self.bad('result', 'no failure is reported when the matrix is not positive definite')
            else:
                raise Undecided('where it fails')

    def run(self, entry):
        f = self.u.functions[entry]
        a = self.new('the arguments', 'object', role='args')
        a.lasting = True
        s = self.new('the module', 'object', role='module')
        s.lasting = True
        self.memo['nrow'] = self.symbol('nrow', 0)
        self.memo['ncol'] = self.symbol('ncol', 0)
        v = self.call(entry, [Ptr(s), Ptr(a)], f)
        self.finish(v)


def freed_object(self):
    return bool(getattr(self, 'gone', None)) and not self.lasting


Region.freed_object = freed_object

RULES = ('arguments', 'references', 'memory', 'use after release', 'null', 'uninitialised', 'bounds', 'type', 'input', 'description', 'result')


def initialiser(unit, out, here):
    '''The module is made from the table naming the entry, and numpy is imported.'''
    f = unit.functions.get('PyInit_cholmod')
    found, tables = [], []
    text = json.dumps(f) if f else ''
    entry = unit.entry()
    out.append(record('module', entry is not None, 'lchol_c is not in the table of methods', here(f)))
    out.append(record('module', f is not None, 'PyInit_cholmod is not defined', here(f)))
    if f:
        out.append(record('module', '_import_array' in text, 'numpy is not imported when the module is', here(f)))
        out.append(record('module', '"PyModule_Create2"' in text or 'PyModuleDef_Init' in text, 'the module is not created', here(f)))


def record(rule, ok, message, at, params=None, facts=(), verdict=None):
    return {'spec': 'csource', 'obligation': rule, 'params': params or {}, 'verdict': verdict or ('held' if ok else 'violation'),
            'message': '' if ok and not verdict else message, 'at': at, 'subjects': ['lchol_c'], 'facts': list(facts)}


def run(root, tier, seed, here):
    try:
        unit = Unit(root)
    except (IOError, OSError, ValueError, subprocess.TimeoutExpired) as e:
        return [], {}, ['%s: %s' % (SOURCE, e)]
    results = []
    initialiser(unit, results, lambda f: '%s:%s' % (SOURCE, unit.line(f) if f else 1))
    entry = unit.entry()
    info = {'entry': entry, 'functions_of_the_file': sorted(unit.functions), 'paths': []}
    if entry is None:
        return results, info, []
    stack = [[]]
    calls = set()
    n = 0
    while stack and n < 4000:
        d = stack.pop()
        p = Path(unit, d)
        verdict, why = 'held', ''
        try:
            p.run(entry)
        except Dead:
            pass
        except Undecided as e:
            verdict, why = 'undecided', str(e)
        except RecursionError:
            verdict, why = 'undecided', 'recursion'
        except Exception as e:                      # pylint: disable=broad-except
            verdict, why = 'undecided', 'the analysis failed: %r' % (e,)
        n += 1
        calls |= p.calls
        for i in range(len(p.taken) - 1, len(d) - 1, -1):
            k, m = p.taken[i]
            for j in range(k + 1, m):
                stack.append([t[0] for t in p.taken[:i]] + [j])
        name = {'path': '; '.join(p.trail)}
        found = {}
        for rule, message, at in p.findings:
            found.setdefault(rule, (message, at))
        for rule in RULES:
            if rule in found:
                results.append(record(rule, False, found[rule][0], found[rule][1], name, p.trail))
            elif verdict == 'undecided':
                results.append(record(rule, True, why, p.at(), name, p.trail, 'undecided'))
            else:
                results.append(record(rule, True, '', p.at(), name, p.trail))
        info['paths'].append({'path': name['path'], 'ends_at': p.at(), 'verdict': verdict, 'why': why})
    info['calls'] = sorted(calls)
    info['paths'] = info['paths'][:60]
    info['rules'] = list(RULES)
    return results, info, []
