'''
The abstract interpreter: a flow-sensitive, interprocedural forward analysis of
the library's source over gated value numbers, kinds, shapes, array windows and
heap objects. Facts are joined (gated) wherever paths meet; no path is
enumerated and nothing is handed to a solver. Calls are analysed in context.
'''
import ast
import os

import numpy as np

from . import terms as tm
from .values import *          # noqa: F401,F403
from .values import term, bterm
from . import num

MAX_WHILE = 4000
MAX_DEPTH = 90


class NeedSplit(Exception):
    '''An operation depends on an undecided fact: analyse it under both and join.'''

    def __init__(self, cond):
        Exception.__init__(self)
        self.cond = cond


class Ctx(object):
    def __init__(self, fn, frame):
        self.fn = fn
        self.frame = frame
        self.returns = []
        self.loops = []
        self.exc = []


class Loop(object):
    def __init__(self):
        self.breaks = []
        self.conts = []


def _assigned(body, args=None):
    '''Names bound in a function body.'''
    names, glob, nonloc = set(), set(), set()
    gen = [False]

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in body:
        visit(s)
    return names - glob - nonloc, glob, nonloc, gen[0]


class Interp(object):
    def __init__(self, root, package='blmath', extra=None):
        from . import builtins_model, np_model, np_more
        self.root = root
        self.package = package
        self.base = {}
        self.st = State()
        self.next = 1
        self.modules = {}
        self.sinks = [[]]
        self.ctxs = []
        self.frame = None
        self.module = None
        self.depth = 0
        self.functions = set()
        self.model_of = {}
        self.branches = 0
        self.joins = 0
        self.calls = 0
        self.unmodelled = {}
        self.events = []
        self.scopes = {}
        self.line = None
        self.memo = {}
        self.extra = extra or {}
        self.excs = {}
        self.keyvals = {}
        builtins_model.install(self)
        self.ext = np_model.table(self)
        self.ext.update(builtins_model.ext_table(self))

    # --- heap ---------------------------------------------------------------
    def new(self, content):
        oid = self.next
        self.next += 1
        self.st.heap[oid] = content
        return Ref(oid)

    def content(self, ref):
        '''The content of a heap object; undecided joins split the current statement.'''
        oid = ref.oid
        c = self.st.heap.get(oid)
        if c is None:
            c = self.base[oid]
        while isinstance(c, MergedC):
            k = self.simp(c.cond)
            if k is tm.TRUE:
                c = c.a
            elif k is tm.FALSE:
                c = c.b
            else:
                raise NeedSplit(k)
            self.st.heap[oid] = c
        return c

    def raw(self, oid):
        c = self.st.heap.get(oid)
        return self.base.get(oid) if c is None else c

    def put(self, ref, content):
        self.st.heap[ref.oid] = content

    def force(self, v):
        while isinstance(v, ChoiceV):
            k = self.simp(v.cond)
            if k is tm.TRUE:
                v = v.a
            elif k is tm.FALSE:
                v = v.b
            else:
                raise NeedSplit(k)
        if v is UNDEF:
            self.raise_('UnboundLocalError', 'name is not bound on this path')
        return v

    # --- facts --------------------------------------------------------------
    def simp(self, c, depth=0):
        if c.op in ('true', 'false'):
            return c
        pc = self.st.pc
        if not pc:
            return c
        if c in pc:
            return tm.TRUE
        n = tm.not_(c)
        if n in pc:
            return tm.FALSE
        if c.op == 'not':
            return tm.not_(self.simp(c.args[0]))
        if c.op == 'and':
            return tm.and_(*[self.simp(x) for x in c.args])
        if c.op == 'or':
            return tm.or_(*[self.simp(x) for x in c.args])
        if c.op == 'gt':
            t = c.args[0]
            if tm.eq0c(t) in pc or tm.gt0(tm.neg(t)) in pc:
                return tm.FALSE
            if depth == 0 and tm.not_(tm.gt0(tm.neg(t))) in pc and tm.not_(tm.eq0c(t)) in pc:
                return tm.TRUE
        if c.op == 'eq':
            t = c.args[0]
            if tm.gt0(t) in pc or tm.gt0(tm.neg(t)) in pc:
                return tm.FALSE
        return c

    def decide(self, c):
        c = self.simp(c)
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        raise NeedSplit(c)

    def assume(self, c):
        '''Add a fact to the current path; Dead when it contradicts.'''
        c = self.simp(c)
        if c is tm.FALSE:
            raise Dead()
        if c is tm.TRUE:
            return
        self.st.pc = self.st.pc + tuple(self.flat(c))

    @staticmethod
    def flat(c):
        if c.op == 'and':
            return [y for x in c.args for y in Interp.flat(x)]
        if c.op == 'not' and c.args[0].op == 'or':
            return [y for x in c.args[0].args for y in Interp.flat(tm.not_(x))]
        return [c]

    def fork(self, cond, f, g):
        cond = self.simp(cond)
        if cond is tm.TRUE:
            return f()
        if cond is tm.FALSE:
            return g()
        self.branches += 1
        base = self.st
        frame, module, depth = self.frame, self.module, self.depth
        outs = []
        for c, h in ((cond, f), (tm.not_(cond), g)):
            self.st = State(dict(base.heap), base.pc + tuple(self.flat(c)))
            try:
                v = h()
                outs.append((self.st, v))
            except Dead:
                pass
            self.frame, self.module, self.depth = frame, module, depth
        if not outs:
            self.st = base
            raise Dead()
        return self.merge(outs)

    def merge(self, outs):
        if len(outs) == 1:
            self.st = outs[0][0]
            return outs[0][1]
        self.joins += 1
        pcs = [s.pc for s, _ in outs]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        prefix = pcs[0][:n]
        st, val = outs[-1]
        heap = dict(st.heap)
        rest = [tm.and_(*pcs[-1][n:])]
        for s, v in reversed(outs[:-1]):
            g = tm.and_(*s.pc[n:])
            heap = self._merge_heap(g, s.heap, heap)
            val = self.gate(g, v, val)
            rest.append(g)
        pc = prefix
        d = tm.or_(*rest)
        if d is not tm.TRUE and d is not tm.FALSE and self._notall(rest):
            pc = pc + tuple(self.flat(d))
        self.st = State(heap, pc)
        return val

    @staticmethod
    def _notall(guards):
        # {c, not c} covers everything: nothing is learnt.
        if len(guards) == 2 and guards[0] is tm.not_(guards[1]):
            return False
        return True

    def _merge_heap(self, g, a, b):
        out = dict(b)
        for oid, ca in a.items():
            cb = b.get(oid)
            if cb is None:
                cb = self.base.get(oid)
                if cb is None:
                    out[oid] = ca
                    continue
            if ca is cb:
                continue
            out[oid] = self._merge_content(g, ca, cb)
        for oid, cb in b.items():
            if oid not in a:
                ca = self.base.get(oid)
                if ca is not None and ca is not cb:
                    out[oid] = self._merge_content(g, ca, cb)
        return out

    def _merge_content(self, g, a, b):
        if type(a) is type(b):
            if isinstance(a, FrameC):
                if a.vars is b.vars:
                    return a
                vs = {}
                for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                    vs[k] = self.gate(g, a.vars.get(k, UNDEF), b.vars.get(k, UNDEF))
                return FrameC(vs, a.parent, a.kind)
            if isinstance(a, ObjC) and a.cls is b.cls and list(a.attrs) == list(b.attrs):
                return ObjC(a.cls, {k: self.gate(g, a.attrs[k], b.attrs[k]) for k in a.attrs})
            if isinstance(a, ListC) and len(a.items) == len(b.items):
                return ListC([self.gate(g, x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, DictC) and list(a.d) == list(b.d):
                return DictC({k: (a.d[k][0], self.gate(g, a.d[k][1], b.d[k][1])) for k in a.d}, a.default)
            if isinstance(a, SetC) and list(a.d) == list(b.d):
                return a
            if isinstance(a, BufC) and a.data.shape == b.data.shape:
                import numpy as np
                data = np.empty(a.data.shape, dtype=object)
                for i in range(len(data)):
                    data[i] = self.gate(g, a.data[i], b.data[i])
                return BufC(data)
            if isinstance(a, ArrC) and a.buf == b.buf and a.idx is b.idx and a.dtype == b.dtype and a.ro == b.ro:
                return a
            if isinstance(a, IterC) and a.pos == b.pos and len(a.items) == len(b.items):
                return IterC([self.gate(g, x, y) for x, y in zip(a.items, b.items)], a.pos)
        return MergedC(g, a, b)

    def gate(self, c, a, b):
        if a is b or c is tm.TRUE:
            return a
        if c is tm.FALSE:
            return b
        if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if is_num(a) and is_num(b):
                if type(a) is type(b) and not isinstance(a, Sym) and a == b:
                    return a
                ta, tb = ty_of(a), ty_of(b)
                if (ta == 'b') == (tb == 'b'):
                    if ta == tb or isinstance(a, Sym) and a.np or isinstance(b, Sym) and b.np:
                        return num.choose(c, a, b)
                return ChoiceV(c, a, b)
        if type(a) is type(b):
            if isinstance(a, tuple) and len(a) == len(b):
                return tuple(self.gate(c, x, y) for x, y in zip(a, b))
            if isinstance(a, (str, bytes, Ref, ExtV)) and a == b:
                return a
            if isinstance(a, (StrV, OpaqueV)) and a.t is b.t:
                return a
            if isinstance(a, BoundV) and a.fn is b.fn and a.self_ == b.self_:
                return a
            if isinstance(a, slice) and a == b:
                return a
            if isinstance(a, range) and a == b:
                return a
        if isinstance(a, ChoiceV) and a.cond is c:
            a = a.a
        if isinstance(b, ChoiceV) and b.cond is c:
            b = b.b
        if a is b:
            return a
        return ChoiceV(c, a, b)

    # --- exceptions ---------------------------------------------------------
    def throw(self, exc):
        self.sinks[-1].append((self.st, exc))
        raise Dead()

    def make_exc(self, name, *args):
        cls = self.excs[name] if isinstance(name, str) else name
        return self.new(ObjC(cls, {'args': tuple(args), '$line': self.where()}))

    def raise_(self, name, *args):
        self.throw(self.make_exc(name, *args))

    def where(self):
        fn = self.ctxs[-1].fn.qualname if self.ctxs else '<module>'
        mod = self.module.name if self.module else '?'
        return '%s:%s (%s)' % (mod, self.line, fn)

    # --- modules ------------------------------------------------------------
    def module_path(self, name):
        if name in self.extra:
            return self.extra[name], False
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def internal(self, name):
        return name == self.package or name.startswith(self.package + '.') or name in self.extra

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, pkg = self.module_path(name)
        if path is None:
            head, _, tail = name.rpartition('.')
            if name in self.model_of and head and self.native_ext(head, tail):
                # A compiled module of the package.
                return self.load(self.model_of[name])
            return None
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
        else:
            parent = None
        if name in self.modules:
            return self.modules[name]
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        fr = self.new(FrameC({'__name__': name, '__file__': path, '__doc__': None}, None, 'module'))
        m = ModuleV(name, fr.oid, path, pkg)
        self.modules[name] = m
        saved = self.frame, self.module, self.ctxs
        self.frame, self.module, self.ctxs = fr.oid, m, []
        try:
            self.exec_block(tree.body)
        finally:
            self.frame, self.module, self.ctxs = saved
        if parent is not None:
            self.setvar(parent.frame, name.rpartition('.')[2], m)
        return m

    def load_all(self, names):
        '''Load modules into the base heap.'''
        errors = {}
        for n in names:
            snap = dict(self.st.heap), self.st.pc
            try:
                self.load(n)
            except (Dead, Unsupported, NeedSplit) as e:
                msg = ''
                if self.sinks[-1]:
                    msg = self.show_exc(self.sinks[-1][-1][1])
                    del self.sinks[-1][:]
                errors[n] = '%s %s %s' % (type(e).__name__, e, msg)
        return errors

    def freeze(self):
        self.base.update(self.st.heap)
        self.st = State()
        self._fr = self.next

    def reset(self):
        self.st = State()
        self.sinks = [[]]
        self.ctxs = []
        self.frame = None
        self.module = None
        self.depth = 0
        self.events = []

    # --- variables ----------------------------------------------------------
    def setvar(self, oid, name, v):
        f = self.raw(oid)
        vs = dict(f.vars)
        vs[name] = v
        self.st.heap[oid] = FrameC(vs, f.parent, f.kind)

    def scope(self, node):
        s = self.scopes.get(node)
        if s is None:
            body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
            s = _assigned(body)
            if not isinstance(node, ast.ClassDef) and hasattr(node, 'args'):
                a = node.args
                names = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
                if a.vararg:
                    names.add(a.vararg.arg)
                if a.kwarg:
                    names.add(a.kwarg.arg)
                s = (s[0] | names, s[1], s[2], s[3])
            self.scopes[node] = s
        return s

    def lookup(self, name):
        oid = self.frame
        first = True
        while oid is not None:
            f = self.raw(oid)
            if f.kind != 'class' or first:
                v = f.vars.get(name)
                if v is not None or name in f.vars:
                    if v is UNDEF:
                        self.raise_('UnboundLocalError', name)
                    return v
                if first and f.kind == 'function' and self.ctxs and name in self.cur_locals():
                    self.raise_('UnboundLocalError', "cannot access local variable '%s'" % name)
            first = False
            oid = f.parent
        if self.module is not None:
            f = self.raw(self.module.frame)
            if name in f.vars:
                return f.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        self.raise_('NameError', "name '%s' is not defined" % name)

    def cur_locals(self):
        c = self.ctxs[-1]
        if c.frame != self.frame:
            return ()
        return self.scope(c.fn.node)[0]

    def store(self, name, v):
        oid = self.frame
        if self.ctxs:
            c = self.ctxs[-1]
            f = self.raw(oid)
            if f.kind == 'function' and c.frame == oid:
                _, glob, nonloc, _ = self.scope(c.fn.node)
                if name in glob:
                    self.setvar(self.module.frame, name, v)
                    return
                if name in nonloc:
                    p = f.parent
                    while p is not None:
                        pf = self.raw(p)
                        if pf.kind == 'function' and name in pf.vars:
                            self.setvar(p, name, v)
                            return
                        p = pf.parent
        self.setvar(oid, name, v)

    # --- statements ---------------------------------------------------------
    def exec_block(self, body):
        for s in body:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        tm.tick()
        snap = State(dict(self.st.heap), self.st.pc)
        sink = self.sinks[-1]
        ns = len(sink)
        ctx = self.ctxs[-1] if self.ctxs else None
        marks = None
        if ctx is not None:
            marks = len(ctx.returns), [(l, len(l.breaks), len(l.conts)) for l in ctx.loops]
        frame, module, depth = self.frame, self.module, self.depth
        nctx = len(self.ctxs)
        nsinks = len(self.sinks)
        self.line = getattr(s, 'lineno', self.line)
        try:
            getattr(self, 's_' + type(s).__name__, self.s_unsupported)(s)
        except NeedSplit as e:
            # Analyse the statement under both outcomes, and join.
            del self.ctxs[nctx:]
            del self.sinks[nsinks:]
            del sink[ns:]
            if ctx is not None:
                del ctx.returns[marks[0]:]
                for l, b, c in marks[1]:
                    del l.breaks[b:]
                    del l.conts[c:]
            self.frame, self.module, self.depth = frame, module, depth
            self.st = snap
            if self.depth_split > 14:
                raise Unsupported('too many undecided facts in one statement')
            self.depth_split += 1
            try:
                self.fork(e.cond, lambda: self.exec_stmt(s), lambda: self.exec_stmt(s))
            finally:
                self.depth_split -= 1

    depth_split = 0

    def s_unsupported(self, s):
        raise Unsupported('statement %s' % type(s).__name__)

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            r = self.inplace(op, cur, self.eval(s.value))
            self.store(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr_(o, t.attr)
            r = self.inplace(op, cur, self.eval(s.value))
            self.setattr_(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            cur = self.getitem(o, k)
            r = self.inplace(op, cur, self.eval(s.value))
            self.setitem(o, k, r)
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.new(ListC(items[i:len(items) - after])))
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:] if after else []):
                    self.assign(e, x)
            else:
                if len(items) != len(t.elts):
                    self.raise_('ValueError', 'expected %d values to unpack, got %d' % (len(t.elts), len(items)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = self.raw(self.frame)
                vs = dict(f.vars)
                vs.pop(t.id, None)
                self.st.heap[self.frame] = FrameC(vs, f.parent, f.kind)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value), self.eval(t.slice))
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.eval(t.value), t.attr)
            else:
                raise Unsupported('del')

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        self.fork(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.ctxs[-1].returns.append((self.st, v))
        raise Dead()

    def s_Break(self, s):
        self.ctxs[-1].loops[-1].breaks.append((self.st, None))
        raise Dead()

    def s_Continue(self, s):
        self.ctxs[-1].loops[-1].conts.append((self.st, None))
        raise Dead()

    def loop_ctx(self):
        if not self.ctxs:
            self.ctxs.append(Ctx(FuncV(ast.parse('def _(): pass').body[0], None, self.module, [], {}, '<module>', '<module>'), self.frame))
        return self.ctxs[-1]

    def live(self, v):
        '''The items of a list, as it is when each is reached.'''
        i = 0
        while True:
            c = self.content(v)
            if i >= len(c.items):
                return
            yield c.items[i]
            i += 1

    def s_For(self, s):
        v = self.force(self.eval(s.iter))
        items = self.live(v) if isinstance(v, Ref) and isinstance(self.content(v), ListC) else self.iterate(v)
        ctx = self.loop_ctx()
        loop = Loop()
        ctx.loops.append(loop)
        ends = []
        try:
            alive = True
            for it in items:
                loop.conts = conts = []
                try:
                    self.assign(s.target, it)
                    self.exec_block(s.body)
                    conts.append((self.st, None))
                except Dead:
                    pass
                if not conts:
                    alive = False
                    break
                self.merge(conts)
            if alive:
                ctx.loops.pop()
                try:
                    self.exec_block(s.orelse)
                    ends.append((self.st, None))
                except Dead:
                    pass
                finally:
                    ctx.loops.append(loop)
        finally:
            if ctx.loops and ctx.loops[-1] is loop:
                ctx.loops.pop()
        ends = loop.breaks + ends
        if not ends:
            raise Dead()
        self.merge(ends)

    def s_While(self, s):
        ctx = self.loop_ctx()
        loop = Loop()
        ctx.loops.append(loop)
        exits = []
        undecided = 0
        alive = True
        try:
            for n in range(MAX_WHILE):
                c = self.simp(self.truth(self.eval(s.test)))
                if c is tm.FALSE:
                    break
                if c is not tm.TRUE:
                    undecided += 1
                    if undecided > 12:
                        raise Unsupported('while loop with an undecided bound')
                    exits.append((State(dict(self.st.heap), self.st.pc + tuple(self.flat(tm.not_(c)))), None))
                    self.st = State(dict(self.st.heap), self.st.pc + tuple(self.flat(c)))
                loop.conts = conts = []
                try:
                    self.exec_block(s.body)
                    conts.append((self.st, None))
                except Dead:
                    pass
                if not conts:
                    alive = False
                    break
                self.merge(conts)
            else:
                raise Unsupported('while loop does not end')
        finally:
            ctx.loops.pop()
        if alive:
            exits.append((self.st, None))
        ends = []
        if exits:
            self.merge(exits)
            try:
                self.exec_block(s.orelse)
                ends.append((self.st, None))
            except Dead:
                pass
        ends = loop.breaks + ends
        if not ends:
            raise Dead()
        self.merge(ends)

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.store(s.name, v)

    def make_func(self, node, name):
        a = node.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.raw(self.frame)
        qual = name
        if fr.kind == 'class':
            qual = '%s.%s' % (fr.vars.get('__qualname__', '?'), name)
        f = FuncV(node, self.frame if fr.kind != 'module' else None, self.module, defaults, kwd, name, qual)
        if fr.kind == 'class':
            # Class scopes are not visible from methods.
            p = fr.parent
            f.frame = p if p is not None and self.raw(p).kind != 'module' else None
        return f

    def s_ClassDef(self, s):
        bases = [self.force(self.eval(b)) for b in s.bases]
        cbases = []
        for b in bases:
            if isinstance(b, ClassV):
                cbases.append(b)
            elif isinstance(b, ExtV):
                cbases.append(self.ext_class(b))
            else:
                raise Unsupported('base class %r' % (b,))
        if s.keywords and any(k.arg == 'metaclass' for k in s.keywords):
            raise Unsupported('metaclass')
        fr = self.new(FrameC({'__qualname__': s.name, '__module__': self.module.name}, self.frame, 'class'))
        saved = self.frame
        self.frame = fr.oid
        try:
            self.exec_block(s.body)
        finally:
            self.frame = saved
        ns = dict(self.raw(fr.oid).vars)
        ref = self.new(DictC({k: (k, v) for k, v in ns.items()}))
        cls = ClassV(s.name, cbases or [self.object_cls], ref, self.module)
        for v in ns.values():
            for f in self.funcs_in(v):
                if f.defcls is None:
                    f.defcls = cls
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.store(s.name, v)

    @staticmethod
    def funcs_in(v):
        if isinstance(v, FuncV):
            return [v]
        if isinstance(v, PropertyV):
            return [f for f in (v.fget, v.fset, v.fdel) if isinstance(f, FuncV)]
        if isinstance(v, (StaticV, ClassMethodV)) and isinstance(v.fn, FuncV):
            return [v.fn]
        return []

    def ext_class(self, b):
        key = ('extcls', b.path)
        c = self.memo.get(key)
        if c is None:
            oid = self.next
            self.next += 1
            self.base[oid] = DictC({})
            c = ClassV(b.path, [self.object_cls], Ref(oid), None, True)
            self.memo[key] = c
        return c

    def s_Import(self, s):
        for a in s.names:
            if self.internal(a.name):
                m = self.load(a.name)
                if m is None:
                    self.raise_('ImportError', a.name)
                if a.asname:
                    self.store(a.asname, m)
                else:
                    self.store(a.name.split('.')[0], self.modules[a.name.split('.')[0]])
            else:
                if a.asname:
                    self.store(a.asname, ExtV(a.name))
                else:
                    self.store(a.name.split('.')[0], ExtV(a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        name = s.module or ''
        if s.level:
            parts = self.module.name.split('.')
            if not self.module.package:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = '.'.join(parts + ([s.module] if s.module else []))
        if name == '__future__':
            return
        if self.internal(name):
            m = self.load(name)
            if m is None:
                self.raise_('ImportError', name)
            for a in s.names:
                if a.name == '*':
                    vs = self.raw(m.frame).vars
                    for k, v in vs.items():
                        if not k.startswith('_'):
                            self.store(k, v)
                    continue
                vs = self.raw(m.frame).vars
                if a.name in vs:
                    v = vs[a.name]
                else:
                    v = self.load(name + '.' + a.name)
                    if v is None:
                        if self.native_ext(name, a.name):
                            v = ExtV(name + '.' + a.name)
                        else:
                            self.raise_('ImportError', "cannot import name '%s' from '%s'" % (a.name, name))
                self.store(a.asname or a.name, v)
        else:
            for a in s.names:
                if a.name == '*':
                    raise Unsupported('star import')
                self.store(a.asname or a.name, self.ext_value(name + '.' + a.name))

    def native_ext(self, mod, name):
        d = os.path.join(self.root, *mod.split('.'))
        return os.path.isdir(d) and os.path.isfile(os.path.join(d, name + '.c'))

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Raise(self, s):
        if s.exc is None:
            ctx = self.ctxs[-1]
            if not ctx.exc:
                self.raise_('RuntimeError', 'No active exception to reraise')
            self.throw(ctx.exc[-1])
        v = self.force(self.eval(s.exc))
        if s.cause is not None:
            self.eval(s.cause)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ObjC):
                if '$line' not in c.attrs:
                    at = dict(c.attrs)
                    at['$line'] = self.where()
                    self.put(v, ObjC(c.cls, at))
                if not c.cls.issub(self.excs['BaseException']):
                    self.raise_('TypeError', 'exceptions must derive from BaseException')
                self.throw(v)
        if isinstance(v, (ExtV, OpaqueV)):
            name = v.path if isinstance(v, ExtV) else 'opaque'
            self.throw(self.make_exc('Exception', name))
        self.raise_('TypeError', 'exceptions must derive from BaseException')

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))

        def bad():
            m = [self.eval(s.msg)] if s.msg is not None else []
            self.raise_('AssertionError', *m)
        self.fork(c, lambda: None, bad)

    def exc_matches(self, exc, types):
        '''True, False or None.'''
        cls = self.content(exc).cls
        types = self.force(types)
        if isinstance(types, tuple):
            r = [self.exc_matches(exc, t) for t in types]
            return True if True in r else None if None in r else False
        if isinstance(types, ExtV):
            types = self.ext_value(types.path)
        if isinstance(types, ClassV):
            return cls.issub(types)
        return None

    def s_Try(self, s):
        ctx = self.ctxs[-1] if self.ctxs else self.loop_ctx()
        marks = len(ctx.returns), [(l, len(l.breaks), len(l.conts)) for l in ctx.loops]
        nret = len(ctx.returns)
        outer = []
        if s.finalbody:
            self.sinks.append(outer)
        ends = []
        try:
            sink = []
            self.sinks.append(sink)
            n = len(self.sinks)
            alive = False
            try:
                self.exec_block(s.body)
                alive = True
            except Dead:
                pass
            finally:
                del self.sinks[n - 1:]
            if alive:
                try:
                    self.exec_block(s.orelse)
                    ends.append((self.st, None))
                except Dead:
                    pass
            frame, module, depth = self.frame, self.module, self.depth
            for st, exc in sink:
                self.st = State(dict(st.heap), st.pc)
                self.frame, self.module, self.depth = frame, module, depth
                self.handle(s, exc, ends, ctx)
        finally:
            if s.finalbody and self.sinks[-1] is outer:
                self.sinks.pop()
        if s.finalbody:
            def run(lst, start):
                new = lst[start:]
                del lst[start:]
                for st, v in new:
                    self.st = State(dict(st.heap), st.pc)
                    try:
                        self.exec_block(s.finalbody)
                        lst.append((self.st, v))
                    except Dead:
                        pass
            run(ctx.returns, nret)
            for l, b, c in marks[1]:
                run(l.breaks, b)
                run(l.conts, c)
            run(outer, 0)
            self.sinks[-1].extend(outer)
            if ends:
                self.merge(ends)
                self.exec_block(s.finalbody)
                return
        if not ends:
            raise Dead()
        self.merge(ends)

    s_TryStar = s_unsupported

    def handle(self, s, exc, ends, ctx):
        for h in s.handlers:
            m = True if h.type is None else self.exc_matches(exc, self.eval(h.type))
            if m is None:
                raise Unsupported('exception type')
            if m:
                ctx.exc.append(exc)
                try:
                    if h.name:
                        self.store(h.name, exc)
                    self.exec_block(h.body)
                    ends.append((self.st, None))
                except Dead:
                    pass
                finally:
                    ctx.exc.pop()
                return
        self.sinks[-1].append((self.st, exc))

    def s_With(self, s):
        def go(i):
            if i == len(s.items):
                self.exec_block(s.body)
                return
            it = s.items[i]
            mgr = self.force(self.eval(it.context_expr))
            if isinstance(mgr, Ref) and isinstance(self.content(mgr), ObjC):
                v = self.call(self.getattr_(mgr, '__enter__'), [], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                sink = []
                self.sinks.append(sink)
                n = len(self.sinks)
                alive = False
                ctx = self.ctxs[-1]
                nret = len(ctx.returns)
                try:
                    go(i + 1)
                    alive = True
                except Dead:
                    pass
                finally:
                    del self.sinks[n - 1:]
                ends = []
                if alive:
                    self.call(self.getattr_(mgr, '__exit__'), [None, None, None], {})
                    ends.append((self.st, None))
                rets = ctx.returns[nret:]
                del ctx.returns[nret:]
                for st, rv in rets:
                    self.st = State(dict(st.heap), st.pc)
                    self.call(self.getattr_(mgr, '__exit__'), [None, None, None], {})
                    ctx.returns.append((self.st, rv))
                for st, exc in sink:
                    self.st = State(dict(st.heap), st.pc)
                    r = self.call(self.getattr_(mgr, '__exit__'), [self.content(exc).cls, exc, None], {})
                    c = self.truth(r)
                    if c is tm.TRUE:
                        ends.append((self.st, None))
                    elif c is tm.FALSE:
                        self.sinks[-1].append((self.st, exc))
                    else:
                        raise Unsupported('__exit__')
                if not ends:
                    raise Dead()
                self.merge(ends)
                return
            if isinstance(mgr, BuiltinV) and mgr.name == 'ctx':
                v = mgr.fn(self, [], {})
            elif isinstance(mgr, OpaqueV):
                v = OpaqueV(tm.app('enter', mgr.t))
            else:
                raise Unsupported('with %r' % (mgr,))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            go(i + 1)
        go(0)

    # --- expressions --------------------------------------------------------
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        v = self.lookup(e.id)
        return v

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return self.new(ListC(self.elts(e.elts)))

    def e_Set(self, e):
        return self.new(SetC(self.keyed(self.elts(e.elts))))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.dict_items(self.eval(v)):
                    self.dput(d, kk, vv)
            else:
                kv = self.eval(k)
                self.dput(d, kv, self.eval(v))
        return self.new(DictC(d))

    def dict_items(self, v):
        v = self.force(v)
        if isinstance(v, DictProxyV):
            return [(k, x) for k, x in self.content(v.ref).attrs.items() if not k.startswith('$')]
        c = self.content(v)
        if isinstance(c, DictC):
            return list(c.d.values())
        raise Unsupported('mapping')

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_Slice(self, e):
        f = lambda x: None if x is None else self.force(self.eval(x))
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Attribute(self, e):
        return self.getattr_(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        return self.getitem(self.eval(e.value), self.eval(e.slice))

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.fork(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isinstance(v, Sym) and v.ty == 'b' or isinstance(v, bool):
                # and/or of truth values stays a truth value.
                r = self.fork(c, lambda: go(i + 1), lambda: v) if is_and else self.fork(c, lambda: v, lambda: go(i + 1))
                return r
            return self.fork(c, lambda: go(i + 1), lambda: v) if is_and else self.fork(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def e_UnaryOp(self, e):
        v = self.force(self.eval(e.operand))
        if isinstance(e.op, ast.Not):
            return num.sb(tm.not_(self.truth(v)))
        return self.unary(type(e.op).__name__, v)

    def unary(self, op, v):
        v = self.force(v)
        if is_num(v):
            if op == 'USub':
                if isinstance(v, Sym):
                    return Sym(tm.neg(term(v)), 'i' if v.ty == 'b' else v.ty, v.np)
                return -v
            if op == 'UAdd':
                return v if not isinstance(v, bool) else int(v)
            if op == 'Invert':
                if isinstance(v, Sym) and v.ty == 'b' and v.np:
                    return Sym(tm.not_(v.t), 'b', True)
                if isinstance(v, (int, bool)):
                    return ~v
                n = num.native(v)
                if n is not None and not isinstance(n, float):
                    return ~n
                if isinstance(v, Sym) and v.ty == 'i':
                    return Sym(tm.sub(tm.const(-1), v.t), 'i', v.np)
                self.raise_('TypeError', 'bad operand type for unary ~')
        if isinstance(v, OpaqueV):
            return OpaqueV(tm.app(op, v.t))
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ArrC):
                return self.np.unary(self, op, v)
            if isinstance(c, ObjC):
                name = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
                m = self.class_attr(c.cls, name)
                if m is not None:
                    return self.call(self.bind(m, v, c.cls), [], {})
        self.raise_('TypeError', 'bad operand type for unary %s' % op)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        if len(e.ops) == 1:
            return self.compare(type(e.ops[0]).__name__, left, self.eval(e.comparators[0]))

        def go(i, lhs):
            rhs = self.eval(e.comparators[i])
            r = self.compare(type(e.ops[i]).__name__, lhs, rhs)
            if i == len(e.ops) - 1:
                return r
            return self.fork(self.truth(r), lambda: go(i + 1, rhs), lambda: r)
        return go(0, left)

    def e_Lambda(self, e):
        return self.make_func(e, '<lambda>')

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                spec = self.eval(v.format_spec) if v.format_spec is not None else ''
                if v.conversion == 114:
                    parts.append(self.repr_(x))
                else:
                    parts.append(self.format_(x, spec))
        return self.concat(parts)

    def concat(self, parts):
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return StrV(tm.app('str+', *[p if isinstance(p, str) else p.t for p in parts]))

    def e_ListComp(self, e):
        return self.new(ListC(self.comp(e)))

    def e_SetComp(self, e):
        return self.new(SetC(self.keyed(self.comp(e))))

    def e_GeneratorExp(self, e):
        return self.new(IterC(self.comp(e)))

    def e_DictComp(self, e):
        d = {}
        for k, v in self.comp(e, True):
            self.dput(d, k, v)
        return self.new(DictC(d))

    def comp(self, e, isdict=False):
        '''Comprehensions run in a frame of their own.'''
        first = self.iterate(self.eval(e.generators[0].iter))
        fr = self.new(FrameC({}, self.frame, 'comp'))
        saved = self.frame
        out = []

        def go(i, items):
            g = e.generators[i]
            if items is None:
                items = self.iterate(self.eval(g.iter))
            for it in items:
                self.assign(g.target, it)
                ok = True
                for c in g.ifs:
                    if not self.decide(self.truth(self.eval(c))):
                        ok = False
                        break
                if not ok:
                    continue
                if i + 1 < len(e.generators):
                    go(i + 1, None)
                elif isdict:
                    out.append((self.eval(e.key), self.eval(e.value)))
                else:
                    out.append(self.eval(e.elt))
        # A comprehension inside a class body does not see the class scope, but
        # resolves it through the parent chain; good enough here.
        self.frame = fr.oid
        try:
            go(0, first)
        finally:
            self.frame = saved
        return out

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        ref = self.raw(self.ctxs[-1].frame).vars['$yields']
        self.put(ref, ListC(self.content(ref).items + (v,)))
        return None

    def e_YieldFrom(self, e):
        items = self.iterate(self.eval(e.value))
        ref = self.raw(self.ctxs[-1].frame).vars['$yields']
        self.put(ref, ListC(self.content(ref).items + tuple(items)))
        return None

    def e_Call(self, e):
        # super() needs the calling frame.
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            ctx = self.ctxs[-1]
            f = ctx.fn
            names = f.node.args.args
            return SuperV(f.defcls, self.raw(ctx.frame).vars[names[0].arg])
        fn = self.eval(e.func)
        args = self.elts(e.args)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.eval(k.value)):
                    if kk in kwargs:
                        self.raise_('TypeError', 'got multiple values for keyword argument')
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    self.raise_('TypeError', 'got multiple values for keyword argument')
                kwargs[k.arg] = self.eval(k.value)
        self.line = e.lineno
        return self.call(fn, args, kwargs)

    # --- calls --------------------------------------------------------------
    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, ChoiceV):
            fn = self.force(fn)
        self.calls += 1
        if self.calls > self.budget:
            raise Unsupported('call budget')
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, BoundV):
            return self.call(fn.fn, [fn.self_] + list(args), kwargs)
        if isinstance(fn, BuiltinV):
            return fn.fn(self, [self.force(a) for a in args], {k: self.force(v) for k, v in kwargs.items()})
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, PartialV):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.fn, list(fn.args) + list(args), kw)
        if isinstance(fn, ExtV):
            return self.call_ext(fn.path, args, kwargs)
        if isinstance(fn, OpaqueV):
            return OpaqueV(tm.app('call', fn.t, *[self.key(a) for a in args] + [x for k, a in sorted(kwargs.items()) for x in (k, self.key(a))]))
        if isinstance(fn, Ref):
            c = self.content(fn)
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, '__call__')
                if m is not None:
                    return self.call(self.bind(m, fn, c.cls), args, kwargs)
        if isinstance(fn, (StaticV, ClassMethodV)):
            return self.call(fn.fn, args, kwargs)
        self.raise_('TypeError', 'object is not callable')

    budget = 400000

    def call_ext(self, path, args, kwargs):
        m = self.ext.get(path)
        args = [self.force(a) for a in args]
        kwargs = {k: self.force(v) for k, v in kwargs.items()}
        if m is None:
            return self.opaque_call(path, args, kwargs)
        if isinstance(m, ClassV):
            return self.instantiate(m, args, kwargs)
        if not callable(m):
            self.raise_('TypeError', '%s is not callable' % path)
        return m(self, args, kwargs)

    def opaque_call(self, path, args, kwargs):
        '''An unmodelled external function: a deterministic function of its arguments.'''
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        if self.external_exists(path) is False:
            self.raise_('AttributeError', 'no such name: %s' % path)
        return OpaqueV(tm.app('ext:' + path, *[self.key(a) for a in args] + [x for k, a in sorted(kwargs.items()) for x in (k, self.key(a))]))

    def external_exists(self, path):
        return None

    def key(self, v):
        '''A term that identifies a value as an argument of an unmodelled function.'''
        v = self.force(v)
        if is_num(v):
            return term(v)
        if v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return tm.mk('app', 'k', repr(v))
        if isinstance(v, (OpaqueV, StrV)):
            return v.t
        if isinstance(v, tuple):
            return tm.app('tuple', *[self.key(x) for x in v])
        if isinstance(v, slice):
            return tm.app('slice', *[self.key(x) for x in (v.start, v.stop, v.step)])
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                return tm.app('list', *[self.key(x) for x in c.items])
            if isinstance(c, ArrC):
                o, _ = self.np.get(self, v)
                return tm.app('array', repr(o.shape), *[self.key(x) for x in o.ravel()])
            if isinstance(c, DictC):
                return tm.app('dict', *[y for k, x in c.d.values() for y in (self.key(k), self.key(x))])
        return tm.app('id', repr(v))

    def call_func(self, f, args, kwargs):
        if self.depth > MAX_DEPTH:
            raise Unsupported('recursion')
        node = f.node
        vars_ = self.bind_args(f, args, kwargs)
        if f.module is not None and f.module.name not in self.extra:
            self.functions.add('%s.%s' % (f.module.name, f.qualname))
        _, _, _, gen = self.scope(node)
        if gen:
            vars_['$yields'] = self.new(ListC(()))
        fr = self.new(FrameC(vars_, f.frame))
        ctx = Ctx(f, fr.oid)
        saved = self.frame, self.module, self.line
        split = self.depth_split
        self.depth_split = 0
        n = len(self.ctxs)
        self.ctxs.append(ctx)
        self.frame, self.module = fr.oid, f.module
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body)
                ctx.returns.append((self.st, v))
            else:
                self.exec_block(node.body)
                ctx.returns.append((self.st, None))
        except Dead:
            pass
        finally:
            self.depth -= 1
            del self.ctxs[n:]
            self.frame, self.module, self.line = saved
            self.depth_split = split
        if not ctx.returns:
            raise Dead()
        v = self.merge(ctx.returns)
        if gen:
            return self.new(IterC(self.content(vars_['$yields']).items))
        return v

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        args = list(args)
        kwargs = dict(kwargs)
        name = f.name
        if len(args) > len(pos) and not a.vararg:
            self.raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args)))
        for p, v in zip(pos, args):
            vars_[p] = v
        if a.vararg:
            vars_[a.vararg.arg] = tuple(args[len(pos):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        posonly = set(x.arg for x in a.posonlyargs)
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in vars_:
                    self.raise_('TypeError', "%s() got multiple values for argument '%s'" % (name, k))
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_('TypeError', "%s() got an unexpected keyword argument '%s'" % (name, k))
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vars_:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.raise_('TypeError', "%s() missing a required argument: '%s'" % (name, p))
                vars_[p] = f.defaults[j]
        for k in kwonly:
            if k not in vars_:
                if k not in f.kwdefaults:
                    self.raise_('TypeError', "%s() missing a required keyword-only argument: '%s'" % (name, k))
                vars_[k] = f.kwdefaults[k]
        if a.kwarg:
            vars_[a.kwarg.arg] = self.new(DictC({k: (k, v) for k, v in extra.items()}))
        return vars_

    def instantiate(self, cls, args, kwargs):
        special = self.cls_call.get(cls)
        if special is not None:
            return special(self, [self.force(a) for a in args], {k: self.force(v) for k, v in kwargs.items()})
        if cls.issub(self.excs['BaseException']):
            init = self.class_attr(cls, '__init__')
            ref = self.new(ObjC(cls, {'args': tuple(args)}))
            if isinstance(init, FuncV):
                self.call(init, [ref] + list(args), kwargs)
            return ref
        new = self.class_attr(cls, '__new__')
        if new is not None and not isinstance(new, BuiltinV):
            f = new.fn if isinstance(new, StaticV) else new
            ref = self.call(f, [cls] + list(args), kwargs)
            if not (isinstance(ref, Ref) and isinstance(self.content(ref), ObjC) and self.content(ref).cls.issub(cls)):
                return ref
            cls = self.content(ref).cls
        else:
            if cls.builtin and cls is not self.object_cls:
                raise Unsupported('instance of %s' % cls.name)
            for b in cls.mro:
                if b.builtin and b is not self.object_cls:
                    raise Unsupported('subclass of %s' % b.name)
            ref = self.new(ObjC(cls, {}))
        init = self.class_attr(cls, '__init__')
        if init is not None and not isinstance(init, BuiltinV):
            self.call(self.bind(init, ref, cls), args, kwargs)
        elif args or kwargs:
            self.raise_('TypeError', '%s() takes no arguments' % cls.name)
        return ref

    # --- attributes ---------------------------------------------------------
    def class_attr(self, cls, name):
        for c in cls.mro:
            d = self.content(c.ns).d
            if name in d:
                return d[name][1]
        return None

    def has_class_attr(self, cls, name):
        return any(name in self.content(c.ns).d for c in cls.mro)

    def bind(self, m, obj, cls):
        '''A class attribute read through an instance.'''
        m = self.force(m)
        if isinstance(m, FuncV):
            return BoundV(m, obj)
        if isinstance(m, BuiltinV) and getattr(m, 'method', False):
            return BoundV(m, obj)
        if isinstance(m, StaticV):
            return m.fn
        if isinstance(m, ClassMethodV):
            return BoundV(m.fn, cls)
        if isinstance(m, PropertyV):
            if m.fget is None:
                self.raise_('AttributeError', 'unreadable attribute')
            return self.call(m.fget, [obj], {})
        if isinstance(m, Ref):
            c = self.content(m)
            if isinstance(c, ObjC):
                g = self.class_attr(c.cls, '__get__')
                if g is not None:
                    return self.call(BoundV(g, m), [obj, cls], {})
        return m

    def is_data_descriptor(self, m):
        if isinstance(m, PropertyV):
            return not m.cached
        if isinstance(m, Ref):
            c = self.content(m)
            return isinstance(c, ObjC) and self.has_class_attr(c.cls, '__set__')
        return False

    def attr_error(self, what, name):
        self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (what, name))

    def getattr_(self, v, name):
        v = self.force(v)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ObjC):
                return self.obj_getattr(v, c, name)
            if isinstance(c, ArrC):
                return self.np.array_attr(self, v, name)
            return self.container_attr(v, c, name)
        if isinstance(v, ModuleV):
            f = self.raw(v.frame)
            if name in f.vars:
                return f.vars[name]
            if name == '__dict__':
                raise Unsupported('module __dict__')
            if v.package:
                m = self.modules.get(v.name + '.' + name)
                if m is not None:
                    return m
            self.raise_('AttributeError', "module '%s' has no attribute '%s'" % (v.name, name))
        if isinstance(v, ExtV):
            return self.ext_value(v.path + '.' + name)
        if isinstance(v, ClassV):
            return self.cls_getattr(v, name)
        if isinstance(v, SuperV):
            obj = v.obj
            if isinstance(obj, ClassV):
                cls = obj
            else:
                cls = self.content(obj).cls
            i = cls.mro.index(v.cls)
            for c in cls.mro[i + 1:]:
                d = self.content(c.ns).d
                if name in d:
                    return self.bind(d[name][1], obj, cls)
            if name == '__init__':
                return BuiltinV('object.__init__', lambda I, a, k: None)
            if name in ('__setattr__', '__getattribute__'):
                return BoundV(self.class_attr(self.object_cls, name), obj)
            self.attr_error('super', name)
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name in ('__name__', '__qualname__'):
                return v.name
            if name == '__doc__':
                return ast.get_docstring(v.node) if not isinstance(v.node, ast.Lambda) else None
            if name == '__module__':
                return v.module.name
            if name == '__get__':
                return BuiltinV('__get__', lambda I, a, k: I.bind(v, a[0], a[1] if len(a) > 1 else None))
            if name == '__dict__':
                raise Unsupported('function __dict__')
            self.attr_error('function', name)
        if isinstance(v, BoundV):
            if name == '__self__':
                return v.self_
            if name == '__func__':
                return v.fn
            return self.getattr_(v.fn, name)
        if isinstance(v, PropertyV):
            if name == 'setter':
                return BuiltinV('setter', lambda I, a, k: PropertyV(v.fget, a[0], v.fdel))
            if name == 'getter':
                return BuiltinV('getter', lambda I, a, k: PropertyV(a[0], v.fset, v.fdel))
            if name == 'deleter':
                return BuiltinV('deleter', lambda I, a, k: PropertyV(v.fget, v.fset, a[0]))
            if name in ('fget', 'fset', 'fdel'):
                return getattr(v, name)
            if name == '__doc__':
                return None
        if isinstance(v, OpaqueV):
            return OpaqueV(tm.app('attr', v.t, name))
        if isinstance(v, DictProxyV):
            return self.proxy_attr(v, name)
        if isinstance(v, FlagsV):
            return self.np.flags_get(self, v, name)
        if isinstance(v, FlatV):
            return self.np.flat_attr(self, v, name)
        if isinstance(v, BuiltinV):
            if name in ('__name__',):
                return v.name
            sub = self.builtin_attrs.get((v.name, name))
            if sub is not None:
                return sub
            self.attr_error('builtin', name)
        return self.scalar_attr(v, name)

    def obj_getattr(self, v, c, name):
        cls = c.cls
        if name == '__class__':
            return cls
        if name == '__dict__':
            return DictProxyV(v)
        ga = self.class_attr(cls, '__getattribute__')
        if isinstance(ga, FuncV):
            raise Unsupported('__getattribute__')
        m = self.class_attr(cls, name)
        has = m is not None or self.has_class_attr(cls, name)
        if has and self.is_data_descriptor(m):
            if isinstance(m, PropertyV) or True:
                return self.get_with_fallback(v, c, name, lambda: self.bind(m, v, cls))
        if name in c.attrs:
            return c.attrs[name]
        if has:
            if isinstance(m, PropertyV) and m.cached:
                r = self.call(m.fget, [v], {})
                self.setraw(v, name, r)
                return r
            return self.bind(m, v, cls)
        g = self.class_attr(cls, '__getattr__')
        if g is not None:
            return self.call(self.bind(g, v, cls), [name], {})
        b = self.object_attr(v, c, name)
        if b is not None:
            return b
        self.attr_error(cls.name, name)

    def get_with_fallback(self, v, c, name, f):
        # A property that raises AttributeError falls through to __getattr__.
        g = self.class_attr(c.cls, '__getattr__')
        if g is None:
            return f()
        sink = []
        self.sinks.append(sink)
        n = len(self.sinks)
        ends = []
        try:
            r = f()
            ends.append((self.st, r))
        except Dead:
            pass
        finally:
            del self.sinks[n - 1:]
        for st, exc in sink:
            self.st = State(dict(st.heap), st.pc)
            if self.content(exc).cls.issub(self.excs['AttributeError']):
                try:
                    r = self.call(self.bind(g, v, c.cls), [name], {})
                    ends.append((self.st, r))
                except Dead:
                    pass
            else:
                self.sinks[-1].append((st, exc))
        if not ends:
            raise Dead()
        return self.merge(ends)

    def object_attr(self, v, c, name):
        if c.cls.issub(self.excs['BaseException']):
            if name == 'with_traceback':
                return BuiltinV(name, lambda I, a, k: v)
            if name in ('__traceback__', '__cause__', '__context__'):
                return None
        if name == '__doc__':
            return None
        if name == '__eq__':
            return BuiltinV(name, lambda I, a, k: I.compare('Is', v, a[0]))
        return None

    def setraw(self, ref, name, value):
        c = self.content(ref)
        at = dict(c.attrs)
        at[name] = value
        self.put(ref, ObjC(c.cls, at))

    def setattr_(self, v, name, value):
        v = self.force(v)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ObjC):
                sa = self.class_attr(c.cls, '__setattr__')
                if isinstance(sa, FuncV):
                    self.call(BoundV(sa, v), [name, value], {})
                    return
                self.obj_setattr(v, name, value)
                return
            if isinstance(c, ArrC):
                self.np.array_setattr(self, v, name, value)
                return
        if isinstance(v, FlagsV):
            self.np.flags_set(self, v, name, value)
            return
        if isinstance(v, ClassV):
            ns = self.content(v.ns)
            d = dict(ns.d)
            d[name] = (name, value)
            self.put(v.ns, DictC(d))
            self.events.append(('class', v.name, name, self.where()))
            return
        if isinstance(v, ModuleV):
            self.setvar(v.frame, name, value)
            self.events.append(('module', v.name, name, self.where()))
            return
        if isinstance(v, FuncV):
            v.attrs[name] = value
            return
        if isinstance(v, OpaqueV):
            self.events.append(('opaque', str(v), name, self.where()))
            return
        if isinstance(v, ExtV):
            self.events.append(('ext', v.path, name, self.where()))
            return
        self.raise_('AttributeError', "cannot set attribute '%s'" % name)

    def obj_setattr(self, v, name, value):
        c = self.content(v)
        m = self.class_attr(c.cls, name)
        if isinstance(m, PropertyV) and not m.cached:
            if m.fset is None:
                self.raise_('AttributeError', "property '%s' has no setter" % name)
            self.call(m.fset, [v, value], {})
            return
        if isinstance(m, Ref):
            mc = self.content(m)
            if isinstance(mc, ObjC):
                s = self.class_attr(mc.cls, '__set__')
                if s is not None:
                    self.call(BoundV(s, m), [v, value], {})
                    return
        self.setraw(v, name, value)

    def delattr_(self, v, name):
        v = self.force(v)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, name)
                if isinstance(m, Ref) and isinstance(self.content(m), ObjC):
                    d = self.class_attr(self.content(m).cls, '__delete__')
                    if d is not None:
                        self.call(BoundV(d, m), [v], {})
                        return
                if name in c.attrs:
                    at = dict(c.attrs)
                    del at[name]
                    self.put(v, ObjC(c.cls, at))
                    return
                self.attr_error(c.cls.name, name)
        raise Unsupported('del attribute')

    def cls_getattr(self, v, name):
        if name in ('__name__', '__qualname__'):
            return v.name
        if name == '__dict__':
            raise Unsupported('class __dict__')
        if name == '__mro__':
            return tuple(v.mro)
        if name == '__doc__':
            return None
        if name == '__module__':
            return v.module.name if v.module else 'builtins'
        for c in v.mro:
            d = self.content(c.ns).d
            if name in d:
                m = self.force(d[name][1])
                if isinstance(m, StaticV):
                    return m.fn
                if isinstance(m, ClassMethodV):
                    return BoundV(m.fn, v)
                if isinstance(m, Ref) and isinstance(self.content(m), ObjC):
                    g = self.class_attr(self.content(m).cls, '__get__')
                    if g is not None:
                        return self.call(BoundV(g, m), [None, v], {})
                return m
        r = self.builtin_cls_attr(v, name)
        if r is not None:
            return r
        self.raise_('AttributeError', "type object '%s' has no attribute '%s'" % (v.name, name))

    def model_value(self, path):
        '''A name of a modelled external module (models/), or None.'''
        parts = path.split('.')
        for i in range(len(parts) - 1, 0, -1):
            name = self.model_of.get('.'.join(parts[:i]))
            if name is not None:
                m = self.modules.get(name) or self.load(name)
                vs = self.raw(m.frame).vars
                if parts[i] not in vs or parts[i].startswith('_'):
                    return None
                v = vs[parts[i]]
                if isinstance(v, (ModuleV, ExtV)):
                    return None
                for a in parts[i + 1:]:
                    v = self.getattr_(v, a)
                return v
        return None

    def ext_value(self, path):
        v = self.ext.get(path)
        if v is None:
            v = self.model_value(path)
            if v is not None:
                return v
        if v is not None and not callable(v) or isinstance(v, Val):
            return v.v if hasattr(v, 'v') and type(v).__name__ == 'Const' else v
        if v is None and self.external_exists(path) is False:
            self.raise_('AttributeError', 'no such name: %s' % path)
        return ExtV(path)

    def hasattr_(self, v, name):
        '''A boolean term.'''
        v = self.force(v)
        if isinstance(v, OpaqueV):
            return tm.bapp('hasattr', v.t, name)
        sink = []
        self.sinks.append(sink)
        n = len(self.sinks)
        st0 = State(dict(self.st.heap), self.st.pc)
        alive = False
        try:
            self.getattr_(v, name)
            alive = True
        except Dead:
            pass
        finally:
            del self.sinks[n - 1:]
        if alive and not sink:
            return tm.TRUE
        for st, exc in sink:
            if not self.content_in(st, exc).cls.issub(self.excs['AttributeError']):
                if alive or len(sink) > 1:
                    raise Unsupported('hasattr')
                self.st = st
                self.sinks[-1].append((st, exc))
                raise Dead()
        if alive:
            raise Unsupported('hasattr')
        self.st = st0
        return tm.FALSE

    def content_in(self, st, ref):
        c = st.heap.get(ref.oid)
        return self.base[ref.oid] if c is None else c

    # --- truth --------------------------------------------------------------
    def truth(self, v):
        '''A boolean term.'''
        if isinstance(v, ChoiceV):
            # Gate the truth values when both are plain.
            v2 = v
            if isinstance(v2, ChoiceV):
                k = self.simp(v2.cond)
                if k is tm.TRUE:
                    return self.truth(v2.a)
                if k is tm.FALSE:
                    return self.truth(v2.b)
                if not isinstance(v2.a, Ref) and not isinstance(v2.b, Ref) and v2.a is not UNDEF and v2.b is not UNDEF:
                    return tm.ite(k, self.truth(v2.a), self.truth(v2.b))
                raise NeedSplit(k)
        v = self.force(v)
        if isinstance(v, Sym):
            return self.simp(bterm(v))
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple, range, complex)):
            return tm.TRUE if v else tm.FALSE
        if isinstance(v, StrV):
            return tm.bapp('nonempty', v.t)
        if isinstance(v, OpaqueV):
            return tm.bapp('truth', v.t)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                return tm.TRUE if c.items else tm.FALSE
            if isinstance(c, (DictC, SetC)):
                return tm.TRUE if c.d else tm.FALSE
            if isinstance(c, ArrC):
                return self.np.truth(self, v)
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, '__bool__')
                if m is not None:
                    r = self.force(self.call(self.bind(m, v, c.cls), [], {}))
                    if not (isinstance(r, bool) or isinstance(r, Sym) and r.ty == 'b'):
                        self.raise_('TypeError', '__bool__ should return bool')
                    return self.truth(r)
                m = self.class_attr(c.cls, '__len__')
                if m is not None:
                    return self.truth(self.call(self.bind(m, v, c.cls), [], {}))
            return tm.TRUE
        return tm.TRUE

    # --- operators ----------------------------------------------------------
    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
              'Pow': 'pow', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor',
              'LShift': 'lshift', 'RShift': 'rshift'}
    NUMOP = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**'}

    def user_obj(self, v):
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ObjC):
                return c
        return None

    def is_arr(self, v):
        return isinstance(v, Ref) and isinstance(self.content(v), ArrC)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if is_num(a) and is_num(b):
            return self.numop(op, a, b)
        ca, cb = self.user_obj(a), self.user_obj(b)
        if ca is not None or cb is not None:
            name = self.DUNDER[op]
            if ca is not None:
                m = self.class_attr(ca.cls, '__%s__' % name)
                if m is not None:
                    r = self.call(self.bind(m, a, ca.cls), [b], {})
                    if r is not NotImplemented:
                        return r
            if cb is not None:
                if self.is_arr(a):
                    raise Unsupported('array and object')
                m = self.class_attr(cb.cls, '__r%s__' % name)
                if m is not None:
                    r = self.call(self.bind(m, b, cb.cls), [a], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(a, str) and op == 'Mod':
                return self.percent(a, b)
            self.raise_('TypeError', 'unsupported operand type(s) for %s' % op)
        if isinstance(a, (str, StrV)) and op == 'Mod':
            return self.percent(a, b)
        if self.is_arr(a) or self.is_arr(b):
            return self.np.binop(self, op, a, b)
        if isinstance(a, (str, StrV)):
            if op == 'Add' and isinstance(b, (str, StrV)):
                return self.concat([a, b])
            if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(b, OpaqueV):
                return OpaqueV(tm.app(op, self.key(a), b.t))
            self.raise_('TypeError', 'unsupported operand type(s) for %s: str' % op)
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return OpaqueV(tm.app(op, self.key(a), self.key(b)))
        if isinstance(b, (str, StrV)) and op == 'Mult' and isinstance(a, int) and isinstance(b, str):
            return a * b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        seq = lambda x: isinstance(x, tuple) or isinstance(x, Ref) and isinstance(self.content(x), ListC)
        if op == 'Mult' and (seq(a) or seq(b)):
            s, n = (a, b) if seq(a) else (b, a)
            n = self.as_index(n)
            if n is not None:
                if isinstance(s, tuple):
                    return s * n
                return self.new(ListC(self.content(s).items * n))
        if seq(a) and seq(b) and op == 'Add':
            if isinstance(a, Ref) and isinstance(b, Ref):
                return self.new(ListC(self.content(a).items + self.content(b).items))
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = self.content(a), self.content(b)
            if isinstance(x, (DictC, SetC)) and isinstance(y, (DictC, SetC)) and x.d and y.d and any(self.unsure(k) for q in (x, y) for k in q.d):
                raise Unsupported('undecided dictionary keys')
            if isinstance(x, SetC) and isinstance(y, SetC):
                if op == 'Sub':
                    return self.new(SetC({k: v for k, v in x.d.items() if k not in y.d}))
                if op == 'BitOr':
                    d = dict(x.d)
                    d.update(y.d)
                    return self.new(SetC(d))
                if op == 'BitAnd':
                    return self.new(SetC({k: v for k, v in x.d.items() if k in y.d}))
                if op == 'BitXor':
                    d = {k: v for k, v in x.d.items() if k not in y.d}
                    d.update({k: v for k, v in y.d.items() if k not in x.d})
                    return self.new(SetC(d))
            if isinstance(x, DictC) and isinstance(y, DictC) and op == 'BitOr':
                d = dict(x.d)
                d.update(y.d)
                return self.new(DictC(d))
        if (isinstance(a, Sym) and a.np or isinstance(b, Sym) and b.np) and (seq(a) or seq(b)):
            return self.np.binop(self, op, a, b)
        self.raise_('TypeError', 'unsupported operand type(s) for %s' % op)

    def numop(self, op, a, b):
        sy = self.NUMOP.get(op)
        if sy is None:
            if ty_of(a) == 'b' and ty_of(b) == 'b' and op in ('BitAnd', 'BitOr', 'BitXor'):
                x, y = bterm(a), bterm(b)
                t = tm.and_(x, y) if op == 'BitAnd' else tm.or_(x, y) if op == 'BitOr' else tm.ite(x, tm.not_(y), y)
                return num.sb(t, num.isnp(a) or num.isnp(b))
            x, y = num.native(a), num.native(b)
            if isinstance(x, int) and isinstance(y, int):
                return {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                        'LShift': lambda: x << y, 'RShift': lambda: x >> y}[op]()
            if op == 'MatMult' or ty_of(a) == 'f' or ty_of(b) == 'f':
                self.raise_('TypeError', 'unsupported operand type(s) for %s' % op)
            return Sym(tm.app(op, term(a), term(b)), 'i')
        try:
            return num.arith(sy, a, b)
        except ZeroDivisionError as e:
            self.raise_('ZeroDivisionError', str(e))
        except OverflowError as e:
            self.raise_('OverflowError', str(e))

    def inplace(self, op, a, b):
        a, b = self.force(a), self.force(b)
        ca = self.user_obj(a)
        if ca is not None:
            m = self.class_attr(ca.cls, '__i%s__' % self.DUNDER[op])
            if m is not None:
                return self.call(self.bind(m, a, ca.cls), [b], {})
        if isinstance(a, Ref):
            c = self.content(a)
            if isinstance(c, ArrC):
                return self.np.inplace(self, op, a, b)
            if isinstance(c, ListC) and op == 'Add':
                self.put(a, ListC(c.items + tuple(self.iterate(b))))
                return a
            if isinstance(c, ListC) and op == 'Mult':
                self.put(a, ListC(c.items * self.as_index(b)))
                return a
            if isinstance(c, SetC) and op in ('BitOr', 'Sub', 'BitAnd'):
                r = self.binop(op, a, b)
                self.put(a, self.content(r))
                return a
            if isinstance(c, DictC) and op == 'BitOr':
                d = dict(c.d)
                d.update(self.content(b).d)
                self.put(a, DictC(d, c.default))
                return a
        return self.binop(op, a, b)

    CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}
    CDUNDER = {'Lt': ('__lt__', '__gt__'), 'LtE': ('__le__', '__ge__'), 'Gt': ('__gt__', '__lt__'),
               'GtE': ('__ge__', '__le__'), 'Eq': ('__eq__', '__eq__'), 'NotEq': ('__ne__', '__ne__')}

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            t = self.is_(a, b)
            return num.sb(t if op == 'Is' else tm.not_(t))
        if op in ('In', 'NotIn'):
            t = self.contains(b, a)
            return num.sb(t if op == 'In' else tm.not_(t))
        a, b = self.force(a), self.force(b)
        if is_num(a) and is_num(b):
            np = num.isnp(a) or num.isnp(b)
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[self.CMP[op]]
            return num.sb(self.simp(num.cmp(self.CMP[op], a, b)), np)
        if self.is_arr(a) or self.is_arr(b):
            return self.np.compare(self, op, a, b)
        ca, cb = self.user_obj(a), self.user_obj(b)
        if ca is not None or cb is not None:
            f, r = self.CDUNDER[op]
            if ca is not None:
                m = self.class_attr(ca.cls, f)
                if m is not None:
                    x = self.call(self.bind(m, a, ca.cls), [b], {})
                    if x is not NotImplemented:
                        return x
                elif op == 'NotEq':
                    m = self.class_attr(ca.cls, '__eq__')
                    if m is not None:
                        x = self.call(self.bind(m, a, ca.cls), [b], {})
                        if x is not NotImplemented:
                            return num.sb(tm.not_(self.truth(x)))
            if cb is not None:
                m = self.class_attr(cb.cls, r)
                if m is not None:
                    x = self.call(self.bind(m, b, cb.cls), [a], {})
                    if x is not NotImplemented:
                        return x
                elif op == 'NotEq':
                    m = self.class_attr(cb.cls, '__eq__')
                    if m is not None:
                        x = self.call(self.bind(m, b, cb.cls), [a], {})
                        if x is not NotImplemented:
                            return num.sb(tm.not_(self.truth(x)))
            if op == 'Eq':
                return num.sb(self.is_(a, b))
            if op == 'NotEq':
                return num.sb(tm.not_(self.is_(a, b)))
            self.raise_('TypeError', "'%s' not supported between instances" % self.CMP[op])
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            if op in ('Eq', 'NotEq'):
                t = tm.bapp('Eq', self.key(a), self.key(b))
                return Sym(t if op == 'Eq' else tm.not_(t), 'b')
            return OpaqueV(tm.app(op, self.key(a), self.key(b)))
        if op in ('Eq', 'NotEq'):
            t = self.equal(a, b)
            return num.sb(t if op == 'Eq' else tm.not_(t))
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[self.CMP[op]]
        sa, sb_ = self.seq_items(a), self.seq_items(b)
        if sa is not None and sb_ is not None:
            return self.lex(op, list(sa), list(sb_))
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = self.content(a), self.content(b)
            if isinstance(x, SetC) and isinstance(y, SetC):
                p, q = set(x.d), set(y.d)
                return {'<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q}[self.CMP[op]]
        if isinstance(a, StrV) or isinstance(b, StrV):
            return Sym(tm.bapp(op, self.key(a), self.key(b)), 'b')
        self.raise_('TypeError', "'%s' not supported between instances" % self.CMP[op])

    def lex(self, op, xs, ys):
        for x, y in zip(xs, ys):
            e = self.truth(self.compare('Eq', x, y))
            if self.decide(e):
                continue
            return self.compare(op, x, y)
        return {'Lt': len(xs) < len(ys), 'LtE': len(xs) <= len(ys), 'Gt': len(xs) > len(ys), 'GtE': len(xs) >= len(ys)}[op]

    def seq_items(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                return c.items
        return None

    def equal(self, a, b):
        '''== as a boolean term.'''
        a, b = self.force(a), self.force(b)
        if is_num(a) and is_num(b):
            return num.eq(a, b)
        if isinstance(a, StrV) or isinstance(b, StrV):
            if isinstance(a, StrV) and isinstance(b, StrV) and a.t is b.t:
                return tm.TRUE
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
                return tm.bapp('streq', self.key(a), self.key(b))
            return tm.FALSE
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            if self.user_obj(a) is not None or self.user_obj(b) is not None or self.is_arr(a) or self.is_arr(b):
                return self.truth(self.compare('Eq', a, b))
            if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
                return tm.bapp('Eq', self.key(a), self.key(b))
            return tm.TRUE if type(a) is type(b) and a == b else tm.FALSE
        if self.user_obj(a) is not None or self.user_obj(b) is not None or self.is_arr(a) or self.is_arr(b):
            return self.truth(self.compare('Eq', a, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return tm.FALSE
            return tm.and_(*[self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, range) and isinstance(b, range):
            return tm.TRUE if a == b else tm.FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return tm.TRUE
            x, y = self.content(a), self.content(b)
            if isinstance(x, ListC) and isinstance(y, ListC):
                if len(x.items) != len(y.items):
                    return tm.FALSE
                return tm.and_(*[self.equal(p, q) for p, q in zip(x.items, y.items)])
            if isinstance(x, (DictC, SetC)) and isinstance(y, (DictC, SetC)) and set(x.d) != set(y.d) and any(self.unsure(k) for q in (x, y) for k in q.d):
                raise Unsupported('undecided dictionary keys')
            if isinstance(x, DictC) and isinstance(y, DictC):
                if set(x.d) != set(y.d):
                    return tm.FALSE
                return tm.and_(*[self.equal(x.d[k][1], y.d[k][1]) for k in x.d])
            if isinstance(x, SetC) and isinstance(y, SetC):
                return tm.TRUE if set(x.d) == set(y.d) else tm.FALSE
            return tm.FALSE
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            return tm.TRUE if self.type_norm(a) is self.type_norm(b) or a == b else tm.FALSE
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return tm.bapp('Eq', self.key(a), self.key(b))
        if isinstance(a, slice) and isinstance(b, slice):
            return self.equal((a.start, a.stop, a.step), (b.start, b.stop, b.step))
        if isinstance(a, self.np.DType) or isinstance(b, self.np.DType):
            return tm.TRUE if self.np.dtype_eq(self, a, b) else tm.FALSE
        return tm.TRUE if a is b else tm.FALSE

    def type_norm(self, v):
        return v

    def is_(self, a, b):
        if isinstance(a, ChoiceV) or isinstance(b, ChoiceV):
            v, o = (a, b) if isinstance(a, ChoiceV) else (b, a)
            k = self.simp(v.cond)
            if k is tm.TRUE:
                return self.is_(v.a, o)
            if k is tm.FALSE:
                return self.is_(v.b, o)
            return tm.ite(k, self.is_(v.a, o), self.is_(v.b, o))
        if a is UNDEF or b is UNDEF:
            self.force(a)
            self.force(b)
        if a is b:
            return tm.TRUE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return tm.TRUE if a.oid == b.oid else tm.FALSE
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, OpaqueV):
                return tm.bapp('isNone', o.t)
            return tm.FALSE
        if isinstance(a, bool) or isinstance(b, bool):
            x, o = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(o, bool):
                return tm.TRUE if x == o else tm.FALSE
            if isinstance(o, Sym) and o.ty == 'b' and not o.np:
                return o.t if x else tm.not_(o.t)
            return tm.FALSE
        if is_num(a) and is_num(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return tm.TRUE if type(a) is type(b) and a == b else tm.FALSE
            raise Unsupported('identity of numbers')
        if isinstance(a, str) and isinstance(b, str):
            return tm.TRUE if a == b else tm.FALSE
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            return tm.TRUE if a == b else tm.FALSE
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return tm.FALSE
        if a == () and b == ():
            return tm.TRUE
        return tm.FALSE

    def contains(self, cont, v):
        cont = self.force(cont)
        if isinstance(cont, Ref):
            c = self.content(cont)
            if isinstance(c, (DictC, SetC)):
                k = self.hkey_soft(v)
                if k is None:
                    if v is not None and not isinstance(v, OpaqueV):
                        self.hkey(v, c.d)
                        raise Unsupported('a key which is not known')
                    if v is not None:
                        return tm.bapp('in', self.key(v), self.key(cont))
                elif self.unsure(k) or any(self.unsure(q) for q in c.d):
                    k = self.hkey(v, c.d)
                return tm.TRUE if k in c.d else tm.FALSE
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, '__contains__')
                if m is not None:
                    return self.truth(self.call(self.bind(m, cont, c.cls), [v], {}))
            if isinstance(c, ArrC):
                r = self.np.compare(self, 'Eq', cont, v)
                return self.np.any_term(self, r)
            items = self.iterate(cont) if not isinstance(c, IterC) else self.iterate(cont)
            return tm.or_(*[tm.or_(self.is_same(x, v), self.equal(x, v)) for x in items])
        if isinstance(cont, tuple):
            return tm.or_(*[tm.or_(self.is_same(x, v), self.equal(x, v)) for x in cont])
        if isinstance(cont, str) and isinstance(self.force(v), str):
            return tm.TRUE if self.force(v) in cont else tm.FALSE
        if isinstance(cont, range):
            n = num.native(v) if is_num(v) else None
            if n is not None:
                return tm.TRUE if n in cont else tm.FALSE
            return tm.or_(*[self.equal(x, v) for x in cont])
        if isinstance(cont, DictProxyV):
            return tm.TRUE if v in self.content(cont.ref).attrs else tm.FALSE
        if isinstance(cont, (OpaqueV, StrV)):
            return tm.bapp('in', self.key(v), cont.t)
        self.raise_('TypeError', 'argument is not iterable')

    def is_same(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return tm.TRUE
        return tm.FALSE

    # --- hashing ------------------------------------------------------------
    def hkey(self, v, d=None):
        '''The key of a value in the dictionary or set d; unknown numbers are compared with what is in it.'''
        v = self.force(v)
        k = self.hkey_soft(v)
        if k is None and v is not None:
            if isinstance(v, OpaqueV):
                return ('op', v.t.id)
            if isinstance(v, tuple) and any(isinstance(x, OpaqueV) for x in v):
                raise Unsupported('undecided dictionary key')
            self.raise_('TypeError', 'unhashable type')
        u = self.unsure(k)
        if u and d is None:
            raise Unsupported('undecided dictionary key')
        if u:
            self.keyvals[k] = v
        elif isinstance(k, tuple) or is_num(k):
            self.keyvals.setdefault(k, v)
        if d and k not in d:
            for q in d:
                if (u or self.unsure(q)) and q in self.keyvals and self.decide(self.equal(v, self.keyvals[q])):
                    return q
        return k

    def unsure(self, k):
        '''Does a key hold a number which is not known?'''
        return isinstance(k, tuple) and (len(k) == 2 and k[0] == 'y' or k[:1] == ('t',) and any(self.unsure(x) for x in k[1:]))

    def keyed(self, values):
        d = {}
        for v in values:
            d.setdefault(self.hkey(v, d), v)
        return d

    def dput(self, d, k, x):
        hk = self.hkey(k, d)
        d[hk] = (d[hk][0] if hk in d else k, x)

    def hkey_soft(self, v):
        v = self.force(v)
        if v is None or isinstance(v, (str, bytes, int, float, bool)):
            return v
        if isinstance(v, Sym):
            n = num.native(v)
            return ('y', term(v).id) if n is None else n
        if isinstance(v, tuple):
            ks = [self.hkey_soft(x) for x in v]
            if any(k is None and x is not None for k, x in zip(ks, v)):
                return None
            return ('t',) + tuple(ks)
        if isinstance(v, StrV):
            return ('s', v.t.id)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ObjC):
                if self.has_class_attr(c.cls, '__hash__') or not self.has_class_attr(c.cls, '__eq__') or c.cls.builtin:
                    return ('ref', v.oid)
                return None
            if isinstance(c, SetC) and c.frozen:
                return ('fs', frozenset(c.d))
            if isinstance(c, IterC):
                return ('ref', v.oid)
            return None
        if isinstance(v, (ClassV, FuncV, ExtV, ModuleV, BuiltinV)):
            return v
        if isinstance(v, BoundV):
            return ('bound', id(v.fn), self.hkey_soft(v.self_) if isinstance(v.self_, Ref) else id(v.self_))
        if isinstance(v, range):
            return v
        return None

    # --- items --------------------------------------------------------------
    def as_index(self, v):
        '''A native int for an index-like value, or None.'''
        v = self.force(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Sym):
            if v.ty == 'f':
                return None
            n = num.native(v)
            if n is None:
                d = v.t
                while True:
                    i = d if d.op == 'ite' else tm._find_ite(d)
                    if i is None:
                        break
                    k = self.simp(i.args[0])
                    if k not in (tm.TRUE, tm.FALSE):
                        while k.op in ('not', 'and', 'or'):
                            k = k.args[0]
                        raise NeedSplit(k)
                    d = tm.subst(d, i, i.args[1 if k is tm.TRUE else 2])
                if d.op == 'c' and d.args[0].denominator == 1:
                    return int(d.args[0])
                raise Unsupported('undecided index')
            return int(n)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ArrC) and c.shape == () and c.dtype.kind in 'iu':
                return self.as_index(self.np.item(self, v))
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, '__index__')
                if m is not None:
                    return self.as_index(self.call(self.bind(m, v, c.cls), [], {}))
        return None

    def native_slice(self, s):
        def f(x):
            if x is None:
                return None
            n = self.as_index(x)
            if n is None:
                self.raise_('TypeError', 'slice indices must be integers')
            return n
        return slice(f(s.start), f(s.stop), f(s.step))

    def getitem(self, v, k):
        v, k = self.force(v), self.force(k)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                if isinstance(k, slice):
                    return self.new(ListC(c.items[self.native_slice(k)]))
                return self.seq_index(c.items, k, 'list')
            if isinstance(c, DictC):
                hk = self.hkey(k, c.d)
                if hk in c.d:
                    return c.d[hk][1]
                if isinstance(k, (OpaqueV, StrV)):
                    raise Unsupported('dictionary lookup with an unknown key')
                if c.default is not None:
                    r = self.call(c.default, [], {})
                    self.setitem(v, k, r)
                    return r
                self.raise_('KeyError', k)
            if isinstance(c, ArrC):
                return self.np.getitem(self, v, k)
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, '__getitem__')
                if m is not None:
                    return self.call(self.bind(m, v, c.cls), [k], {})
            self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(v, tuple):
            if isinstance(k, slice):
                return v[self.native_slice(k)]
            return self.seq_index(v, k, 'tuple')
        if isinstance(v, (str, bytes)):
            if isinstance(k, slice):
                return v[self.native_slice(k)]
            return self.seq_index(v, k, 'string')
        if isinstance(v, range):
            if isinstance(k, slice):
                return v[self.native_slice(k)]
            return self.seq_index(v, k, 'range')
        if isinstance(v, DictProxyV):
            at = self.content(v.ref).attrs
            if k in at:
                return at[k]
            self.raise_('KeyError', k)
        if isinstance(v, OpaqueV):
            return OpaqueV(tm.app('getitem', v.t, self.key(k)))
        if isinstance(v, StrV):
            return StrV(tm.app('getitem', v.t, self.key(k)))
        if isinstance(v, FlatV):
            return self.np.getitem(self, self.np.ravel_view(self, v.ref), k)
        if isinstance(v, ExtV):
            r = self.ext.get(v.path + '.__getitem__')
            if r is not None:
                return r(self, [k], {})
            return OpaqueV(tm.app('getitem', 'ext:' + v.path, self.key(k)))
        if isinstance(v, ClassV):
            return v       # generic alias
        self.raise_('TypeError', 'object is not subscriptable')

    def seq_index(self, items, k, what):
        i = self.as_index(k)
        if i is None:
            self.raise_('TypeError', '%s indices must be integers' % what)
        if not -len(items) <= i < len(items):
            self.raise_('IndexError', '%s index out of range' % what)
        return items[i]

    def setitem(self, v, k, x):
        v, k = self.force(v), self.force(k)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                items = list(c.items)
                if isinstance(k, slice):
                    try:
                        items[self.native_slice(k)] = self.iterate(x)
                    except ValueError as e:
                        self.raise_('ValueError', str(e))
                else:
                    self.seq_index(items, k, 'list')
                    items[self.as_index(k)] = x
                self.put(v, ListC(items))
                return
            if isinstance(c, DictC):
                d = dict(c.d)
                self.dput(d, k, x)
                self.put(v, DictC(d, c.default))
                return
            if isinstance(c, ArrC):
                self.np.setitem(self, v, k, x)
                return
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, '__setitem__')
                if m is not None:
                    self.call(self.bind(m, v, c.cls), [k, x], {})
                    return
        if isinstance(v, DictProxyV):
            self.setraw(v.ref, k, x)
            return
        if isinstance(v, FlatV):
            self.np.setitem(self, self.np.ravel_view(self, v.ref, True), k, x)
            return
        if isinstance(v, OpaqueV):
            self.events.append(('opaque-item', str(v), '', self.where()))
            raise Unsupported('store into an unmodelled object')
        self.raise_('TypeError', 'object does not support item assignment')

    def delitem(self, v, k):
        v, k = self.force(v), self.force(k)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                items = list(c.items)
                if isinstance(k, slice):
                    del items[self.native_slice(k)]
                else:
                    self.seq_index(items, k, 'list')
                    del items[self.as_index(k)]
                self.put(v, ListC(items))
                return
            if isinstance(c, DictC):
                hk = self.hkey(k, c.d)
                if hk not in c.d:
                    self.raise_('KeyError', k)
                d = dict(c.d)
                del d[hk]
                self.put(v, DictC(d, c.default))
                return
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, '__delitem__')
                if m is not None:
                    self.call(self.bind(m, v, c.cls), [k], {})
                    return
        if isinstance(v, DictProxyV):
            c = self.content(v.ref)
            if k not in c.attrs:
                self.raise_('KeyError', k)
            at = dict(c.attrs)
            del at[k]
            self.put(v.ref, ObjC(c.cls, at))
            return
        raise Unsupported('del item')

    def iterate(self, v):
        v = self.force(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (str, bytes, range)):
            return list(v)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                return list(c.items)
            if isinstance(c, DictC):
                return [k for k, _ in c.d.values()]
            if isinstance(c, SetC):
                return self.set_order(c)
            if isinstance(c, IterC):
                self.put(v, IterC(c.items, len(c.items)))
                return list(c.items[c.pos:])
            if isinstance(c, ArrC):
                return self.np.iterate(self, v)
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, '__iter__')
                if m is not None:
                    it = self.force(self.call(self.bind(m, v, c.cls), [], {}))
                    if isinstance(it, Ref) and isinstance(self.content(it), ObjC):
                        return self.drain(it)
                    return self.iterate(it)
                m = self.class_attr(c.cls, '__getitem__')
                if m is not None:
                    return self.drain_getitem(v, c, m)
        if isinstance(v, DictProxyV):
            return [k for k in self.content(v.ref).attrs if not k.startswith('$')]
        if isinstance(v, FlatV):
            return self.np.iterate(self, self.np.ravel_view(self, v.ref))
        if isinstance(v, OpaqueV):
            n = self.opaque_len(v)
            if n is not None:
                return [OpaqueV(tm.app('getitem', v.t, tm.const(i))) for i in range(n)]
            raise Unsupported('iteration over an unmodelled value (%s)' % v)
        if isinstance(v, Sym) and v.np or is_num(v) or v is None:
            self.raise_('TypeError', 'object is not iterable')
        if isinstance(v, StrV):
            raise Unsupported('iteration over an unknown string')
        self.raise_('TypeError', 'object is not iterable')

    def opaque_len(self, v):
        return None

    def set_order(self, c):
        try:
            real = set()
            for k in c.d:
                real.add(k)
            if all(isinstance(k, int) for k in c.d):
                return [c.d[k] for k in real]
        except TypeError:
            pass
        if len(c.d) > 1 and any(self.unsure(k) for k in c.d):
            raise Unsupported('the order of a set of unknown numbers')
        return list(c.d.values())

    def drain(self, it):
        c = self.content(it)
        m = self.class_attr(c.cls, '__next__')
        if m is None:
            self.raise_('TypeError', 'iter() returned non-iterator')
        out = []
        for _ in range(1000):
            r = self.protected(lambda: self.call(self.bind(m, it, c.cls), [], {}), 'StopIteration')
            if r is STOP:
                return out
            out.append(r)
        raise Unsupported('iterator does not end')

    def drain_getitem(self, v, c, m):
        out = []
        for i in range(1000):
            r = self.protected(lambda: self.call(self.bind(m, v, c.cls), [i], {}), 'IndexError')
            if r is STOP:
                return out
            out.append(r)
        raise Unsupported('sequence does not end')

    def protected(self, f, exc):
        '''f(), or STOP when it definitely raises exc.'''
        sink = []
        self.sinks.append(sink)
        n = len(self.sinks)
        alive = False
        r = None
        try:
            r = f()
            alive = True
        except Dead:
            pass
        finally:
            del self.sinks[n - 1:]
        hit = [x for x in sink if self.content_in(x[0], x[1]).cls.issub(self.excs[exc])]
        other = [x for x in sink if x not in hit]
        if alive and not hit:
            self.sinks[-1].extend(other)
            return r
        if hit and not alive and not other:
            self.st = hit[0][0]
            return STOP
        if not alive and not hit:
            self.sinks[-1].extend(other)
            raise Dead()
        raise Unsupported('protocol with an undecided end')

    def length(self, v):
        v = self.force(v)
        if isinstance(v, (tuple, str, bytes, range)):
            return len(v)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                return len(c.items)
            if isinstance(c, (DictC, SetC)):
                return len(c.d)
            if isinstance(c, ArrC):
                if not c.shape:
                    self.raise_('TypeError', 'len() of unsized object')
                return c.shape[0]
            if isinstance(c, ObjC):
                m = self.class_attr(c.cls, '__len__')
                if m is not None:
                    return self.call(self.bind(m, v, c.cls), [], {})
        if isinstance(v, DictProxyV):
            return len([k for k in self.content(v.ref).attrs if not k.startswith('$')])
        if isinstance(v, OpaqueV):
            return Sym(tm.app('len', v.t), 'i')
        if isinstance(v, StrV):
            return Sym(tm.app('len', v.t), 'i')
        self.raise_('TypeError', 'object has no len()')

    # --- text ---------------------------------------------------------------
    def percent(self, a, b):
        '''str % args, with the checks Python makes.'''
        if isinstance(a, StrV):
            return StrV(tm.app('%', a.t, self.key_soft(b)))
        import re
        specs = re.findall(r'%(?:\((\w+)\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', a)
        conv = [s for s in specs if s[3] != '%']
        named = any(s[0] for s in conv)
        if named:
            vals = [self.getitem(b, s[0]) for s in conv]
        else:
            if isinstance(b, tuple):
                vals = list(b)
                if len(vals) < len(conv):
                    self.raise_('TypeError', 'not enough arguments for format string')
                if len(vals) > len(conv):
                    self.raise_('TypeError', 'not all arguments converted during string formatting')
            else:
                vals = [b]
                if len(conv) > 1:
                    self.raise_('TypeError', 'not enough arguments for format string')
                isdict = isinstance(b, Ref) and isinstance(self.content(b), (DictC, ListC, ArrC, ObjC))
                if not conv and not isdict:
                    self.raise_('TypeError', 'not all arguments converted during string formatting')
        out = []
        for s, v in zip(conv, vals):
            v = self.force(v)
            if s[3] in 'diouxXeEfFgGc':
                ok = is_num(v) or isinstance(v, OpaqueV)
                if not ok and self.user_obj(v) is not None:
                    c = self.user_obj(v)
                    ok = self.has_class_attr(c.cls, '__float__') if s[3] in 'eEfFgG' else (self.has_class_attr(c.cls, '__index__') or self.has_class_attr(c.cls, '__int__'))
                if not ok and self.is_arr(v):
                    ok = True
                if not ok and not (s[3] == 'c' and isinstance(v, str)):
                    self.raise_('TypeError', '%%%s format: a number is required' % s[3])
                out.append(v if not isinstance(v, Ref) else StrV(tm.app('fmt', self.key_soft(v))))
            elif s[3] == 's':
                out.append(self.str_(v))
            else:
                out.append(self.repr_(v))
        nat = []
        for v in out:
            if isinstance(v, Sym):
                v = num.native(v)
            if isinstance(v, (str, int, float)):
                nat.append(v)
            else:
                nat = None
                break
        if nat is not None:
            try:
                if named:
                    return a % {s[0]: v for s, v in zip(conv, nat)}
                return a % tuple(nat)
            except (TypeError, ValueError) as e:
                self.raise_(type(e).__name__, str(e))
        return StrV(tm.app('%', a, *[self.key_soft(v) for v in out]))

    def key_soft(self, v):
        try:
            return self.key(v)
        except NeedSplit:
            return tm.app('choice', repr(v))

    def str_(self, v):
        v = self.force(v)
        if isinstance(v, (str, StrV)):
            return v
        if v is None or isinstance(v, (int, float, bool)):
            return str(v)
        if isinstance(v, Sym):
            n = num.native(v)
            if n is not None:
                return str(n)
            return StrV(tm.app('str', term(v)))
        c = self.user_obj(v)
        if c is not None:
            for name in ('__str__', '__repr__'):
                m = self.class_attr(c.cls, name)
                if m is not None:
                    r = self.force(self.call(self.bind(m, v, c.cls), [], {}))
                    if not isinstance(r, (str, StrV, OpaqueV)):
                        self.raise_('TypeError', '%s returned non-string' % name)
                    return r
            if c.cls.issub(self.excs['BaseException']):
                a = c.attrs.get('args', ())
                if len(a) == 0:
                    return ''
                if len(a) == 1:
                    return self.repr_(a[0]) if c.cls.issub(self.excs['KeyError']) else self.str_(a[0])
        d = self.plain_array(v)
        if d is not None:
            return str(d)
        return self.repr_(v)

    def plain_array(self, v):
        '''An array of constants, as one.'''
        if not isinstance(v, Ref) or not isinstance(self.content(v), ArrC):
            return None
        o, dt = self.np.get(self, v)
        flat = [num.native(x) if isinstance(x, Sym) else x for x in o.ravel()]
        if any(not isinstance(x, (bool, int, float)) for x in flat) or dt.kind not in 'fib':
            return None
        return np.array(flat, dtype=dt).reshape(o.shape)

    def repr_(self, v):
        v = self.force(v)
        if v is None or isinstance(v, (int, float, bool, str, bytes)):
            return repr(v)
        c = self.user_obj(v)
        if c is not None:
            m = self.class_attr(c.cls, '__repr__')
            if m is not None:
                return self.force(self.call(self.bind(m, v, c.cls), [], {}))
        if isinstance(v, tuple):
            parts = [self.repr_(x) for x in v]
            if all(isinstance(p, str) for p in parts):
                return '(%s%s)' % (', '.join(parts), ',' if len(parts) == 1 else '')
        if isinstance(v, Sym):
            n = num.native(v)
            if n is not None and not v.np:
                return repr(n)
        d = self.plain_array(v)
        if d is not None:
            return repr(d)
        return StrV(tm.app('repr', self.key_soft(v)))

    def format_(self, v, spec):
        v = self.force(v)
        if spec in ('', None):
            return self.str_(v)
        n = num.native(v) if isinstance(v, Sym) else v
        if isinstance(n, (int, float, str)) and isinstance(spec, str):
            try:
                return format(n, spec)
            except (TypeError, ValueError) as e:
                self.raise_(type(e).__name__, str(e))
        if isinstance(v, Ref) and isinstance(spec, str) and not self.user_obj(v):
            self.raise_('TypeError', 'unsupported format string')
        return StrV(tm.app('format', self.key_soft(v), spec if isinstance(spec, str) else spec.t))

    def show_exc(self, exc, st=None):
        c = self.content_in(st or self.st, exc)
        if isinstance(c, MergedC):
            return 'exception'
        a = c.attrs.get('args', ())
        return '%s%s at %s' % (c.cls.name, ': ' + ', '.join(str(x) for x in a) if a else '', c.attrs.get('$line', '?'))


class _Stop(Val):
    pass


STOP = _Stop()
