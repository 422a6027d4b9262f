'''Sizes the code treats apart.

A template over shapes lists a few small sizes. What the code does with larger
ones can only differ where it asks about a size, so every whole number the source
compares, counts by or cuts at names further sizes to look at.
'''
import ast
import operator
import os

LEAST, MOST, KEPT = 4, 300, 6
MANY, KEPT_MANY = 10000, 3     # for templates which are linear in the size


OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.LShift: operator.lshift, ast.Pow: operator.pow}


def whole(node):
    '''The whole number an expression of constants stands for, if it does.'''
    if isinstance(node, ast.Constant):
        return node.value if type(node.value) is int else int(node.value) if type(node.value) is float and node.value in (1e3, 1e4) else None
    if isinstance(node, ast.BinOp) and type(node.op) in OPS:
        x, y = whole(node.left), whole(node.right)
        if x is None or y is None or not (0 <= x <= MANY and 0 <= y <= (20 if isinstance(node.op, (ast.LShift, ast.Pow)) else MANY)):
            return None
        return OPS[type(node.op)](x, y)
    return None


def numbers(node):
    '''Whole numbers written in an expression.'''
    return {whole(n) for n in ast.walk(node)} - {None}


# Whole numbers of few bits: what no longer fits is a size the code treats apart.
# The least whole number whose reciprocal, as often, rounds to more than one: steps of it miscount.
ROUNDS = 49
NARROW = {'int8': 128, 'uint8': 256, 'i1': 128, 'u1': 256, 'byte': 128, 'ubyte': 256}


def narrow(node):
    name = node.attr if isinstance(node, ast.Attribute) else node.id if isinstance(node, ast.Name) else node.value if isinstance(node, ast.Constant) else None
    return NARROW.get(name) if isinstance(name, str) else None


def of_module(tree):
    out = set()
    for n in ast.walk(tree):
        if narrow(n):
            out |= {narrow(n) - 1, narrow(n)}
        if isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')) == 'arange' and any(
                isinstance(x, ast.Constant) and type(x.value) is float or isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div) for x in n.args):
            out.add(ROUNDS)
        if isinstance(n, ast.Compare):
            for x in [n.left] + n.comparators:
                if isinstance(x, (ast.Constant, ast.BinOp)):
                    out |= numbers(x)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
            out |= numbers(n.right)
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper, n.step):
                if x is not None:
                    out |= numbers(x)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'xrange', 'min', 'max', 'divmod', 'islice'):
            for x in n.args:
                out |= numbers(x)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and whole(n.value) is not None:
            out |= numbers(n.value)
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for x in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                if isinstance(x, (ast.Constant, ast.BinOp)):
                    out |= numbers(x)
    return {x for x in out if LEAST <= x <= MANY}


def of_source(root, package='blmath'):
    '''(sizes for every template over shapes, larger ones for templates which are linear in the size).'''
    found = set()
    for d, dirs, fs in os.walk(os.path.join(root, package)):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith('.py') and not f.startswith('test_') and f != 'conftest.py':
                try:
                    with open(os.path.join(d, f)) as h:
                        found |= of_module(ast.parse(h.read()))
                except (SyntaxError, UnicodeDecodeError, ValueError):
                    pass
    out = []
    for x in sorted(found):
        for y in (x, x + 1):
            if y not in out and x <= MOST:
                out.append(y)
    return out[:KEPT * 2], [x + 1 for x in sorted(found) if x > MOST][:KEPT_MANY] or [MOST + 1]
