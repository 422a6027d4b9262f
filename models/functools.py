'''functools: what remembers, and what completes an ordering.'''


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _remember(maxsize)
    return _remember


def cache(function):
    return _remember(function)


def _remember(function):
    known = {}

    def remembering(*args, **kwargs):
        key = (args, tuple(sorted(kwargs.items())))
        if key not in known:
            known[key] = function(*args, **kwargs)
        return known[key]

    def cache_clear():
        known.clear()

    remembering.cache_clear = cache_clear
    return remembering


def total_ordering(cls):
    def of(name):
        return getattr(cls, name, None)

    lt, le, gt, ge = of('__lt__'), of('__le__'), of('__gt__'), of('__ge__')

    def known(x):
        return x is not NotImplemented

    if lt is not None:
        def _gt(self, other):
            r = lt(self, other)
            return (not r and self != other) if known(r) else r

        def _le(self, other):
            r = lt(self, other)
            return (r or self == other) if known(r) else r

        def _ge(self, other):
            r = lt(self, other)
            return (not r) if known(r) else r
        new = {'__gt__': _gt, '__le__': _le, '__ge__': _ge}
    elif le is not None:
        def _gt(self, other):
            r = le(self, other)
            return (not r) if known(r) else r

        def _lt(self, other):
            r = le(self, other)
            return (r and self != other) if known(r) else r

        def _ge(self, other):
            r = le(self, other)
            return (not r or self == other) if known(r) else r
        new = {'__gt__': _gt, '__lt__': _lt, '__ge__': _ge}
    elif gt is not None:
        def _lt(self, other):
            r = gt(self, other)
            return (not r and self != other) if known(r) else r

        def _ge(self, other):
            r = gt(self, other)
            return (r or self == other) if known(r) else r

        def _le(self, other):
            r = gt(self, other)
            return (not r) if known(r) else r
        new = {'__lt__': _lt, '__ge__': _ge, '__le__': _le}
    elif ge is not None:
        def _lt(self, other):
            r = ge(self, other)
            return (not r) if known(r) else r

        def _gt(self, other):
            r = ge(self, other)
            return (r and self != other) if known(r) else r

        def _le(self, other):
            r = ge(self, other)
            return (not r or self == other) if known(r) else r
        new = {'__lt__': _lt, '__gt__': _gt, '__le__': _le}
    else:
        raise ValueError('must define at least one ordering operation: < > <= >=')
    for name, method in new.items():
        if of(name) is None:
            setattr(cls, name, method)
    return cls
