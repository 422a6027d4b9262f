'''itertools: those of its functions which are easiest to say in full.'''


def takewhile(predicate, iterable):
    out = []
    for x in iterable:
        if not predicate(x):
            break
        out.append(x)
    return iter(out)


def dropwhile(predicate, iterable):
    out, dropping = [], True
    for x in iterable:
        dropping = dropping and predicate(x)
        if not dropping:
            out.append(x)
    return iter(out)


def filterfalse(predicate, iterable):
    return iter([x for x in iterable if not (x if predicate is None else predicate(x))])


def compress(data, selectors):
    return iter([d for d, s in zip(data, selectors) if s])


def pairwise(iterable):
    xs = list(iterable)
    return iter([(xs[i], xs[i + 1]) for i in range(len(xs) - 1)])


def tee(iterable, n=2):
    xs = list(iterable)
    return tuple(iter(list(xs)) for i in range(n))


def combinations_with_replacement(iterable, r):
    xs = list(iterable)
    if r == 0:
        return iter([()])
    out = []
    for i, x in enumerate(xs):
        for rest in combinations_with_replacement(xs[i:], r - 1):
            out.append((x,) + rest)
    return iter(out)


def groupby(iterable, key=None):
    out = []
    for x in iterable:
        k = x if key is None else key(x)
        if len(out) and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(xs)) for k, xs in out])
