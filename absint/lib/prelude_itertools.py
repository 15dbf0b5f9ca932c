def compress(data, selectors):
    return iter([d for d, s in zip(data, selectors) if s])


def filterfalse(predicate, iterable):
    return iter([x for x in iterable if not (x if predicate is None else predicate(x))])


def tee(iterable, n=2):
    items = list(iterable)
    return tuple(iter(list(items)) for _ in range(n))


def batched(iterable, n):
    items = list(iterable)
    return iter([tuple(items[i:i + n]) for i in range(0, len(items), n)])


def combinations_with_replacement(iterable, r):
    pool = tuple(iterable)
    out = [()]
    for _ in range(r):
        out = [t + (i,) for t in out for i in range(t[-1] if t else 0, len(pool))]
    return iter([tuple(pool[i] for i in t) for t in out])
