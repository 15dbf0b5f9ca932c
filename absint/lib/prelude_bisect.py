def bisect_right(a, x, lo=0, hi=None, key=None):
    n = lo
    items = list(a)[lo:hi]
    for y in items:
        if x < (y if key is None else key(y)):
            return n
        n += 1
    return n


def bisect_left(a, x, lo=0, hi=None, key=None):
    n = lo
    items = list(a)[lo:hi]
    for y in items:
        if not ((y if key is None else key(y)) < x):
            return n
        n += 1
    return n


bisect = bisect_right


def insort_right(a, x, lo=0, hi=None, key=None):
    a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)


def insort_left(a, x, lo=0, hi=None, key=None):
    a.insert(bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)


insort = insort_right
