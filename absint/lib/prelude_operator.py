def abs(a):
    return __abs__(a)


def concat(a, b):
    return a + b


def delitem(a, b):
    del a[b]


def setitem(a, b, c):
    a[b] = c


def index(a):
    return int(a)


def inv(a):
    return ~a


invert = inv


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def pos(a):
    return +a


def truth(a):
    return True if a else False


def iadd(a, b):
    a += b
    return a


def isub(a, b):
    a -= b
    return a


def imul(a, b):
    a *= b
    return a


def itruediv(a, b):
    a /= b
    return a


def countOf(a, b):
    return len([x for x in a if x == b])


def indexOf(a, b):
    for i, x in enumerate(a):
        if x == b:
            return i
    raise ValueError("sequence.index(x): x not in sequence")
