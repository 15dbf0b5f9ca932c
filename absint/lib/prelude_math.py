import math


def degrees(x):
    return x * (180.0 / math.pi)


def radians(x):
    return x * (math.pi / 180.0)


def prod(iterable, start=1):
    for x in iterable:
        start = start * x
    return start


def expm1(x):
    return math.exp(x) - 1.0


def cbrt(x):
    return x ** (1.0 / 3.0)


def dist(p, q):
    return math.sqrt(sum([(a - b) ** 2 for a, b in zip(p, q)]))


def factorial(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def isqrt(n):
    k = 0
    while (k + 1) * (k + 1) <= n:
        k += 1
    return k


tau = 2 * math.pi
