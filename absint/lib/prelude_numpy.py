"""numpy functions in terms of modelled ones; interpreted like the code under analysis"""
import numpy as np


def ndenumerate(arr):
    arr = np.asarray(arr)
    if arr.ndim == 0:
        return [((), arr[()])]
    if arr.ndim == 1:
        return [((i,), arr[i]) for i in range(arr.shape[0])]
    if arr.ndim == 2:
        return [((i, j), arr[i, j]) for i in range(arr.shape[0]) for j in range(arr.shape[1])]
    raise __gap__("ndenumerate of more than two dimensions")


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    out = [()]
    for n in shape:
        out = [t + (i,) for t in out for i in range(n)]
    return out


def fromiter(iterable, dtype=float, count=-1):
    return np.array([x for x in iterable], dtype=dtype)


def select(condlist, choicelist, default=0):
    out = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        out = np.where(c, v, out)
    return out


def piecewise(x, condlist, funclist, *args, **kw):
    x = np.asarray(x)
    funcs = list(funclist)
    if len(funcs) == len(condlist) + 1:
        last = funcs[-1]
        out = last(x, *args, **kw) if callable(last) else np.full(x.shape, last)
    else:
        out = np.zeros(x.shape)
    for c, f in zip(condlist, funcs):
        out = np.where(c, f(x, *args, **kw) if callable(f) else f, out)
    return out


def compress(condition, a, axis=None):
    return np.asarray(a)[np.asarray(condition)]


def extract(condition, arr):
    return np.ravel(arr)[np.ravel(condition)]


def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[where] = np.broadcast_to(src, dst.shape)[where]


def putmask(a, mask, values):
    if np.ndim(values) == 0:
        a[mask] = values
    else:
        a[mask] = np.broadcast_to(values, a.shape)[mask]


place = None


def ediff1d(ary):
    return np.diff(np.ravel(ary))


def cumprod(a, axis=None):
    out = []
    for x in np.ravel(a):
        out.append(x if not out else out[-1] * x)
    return np.array(out)


def argwhere(a):
    return np.transpose(np.vstack(np.nonzero(a)))


def isin(element, test_elements, assume_unique=False, invert=False):
    tests = list(np.ravel(test_elements)) if not isinstance(test_elements, (list, tuple)) else list(test_elements)
    element = np.asarray(element)
    out = np.zeros(element.shape, dtype=bool)
    for t in tests:
        out = out | (element == t)
    return ~out if invert else out


in1d = isin


def roll(a, shift, axis=None):
    a = np.asarray(a)
    n = len(a)
    return np.concatenate([a[n - shift % n:], a[:n - shift % n]])


def outer(a, b):
    return np.ravel(a)[:, None] * np.ravel(b)[None, :]


def vdot(a, b):
    return np.sum(np.conj(np.ravel(a)) * np.ravel(b))


def matmul(a, b):
    return np.dot(a, b)


def iscomplex(x):
    return np.imag(x) != 0


def fliplr(m):
    return np.asarray(m)[:, ::-1]


def swapaxes(a, i, j):
    return np.asarray(a) if i == j else np.transpose(a)


def moveaxis(a, i, j):
    return np.asarray(a) if i == j else np.transpose(a)


def broadcast_arrays(*args, **kw):
    shape = ()
    for a in args:
        if np.size(a) > 1 or np.ndim(a) > len(shape):
            shape = np.shape(a)
    return tuple(np.broadcast_to(a, shape) for a in args)


def meshgrid(x, y, indexing='xy'):
    x = np.ravel(x)
    y = np.ravel(y)
    if indexing == 'xy':
        s = (len(y), len(x))
        return [np.broadcast_to(x[None, :], s), np.broadcast_to(y[:, None], s)]
    s = (len(x), len(y))
    return [np.broadcast_to(x[:, None], s), np.broadcast_to(y[None, :], s)]


def nansum(a, axis=None):
    a = np.asarray(a)
    return np.sum(np.where(np.isnan(a), 0.0, a), axis=axis)


def var(a, axis=None):
    a = np.asarray(a)
    return np.mean(np.abs(a - np.mean(a)) ** 2)


def average(a, axis=None, weights=None):
    if weights is None:
        return np.mean(a, axis=axis)
    return np.sum(np.asarray(a) * np.asarray(weights)) / np.sum(weights)


def logical_xor(a, b):
    return np.asarray(a, dtype=bool) != np.asarray(b, dtype=bool)


def degrees(x):
    return x * (180.0 / np.pi)


rad2deg = degrees


def radians(x):
    return x * (np.pi / 180.0)


deg2rad = radians


def cbrt(x):
    return x ** (1.0 / 3.0)


def expm1(x):
    return np.exp(x) - 1.0


def signbit(x):
    return np.asarray(x) < 0


def divmod(a, b):
    return np.floor_divide(a, b), np.mod(a, b)


def angle(z):
    return np.arctan2(np.imag(z), np.real(z))


def digitize(x, bins, right=False):
    return np.searchsorted(bins, x, side='left' if right else 'right')


def union1d(a, b):
    return np.unique(np.concatenate([np.ravel(a), np.ravel(b)]))


def setdiff1d(a, b, assume_unique=False):
    a = np.unique(a)
    return a[isin(a, b, invert=True)]


def intersect1d(a, b, assume_unique=False):
    a = np.unique(a)
    return a[isin(a, b)]


def trapezoid(y, x=None, dx=1.0):
    y = np.asarray(y)
    d = dx if x is None else np.diff(x)
    return np.sum(d * (y[1:] + y[:-1]) / 2.0)


def identity(n, dtype=float):
    return np.array([[1 if i == j else 0 for j in range(n)] for i in range(n)], dtype=dtype)


def eye(n, dtype=float):
    return identity(n, dtype)


def array_equiv(a, b):
    return bool(np.all(np.asarray(a) == np.asarray(b)))


def asarray_chkfinite(a, dtype=None):
    a = np.asarray(a, dtype=dtype)
    if not np.all(np.isfinite(a)):
        raise ValueError("array must not contain infs or NaNs")
    return a


def require(a, dtype=None, requirements=None):
    return np.asarray(a, dtype=dtype)


def apply_along_axis(func, axis, arr, *args, **kw):
    arr = np.asarray(arr)
    if arr.ndim == 1:
        return func(arr, *args, **kw)
    rows = arr if axis in (1, -1) else np.transpose(arr)
    out = np.array([func(r, *args, **kw) for r in rows])
    return out if out.ndim == 1 or axis in (1, -1) else np.transpose(out)


class _CC:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (str, slice)) for k in key):
            raise __gap__("special index trick")
        return np.column_stack([np.atleast_1d(k) for k in key])


class _RC:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (str, slice)) for k in key):
            raise __gap__("special index trick")
        return np.concatenate([np.atleast_1d(k) for k in key])


c_ = _CC()
r_ = _RC()
