"""numpy transfer functions"""
import re
from fractions import Fraction
from . import nf as NFM
from .nf import NF
from .values import *
from .numops import is_num
from .text import T0
from .flow import cand, cor, cnot

UNARY = {'sqrt': 'sqrt', 'log': 'log', 'log10': 'log10', 'log2': 'log2', 'log1p': 'log1p', 'exp': 'exp',
         'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arctan': 'arctan', 'arcsin': 'arcsin',
         'arccos': 'arccos', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh',
         'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs', 'conj': 'conj', 'conjugate': 'conj',
         'real': 'real', 'imag': 'imag', 'isnan': 'isnan', 'isinf': 'isinf', 'isfinite': 'isfinite',
         'isposinf': 'isposinf', 'isneginf': 'isneginf', 'logical_not': 'not_',
         'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'rint': 'rint', 'sign': 'sign',
         'negative': 'neg', 'positive': 'pos', 'square': 'square', 'reciprocal': 'reciprocal',
         'invert': 'not_', 'fix': 'trunc'}
BINARY = {'power': '**', 'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/',
          'float_power': '**', 'floor_divide': '//', 'mod': '%', 'remainder': '%',
          'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==',
          'not_equal': '!=', 'minimum': 'minimum', 'maximum': 'maximum', 'fmin': 'minimum', 'fmax': 'maximum',
          'arctan2': 'arctan2', 'hypot': 'hypot', 'logical_and': 'land', 'logical_or': 'lor',
          'bitwise_and': '&', 'bitwise_or': '|'}


class DType(ModelObj):
    tname = 'dtype'

    def __init__(self, code):
        self.code = code

    def a_kind(self, it):
        return {'b': 'b', 'i': 'i', 'f': 'f', 'c': 'c', 'U': 'U', 'O': 'O'}[self.code]

    def a_name(self, it):
        return {'b': 'bool', 'i': 'int64', 'f': 'float64', 'c': 'complex128', 'U': 'str', 'O': 'object'}[self.code]

    def a_type(self, it):
        return it.np_types[{'b': 'bool_', 'i': 'int64', 'f': 'float64', 'c': 'complex128', 'U': 'str_',
                            'O': 'object_'}[self.code]]

    def a_itemsize(self, it):
        return {'c': 16}.get(self.code, 8)

    def op_cmp(self, it, op, a, b):
        try:
            x, y = it.dtype_code(a), it.dtype_code(b)
        except (Gap, AbsRaise):
            return op == '!='
        return (x == y) == (op == '==')

    def op_str(self, it):
        return self.a_name(it)


class MaskSel(ModelObj):
    """a[mask] for a mask whose elements are not decided: elementwise values under a mask"""
    tname = 'ndarray'

    def __init__(self, arr, mask):
        self.arr = arr
        self.mask = mask

    def _same(self, o):
        return isinstance(o, MaskSel) and same_mask(self.mask, o.mask)

    def op_binop(self, it, op, a, b):
        for x in (a, b):
            if isinstance(x, MaskSel) and not self._same(x):
                raise Gap("different undecided masks")
            if not isinstance(x, MaskSel) and not is_num(x) and not (isinstance(x, Arr) and x.size == 1):
                raise Gap("undecided mask combined with array")
        u = a.arr if isinstance(a, MaskSel) else a
        v = b.arr if isinstance(b, MaskSel) else b
        return MaskSel(it.arr_binary(op, u, v), self.mask)

    def op_unary(self, it, name):
        return MaskSel(it.arr_unary(name, self.arr), self.mask)

    def op_cmp(self, it, op, a, b):
        return self.op_binop(it, op, a, b)

    def op_inv(self, it):
        return MaskSel(it.arr_unary('not_', self.arr), self.mask)

    def a_dtype(self, it):
        return DType(self.arr.dtype)

    def m_copy(self, it):
        return self

    def m_astype(self, it, dt, **kw):
        return MaskSel(it.arr_method(self.arr, 'astype', [dt], {}), self.mask)

    def op_len(self, it):
        return Unknown('len of masked')

    def a_size(self, it):
        # number of selected elements: only "> 0" matters in practice
        return Unknown('size of masked')


def same_mask(a, b):
    if a is b:
        return True
    x, y = a.elems(), b.elems()
    if a.shape != b.shape:
        return False
    for p, q in zip(x, y):
        if p is q:
            continue
        if isinstance(p, Phi) and isinstance(q, Phi):
            if p.cond == q.cond and p.a is q.a and p.b is q.b:
                continue
            return False
        if not isinstance(p, Phi) and not isinstance(q, Phi) and p == q:
            continue
        return False
    return True


class ErrState(ModelObj):
    tname = 'errstate'

    def __init__(self, kw):
        self.kw = kw

    def m___enter__(self, it):
        return None

    def m___exit__(self, it, exc):
        return False


class PrintOpts(ModelObj):
    tname = 'printoptions'

    def __init__(self, kw):
        self.kw = kw

    def m___enter__(self, it):
        self.old = dict(it.w.printoptions)
        it.w.printoptions.update(self.kw)
        return None

    def m___exit__(self, it, exc):
        it.w.printoptions.clear()
        it.w.printoptions.update(self.old)
        return False


class Low(str):
    """dtype code of a type with less precision than float64"""


LOW = {'float32': '<f', 'single': '<f', 'f4': '<f', 'half': '<e', 'float16': '<e', 'f2': '<e', 'e': '<e',
       'complex64': '<f', 'csingle': '<f', 'c8': '<f'}


def low(code, name):
    c = Low(code)
    c.fmt = LOW[name]
    return c


FINFO = {'<d': (2.220446049250313e-16, 2.2250738585072014e-308, 1.7976931348623157e308, 15),
         '<f': (1.1920928955078125e-07, 1.1754943508222875e-38, 3.4028234663852886e38, 6),
         '<e': (0.0009765625, 6.103515625e-05, 65504.0, 3)}


class FInfo(ModelObj):
    tname = 'finfo'

    def __init__(self, fmt='<d'):
        self.v = FINFO[fmt]

    def a_eps(self, it):
        return fnum(self.v[0], True)

    def a_resolution(self, it):
        return fnum(10.0 ** -self.v[3], True)

    def a_precision(self, it):
        return self.v[3]

    def a_tiny(self, it):
        return fnum(self.v[1], True)

    a_smallest_normal = a_tiny

    def a_max(self, it):
        return fnum(self.v[2], True)

    def a_min(self, it):
        return fnum(-self.v[2], True)


class NumpyOps:
    # ------------------------------------------------------------ dtypes
    def dtype_obj(self, code):
        return DType(code)

    def dtype_code(self, d):
        if isinstance(d, DType):
            return d.code
        if isinstance(d, TypeObj):
            m = {'float': 'f', 'int': 'i', 'complex': 'c', 'bool': 'b', 'str': 'U', 'object': 'O',
                 'float64': 'f', 'float32': 'f', 'double': 'f', 'complex128': 'c', 'cdouble': 'c', 'int64': 'i',
                 'int32': 'i', 'bool_': 'b', 'str_': 'U', 'object_': 'O', 'longdouble': 'f', 'single': 'f',
                 'half': 'f', 'float16': 'f', 'int16': 'i', 'int8': 'i', 'uint8': 'i', 'uint64': 'i', 'uint32': 'i',
                 'complex64': 'c', 'intp': 'i', 'int_': 'i', 'floating': 'f', 'inexact': 'f',
                 'complexfloating': 'c', 'number': 'f', 'integer': 'i', 'clongdouble': 'c'}.get(d.name)
            if m is None:
                raise Gap("dtype %s" % d.name)
            if d.name in ('float32', 'single', 'half', 'float16', 'complex64'):
                return low(m, d.name)
            return m
        if isinstance(d, str):
            s = d.lower().lstrip('<>=|')
            if d in ('f', 'e'):
                return low('f', {'f': 'f4', 'e': 'f2'}[d])
            if s in ('float', 'float64', 'f8', 'd', 'double'):
                return 'f'
            if s in ('complex', 'complex128', 'c16', 'cdouble'):
                return 'c'
            if s in ('int', 'int64', 'i8', 'i', 'int32', 'i4'):
                return 'i'
            if s in ('bool', '?', 'b1'):
                return 'b'
            if s in ('object', 'o'):
                return 'O'
            if s.startswith('u') or s.startswith('str'):
                return 'U'
            if d in LOW or s in LOW:
                return low('c' if s.startswith('c') else 'f', d if d in LOW else s)
        raise Gap("dtype %r" % (d,))

    # ------------------------------------------------------------ attributes, methods
    def arr_attr(self, o, name):
        if name == 'shape':
            return o.shape
        if name == 'size':
            return o.size
        if name == 'ndim':
            return o.ndim
        if name == 'dtype':
            return DType(o.dtype)
        if name == 'T':
            return self.transpose(o)
        if name in ('real', 'imag'):
            if o.dtype != 'c' and name == 'real':
                return o
            r = self.arr_unary(name, o)
            return r if isinstance(r, Arr) else Arr.new([r], (), o.dtype)
        if name == 'flat':
            return Arr(o.buf, list(o.idx), (o.size,), o.dtype)
        if name == 'itemsize':
            return 8
        if name == 'nbytes':
            return 8 * o.size
        if name == 'flags':
            return Unknown('flags')
        if name == '__class__':
            return self.typeof(o)
        if name == '__len__':
            return ExtFunc('__len__', lambda it, a, k: it.length(o))
        if name == 'base':
            return None
        if name in ARR_METHODS:
            return self.nm(o, name)
        if name in ('__array_interface__', '__array__'):
            raise Gap(name)
        return ABSENT

    def transpose(self, a):
        if a.ndim < 2:
            return a
        if a.ndim != 2:
            raise Gap("transpose of %d dims" % a.ndim)
        r, c = a.shape
        return Arr(a.buf, [a.idx[i * c + j] for j in range(c) for i in range(r)], (c, r), a.dtype)

    def arr_method(self, a, name, args, kw):
        if name in ('min', 'max', 'sum', 'prod', 'mean', 'all', 'any', 'argmin', 'argmax', 'cumsum', 'std', 'ptp'):
            return self.np_call(name, [a] + args, kw)
        if name == 'reshape':
            sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            return self.reshape(a, sh)
        if name in ('flatten', 'ravel'):
            r = Arr(a.buf, list(a.idx), (a.size,), a.dtype)
            return r.copy() if name == 'flatten' else r
        if name == 'copy':
            return a.copy()
        if name == 'tolist':
            def conv(x):
                if isinstance(x, list):
                    return [conv(y) for y in x]
                if isinstance(x, Num):
                    if x.kind == 'i' and x.is_const():
                        return int(x.const())
                    return Num(x.nf, x.kind, False, x.special)
                if isinstance(x, NBool):
                    return x.v
                if isinstance(x, Phi):
                    return Phi(x.cond, conv(x.a), conv(x.b))
                return x
            return conv(a.rows())
        if name == 'item':
            if args:
                if len(args) == 1 and isinstance(args[0], int):
                    e = a.elems()[args[0]]
                else:
                    e = self.arr_get(a, tuple(args))
            else:
                if a.size != 1:
                    self.throw(ValueError, "can only convert an array of size 1 to a Python scalar")
                e = a.elems()[0]
            if isinstance(e, Phi):
                return self.lift(lambda x: self.num_method(self.box(x), 'item', [], {}), e)
            if isinstance(e, (str,)) or e is None:
                return e
            return self.num_method(self.box(e), 'item', [], {})
        if name == 'astype':
            dt = self.dtype_code(args[0] if args else kw['dtype'])
            if a.dtype == 'c' and dt in 'fi':
                self.event('complexcast', None)
            return Arr.new([self.cast(e, dt) for e in a.elems()], a.shape, dt)
        if name in ('conj', 'conjugate'):
            return self.arr_unary('conj', a)
        if name == 'round':
            return self.np_round(a, args, kw)
        if name == 'squeeze':
            return Arr(a.buf, list(a.idx), tuple(d for d in a.shape if d != 1), a.dtype)
        if name == 'transpose':
            return self.transpose(a)
        if name == 'sort':
            r = self.np_call('sort', [a], kw)
            self.arr_store(a, a.idx, a.shape, r)
            return None
        if name == 'argsort':
            return self.np_call('argsort', [a], kw)
        if name == 'fill':
            self.arr_store(a, a.idx, a.shape, args[0])
            return None
        if name == 'nonzero':
            return self.np_call('nonzero', [a], {})
        if name == 'view':
            return Arr(a.buf, list(a.idx), a.shape, a.dtype)
        if name in ('clip', 'take', 'repeat', 'dot', 'searchsorted'):
            return self.np_call(name, [a] + args, kw)
        if name in ('setflags', 'resize', 'tobytes', 'tofile', 'dump'):
            raise Gap("ndarray." + name)
        raise Gap("ndarray.%s" % name)

    def np_call(self, name, args, kw):
        f = self.np.ns.get(name)
        if f is None:
            raise Gap("numpy.%s" % name)
        return self.call(f, args, kw)

    def reshape(self, a, sh):
        if isinstance(sh, (int, Num)):
            sh = (sh,)
        sh = [self.as_int(x) for x in sh]
        n = 1
        for d in sh:
            if d != -1:
                n *= d
        if -1 in sh:
            if n == 0 or a.size % n:
                self.throw(ValueError, "cannot reshape array of size %d" % a.size)
            sh[sh.index(-1)] = a.size // n
            n = a.size
        if n != a.size:
            self.throw(ValueError, "cannot reshape array of size %d into shape %s" % (a.size, tuple(sh)))
        return Arr(a.buf, list(a.idx), tuple(sh), a.dtype)

    # ------------------------------------------------------------ functions
    def np_round(self, x, args, kw):
        d = args[0] if args else kw.get('decimals', 0)
        d = self.as_int(d)
        def one(e, exact=self.w.round_exact):
            if isinstance(e, Phi):
                return self.lift(lambda y: one(y, exact), e)
            n = self.tonum(e)
            if n.special or n.kind == 'i':
                return n
            if n.nf.is_const():
                q = Fraction(10) ** d
                v = n.nf.const_value()
                r = Fraction(round(v * q)) / q
                if r == v:
                    return n
            self.w.roundings.append((d, n.nf, self.where()))
            if not n.nf.t or self.w.rounding_free:
                return n
            # finer than the precision the properties speak about: the identity
            if not exact and not any(10.0 ** -d > 1.9e-9 * abs(v) for v in n.nf.vals() if v != 0):
                return n
            if n.nf.is_const():
                return Num(NF.num(r), n.kind, n.np)
            vals = [complex(round(v.real, d), round(v.imag, d)) for v in n.nf.vals()]
            if exact:
                # stands for rounding up in some valuations and down in others
                vals = [v * (1 + (1e-4 if j % 2 else -1e-4)) for j, v in enumerate(n.nf.vals())]
            sg = NFM.sign(n.nf) if exact else None
            return Num(self.w.space.fn('round', (n.nf, d), real=n.nf.is_real(), vals=vals, sign=sg), n.kind, n.np)
        if isinstance(x, (list, tuple)):
            x = self.mkarr(x)
        if isinstance(x, Arr):
            es = x.elems()
            # of long arrays only the ends are followed digit by digit
            return Arr.new([one(e, self.w.round_exact and (len(es) < 40 or j < 2 or j >= len(es) - 2))
                            for j, e in enumerate(es)], x.shape, x.dtype)
        if isinstance(x, Unknown):
            return x
        if hasattr(x, 'op_unary'):
            return x
        return self.box(one(x))

    def reduce_minmax(self, name, a, axis=None):
        es = a.elems()
        if not es:
            self.throw(ValueError, "zero-size array to reduction operation %s which has no identity" % name)
        op = 'minimum' if name == 'min' else 'maximum'
        if a.dtype == 'c':
            raise Gap("min/max of complex numbers")
        best = es[0]
        for e in es[1:]:
            if e is best:
                continue
            best = self.binfunc(op, best, e)
        return self.box(best)

    def np_where(self, it, a, k):
        if len(a) == 1:
            return self.np_call('nonzero', [a[0]], {})
        c, x, y = a
        ca = self.asarr(c)
        xa, ya = self.asarr(x), self.asarr(y)
        sh = self.bshape(self.bshape(ca.shape, xa.shape), ya.shape)
        dt = xa.dtype if KORD.find(xa.dtype) >= KORD.find(ya.dtype) else ya.dtype
        out = []
        for cc, p, q in zip(self.bcast(ca, sh), self.bcast(xa, sh), self.bcast(ya, sh)):
            t = self.truth(cc)
            if t is True:
                out.append(p)
            elif t is False:
                out.append(q)
            else:
                out.append(self.mergeval(t, self.cast(p, dt), self.cast(q, dt)))
        out = [self.cast(e, dt) for e in out]
        return Arr.new(out, sh, dt)

    def np_isclose(self, it, a, k):
        rtol = k.get('rtol', a[2] if len(a) > 2 else fnum(1e-5))
        atol = k.get('atol', a[3] if len(a) > 3 else fnum(1e-8))
        eqn = k.get('equal_nan', False)

        def one(x, y):
            if isinstance(x, Phi) or isinstance(y, Phi):
                return self.lift(one, x, y)
            x, y = self.tonum(x), self.tonum(y)
            if x.special or y.special:
                if 'nan' in (x.special, y.special):
                    return bool(eqn and x.special == y.special)
                return x.special == y.special
            d = self.unary('abs', self.arith('-', x, y))
            tol = self.arith('+', atol, self.arith('*', rtol, self.unary('abs', y)))
            return self.cmpnum('<=', d, tol)
        x, y = a[0], a[1]
        scal = not isinstance(x, (Arr, list, tuple)) and not isinstance(y, (Arr, list, tuple))
        xa, ya = self.asarr(x), self.asarr(y)
        sh = self.bshape(xa.shape, ya.shape)
        out = [one(p, q) for p, q in zip(self.bcast(xa, sh), self.bcast(ya, sh))]
        return self.arr_out(out, sh, 'b')

    def quantify(self, a, all_):
        und = None
        for e in a.elems():
            t = self.truth(e)
            if t is (not all_):
                return NBool(not all_)
            if t is not all_:
                und = t if und is None else (cand(und, t) if all_ else cor(und, t))
        if und is None:
            return NBool(all_)
        return Phi(und, NBool(True), NBool(False))

    def stack_rows(self, arrs, axis):
        dt = 'b'
        for x in arrs:
            if x.dtype in 'UO':
                dt = 'O'
                break
            dt = x.dtype if KORD.index(x.dtype) > KORD.index(dt) else dt
        if not arrs:
            self.throw(ValueError, "need at least one array to concatenate")
        nd = arrs[0].ndim
        if nd == 0:
            self.throw(ValueError, "zero-dimensional arrays cannot be concatenated")
        for x in arrs:
            if x.ndim != nd:
                self.throw(ValueError, "all the input array dimensions must match exactly")
        if axis < 0:
            axis += nd
        if axis >= nd or axis < 0:
            self.throw(ValueError, "axis %d is out of bounds for array of dimension %d" % (axis, nd))
        for d in range(nd):
            if d != axis and any(x.shape[d] != arrs[0].shape[d] for x in arrs):
                self.throw(ValueError, "all the input array dimensions except for the concatenation axis "
                           "must match exactly")
        if axis == 0:
            out = []
            for x in arrs:
                out.extend(self.cast(e, dt) for e in x.elems())
            return Arr.new(out, (sum(x.shape[0] for x in arrs),) + arrs[0].shape[1:], dt)
        if axis == 1 and nd == 2:
            rows = arrs[0].shape[0]
            out = []
            for r in range(rows):
                for x in arrs:
                    c = x.shape[1]
                    out.extend(self.cast(e, dt) for e in x.elems()[r * c:(r + 1) * c])
            return Arr.new(out, (rows, sum(x.shape[1] for x in arrs)), dt)
        raise Gap("concatenate axis %d of %d dims" % (axis, nd))

    def geomspace(self, lo, hi, n, endpoint=True):
        sp = self.w.space
        lo, hi = self.tonum(lo), self.tonum(hi)
        if lo.special or hi.special:
            self.event('geomspace_special', None)
            if not lo.special and not lo.nf.t or not hi.special and not hi.nf.t:
                self.throw(ValueError, "Geometric sequence cannot include zero")
            return [Num(None, 'f', True, 'nan')] * n
        if not lo.nf.t or not hi.nf.t:
            self.throw(ValueError, "Geometric sequence cannot include zero")
        rel = self.w.order.query(lo.nf, hi.nf)
        out = []
        for k in range(n):
            if k == 0:
                out.append(Num(lo.nf, 'f', True))
            elif k == n - 1 and endpoint:
                out.append(Num(hi.nf, 'f', True))
            else:
                m = n if endpoint else n + 1
                rank = None
                if rel == {'<'}:
                    rank = (('geom', lo.nf.key(), hi.nf.key(), m), k)
                elif rel == {'>'}:
                    rank = (('geom', lo.nf.key(), hi.nf.key(), m), -k)
                a = sp.fn('geom', (lo.nf, hi.nf, k, m), real=True, sign='+', rank=rank)
                out.append(Num(a, 'f', True))
        if n >= 2 and endpoint:
            self.w.order_group(out, rel)
        return out

    def linspace(self, lo, hi, n, endpoint=True):
        lo, hi = self.tonum(lo), self.tonum(hi)
        out = []
        m = (n - 1) if endpoint else n
        if lo.special or hi.special:
            return [Num(None, 'f', True, 'nan')] * n
        for k in range(n):
            q = Fraction(k, m) if m else Fraction(0)
            out.append(Num(lo.nf * NF.num(1 - q) + hi.nf * NF.num(q), 'f', True))
        if n >= 2 and endpoint:
            self.w.order_group(out, self.w.order.query(lo.nf, hi.nf))
        return out

    def install_numpy(self):
        m = Module('numpy', {})
        m.external = True
        self.np = m
        ns = m.ns

        def fn(name, f, phi_ok=False):
            e = ExtFunc('numpy.' + name, f)
            e.phi_ok = phi_ok
            ns[name] = e

        def out_kw(k):
            if k.get('out') is not None:
                raise Gap("out= argument")
            if k.get('where') is not None and k.get('where') is not True:
                raise Gap("where= argument")

        def mku(name, op):
            def f(it, a, k):
                x = a[0]
                out = k.get('out', a[1] if len(a) > 1 else None)
                wh = k.get('where', True)
                if isinstance(out, tuple):
                    out = out[0]
                if wh is not True and out is None:
                    raise Gap("where without out")
                if isinstance(x, Unknown):
                    return x
                if isinstance(x, (list, tuple)):
                    x = it.mkarr(x)
                if hasattr(x, 'op_unary'):
                    return x.op_unary(it, op)
                if hasattr(x, 'as_array'):
                    x = x.as_array(it)
                if isinstance(x, Arr):
                    r = it.arr_unary(op, x)
                elif is_num(x):
                    r = it.unary(op, it.box(x))
                    if isinstance(r, bool):
                        r = NBool(r)
                    elif op == 'sqrt' and isinstance(x, int):
                        r = it.box(r)
                elif x is None or isinstance(x, str) or isinstance(x, (AObj, dict)):
                    it.throw(TypeError, "ufunc '%s' not supported for the input types" % name)
                else:
                    raise Gap("numpy.%s of %r" % (name, x))
                if name == 'square' and isinstance(r, Num):
                    r = it.box(r)
                if out is not None:
                    return it.store_out(out, r, wh)
                return r
            fn(name, f)
            ns[name].is_ufunc = True
        for n, op in UNARY.items():
            mku(n, op)

        def mkb(name, op):
            def f(it, a, k):
                x, y = a[0], a[1]
                out = k.get('out', a[2] if len(a) > 2 else None)
                wh = k.get('where', True)
                if isinstance(out, tuple):
                    out = out[0]
                if wh is not True and out is None:
                    raise Gap("where without out")
                if isinstance(x, Unknown) or isinstance(y, Unknown):
                    return Unknown(name)
                if isinstance(x, MaskSel) or isinstance(y, MaskSel):
                    return (x if isinstance(x, MaskSel) else y).op_binop(it, op, x, y)
                for z in (x, y):
                    if z is None or isinstance(z, (str, dict)) or isinstance(z, AObj):
                        it.throw(TypeError, "ufunc '%s' not supported for the input types" % name)
                if op in ('land', 'lor'):
                    xa, ya = it.asarr(x), it.asarr(y)
                    sh = it.bshape(xa.shape, ya.shape)
                    es = []
                    for p, q in zip(it.bcast(xa, sh), it.bcast(ya, sh)):
                        s, t = it.truth(p), it.truth(q)
                        if isinstance(s, bool) and isinstance(t, bool):
                            es.append((s and t) if op == 'land' else (s or t))
                        else:
                            es.append(it.bool2(op, s, t))
                    r = it.arr_out(es, sh, 'b')
                elif name == 'float_power':
                    r = it.arr_binary('**', it.mkarr(x, 'f') if not isinstance(x, Arr) or x.dtype != 'c' else x, y)
                else:
                    if wh is not True:
                        return it.masked_binary(op, x, y, out, wh)
                    r = it.arr_binary(op, x, y)
                if out is not None:
                    return it.store_out(out, r, wh)
                return r
            fn(name, f)
            ns[name].is_ufunc = True
            ns[name].attrs = {'reduce': ExtFunc(name + '.reduce', lambda it, a, k: it.ufunc_reduce(op, a[0])),
                              'accumulate': ExtFunc(name + '.accumulate', lambda it, a, k: it.ufunc_accumulate(op, a[0])),
                              'outer': ExtFunc(name + '.outer', lambda it, a, k: it.ufunc_outer(op, a[0], a[1]))}
        for n, op in BINARY.items():
            mkb(n, op)

        # ---- constants
        sp = self.w.space
        import math
        ns['pi'] = Num(sp.const('pi', math.pi), 'f')
        ns['e'] = Num(sp.const('euler', math.e), 'f')
        ns['inf'] = Num(None, 'f', False, 'inf')
        ns['nan'] = Num(None, 'f', False, 'nan')
        ns['newaxis'] = None
        ns['__version__'] = '2.0.0'

        # ---- types
        NT = self.np_types = {}

        def sc(*kinds):
            return lambda v: isinstance(v, Num) and v.np and v.kind in kinds

        def mk(code):
            def f(it, a, k):
                if not a:
                    return it.box(it.cast(0, code))
                x = a[0]
                if isinstance(x, (Arr, list, tuple)):
                    return it.mkarr(x, code)
                if isinstance(x, Unknown):
                    return x
                return it.box(it.cast(x, code))
            return f
        for names, code, chk in (
                (('float64', 'double', 'float32', 'float16', 'longdouble', 'single', 'half'), 'f', sc('f')),
                (('complex128', 'cdouble', 'complex64', 'clongdouble'), 'c', sc('c')),
                (('int64', 'int32', 'int16', 'int8', 'uint8', 'uint32', 'uint64', 'int_', 'intp'), 'i', sc('i')),
                (('bool_',), 'b', lambda v: isinstance(v, NBool)),
                (('str_',), 'U', lambda v: False),
                (('object_',), 'O', lambda v: False)):
            canon = None
            for nme in names:
                same = {'double': 'float64', 'cdouble': 'complex128', 'int_': 'int64', 'intp': 'int64'}.get(nme)
                if same:
                    NT[nme] = NT[same]
                    continue
                exact = nme in ('float64', 'complex128', 'int64', 'bool_')
                NT[nme] = TypeObj(nme, chk if exact else (lambda v: False), mk(low(code, nme) if nme in LOW else code))
        NT['bool'] = NT['bool_']
        NT['floating'] = TypeObj('floating', sc('f'))
        NT['complexfloating'] = TypeObj('complexfloating', sc('c'))
        NT['integer'] = TypeObj('integer', sc('i'))
        NT['number'] = TypeObj('number', sc('i', 'f', 'c'))
        NT['inexact'] = TypeObj('inexact', sc('f', 'c'))
        NT['generic'] = TypeObj('generic', lambda v: isinstance(v, NBool) or (isinstance(v, Num) and v.np))
        NT['ndarray'] = TypeObj('ndarray', lambda v: isinstance(v, (Arr, MaskSel)))
        self.types['ndarray'] = NT['ndarray']
        for a_, b_ in (('float64', 'float64'), ('complex128', 'complex128'), ('int64', 'int64'), ('bool_', 'bool_')):
            self.types[a_] = NT[b_]
        ns.update(NT)
        ns['dtype'] = TypeObj('dtype', lambda v: isinstance(v, DType), lambda it, a, k: DType(it.dtype_code(a[0])))
        self.types['dtype'] = ns['dtype']

        # ---- creation
        def f_array(it, a, k):
            dt = k.get('dtype', a[1] if len(a) > 1 else None)
            code = it.dtype_code(dt) if dt is not None else None
            nd = it.as_int(k.get('ndmin', 0))
            x = a[0]
            if isinstance(x, Arr) and k.get('copy') is False and (code is None or code == x.dtype) and x.ndim >= nd:
                return x
            if isinstance(x, MaskSel):
                return x
            if type(x).__name__ in ('GenObj', 'IterObj', 'DictView'):
                return Arr.new([x], (), 'O')
            return it.mkarr(x, code, nd)
        fn('array', f_array)

        def f_asarray(it, a, k):
            dt = k.get('dtype', a[1] if len(a) > 1 else None)
            code = it.dtype_code(dt) if dt is not None else None
            if isinstance(a[0], Arr) and (code is None or code == a[0].dtype):
                return a[0]
            if isinstance(a[0], MaskSel):
                return a[0]
            return it.mkarr(a[0], code)
        fn('asarray', f_asarray)
        fn('asanyarray', f_asarray)
        fn('ascontiguousarray', f_asarray)
        fn('copy', lambda it, a, k: it.mkarr(a[0]))

        def atleast(n):
            def f(it, a, k):
                if len(a) > 1:
                    return [f(it, [x], k) for x in a]
                x = it.asarr(a[0])
                if x.ndim >= n:
                    return x
                sh = x.shape
                if n == 1:
                    sh = (1,)
                elif n == 2:
                    sh = (1, 1) if x.ndim == 0 else (1,) + x.shape
                else:
                    raise Gap("atleast_3d")
                return Arr(x.buf, list(x.idx), sh, x.dtype)
            return f
        fn('atleast_1d', atleast(1))
        fn('atleast_2d', atleast(2))

        def shape_of(it, x):
            if isinstance(x, (tuple, list)):
                return tuple(it.as_int(e) for e in x)
            return (it.as_int(x),)

        def filled(val):
            def f(it, a, k):
                sh = shape_of(it, a[0] if a else k['shape'])
                dt = k.get('dtype', a[1] if len(a) > 1 else None)
                code = it.dtype_code(dt) if dt is not None else 'f'
                n = 1
                for d in sh:
                    n *= d
                e = it.cast(val, code)
                return Arr.new([e] * n, sh, code)
            return f
        fn('zeros', filled(0))
        fn('ones', filled(1))

        def f_empty(it, a, k):
            r = filled(0)(it, a, k)
            if r.dtype in 'fc':
                sp = it.w.space
                r.buf.data[:] = [Num(sp.fn('uninitialised', (it.w.fresh(),), real=True, uninterpreted=True),
                                     r.dtype, True) for _ in r.buf.data]
            return r
        fn('empty', f_empty)

        def like(base):
            def f(it, a, k):
                x = it.asarr(a[0])
                kk = dict(k)
                if kk.get('dtype') is None and len(a) < 2:
                    kk['dtype'] = DType(x.dtype)
                elif len(a) > 1:
                    kk['dtype'] = a[1]
                return base(it, [x.shape], kk)
            return f
        fn('zeros_like', like(filled(0)))
        fn('ones_like', like(filled(1)))
        fn('empty_like', like(f_empty))

        def f_full(it, a, k):
            sh = shape_of(it, a[0])
            v = a[1] if len(a) > 1 else k['fill_value']
            dt = k.get('dtype', a[2] if len(a) > 2 else None)
            code = it.dtype_code(dt) if dt is not None else kind_of(v)
            n = 1
            for d in sh:
                n *= d
            return Arr.new([it.cast(v, code)] * n, sh, code)
        fn('full', f_full)

        def f_full_like(it, a, k):
            x = it.asarr(a[0])
            dt = k.get('dtype')
            code = it.dtype_code(dt) if dt is not None else x.dtype
            return Arr.new([it.cast(a[1] if len(a) > 1 else k['fill_value'], code)] * x.size, x.shape, code)
        fn('full_like', f_full_like)

        def f_arange(it, a, k):
            if all(isinstance(x, int) for x in a):
                return it.mkarr(range(*a))
            if all(isinstance(x, int) or (isinstance(x, Num) and x.is_const() and not x.special) for x in a):
                v = [Fraction(x) if isinstance(x, int) else x.nf.const_value() for x in a]
                lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], 1) if len(v) == 2 else v
                out = []
                while (st > 0 and lo < hi) or (st < 0 and lo > hi):
                    out.append(Num(NF.num(lo), 'f', True))
                    lo += st
                    if len(out) > 100000:
                        raise Gap("arange")
                return Arr.new(out, None, 'f')
            raise Gap("symbolic arange")
        fn('arange', f_arange)

        def f_geom(it, a, k):
            n = it.as_int(k.get('num', a[2] if len(a) > 2 else 50))
            lo = a[0] if a else k['start']
            hi = a[1] if len(a) > 1 else k['stop']
            for x in (lo, hi):
                if isinstance(x, Arr) and x.size != 1 or isinstance(x, Unknown):
                    raise Gap("geomspace of arrays")
            lo = lo.elems()[0] if isinstance(lo, Arr) else lo
            hi = hi.elems()[0] if isinstance(hi, Arr) else hi
            if isinstance(lo, Phi):
                return it.dist(lo, lambda v: f_geom(it, [v, hi, n], {}))
            if isinstance(hi, Phi):
                return it.dist(hi, lambda v: f_geom(it, [lo, v, n], {}))
            return Arr.new(it.geomspace(lo, hi, n, k.get('endpoint', True)), (n,), 'f')
        fn('geomspace', f_geom)

        def f_lin(it, a, k):
            n = it.as_int(k.get('num', a[2] if len(a) > 2 else 50))
            return Arr.new(it.linspace(a[0], a[1], n, k.get('endpoint', True)), (n,), 'f')
        fn('linspace', f_lin)

        def f_logspace(it, a, k):
            n = it.as_int(k.get('num', a[2] if len(a) > 2 else 50))
            base = k.get('base', 10)
            return Arr.new([it.box(it.arith('**', base, e)) for e in it.linspace(a[0], a[1], n)], (n,), 'f')
        fn('logspace', f_logspace)

        # ---- reductions
        def red(name):
            def f(it, a, k):
                x = a[0]
                axis = k.get('axis', a[1] if len(a) > 1 else None)
                if isinstance(x, Unknown):
                    return x
                if isinstance(x, MaskSel):
                    raise Gap("reduction of undecided selection")
                if x is None or isinstance(x, str):
                    it.throw(TypeError, "reduction of %s" % it.typename(x))
                x = it.asarr(x)
                if axis is not None and x.ndim > 1:
                    ax = it.as_int(axis)
                    if ax < 0:
                        ax += x.ndim
                    if x.ndim != 2:
                        raise Gap("axis reduction")
                    n = x.shape[1 - ax]
                    outs = []
                    for i in range(n):
                        v = it.arr_get(x, (slice(None), i) if ax == 0 else (i, slice(None)))
                        outs.append(f(it, [v], {}))
                    if k.get('keepdims'):
                        raise Gap("keepdims")
                    return it.mkarr(outs)
                if name in ('min', 'max'):
                    return it.reduce_minmax(name, x)
                if name in ('all', 'any'):
                    return it.quantify(x, name == 'all')
                if name in ('nanmin', 'nanmax'):
                    keep = [e for e in x.elems() if not (isinstance(e, Num) and e.special == 'nan')]
                    return it.reduce_minmax(name[3:], Arr.new(keep, None, x.dtype))
                if name == 'ptp':
                    return it.arith('-', it.reduce_minmax('max', x), it.reduce_minmax('min', x))
                op = '*' if name == 'prod' else '+'
                es = x.elems()
                tot = it.box(it.cast(1 if name == 'prod' else 0, x.dtype if x.dtype != 'b' else 'i'))
                for e in es:
                    tot = it.arith(op, tot, it.box(e) if not isinstance(e, bool) else int(e))
                if name == 'mean':
                    tot = it.arith('/', tot, len(es))
                return tot
            return f
        for n in ('min', 'max', 'all', 'any', 'sum', 'prod', 'mean', 'nanmin', 'nanmax', 'ptp'):
            fn(n, red(n))
        ns['amin'], ns['amax'] = ns['min'], ns['max']
        ns['alltrue'] = ns['all']

        def f_argm(op):
            def f(it, a, k):
                x = it.asarr(a[0])
                es = x.elems()
                if not es:
                    it.throw(ValueError, "attempt to get argmin of an empty sequence")
                best = 0
                for i in range(1, len(es)):
                    t = it.truth(it.cmpnum(op, es[i], es[best]))
                    if t is True:
                        best = i
                    elif t is not False:
                        raise Gap("undecided argmin")
                return Num(NF.num(best), 'i', True)
            return f
        fn('argmin', f_argm('<'))
        fn('argmax', f_argm('>'))

        def order(it, es):
            return it.sorted(list(range(len(es))), ExtFunc('key', lambda it2, a, k: es[it.as_int(a[0])]))

        def f_argsort(it, a, k):
            x = it.asarr(a[0])
            if x.ndim != 1:
                raise Gap("argsort of matrix")
            return Arr.new([Num(NF.num(i), 'i', True) for i in order(it, x.elems())], (x.size,), 'i')
        fn('argsort', f_argsort)

        def f_sort(it, a, k):
            x = it.asarr(a[0])
            if x.ndim == 2:
                rows = [f_sort(it, [it.arr_get(x, i)], {}) for i in range(x.shape[0])]
                return it.mkarr(rows)
            es = x.elems()
            if len(es) == 2:
                t = it.truth(it.cmpnum('<', es[1], es[0]))
                if not isinstance(t, bool):
                    return Arr.new([it.binfunc('minimum', es[0], es[1]), it.binfunc('maximum', es[0], es[1])],
                                   (2,), x.dtype)
            return Arr.new([es[i] for i in order(it, es)], x.shape, x.dtype)
        fn('sort', f_sort)

        def f_unique(it, a, k):
            x = it.asarr(a[0])
            es = x.elems()
            idx = order(it, es)
            keep = []
            for i in idx:
                if keep:
                    t = it.truth(it.cmpnum('==', es[i], es[keep[-1]]))
                    if t is True:
                        continue
                    if t is not False:
                        raise Gap("undecided unique")
                keep.append(i)
            r = Arr.new([es[i] for i in keep], None, x.dtype)
            if k.get('return_index'):
                return (r, Arr.new([Num(NF.num(i), 'i', True) for i in keep], None, 'i'))
            if any(k.get(q) for q in ('return_inverse', 'return_counts')):
                raise Gap("unique with extras")
            return r
        fn('unique', f_unique)

        def f_nonzero(it, a, k):
            x = it.asarr(a[0])
            if x.ndim != 1:
                raise Gap("nonzero of matrix")
            out = []
            for i, e in enumerate(x.elems()):
                t = it.truth(e)
                if not isinstance(t, bool):
                    raise Gap("undecided nonzero")
                if t:
                    out.append(Num(NF.num(i), 'i', True))
            return (Arr.new(out, (len(out),), 'i'),)
        fn('nonzero', f_nonzero)
        fn('flatnonzero', lambda it, a, k: f_nonzero(it, a, k)[0])

        def f_count(it, a, k):
            n = 0
            for e in it.asarr(a[0]).elems():
                t = it.truth(e)
                if not isinstance(t, bool):
                    return Unknown('count_nonzero')
                n += t
            return n
        fn('count_nonzero', f_count)

        def f_diff(it, a, k):
            x = it.asarr(a[0])
            if x.ndim == 2:
                ax = it.as_int(k.get('axis', -1)) % 2
                if ax == 1:
                    return it.arr_binary('-', it.arr_get(x, (slice(None), slice(1, None))),
                                         it.arr_get(x, (slice(None), slice(None, -1))))
            return it.arr_binary('-', it.arr_get(x, slice(1, None)), it.arr_get(x, slice(None, -1)))
        fn('diff', f_diff)

        def f_cumsum(it, a, k):
            out, tot = [], None
            for e in it.asarr(a[0]).elems():
                tot = e if tot is None else it.arith('+', tot, e)
                out.append(tot)
            return Arr.new(out)
        fn('cumsum', f_cumsum)

        def f_dot(it, a, k):
            x, y = it.asarr(a[0]), it.asarr(a[1])
            if x.ndim == 1 and y.ndim == 1:
                return red('sum')(it, [it.arr_binary('*', x, y)], {})
            if x.ndim == 0 or y.ndim == 0:
                return it.arr_binary('*', x, y)
            raise Gap("matrix product")
        fn('dot', f_dot)

        # ---- shapes
        fn('shape', lambda it, a, k: it.asarr(a[0]).shape)
        fn('size', lambda it, a, k: it.asarr(a[0]).size)
        fn('ndim', lambda it, a, k: it.asarr(a[0]).ndim if not is_num(a[0]) else 0)
        fn('reshape', lambda it, a, k: it.reshape(it.asarr(a[0]), a[1]))
        fn('ravel', lambda it, a, k: it.arr_method(it.asarr(a[0]), 'ravel', [], {}))
        fn('transpose', lambda it, a, k: it.transpose(it.asarr(a[0])))
        fn('squeeze', lambda it, a, k: it.arr_method(it.asarr(a[0]), 'squeeze', [], {}))

        def f_expand(it, a, k):
            x = it.asarr(a[0])
            ax = it.as_int(k.get('axis', a[1] if len(a) > 1 else 0))
            if ax < 0:
                ax += x.ndim + 1
            return Arr(x.buf, list(x.idx), x.shape[:ax] + (1,) + x.shape[ax:], x.dtype)
        fn('expand_dims', f_expand)

        def f_broadcast_to(it, a, k):
            x = it.asarr(a[0])
            sh = shape_of(it, a[1])
            return Arr.new(it.bcast(x, sh), sh, x.dtype)
        fn('broadcast_to', f_broadcast_to)

        def f_flip(it, a, k):
            x = it.asarr(a[0])
            return it.arr_get(x, slice(None, None, -1))
        fn('flip', f_flip)
        fn('flipud', f_flip)

        def f_vstack(it, a, k):
            arrs = []
            for x in it.iterate(a[0]):
                if isinstance(x, Phi):
                    raise Gap("stack of gated arrays")
                x = it.asarr(x)
                if x.ndim == 0:
                    x = Arr(x.buf, x.idx, (1, 1), x.dtype)
                elif x.ndim == 1:
                    x = Arr(x.buf, x.idx, (1, x.size), x.dtype)
                arrs.append(x)
            return it.stack_rows(arrs, 0)
        fn('vstack', f_vstack)
        ns['row_stack'] = ns['vstack']

        def f_hstack(it, a, k):
            arrs = []
            for x in it.iterate(a[0]):
                x = it.asarr(x)
                if x.ndim == 0:
                    x = Arr(x.buf, x.idx, (1,), x.dtype)
                arrs.append(x)
            return it.stack_rows(arrs, 0 if arrs and arrs[0].ndim == 1 else 1)
        fn('hstack', f_hstack)

        def f_colstack(it, a, k):
            arrs = []
            for x in it.iterate(a[0]):
                x = it.asarr(x)
                if x.ndim < 2:
                    x = Arr(x.buf, x.idx, (x.size, 1), x.dtype)
                arrs.append(x)
            return it.stack_rows(arrs, 1)
        fn('column_stack', f_colstack)

        def f_concat(it, a, k):
            ax = it.as_int(k.get('axis', a[1] if len(a) > 1 else 0))
            return it.stack_rows([it.asarr(x) for x in it.iterate(a[0])], ax)
        fn('concatenate', f_concat)
        fn('append', lambda it, a, k: it.stack_rows(
            [it.arr_method(it.asarr(x), 'ravel', [], {}) for x in a[:2]], 0) if k.get('axis') is None
            and len(a) < 3 else it.stack_rows([it.asarr(x) for x in a[:2]],
                                              it.as_int(k.get('axis', a[2] if len(a) > 2 else 0))))

        def f_stack(it, a, k):
            ax = it.as_int(k.get('axis', a[1] if len(a) > 1 else 0))
            arrs = [it.asarr(x) for x in it.iterate(a[0])]
            if any(x.ndim != arrs[0].ndim for x in arrs) or arrs[0].ndim > 1:
                raise Gap("stack")
            if arrs[0].ndim == 0:
                return it.stack_rows([Arr(x.buf, x.idx, (1,), x.dtype) for x in arrs], 0)
            m_ = it.stack_rows([Arr(x.buf, x.idx, (1, x.size), x.dtype) for x in arrs], 0)
            return m_ if ax == 0 else it.transpose(m_)
        fn('stack', f_stack)

        def f_insert(it, a, k):
            x = it.asarr(a[0])
            if x.ndim != 1:
                raise Gap("insert")
            l = x.elems()
            l[it.as_int(a[1]):it.as_int(a[1])] = it.asarr(a[2]).elems()
            return Arr.new(l, None, x.dtype)
        fn('insert', f_insert)

        def f_delete(it, a, k):
            x = it.asarr(a[0])
            idx = a[1]
            ids = {it.as_int(i) for i in (it.iterate(idx) if isinstance(idx, (list, tuple, Arr)) else [idx])}
            ax = k.get('axis', a[2] if len(a) > 2 else None)
            if x.ndim == 1:
                n = x.size
                ids = {i % n for i in ids}
                return Arr.new([e for i, e in enumerate(x.elems()) if i not in ids], None, x.dtype)
            if ax == 0:
                keep = [i for i in range(x.shape[0]) if i not in {j % x.shape[0] for j in ids}]
                return it.arr_get(x, it.mkarr(keep) if keep else slice(0, 0))
            if ax == 1:
                keep = [i for i in range(x.shape[1]) if i not in {j % x.shape[1] for j in ids}]
                return it.arr_get(x, (slice(None), it.mkarr(keep)))
            raise Gap("delete")
        fn('delete', f_delete)

        def f_take(it, a, k):
            return it.arr_get(it.asarr(a[0]), a[1])
        fn('take', f_take)

        def f_repeat(it, a, k):
            n = it.as_int(a[1])
            return Arr.new([e for e in it.asarr(a[0]).elems() for _ in range(n)])
        fn('repeat', f_repeat)
        fn('tile', lambda it, a, k: Arr.new(it.asarr(a[0]).elems() * it.as_int(a[1])))

        def f_clip(it, a, k):
            x = a[0]
            lo = k.get('a_min', k.get('min', a[1] if len(a) > 1 else None))
            hi = k.get('a_max', k.get('max', a[2] if len(a) > 2 else None))
            if lo is not None:
                x = it.arr_binary('maximum', x, lo)
            if hi is not None:
                x = it.arr_binary('minimum', x, hi)
            return x
        fn('clip', f_clip)

        # ---- rounding, comparison
        fn('round', lambda it, a, k: it.np_round(a[0], a[1:], k))
        ns['around'] = ns['round_'] = ns['round']
        fn('isclose', lambda it, a, k: it.np_isclose(it, a, k))
        fn('allclose', lambda it, a, k: it.unbox(it.quantify(it.asarr(it.np_isclose(it, a, k)), True)))

        def f_array_equal(it, a, k):
            x, y = it.asarr(a[0]), it.asarr(a[1])
            if x.shape != y.shape:
                return False
            r = it.arr_binary('==', x, y)
            return it.unbox(it.quantify(it.asarr(r), True))
        fn('array_equal', f_array_equal)
        fn('where', lambda it, a, k: it.np_where(it, a, k))

        def f_nan_to_num(it, a, k):
            x = it.asarr(a[0])
            out = []
            for e in x.elems():
                if isinstance(e, Num) and e.special == 'nan':
                    e = Num(it.tonum(k.get('nan', 0)).nf, 'f', True)
                elif isinstance(e, Num) and e.special:
                    raise Gap("nan_to_num of infinity")
                out.append(e)
            return it.arr_out(out, x.shape, x.dtype)
        fn('nan_to_num', f_nan_to_num)

        def f_isreal(it, a, k):
            x = it.asarr(a[0])
            return it.arr_out([it.cmpnum('==', it.unary('imag', e), 0) for e in x.elems()], x.shape, 'b')
        fn('isreal', f_isreal)
        fn('isscalar', lambda it, a, k: is_num(a[0]) or isinstance(a[0], str))

        def kindp(kinds):
            def f(it, a, k):
                x = a[0]
                if isinstance(x, (Arr,)):
                    return x.dtype in kinds
                if isinstance(x, (list, tuple)):
                    return it.mkarr(x).dtype in kinds
                return kind_of(x) in kinds
            return f
        fn('iscomplexobj', kindp('c'))

        def f_ric(it, a, k):
            # real numbers if every imaginary part is zero (or within rounding of it)
            x = it.asarr(a[0])
            if x.dtype != 'c':
                return x
            im = [it.unary('imag', e) for e in x.elems()]
            z = [it.truth(it.cmpnum('==', e, 0)) for e in im]
            if all(t is True for t in z):
                return it.arr_out([it.unary('real', e) for e in x.elems()], x.shape, 'f')
            if any(t is False for t in z):
                return x
            raise Gap("real_if_close of undecided imaginary parts")
        fn('real_if_close', f_ric)
        fn('isrealobj', kindp('bif'))

        def f_issub(it, a, k):
            c = it.dtype_code(a[0])
            t = a[1]
            n = t.name if isinstance(t, TypeObj) else str(t)
            return {'floating': c == 'f', 'complexfloating': c == 'c', 'integer': c == 'i',
                    'number': c in 'ifc', 'inexact': c in 'fc', 'float': c == 'f', 'int': c == 'i',
                    'complex': c == 'c', 'bool': c == 'b', 'bool_': c == 'b'}.get(n, c == it.dtype_code(t))
        fn('issubdtype', f_issub)

        def f_result_type(it, a, k):
            best = 'b'
            for x in a:
                c = x.dtype if isinstance(x, Arr) else (kind_of(x) if is_num(x) else it.dtype_code(x))
                if KORD.index(c) > KORD.index(best):
                    best = c
            return DType(best)
        fn('result_type', f_result_type)
        ns['promote_types'] = ns['result_type']
        fn('can_cast', lambda it, a, k: Unknown('can_cast'))

        def f_interp(it, a, k):
            x, xp, fp = a[:3]
            return it.np_interp(x, it.asarr(xp), it.asarr(fp), k)
        fn('interp', f_interp)

        def f_searchsorted(it, a, k):
            xs = it.asarr(a[0]).elems()
            v = a[1]
            side = k.get('side', 'left')

            def one(q):
                n = 0
                for e in xs:
                    t = it.truth(it.cmpnum('<' if side == 'left' else '<=', e, q))
                    if not isinstance(t, bool):
                        raise Gap("undecided searchsorted")
                    n += t
                return Num(NF.num(n), 'i', True)
            if isinstance(v, (Arr, list, tuple)):
                va = it.asarr(v)
                return Arr.new([one(q) for q in va.elems()], va.shape, 'i')
            return one(v)
        fn('searchsorted', f_searchsorted)

        def f_polyval(it, a, k):
            c = it.iterate(a[0])
            x = a[1]
            r = it.binop('*', x, 0)
            for q in c:
                r = it.binop('+', it.binop('*', r, x), q)
            return r
        fn('polyval', f_polyval)

        def f_errstate(it, a, k):
            return ErrState(k)
        fn('errstate', f_errstate)
        fn('seterr', lambda it, a, k: it.event('global_state', 'numpy.seterr') or {})
        def f_finfo(it, a, k):
            if isinstance(a[0], Arr):
                c = a[0].dtype
            elif isinstance(a[0], Num):
                c = 'f'
            else:
                c = it.dtype_code(a[0])
            return FInfo(getattr(c, 'fmt', '<d'))
        fn('finfo', f_finfo)

        def f_setprint(it, a, k):
            it.event('global_state', 'numpy.set_printoptions')
            it.w.printoptions.update(k)
        fn('set_printoptions', f_setprint)
        fn('printoptions', lambda it, a, k: PrintOpts(k))
        fn('get_printoptions', lambda it, a, k: dict(it.w.printoptions))

        def f_a2s(it, a, k):
            x = a[0]
            if isinstance(x, Unknown):
                return x
            if not isinstance(x, Arr):
                # numpy.array2string needs an array: lists have no .shape
                it.throw(AttributeError, "'%s' object has no attribute 'shape'" % it.typename(x))
            names = ['max_line_width', 'precision', 'suppress_small', 'separator']
            kk = dict(zip(names, a[1:]))
            kk.update(k)
            sep = kk.pop('separator', ' ')
            for junk in ('suppress_small', 'prefix', 'suffix', 'sign', 'legacy', 'style'):
                kk.pop(junk, None)
            return it.array2string(x, sep=sep, **kk)
        fn('array2string', f_a2s)
        fn('array_str', lambda it, a, k: it.array2string(it.asarr(a[0])))
        fn('array_repr', lambda it, a, k: it.to_repr(it.asarr(a[0])))

        def f_ffp(it, a, k):
            x = a[0]
            if not is_num(x):
                raise Gap("format_float")
            if k.get('unique', True) is True and k.get('precision') is None:
                return it.num_text(it.tonum(x))
            return it.token(it.tonum(x), 'format_float precision')
        fn('format_float_positional', f_ffp)
        fn('format_float_scientific', f_ffp)

        def f_vectorize(it, a, k):
            g = a[0]

            def h(it2, aa, kk):
                arrs = [it.asarr(x) for x in aa]
                sh = ()
                for x in arrs:
                    sh = it.bshape(sh, x.shape)
                cols = [it.bcast(x, sh) for x in arrs]
                out = [it.call(g, [it.box(e) for e in t], kk) for t in zip(*cols)]
                r = it.mkarr(out)
                return Arr(r.buf, r.idx, sh, r.dtype)
            return ExtFunc('vectorized', h)
        fn('vectorize', f_vectorize)

        def f_fromstring(it, a, k):
            sep = k.get('sep', '')
            s = a[0]
            parts = s.split() if sep.strip() == '' else s.split(sep)
            return Arr.new([it.box(it.to_float(p)) for p in parts if p.strip()], None, 'f')
        fn('fromstring', f_fromstring)
        fn('savetxt', lambda it, a, k: it.w.fs.savetxt(it, a, k))
        fn('loadtxt', lambda it, a, k: it.w.fs.loadtxt(it, a, k, False))
        fn('genfromtxt', lambda it, a, k: it.w.fs.loadtxt(it, a, k, True))

        def f_load(it, a, k):
            if k.get('allow_pickle') is True:
                it.event('codeexec', ('numpy.load(allow_pickle=True)', None))
            return Unknown('numpy.load')
        fn('load', f_load)
        lin = Module('numpy.linalg', {})
        lin.external = True
        ns['linalg'] = lin
        ns['emath'] = ns['lib'] = Module('numpy.emath', {'sqrt': ExtFunc('emath.sqrt', lambda it, a, k: it.emath_sqrt(a[0]))})
        ns['lib'].ns['scimath'] = ns['emath']

    def order_perm(self, xs):
        """stable ascending permutation of decided order, or None"""
        n = len(xs)

        def rel(op, i):
            return self.truth(self.cmpnum(op, xs[i], xs[i + 1]))
        r = [rel('<=', i) for i in range(n - 1)]
        if all(x is True for x in r):
            return list(range(n))
        if all(x is False for x in r):
            return list(range(n - 1, -1, -1))
        try:
            return self.sorted(list(range(n)), ExtFunc('key', lambda it2, a, k: xs[self.as_int(a[0])]))
        except Gap:
            return None

    def emath_sqrt(self, x):
        if isinstance(x, Arr):
            return self.arr_unary('sqrt', Arr.new([self.cast(e, 'c') for e in x.elems()], x.shape, 'c'))
        return self.unary('sqrt', self.box(self.cast(x, 'c')))

    def bool2(self, op, s, t):
        def C(x):
            return x
        if op == 'land':
            if s is False or t is False:
                return False
            if s is True:
                return Phi(t, True, False)
            if t is True:
                return Phi(s, True, False)
            return Phi(cand(s, t), True, False)
        if s is True or t is True:
            return True
        if s is False:
            return Phi(t, True, False)
        if t is False:
            return Phi(s, True, False)
        return Phi(cor(s, t), True, False)

    def unbox(self, x):
        if isinstance(x, NBool):
            return x.v
        if isinstance(x, Phi):
            return Phi(x.cond, self.unbox(x.a), self.unbox(x.b))
        return x

    def store_out(self, out, r, wh):
        if not isinstance(out, Arr):
            raise Gap("out argument")
        ra = r if isinstance(r, Arr) else self.mkarr(r)
        if wh is True:
            self.arr_store(out, out.idx, out.shape, ra)
            return out
        wa = self.asarr(wh)
        sel = self.np_where(self, [wa, ra, out], {})
        self.arr_store(out, out.idx, out.shape, sel)
        return out

    def masked_binary(self, op, x, y, out, wh):
        wa = self.asarr(wh)
        xa, ya = self.asarr(x), self.asarr(y)
        sh = out.shape
        res = []
        for m, p, q, o in zip(self.bcast(wa, sh), self.bcast(xa, sh), self.bcast(ya, sh), out.elems()):
            t = self.truth(m)
            if t is False:
                res.append(o)
                continue
            v = self.binfunc(op, self.box(p), self.box(q))
            res.append(v if t is True else self.mergeval(t, v, o))
        self.arr_store(out, out.idx, out.shape, Arr.new(res, sh, out.dtype if out.dtype != 'i' else 'f'))
        return out

    def ufunc_reduce(self, op, x):
        es = self.asarr(x).elems() if not isinstance(x, list) else x
        r = es[0]
        for e in es[1:]:
            r = self.binop(op, r, e) if op in ('+', '*', '-', '/', '&', '|') else self.binfunc(op, r, e)
        return r

    def ufunc_accumulate(self, op, x):
        x = self.asarr(x)
        if x.ndim != 1:
            raise Gap("accumulate over several dimensions")
        out = []
        for e in x.elems():
            out.append(e if not out else (self.binop(op, out[-1], e) if op in ('+', '*', '-', '/', '&', '|') else self.binfunc(op, out[-1], e)))
        return Arr.new(out, None, x.dtype if x.dtype != 'b' or op in ('&', '|') else None)

    def ufunc_outer(self, op, x, y):
        x, y = self.asarr(x), self.asarr(y)
        a = Arr(x.buf, list(x.idx), x.shape + (1,) * y.ndim, x.dtype)
        return self.arr_binary(op, a, y)

    def np_interp(self, x, xp, fp, k):
        """piecewise linear; constant outside"""
        from .m_scipy import Interp1d
        f = Interp1d(self, xp, fp, 1, bounds_error=False, fill_value=(
            k.get('left', fp.elems()[0]), k.get('right', fp.elems()[-1])))
        r = f.m___call__(self, x)
        if isinstance(r, Arr) and r.ndim == 0:
            return self.box(r.elems()[0])
        return r


ARR_METHODS = {'min', 'max', 'sum', 'prod', 'mean', 'all', 'any', 'argmin', 'argmax', 'cumsum', 'std', 'ptp',
               'reshape', 'flatten', 'ravel', 'copy', 'tolist', 'item', 'astype', 'conj', 'conjugate', 'round',
               'squeeze', 'transpose', 'sort', 'argsort', 'fill', 'nonzero', 'view', 'clip', 'take', 'repeat',
               'dot', 'searchsorted', 'setflags', 'resize', 'tobytes', 'tofile', 'dump'}
