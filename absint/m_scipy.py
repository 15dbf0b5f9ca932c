"""scipy.constants and scipy.interpolate"""
from fractions import Fraction
from . import nf as NFM
from .nf import NF
from .values import *
from .numops import is_num

CONST = {
    'c': '299792458', 'speed_of_light': '299792458',
    'h': '6.62607015e-34', 'Planck': '6.62607015e-34',
    'e': '1.602176634e-19', 'elementary_charge': '1.602176634e-19',
    'eV': '1.602176634e-19', 'electron_volt': '1.602176634e-19',
    'k': '1.380649e-23', 'Boltzmann': '1.380649e-23',
    'N_A': '6.02214076e23', 'Avogadro': '6.02214076e23',
    'hbar': '1.0545718176461565e-34',
    'epsilon_0': '8.8541878188e-12', 'mu_0': '1.25663706127e-06',
    'm_e': '9.1093837139e-31', 'electron_mass': '9.1093837139e-31',
    'angstrom': '1e-10', 'micron': '1e-6',
    'tera': '1e12', 'giga': '1e9', 'mega': '1e6', 'kilo': '1e3', 'centi': '1e-2', 'milli': '1e-3',
    'micro': '1e-6', 'nano': '1e-9', 'pico': '1e-12', 'femto': '1e-15',
}


class Interp1d(ModelObj):
    tname = 'interp1d'

    def __init__(self, it, x, y, order, bounds_error=None, fill_value=None, kind='spline', assume_sorted=False):
        xs, ys = list(x.elems()), list(y.elems())
        if x.ndim != 1:
            it.throw(ValueError, "the x array must have exactly one dimension.")
        if y.ndim != 1:
            raise Gap("interp1d of multi-dimensional data")
        if len(xs) != len(ys):
            it.throw(ValueError, "x and y arrays must be equal in length along interpolation axis.")
        self.order = order
        self.kind = kind
        self.fill_value = fill_value
        self.bounds_error = bounds_error
        if not assume_sorted:
            perm = it.order_perm(xs)
            if perm is None:
                raise Gap("interp1d over abscissae of undecided order")
            xs, ys = [xs[i] for i in perm], [ys[i] for i in perm]
        if kind == 'spline':
            for p, q in zip(xs, xs[1:]):
                t = it.truth(it.cmpnum('==', p, q))
                if t is True:
                    it.throw(ValueError, "Expect x to not have duplicates")
                if assume_sorted and it.truth(it.cmpnum('>', p, q)) is True:
                    it.throw(ValueError, "Expect x to be a 1D strictly increasing sequence.")
        minval = {'spline': order + 1, 'linear': 0, 'nearest': 1}.get(kind, 1)
        if len(xs) < max(minval, 1):
            it.throw(ValueError, "x and y arrays must have at least %d entries" % minval)
        self.xs, self.ys = xs, ys

    def a_x(self, it):
        return Arr.new(self.xs, None, 'f')

    def a_y(self, it):
        return Arr.new(self.ys)

    def m___call__(self, it, x):
        if isinstance(x, (list, tuple)):
            x = it.mkarr(x)
        if isinstance(x, Arr):
            return Arr.new([self.at(it, e) for e in x.elems()], x.shape,
                           dtype_of([it.cast(e, 'f') if kind_of(e) == 'i' else e for e in self.ys]) if self.ys else 'f')
        if isinstance(x, Unknown):
            return Unknown('interp1d()')
        if not is_num(x):
            it.throw(TypeError, "unsupported x for interpolation")
        v = self.at(it, x)
        return Arr.new([v], (), kind_of(v) if kind_of(v) in 'fc' else 'f')

    def at(self, it, x):
        if isinstance(x, Phi):
            return it.dist(x, lambda v: self.at(it, v))
        x = it.tonum(x)
        if x.special:
            if x.special == 'nan':
                return Num(None, 'f', True, 'nan')
            return self.outside(it, x, x.special == 'inf')
        lo, hi = self.xs[0], self.xs[-1]
        below = it.truth(it.cmpnum('<', x, lo))
        return self.cond(it, below, lambda: self.outside(it, x, False),
                         lambda: self.cond(it, it.truth(it.cmpnum('>', x, hi)),
                                           lambda: self.outside(it, x, True),
                                           lambda: self.inside(it, x)))

    @staticmethod
    def cond(it, c, f, g):
        if c is True:
            return f()
        if c is False:
            return g()
        return it.branch(c, f, g)

    def outside(self, it, x, upper):
        fv = self.fill_value
        be = self.bounds_error
        if fv == 'extrapolate':
            return self.curve(it, x, True)
        if be is None or be is True or (isinstance(be, NBool) and be.v):
            it.throw(ValueError, "A value in x_new is %s the interpolation range."
                     % ("above" if upper else "below"))
        if fv is None:
            return Num(None, 'f', True, 'nan')
        if isinstance(fv, tuple):
            return it.tonum(fv[1] if upper else fv[0])
        return it.tonum(fv)

    def inside(self, it, x):
        if len(self.xs) == 1:
            return it.tonum(self.ys[0])
        n = len(self.xs)
        # bisect on decided comparisons
        lo, hi = 0, n - 1
        undec = False
        while hi - lo > 1:
            m = (lo + hi) // 2
            poss = it.w.order.query(x.nf, self.xs[m].nf) if not self.xs[m].special else {'<'}
            if NFM.equal(x.nf, self.xs[m].nf):
                lo = hi = m
                break
            if poss == {'='}:
                lo = hi = m
                break
            if poss <= {'<', '='}:
                hi = m
            elif poss <= {'>', '='}:
                lo = m
            else:
                undec = True
                break
        for j in (lo, hi):
            if not self.xs[j].special and (NFM.equal(x.nf, self.xs[j].nf) or
                                           it.w.order.query(x.nf, self.xs[j].nf) == {'='}):
                return self.out(it, self.ys[j])
        if self.kind in ('spline', 'linear') and self.order == 1 and not undec:
            x0, x1, y0, y1 = self.xs[lo], self.xs[hi], self.ys[lo], self.ys[hi]
            t = it.arith('/', it.arith('-', x, x0), it.arith('-', x1, x0))
            return self.out(it, it.arith('+', y0, it.arith('*', t, it.arith('-', y1, y0))))
        if self.kind in ('spline', 'linear') and self.order == 1 and len(self.xs) == 2:
            raise Gap("linear interpolation")
        return self.curve(it, x, False)

    def out(self, it, v):
        if isinstance(v, Phi):
            return it.lift(lambda q: self.out(it, q), v)
        v = it.tonum(v)
        return Num(v.nf, 'c' if v.kind == 'c' else 'f', True, v.special)

    def curve(self, it, x, ext):
        if any(isinstance(v, Phi) or v.special for v in self.xs + self.ys):
            raise Gap("interpolation of special values")
        if x.special:
            raise Gap("curve at special value")
        vals = None
        if self.order == 1 and len(self.xs) > 1:
            vals = []
            for k in range(NFM.K):
                X = [v.nf.vals()[k].real for v in self.xs]
                q = x.nf.vals()[k].real
                j = 0
                while j < len(X) - 2 and q > X[j + 1]:
                    j += 1
                y0, y1 = self.ys[j].nf.vals()[k], self.ys[j + 1].nf.vals()[k]
                vals.append(y0 + (q - X[j]) / (X[j + 1] - X[j]) * (y1 - y0) if X[j + 1] != X[j] else complex('nan'))
        a = it.w.space.fn('curve', (self.kind, self.order, tuple(v.nf for v in self.xs),
                                    tuple(v.nf for v in self.ys), x.nf), real=all(v.nf.is_real() for v in self.ys),
                          uninterpreted=True, vals=vals)
        return Num(a, 'c' if any(v.kind == 'c' for v in self.ys) else 'f', True)


class Spline(ModelObj):
    """result of splrep / UnivariateSpline"""
    tname = 'tuple'

    def __init__(self, k, xs, ys, s):
        self.k, self.xs, self.ys, self.s = k, xs, ys, s

    def at(self, it, x, ext=0):
        if isinstance(x, Phi):
            return it.lift(lambda v: self.at(it, v, ext), x)
        x = it.tonum(x)
        if x.special or any(v.special for v in self.xs + self.ys):
            return Unknown('spline of special value')
        a = it.w.space.fn('spline', (self.k, self.s, ext, tuple(v.nf for v in self.xs),
                                     tuple(v.nf for v in self.ys), x.nf), real=True, uninterpreted=True)
        return Num(a, 'f', True)

    def m___call__(self, it, x, **kw):
        return splev(it, [x, self], kw)

    def op_iter(self, it):
        return [Unknown('knots'), Unknown('coefs'), self.k]


def splev(it, a, k):
    x, tck = a[0], a[1]
    if not isinstance(tck, Spline):
        raise Gap("splev of unmodelled spline")
    ext = k.get('ext', 0)
    der = k.get('der', a[2] if len(a) > 2 else 0)
    if not isinstance(der, int) or der:
        raise Gap("spline derivative")
    if isinstance(x, (list, tuple)):
        x = it.mkarr(x)
    if isinstance(x, Arr):
        return Arr.new([tck.at(it, e, ext) for e in x.elems()], x.shape, 'f')
    r = tck.at(it, x, ext)
    return Arr.new([r], (), 'f')


def splrep(it, a, k):
    xs = it.asarr(a[0])
    ys = it.asarr(a[1])
    deg = k.get('k', a[5] if len(a) > 5 else 3)
    deg = it.as_int(deg)
    s = k.get('s', None)
    if s is not None:
        s = it.to_repr(s)
    if not 1 <= deg <= 5:
        it.throw(TypeError, "Given degree of the spline (k=%d) is not supported. (1<=k<=5)" % deg)
    if xs.ndim != 1 or ys.ndim != 1 or xs.size != ys.size:
        it.throw(TypeError, "Lengths of the first three arguments (x,y,w) must be equal")
    if xs.size <= deg:
        it.throw(TypeError, "m > k must hold")
    if ys.dtype == 'c':
        it.event('complexcast', None)
    ex = xs.elems()
    if len(ex) <= 64:
        pairs = list(zip(ex, ex[1:]))
    else:
        pairs = list(zip(ex[:4], ex[1:5])) + [(ex[0], ex[-1])]
    for p, q in pairs:
        t = it.truth(it.cmpnum('>=', p, q))
        if t is True:
            it.throw(ValueError, "Error on input data")
    ey = [it.tonum(e) if not isinstance(e, Phi) else e for e in ys.elems()]
    if any(isinstance(e, Phi) for e in ey + ex):
        raise Gap("spline through gated values")
    if any(e.special == 'nan' for e in ey):
        it.throw(ValueError, "array must not contain infs or NaNs")
    ey = [Num(it.nfre(e.nf), 'f', True) if e.kind == 'c' else e for e in ey]
    return Spline(deg, [it.tonum(e) for e in ex], ey, s)


def install(it):
    ns = {k: fnum(Fraction(v)) for k, v in CONST.items()}
    ns['pi'] = Num(it.w.space.const('pi', 3.141592653589793), 'f')
    const = Module('scipy.constants', ns)
    const.external = True
    ns['physical_constants'] = Unknown('physical_constants')

    def f_interp1d(it, a, k):
        names = ['x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted']
        p = dict(zip(names, a))
        p.update(k)
        kind = p.get('kind', 'linear')
        if isinstance(kind, Num) and kind.kind == 'i':
            kind = int(kind.const())
        if isinstance(kind, (Unknown, Phi)):
            raise Gap("interp1d kind")
        order = None
        if isinstance(kind, bool):
            it.throw(NotImplementedError, "%s is unsupported" % kind)
        if isinstance(kind, str):
            if kind in ('zero', 'slinear', 'quadratic', 'cubic'):
                order = {'zero': 0, 'slinear': 1, 'quadratic': 2, 'cubic': 3}[kind]
                kd = 'spline'
            elif kind == 'linear':
                order, kd = 1, 'linear'
            elif kind in ('nearest', 'nearest-up', 'previous', 'next'):
                order, kd = 0, kind
            else:
                it.throw(NotImplementedError, "%s is unsupported: Use fitpack routines" % kind)
        elif isinstance(kind, int):
            order, kd = kind, 'spline'
            if order < 0:
                it.throw(ValueError, "Expect non-negative k.")
        else:
            it.throw(NotImplementedError, "%s is unsupported: Use fitpack routines" % it.typename(kind))
        fv = p.get('fill_value')
        if isinstance(fv, Num) and fv.special == 'nan':
            fv = None
        return Interp1d(it, it.asarr(p['x']), it.asarr(p['y']), order, p.get('bounds_error'), fv, kd,
                        it.truth(p.get('assume_sorted', False)) is True)

    def f_univ(it, a, k):
        kk = dict(k)
        if len(a) > 2:
            raise Gap("UnivariateSpline arguments")
        if kk.get('s') is None:
            kk['s'] = 'smoothing'
        return splrep(it, a, kk)
    interp = Module('scipy.interpolate', {
        'interp1d': ExtFunc('interp1d', f_interp1d),
        'splrep': ExtFunc('splrep', splrep),
        'splev': ExtFunc('splev', splev),
        'UnivariateSpline': ExtFunc('UnivariateSpline', f_univ),
        'InterpolatedUnivariateSpline': ExtFunc('InterpolatedUnivariateSpline',
                                                lambda it, a, k: splrep(it, a, dict(k, s=0))),
        'make_interp_spline': ExtFunc('make_interp_spline', lambda it, a, k: f_interp1d(
            it, a[:2], {'kind': k.get('k', a[2] if len(a) > 2 else 3), 'fill_value': 'extrapolate'}))})
    interp.external = True
    sp = Module('scipy', {'constants': const, 'interpolate': interp})
    sp.external = True
    return {'scipy': sp, 'scipy.constants': const, 'scipy.interpolate': interp}
