"""C11 extrapolation extends, never alters"""
from .kit import *
from .c06 import elems
from .c08 import ref

EXPLAIN = ("value numbering of evaluations before and after extrapolate: inside the known range equal terms; beyond it the term must "
           "be the spline of the requested order whose knots lie on the original data (own quantity and unit) evaluated at the "
           "converted request; order facts decide refusal beyond the new bound, inside the known range, for more than two values")
ASSUMES = ["which curve splrep/splev compute for given knots and order is scipy's contract"]


def splines(sc, v):
    v = scalarize(v)
    if not isinstance(v, Num) or v.special:
        return None
    return [a for a in v.nf.atoms() if a.kind == 'fn' and a.fname in ('spline', 'curve')]


def inside(vals, lo, hi):
    return all(l.real * (1 - 1e-9) <= q.real <= h.real * (1 + 1e-9) for q, l, h in zip(vals, lo.nf.vals(), hi.nf.vals()))


def same(a, b, tol=1e-9):
    return all(abs(x - y) <= tol * (abs(y) + 1e-300) for x, y in zip(a, b))


def judge(sc, label, got, x, lo, hi, base, order):
    """got: evaluation at x (native NF), known range [lo, hi], base(k, xv) -> value of the original data at sample k"""
    got = scalarize(got)
    if not isinstance(got, Num) or got.special:
        return sc.true(label, None if not isinstance(got, Num) else False, "value %s" % txt(got))
    sp = splines(sc, got)
    if not sp:
        if order == 1:
            return sc.true(label, None, "no spline term")
        return sc.true(label, False, "%s is not a spline of order %d through the data" % (txt(got), order))
    if len(sp) > 1 or not NFM.equal(got.nf, NF.atom(sp[0])):
        return sc.true(label, None, "spline combined with other terms: %s" % txt(got))
    a = sp[0]
    if a.fname == 'curve':
        kind, k, xs, ys, at = a.args
        if kind not in ('spline', 'linear'):
            return sc.true(label, False, "%s interpolation beyond the range" % kind)
    else:
        k, s, ext, xs, ys, at = a.args
        if str(s) not in ('None', '0', '0.0'):
            return sc.true(label, False, "spline with smoothing %s does not pass through the data" % (s,))
        if ext not in (0, None):
            return sc.true(label, False, "splev(ext=%s) does not continue the spline" % (ext,))
    if k != order:
        return sc.true(label, False, "spline order %s, requested %d" % (k, order))
    if not NFM.equal(at, x):
        return sc.true(label, False, "spline evaluated at %s, expected %s" % (at.text(), x.text()))
    if not same(xs[0].vals(), lo.nf.vals()) or not same(xs[-1].vals(), hi.nf.vals()):
        return sc.true(label, False, "knots run from %s to %s, known range is %s to %s" % (
            xs[0].text(), xs[-1].text(), lo.nf.text(), hi.nf.text()))
    n = len(xs)
    for i in range(n):
        if n > 40 and 6 < i < n - 6 and i % 29:
            continue
        if not inside(xs[i].vals(), lo, hi):
            return sc.true(label, False, "knot %d lies outside the known range" % i)
        want = [base(j, q.real) for j, q in enumerate(xs[i].vals())]
        if None not in want and not same(ys[i].vals(), want, 1e-7):
            return sc.true(label, False, "spline knot %d is %s, original data gives another value there" % (i, ys[i].text()[:120]))
    return sc.true(label, True)


def lin(xs, ys):
    def f(k, x):
        X = [q.nf.vals()[k].real for q in xs]
        Y = [q.nf.vals()[k].real for q in ys]
        for i in range(len(X) - 1):
            if x <= X[i + 1] * (1 + 1e-12) or i == len(X) - 2:
                return Y[i] + (x - X[i]) / (X[i + 1] - X[i]) * (Y[i + 1] - Y[i])
    return f


def check(chk):
    chk.rule('inside', "value number after extrapolate == value number before, for every request inside the known range")
    chk.rule('beyond', "spline(order, knots on the original data from bound to bound, argument = request in the data's unit)")
    chk.rule('refuse', "requests ordered beyond the new bound raise; unusable extrapolate calls raise and change nothing")

    def build(sc, kind, u, g):
        xs = g[3:10:2]
        ca, cb = column(sc, 'a', len(xs)), column(sc, 'b', len(xs))
        m = material(sc, kind, spectrum_type=u[0], unit=u[1],
                     **{kind: table(sc, xs, *([ca] if kind == 'tabulated_n' else [ca, cb]))})
        return m, xs, ca, cb

    def table_(sc, kind, u, side, q, order, fform):
        # g: 0 | 1 2 | 3 (lo) .. 9 (hi) | 10 11 | 12
        g = sc.w.grid('g', 13, SCALE[u[1]], np=False)
        m, xs, ca, cb = build(sc, kind, u, g)
        lo, hi = xs[0], xs[-1]
        bound = {'upper': [g[11]], 'lower': [g[1]], 'both': [g[1], g[11]], 'swapped': [g[11], g[1]]}[side]
        vals = inunit(sc, bound, u, q)
        if fform == 'float' and len(vals) > 1:
            fform = 'array'
        s = spectrum(sc, vals, q, fform)
        probes = [spectrum(sc, [lo, g[4], hi], u), spectrum(sc, [g[6]], u, 'float'),
                  spectrum(sc, inunit(sc, [g[8], g[5]], u, UM if u != UM else EV), UM if u != UM else EV)]
        before = [[sc.ok('before', lambda: sc.meth(m, f, p)) for p in probes] for f in ('get_nk_data', 'get_permittivity')]
        kw = {} if order is None else {'spline_order': order}
        sc.ok('extrapolate', lambda: sc.meth(m, 'extrapolate', s, **kw))
        after = [[sc.ok('after', lambda: sc.meth(m, f, p)) for p in probes] for f in ('get_nk_data', 'get_permittivity')]
        for i, (ra, rb) in enumerate(zip(before, after)):
            for j, (a, b) in enumerate(zip(ra, rb)):
                sc.eq('known range query %d/%d unchanged' % (i, j), b, a)
        order = 2 if order is None else order
        data = sc.attr(m, 'data')
        new_lo = g[1] if side != 'upper' else lo
        new_hi = g[11] if side != 'lower' else hi
        r = sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range'))
        sc.eq('new valid range', r, [new_lo, new_hi])
        outs = ([g[1], g[2]] if side != 'upper' else []) + ([g[10], g[11]] if side != 'lower' else [])
        for part, col in (('real', ca), ('imag', cb)):
            if part == 'imag' and kind == 'tabulated_n':
                continue
            if part == 'imag' and kind == 'tabulated_n_alpha':
                continue
            b = lin(xs, col)
            for x in outs:
                for qu in {u, q}:
                    v = inunit(sc, [x], u, qu)
                    for f in ('float', 'array'):
                        e = sc.ok('evaluate', lambda: sc.meth(data[part], 'evaluate', spectrum(sc, v, qu, f)))
                        judge(sc, '%s at %s in %s, %s' % (part, x.text(), qu[1], f), elems(e)[0], x.nf, lo, hi, b, order)
            e = sc.ok('evaluate', lambda: sc.meth(data[part], 'evaluate', spectrum(sc, [g[6]] + outs, u)))
            for k, x in enumerate(outs):
                judge(sc, '%s mixed %d' % (part, k), elems(e)[k + 1], x.nf, lo, hi, b, order)
        # nk is composed of the extrapolated parts
        if kind == 'tabulated_nk':
            s1 = spectrum(sc, outs, u)
            nk = sc.ok('nk', lambda: sc.meth(m, 'get_nk_data', s1))
            re = sc.ok('re', lambda: sc.meth(data['real'], 'evaluate', s1))
            im = sc.ok('im', lambda: sc.meth(data['imag'], 'evaluate', s1))
            sc.eq('index beyond the range', elems(nk), [cplx(sc, a, b) for a, b in zip(elems(re), elems(im))])
        # beyond
        for x in ([g[0]] + ([g[2]] if side == 'upper' else []), [g[12]] + ([g[10]] if side == 'lower' else [])):
            for y in x:
                for qu in (u, q):
                    for vals in ([y], [g[5], y]):
                        p = spectrum(sc, inunit(sc, vals, u, qu), qu, 'float' if len(vals) == 1 else 'array')
                        for fn in ('get_nk_data', 'get_permittivity'):
                            sc.raises('%s beyond the bound at %s' % (fn, y.text()), lambda: sc.meth(m, fn, p))

    n = 0
    for kind in ('tabulated_n', 'tabulated_nk', 'tabulated_eps', 'tabulated_n_alpha'):
        for u in (NM, EV, UM):
            for q in (NM, EV, ('frequency', 'hz')):
                for side in ('upper', 'lower', 'both', 'swapped'):
                    for order in (None, 1, 2, 3, 4, 5):
                        n += 1
                        if not chk.thorough and n % 13 and not (kind == 'tabulated_nk' and u == NM and order == 3) and not (kind == 'tabulated_n' and u == q == NM and side == 'both' and order in (4, 5)):
                            continue
                        f = ('float', 'list', 'array')[n % 3]
                        chk.scenario("%s in %s extrapolated %s in %s, order %s, %s" % (kind, u[1], side, q[1], order, f),
                                     lambda sc, a=(kind, u, side, q, order, f): table_(sc, *a), limit=40)

    # integer table, one-row-per-unit etc.: bounds must not be truncated
    def ints(sc):
        t = sc.arr([[sc.num(400), sc.num(1)], [sc.num(700), sc.num(2)], [sc.num(1000), sc.num(4)]], 'i')
        m = material(sc, 'n', spectrum_type='wavelength', unit='nm', tabulated_n=t)
        sc.ok('extrapolate', lambda: sc.meth(m, 'extrapolate', spectrum(sc, [sc.num(399.5), sc.num(1000.5)], NM)))
        sc.eq('range', sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), [sc.num(399.5), sc.num(1000.5)])
        for v in (399.6, 1000.4):
            sc.ok('inside new bound %s' % v, lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [sc.num(v)], NM)))
        for v in (399.4, 1000.6):
            sc.raises('beyond new bound %s' % v, lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [sc.num(v)], NM)))
    chk.scenario("integer table", ints)

    # models
    for name in ('Sellmeier', 'Cauchy', 'Gases'):
        for desc in (False, True):
            def mod(sc, name=name, desc=desc):
                nat = MODELS[name][1]
                g = sc.w.grid('g', 7, SCALE[nat[1]], np=False)
                lo, hi = g[2], g[4]
                p = params(sc, name)
                kw = {'name': name, 'spectrum_type': nat[0], 'unit': nat[1],
                      'valid_range': sc.arr([hi, lo] if desc else [lo, hi], 'f'), 'parameters': sc.arr(p, 'f')}
                m = material(sc, name, model_kw=kw)
                pr = spectrum(sc, [lo, g[3], hi], nat)
                a = sc.ok('before', lambda: sc.meth(m, 'get_nk_data', pr))
                sc.ok('extrapolate', lambda: sc.meth(m, 'extrapolate', spectrum(sc, inunit(sc, [g[1], g[5]], nat, NM), NM), spline_order=3))
                b = sc.ok('after', lambda: sc.meth(m, 'get_nk_data', pr))
                sc.eq('known range unchanged', b, a)
                sc.eq('range', sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), [g[1], g[5]])
                d = sc.attr(m, 'data')['real']
                for x in (g[1], g[5]):
                    e = sc.ok('evaluate', lambda: sc.meth(d, 'evaluate', spectrum(sc, [x], nat)))
                    judge(sc, 'model beyond', elems(e)[0], x.nf, lo, hi, lambda k, v: None, 3)
                for x in (g[0], g[6]):
                    sc.raises('beyond the bound', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [x], nat)))
            chk.scenario("model %s, range given %s" % (name, 'descending' if desc else 'ascending'), mod, limit=60)

    # refusals
    def refuse(sc, u, q):
        g = sc.w.grid('g', 13, SCALE[u[1]], np=False)
        m, xs, ca, cb = build(sc, 'tabulated_nk', u, g)
        pr = spectrum(sc, [xs[0], g[6], xs[-1]], u)
        a = snap(sc.ok('before', lambda: sc.meth(m, 'get_nk_data', pr)), {})
        r0 = snap(sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), {})

        def still(label):
            v, t = snapcmp(a, snap(sc.ok('after', lambda: sc.meth(m, 'get_nk_data', pr)), {}))
            sc.true(label + ': material unchanged', v, t)
            v, t = snapcmp(r0, snap(sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), {}))
            sc.true(label + ': range unchanged', v, t)
            for x in (g[1], g[11]):
                sc.raises(label + ': still refused outside', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [x], u)))
        cases = [('inside', [g[6]]), ('at lower bound', [xs[0]]), ('at upper bound', [xs[-1]]), ('one inside one beyond', [g[6], g[11]]),
                 ('beyond then inside', [g[11], g[6]]), ('lower then inside', [g[1], g[6]]), ('both inside', [g[5], g[6]]),
                 ('three values', [g[1], g[11], g[12]]), ('three values beyond', [g[10], g[11], g[12]]),
                 ('four values', [g[0], g[1], g[11], g[12]])]
        for label, vals in cases:
            if label.startswith('at ') and u != q:
                continue    # equality up to rounding
            for f in (('float', 'array') if len(vals) == 1 else ('list', 'array')):
                s = spectrum(sc, inunit(sc, vals, u, q), q, f)
                sc.raises('%s (%s)' % (label, f), lambda: sc.meth(m, 'extrapolate', s))
                still('%s (%s)' % (label, f))
    for u, q in ((NM, NM), (NM, EV), (EV, UM)):
        chk.scenario("refused requests %s/%s" % (u[1], q[1]), lambda sc, u=u, q=q: refuse(sc, u, q), limit=90)

    # one part can be extended, the other not: nothing changes
    def atomic(sc, first):
        g = sc.w.grid('g', 9, 700.0, np=False)
        m = material(sc, fixed_n=sc.num(1.5), spectrum_type='wavelength', unit='nm')
        d = sc.attr(m, 'data')
        wide = lambda t: sc.ok('part', lambda: sc.call('spectral_data.Interpolation', table(sc, [g[1], g[7]], column(sc, t, 2)),
                                                      spectrum_type='wavelength', unit='nm'))
        slim = lambda t: sc.ok('part', lambda: sc.call('spectral_data.Interpolation', table(sc, [g[2], g[5]], column(sc, t, 2)),
                                                      spectrum_type='wavelength', unit='nm'))
        d['real'], d['imag'] = (slim('r'), wide('i')) if first == 'real' else (wide('r'), slim('i'))
        pr = spectrum(sc, [g[3], g[4]], NM)
        a = snap(sc.ok('before', lambda: sc.meth(m, 'get_nk_data', pr)), {})
        s = spectrum(sc, [g[6]], NM, 'float')
        sc.raises('request inside the range of one part', lambda: sc.meth(m, 'extrapolate', s))
        sc.raises('still refused', lambda: sc.meth(m, 'get_nk_data', s))
        v, t = snapcmp(a, snap(sc.ok('after', lambda: sc.meth(m, 'get_nk_data', pr)), {}))
        sc.true('material unchanged', v, t)
        sc.eq('range unchanged', sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), [g[2], g[5]])
    for first in ('real', 'imag'):
        chk.scenario("parts with different ranges, %s slim" % first, lambda sc, f=first: atomic(sc, f))

    def coupled(sc):
        for name in ('Drude', 'DrudeLorentz', 'TaucLorentz'):
            g = sc.w.grid('g' + name, 5, SCALE['ev'], np=False)
            kw = {'name': name, 'spectrum_type': 'energy', 'unit': 'ev', 'valid_range': sc.arr([g[1], g[3]], 'f'),
                  'parameters': sc.arr(params(sc, name), 'f')}
            m = material(sc, name, model_kw=kw)
            a = snap(sc.ok('before', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[2]], EV))), {})
            sc.raises(name + ' refused', lambda: sc.meth(m, 'extrapolate', spectrum(sc, [g[4]], EV)), exc=(Exception,))
            v, t = snapcmp(a, snap(sc.ok('after', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[2]], EV))), {}))
            sc.true(name + ' unchanged', v, t)
            sc.raises(name + ' still refused', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[4]], EV)))
    chk.scenario("coupled parts", coupled)

    # twice: the second extension continues the already extended data
    def twice(sc):
        g = sc.w.grid('g', 13, 700.0, np=False)
        m, xs, ca, cb = build(sc, 'tabulated_n', NM, g)
        pr = spectrum(sc, [xs[0], g[6], xs[-1]], NM)
        a = sc.ok('before', lambda: sc.meth(m, 'get_nk_data', pr))
        sc.ok('first', lambda: sc.meth(m, 'extrapolate', spectrum(sc, [g[10]], NM, 'float')))
        mid = spectrum(sc, [g[10]], NM)
        e1 = sc.ok('mid', lambda: sc.meth(m, 'get_nk_data', mid))
        sc.raises('same bound again', lambda: sc.meth(m, 'extrapolate', spectrum(sc, [g[10]], NM, 'float')))
        sc.eq('after a refused second request', sc.ok('mid', lambda: sc.meth(m, 'get_nk_data', mid)), e1)
        sc.eq('range', sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), [xs[0], g[10]])
        sc.eq('known range unchanged', sc.ok('after', lambda: sc.meth(m, 'get_nk_data', pr)), a)
    chk.scenario("repeated extrapolation", twice, limit=60)

    # constants are unbounded: extending the other part leaves them
    def const(sc):
        g = sc.w.grid('g', 13, 700.0, np=False)
        m, xs, ca, cb = build(sc, 'tabulated_n', NM, g)
        sc.ok('extrapolate', lambda: sc.meth(m, 'extrapolate', spectrum(sc, [g[1], g[11]], NM)))
        e = sc.ok('nk', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[11]], NM)))
        v = scalarize(elems(e)[0])
        sc.eq('imaginary part stays zero', parts(sc, v)[1] if isinstance(v, Num) else v, sc.num(0.0))
    chk.scenario("constant part", const)
