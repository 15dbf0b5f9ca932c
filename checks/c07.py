"""C07 definitions yield the data that was given"""
import itertools
from .kit import *
from .c06 import elems

EXPLAIN = ("value numbering: each constructor keyword is analysed with symbolic data in every quantity/unit and the evaluated "
           "result compared with the given data; exclusivity, types and shapes of the arguments must lead to an exception")


def ev(sc, m, fn, vals, u, f='array'):
    return sc.ok(fn, lambda: sc.meth(m, fn, spectrum(sc, vals, u, f)))


def check(chk):
    chk.rule('fixed', "the result is the fixed value at every spectral value; unspecified imaginary parts are 0")
    chk.rule('table', "at nodes the table cells, between nodes the linear (order 1) or spline of the requested order through all cells")
    chk.rule('alpha', "k = alpha*lambda/(4 pi) with alpha in 1/cm")
    chk.rule('refused', "none, several, wrongly typed or wrongly shaped sources raise")

    def fixed(sc):
        er = sc.sym('er', sign=None)
        quad = {(a, b): cplx(sc, sc.sym('qr' + a, sign=a, scale=float(a + '1')), sc.sym('qi' + b, sign=b, scale=float(b + '1')))
                for a in '+-' for b in '+-'}
        n = sc.sym('n')
        for np_, sg in [(k, q) for k in (False, True) for q in quad]:
            nk = e = quad[sg]
            for label, kw, fn, want in (
                    ('fixed_n', dict(fixed_n=Num(n.nf, 'f', np_)), 'get_nk_data', Num(n.nf, 'c')),
                    ('fixed_nk', dict(fixed_nk=Num(nk.nf, 'c', np_)), 'get_nk_data', nk),
                    ('fixed_eps_r', dict(fixed_eps_r=Num(er.nf, 'f', np_)), 'get_permittivity', Num(er.nf, 'c')),
                    ('fixed_eps', dict(fixed_eps=Num(e.nf, 'c', np_)), 'get_permittivity', e)):
                for u in UNITS:
                    m = material(sc, label, **kw)
                    x = source(sc, u, 3)
                    sc.eq('%s array in %s' % (label, u[1]), ev(sc, m, fn, x, u), [want] * 3)
                    sc.eq('%s float in %s' % (label, u[1]), ev(sc, m, fn, x, u, 'float'), want)
                m = material(sc, label, spectrum_type='energy', unit='ev', **kw)
                z, inf = sc.num(0.0), Num(None, 'f', False, 'inf')
                sc.eq(label + ' at the limits', ev(sc, m, fn, [z, inf], M), [want] * 2)
        for v in (0.0, 1.0, 2.25):
            m = material(sc, fixed_n=sc.num(v))
            sc.eq('fixed_n=%g' % v, ev(sc, m, 'get_nk_data', [sc.num(1.0)], UM), [Num(sc.num(v).nf, 'c')])
            m = material(sc, fixed_eps_r=sc.num(v))
            sc.eq('fixed_eps_r=%g' % v, ev(sc, m, 'get_permittivity', [sc.num(1.0)], UM), [Num(sc.num(v).nf, 'c')])
        # values that programs like to treat specially
        for re, im in itertools.product((0.0, 1.0, -1.0, 2.25), repeat=2):
            v = cplx(sc, sc.num(re), sc.num(im))
            for np_ in (False, True):
                m = material(sc, fixed_nk=Num(v.nf, 'c', np_))
                sc.eq('fixed_nk=%g%+gj' % (re, im), ev(sc, m, 'get_nk_data', [sc.num(1.0), sc.num(2.0)], UM), [Num(v.nf, 'c')] * 2)
                m = material(sc, fixed_eps=Num(v.nf, 'c', np_))
                sc.eq('fixed_eps=%g%+gj' % (re, im), ev(sc, m, 'get_permittivity', [sc.num(1.0), sc.num(2.0)], UM), [Num(v.nf, 'c')] * 2)
    chk.scenario("fixed values", fixed)

    def cells(sc):
        """zero, negative and coinciding cells of tables"""
        xs = [sc.num(v) for v in (400.0, 500.0, 700.0)]
        for a in ((0.0, 0.0, 0.0), (0.0, 1.5, 0.0), (1.0, 1.0, 1.0), (-2.0, 0.0, 3.0), (2.0, 2.0, -1.0)):
            for b in ((0.0, 0.0, 0.0), (0.5, 0.0, 0.0), (0.0, 0.0, 0.25), (-1.0, 0.0, 1.0)):
                ca, cb = [sc.num(v) for v in a], [sc.num(v) for v in b]
                for k, fn in (('tabulated_n', 'get_nk_data'), ('tabulated_nk', 'get_nk_data'), ('tabulated_eps', 'get_permittivity')):
                    m = material(sc, k, spectrum_type='wavelength', unit='nm', **{k: table(sc, xs, *((ca,) if k[-1] == 'n' else (ca, cb)))})
                    w = [cplx(sc, p, q if k[-1] != 'n' else sc.num(0.0)) for p, q in zip(ca, cb)]
                    sc.eq('%s with cells %s %s' % (k, a, b), ev(sc, m, fn, xs, NM), w)
                    mid = Num((w[0].nf + w[1].nf) * NF.num(Fraction(1, 2)), 'c')
                    sc.eq('%s between cells %s %s' % (k, a, b), ev(sc, m, fn, [sc.num(450.0)], NM, 'float'), mid)
    chk.scenario("particular cells", cells)

    pi4 = lambda sc: NF.num(4) * pi(sc)
    for u in UNITS:
        def tabs(sc, u=u):
            n = 4
            g = points(sc, 'g', n, u)
            xs = g[1::2]
            re, im = column(sc, 'a', n), column(sc, 'b', n, sign=None)
            zero = [sc.num(0.0)] * n

            def alpha(i):
                l = NF.num(100) * lam(sc, xs[i].nf, u)          # cm
                return Num(im[i].nf * l / pi4(sc), 'f')
            kk = [alpha(i) for i in range(n)]
            for label, kw, fn, cols in (
                    ('tabulated_n', dict(tabulated_n=table(sc, xs, re)), 'get_nk_data', (re, zero)),
                    ('tabulated_nk', dict(tabulated_nk=table(sc, xs, re, im)), 'get_nk_data', (re, im)),
                    ('tabulated_eps', dict(tabulated_eps=table(sc, xs, re, im)), 'get_permittivity', (re, im)),
                    ('tabulated_n_alpha', dict(tabulated_n_alpha=table(sc, xs, re, im)), 'get_nk_data', (re, kk))):
                for names in ((u[0], ALIASES[u[1]][0]), (u[0].upper(), ALIASES[u[1]][-1].upper())):
                    m = material(sc, label, spectrum_type=names[0], unit=names[1], **kw)
                    want = [cplx(sc, a, b) for a, b in zip(*cols)]
                    for ru in {u, UM, EV}:
                        sc.eq('%s nodes of %s requested in %s' % (label, names[1], ru[1]),
                              ev(sc, m, fn, inunit(sc, xs, u, ru), ru), want)
                    mid = [cplx(sc, lerp(sc, g[2 * i + 2], xs[i], xs[i + 1], cols[0][i], cols[0][i + 1]),
                                lerp(sc, g[2 * i + 2], xs[i], xs[i + 1], cols[1][i], cols[1][i + 1])) for i in range(n - 1)]
                    sc.eq('%s between nodes of %s' % (label, names[1]), ev(sc, m, fn, g[2:-1:2], u), mid)
                    sc.eq('%s float between nodes of %s' % (label, names[1]), ev(sc, m, fn, [g[4]], u, 'float'), mid[1])
                # interpolation orders
                for order in (1, 2, 3):
                    m = material(sc, label, spectrum_type=u[0], unit=u[1], interp_order=order, **kw)
                    sc.eq('%s nodes with order %d' % (label, order), ev(sc, m, fn, xs, u), [cplx(sc, a, b) for a, b in zip(*cols)])
                    r = elems(ev(sc, m, fn, [g[4]], u))[0]
                    if order == 1:
                        sc.eq('%s between nodes with order 1' % label, r, mid[1])
                    else:
                        w = []
                        for c in cols:
                            if c is zero:
                                w.append(sc.num(0.0))
                            else:
                                w.append(Num(sc.w.space.fn('curve', ('spline', order, tuple(v.nf for v in xs),
                                                                     tuple(v.nf for v in c), g[4].nf), real=True,
                                                           uninterpreted=True), 'f'))
                        sc.eq('%s between nodes with order %d' % (label, order), r, cplx(sc, *w))
        chk.scenario("tables in %s/%s" % u, tabs, limit=60)

    for u in (NM, EV):
        for n in (2, 3, 4, 5, 6, 7):
            def orders(sc, u=u, n=n):
                g = points(sc, 'g', n, u)
                xs = g[1::2]
                re, im = column(sc, 'a', n), column(sc, 'b', n)
                for label, fn in (('tabulated_n', 'get_nk_data'), ('tabulated_nk', 'get_nk_data'), ('tabulated_eps', 'get_permittivity')):
                    for order in range(1, min(n, 6)):
                        cols = (re,) if label == 'tabulated_n' else (re, im)
                        m = material(sc, label, spectrum_type=u[0], unit=u[1], interp_order=order, **{label: table(sc, xs, *cols)})
                        full = [c for c in cols] + [[sc.num(0.0)] * n] * (2 - len(cols))
                        sc.eq('%s: nodes, order %d' % (label, order), ev(sc, m, fn, xs, u), [cplx(sc, a, b) for a, b in zip(*full)])
                        for x in (g[2], g[-3]):
                            j = 0 if x is g[2] else n - 2
                            w = [sc.num(0.0) if i >= len(cols) else lerp(sc, x, xs[j], xs[j + 1], c[j], c[j + 1]) if order == 1 else
                                 Num(sc.w.space.fn('curve', ('spline', order, tuple(v.nf for v in xs), tuple(v.nf for v in c), x.nf), real=True,
                                                   uninterpreted=True), 'f') for i, c in enumerate(full)]
                            sc.eq('%s: between nodes, order %d' % (label, order), elems(ev(sc, m, fn, [x], u))[0], cplx(sc, *w))
            chk.scenario("interpolation orders over %d rows in %s" % (n, u[1]), orders, limit=60)

    for n in chk.sizes():
        def rows_(sc, n=n):
            g = longgrid(sc, n, NM)
            xs = g[1::2]
            re, im = longcolumn(sc, 'a', n), longcolumn(sc, 'b', n, 5)
            for k, cols, fn in (('tabulated_n', (re,), 'get_nk_data'), ('tabulated_nk', (re, im), 'get_nk_data'),
                                ('tabulated_eps', (re, im), 'get_permittivity')):
                m = material(sc, k, spectrum_type='wavelength', unit='nm', **{k: table(sc, xs, *cols)})
                z = [sc.num(0.0)] * n
                c = (re, im if len(cols) > 1 else z)
                sc.eq('%s nodes of %d rows' % (k, n), ev(sc, m, fn, xs, NM), [cplx(sc, a, b) for a, b in zip(*c)])
                at_ = range(n - 1) if n < 60 else sorted({0, 1, n // 3, n // 2, n - 3, n - 2} | set(range(7, n - 1, max(n // 50, 1))))
                sc.eq('%s between nodes of %d rows' % (k, n), ev(sc, m, fn, [g[2 * i + 2] for i in at_], NM),
                      [cplx(sc, *(lerp(sc, g[2 * i + 2], xs[i], xs[i + 1], q[i], q[i + 1]) for q in c)) for i in at_])
                r = sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range'))
                sc.eq('%s range of %d rows' % (k, n), r, [xs[0], xs[-1]])
        chk.scenario("tables of %d rows" % n, rows_, limit=120)

    def orders(sc):
        """rows in any order: the curve is the one through the points"""
        for u in (NM, EV):
            for perm in itertools.permutations(range(3)):
                g = points(sc, 'g', 3, u)
                xs = g[1::2]
                re, im = column(sc, 'a', 3), column(sc, 'b', 3, sign=None)
                p = lambda c: [c[i] for i in perm]
                for k, fn, cols in (('tabulated_n', 'get_nk_data', (re,)), ('tabulated_nk', 'get_nk_data', (re, im)),
                                    ('tabulated_eps', 'get_permittivity', (re, im))):
                    m = material(sc, k, spectrum_type=u[0], unit=u[1], **{k: table(sc, p(xs), *[p(c) for c in cols])})
                    c = (re, im if len(cols) > 1 else [sc.num(0.0)] * 3)
                    lab = '%s rows in order %s' % (k, perm)
                    sc.eq(lab, ev(sc, m, fn, xs, u), [cplx(sc, a, b) for a, b in zip(*c)])
                    sc.eq(lab + ', between', ev(sc, m, fn, [g[2], g[4]], u), [cplx(sc, *(lerp(
                        sc, g[2 * i + 2], xs[i], xs[i + 1], q[i], q[i + 1]) for q in c)) for i in (0, 1)])
                    sc.eq(lab + ', range', sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), [xs[0], xs[2]])
    chk.scenario("rows in any order", orders, limit=60)

    def one_row(sc):
        for u in (NM, EV):
            x = source(sc, u, 1)
            a, b = column(sc, 'a', 1), column(sc, 'b', 1)
            for label, kw, fn, want in (
                    ('tabulated_n', dict(tabulated_n=table(sc, x, a)), 'get_nk_data', cplx(sc, a[0], sc.num(0.0))),
                    ('tabulated_nk', dict(tabulated_nk=table(sc, x, a, b)), 'get_nk_data', cplx(sc, a[0], b[0])),
                    ('tabulated_eps', dict(tabulated_eps=table(sc, x, a, b)), 'get_permittivity', cplx(sc, a[0], b[0]))):
                m = material(sc, label, spectrum_type=u[0], unit=u[1], **kw)
                sc.eq('one row %s in %s' % (label, u[1]), ev(sc, m, fn, x, u), [want])
    chk.scenario("one-row tables", one_row)

    def default_unit(sc):
        # no quantity/unit given: wavelength in nanometres
        x = source(sc, NM, 2)
        a = column(sc, 'a', 2)
        m = material(sc, tabulated_n=table(sc, x, a))
        sc.eq('default unit', ev(sc, m, 'get_nk_data', inunit(sc, x, NM, EV), EV), [Num(v.nf, 'c') for v in a])
        m = material(sc, tabulated_n=table(sc, x, a), spectrum_type=None, unit=None, interp_order=None)
        sc.eq('None means default', ev(sc, m, 'get_nk_data', x, NM), [Num(v.nf, 'c') for v in a])
        m = material(sc, tabulated_n=table(sc, x, a), fixed_n=None, file_path=None, model_kw=None)
        sc.eq('None sources are absent', ev(sc, m, 'get_nk_data', x, NM), [Num(v.nf, 'c') for v in a])
    chk.scenario("defaults", default_unit)

    for name, (ar, u, out) in MODELS.items():
        if out not in ('n', 'eps'):
            continue

        def mod(sc, name=name, u=u, out=out):
            g = points(sc, 'g', 2, u)
            p = params(sc, name)
            for sp in ((u[0], u[1]), (u[0].upper(), ALIASES[u[1]][-1])):
                kwd = {'name': name, 'spectrum_type': sp[0], 'unit': sp[1], 'valid_range': sc.arr([g[1], g[3]], 'f'),
                       'parameters': sc.arr(p, 'f')}
                m = material(sc, name, model_kw=kwd)
                d = model(sc, name, (g[1], g[3]), p=p)
                for ru in (u, NM):
                    s = spectrum(sc, inunit(sc, [g[2], g[3]], u, ru), ru)
                    want = elems(sc.ok('model', lambda: sc.meth(d, 'evaluate', s)))
                    got = sc.ok('material', lambda: sc.meth(m, 'get_nk_data' if out == 'n' else 'get_permittivity', s))
                    sc.eq('%s as material in %s' % (name, ru[1]), got, [Num(scalarize(v).nf, 'c') for v in want])
                df = sc.attr(m, 'defaults')
                x = sc.call(sc.pub('Spectrum'), sc.num(1.0), df['spectrum_type'], df['unit'])
                sc.eq(name + ' default quantity', sc.attr(x, 'spectrum_type'), u[0])
                sc.eq(name + ' default unit', sc.attr(x, 'unit'), u[1])
            # a unit of the material itself does not matter, the model's own counts
            kwd = {'name': name, 'spectrum_type': u[0], 'unit': u[1], 'valid_range': [g[1], g[3]], 'parameters': sc.arr(p, 'f')}
            m = material(sc, name, model_kw=kwd, spectrum_type='frequency', unit='hz')
            s = spectrum(sc, [g[2]], u)
            got = sc.ok('material', lambda: sc.meth(m, 'get_nk_data' if out == 'n' else 'get_permittivity', s))
            want = elems(sc.ok('model', lambda: sc.meth(d, 'evaluate', s)))
            sc.eq(name + ' with other material unit', got, [Num(scalarize(v).nf, 'c') for v in want])
        chk.scenario("model %s" % name, mod)

    def refuse(sc):
        MM = sc.pub('Material')
        x = source(sc, NM, 3)
        a, b, c = column(sc, 'a', 3), column(sc, 'b', 3), column(sc, 'c', 3)
        u = MODELS['Cauchy'][1]
        g = source(sc, u, 2, 'r')
        src = {'fixed_n': sc.num(1.5), 'fixed_nk': sc.sym('z', real=False), 'fixed_eps_r': sc.num(2.0),
               'fixed_eps': sc.sym('w', real=False), 'tabulated_n': table(sc, x, a), 'tabulated_nk': table(sc, x, a, b),
               'tabulated_eps': table(sc, x, a, b), 'tabulated_n_alpha': table(sc, x, a, b),
               'model_kw': {'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um',
                            'valid_range': sc.arr(g, 'f'), 'parameters': sc.arr(params(sc, 'Cauchy'), 'f')},
               'file_path': '/nowhere/x.txt'}
        EXC = (Exception,)
        sc.raises('no source', lambda: sc.call(MM), EXC)
        sc.raises('only a unit', lambda: sc.call(MM, spectrum_type='wavelength', unit='nm'), EXC)
        sc.raises('None sources only', lambda: sc.call(MM, fixed_n=None, tabulated_nk=None), EXC)
        ks = list(src)
        for i, k in enumerate(ks):
            for l in ks[i + 1:]:
                sc.raises('%s and %s' % (k, l), lambda: sc.call(MM, **{k: src[k], l: src[l]}), EXC)
                sc.raises('%s and %s' % (l, k), lambda: sc.call(MM, **{l: src[l], k: src[k]}), EXC)
        wrong = {
            'fixed_n': ['1.5', sc.sym('zz', real=False), sc.arr([sc.num(1.5)], 'f'), {}, [sc.num(1.5)]],
            'fixed_nk': ['1+1j', sc.arr([sc.num(1.5)], 'f'), {}, [sc.num(1.5)]],
            'fixed_eps_r': ['2', sc.sym('zz', real=False), sc.arr([sc.num(1.5)], 'f'), {}],
            'fixed_eps': ['2', sc.arr([sc.num(1.5)], 'f'), {}],
            'model_kw': ['Cauchy', [sc.num(1.0)], sc.num(1.0), sc.arr([sc.num(1.0)], 'f')],
            'file_path': [sc.num(1.0), {}, ['a.txt']]}
        for k in ('tabulated_n', 'tabulated_nk', 'tabulated_eps', 'tabulated_n_alpha'):
            wrong[k] = [[[sc.num(1.0), sc.num(1.0), sc.num(1.0)]], 'table', {}, sc.num(1.0)]
        for k, vs in wrong.items():
            for i, v in enumerate(vs):
                sc.raises('%s of wrong type %d (%s)' % (k, i, sc.it.typename(v)), lambda: sc.call(MM, **{k: v}), EXC)
        for k, bad in (('unit', sc.num(3)), ('spectrum_type', sc.num(3)), ('interp_order', 'cubic'), ('interp_order', sc.num(1.5))):
            sc.raises('%s of wrong type' % k, lambda: sc.call(MM, tabulated_n=src['tabulated_n'], **{k: bad}), EXC)
        shapes = {1: table(sc, x), 2: table(sc, x, a), 3: table(sc, x, a, b), 4: table(sc, x, a, b, c)}
        flat = sc.arr(list(x), 'f')
        cube = Arr.new(list(x) * 4, (2, 2, 3), 'f')
        for k, good in (('tabulated_n', 2), ('tabulated_nk', 3), ('tabulated_eps', 3), ('tabulated_n_alpha', 3)):
            for nc, t in shapes.items():
                if nc != good:
                    sc.raises('%s with %d columns' % (k, nc), lambda: sc.call(MM, **{k: t}), EXC)
            sc.raises('%s flat' % k, lambda: sc.call(MM, **{k: flat}), EXC)
            sc.raises('%s three-dimensional' % k, lambda: sc.call(MM, **{k: cube}), EXC)
        for bad in ('NoSuchModel', 'np', 'Spectrum', 'SpectralData'):
            kw = dict(src['model_kw'])
            kw['name'] = bad
            sc.raises('model %s' % bad, lambda: sc.call(MM, model_kw=kw), EXC)
    chk.scenario("refused definitions", refuse)
