"""C04 no evaluation outside the valid range"""
from .kit import *

EXPLAIN = ("abstract interpretation of evaluation with spectra whose values are ordered symbols inside, on and outside the "
           "bounds: every outcome for an outside value must be ValueError, no outcome for an inside one may be an exception")
LONE = ('float', 'list', 'tuple', 'array')


def data_objects(sc, g, src):
    """label -> (data object, lower, upper) with valid range (g[1], g[3]) in unit src"""
    S = 'spectral_data.'
    out = {}
    out['Constant'] = sc.ok('Constant', lambda: sc.call(S + 'Constant', sc.sym('c0'), valid_range=(g[1], g[3]),
                                                        spectrum_type=src[0], unit=src[1]))
    t = table(sc, [g[1], g[3]], column(sc, 'y', 2))
    out['Interpolation'] = sc.ok('Interpolation', lambda: sc.call(S + 'Interpolation', t, spectrum_type=src[0], unit=src[1]))
    return out


def probe(sc, label, evaluate, g, src, chk_forms, units):
    """g: five ordered symbols, range is [g1, g3]"""
    inside = [g[2], g[1], g[3]]
    for u in units:
        c = inunit(sc, g, src, u)
        gi = inunit(sc, inside, src, u)
        for f in chk_forms:
            for k, v in (('inside', gi[0]), ('lower bound', gi[1]), ('upper bound', gi[2])):
                s = spectrum(sc, [v], u, f)
                if sc.ok('%s %s %s in %s' % (label, k, f, u[1]), lambda: evaluate(s)) is not None:
                    sc.true('%s %s %s in %s accepted' % (label, k, f, u[1]), True)
            for k, v in (('below', c[0]), ('above', c[4])):
                s = spectrum(sc, [v], u, f)
                sc.raises('%s %s %s in %s' % (label, k, f, u[1]), lambda: evaluate(s))
        ok = spectrum(sc, [gi[1], gi[2], gi[0]], u)
        sc.ok('%s all inside in %s' % (label, u[1]), lambda: evaluate(ok))
        for pos in range(3):
            for k, v in (('below', c[0]), ('above', c[4])):
                vals = list(gi)
                vals[pos] = v
                for f in ('array', 'list') if u == units[0] else ('array',):
                    s = spectrum(sc, vals, u, f)
                    sc.raises('%s %s at %d (%s) in %s' % (label, k, pos, f, u[1]), lambda: evaluate(s))
        both = spectrum(sc, [c[0], c[4]], u)
        sc.raises('%s enclosing in %s' % (label, u[1]), lambda: evaluate(both))
        for k, v in (('zero', sc.num(0.0)), ('infinity', Num(None, 'f', False, 'inf'))):
            s = spectrum(sc, [v], u, 'float')
            sc.raises('%s %s in %s' % (label, k, u[1]), lambda: evaluate(s))
            s = spectrum(sc, [gi[0], v], u)
            sc.raises('%s %s among valid values in %s' % (label, k, u[1]), lambda: evaluate(s))
        nan = Num(None, 'f', True, 'nan')
        for k, v in (('below', c[0]), ('above', c[4])):
            for vals in ([nan, v], [v, nan], [gi[0], nan, v]):
                s = spectrum(sc, vals, u)
                sc.raises('%s %s beside nan in %s' % (label, k, u[1]), lambda: evaluate(s))


def check(chk):
    chk.rule('outside', "each outcome of evaluating a spectrum with a value ordered outside the range is ValueError")
    chk.rule('inside', "no outcome of evaluating values ordered inside the closed range is an exception")
    for src in UNITS:
        for kind in ('Constant', 'Interpolation'):
            def simple(sc, src=src, kind=kind):
                g = points(sc, 'g', 2, src)
                d = data_objects(sc, g, src)[kind]
                probe(sc, kind, lambda s: sc.meth(d, 'evaluate', s), g, src, LONE,
                      UNITS if chk.thorough or src in (NM, EV) else [src, UNITS[(UNITS.index(src) + 4) % 9], UNITS[(UNITS.index(src) + 7) % 9]])
            chk.scenario("%s over %s/%s" % ((kind,) + src), simple)
    for src in UNITS:
        def own(sc, src=src):
            # with full precision of the spectral values: a bound in its own unit is inside
            sc.w.round_exact = True
            g = points(sc, 'g', 2, src)
            for kind, d in data_objects(sc, g, src).items():
                for f in ('float', 'array'):
                    for k, v in (('lower bound', g[1]), ('inside', g[2]), ('upper bound', g[3])):
                        s = spectrum(sc, [v], src, f)
                        r = sc.ok('%s %s (%s)' % (kind, k, f), lambda: sc.meth(d, 'evaluate', s))
                        sc.true('%s %s (%s) accepted' % (kind, k, f), r is not None)
        chk.scenario("unrounded bounds in their own unit %s/%s" % src, own)
    for name in MODELS:
        def mod(sc, name=name):
            u = MODELS[name][1]
            g = points(sc, 'g', 2, u)
            for rng in ((g[1], g[3]), (g[3], g[1])):
                d = model(sc, name, rng)
                probe(sc, name, lambda s: sc.meth(d, 'evaluate', s), g, u, LONE if rng[0] is g[1] else ('array',),
                      [u, NM, ('frequency', 'hz')] if rng[0] is g[1] else [u])
        chk.scenario("model %s" % name, mod)

    def extrap(sc):
        src = NM
        g = points(sc, 'g', 4, src)          # data on g3..g5, extended to g1..g7
        t = table(sc, [g[3], g[5]], column(sc, 'y', 2))
        base = sc.ok('Interpolation', lambda: sc.call('spectral_data.Interpolation', t, spectrum_type=src[0], unit=src[1]))
        for lab, ext, q in (('both', [g[1], g[7]], [g[0], g[1], g[4], g[7], g[8]]),
                            ('lower', [g[1]], [g[0], g[1], g[4], g[5], g[6]]),
                            ('upper', [g[7]], [g[2], g[3], g[4], g[7], g[8]])):
            for eu in (src, EV):
                es = spectrum(sc, inunit(sc, ext, src, eu), eu, 'array' if len(ext) == 2 else 'float')
                d = sc.ok('Extrapolation', lambda: sc.call('spectral_data.Extrapolation', base, es, spline_order=1))
                probe(sc, 'extrapolated %s given in %s' % (lab, eu[1]), lambda s: sc.meth(d, 'evaluate', s), q, src,
                      ('float', 'array'), [src, UM, EV])
    chk.scenario("extrapolation", extrap, limit=120)

    def mats(sc):
        # split data: index on g0..g4, absorption on g1..g3 and the other way round
        for src in (NM, EV):
            g = points(sc, 'g' + src[1], 3, src)
            probe_g = [g[0], g[1], g[2], g[3], g[4]]
            for wide, narrow in (('real', 'imag'), ('imag', 'real')):
                m = material(sc, fixed_n=sc.num(1.5), spectrum_type=src[0], unit=src[1])
                for part, rng in ((wide, (g[0], g[5])), (narrow, (g[1], g[3]))):
                    t = table(sc, list(rng), column(sc, 'y' + part, 2))
                    sc.attr(m, 'data')[part] = sc.ok('part', lambda: sc.call(
                        'spectral_data.Interpolation', t, spectrum_type=src[0], unit=src[1]))
                for fn in ('get_nk_data', 'get_permittivity'):
                    probe(sc, 'material narrow %s %s %s' % (narrow, fn, src[1]), lambda s: sc.meth(m, fn, s), probe_g, src,
                          ('float', 'array'), [src, UM])
        # a bounded constant as one of the parts
        for part, other in (('real', 'imag'), ('imag', 'real')):
            for okind in ('table', 'constant'):
                for name in ('nk', 'eps'):
                    g = points(sc, 'c' + part + okind + name, 3, NM)
                    m = material(sc, fixed_n=sc.num(1.5), spectrum_type='wavelength', unit='nm')
                    d = sc.attr(m, 'data')
                    d['name'] = name
                    d[part] = sc.ok('bounded constant', lambda: sc.call('spectral_data.Constant', sc.sym('bc' + part), valid_range=(g[1], g[3]),
                                                                        spectrum_type='wavelength', unit='nm'))
                    if okind == 'table':
                        d[other] = sc.ok('part', lambda: sc.call('spectral_data.Interpolation', table(sc, [g[0], g[5]], column(sc, 'z' + other, 2)),
                                                                 spectrum_type='wavelength', unit='nm'))
                    else:
                        d[other] = sc.ok('part', lambda: sc.call('spectral_data.Constant', sc.sym('oc' + other)))
                    for fn in ('get_nk_data', 'get_permittivity'):
                        probe(sc, 'bounded constant %s beside %s, %s, %s' % (part, okind, name, fn), lambda s: sc.meth(m, fn, s),
                              [g[0], g[1], g[2], g[3], g[4]], NM, ('float', 'array'), [NM, UM])
        for kw, u in ((dict(tabulated_nk=2), NM), (dict(tabulated_n=1), NM), (dict(tabulated_eps=2), EV),
                      (dict(tabulated_n_alpha=2), NM)):
            (k, nc), = kw.items()
            g = points(sc, 'h' + k, 2, u)
            t = table(sc, [g[1], g[3]], *[column(sc, '%s%d' % (k, c), 2) for c in range(nc)])
            m = material(sc, k, spectrum_type=u[0], unit=u[1], **{k: t})
            for fn in ('get_nk_data', 'get_permittivity'):
                probe(sc, '%s %s' % (k, fn), lambda s: sc.meth(m, fn, s), g, u, ('float', 'array'), [u, UM])
        for name in ('Cauchy', 'Drude'):
            u = MODELS[name][1]
            g = points(sc, 'k' + name, 2, u)
            kwd = {'name': name, 'spectrum_type': u[0], 'unit': u[1], 'valid_range': sc.arr([g[1], g[3]], 'f'),
                   'parameters': sc.arr(params(sc, name), 'f')}
            m = material(sc, name, model_kw=kwd)
            for fn in ('get_nk_data', 'get_permittivity'):
                probe(sc, 'model material %s %s' % (name, fn), lambda s: sc.meth(m, fn, s), g, u, ('float', 'array'), [u, NM])
        # one-row table: valid at its own point only
        g = points(sc, 'one', 1, NM)
        m = material(sc, 'one row', tabulated_n=table(sc, [g[1]], column(sc, 'y1', 1)), spectrum_type='wavelength', unit='nm')
        sc.ok('one-row table at its point', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[1]], NM)))
        for k in (0, 2):
            sc.raises('one-row table beside its point', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[k]], NM)))
    chk.scenario("materials", mats, limit=200)

    for n in chk.sizes(12000):
        def long_(sc, n=n):
            g = longgrid(sc, n, NM)
            u = MODELS['Cauchy'][1]
            lo, hi = g[1], g[-2]
            objs = [('table', lambda: sc.call('spectral_data.Interpolation', table(sc, [lo, g[n], hi], column(sc, 'y', 3)), 'wavelength', 'nm')),
                    ('constant', lambda: sc.call('spectral_data.Constant', sc.sym('lc'), valid_range=(lo, hi), spectrum_type='wavelength', unit='nm')),
                    ('model', lambda: sc.call('spectral_data.Cauchy', sc.arr(params(sc, 'Cauchy'), 'f'), inunit(sc, [lo, hi], NM, u), u[0], u[1]))]
            for lab, mk in objs:
                d = sc.ok(lab, mk)
                for q in (NM, EV):
                    inner = inunit(sc, g[1:-1:2], NM, q)
                    sc.ok('%s, %d inner values in %s' % (lab, n, q[1]), lambda: sc.meth(d, 'evaluate', spectrum(sc, inner, q)))
                    for k in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}):
                        for side in (0, -1):
                            v = list(inner)
                            v[k] = inunit(sc, [g[side]], NM, q)[0]
                            sc.raises('%s, value %d of %d outside in %s' % (lab, k, n, q[1]), lambda: sc.meth(d, 'evaluate', spectrum(sc, v, q)))
        chk.scenario("requests of %d values" % n, long_, limit=90)

    def contain_long(sc, n):
        g = longgrid(sc, n, NM)
        inner = g[3:-3]
        s = spectrum(sc, [g[2], g[-3]], NM)
        for uo in (NM, EV):
            o = inunit(sc, inner, NM, uo)
            r = sc.ok('inner', lambda: sc.meth(s, 'contains', spectrum(sc, o, uo)))
            sc.eq('%d values in %s' % (n, uo[1]), r, True)
            for k in sorted({0, 1, 7, n // 3, n // 2, n - 2, n - 1}):
                for side in (1, -2):
                    v = list(o)
                    v[k] = inunit(sc, [g[side]], NM, uo)[0]
                    sc.raises('%d values, value %d outside in %s' % (n, k, uo[1]), lambda: sc.meth(s, 'contains', spectrum(sc, v, uo)))
    for n in chk.sizes(12000):
        chk.scenario("containment of %d values" % n, lambda sc, n=n: contain_long(sc, n), limit=90)

    def contain(sc):
        g = sc.w.grid('g', 7, 1.0, np=False)
        for us in (UM, EV, ('wavenumber', '1/cm')):
            own = [g[4], g[2], g[3]]
            s = spectrum(sc, own, us)
            for uo in (us, NM, ('frequency', 'hz')):
                for lab, vals, good in (('inner', [g[3]], True), ('same', own, True), ('reversed', own[::-1], True),
                                        ('bounds', [g[2], g[4]], True), ('lower out', [g[3], g[1], g[4]], False),
                                        ('upper out', [g[5], g[3], g[2]], False), ('covering', [g[0], g[6]], False),
                                        ('below', [g[0], g[1]], False), ('above', [g[5]], False)):
                    o = spectrum(sc, inunit(sc, vals, us, uo), uo)
                    if good:
                        r = sc.ok('%s in %s of %s' % (lab, uo[1], us[1]), lambda: sc.meth(s, 'contains', o))
                        sc.eq('%s in %s of %s' % (lab, uo[1], us[1]), r, True)
                    else:
                        sc.raises('%s in %s of %s' % (lab, uo[1], us[1]), lambda: sc.meth(s, 'contains', o))
    chk.scenario("containment", contain)
