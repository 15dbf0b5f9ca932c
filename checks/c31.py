"""C31 removing absorption"""
from .iokit import *
from .c06 import zoo

EXPLAIN = ("value numbering of materials before and after remove_absorption, for every way of building one and every part kind, "
           "through later queries, extrapolation, writing and reading; ownership of the data of other materials")


def probe(sc, m, s, label):
    nk = sc.ok(label + ' index', lambda: sc.meth(m, 'get_nk_data', s))
    ep = sc.ok(label + ' permittivity', lambda: sc.meth(m, 'get_permittivity', s))
    return [scalarize(e) for e in elems(nk)], [scalarize(e) for e in elems(ep)]


def lossless(sc, label, kind, before, after):
    """the given quantity keeps its real part and loses the imaginary one"""
    i = 0 if kind == 'nk' else 1
    for j, (a, b) in enumerate(zip(before[i], after[i])):
        if not isinstance(a, Num) or not isinstance(b, Num):
            sc.true('%s at %d' % (label, j), None, 'gated')
            continue
        re, im = parts(sc, b)
        sc.eq('%s: real part at %d' % (label, j), re, parts(sc, a)[0])
        sc.eq('%s: loss at %d' % (label, j), im, sc.num(0.0))
    for j, (a, b) in enumerate(zip(*after)):
        if isinstance(a, Num) and isinstance(b, Num):
            sc.eq('%s: permittivity is the squared index at %d' % (label, j), b, Num(a.nf * a.nf, 'c'))


def check(chk):
    chk.rule('loss', "after the call Im == 0 and Re == Re before, for the quantity the material was given in")
    chk.rule('range', "valid range after the call == range of the real part; queries inside it never refused")
    chk.rule('complex', "materials with coupled real and imaginary parts are not affected")
    chk.rule('ownership', "no other material changes")

    for u in (NM, EV, UM):
        def kinds(sc, u=u):
            twins = zoo(sc, u)
            for (label, m, g, mu), (_, twin, _, _) in zip(zoo(sc, u), twins):
                data = sc.attr(m, 'data')
                s = spectrum(sc, [g[1], g[2], g[3]], mu)
                one = spectrum(sc, [g[2]], mu, 'float')
                before = probe(sc, m, s, label)
                keep = sc.snapshot(twin)
                cx = data['complex'] is not None
                for n in (1, 2):
                    r = sc.ok(label + ' remove', lambda: sc.meth(m, 'remove_absorption'))
                    after = probe(sc, m, s, '%s after %d removals' % (label, n))
                    lab = '%s after %d removals' % (label, n)
                    if cx:
                        for q in (0, 1):
                            sc.eq(lab + ' unaffected', after[q], before[q])
                    else:
                        lossless(sc, lab, data['name'], before, after)
                        lossless(sc, lab + ' scalar', data['name'], [[x[1]] for x in before], probe(sc, m, one, lab))
                sc.unchanged(label + ': another material of the same data', keep, twin)
                if not cx and label.startswith('tab'):
                    sc.eq(label + ' range', sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), [g[1], g[3]])
                    sc.raises(label + ' still refused outside', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[4]], mu)))
        chk.scenario("every kind of material in %s" % u[1], kinds, limit=90)

    def shared(sc):
        """two materials that hold the same data objects"""
        g = points(sc, 'g', 2, NM)
        t = table(sc, [g[1], g[3]], column(sc, 'a', 2), column(sc, 'b', 2))
        a, b = (material(sc, tabulated_nk=t, spectrum_type='wavelength', unit='nm') for _ in range(2))
        for p in ('real', 'imag'):
            sc.attr(b, 'data')[p] = sc.attr(a, 'data')[p]
        s = spectrum(sc, [g[1], g[2], g[3]], NM)
        keep, x = sc.snapshot(b, t), probe(sc, b, s, 'shared')
        sc.ok('remove', lambda: sc.meth(a, 'remove_absorption'))
        sc.unchanged('material with the same data objects', keep, b, t)
        y = probe(sc, b, s, 'shared after')
        for q in (0, 1):
            sc.eq('values of the other material', y[q], x[q])
        for k in ('unrelated fixed', 'unrelated table'):
            o = material(sc, fixed_n=sc.sym('q')) if k.endswith('fixed') else material(sc, tabulated_nk=t, spectrum_type='wavelength', unit='nm')
            sc.eq(k + ' built afterwards', [e for e in probe(sc, o, s, k)[0]], x[0] if k.endswith('table') else
                  [Num(sc.sym('q').nf, 'c')] * 3)
    chk.scenario("shared data", shared, limit=60)

    def narrow(sc, u):
        """loss known in a part of the range only"""
        g = points(sc, 'g', 4, u)
        xs = g[1::2]
        m = material(sc, tabulated_n=table(sc, xs, column(sc, 'a', 4)), spectrum_type=u[0], unit=u[1])
        k = sc.ok('loss', lambda: sc.call('spectral_data.Interpolation', table(sc, xs[1:3], column(sc, 'b', 2)), spectrum_type=u[0], unit=u[1]))
        sc.attr(m, 'data')['imag'] = k
        out = spectrum(sc, [g[2]], u)
        sc.raises('before', lambda: sc.meth(m, 'get_nk_data', out))
        sc.ok('remove', lambda: sc.meth(m, 'remove_absorption'))
        sc.eq('range is that of the real part', sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), [xs[0], xs[3]])
        r = probe(sc, m, out, 'outside the old loss data')
        ref = material(sc, tabulated_n=table(sc, xs, column(sc, 'a', 4)), spectrum_type=u[0], unit=u[1])
        for q in (0, 1):
            sc.eq('values outside the old loss data', r[q], probe(sc, ref, out, 'reference')[q])
    for u in (NM, EV):
        chk.scenario("loss data narrower, %s" % u[1], lambda sc, u=u: narrow(sc, u), limit=60)

    def later(sc, kind, ext, u):
        g = points(sc, 'g', 3, u)
        xs = g[1::2]
        cols = [column(sc, 'a', 3), column(sc, 'b', 3)]
        m = material(sc, kind, spectrum_type=u[0], unit=u[1], **{kind: table(sc, xs, *cols)})
        s = spectrum(sc, [xs[0], g[2], g[4], xs[2]], u)
        before = probe(sc, m, s, kind)
        sc.ok('remove', lambda: sc.meth(m, 'remove_absorption'))
        name = sc.attr(m, 'data')['name']
        if ext == 'extrapolate':
            sc.ok('extrapolate', lambda: sc.meth(m, 'extrapolate', spectrum(sc, [g[6]], u)))
            lossless(sc, kind + ' extrapolated', name, before, probe(sc, m, s, kind + ' extrapolated'))
            r = probe(sc, m, spectrum(sc, [g[6]], u), kind + ' beyond')
            v = r[0 if name == 'nk' else 1][0]
            if isinstance(v, Num):
                sc.eq('loss beyond the table', parts(sc, v)[1], sc.num(0.0))
        else:
            p = path(sc, 'x.' + ext)
            write(sc, m, p)
            b = read(sc, p, spectrum_type=u[0], unit=u[1])
            lossless(sc, '%s through a %s file' % (kind, ext), name, before, probe(sc, b, s, kind + ' read'))
    for kind in ('tabulated_nk', 'tabulated_eps', 'tabulated_n_alpha'):
        for ext in ('extrapolate', 'yml', 'txt'):
            for u in (NM, EV):
                chk.scenario("%s then %s in %s" % (kind, ext, u[1]), lambda sc, kind=kind, ext=ext, u=u: later(sc, kind, ext, u), limit=60)

    def scales(sc, u, scale):
        g = sc.w.grid('far', 5, scale)
        for kind in ('tabulated_nk', 'tabulated_eps', 'tabulated_n_alpha'):
            t = table(sc, g[1::2], column(sc, 'a', 2), column(sc, 'b', 2))
            m = material(sc, kind, spectrum_type=u[0], unit=u[1], **{kind: t})
            s = spectrum(sc, g[1:4], u)
            before = probe(sc, m, s, kind)
            sc.ok('remove', lambda: sc.meth(m, 'remove_absorption'))
            lossless(sc, kind, sc.attr(m, 'data')['name'], before, probe(sc, m, s, kind + ' after'))
        fixed = material(sc, fixed_nk=sc.sym('fnk', real=False))
        before = probe(sc, fixed, s, 'fixed')
        sc.ok('remove', lambda: sc.meth(fixed, 'remove_absorption'))
        r = probe(sc, fixed, s, 'fixed after')
        if sc.attr(fixed, 'data')['complex'] is None:
            lossless(sc, 'fixed', sc.attr(fixed, 'data')['name'], before, r)
    for u, scale in ((M, 1e-13), (M, 1e-3), (M, 0.05), (M, 3.0), (M, 1e5), (EV, 1e-8), (EV, 1e-3), (EV, 1e7), (('frequency', 'hz'), 10.0),
                     (('frequency', 'hz'), 1e21)):
        chk.scenario("data around %g %s" % (scale, u[1]), lambda sc, u=u, scale=scale: scales(sc, u, scale), limit=60)

    def extrapolated(sc):
        g = points(sc, 'g', 3, NM)
        xs = g[1::2]
        for kind in ('tabulated_nk', 'tabulated_eps'):
            m = material(sc, kind, spectrum_type='wavelength', unit='nm', **{kind: table(sc, xs, column(sc, 'a', 3), column(sc, 'b', 3))})
            sc.ok('extrapolate', lambda: sc.meth(m, 'extrapolate', spectrum(sc, [g[6]], NM)))
            s = spectrum(sc, [xs[0], g[2], g[6]], NM)
            before = probe(sc, m, s, kind)
            sc.ok('remove', lambda: sc.meth(m, 'remove_absorption'))
            lossless(sc, kind + ' extrapolated before', sc.attr(m, 'data')['name'], before, probe(sc, m, s, kind))
    chk.scenario("after extrapolation", extrapolated, limit=60)

    def mixed(sc):
        """the mixing rules see the lossless material"""
        g = points(sc, 'g', 2, NM)
        t = table(sc, [g[1], g[3]], column(sc, 'a', 2), column(sc, 'b', 2))
        a = material(sc, tabulated_eps=t, spectrum_type='wavelength', unit='nm')
        b = material(sc, fixed_eps_r=sc.sym('e'))
        sc.ok('remove', lambda: sc.meth(a, 'remove_absorption'))
        s = spectrum(sc, [g[1], g[3]], NM)
        for kind in ('Simple', 'MaxwellGarnett'):
            m = sc.ok(kind, lambda: sc.call('material.' + kind, s, a, b, sc.num(0.25)))
            for v in elems(sc.ok(kind, lambda: sc.meth(m, 'get_permittivity', s))):
                v = scalarize(v)
                sc.eq(kind + ' loss of the mixture', parts(sc, v)[1] if isinstance(v, Num) else v, sc.num(0.0))
    chk.scenario("in effective media", mixed, limit=60)
