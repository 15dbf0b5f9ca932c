"""C06 index and permittivity agree"""
from .kit import *

EXPLAIN = ("value numbering of get_nk_data and get_permittivity for every way of building a material: eps == nk**2, "
           "nk == principal sqrt(eps), both complex, and the same meaning of spectrum objects and raw values")


def zoo(sc, u=NM):
    """label -> (material, kind, node positions g, unit)"""
    out = []
    g = points(sc, 'g', 2, u)
    two = column(sc, 'a', 2, sign='+'), column(sc, 'b', 2)
    out.append(('fixed n', material(sc, fixed_n=sc.sym('fn')), g, u))
    out.append(('fixed nk', material(sc, fixed_nk=sc.sym('fnk', real=False)), g, u))
    out.append(('fixed eps_r', material(sc, fixed_eps_r=sc.sym('fe')), g, u))
    out.append(('fixed negative eps_r', material(sc, fixed_eps_r=sc.sym('fem', sign='-', scale=-1.0)), g, u))
    out.append(('fixed eps', material(sc, fixed_eps=sc.sym('fec', real=False)), g, u))
    for k, cols in (('tabulated_n', two[:1]), ('tabulated_nk', two), ('tabulated_eps', two), ('tabulated_n_alpha', two)):
        out.append((k, material(sc, k, spectrum_type=u[0], unit=u[1], **{k: table(sc, [g[1], g[3]], *cols)}), g, u))
    for name in ('Sellmeier', 'Cauchy', 'Drude', 'DrudeLorentz', 'TaucLorentz'):
        mu = MODELS[name][1]
        h = points(sc, 'h' + name, 2, mu)
        kwd = {'name': name, 'spectrum_type': mu[0], 'unit': mu[1], 'valid_range': sc.arr([h[1], h[3]], 'f'),
               'parameters': sc.arr(params(sc, name), 'f')}
        out.append(('model ' + name, material(sc, name, model_kw=kwd), h, mu))
    return out


def iscomplex(v):
    if isinstance(v, Arr):
        return v.dtype == 'c'
    if isinstance(v, Phi):
        return iscomplex(v.a) and iscomplex(v.b)
    return isinstance(v, Num) and v.kind == 'c'


def elems(v):
    return list(v.elems()) if isinstance(v, Arr) else [v]


def check(chk):
    chk.rule('square', "value number of get_permittivity == square of the value number of get_nk_data")
    chk.rule('root', "for permittivity data get_nk_data == principal sqrt of the stored permittivity")
    chk.rule('arguments', "Spectrum object, raw values with keywords or positional type/unit, default metres: same value numbers")
    for u in (NM, EV, UM):
        def run_(sc, u=u):
            for label, m, g, mu in zoo(sc, u):
                name = sc.ok('kind', lambda: sc.attr(m, 'data')['name'])
                for f in ('float', 'array'):
                    vals = [g[2], g[1]] if f == 'array' else [g[2]]
                    s = spectrum(sc, vals, mu, f)
                    nk = sc.ok('%s nk %s' % (label, f), lambda: sc.meth(m, 'get_nk_data', s))
                    ep = sc.ok('%s eps %s' % (label, f), lambda: sc.meth(m, 'get_permittivity', s))
                    sc.true('%s %s index complex' % (label, f), iscomplex(nk), 'result is not complex')
                    sc.true('%s %s permittivity complex' % (label, f), iscomplex(ep), 'result is not complex')
                    for i, (a, b) in enumerate(zip(elems(nk), elems(ep))):
                        a, b = scalarize(a), scalarize(b)
                        if not isinstance(a, Num) or not isinstance(b, Num):
                            sc.true('%s %s %d' % (label, f, i), None, 'gated')
                            continue
                        sc.eq('%s %s eps=nk^2 [%d]' % (label, f, i), b, nsq(a))
                        sc.eq('%s %s nk=sqrt(eps) [%d]' % (label, f, i), a, nsqrt(sc, Num(b.nf, 'c')))
                    # the same request in other spellings
                    for fn, want in (('get_nk_data', nk), ('get_permittivity', ep)):
                        raw = form(sc, vals, f)
                        r = sc.ok('raw', lambda: sc.meth(m, fn, raw, spectrum_type=mu[0], unit=mu[1]))
                        sc.eq('%s %s raw values with keywords, %s' % (label, fn, f), r, want)
                        r = sc.ok('raw', lambda: sc.meth(m, fn, raw, mu[0], mu[1]))
                        sc.eq('%s %s raw values positional, %s' % (label, fn, f), r, want)
                        mt = form(sc, inunit(sc, vals, mu, M), f)
                        r = sc.ok('raw', lambda: sc.meth(m, fn, mt))
                        sc.eq('%s %s raw metres by default, %s' % (label, fn, f), r, want)
                        if f == 'array':
                            r = sc.ok('raw', lambda: sc.meth(m, fn, list(mt.elems())))
                            sc.eq('%s %s list of metres' % (label, fn), r, want)
                        r = sc.ok('raw', lambda: sc.meth(m, fn, mt, unit='m'))
                        sc.eq('%s %s raw metres, unit only, %s' % (label, fn, f), r, want)
                        for ou in (UM, ('frequency', 'hz'), EV):
                            r = sc.ok('raw', lambda: sc.meth(m, fn, form(sc, inunit(sc, vals, mu, ou), f),
                                                             spectrum_type=ou[0], unit=ou[1]))
                            sc.eq('%s %s in %s, %s' % (label, fn, ou[1], f), r, want)
                        s2 = spectrum(sc, inunit(sc, vals, mu, UM), UM, f)
                        r = sc.ok('object', lambda: sc.meth(m, fn, s2))
                        sc.eq('%s %s spectrum object in um, %s' % (label, fn, f), r, want)
                        r = sc.ok('object', lambda: sc.meth(m, fn, s2, 'energy', 'ev'))
                        sc.eq('%s %s the object decides, not the keywords, %s' % (label, fn, f), r, want)
                # parts
                if name in ('nk', 'eps') and sc.attr(m, 'data')['complex'] is None:
                    s = spectrum(sc, [g[2], g[1]], mu)
                    re = sc.ok('re', lambda: sc.meth(sc.attr(m, 'data')['real'], 'evaluate', s))
                    im = sc.ok('im', lambda: sc.meth(sc.attr(m, 'data')['imag'], 'evaluate', s))
                    q = sc.ok('q', lambda: sc.meth(m, 'get_nk_data' if name == 'nk' else 'get_permittivity', s))
                    sc.eq(label + ' is real + i*imag', q, [cplx(sc, scalarize(a), scalarize(b)) for a, b in zip(elems(re), elems(im))])
        chk.scenario("consistency in %s" % u[1], run_, limit=150)

    for n in chk.sizes():
        def many(sc, n=n):
            for label, m, g, mu in zoo(sc, NM):
                vals = [g[2], g[1], g[3]] * (n // 3 + 1)
                vals = vals[:n]
                s = spectrum(sc, vals, mu)
                nk = elems(sc.ok(label + ' nk', lambda: sc.meth(m, 'get_nk_data', s)))
                ep = elems(sc.ok(label + ' eps', lambda: sc.meth(m, 'get_permittivity', s)))
                sc.true('%s: %d values' % (label, n), len(nk) == n and len(ep) == n, "%d and %d values" % (len(nk), len(ep)))
                short = spectrum(sc, vals[:3], mu)
                for got, fn in ((nk, 'get_nk_data'), (ep, 'get_permittivity')):
                    want = elems(sc.ok(label, lambda: sc.meth(m, fn, short)))
                    for i in range(0, n) if n < 60 else (0, 1, 2, n // 2, n - 1):
                        sc.eq('%s %s of %d values [%d]' % (label, fn, n, i), got[i], want[i % 3])
        chk.scenario("requests of %d values" % n, many, limit=120)

    def quadrants(sc):
        # principal root for every quadrant of the permittivity
        for re in (2.0, -2.0, 0.0, 1e-3, -300.0):
            for im in (1.0, -1.0, 0.0, 40.0, -1e-3):
                v = Num(sc.num(re).nf + sc.w.space.i() * sc.num(im).nf, 'c')
                m = material(sc, fixed_eps=v)
                for f in ('float', 'array'):
                    s = spectrum(sc, [sc.num(5e-7), sc.num(6e-7)], M, f)
                    nk = sc.ok('nk', lambda: sc.meth(m, 'get_nk_data', s))
                    z = complex(re, im) ** 0.5
                    for a in elems(nk):
                        a = scalarize(a)
                        sc.true('root of %g%+gi (%s)' % (re, im, f), all(abs(x - z) < 1e-9 for x in a.nf.vals()),
                                "%s, expected %s" % (a.nf.vals()[0], z))
                    ep = sc.ok('eps', lambda: sc.meth(m, 'get_permittivity', s))
                    sc.eq('eps of %g%+gi (%s)' % (re, im, f), elems(ep)[0], v)
    chk.scenario("principal root", quadrants)
