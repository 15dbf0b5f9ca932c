"""C08 model formulas"""
from .kit import *
from .c06 import elems

EXPLAIN = ("value numbering of every model's evaluate with symbolic parameters of every arity and symbolic spectral values "
           "against the published formula, scalar and array, evaluated repeatedly, plus the sign of the loss")


def P(sc, a, b):
    return sc.it.nfpow(a, b)


def ref(sc, name, p, x):
    """published formula; p: list of NF, x: NF in the native unit"""
    one = NF.num(1)
    sq = lambda v: v * v
    root = lambda v: sc.it.unary('sqrt', Num(v, 'f')).nf
    fn = lambda f, *a: sc.it.unary(f, Num(a[0], 'f')).nf
    x2 = x * x
    if name in ('Sellmeier', 'Sellmeier2'):
        s = one + p[0]
        for c, d in zip(p[1::2], p[2::2]):
            s = s + c * x2 / (x2 - (sq(d) if name == 'Sellmeier' else d))
        return root(s)
    if name in ('Polynomial', 'Cauchy'):
        s = p[0]
        for c, d in zip(p[1::2], p[2::2]):
            s = s + c * P(sc, x, d)
        return root(s) if name == 'Polynomial' else s
    if name == 'RefractiveIndexInfo':
        s = p[0]
        for k in (1, 5):
            if len(p) > k:
                s = s + p[k] * P(sc, x, p[k + 1]) / (x2 - P(sc, p[k + 2], p[k + 3]))
        for c, d in zip(p[9::2], p[10::2]):
            s = s + c * P(sc, x, d)
        return root(s)
    if name == 'Gases':
        s = one + p[0]
        for c, d in zip(p[1::2], p[2::2]):
            s = s + c / (d - x2.inv())
        return s
    if name == 'Herzberger':
        l = (x2 - NF.num(Fraction('0.028'))).inv()
        return p[0] + p[1] * l + p[2] * l * l + p[3] * x2 + p[4] * x2 * x2 + p[5] * x2 * x2 * x2
    if name == 'Retro':
        r = p[0] + p[1] * x2 / (x2 - p[2]) + p[3] * x2
        return root((one + NF.num(2) * r) / (one - r))
    if name == 'Exotic':
        d = x - p[4]
        return root(p[0] + p[1] / (x2 - p[2]) + p[3] * d / (d * d + p[5]))
    i = sc.w.space.i()
    if name == 'Drude':
        return one - p[0] * p[0] / (x2 + i * p[1] * x)
    if name == 'DrudeLorentz':
        return one + p[1] * p[0] * p[0] / (p[2] * p[2] - x2 - i * p[3] * x)
    if name == 'Fano':
        e = NF.num(2) * (x - p[1]) / p[2]
        return (e + p[0]) * (e + p[0]) / ((one + p[0] * p[0]) * (e * e + one))
    if name == 'TaucLorentz':
        return None
    raise Gap(name)


def tauc(A, E0, C, Eg, einf, E):
    """Jellison & Modine 1996 with the 1996 erratum, numerically at one sample"""
    import math
    e2 = 0.0 if E <= Eg else A * E0 * C * (E - Eg) ** 2 / ((E * E - E0 * E0) ** 2 + C * C * E * E) / E
    aln = (Eg ** 2 - E0 ** 2) * E ** 2 + Eg ** 2 * C ** 2 - E0 ** 2 * (E0 ** 2 + 3 * Eg ** 2)
    aat = (E ** 2 - E0 ** 2) * (E0 ** 2 + Eg ** 2) + Eg ** 2 * C ** 2
    al = math.sqrt(4 * E0 ** 2 - C ** 2)
    g2 = E0 ** 2 - C ** 2 / 2
    z4 = (E ** 2 - g2) ** 2 + al ** 2 * C ** 2 / 4
    e1 = einf
    e1 += A * C * aln / (2 * math.pi * z4 * al * E0) * math.log((E0 ** 2 + Eg ** 2 + al * Eg) / (E0 ** 2 + Eg ** 2 - al * Eg))
    e1 -= A * aat / (math.pi * z4 * E0) * (math.pi - math.atan((2 * Eg + al) / C) + math.atan((al - 2 * Eg) / C))
    e1 += 2 * A * E0 * Eg / (math.pi * z4 * al) * (E ** 2 - g2) * (math.pi + 2 * math.atan(2 * (g2 - Eg ** 2) / (al * C)))
    e1 -= A * E0 * C * (E ** 2 + Eg ** 2) / (math.pi * z4 * E) * math.log(abs(E - Eg) / (E + Eg))
    e1 += 2 * A * E0 * C * Eg / (math.pi * z4) * math.log(abs(E - Eg) * (E + Eg) / math.sqrt((E0 ** 2 - Eg ** 2) ** 2 + Eg ** 2 * C ** 2))
    return complex(e1, e2)


def at(v, k):
    """value of a (gated) number at sample k or None"""
    v = scalarize(v)
    if isinstance(v, Phi):
        c = cond_at(v.cond, k)
        return None if c is None else at(v.a if c else v.b, k)
    if isinstance(v, NBool):
        return complex(bool(v.v))
    if isinstance(v, (bool, int)):
        return complex(v)
    if not isinstance(v, Num) or v.special:
        return None
    z = v.nf.vals()[k]
    return None if z != z else z


ODD = (1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 25)
ARITIES = {'Sellmeier': ODD, 'Sellmeier2': ODD, 'Polynomial': ODD, 'Cauchy': ODD, 'Gases': ODD,
           'RefractiveIndexInfo': (9, 11, 13, 15, 17, 19, 21, 25)}


def check(chk):
    chk.rule('formula', "value number of evaluate(spectrum)[i] == value number of the published formula at spectrum[i]")
    chk.rule('loss', "the imaginary part of permittivity models is non-negative at every sample of positive parameters")
    for name, (ar, u, out) in MODELS.items():
        more = tuple(k | 1 for k in chk.sizes(60) if k > 25) if name in ARITIES else ()
        for n in ARITIES.get(name, (ar,)) + more:
            def formula(sc, name=name, n=n, u=u):
                p = params(sc, name, n)
                g = points(sc, 'g', 3, u)
                d = model(sc, name, (g[0], g[6]), p=p)
                want = {}

                def expect(x):
                    k = x.nf.key()
                    if k not in want:
                        want[k] = Num(ref(sc, name, [v.nf for v in p], x.nf), 'c' if out in ('eps',) else 'f')
                    return want[k]

                def one(label, got, xs):
                    got = elems(got) if isinstance(got, Arr) and got.ndim else [got]
                    sc.true(label + ' size', len(got) == len(xs), "%d values for %d" % (len(got), len(xs)))
                    for i, (a, x) in enumerate(zip(got, xs)):
                        if name == 'TaucLorentz':
                            for k in range(NFM.K):
                                z = at(a, k)
                                w = tauc(*[v.nf.vals()[k].real for v in p], x.nf.vals()[k].real)
                                sc.true('%s[%d] sample %d' % (label, i, k), None if z is None else abs(z - w) < 1e-7 * (1 + abs(w)),
                                        "%s, expected %s" % (z, w))
                        else:
                            sc.eq('%s[%d]' % (label, i), a, expect(x))
                for ru in (u, NM, ('frequency', 'hz')):
                    for xs in ([g[1], g[2], g[4]], [g[5], g[3]], [g[2]]):
                        s = spectrum(sc, inunit(sc, xs, u, ru), ru)
                        one('%d values in %s' % (len(xs), ru[1]), sc.ok('evaluate', lambda: sc.meth(d, 'evaluate', s)), xs)
                    s = spectrum(sc, inunit(sc, [g[2]], u, ru), ru, 'float')
                    one('float in %s' % ru[1], sc.ok('evaluate', lambda: sc.meth(d, 'evaluate', s)), [g[2]])
                # again, after other evaluations and another instance
                d2 = model(sc, name, (g[0], g[6]), p=params(sc, name, n, 'other'))
                sc.ok('other', lambda: sc.meth(d2, 'evaluate', spectrum(sc, [g[1], g[2], g[4]], u)))
                for xs in ([g[1], g[2], g[4]], [g[2], g[1], g[4]]):
                    s = spectrum(sc, xs, u)
                    one('again', sc.ok('evaluate', lambda: sc.meth(d, 'evaluate', s)), xs)
                # parameters given as a list
                dl = sc.ok('list parameters', lambda: sc.call('spectral_data.' + name, list(p), [g[0], g[6]],
                                                             spectrum_type=u[0], unit=u[1]))
                s = spectrum(sc, [g[1], g[2]], u)
                one('list parameters', sc.ok('evaluate', lambda: sc.meth(dl, 'evaluate', s)), [g[1], g[2]])
            chk.scenario("%s with %d parameters" % (name, n), formula, limit=60)

    for n in chk.sizes():
        def many(sc, n=n):
            for name, (ar, u, out) in MODELS.items():
                p = params(sc, name)
                g = points(sc, 'q' + name, 3, u)
                d = model(sc, name, (g[0], g[6]), p=p)
                vals = ([g[1], g[2], g[4], g[5]] * (n // 4 + 1))[:n]
                got = elems(sc.ok(name, lambda: sc.meth(d, 'evaluate', spectrum(sc, vals, u))))
                sc.true('%s: %d values' % (name, n), len(got) == n, "%d values" % len(got))
                want = elems(sc.ok(name, lambda: sc.meth(d, 'evaluate', spectrum(sc, vals[:4], u))))
                for i in range(0, n) if n < 60 else (0, 1, 2, n // 2, n - 1):
                    sc.eq('%s of %d values [%d]' % (name, n, i), got[i], want[i % 4])
        chk.scenario("requests of %d values" % n, many, limit=90)

    # requests far from where the parameters lie
    for name, (ar, u, out) in MODELS.items():
        for far in (1e-6, 1e-3, 1e3, 1e6):
            def away(sc, name=name, u=u, far=far):
                p = params(sc, name)
                g = sc.w.grid('far', 5, SCALE[u[1]] * far, np=False)
                d = model(sc, name, (g[0], g[4]), p=p)
                for f in ('float', 'array'):
                    xs = [g[2]] if f == 'float' else [g[3], g[1]]
                    got = elems(sc.ok('evaluate', lambda: sc.meth(d, 'evaluate', spectrum(sc, xs, u, f))))
                    for i, (a, x) in enumerate(zip(got, xs)):
                        if name == 'TaucLorentz':
                            for k in range(NFM.K):
                                z = at(a, k)
                                w = tauc(*[v.nf.vals()[k].real for v in p], x.nf.vals()[k].real)
                                sc.true('%s[%d] sample %d' % (f, i, k), None if z is None else abs(z - w) < 1e-4 * (1 + abs(w)),
                                        "%s, expected %s" % (z, w))
                        else:
                            sc.eq('%s[%d]' % (f, i), a, Num(ref(sc, name, [v.nf for v in p], x.nf), 'c' if out in ('eps',) else 'f'))
            chk.scenario("%s at %g" % (name, far), away, limit=60)

    # constant parameter values that programs like to treat specially
    for name, (ar, u, out) in MODELS.items():
        def special(sc, name=name, ar=ar, u=u, out=out):
            if name == 'TaucLorentz':
                return
            g = points(sc, 'g', 1, u)
            sets = []
            for label, base in (('zeros', [0.0] * ar), ('negative', [-(0.3 + 0.17 * i) for i in range(ar)]),
                                ('large', [30.0 + i for i in range(ar)]), ('mixed', [(-1) ** i * (0.2 + 0.31 * i) for i in range(ar)])):
                if label == 'zeros' and name in ('Exotic', 'Fano', 'Drude', 'DrudeLorentz', 'RefractiveIndexInfo'):
                    base = [0.0] * (ar - 1) + [1.0]
                    if name == 'RefractiveIndexInfo':
                        base = [2.0] + [0.0] * (ar - 1)
                if label == 'zeros' and name == 'Polynomial':
                    base = [1.0] + [0.0] * (ar - 1)
                if label in ('negative', 'mixed') and name == 'RefractiveIndexInfo':
                    base = [1.5, -0.4, 2.0, 0.3, 2.0, 0.2, -1.0, 0.5, 2.0, -0.1, 2.0, 0.02, -2.0]
                if label == 'negative' and name == 'Exotic':
                    base = [3.0, -0.2, 0.05, -0.1, 0.3, 0.2]
                sets.append((label, base))
            if name in ARITIES:
                # single terms switched off or of the other sign, the later ones still counting
                full = [0.9 + 0.37 * i for i in range(ar)]
                if name == 'RefractiveIndexInfo':
                    full = [1.5, 0.4, 2.0, 0.3, 2.0, 0.2, 1.0, 0.5, 2.0, 0.1, 2.0, 0.02, 2.0]
                for i in range(ar):
                    for v in (0.0, -full[i], 1.0):
                        b = list(full)
                        b[i] = v
                        sets.append(('parameter %d = %g' % (i, v), b))
            for label, base in sets:
                p = [sc.num(v, True) for v in base]
                d = model(sc, name, (g[0], g[2]), p=p)
                for f in ('float', 'array'):
                    s = spectrum(sc, [g[1]], u, f)
                    r = sc.ok('%s %s' % (label, f), lambda: sc.meth(d, 'evaluate', s))
                    w = ref(sc, name, [v.nf for v in p], g[1].nf)
                    got = elems(r)[0]
                    z = [at(got, k) for k in range(NFM.K)]
                    wv = w.vals()
                    # real formulas outside their domain give nan in numpy; only compare real results
                    if out == 'n' and any(abs(v.imag) > 1e-12 for v in wv):
                        continue
                    sc.true('%s %s' % (label, f), None if None in z else all(abs(a - b) <= 1e-8 * (1 + abs(b)) for a, b in zip(z, wv)),
                            "%s, expected %s" % (z, wv))
        chk.scenario("%s with particular parameters" % name, special)

    for name in ('Drude', 'DrudeLorentz', 'TaucLorentz'):
        def lossy(sc, name=name):
            u = EV
            g = points(sc, 'g', 4, u)
            p = params(sc, name)
            d = model(sc, name, (g[0], g[8]), p=p)
            s = spectrum(sc, [g[1], g[3], g[7]], u)
            r = sc.ok('evaluate', lambda: sc.meth(d, 'evaluate', s))
            for i, v in enumerate(elems(r)):
                z = [at(v, k) for k in range(NFM.K)]
                sc.true('loss of %s [%d]' % (name, i), None if None in z else all(x.imag >= -1e-15 for x in z), "imaginary part %s" % z)
        chk.scenario("loss of %s" % name, lossy)

    def gap(sc):
        # below, at and above the Tauc gap, scalar and array
        p = [sc.num(v, True) for v in (60.0, 4.0, 2.0, 1.5, 1.2)]
        d = model(sc, 'TaucLorentz', (sc.num(0.5), sc.num(6.0)), p=p)
        vals = [1.0, 1.6, 3.0, 0.75, 5.5]
        w = [tauc(60.0, 4.0, 2.0, 1.5, 1.2, v) for v in vals]
        r = sc.ok('array', lambda: sc.meth(d, 'evaluate', spectrum(sc, [sc.num(v) for v in vals], EV)))
        for i, (a, b) in enumerate(zip(elems(r), w)):
            z = at(a, 0)
            sc.true('TaucLorentz at %g eV' % vals[i], None if z is None else abs(z - b) < 1e-7 * (1 + abs(b)), "%s, expected %s" % (z, b))
        for v, b in zip(vals, w):
            r = sc.ok('float', lambda: sc.meth(d, 'evaluate', spectrum(sc, [sc.num(v)], EV, 'float')))
            z = at(r, 0)
            sc.true('TaucLorentz float at %g eV' % v, None if z is None else abs(z - b) < 1e-7 * (1 + abs(b)), "%s, expected %s" % (z, b))
    chk.scenario("Tauc gap", gap)
