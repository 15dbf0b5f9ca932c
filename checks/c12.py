"""C12 valid range of a material"""
from .kit import *
from .c06 import elems

EXPLAIN = ("value numbering of get_maximum_valid_range over ordered symbolic bounds of the parts (nested, overlapping, in "
           "different units, unbounded), for every default unit; the sample spectrum is ordered inside the range")


def interp(sc, lo, hi, u, tag):
    return sc.ok('part', lambda: sc.call('spectral_data.Interpolation', table(sc, [lo, hi], column(sc, tag, 2)),
                                         spectrum_type=u[0], unit=u[1]))


def makers(sc):
    """ways to make a part with a bounded range"""
    def const(lo, hi, u, tag):
        return sc.ok('part', lambda: sc.call('spectral_data.Constant', sc.sym('c' + tag), [lo, hi], spectrum_type=u[0], unit=u[1]))

    def extra(lo, hi, u, tag):
        mid = Num((lo.nf + hi.nf) * NF.num(Fraction(1, 2)), 'f')
        d = interp(sc, lo, mid, u, tag)
        return sc.ok('part', lambda: sc.call('spectral_data.Extrapolation', d, spectrum(sc, [hi], u)))
    return {'table': lambda *a: interp(sc, *a), 'constant': const, 'extrapolation': extra}


def rng(sc, label, m, lo, hi):
    r = sc.ok(label, lambda: sc.meth(m, 'get_maximum_valid_range'))
    sc.eq(label, r, [lo, hi])
    return r


def sample(sc, label, m, lo, hi, u, full=True):
    """suggested spectrum inside [lo, hi] given in unit u"""
    s = sc.ok(label + ' sample spectrum', lambda: sc.meth(m, 'get_sample_spectrum'))
    v = sc.ok(label + ' sample values', lambda: sc.meth(s, 'convert_to', u[0], u[1]))
    es = elems(v)
    sc.true(label + ' sample size', len(es) >= 2, "%d values" % len(es))
    bad = und = None
    for i, e in enumerate(es):
        if i > 12 and i < len(es) - 12 and i % 97:
            continue
        for lf in (scalarize(e),):
            if not isinstance(lf, Num) or lf.special:
                # a gated value: judged at the samples below
                if isinstance(lf, Phi):
                    for g, x in leaves(lf):
                        if isinstance(x, Num) and not x.special:
                            out = any(not (l.real * (1 - 1e-9) <= q.real <= h.real * (1 + 1e-9)) for q, l, h in
                                      zip(x.nf.vals(), lo.nf.vals(), hi.nf.vals()))
                            if out and not any(c.opaque() for c in g) and satisfiable(g):
                                bad = (i, x)
                else:
                    und = lf
                continue
            for q, l, h in zip(lf.nf.vals(), lo.nf.vals(), hi.nf.vals()):
                if not l.real * (1 - 1e-9) <= q.real <= h.real * (1 + 1e-9):
                    bad = (i, lf)
    sc.true(label + ' sample spectrum inside the range', False if bad else (None if und is not None else True),
            "value %s of the sample spectrum lies outside" % (bad,) if bad else repr(und))
    for fn in (('get_nk_data',) if full else ()):
        r = sc.ok(label + ' evaluation of the sample spectrum', lambda: sc.meth(m, fn, s))
        sc.true(label + ' %s of the sample spectrum' % fn, len(elems(r)) == len(es))


def check(chk):
    chk.rule('intersection', "reported bounds == [max of lower bounds, min of upper bounds] in the material's unit, ascending")
    chk.rule('sample', "the suggested sample spectrum lies inside the range and evaluates without exception")
    for u in UNITS:
        def split(sc, label, u=u):
            g = sc.w.grid('g', 6, SCALE[u[1]], np=False)
            cases = {'nested real': ((g[0], g[5]), (g[2], g[4])), 'nested imag': ((g[1], g[3]), (g[0], g[4])),
                     'overlap low': ((g[0], g[3]), (g[1], g[5])), 'overlap high': ((g[2], g[5]), (g[0], g[4])),
                     'same': ((g[1], g[4]), (g[1], g[4]))}
            a, b = cases[label]
            lo = a[0] if sc.it.decide(Cond('cmp', '>=', a[0].nf, b[0].nf)) else b[0]
            hi = a[1] if sc.it.decide(Cond('cmp', '<=', a[1].nf, b[1].nf)) else b[1]
            for pu in ((u, u), (u, UM), (EV, u)):
                # parts in their own unit
                m = material(sc, fixed_n=sc.num(1.5), spectrum_type=u[0], unit=u[1])
                for part, r_, p in (('real', a, pu[0]), ('imag', b, pu[1])):
                    v = inunit(sc, r_, u, p)
                    if (factor(sc, u[1])[1]) != (factor(sc, p[1])[1]):
                        v = v[::-1]
                    sc.attr(m, 'data')[part] = interp(sc, v[0], v[1], p, part)
                rng(sc, '%s, parts in %s and %s' % (label, pu[0][1], pu[1][1]), m, lo, hi)
                if label == 'overlap low' and pu == (u, u):
                    sample(sc, '%s, parts in %s and %s' % (label, pu[0][1], pu[1][1]), m, lo, hi, u,
                           chk.thorough or u in (UM, EV))
        def kinds(sc, label, u=u):
            g = sc.w.grid('g', 6, SCALE[u[1]], np=False)
            a, b = {'nested real': ((g[0], g[5]), (g[2], g[4])), 'overlap': ((g[1], g[4]), (g[0], g[3]))}[label]
            lo, hi = (b[0] if label == 'nested real' else a[0]), b[1]
            mk = makers(sc)
            for ka in mk:
                for kb in mk:
                    if 'extrapolation' in (ka, kb) and not (chk.thorough or (u == NM and label == 'overlap')):
                        continue
                    for fl in (False, True):
                        m = material(sc, fixed_n=sc.num(1.5), spectrum_type=u[0], unit=u[1])
                        d = sc.attr(m, 'data')
                        d['real'] = mk[ka](*(b if fl else a), u, 'real')
                        d['imag'] = mk[kb](*(a if fl else b), u, 'imag')
                        rng(sc, '%s of %s and %s %s' % (label, ka, kb, fl), m, lo, hi)
        def apart(sc, u=u):
            # parts which are nowhere defined together: refused, or an empty interval
            g = sc.w.grid('g', 4, SCALE[u[1]], np=False)
            for fl in (False, True):
                m = material(sc, fixed_n=sc.num(1.5), spectrum_type=u[0], unit=u[1])
                d = sc.attr(m, 'data')
                d['real' if fl else 'imag'] = interp(sc, g[0], g[1], u, 'low')
                d['imag' if fl else 'real'] = interp(sc, g[2], g[3], u, 'high')
                for o in run(sc.w, lambda: sc.meth(m, 'get_maximum_valid_range')):
                    if o.kind != 'ok' or o.opaque() or not satisfiable(o.guards):
                        continue
                    es = elems(o.value) if o.value is not None else []
                    bad = None
                    if len(es) == 2 and all(isinstance(e, Num) and not e.special for e in es):
                        bad = all(a.real < b.real for a, b in zip(es[0].nf.vals(), es[1].nf.vals()))
                    sc.true('no range is reported for parts that are nowhere defined together %s' % fl, not bad,
                            "reports %s" % (es,))
        chk.scenario("parts apart in %s" % u[1], apart, limit=30)
        for label in ('nested real', 'overlap'):
            chk.scenario("kinds of parts in %s, %s" % (u[1], label), lambda sc, label=label: kinds(sc, label), limit=60)
        for label in ('nested real', 'nested imag', 'overlap low', 'overlap high', 'same'):
            chk.scenario("split parts in %s, %s" % (u[1], label), lambda sc, label=label: split(sc, label), limit=60)

        def tabs(sc, only, u=u):
            g = sc.w.grid('g', 3, SCALE[u[1]], np=False)
            t2 = table(sc, g, column(sc, 'a', 3))
            t3 = table(sc, g, column(sc, 'a', 3), column(sc, 'b', 3))
            for kw in (dict(tabulated_n=t2), dict(tabulated_nk=t3), dict(tabulated_eps=t3), dict(tabulated_n_alpha=t3)):
                k = list(kw)[0]
                if k != only:
                    continue
                for names in (u, (u[0].upper(), ALIASES[u[1]][-1])):
                    m = material(sc, k, spectrum_type=names[0], unit=names[1], **kw)
                    rng(sc, '%s in %s' % (k, names[1]), m, g[0], g[2])
                    if names is u:
                        sample(sc, '%s in %s' % (k, names[1]), m, g[0], g[2], u,
                               chk.thorough or u == NM)
        def full(sc, u=u):
            # spectral values with all their digits
            sc.w.round_exact = True
            g = sc.w.grid('g', 3, SCALE[u[1]], np=False)
            for k, n in (('tabulated_n', 1), ('tabulated_nk', 2)):
                m = material(sc, k, spectrum_type=u[0], unit=u[1],
                             **{k: table(sc, g, *[column(sc, 'c%d' % i, 3) for i in range(n)])})
                rng(sc, '%s with all digits in %s' % (k, u[1]), m, g[0], g[2])
            if u in (UM, EV):
                s = sc.ok('sample', lambda: sc.meth(m, 'get_sample_spectrum'))
                r = sc.ok('evaluation of the sample spectrum', lambda: sc.meth(m, 'get_nk_data', s))
                sc.true('sample spectrum evaluates in %s' % u[1], r is not None)
        chk.scenario("all digits in %s" % u[1], full, limit=60)
        for k in ('tabulated_n', 'tabulated_nk', 'tabulated_eps', 'tabulated_n_alpha'):
            chk.scenario("%s in %s" % (k, u[1]), lambda sc, k=k: tabs(sc, k), limit=60)

    for name, (ar, nat, out) in MODELS.items():
        if out not in ('n', 'eps'):
            continue

        def mod(sc, name=name, nat=nat):
            g = sc.w.grid('g', 2, SCALE[nat[1]], np=False)
            for order in (1, -1):
                kw = {'name': name, 'spectrum_type': nat[0], 'unit': nat[1], 'valid_range': sc.arr(g[::order], 'f'),
                      'parameters': sc.arr(params(sc, name), 'f')}
                m = material(sc, name, model_kw=kw)
                rng(sc, '%s range given %s' % (name, 'ascending' if order == 1 else 'descending'), m, g[0], g[1])
                if order == 1 and name in ('Cauchy', 'Drude'):
                    sample(sc, name, m, g[0], g[1], nat)
        chk.scenario("model %s" % name, mod, limit=60)

    def effective(sc):
        for u in (NM, EV):
            g = sc.w.grid('g' + u[1], 3, SCALE[u[1]], np=False)
            s = spectrum(sc, g, u)
            a, b = material(sc, fixed_eps=sc.sym('ea', real=False)), material(sc, fixed_eps=sc.sym('eb', real=False))
            for kind in ('Simple', 'MaxwellGarnett'):
                m = sc.ok(kind, lambda: sc.call('material.' + kind, s, a, b, sc.num(0.25)))
                w = inunit(sc, g, u, M)
                lo, hi = (w[0], w[2]) if u == NM else (w[2], w[0])
                d = sc.attr(m, 'defaults')
                du = (d['spectrum_type'], d['unit'])
                if du == M:
                    rng(sc, '%s sampled in %s' % (kind, u[1]), m, lo, hi)
    chk.scenario("effective media", effective, limit=60)

    def unbounded(sc):
        for kw in (dict(fixed_n=sc.num(1.5)), dict(fixed_eps_r=sc.num(2.0))):
            for u in (NM, EV, ('frequency', 'hz')):
                m = material(sc, 'constant', spectrum_type=u[0], unit=u[1], **kw)
                r = sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range'))
                sc.eq('unbounded constant in %s' % u[1], r, [sc.num(0.0), Num(None, 'f', False, 'inf')])
                s = sc.ok('sample', lambda: sc.meth(m, 'get_sample_spectrum'))
                sc.ok('evaluate sample', lambda: sc.meth(m, 'get_nk_data', s))
        # one part bounded, the other constant everywhere
        for u in (NM, EV):
            g = sc.w.grid('h' + u[1], 2, SCALE[u[1]], np=False)
            m = material(sc, tabulated_n=table(sc, g, column(sc, 'a', 2)), spectrum_type=u[0], unit=u[1])
            rng(sc, 'index only in %s' % u[1], m, g[0], g[1])
    chk.scenario("unbounded", unbounded, limit=60)

    def half(sc):
        """one side of the range is open"""
        z, inf = sc.num(0.0), Num(None, 'f', False, 'inf')
        for u in (NM, M, EV, ('frequency', 'hz')):
            x = sc.sym('b' + u[1], scale=SCALE[u[1]])
            for label, r_, want in (('up to a bound', [z, x], [z, x]), ('from a bound on', [x, inf], [x, inf])):
                for part in ('real', 'imag'):
                    m = material(sc, fixed_n=sc.num(1.5), spectrum_type=u[0], unit=u[1])
                    sc.attr(m, 'data')[part] = sc.ok('part', lambda: sc.call('spectral_data.Constant', sc.sym('c'), list(r_), spectrum_type=u[0], unit=u[1]))
                    lab = '%s in %s, %s part' % (label, u[1], part)
                    rng(sc, lab, m, *want)
                    s = sc.ok(lab + ' sample', lambda: sc.meth(m, 'get_sample_spectrum'))
                    es = elems(sc.ok(lab + ' values', lambda: sc.meth(s, 'convert_to', 'wavelength', 'm')))
                    bad = und = None
                    for i, e in enumerate(es):
                        for g_, v in leaves(scalarize(e)):
                            if isinstance(v, Num) and (v.special or all(not q.real > 0 for q in v.nf.vals())):
                                if not any(c.opaque() for c in g_) and satisfiable(g_):
                                    bad = (i, v)
                            elif not isinstance(v, Num):
                                und = v
                    sc.true(lab + ' sample finite and positive', False if bad else (None if und is not None else len(es) > 1), "sample %s" % (bad,))
    chk.scenario("half open ranges", half, limit=60)

    def suggest(sc):
        for u in (NM, EV):
            g = sc.w.grid('s' + u[1], 2, SCALE[u[1]], np=False)
            d = interp(sc, g[0], g[1], u, 'y')
            s = sc.ok('suggest', lambda: sc.meth(d, 'suggest_spectrum'))
            es = elems(sc.ok('values', lambda: sc.meth(s, 'convert_to', u[0], u[1])))
            sc.eq('suggested first in ' + u[1], es[0], g[0])
            sc.eq('suggested last in ' + u[1], es[-1], g[1])
            sc.ok('evaluate suggestion', lambda: sc.meth(d, 'evaluate', s))
            sc.true('suggestion evaluates', True)
    chk.scenario("suggested spectrum of data", suggest, limit=60)

    # ---- the range is asked for, the material is changed, the range is asked for again
    def again(sc, u, tgt):
        g = points(sc, 'g', 3, u)
        xs = g[1::2]
        for kind, n in (('tabulated_n', 1), ('tabulated_nk', 2)):
            m = material(sc, kind, spectrum_type=u[0], unit=u[1],
                         **{kind: table(sc, xs, *[column(sc, kind + c, 3) for c in 'ab'[:n]])})
            lab = '%s in %s' % (kind, u[1])
            rng(sc, lab + ' as given', m, xs[0], xs[2])
            sc.ok('sample', lambda: sc.meth(m, 'get_sample_spectrum'))
            sc.ok('extrapolate', lambda: sc.meth(m, 'extrapolate', spectrum(sc, inunit(sc, [g[6]], u, tgt), tgt)))
            rng(sc, lab + ' extended upwards', m, xs[0], g[6])
            s = sc.ok('sample', lambda: sc.meth(m, 'get_sample_spectrum'))
            es = elems(sc.ok('values', lambda: sc.meth(s, 'convert_to', u[0], u[1])))
            sc.eq(lab + ' extended upwards: bounds of the sample spectrum', [es[0], es[-1]], [xs[0], g[6]])
            sc.ok('extrapolate', lambda: sc.meth(m, 'extrapolate', spectrum(sc, inunit(sc, [g[0]], u, tgt), tgt)))
            rng(sc, lab + ' extended downwards too', m, g[0], g[6])
            s = sc.ok('sample', lambda: sc.meth(m, 'get_sample_spectrum'))
            es = elems(sc.ok('values', lambda: sc.meth(s, 'convert_to', u[0], u[1])))
            sc.eq(lab + ' extended downwards: bounds of the sample spectrum', [es[0], es[-1]], [g[0], g[6]])
            other = material(sc, kind, spectrum_type=u[0], unit=u[1],
                             **{kind: table(sc, xs[:2], *[column(sc, kind + 'o' + c, 2) for c in 'ab'[:n]])})
            rng(sc, lab + ': another material', other, xs[0], xs[1])
    for u, tgt in ((NM, NM), (EV, EV)):
        chk.scenario("range after extrapolation, %s" % u[1], lambda sc, u=u, tgt=tgt: again(sc, u, tgt), limit=60)
