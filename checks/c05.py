"""C05 purity and repeatability of queries"""
from .kit import *
from .c06 import elems, zoo
from .c08 import ref

EXPLAIN = ("ownership and effect analysis: objects handed in by the caller are compared with their state before each query "
           "(values, quantity, unit, later conversions; dictionaries and arrays element by element; materials by their answers); "
           "query histories (same length, same first value, same numbers in another unit, scalar/array, refused queries, other "
           "instances, media built in between) must give the same value numbers as the first answer and the oracle")
OTHER = (UM, EV, ('frequency', 'hz'))


def face(sc, s, extra=True):
    """observable state of a spectrum; attributes the package may add for itself do not count"""
    d = [snap(sc.attr(s, 'values'), {}), sc.attr(s, 'spectrum_type'), sc.attr(s, 'unit')]
    if extra:
        for u in OTHER:
            d.append(snap(sc.ok('conversion of the caller\'s spectrum', lambda: sc.meth(s, 'convert_to', u[0], u[1])), {}))
    return d


def same(sc, label, a, b, what):
    for x, y in zip(a, b):
        v, t = snapcmp(x, y) if isinstance(x, tuple) or isinstance(y, tuple) else (None, '')
        if not (isinstance(x, tuple) or isinstance(y, tuple)):
            v, t = compare(y, x)
        if v is not True:
            m = sc.w.mutations[-1] if sc.w.mutations else None
            return sc.true(label, v, "%s changed: %s%s" % (what, t, " (%s)" % (m,) if m else ''), str(m) if m else None)
    return sc.true(label, True)


def facts(sc, m, probes):
    """answers of a material: metadata, defaults, kind, range, values at the probes"""
    out = [snap(dict(sc.attr(m, 'meta_data')), {}), snap(dict(sc.attr(m, 'defaults')), {}), sc.attr(m, 'data')['name']]
    out.append(snap(sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), {}))
    for p in probes:
        out.append(snap(sc.ok('probe', lambda: sc.meth(m, 'get_nk_data', p)), {}))
    return out


def attempt(sc, fn):
    """run for effect; an exception is allowed"""
    return run(sc.w, fn)


def check(chk):
    chk.rule('effects', "no write reaches a caller-owned spectrum, array, list, dictionary or material during a query")
    chk.rule('history', "value number of a query after any of the listed histories == value number of the first answer")
    chk.rule('oracle', "interleaved queries equal the formula of the data at their own arguments (no answer of another query)")

    for u in (NM, M, EV):
        # ---- caller's spectra, arrays, lists
        def pure(sc, form_, u=u):
            for label, m, g, mu in zoo(sc, u):
                vals = [g[2]] if form_ == 'float' else [g[3], g[2], g[1]]
                raw = form(sc, vals, form_)
                held = snap(raw, {})
                s = sc.ok('spectrum', lambda: sc.call(sc.pub('Spectrum'), raw, mu[0], mu[1]))
                before = face(sc, s)
                d = sc.attr(m, 'data')
                part = d['complex'] if d['complex'] is not None else d['real']
                for what, fn in (('get_nk_data', lambda: sc.meth(m, 'get_nk_data', s)),
                                 ('get_permittivity', lambda: sc.meth(m, 'get_permittivity', s)),
                                 ('evaluate', lambda: sc.meth(part, 'evaluate', s)),
                                 ('contains', lambda: sc.meth(sc.attr(part, 'valid_range'), 'contains', s))):
                    sc.ok('%s %s' % (label, what), fn)
                    same(sc, '%s: %s leaves the spectrum (%s)' % (label, what, form_), before, face(sc, s), "caller's spectrum")
                for what in ('get_nk_data', 'get_permittivity'):
                    sc.ok('%s %s raw' % (label, what), lambda: sc.meth(m, what, raw, mu[0], mu[1]))
                same(sc, '%s: values passed in (%s)' % (label, form_), [held], [snap(raw, {})], "caller's values")
                # the same request expressed in another unit
                for ou in (EV, UM):
                    if ou == mu:
                        continue
                    raw = form(sc, inunit(sc, vals, mu, ou), form_)
                    held = snap(raw, {})
                    s = sc.ok('spectrum', lambda: sc.call(sc.pub('Spectrum'), raw, ou[0], ou[1]))
                    before = face(sc, s)
                    for what, fn in (('get_nk_data', lambda: sc.meth(m, 'get_nk_data', s)),
                                     ('get_permittivity', lambda: sc.meth(m, 'get_permittivity', s)),
                                     ('evaluate', lambda: sc.meth(part, 'evaluate', s)),
                                     ('contains', lambda: sc.meth(sc.attr(part, 'valid_range'), 'contains', s))):
                        sc.ok('%s %s' % (label, what), fn)
                        same(sc, '%s: %s leaves the spectrum in %s (%s)' % (label, what, ou[1], form_), before, face(sc, s),
                             "caller's spectrum")
                    for what in ('get_nk_data', 'get_permittivity'):
                        sc.ok('%s %s raw' % (label, what), lambda: sc.meth(m, what, raw, ou[0], ou[1]))
                    same(sc, '%s: values passed in %s (%s)' % (label, ou[1], form_), [held], [snap(raw, {})], "caller's values")
        for f in ('float', 'list', 'array'):
            chk.scenario("caller's spectrum, %s, %s" % (u[1], f), lambda sc, f=f: pure(sc, f))

    # ---- an answer belongs to the caller: writing into it changes no other answer
    def scribble(sc, u):
        for label, m, g, mu in zoo(sc, u):
            vals = [g[3], g[2], g[1]]
            d = sc.attr(m, 'data')
            ps = [d[k] for k in ('real', 'imag', 'complex') if d[k] is not None]
            qs = [('get_nk_data', lambda s: sc.meth(m, 'get_nk_data', s)), ('get_permittivity', lambda s: sc.meth(m, 'get_permittivity', s))]
            qs += [('evaluate of part %d' % i, lambda s, p=p: sc.meth(p, 'evaluate', s)) for i, p in enumerate(ps)]
            for ou in (mu, UM if mu != UM else NM):
                for what, fn in qs:
                    mk = lambda: sc.ok('spectrum', lambda: sc.call(sc.pub('Spectrum'), form(sc, inunit(sc, vals, mu, ou), 'array'), *ou))
                    s = mk()
                    before = face(sc, s)
                    r = sc.ok(label + ' ' + what, lambda: fn(s))
                    if not isinstance(r, Arr):
                        continue
                    first = snap(r, {})
                    sc.ok('overwrite the answer', lambda: sc.it.setitem(r, slice(None), sc.num(7.0)))
                    same(sc, '%s: overwriting the answer of %s leaves the spectrum' % (label, what), before, face(sc, s), "caller's spectrum")
                    for t, s2 in (('the same spectrum', s), ('an equal spectrum', mk())):
                        same(sc, '%s: %s at %s after the answer was overwritten' % (label, what, t), [first],
                             [snap(sc.ok(label + ' ' + what, lambda: fn(s2)), {})], "answer")
    for u in (NM, EV, M):
        chk.scenario("answers overwritten by the caller, %s" % u[1], lambda sc, u=u: scribble(sc, u), limit=60)

    # ---- a spectrum object filled anew: the answer belongs to what it holds now
    def refilled(sc, u):
        for label, m, g, mu in zoo(sc, u):
            d = sc.attr(m, 'data')
            ps = [d[k] for k in ('real', 'imag', 'complex') if d[k] is not None]
            qs = [('get_nk_data', lambda s: sc.meth(m, 'get_nk_data', s)), ('get_permittivity', lambda s: sc.meth(m, 'get_permittivity', s))]
            qs += [('evaluate of part %d' % i, lambda s, p=p: sc.meth(p, 'evaluate', s)) for i, p in enumerate(ps)]
            for what, fn in qs:
                for f, f2 in (('array', 'array'), ('float', 'float'), ('array', 'float')):
                    s = spectrum(sc, [g[3], g[1]] if f == 'array' else [g[3]], mu, f)
                    sc.ok(label + ' ' + what, lambda: fn(s))
                    vals = [g[1], g[2]] if f2 == 'array' else [g[2]]
                    ou = UM if f == 'float' and mu != UM else mu
                    sc.ok('fill again', lambda: sc.meth(s, '__init__', form(sc, inunit(sc, vals, mu, ou), f2), *ou))
                    got = snap(sc.ok(label, lambda: fn(s)), {})
                    same(sc, '%s: %s after the spectrum was filled anew (%s, %s)' % (label, what, f, f2),
                         [snap(sc.ok(label, lambda: fn(spectrum(sc, vals, mu, f2))), {})], [got], "answer")
    for u in (NM, EV):
        chk.scenario("spectrum filled anew, %s" % u[1], lambda sc, u=u: refilled(sc, u), limit=90)

    # ---- refused queries leave everything as it was
    def refused(sc):
        for label, m, g, mu in zoo(sc, NM):
            s_in = spectrum(sc, [g[2], g[1]], mu)
            bad = spectrum(sc, [g[2], g[4]], mu)
            b0, m0 = face(sc, bad), facts(sc, m, [s_in])
            attempt(sc, lambda: sc.meth(m, 'get_nk_data', bad))
            attempt(sc, lambda: sc.meth(m, 'get_permittivity', bad))
            attempt(sc, lambda: sc.meth(m, 'extrapolate', spectrum(sc, [g[2], g[2]], mu)) if 'tab' in label else None)
            same(sc, label + ': spectrum after a refused query', b0, face(sc, bad), "caller's spectrum")
            same(sc, label + ': answers after a refused query', m0, facts(sc, m, [s_in]), "material")
    chk.scenario("refused queries", refused, limit=60)

    # ---- conversion without in_place
    for src in UNITS:
        def conv(sc, src=src):
            g = sc.w.grid('x', 3, SCALE[src[1]], np=False)
            for f in ('float', 'list', 'array'):
                raw = form(sc, g[:1] if f == 'float' else g, f)
                held = snap(raw, {})
                s = sc.ok('spectrum', lambda: sc.call(sc.pub('Spectrum'), raw, src[0], src[1]))
                a0 = face(sc, s, False)
                first = {}
                for t in UNITS:
                    first[t] = snap(sc.ok('convert', lambda: sc.meth(s, 'convert_to', t[0], t[1])), {})
                    same(sc, '%s %s -> %s leaves the spectrum' % (f, src[1], t[1]), a0, face(sc, s, False), "spectrum")
                for t in UNITS[::-1]:
                    r = snap(sc.ok('convert', lambda: sc.meth(s, 'convert_to', t[0], t[1])), {})
                    same(sc, '%s %s -> %s repeated' % (f, src[1], t[1]), [first[t]], [r], "answer")
                o = spectrum(sc, g[1:2], src)
                attempt(sc, lambda: sc.meth(s, 'contains', o))
                attempt(sc, lambda: sc.meth(o, 'contains', s))
                sc.ok('label', lambda: sc.meth(s, 'get_type_unit_string'))
                same(sc, '%s %s range checks leave the spectrum' % (f, src[1]), a0, face(sc, s, False), "spectrum")
                for t in (UM, EV, ('wavenumber', '1/cm')):
                    sc.ok('convert in place', lambda: sc.meth(s, 'convert_to', t[0], t[1], True))
                    same(sc, '%s %s in place to %s leaves the array given to the constructor' % (f, src[1], t[1]), [held],
                         [snap(raw, {})], "caller's values")
        chk.scenario("conversion of %s" % src[1], conv)

    # ---- many spectra one after the other, alike in length, ends, sum and set of values
    def alike(sc, src):
        g = sc.w.grid('x', 5, SCALE[src[1]], np=False)
        a, b, c, d, e = g
        lots = [[a, b, e], [e, b, a], [b, a, e], [a, c, e], [a, d, e], [a, b, e], [a, e], [b, e], [a, b], [e, a]]
        mid = Num((a.nf + e.nf) * NF.num(Fraction(1, 2)), 'f')
        lots += [[a, mid, e], [mid, mid, mid], [mid, a, e], [mid], [a], [e]]
        for f in ('list', 'array'):
            for k, vs in enumerate(lots):
                s = sc.ok('spectrum', lambda: sc.call(sc.pub('Spectrum'), form(sc, vs, f), src[0], src[1]))
                for t in (NM, UM, EV, ('frequency', 'hz'), ('wavenumber', '1/cm'), src):
                    got = sc.ok('convert', lambda: sc.meth(s, 'convert_to', t[0], t[1]))
                    sc.eq('%s number %d from %s to %s' % (f, k, src[1], t[1]), elems(got), [relation(sc, v, src, t) for v in vs])
    for src in (NM, UM, EV, ('frequency', 'hz')):
        chk.scenario("spectra alike, %s" % src[1], lambda sc, src=src: alike(sc, src), limit=60)

    # ---- objects made separately are separate
    def separate(sc):
        g = points(sc, 'g', 2, NM)
        t3 = table(sc, g[1::2], column(sc, 'a', 2), column(sc, 'b', 2))
        t2 = table(sc, g[1::2], column(sc, 'c', 2))
        for k, ext in enumerate(('.txt', '.csv', '.yml')):
            sep = ',' if ext == '.csv' else ' '
            rows = ['%s%s%s' % (w, sep, n) for w, n in (('400.0', '1.5'), ('800.0', '1.6'))]
            for n in 'pq':
                body = '# SpectrumType: wavelength\n# Unit: nm\n' + '\n'.join(rows) + '\n' if ext != '.yml' else \
                    'DATA:\n  - type: tabulated n\n    data: |\n        0.4 1.5\n        0.8 1.6\n'
                sc.w.fs.put('/home/u/%s%s' % (n, ext), body)
        mk = {'fixed_n': lambda: material(sc, fixed_n=sc.num(1.5)), 'fixed_eps': lambda: material(sc, fixed_eps=sc.sym('e', real=False)),
              'tabulated_n': lambda: material(sc, tabulated_n=t2, spectrum_type='wavelength', unit='nm'),
              'tabulated_nk': lambda: material(sc, tabulated_nk=t3, spectrum_type='wavelength', unit='nm')}
        for ext in ('.txt', '.csv', '.yml'):
            mk['file ' + ext] = lambda ext=ext, c=[0]: (c.append(1), material(sc, ext, file_path='/home/u/%s%s' % ('pq'[len(c) % 2], ext)))[1]
        probe = [spectrum(sc, [sc.num(500.0)], NM, 'float')]
        made = [(lab, f(), f()) for lab, f in mk.items()]

        def view(m):
            return [snap(dict(sc.attr(m, 'meta_data')), {}), snap(dict(sc.attr(m, 'defaults')), {}), snap(dict(sc.attr(m, 'options')), {})]
        fresh = {l: view(x) for l, x, y in made}
        for lab, a, b in made:
            others = [(l, x) for l, p, q in made for x in (p, q) if x is not a]
            before = [view(x) for l, x in others]
            for d in (sc.attr(a, 'meta_data'), sc.attr(a, 'options'), sc.attr(a, 'defaults')):
                for v in list(d.values()):
                    if isinstance(v, dict):
                        v['added'] = 'x'
                    elif isinstance(v, list):
                        v.append('x')
                d['added'] = 'x'
            for (l, x), v in zip(others, before):
                same(sc, "%s after the dictionaries of a material from %s were changed" % (l, lab), v, view(x), "another material's dictionaries")
            for (l, x) in ((lab, f()) for lab, f in mk.items()):
                md = [snap(dict(sc.attr(x, 'meta_data')), {}), snap(dict(sc.attr(x, 'defaults')), {}), snap(dict(sc.attr(x, 'options')), {})]
                same(sc, "%s made after the dictionaries of a material from %s were changed" % (l, lab), fresh[l], md, "a new material's dictionaries")
    chk.scenario("separate materials", separate, limit=90)

    # ---- histories over tables: concrete nodes so that one number is valid in several units
    def hist(sc, kind):
        xs = [sc.num(v) for v in (1.0, 700.0, 1.0e7)]
        cols = [column(sc, 'a', 3), column(sc, 'b', 3)]
        mk = lambda: material(sc, kind, spectrum_type='wavelength', unit='nm',
                              **{kind: table(sc, xs, *(cols[:1] if kind == 'tabulated_n' else cols))})
        m, m2 = mk(), mk()
        zero = sc.num(0.0)

        def want(v, u):
            x = relation(sc, sc.num(v), u, NM)
            if kind == 'tabulated_n_alpha':
                ks = []
                for xx, al in zip(xs, cols[1]):
                    ks.append(Num(al.nf * xx.nf * NF.num(Fraction(1, 10 ** 7)) / (NF.num(4) * pi(sc)), 'f'))
            else:
                ks = cols[1]
            lo = x.nf.vals()[0].real < 700.0
            i = 0 if lo else 1
            re = lerp(sc, x, xs[i], xs[i + 1], cols[0][i], cols[0][i + 1])
            im = zero if kind == 'tabulated_n' else lerp(sc, x, xs[i], xs[i + 1], ks[i], ks[i + 1])
            return cplx(sc, re, im)
        Q = [([500.0, 600.0], NM), ([500.0, 900.0], NM), ([500.0, 600.0], UM), ([600.0, 500.0], NM), ([500.0, 600.0, 900.0], NM),
             ([500.0], NM), (500.0, NM), (500.0, UM), ([500.0, 600.0], NM), ([2.0, 0.5], EV), ([2.0, 0.5], UM), (2.0, EV), (2.0, UM)]

        def ask(mm, q, fn='get_nk_data', raw=False):
            v, u = q
            vals = sc.num(v) if isinstance(v, float) else sc.arr([sc.num(x) for x in v], 'f')
            if raw:
                return sc.ok('query', lambda: sc.meth(mm, fn, vals, u[0], u[1]))
            s = sc.ok('spectrum', lambda: sc.call(sc.pub('Spectrum'), vals, u[0], u[1]))
            return sc.ok('query', lambda: sc.meth(mm, fn, s))

        def expect(label, got, q, fn):
            v, u = q
            ws = [want(x, u) for x in ([v] if isinstance(v, float) else v)]
            if (kind == 'tabulated_eps') != (fn == 'get_permittivity'):
                ws = [nsq(w) if kind != 'tabulated_eps' else nsqrt(sc, w) for w in ws]
            sc.eq(label, got if not isinstance(v, float) else elems(got), ws)
        kept = []
        for rnd, order in enumerate((Q, Q[::-1])):
            for i, q in enumerate(order):
                for fn in ('get_nk_data', 'get_permittivity'):
                    for k, mm in enumerate((m, m2)):
                        r = ask(mm, q, fn, raw=(i % 3 == 2))
                        expect('%s round %d query %d of object %d: %s %s %s' % (kind, rnd, i, k, fn, q[0], q[1][1]), r, q, fn)
                        kept.append((r, snap(r, {})))
        same(sc, kind + ': answers already given stay as they are', [b for a, b in kept], [snap(a, {}) for a, b in kept], "answer")
        # one spectrum object re-used after in-place conversion
        s = sc.ok('spectrum', lambda: sc.call(sc.pub('Spectrum'), sc.arr([sc.num(500.0), sc.num(600.0)], 'f'), 'wavelength', 'nm'))
        r0 = sc.ok('query', lambda: sc.meth(m, 'get_nk_data', s))
        for t in (EV, UM, ('frequency', 'hz'), ('wavenumber', '1/cm'), NM):
            sc.ok('convert in place', lambda: sc.meth(s, 'convert_to', t[0], t[1], True))
            for fn in ('get_nk_data', 'get_permittivity'):
                expect('%s %s after in-place conversion to %s' % (kind, fn, t[1]), sc.ok('query', lambda: sc.meth(m, fn, s)),
                       ([500.0, 600.0], NM), fn)
        # values of the same spectrum replaced by another spectrum between two queries
        for q in (Q[1], Q[3], Q[4]):
            expect('%s interleaved %s' % (kind, q[0]), ask(m, q), q, 'get_nk_data')
            expect('%s again' % kind, ask(m, Q[0]), Q[0], 'get_nk_data')
    for kind in ('tabulated_n', 'tabulated_nk', 'tabulated_eps', 'tabulated_n_alpha'):
        chk.scenario("history of %s" % kind, lambda sc, kind=kind: hist(sc, kind), limit=60)

    # ---- histories over models
    for name in MODELS:
        def mods(sc, name=name):
            nat = MODELS[name][1]
            xs = [sc.num(v) for v in ((0.4, 0.5, 1.3) if nat == UM else (0.5, 1.5, 3.0))]
            lo, hi = sc.num(0.01), sc.num(1000.0)
            data = []
            for t in 'pq':
                p = params(sc, name, tag=t)
                if name == 'TaucLorentz':
                    p = [sc.sym('%sA' % t, scale=40.0), sc.num(3.5), sc.num(2.0), sc.num(1.2 if t == 'p' else 2.2), sc.sym('%si' % t)]
                arr = sc.arr(p, 'f')
                d = sc.ok('build', lambda: sc.call('spectral_data.' + name, arr, [lo, hi], spectrum_type=nat[0], unit=nat[1]))
                data.append((d, p, arr, snap(arr, {})))
            first = {}
            kept = []
            ctxs = [xs[:2], [xs[0], xs[2]], [xs[1], xs[0]], xs, [xs[1]]]
            for rnd in (0, 1):
                for k, (d, p, arr, held) in enumerate(data):
                    for j, vals in enumerate(ctxs):
                        for f in (('array', 'float') if len(vals) == 1 else ('array',)):
                            s = spectrum(sc, vals, nat, f)
                            before = face(sc, s, False)
                            r = sc.ok('evaluate', lambda: sc.meth(d, 'evaluate', s))
                            lab = '%s object %d context %d %s round %d' % (name, k, j, f, rnd)
                            same(sc, lab + ' leaves the spectrum', before, face(sc, s, False), "caller's spectrum")
                            same(sc, lab + ' leaves the parameters', [held], [snap(arr, {})], "parameter array")
                            want = [ref(sc, name, [x.nf for x in p], v.nf) for v in vals]
                            if want[0] is not None:
                                sc.eq(lab, elems(r), [Num(w, 'c') for w in want])
                            key = (k, j, f)
                            if key in first:
                                same(sc, lab + ' repeated', [first[key]], [snap(r, {})], "answer")
                            first[key] = snap(r, {})
                            kept.append((r, first[key]))
                            # same numbers in another unit in between
                            o = (NM if nat == UM else ('wavelength', 'um'))
                            attempt(sc, lambda: sc.meth(d, 'evaluate', spectrum(sc, vals, o, f)))
            same(sc, name + ': answers already given stay as they are', [b for a, b in kept], [snap(a, {}) for a, b in kept], "answer")
        chk.scenario("history of model %s" % name, mods, limit=60)

    # ---- dictionaries and tables given to the constructor
    def given(sc):
        for kind, n in (('tabulated_n', 1), ('tabulated_nk', 2), ('tabulated_eps', 2), ('tabulated_n_alpha', 2)):
            g = points(sc, 'g' + kind, 3, NM)
            t = table(sc, g[1::2], *[column(sc, kind + c, 3) for c in 'ab'[:n]])
            held = snap(t, {})
            m = material(sc, kind, spectrum_type='wavelength', unit='nm', **{kind: t})
            for st in range(2):
                sc.ok('query', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[2], g[4]], NM)))
                sc.ok('query', lambda: sc.meth(m, 'get_permittivity', spectrum(sc, [g[2]], NM)))
                attempt(sc, lambda: sc.meth(m, 'prepare_file_dict'))
                attempt(sc, lambda: sc.meth(m, 'extrapolate', spectrum(sc, [g[0], g[6]], NM)))
                same(sc, '%s: table given to the material' % kind, [held], [snap(t, {})], "caller's table")
        # tables in any order, given to the data class itself
        for order in ('ascending', 'descending', 'mixed'):
            g = points(sc, 'o' + order, 3, NM)
            xs = {'ascending': [g[1], g[3], g[5]], 'descending': [g[5], g[3], g[1]], 'mixed': [g[3], g[5], g[1]]}[order]
            t = table(sc, xs, column(sc, 'o' + order, 3))
            held = snap(t, {})
            d = sc.ok('Interpolation', lambda: sc.call('spectral_data.Interpolation', t, spectrum_type='wavelength', unit='nm'))
            same(sc, '%s table given to Interpolation' % order, [held], [snap(t, {})], "caller's table")
            attempt(sc, lambda: sc.meth(d, 'evaluate', spectrum(sc, [g[2], g[4]], NM)))
            attempt(sc, lambda: sc.meth(d, 'dict_repr'))
            attempt(sc, lambda: sc.meth(d, 'suggest_spectrum'))
            same(sc, '%s table after queries' % order, [held], [snap(t, {})], "caller's table")
            t3 = table(sc, xs, column(sc, 'p' + order, 3), column(sc, 'q' + order, 3))
            for kind in ('tabulated_nk', 'tabulated_eps', 'tabulated_n_alpha', 'tabulated_n'):
                tt = t3 if kind != 'tabulated_n' else t
                held3 = snap(tt, {})
                attempt(sc, lambda: sc.call(sc.pub('Material'), spectrum_type='wavelength', unit='nm', **{kind: tt}))
                same(sc, '%s table given as %s' % (order, kind), [held3], [snap(tt, {})], "caller's table")
        for cls, args in (('Constant', [sc.num(1.5)]), ('Cauchy', [sc.arr(params(sc, 'Cauchy'), 'f')])):
            for cont in ('list', 'array'):
                g = points(sc, 'c' + cls + cont, 1, UM)
                for o in (1, -1):
                    r = form(sc, [g[0], g[2]][::o], cont)
                    held = snap([r] + args, {})
                    d = sc.ok(cls, lambda: sc.call('spectral_data.' + cls, *args, r, spectrum_type='wavelength', unit='um'))
                    sc.ok('evaluate', lambda: sc.meth(d, 'evaluate', spectrum(sc, [g[1]], UM)))
                    attempt(sc, lambda: sc.meth(d, 'dict_repr'))
                    same(sc, '%s: range given as %s' % (cls, cont), [held], [snap([r] + args, {})], "caller's range or parameters")
        for name in ('Cauchy', 'Drude'):
            nat = MODELS[name][1]
            g = points(sc, 'm' + name, 2, nat)
            kw = {'name': name, 'spectrum_type': nat[0], 'unit': nat[1], 'valid_range': sc.arr([g[1], g[3]], 'f'),
                  'parameters': sc.arr(params(sc, name), 'f')}
            held = snap(kw, {})
            m = material(sc, name, model_kw=kw)
            sc.ok('query', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[2]], nat)))
            sc.ok('file dict', lambda: sc.meth(m, 'prepare_file_dict'))
            same(sc, '%s: dictionary given to the material' % name, [held], [snap(kw, {})], "caller's dictionary")
    chk.scenario("constructor arguments", given, limit=60)

    # ---- asking for ranges, sample spectra, file dictionaries
    def asks(sc):
        for label, m, g, mu in zoo(sc, NM):
            probes = [spectrum(sc, [g[2], g[1]], mu), spectrum(sc, [g[2]], mu, 'float')]
            f0 = facts(sc, m, probes)
            d = [x for x in (sc.attr(m, 'data')[k] for k in ('real', 'imag', 'complex')) if x is not None]
            vr = [face(sc, sc.attr(x, 'valid_range'), False) for x in d]
            r0 = None
            for what in ('get_maximum_valid_range', 'prepare_file_dict', 'dataset_to_dict', 'get_maximum_valid_range',
                         'prepare_file_dict'):
                r = sc.ok('%s %s' % (label, what), lambda: sc.meth(m, what))
                if what == 'prepare_file_dict':
                    r = snap(r, {})
                    if r0 is not None:
                        same(sc, '%s: second prepare_file_dict' % label, [r0], [r], "file dictionary")
                    r0 = r
                same(sc, '%s: answers after %s' % (label, what), f0, facts(sc, m, probes), "material")
            same(sc, '%s: ranges of the parts' % label, [x for v in vr for x in v],
                 [x for p in d for x in face(sc, sc.attr(p, 'valid_range'), False)], "valid range")
    chk.scenario("ranges and file dictionaries", asks, limit=90)

    def samples(sc):
        g = points(sc, 'g', 2, UM)
        for label, m in (('table', material(sc, tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)), spectrum_type='wavelength', unit='um')),
                         ('constant', material(sc, fixed_n=sc.num(1.5)))):
            pr = [spectrum(sc, [g[2]], UM)]
            f0 = facts(sc, m, pr)
            a = sc.ok('sample', lambda: sc.meth(m, 'get_sample_spectrum'))
            sc.ok('convert', lambda: sc.meth(a, 'convert_to', 'energy', 'ev', True))
            b = sc.ok('sample', lambda: sc.meth(m, 'get_sample_spectrum'))
            same(sc, label + ': answers after sampling', f0, facts(sc, m, pr), "material")
            sc.eq(label + ': second sample spectrum has its own unit', [sc.attr(b, 'spectrum_type')], ['wavelength'])
            d = sc.attr(m, 'data')['real']
            if label == 'table':
                v0 = face(sc, sc.attr(d, 'valid_range'), False)
                sc.ok('suggest', lambda: sc.meth(d, 'suggest_spectrum'))
                same(sc, 'valid range after suggest_spectrum', v0, face(sc, sc.attr(d, 'valid_range'), False), "valid range")
    chk.scenario("sample spectra", samples, limit=90)

    # ---- effective media
    def media(sc, kind, u):
        g = points(sc, 'g', 3, u)
        xs = g[1::2]
        mats = [material(sc, k, spectrum_type=u[0], unit=u[1], **{k: table(sc, xs, column(sc, t + 'r', 3), column(sc, t + 'i', 3))})
                for k, t in (('tabulated_eps', 'A'), ('tabulated_nk', 'B'))]
        for m in mats:
            sc.attr(m, 'meta_data')['Reference'] = 'ref'
        probe = [spectrum(sc, [g[2], g[3]], u)]
        f0 = [facts(sc, m, probe) for m in mats]
        raw = sc.arr([xs[0], xs[1], xs[2]], 'f')
        held = snap(raw, {})
        s = sc.ok('spectrum', lambda: sc.call(sc.pub('Spectrum'), raw, u[0], u[1]))
        s0 = face(sc, s)
        answers = {}
        for i, fr in enumerate((0.25, 0.5, 0.25)):
            for j, (a, b) in enumerate(((mats[0], mats[1]), (mats[1], mats[0]))):
                e = sc.ok('medium', lambda: sc.call('material.' + kind, s, a, b, sc.num(fr)))
                r = snap(sc.ok('evaluate', lambda: sc.meth(e, 'get_permittivity', s)), {})
                if (fr, j) in answers:
                    same(sc, '%s %s of the same constituents again' % (kind, fr), [answers[fr, j]], [r], "answer")
                answers[fr, j] = r
                same(sc, '%s %d %d leaves the spectrum' % (kind, i, j), s0, face(sc, s), "caller's spectrum")
                same(sc, '%s %d %d leaves the values' % (kind, i, j), [held], [snap(raw, {})], "caller's values")
                for k, m in enumerate(mats):
                    same(sc, '%s %d %d leaves constituent %d' % (kind, i, j, k), f0[k], facts(sc, m, probe), "constituent")
                for q in ('meta_data', 'defaults', 'data', 'options'):
                    sc.true('%s has its own %s' % (kind, q), sc.attr(e, q) is not sc.attr(a, q) and sc.attr(e, q) is not sc.attr(b, q),
                            "%s of the medium is the constituent's own object" % q)
        v, t = snapcmp(answers[0.25, 0], answers[0.5, 0])
        sc.true('%s: different fractions differ' % kind, v is False, 'two fractions give one answer')
        attempt(sc, lambda: sc.call('material.' + kind, s, mats[0], mats[1], sc.num(1.5)))
        same(sc, '%s refused leaves the spectrum' % kind, s0, face(sc, s), "caller's spectrum")
    for kind in ('Simple', 'MaxwellGarnett', 'Bruggeman'):
        for u in (NM, EV):
            chk.scenario("effective medium %s %s" % (kind, u[1]), lambda sc, kind=kind, u=u: media(sc, kind, u), limit=60)

    # ---- extrapolation
    def base(sc, u, tgt):
        """the data that is extended stays what it was"""
        g = points(sc, 'e', 2, u)
        for f in ('float', 'list', 'array'):
            for kind in ('Constant', 'Cauchy', 'Drude'):
                if kind != 'Constant' and MODELS[kind][1] != u:
                    continue
                if kind == 'Constant':
                    d = sc.ok('base', lambda: sc.call('spectral_data.Constant', sc.sym('c'), valid_range=(g[1], g[3]), spectrum_type=u[0], unit=u[1]))
                else:
                    d = model(sc, kind, (g[1], g[3]))
                q = spectrum(sc, [g[1], g[2], g[3]], u)
                r0 = face(sc, sc.attr(d, 'valid_range'))
                a0 = snap(sc.ok('query', lambda: sc.meth(d, 'evaluate', q)), {})
                s = spectrum(sc, inunit(sc, [g[4]] if f == 'float' else [g[0], g[4]], u, tgt), tgt, f)
                attempt(sc, lambda: sc.call('spectral_data.Extrapolation', d, s, spline_order=1))
                lab = 'extending %s by %s in %s' % (kind, f, tgt[1])
                same(sc, lab + ' leaves its range', r0, face(sc, sc.attr(d, 'valid_range')), "range of the data extended")
                same(sc, lab + ' leaves its values', [a0], [snap(sc.ok('query', lambda: sc.meth(d, 'evaluate', q)), {})], "data extended")
                sc.raises(lab + ': the data extended still refuses', lambda: sc.meth(d, 'evaluate', spectrum(sc, [g[4]], u)))
    for u, tgt in ((UM, UM), (UM, EV), (EV, EV), (NM, NM)):
        chk.scenario("data extended in %s by %s" % (u[1], tgt[1]), lambda sc, u=u, tgt=tgt: base(sc, u, tgt), limit=60)

    def extra(sc, u, tgt):
        g = points(sc, 'g', 3, u)
        xs = g[1::2]
        t = table(sc, xs, column(sc, 'a', 3), column(sc, 'b', 3))
        mk = lambda: material(sc, 'nk', spectrum_type=u[0], unit=u[1], tabulated_nk=t)
        m, other = mk(), mk()
        probe = [spectrum(sc, [g[2], g[3]], u)]
        f0 = facts(sc, other, probe)
        held = snap(t, {})
        for f in ('float', 'list', 'array'):
            vals = inunit(sc, [g[6]] if f == 'float' else [g[0], g[6]], u, tgt)
            raw = form(sc, vals, f)
            hr = snap(raw, {})
            s = sc.ok('spectrum', lambda: sc.call(sc.pub('Spectrum'), raw, tgt[0], tgt[1]))
            s0 = face(sc, s)
            mm = mk()
            sc.ok('extrapolate %s' % f, lambda: sc.meth(mm, 'extrapolate', s))
            lab = 'extrapolation given %s in %s' % (f, tgt[1])
            same(sc, lab + ' leaves the spectrum', s0, face(sc, s), "caller's spectrum")
            same(sc, lab + ' leaves the values', [hr], [snap(raw, {})], "caller's values")
            same(sc, lab + ' leaves the table', [held], [snap(t, {})], "caller's table")
            same(sc, lab + ' leaves other materials', f0, facts(sc, other, probe), "another material")
            # queries beyond the old range are repeatable and do not touch the spectrum
            q = spectrum(sc, inunit(sc, [g[6], g[5]], u, tgt), tgt)
            q0 = face(sc, q)
            r1 = snap(sc.ok('query', lambda: sc.meth(mm, 'get_nk_data', q)), {})
            sc.ok('query', lambda: sc.meth(mm, 'get_nk_data', probe[0]))
            r2 = snap(sc.ok('query', lambda: sc.meth(mm, 'get_nk_data', q)), {})
            same(sc, lab + ': repeated query beyond the table', [r1], [r2], "answer")
            same(sc, lab + ': query beyond the table leaves the spectrum', q0, face(sc, q), "caller's spectrum")
    for u, tgt in ((NM, NM), (NM, EV), (EV, NM), (M, UM)):
        chk.scenario("extrapolation of %s to %s" % (u[1], tgt[1]), lambda sc, u=u, tgt=tgt: extra(sc, u, tgt), limit=60)

    # ---- writing
    def writing(sc, ext):
        g = points(sc, 'g', 2, NM)
        t = table(sc, g[1::2], column(sc, 'a', 2), column(sc, 'b', 2))
        m = material(sc, 'nk', spectrum_type='wavelength', unit='nm', tabulated_nk=t)
        md = sc.attr(m, 'meta_data')
        md['Reference'] = 'some reference'
        md['MetaComment'] = 'first\nsecond'
        md['Specification'] = {'temperature': '20 C', 'substrate': 'glass', 'other': 'x'}
        probe = [spectrum(sc, [g[2]], NM)]
        f0 = facts(sc, m, probe)
        for k in range(2):
            for kw in ({}, {'use_rii_aliases': True}, {'ignore_constant': False}):
                w = sc.ok('writer', lambda: sc.call('io.Writer', '/home/u/out' + ext, m))
                sc.ok('write', lambda: sc.meth(w, 'write_file', **{a: b for a, b in kw.items()}))
                same(sc, 'writing %s %s leaves the material' % (ext, sorted(kw)), f0, facts(sc, m, probe), "material")
                same(sc, 'writing %s %s leaves the specification' % (ext, sorted(kw)),
                     [snap({'temperature': '20 C', 'substrate': 'glass', 'other': 'x'}, {})],
                     [snap(sc.attr(m, 'meta_data')['Specification'], {})], "specification")
    for ext in ('.txt', '.csv', '.yml', '.nk'):
        chk.scenario("writing %s" % ext, lambda sc, ext=ext: writing(sc, ext), limit=60)
    chk.scenario("writing .yml with ruamel", lambda sc: writing(sc, '.yml'), limit=60, ruamel=True)
