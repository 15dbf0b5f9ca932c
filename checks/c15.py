"""C15 reading documented files"""
from .iokit import *
from .c08 import ref, ARITIES

EXPLAIN = ("the Reader and Material constructor interpreted over documents of the documented text format and of the "
           "refractiveindex.info YAML format: every dataset type, keyword spelling, unit source, combination of datasets and "
           "layout of the columns, with symbolic numbers; results compared with the documented meaning term by term")
FORMULA = ['Sellmeier', 'Sellmeier2', 'Polynomial', 'RefractiveIndexInfo', 'Cauchy', 'Gases', 'Herzberger', 'Retro', 'Exotic']
TABLES = {'n': 1, 'k': 1, 'nk': 2, 'n_alpha': 2, 'eps': 2}


def rows(sc, xs, cols, sep=' '):
    return [sep.join(tok(sc, v) for v in [x] + [c[i] for c in cols]) for i, x in enumerate(xs)]


def alpha_k(sc, a, x, u):
    """k = alpha*lambda/(4 pi), alpha in 1/cm"""
    cm = relation(sc, x, u, ('wavelength', 'cm'))
    return Num(a.nf * cm.nf / (NF.num(4) * pi(sc)), 'f')


def expect(sc, kind, xs, cols, i, x, u):
    """(real, imag) between node i and i+1 at x"""
    zero = Num(NF.num(0), 'f')
    l = lambda c: lerp(sc, x, xs[i], xs[i + 1], c[i], c[i + 1])
    if kind == 'n':
        return l(cols[0]), zero
    if kind == 'k':
        return zero, l(cols[0])
    if kind in ('nk', 'eps'):
        return l(cols[0]), l(cols[1])
    ks = [alpha_k(sc, a, p, u) for a, p in zip(cols[1], xs)]
    return l(cols[0]), l(ks)


def verify(sc, label, m, kind, g, cols, u):
    xs = g[1::2]
    sc.eq(label + ' kind', sc.attr(m, 'data')['name'], 'eps' if kind == 'eps' else 'nk')
    for i in range(len(xs) - 1):
        x = g[2 * i + 2]
        re, im = expect(sc, kind, xs, cols, i, x, u)
        fn = 'get_permittivity' if kind == 'eps' else 'get_nk_data'
        v = sc.ok(label + ' evaluate', lambda: sc.meth(m, fn, spectrum(sc, [x], u)))
        sc.eq('%s interval %d' % (label, i), elems(v)[0], cplx(sc, re, im))
    for x in (g[0], g[-1]):
        sc.raises(label + ' outside', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [x], u)))


HEAD = (('Reference', 'REFERENCES'), ('Author', 'AUTHOR'), ('FullName', 'FULLNAME'), ('Name', 'NAME'), ('Comment', 'COMMENTS'))
CASES = (str.upper, str.lower, str.capitalize, lambda s: ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s)))


def check(chk):
    chk.rule('dataset', "each dataset type yields the documented quantity: value numbers of the evaluation in every interval / of the formula")
    chk.rule('unit', "the unit and quantity of the file, else those of the caller, else nanometre wavelengths")
    chk.rule('metadata', "each keyword, in any letter case and order, sets its own field and no other")
    chk.rule('columns', "white space / comma separated columns, comment marks, blank lines, number formats")

    # ---- text files
    def text_(sc, ext, kind, u, src, header, sep, mark):
        n = 3
        g = points(sc, 'g', n, u)
        cols = [column(sc, 'a', n), column(sc, 'b', n)][:TABLES[kind]]
        lines = []
        if header == 'full':
            lines += [mark + ' free text', mark]
        if src == 'file':
            lines += ['%s SPECTRUMTYPE: %s' % (mark, u[0]), '%s UNIT: %s' % (mark, u[1])]
        if not (header == 'none' and kind in ('n', 'nk')):
            lines.append('%s DATATYPE: tabulated %s' % (mark, kind))
        if header == 'full':
            lines.append(mark)
        body = rows(sc, g[1::2], cols, sep)
        p = put(sc, 't' + ext, '\n'.join(lines + body) + '\n')
        kw = {}
        if src == 'caller':
            kw = {'spectrum_type': u[0], 'unit': u[1]}
        elif src == 'file':
            kw = {'spectrum_type': 'frequency', 'unit': 'hz'}
        verify(sc, kind, read(sc, p, **kw), kind, g, cols, u)
    for ext, sep, mark in (('.txt', '\t', '#'), ('.txt', ' ', '#'), ('.txt', '   ', '#'), ('.csv', ',', '#'), ('.csv', ', ', '#'),
                           ('.nk', '\t', ';'), ('.nk', ' ', ';')):
        for kind in TABLES:
            for u, src in [(x, s) for x in (UNITS if sep in '\t,' else [UM]) for s in ('file', 'caller')] + [(NM, 'default')]:
                for header in ('none', 'full'):
                    chk.scenario("%s %r %s, %s %s from %s, header %s" % (ext, sep, kind, u[0], u[1], src, header),
                                 lambda sc, a=(ext, kind, u, src, header, sep, mark): text_(sc, *a))

    def layout(sc, ext, sep, mark):
        """leading / trailing blanks, blank lines, trailing comments, missing newline, CRLF"""
        g = points(sc, 'g', 3, NM)
        cols = [column(sc, 'a', 3), column(sc, 'b', 3)]
        b = rows(sc, g[1::2], cols, sep)
        for name, t in (('plain', '\n'.join(b)), ('blank line at the end', '\n'.join(b) + '\n\n'),
                        ('indented', '\n'.join('  ' + x for x in b) + '\n'), ('trailing blanks', '\n'.join(x + '  ' for x in b) + '\n'),
                        ('blank lines between', '\n\n'.join(b) + '\n'), ('comment between', b[0] + '\n' + mark + ' note\n' + '\n'.join(b[1:]) + '\n'),
                        ('trailing comments', '\n'.join(x + ' ' + mark + ' note' for x in b) + '\n')):
            p = put(sc, 'l' + ext, mark + ' head\n' + t)
            verify(sc, name, read(sc, p), 'nk', g, cols, NM)
    for ext, sep, mark in (('.txt', '\t', '#'), ('.csv', ',', '#'), ('.nk', ' ', ';')):
        chk.scenario("%s layouts" % ext, lambda sc, a=(ext, sep, mark): layout(sc, *a))

    NUMS = [('400', 400.0), ('5.0e2', 500.0), ('6.E+02', 600.0), ('700.', 700.0), ('+800', 800.0), ('0900', 900.0)]
    VALS = [('1.5', 1.5), ('-2', -2.0), ('.25', 0.25), ('1E-3', 1e-3), ('0', 0.0), ('3e+1', 30.0)]

    def numbers(sc, ext, sep):
        t = '\n'.join(sep.join((a, b)) for (a, _), (b, _) in zip(NUMS, VALS)) + '\n'
        if ext == '.yml':
            t = 'DATA:\n  - type: tabulated n\n    data: |\n' + ''.join('        %s\n' % l for l in t.split('\n') if l)
        p = put(sc, 'n' + ext, t)
        m = read(sc, p)
        v = sc.ok('evaluate', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [sc.num(x) for _, x in NUMS], NM)))
        sc.eq('numbers', v, [sc.num(y) for _, y in VALS])
        mid = sc.ok('evaluate', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [sc.num(450.0)], NM, 'float')))
        sc.eq('between', mid, sc.num(-0.25))
    for ext, sep in (('.txt', '\t'), ('.csv', ','), ('.nk', '  '), ('.yml', ' ')):
        chk.scenario("%s number formats" % ext, lambda sc, a=(ext, sep): numbers(sc, *a))

    def single(sc, ext, sep, mark):
        """one row: constant at that spectral value"""
        for kind, ncol in TABLES.items():
            x = sc.sym('x', scale=700.0)
            cs = [sc.sym('c%d' % i, np=True) for i in range(ncol)]
            line = sep.join(tok(sc, v) for v in [x] + cs)
            t = mark + ' DATATYPE: tabulated %s\n%s\n' % (kind, line)
            if ext == '.yml':
                t = 'DATA:\n  - type: tabulated %s\n    data: %s\n' % (kind, line)
            m = read(sc, put(sc, 'o' + ext, t))
            if kind == 'n_alpha':
                cs[1] = alpha_k(sc, cs[1], x, NM)
            zero = Num(NF.num(0), 'f')
            re, im = {'n': (cs[0], zero), 'k': (zero, cs[0])}.get(kind, (cs[0], cs[-1]))
            fn = 'get_permittivity' if kind == 'eps' else 'get_nk_data'
            sc.eq('%s one row' % kind, sc.ok('evaluate', lambda: sc.meth(m, fn, spectrum(sc, [x], NM, 'float'))), cplx(sc, re, im))
            sc.raises('%s one row, elsewhere' % kind, lambda: sc.meth(m, fn, spectrum(sc, [Num(x.nf * NF.num(2), 'f')], NM)))
    for ext, sep, mark in (('.txt', '\t', '#'), ('.csv', ',', '#'), ('.nk', ' ', ';'), ('.yml', ' ', '#')):
        chk.scenario("%s one row" % ext, lambda sc, a=(ext, sep, mark): single(sc, *a))

    def partly(sc, ext, sep, mark):
        """only the unit, or only the quantity, is stated; the other one is the caller's default"""
        for kind in TABLES:
            for u in UNITS:
                for what in ('unit', 'quantity'):
                    g = points(sc, 'g', 2, u)
                    cols = [column(sc, 'a', 2), column(sc, 'b', 2)][:TABLES[kind]]
                    kw = {'spectrum_type': u[0], 'unit': u[1]}
                    if what == 'unit' and u[0] == 'wavelength':
                        kw['unit'] = 'nm' if u != NM else 'm'
                    if what == 'quantity':
                        kw['spectrum_type'] = 'energy' if u != EV else 'wavelength'
                    word, val = ('UNIT', u[1]) if what == 'unit' else ('SPECTRUMTYPE', u[0])
                    if ext == '.yml':
                        t = 'DATA:\n  - type: tabulated %s\n    %s: %s\n    data: |\n' % (kind, 'Unit' if what == 'unit' else 'SpectrumType', val)
                        t += ''.join('        %s\n' % r for r in rows(sc, g[1::2], cols))
                    else:
                        t = '\n'.join(['%s DATATYPE: tabulated %s' % (mark, kind), '%s %s: %s' % (mark, word, val)] + rows(sc, g[1::2], cols, sep)) + '\n'
                    m = read(sc, put(sc, 'h' + ext, t), **kw)
                    verify(sc, '%s with only the %s stated (%s)' % (kind, what, u[1]), m, kind, g, cols, u)
    for ext, sep, mark in (('.txt', '\t', '#'), ('.csv', ',', '#'), ('.nk', ' ', ';'), ('.yml', ' ', '#')):
        chk.scenario("%s partly stated units" % ext, lambda sc, a=(ext, sep, mark): partly(sc, *a), limit=60)

    def textmeta(sc, ext, sep, mark):
        g = points(sc, 'g', 2, UM)
        cols = [column(sc, 'a', 2), column(sc, 'b', 2)]
        body = rows(sc, g[1::2], cols, sep)
        for ci, case in enumerate(CASES):
            for order in range(3):
                for blank in (' ', '', '  '):
                    keys = [(f, k, 'value of %s: %d' % (f, ci)) for f, k in HEAD]
                    keys += [(None, 'SPECTRUMTYPE', 'wavelength'), (None, 'UNIT', 'um'), (None, 'DATATYPE', 'tabulated nk')]
                    keys = keys[order * 3:] + keys[:order * 3]
                    if order == 2:
                        keys.reverse()
                    ls = ['%s%s%s: %s' % (mark, blank, case(k), v) for _, k, v in keys]
                    p = put(sc, 'm' + ext, '\n'.join([mark + ' line one', mark + ' line two'] + ls + [mark] + body) + '\n')
                    m = read(sc, p)
                    want = {f: v for f, _, v in keys if f}
                    lab = 'case %d order %d%s' % (ci, order, blank and ' blank')
                    same_meta(sc, lab, m, want)
                    mc = sc.attr(m, 'meta_data')['MetaComment']
                    sc.true(lab + ': meta comment', isinstance(mc, str) and 'line one' in mc and 'line two' in mc and 'value' not in mc,
                            "meta comment %r" % (mc,))
                    verify(sc, lab, m, 'nk', g, cols, UM)
        for f, k in HEAD:                              # one keyword alone
            p = put(sc, 'm' + ext, '\n'.join(['%s %s: only this' % (mark, k)] + body) + '\n')
            m = read(sc, p, spectrum_type='wavelength', unit='um')
            same_meta(sc, 'only ' + k, m, dict({x: '' for x, _ in HEAD}, **{f: 'only this'}))
            for alt in (f.upper(), f):
                p = put(sc, 'm' + ext, '\n'.join(['%s %s: only this' % (mark, alt)] + body) + '\n')
                same_meta(sc, 'only ' + alt, read(sc, p), {f: 'only this'})
    for ext, sep, mark in (('.txt', '\t', '#'), ('.csv', ',', '#'), ('.nk', ' ', ';')):
        for rev in (False, True):
            chk.scenario("%s metadata keywords%s" % (ext, ' (other set order)' if rev else ''),
                         lambda sc, a=(ext, sep, mark): textmeta(sc, *a), set_reverse=rev, limit=60)

    # ---- YAML files
    def ytable(sc, kind, u, src, names, ind='    '):
        n = 3
        g = points(sc, 'g', n, u)
        cols = [column(sc, 'a', n), column(sc, 'b', n)][:TABLES[kind]]
        t = 'REFERENCES: "A, <i>J</i>: 1"\nCOMMENTS: c\nDATA:\n  - %s: tabulated %s\n' % (names[0], kind)
        if src == 'file':
            t += '%s%s: %s\n%s%s: %s\n' % (ind, names[2], u[0], ind, names[3], u[1])
        t += '%s%s: |\n' % (ind, names[1]) + ''.join('        %s\n' % r for r in rows(sc, g[1::2], cols))
        kw = {'spectrum_type': u[0], 'unit': u[1]} if src == 'caller' else \
            ({'spectrum_type': 'energy', 'unit': 'ev'} if src == 'file' else {})
        m = read(sc, put(sc, 't.yml', t), **kw)
        verify(sc, kind, m, kind, g, cols, u)
        same_meta(sc, kind, m, {'Reference': 'A, <i>J</i>: 1', 'Comment': 'c'})
    for ru in (False, True):
        for kind in TABLES:
            for u, src in [(x, s) for x in UNITS for s in ('file', 'caller')] + [(NM, 'default')]:
                for names in (('type', 'data', 'SpectrumType', 'Unit'), ('DataType', 'Data', 'SPECTRUMTYPE', 'unit')):
                    if ru and u not in (NM, EV):
                        continue
                    chk.scenario(".yml %s (%s), %s %s from %s%s" % (kind, names[0], u[0], u[1], src, ' (ruamel)' if ru else ''),
                                 lambda sc, a=(kind, u, src, names): ytable(sc, *a), ruamel=ru)

    def ymodel(sc, no, name, style, src):
        nat, out = MODELS[name][1], MODELS[name][2]
        for ar in (ARITIES.get(name, (MODELS[name][0],)) if style == 'formula' else (MODELS[name][0],)):
            g = points(sc, 'g%d' % ar, 2, nat)
            ps = params(sc, name, ar, tag='p%d' % ar)
            num = lambda vs: ' '.join(tok(sc, v) for v in vs)
            if style == 'formula':
                t = 'DATA:\n  - type: formula %d\n    wavelength_range: %s\n    coefficients: %s\n' % (no, num([g[1], g[3]]), num(ps))
            else:
                t = 'DATA:\n  - DataType: model %s\n    ValidRange: %s\n    Parameters: %s\n    Yields: %s\n' % (
                    name, num([g[1], g[3]]), num(ps), out)
            kw = {}
            if src == 'file':
                t += '    SpectrumType: %s\n    Unit: %s\n' % nat
                kw = {'spectrum_type': 'frequency', 'unit': 'hz'}
            elif src == 'caller':
                kw = {'spectrum_type': nat[0], 'unit': nat[1]}
            elif src == 'file (unit) and caller':
                t += '    Unit: %s\n' % nat[1]
                kw = {'spectrum_type': nat[0], 'unit': nat[1] if nat[0] == 'energy' else 'nm'}
            elif src == 'file (quantity) and caller':
                t += '    SpectrumType: %s\n' % nat[0]
                kw = {'spectrum_type': 'wavelength' if nat[0] == 'energy' else 'energy', 'unit': nat[1]}
            m = read(sc, put(sc, 'f.yml', t), **kw)
            lab = '%s of %d' % (name, ar)
            v = sc.ok(lab, lambda: sc.meth(m, 'get_nk_data' if out == 'n' else 'get_permittivity', spectrum(sc, [g[1], g[2]], nat)))
            for x, got in zip((g[1], g[2]), elems(v)):
                w = ref(sc, name, [p.nf for p in ps], x.nf)
                if w is not None:
                    sc.eq(lab + ' value', got, Num(w, 'c'))
            sc.raises(lab + ' outside', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [g[4]], nat)))
            d = sc.attr(m, 'data')['complex' if out == 'eps' else 'real']
            if isinstance(d, AObj):
                sc.eq(lab + ' class', d.cls.name, name)
    for ru in (False, True):
        for no, name in enumerate(FORMULA, 1):
            for src in ('caller', 'file', 'file (unit) and caller', 'file (quantity) and caller'):
                chk.scenario(".yml formula %d, unit from %s%s" % (no, src, ' (ruamel)' if ru else ''),
                             lambda sc, a=(no, name, 'formula', src): ymodel(sc, *a), ruamel=ru)
        for name in [x for x in MODELS if MODELS[x][2] in ('n', 'eps')]:
            for src in ('caller', 'file', 'file (unit) and caller', 'file (quantity) and caller'):
                chk.scenario(".yml model %s, unit from %s%s" % (name, src, ' (ruamel)' if ru else ''),
                             lambda sc, a=(0, name, 'model', src): ymodel(sc, *a), ruamel=ru)

    def ranges(sc):
        """every documented name of the valid range"""
        for key in ('wavelength_range', 'range', 'spectra_range', 'validRange', 'ValidRange', 'VALIDRANGE', 'Wavelength_Range'):
            g = points(sc, 'g', 2, UM)
            ps = params(sc, 'Cauchy')
            num = lambda vs: ' '.join(tok(sc, v) for v in vs)
            m = read(sc, put(sc, 'r.yml', 'DATA:\n  - type: formula 5\n    %s: %s\n    coefficients: %s\n' % (key, num([g[1], g[3]]), num(ps))),
                     spectrum_type='wavelength', unit='um')
            r = sc.ok(key, lambda: sc.meth(m, 'get_maximum_valid_range'))
            sc.eq(key, r, [g[1], g[3]])
            for x in (g[0], g[4]):
                sc.raises(key + ' outside', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [x], UM)))
    for rev in (False, True):
        chk.scenario(".yml names of the range%s" % (' (other set order)' if rev else ''), ranges, set_reverse=rev)

    def combine(sc, order, first):
        """a formula or table for n with a table for k, in either order, own units"""
        u1, u2 = UM, NM
        g = points(sc, 'g', 3, u2)
        ks = column(sc, 'k', 3)
        num = lambda vs: ' '.join(tok(sc, v) for v in vs)
        h = [Num(x.nf / NF.num(1000), 'f') for x in g]
        if first == 'formula':
            ps = params(sc, 'Sellmeier')
            a = '  - type: formula 1\n    wavelength_range: %s\n    coefficients: %s\n    SpectrumType: wavelength\n    Unit: um\n' % (
                num([h[1], h[5]]), num(ps))
        else:
            ns = column(sc, 'n', 3)
            a = '  - type: tabulated n\n    SpectrumType: wavelength\n    Unit: um\n    data: |\n' + ''.join(
                '        %s\n' % r for r in rows(sc, [h[1], h[3], h[5]], [ns]))
        b = '  - type: tabulated k\n    SpectrumType: wavelength\n    Unit: nm\n    data: |\n' + ''.join(
            '        %s\n' % r for r in rows(sc, g[1::2], [ks]))
        m = read(sc, put(sc, 'c.yml', 'DATA:\n' + (a + b if order == 'nk' else b + a)))
        for i in (0, 1):
            x = g[2 * i + 2]
            xu = Num(x.nf / NF.num(1000), 'f')
            re = Num(ref(sc, 'Sellmeier', [p.nf for p in ps], xu.nf), 'f') if first == 'formula' else \
                lerp(sc, xu, h[2 * i + 1], h[2 * i + 3], ns[i], ns[i + 1])
            v = sc.ok('evaluate', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [x], NM, 'float')))
            sc.eq('interval %d' % i, v, cplx(sc, re, lerp(sc, x, g[2 * i + 1], g[2 * i + 3], ks[i], ks[i + 1])))
    for ru in (False, True):
        for first in ('formula', 'table'):
            for order in ('nk', 'kn'):
                chk.scenario(".yml %s n and table k, order %s%s" % (first, order, ' (ruamel)' if ru else ''),
                             lambda sc, a=(order, first): combine(sc, *a), ruamel=ru)

    def ymeta(sc):
        g = points(sc, 'g', 2, UM)
        cols = [column(sc, 'a', 2)]
        data = 'DATA:\n  - type: tabulated n\n    data: |\n' + ''.join('        %s\n' % r for r in rows(sc, g[1::2], cols))
        for ci, case in enumerate(CASES):
            for order in range(2):
                keys = [(f, k, 'value of %s' % f) for f, k in HEAD]
                if order:
                    keys.reverse()
                ls = ''.join('%s: %s\n' % (case(k), v) for _, k, v in keys)
                spec = '%s:\n    temperature: 20 C\n    n_absolute: true\n' % case('SPECS')
                parts_ = [ls, spec, data.replace('DATA', case('DATA'))]
                if order:
                    parts_.reverse()
                m = read(sc, put(sc, 'm.yml', '# line one\n#second line\n\n' + ''.join(parts_)), spectrum_type='wavelength', unit='um')
                lab = 'case %d order %d' % (ci, order)
                same_meta(sc, lab, m, {f: v for f, _, v in keys})
                sp = sc.attr(m, 'meta_data')['Specification']
                sc.eq(lab + ' specification', dict(sp.items()) if isinstance(sp, dict) else sp, {'temperature': '20 C', 'n_absolute': True})
                mc = sc.attr(m, 'meta_data')['MetaComment']
                sc.eq(lab + ' meta comment', [l.strip() for l in mc.split('\n')] if isinstance(mc, str) else mc, ['line one', 'second line'])
                verify(sc, lab, m, 'n', g, cols, UM)
        for f, k in HEAD:
            m = read(sc, put(sc, 'm.yml', '%s: only this\n' % k + data))
            same_meta(sc, 'only ' + k, m, dict({x: '' for x, _ in HEAD}, **{f: 'only this'}))
            for alt in (f.upper(), f):
                same_meta(sc, 'only ' + alt, read(sc, put(sc, 'm.yml', '%s: only this\n' % alt + data)), {f: 'only this'})
    for ru in (False, True):
        for rev in (False, True):
            chk.scenario(".yml metadata keywords%s%s" % (' (ruamel)' if ru else '', ' (other set order)' if rev else ''),
                         ymeta, ruamel=ru, set_reverse=rev)

    def rii(sc):
        """a page of the refractiveindex.info database"""
        t = ('# this file is part of refractiveindex.info database\n# copyright\n\nREFERENCES: |\n'
             '    1) I. H. Malitson. Interspecimen comparison. <a href="https://doi.org/10.1364/x"><i>J.</i> <b>55</b></a>\n    2) second\n'
             'COMMENTS: "Fused silica, 20 &deg;C"\nDATA:\n  - type: formula 1 \n    wavelength_range: 0.21 6.7\n'
             '    coefficients: 0 0.6961663 0.0684043 0.4079426 0.1162414 0.8974794 9.896161\n'
             'SPECS:\n    n_absolute: true\n    wavelength_vacuum: false\n    temperature: 20 °C\n')
        m = read(sc, put(sc, 'Malitson.yml', t), spectrum_type='wavelength', unit='micrometer')
        same_meta(sc, 'page', m, {'Comment': 'Fused silica, 20 &deg;C',
                                  'Reference': '1) I. H. Malitson. Interspecimen comparison. <a href="https://doi.org/10.1364/x">'
                                               '<i>J.</i> <b>55</b></a>\n2) second\n'})
        c = [Fraction(x) for x in ('0', '0.6961663', '0.0684043', '0.4079426', '0.1162414', '0.8974794', '9.896161')]
        x = sc.sym('x', scale=1.0)
        v = sc.ok('evaluate', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [sc.num(0.5876)], UM, 'float')))
        sc.eq('value', v, Num(ref(sc, 'Sellmeier', [NF.num(q) for q in c], NF.num(Fraction('0.5876'))), 'c'))
        r = sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range'))
        sc.eq('range', r, [sc.num(0.21), sc.num(6.7)])
    for ru in (False, True):
        chk.scenario("refractiveindex.info page%s" % (' (ruamel)' if ru else ''), rii, ruamel=ru)

    def spelled(sc):
        """white space and spelling of numbers inside the entries of a dataset"""
        ps = [Fraction(1, 2), Fraction(-3, 2), Fraction(1, 4), Fraction(2), Fraction(1, 8)]
        forms = {'plain': ['0.5', '-1.5', '0.25', '2', '0.125'], 'exponents': ['5e-1', '-1.5E+00', '2.5e-01', '0.2e1', '1.25E-1'],
                 'long': ['0.50000000000000000', '-1.50000000000000000', '2.5000000000000000e-01', '2.0000000000000000E+00', '0000.125'],
                 'signs': ['+.5', '-1.5', '+0.25', '+2.', '.125']}
        lo = {'plain': ['0.25', '4.0'], 'exponents': ['2.5e-1', '4E0'], 'long': ['2.500000000000000e-01', '4.000000000000000e+00'], 'signs': ['+.25', '+4.']}
        x = sc.num(0.5)
        for f, ws in forms.items():
            for sep in (' ', '  ', '     '):
                for ty in ('formula 5', 'formula  5', ' formula 5', 'formula 5 ', ' formula   5  '):
                    if sep != ' ' and ty != 'formula 5' and f != 'plain':
                        continue
                    for q in ("'%s'", '"%s"', '%s'):
                        if q == '%s' and (ty != ty.strip()):
                            continue
                        for pad in ('', ' '):
                            t = "DATA:\n  - type: %s\n    wavelength_range: %s\n    coefficients: %s\n" % (
                                q % ty, q % (pad + sep.join(lo[f]) + pad), q % (pad + sep.join(ws) + pad))
                            lab = '%s %r %r %s%s' % (f, sep, ty, q, ' padded' if pad else '')
                            m = read(sc, put(sc, 's.yml', t), spectrum_type='wavelength', unit='um')
                            r = sc.ok(lab, lambda: sc.meth(m, 'get_maximum_valid_range'))
                            sc.eq(lab + ' range', r, [sc.num(0.25), sc.num(4.0)])
                            v = sc.ok(lab, lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [x], UM, 'float')))
                            sc.eq(lab + ' value', v, Num(ref(sc, 'Cauchy', [NF.num(p) for p in ps], x.nf), 'c'))
        # folded and literal blocks, tabs
        for name, c in (('folded', '>\n        0.5 -1.5\n        0.25 2\n        0.125\n'), ('literal', '|\n        0.5 -1.5\n        0.25 2\n        0.125\n'),
                        ('tabs', '"0.5\\t-1.5\\t0.25\\t2\\t0.125"\n'), ('continued', '0.5 -1.5\n      0.25 2 0.125\n')):
            t = 'DATA:\n  - type: formula 5\n    wavelength_range: "0.25\\t4.0"\n    coefficients: ' + c
            m = read(sc, put(sc, 's.yml', t), spectrum_type='wavelength', unit='um')
            sc.eq(name + ' range', sc.ok(name, lambda: sc.meth(m, 'get_maximum_valid_range')), [sc.num(0.25), sc.num(4.0)])
            v = sc.ok(name, lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [x], UM, 'float')))
            sc.eq(name + ' value', v, Num(ref(sc, 'Cauchy', [NF.num(p) for p in ps], x.nf), 'c'))
        for ty in ('tabulated n', 'tabulated  n', ' tabulated n', 'tabulated n ', 'tabulated   n  '):
            for body in ('0.25 1.5\n4.0 2.5\n', '0.25   1.5\n4.0     2.5\n', '  0.25 1.5  \n  4.0 2.5  \n', '2.500000000000000e-01 1.500000000000000E+00\n4.e0 +2.5\n'):
                t = "DATA:\n  - type: '%s'\n    data: |\n%s" % (ty, ''.join('        %s\n' % l.strip() + '' for l in body.splitlines()))
                lab = 'table %r %r' % (ty, body[:12])
                m = read(sc, put(sc, 's.yml', t), spectrum_type='wavelength', unit='um')
                v = sc.ok(lab, lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [sc.num(0.25), sc.num(4.0)], UM)))
                sc.eq(lab, v, [sc.num(1.5), sc.num(2.5)])
    for ru in (False, True):
        chk.scenario(".yml spellings%s" % (' (ruamel)' if ru else ''), spelled, ruamel=ru, limit=90)

    def manyc(sc):
        """as many coefficients as the source mentions"""
        g = points(sc, 'g', 2, UM)
        for n in chk.sizes(400):
            ar = n | 1
            ps = params(sc, 'Cauchy', ar, tag='q%d' % ar)
            num = lambda vs: ' '.join(tok(sc, v) for v in vs)
            m = read(sc, put(sc, 'f.yml', 'DATA:\n  - type: formula 5\n    wavelength_range: %s\n    coefficients: %s\n' % (num([g[1], g[3]]), num(ps))),
                     spectrum_type='wavelength', unit='um')
            sc.eq('%d coefficients' % ar, sc.attr(sc.attr(m, 'data')['real'], 'model_parameters'), ps)
    chk.scenario(".yml many coefficients", manyc)
