"""C14 text round trip"""
from .iokit import *
from .c13 import STRINGS

EXPLAIN = ("Writer and Reader interpreted over the abstract file system for .txt, .csv and .nk: every table kind, unit, spelling, size "
           "and magnitude, metadata strings and meta comments; numbers are exact or lossy tokens by their format; contexts that a "
           "text file cannot hold must end in an exception")
EXTS = ('.txt', '.csv', '.nk')
LINES = [s for s in STRINGS if '\n' not in s and s == s.lstrip() and s.strip()] + ['a: b: c', 'http://x.org/y?z=1', 'semi; colon', 'A, B and C',
                                                                                      '', 'name: inner', 'unit: nm']


def check(chk):
    chk.rule('values', "value numbers, range, quantity and unit of the material read back == those written")
    chk.rule('meta', "each metadata field read back equal")
    chk.rule('refuse', "no normal exit for models, constants, or several unrelated tables")

    printed = {}

    def table_(sc, ext, kind, u, names, rows):
        g = points(sc, 'g', rows, u)
        xs = g[1::2]
        cols = [column(sc, 'a', rows, sign=None), column(sc, 'b', rows)]
        m = material(sc, kind, spectrum_type=names[0], unit=names[1],
                     **{kind: table(sc, xs, *(cols[:1] if kind == 'tabulated_n' else cols))})
        setmeta(sc, m, META)
        p = path(sc, 'x' + ext)
        write(sc, m, p)
        b = read(sc, p)
        mid = rows // 2 * 2
        probes = [spectrum(sc, [xs[0], g[2], xs[-1], g[mid]], u), spectrum(sc, [g[2]], u, 'float'),
                  spectrum(sc, inunit(sc, [g[2], g[mid]], u, EV), EV)]
        if rows <= 60:
            probes.append(spectrum(sc, xs, u))
        same_material(sc, 'table', m, b, probes, [spectrum(sc, [g[0]], u), spectrum(sc, [g[-1]], u)])
        same_meta(sc, 'table', b, META)
        t1 = text(sc, p)
        write(sc, m, p)
        sc.eq('second writing', text(sc, p), t1)
        if rows <= 60:
            p2 = path(sc, 'y' + ext)
            write(sc, b, p2)
            same_material(sc, 'second generation', m, read(sc, p2), probes[:1])
            same_meta(sc, 'second generation', read(sc, p2), META)
        for k, d, where, g_ in sc.w.events:
            if k == 'array2string':
                printed.setdefault(where, {}).setdefault(d[0], set()).add(d[1])
    for ext in EXTS:
        for kind in ('tabulated_n', 'tabulated_nk', 'tabulated_eps', 'tabulated_n_alpha'):
            for u in UNITS:
                for names in (u, (u[0].upper(), ALIASES[u[1]][-1].upper())):
                    chk.scenario("%s %s in %s %s" % (ext, kind, names[0], names[1]), lambda sc, a=(ext, kind, u, names, 3): table_(sc, *a))
        for u in UNITS:
            for al in ALIASES[u[1]]:
                for nm in {al, al.upper(), al.capitalize()}:
                    chk.scenario("%s unit written as %s" % (ext, nm),
                                 lambda sc, a=(ext, 'tabulated_nk', u, (u[0].capitalize(), nm), 2): table_(sc, *a))
        for rows in sorted({2, 40} | ({501} | set(chk.sizes()) if ext == '.txt' else set()) | ({1001} if chk.thorough else set())):
            chk.scenario("%s of %d rows" % (ext, rows), lambda sc, a=(ext, 'tabulated_nk', NM, NM, rows): table_(sc, *a), limit=120)

    chk.rule('complete', "the printing threshold of every table text is unlimited or grows with the table")
    for where, th in printed.items():
        for limit, sizes in th.items():
            chk.ob("tables of any size are printed in full at %s" % where, not (limit < 10 ** 8 and len(sizes) > 1),
                   "tables of more than %s numbers are abbreviated" % limit, where)

    def magnitudes(sc, ext):
        xs = [1e-12, 3.3333333333333335e-9, 0.1, 0.30000000000000004, 1.0, 123456.789012345, 1e15, 1.7976931348623157e300]
        ys = [1e-300, -2.5e-7, 0.0, 1.0, 1.0000000000000002, 3.141592653589793, 1e21, 5e-324]
        for kind in ('tabulated_n', 'tabulated_nk'):
            t = sc.arr([[sc.num(x), sc.num(y)] + ([sc.num(z)] if kind[-1] == 'k' else [])
                        for x, y, z in zip(xs, ys, ys[::-1])], 'f')
            m = material(sc, kind, spectrum_type='wavelength', unit='m', **{kind: t})
            p = path(sc, 'm' + ext)
            write(sc, m, p)
            same_material(sc, kind, m, read(sc, p), [spectrum(sc, [sc.num(x) for x in xs], M)])
        t = sc.arr([[sc.num(400), sc.num(1)], [sc.num(500), sc.num(2)]], 'i')
        m = material(sc, 'n', tabulated_n=t)
        p = path(sc, 'i' + ext)
        write(sc, m, p)
        same_material(sc, 'integer table', m, read(sc, p), [spectrum(sc, [sc.num(400.0), sc.num(450.0)], NM)])

    def meta(sc, ext):
        g = points(sc, 'g', 2, NM)
        for i, s in enumerate(LINES):
            m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
            md = {f: LINES[(i + 5 * j) % len(LINES)] for j, f in enumerate(('Reference', 'Comment', 'Name', 'FullName', 'Author'))}
            setmeta(sc, m, md)
            p = path(sc, 'x' + ext)
            write(sc, m, p)
            b = read(sc, p)
            same_meta(sc, 'string %d' % i, b, dict(md, MetaComment=sc.attr(m, 'meta_data')['MetaComment']))
            same_values(sc, 'string %d' % i, m, b, [spectrum(sc, [g[2]], NM)])

    def blank(sc, ext):
        """every subset of the fields left empty"""
        g = points(sc, 'g', 2, NM)
        fields = ('Reference', 'Comment', 'Name', 'FullName', 'Author', 'MetaComment')
        for k in range(2 ** len(fields)):
            m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
            md = {f: '' if k >> j & 1 else META[f] for j, f in enumerate(fields)}
            setmeta(sc, m, md)
            p = path(sc, 'x' + ext)
            write(sc, m, p)
            b = read(sc, p)
            same_meta(sc, 'empty fields %d' % k, b, md)

    def comments(sc, ext):
        g = points(sc, 'g', 2, NM)
        for c in ('one', 'one\ntwo', 'one\n\nthree', 'ends with e', 'with: colon', 'two: colons: here\nlast', 'ü μ', '# inner', '  indented',
                  'x', '1\n2\n3\n4\n5', '10:30 h'):
            m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
            md = dict(META, MetaComment=c)
            setmeta(sc, m, md)
            p = path(sc, 'x' + ext)
            write(sc, m, p)
            b = read(sc, p)
            same_meta(sc, 'meta comment %r' % c, b, md)
            t1 = text(sc, p)
            write(sc, b, p)
            sc.eq('meta comment %r: written again after reading' % c, text(sc, p), t1)
    for ext in EXTS:
        chk.scenario("%s numbers of every magnitude" % ext, lambda sc, e=ext: magnitudes(sc, e))
        chk.scenario("%s metadata" % ext, lambda sc, e=ext: meta(sc, e), limit=60)
        chk.scenario("%s empty metadata" % ext, lambda sc, e=ext: blank(sc, e), limit=60)
        chk.scenario("%s meta comments" % ext, lambda sc, e=ext: comments(sc, e), limit=60)

    # refusals
    def refuse(sc, ext):
        g = sc.w.grid('g', 12, 700.0, np=False)
        it = lambda xs, t, uu=NM: sc.ok('part', lambda: sc.call('spectral_data.Interpolation', table(sc, xs, column(sc, t, len(xs))),
                                                                spectrum_type=uu[0], unit=uu[1]))
        cst = lambda v: sc.ok('part', lambda: sc.call('spectral_data.Constant', v))

        def two(real, imag, name='nk'):
            m = material(sc, fixed_n=sc.num(1.5), spectrum_type='wavelength', unit='nm')
            d = sc.attr(m, 'data')
            d['name'], d['real'], d['imag'] = name, real, imag
            return m
        xs = [g[1], g[4], g[9]]
        cases = [('different grids', two(it(xs, 'a'), it([g[1], g[5], g[9]], 'b'))),
                 ('different lengths', two(it(xs, 'c'), it([g[1], g[9]], 'd'))),
                 ('different units', two(it(xs, 'e'), it(xs, 'f', UM))),
                 ('permittivity, different grids', two(it(xs, 'h'), it([g[1], g[5], g[9]], 'i'), 'eps')),
                 ('absorbing constant', two(it(xs, 'j'), cst(sc.sym('k', np=True)))),
                 ('absorbing constant 0.5', two(it(xs, 'l'), cst(sc.num(0.5))))]
        nat = MODELS['Sellmeier'][1]
        kw = lambda n: {'name': n, 'spectrum_type': MODELS[n][1][0], 'unit': MODELS[n][1][1],
                        'valid_range': sc.arr([sc.num(0.3), sc.num(2.0)], 'f'), 'parameters': sc.arr(params(sc, n), 'f')}
        cases += [(n, material(sc, n, model_kw=kw(n))) for n in ('Sellmeier', 'Cauchy', 'Drude', 'TaucLorentz')]
        mm = material(sc, 'mix', model_kw=kw('Sellmeier'))
        sc.attr(mm, 'data')['imag'] = it([g[1], g[4]], 'm')
        cases.append(('model n, table k', mm))
        for label, m in cases:
            def go(m=m):
                w = sc.call('io.Writer', path(sc, 'x' + ext), m)
                sc.meth(w, 'write_file')
            sc.raises(label + ' refused', go, exc=(Exception,))
        # one grid, real and imaginary part: one table, not refused
        m = two(it(xs, 'n'), it(xs, 'o'))
        p = path(sc, 'ok' + ext)
        write(sc, m, p)
        same_material(sc, 'parts on one grid', m, read(sc, p), [spectrum(sc, [g[2], g[7]], NM)])
        m = two(it(xs, 'q'), cst(sc.num(0.0)))
        p = path(sc, 'ok2' + ext)
        write(sc, m, p)
        same_material(sc, 'table and zero', m, read(sc, p), [spectrum(sc, [g[2], g[7]], NM)])
    for ext in EXTS:
        chk.scenario("%s refusals" % ext, lambda sc, e=ext: refuse(sc, e), limit=60)

    def found(sc, ext):
        """texts the source compares with, and long ones"""
        g = points(sc, 'g', 2, NM)
        fields = ('Reference', 'Comment', 'Name', 'FullName', 'Author')
        ws = [w for w in chk.strings() if w == w.lstrip() and len(w) < (9 if ext == '.txt' else 4)]
        p = path(sc, 'x' + ext)
        for i in range(0, len(ws), 5):
            m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
            md = dict(META, MetaComment='', **dict(zip(fields, ws[i:i + 5])))
            setmeta(sc, m, md)
            write(sc, m, p)
            same_meta(sc, 'texts %s' % ws[i:i + 5], read(sc, p), md)
        for n in chk.sizes():
            m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
            md = {f: ('word%d ' % i * n).strip()[:n].strip() for i, f in enumerate(fields)}
            md['MetaComment'] = '\n'.join('line %d' % i for i in range(n))
            setmeta(sc, m, md)
            write(sc, m, p)
            same_meta(sc, '%d lines' % n, read(sc, p), md)
    for ext in EXTS:
        chk.scenario("%s texts of the source" % ext, lambda sc, e=ext: found(sc, e), limit=120)
