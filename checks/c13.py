"""C13 YAML round trip"""
from .iokit import *

EXPLAIN = ("Writer and Reader are interpreted over an abstract file system whose text carries symbolic numbers as opaque tokens "
           "(exact or lossy by format); the material read back is compared term by term with the one written, for PyYAML and "
           "ruamel, every table kind, unit and spelling, table sizes across all array-printing thresholds, every model, metadata")
ASSUMES = ["YAML text is scanned and emitted by PyYAML's own grammar; ruamel.yaml is modelled as the same grammar"]
STRINGS = ['plain', '2019', '1e5', 'yes', 'null', '~', '1.0', 'a: b', '#hash', "it's", '"quoted"', '  lead', 'trail  ', 'Å μ ü 中',
           'line one\nline two', '- item', '{x}', '[1, 2]', '%', '@at', '!bang', '&amp', '*star', 'key: [', '>', '|', '2020-01-01',
           'tab\tinside', '\\n', 'a # b', ' ', 'x' * 300, 'word ' * 60]
SPECS = [{}, {'temperature': '20 C'}, {'n_absolute': True, 'wavelength_vacuum': False, 'substrate': 'glass', 'own key': 'own value',
          'film_thickness': '20 nm', 'direction': 'o'}, {'zeta': '1', 'alpha': '2', 'pressure': 'vacuum'},
         {'n_absolute': True, 'wavelength_vacuum': True, 'film_thickness': '12 nm', 'substrate': 'Si', 'temperature': '20 C',
          'pressure': '1 bar', 'deposition_temperature': '300 C', 'direction': 'ordinary', 'annealing_temperature': '500 C',
          'temp': 't', 'substrate_temperature': '100 C', 'Temperature': '21 C', 'crystal direction': 'c', 'thickness': '5'},
         {'deposition_temperature': '1', 'temperature': '2', 'empty': '', 'no': False}]


def check(chk):
    chk.rule('values', "value numbers of index and permittivity, range, quantity and unit of the material read back == those written")
    chk.rule('meta', "each metadata field is read back equal, under its own key")
    chk.rule('repeat', "writing again gives the same text; writing the material read back gives the same text")
    chk.rule('rii', "with refractiveindex.info naming: formula number, wavelength_range, coefficients / data of that very data set")

    printed = {}

    def table_(sc, kind, u, names, rows):
        g = points(sc, 'g', rows, u)
        xs = g[1::2]
        cols = [column(sc, 'a', rows, sign=None), column(sc, 'b', rows)]
        m = material(sc, kind, spectrum_type=names[0], unit=names[1],
                     **{kind: table(sc, xs, *(cols[:1] if kind == 'tabulated_n' else cols))})
        p = path(sc, 'x.yml')
        write(sc, m, p)
        b = read(sc, p)
        mid = rows // 2 * 2
        probes = [spectrum(sc, [xs[0], g[2], xs[-1], g[mid]], u), spectrum(sc, [g[2]], u, 'float'),
                  spectrum(sc, inunit(sc, [g[2], g[mid]], u, EV), EV)]
        if rows <= 60:
            probes.append(spectrum(sc, xs, u))
        same_material(sc, 'table', m, b, probes, [spectrum(sc, [g[0]], u), spectrum(sc, [g[-1]], u)])
        t1 = text(sc, p)
        write(sc, m, p)
        sc.eq('second writing', text(sc, p), t1)
        if rows <= 60:
            p2 = path(sc, 'y.yml')
            write(sc, b, p2)
            sc.eq('writing the material read back', text(sc, p2), t1)
            same_material(sc, 'second generation', m, read(sc, p2), probes[:1])
        for k, d, where, g_ in sc.w.events:
            if k == 'array2string':
                printed.setdefault(where, {}).setdefault(d[0], set()).add(d[1])
    n = 0
    for ru in (False, True):
        for kind in ('tabulated_n', 'tabulated_nk', 'tabulated_eps', 'tabulated_n_alpha'):
            for u in UNITS:
                for names in (u, (u[0].upper(), ALIASES[u[1]][-1].upper())):
                    n += 1
                    if ru and n % 4 and not chk.thorough:
                        continue
                    chk.scenario("%s in %s %s%s" % (kind, names[0], names[1], ' (ruamel)' if ru else ''),
                                 lambda sc, a=(kind, u, names, 3): table_(sc, *a), ruamel=ru)
        for rows in sorted({2, 40, 60} | ({501, 1001} | set(chk.sizes()) if not ru else set()) | ({2500} if chk.thorough and not ru else set())):
            for kind in (('tabulated_nk',) if rows > 60 else ('tabulated_n', 'tabulated_nk', 'tabulated_eps')):
                chk.scenario("%s of %d rows%s" % (kind, rows, ' (ruamel)' if ru else ''),
                             lambda sc, a=(kind, NM, NM, rows): table_(sc, *a), ruamel=ru, limit=120)

    # a bound that does not grow with the table abbreviates a larger one
    chk.rule('complete', "the printing threshold of every table text is unlimited or grows with the table")
    for where, th in printed.items():
        for limit, sizes in th.items():
            chk.ob("tables of any size are printed in full at %s" % where, not (limit < 10 ** 8 and len(sizes) > 1),
                   "tables of more than %s numbers are abbreviated" % limit, where)

    # concrete numbers of every magnitude
    def magnitudes(sc):
        xs = [1e-12, 3.3333333333333335e-9, 0.1, 0.30000000000000004, 1.0, 123456.789012345, 1e15, 1.7976931348623157e300]
        ys = [1e-300, -2.5e-7, 0.0, 1.0, 1.0000000000000002, 3.141592653589793, 1e21, 5e-324]
        for kind in ('tabulated_n', 'tabulated_nk'):
            t = sc.arr([[sc.num(x), sc.num(y)] + ([sc.num(z)] if kind[-1] == 'k' else [])
                        for x, y, z in zip(xs, ys, ys[::-1])], 'f')
            m = material(sc, kind, spectrum_type='wavelength', unit='m', **{kind: t})
            p = path(sc, 'm.yml')
            write(sc, m, p)
            b = read(sc, p)
            same_material(sc, kind, m, b, [spectrum(sc, [sc.num(x) for x in xs], M)])
        t = sc.arr([[sc.num(400), sc.num(1)], [sc.num(500), sc.num(2)]], 'i')
        m = material(sc, 'n', tabulated_n=t)
        p = path(sc, 'i.yml')
        write(sc, m, p)
        same_material(sc, 'integer table', m, read(sc, p), [spectrum(sc, [sc.num(400.0), sc.num(450.0)], NM)])
    chk.scenario("numbers of every magnitude", magnitudes)

    def nearby(sc):
        """two tables on grids that nearly agree stay two tables"""
        for u, base, deltas in ((M, [4e-7, 6e-7, 8e-7], (1e-8, 5e-9, 1e-12, 1e-15)), (NM, [400.0, 600.0, 800.0], (1.0, 1e-3, 1e-6, 1e-9)),
                                (EV, [1.0, 2.0, 3.0], (1e-4, 1e-7, 1e-9, 1e-12))):
            for d in deltas:
                for at_ in (0, 1, 2):
                    other = list(base)
                    other[at_] += d
                    for name in ('nk', 'eps'):
                        a, b = column(sc, 'a', 3), column(sc, 'b', 3)
                        m = material(sc, fixed_n=sc.num(1.5), spectrum_type=u[0], unit=u[1])
                        dt = sc.attr(m, 'data')
                        dt['name'] = name
                        dt['real'], dt['imag'] = [sc.ok('part', lambda: sc.call('spectral_data.Interpolation', table(sc, [sc.num(v) for v in xs], c),
                                                                               spectrum_type=u[0], unit=u[1])) for xs, c in ((base, a), (other, b))]
                        p = path(sc, 'near.yml')
                        write(sc, m, p)
                        inner = [v for v in base + other if max(base[0], other[0]) <= v <= min(base[2], other[2])]
                        same_material(sc, '%s grids %g apart in %s' % (name, d, u[1]), m, read(sc, p), [spectrum(sc, [sc.num(v) for v in inner], u)])
    chk.scenario("grids that nearly agree", nearby, limit=60)

    # several data sets
    def parts_(sc, case, ru_):
        u = NM
        g = sc.w.grid('g', 12, 700.0, np=False)
        it = lambda xs, t, uu=NM: sc.ok('part', lambda: sc.call('spectral_data.Interpolation', table(sc, xs, column(sc, t, len(xs))),
                                                                spectrum_type=uu[0], unit=uu[1]))
        m = material(sc, fixed_n=sc.num(1.5), spectrum_type='wavelength', unit='nm')
        d = sc.attr(m, 'data')
        zero = None
        if case == 'different grids':
            d['real'], d['imag'] = it([g[1], g[4], g[9]], 'r'), it([g[2], g[5], g[7], g[10]], 'i')
        elif case == 'same length, different grids':
            d['real'], d['imag'] = it([g[1], g[4], g[9]], 'r'), it([g[1], g[5], g[9]], 'i')
        elif case == 'same grid':
            d['real'], d['imag'] = it([g[1], g[4], g[9]], 'r'), it([g[1], g[4], g[9]], 'i')
        elif case == 'nested grid':
            d['real'], d['imag'] = it([g[1], g[4], g[6], g[9]], 'r'), it([g[1], g[4]], 'i')
        elif case == 'permittivity grids':
            d['name'] = 'eps'
            d['real'], d['imag'] = it([g[1], g[4], g[9]], 'r'), it([g[2], g[5], g[10]], 'i')
        p = path(sc, 'p.yml')
        write(sc, m, p)
        b = read(sc, p)
        pr = [spectrum(sc, [g[3], g[4]], u)] if case == 'nested grid' else [spectrum(sc, [g[2], g[5], g[8]], u), spectrum(sc, [g[6]], u, 'float')]
        same_material(sc, case, m, b, pr, [spectrum(sc, [g[0]], u), spectrum(sc, [g[11]], u)])
    for ru in (False, True):
        for case in ('different grids', 'same length, different grids', 'same grid', 'nested grid', 'permittivity grids'):
            chk.scenario("real and imaginary table, %s%s" % (case, ' (ruamel)' if ru else ''), lambda sc, c=case: parts_(sc, c, None), ruamel=ru)

    # one unit name, two scales: the same abscissae numbers in different units must not be merged
    def units2(sc):
        g = sc.w.grid('g', 4, 1.0, np=False)
        m = material(sc, fixed_n=sc.num(1.5), spectrum_type='wavelength', unit='um')
        d = sc.attr(m, 'data')
        it = lambda t, uu: sc.ok('part', lambda: sc.call('spectral_data.Interpolation', table(sc, [g[0], g[3]], column(sc, t, 2)),
                                                        spectrum_type=uu[0], unit=uu[1]))
        for a, b in ((UM, NM), (UM, EV), (NM, UM)):
            d['real'], d['imag'] = it('r', a), it('i', b)
            p = path(sc, 'u.yml')
            write(sc, m, p)
            r = read(sc, p)
            e = sc.attr(r, 'data')
            for part, tag, uu in (('real', 'r', a), ('imag', 'i', b)):
                v = sc.ok('evaluate', lambda: sc.meth(e[part], 'evaluate', spectrum(sc, [g[1]], uu)))
                w = sc.ok('evaluate', lambda: sc.meth(d[part], 'evaluate', spectrum(sc, [g[1]], uu)))
                sc.eq('%s part in %s' % (part, uu[1]), v, w)
    chk.scenario("parts in different units", units2)

    # models
    for name, (ar, nat, out) in MODELS.items():
        if out not in ('n', 'eps'):
            continue
        for rii in (False, True):
            if rii and out != 'n':
                continue

            def mod(sc, name=name, nat=nat, rii=rii, out=out):
                arities = {'Sellmeier': (1, 3, 7), 'Sellmeier2': (1, 5), 'Polynomial': (1, 7), 'Cauchy': (1, 3, 11), 'Gases': (3, 7),
                           'RefractiveIndexInfo': (9, 13, 17)}.get(name, (MODELS[name][0],))
                for ar in arities:
                    g = points(sc, 'g%d' % ar, 2, nat)
                    ps = params(sc, name, ar, tag='p%d' % ar)
                    kw = {'name': name, 'spectrum_type': nat[0], 'unit': nat[1], 'valid_range': sc.arr([g[1], g[3]], 'f'),
                          'parameters': sc.arr(ps, 'f')}
                    m = material(sc, name, model_kw=kw)
                    setmeta(sc, m, META)
                    p = path(sc, 'm.yml')
                    write(sc, m, p, use_rii_aliases=rii)
                    kws = {'spectrum_type': 'wavelength', 'unit': 'um'} if rii else {}
                    b = read(sc, p, **kws)
                    lab = '%s of %d parameters' % (name, ar)
                    same_material(sc, lab, m, b, [spectrum(sc, [g[1], g[2], g[3]], nat), spectrum(sc, [g[2]], nat, 'float')],
                                  [spectrum(sc, [g[0]], nat), spectrum(sc, [g[4]], nat)])
                    same_meta(sc, lab, b, META)
                    d = sc.attr(b, 'data')
                    mod_ = d['real'] if out == 'n' else d['complex']
                    if isinstance(mod_, AObj):
                        sc.eq(lab + ' class', mod_.cls.name, name)
                        sc.eq(lab + ' parameters', sc.attr(mod_, 'model_parameters'), ps)
                    if rii:
                        y = sc.ok('yaml', lambda: sc.call('io.read_yaml_file', p))
                        ds = [q for q in y['DATA'] if 'constant' not in str(q.get('type', ''))]
                        no = list(MODELS).index(name) + 1
                        sc.eq(lab + ' number of data sets', len(ds), 1)
                        sc.eq(lab + ' type', ds[0].get('type'), 'formula %d' % no)
                        for k, vs in (('wavelength_range', [g[1], g[3]]), ('coefficients', ps)):
                            v = ds[0].get(k)
                            sc.true(lab + ' keyword ' + k, isinstance(v, str), "%s missing" % k)
                            if isinstance(v, str):
                                sc.eq('%s %s' % (lab, k), [sc.it.to_float(t) for t in v.split()], vs)
                    t1 = text(sc, p)
                    write(sc, m, p, use_rii_aliases=rii)
                    sc.eq(lab + ' second writing', text(sc, p), t1)
            for ru in (False, True):
                chk.scenario("model %s%s%s" % (name, ', refractiveindex.info names' if rii else '', ' (ruamel)' if ru else ''),
                             mod, ruamel=ru, limit=60)

    def long_model(sc):
        """parameter vectors longer than one printed line"""
        g = points(sc, 'g', 2, UM)
        for ar in (21, 41) + tuple(k | 1 for k in chk.sizes(400) if k > 41):
            ps = params(sc, 'Cauchy', ar)
            kw = {'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': sc.arr([g[1], g[3]], 'f'),
                  'parameters': sc.arr(ps, 'f')}
            m = material(sc, 'Cauchy', model_kw=kw)
            p = path(sc, 'l.yml')
            write(sc, m, p)
            b = read(sc, p)
            sc.eq('%d parameters' % ar, sc.attr(sc.attr(b, 'data')['real'], 'model_parameters'), ps)
    chk.scenario("long parameter vectors", long_model)

    def mixed(sc, rii):
        """a model for n with a table for k"""
        g = points(sc, 'g', 4, UM)
        ps = params(sc, 'Sellmeier')
        kw = {'name': 'Sellmeier', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': sc.arr([g[1], g[7]], 'f'),
              'parameters': sc.arr(ps, 'f')}
        m = material(sc, 'mixed', model_kw=kw, spectrum_type='wavelength', unit='um')
        sc.attr(m, 'data')['imag'] = sc.ok('part', lambda: sc.call('spectral_data.Interpolation', table(sc, g[1::2], column(sc, 'k', 4)),
                                                                  spectrum_type='wavelength', unit='um'))
        p = path(sc, 'mix.yml')
        write(sc, m, p, use_rii_aliases=rii)
        b = read(sc, p, spectrum_type='wavelength', unit='um')
        same_material(sc, 'model n and table k', m, b, [spectrum(sc, [g[1], g[2], g[6], g[7]], UM)], [spectrum(sc, [g[8]], UM)])
        if rii:
            y = sc.ok('yaml', lambda: sc.call('io.read_yaml_file', p))
            sc.eq('types', [d.get('type') for d in y['DATA']], ['formula 1', 'tabulated k'])
    for rii in (False, True):
        for ru in (False, True):
            chk.scenario("model and table%s%s" % (', refractiveindex.info names' if rii else '', ' (ruamel)' if ru else ''),
                         lambda sc, r=rii: mixed(sc, r), ruamel=ru)

    def rii_table(sc):
        g = points(sc, 'g', 3, UM)
        for kind, ty in (('tabulated_n', 'tabulated n'), ('tabulated_nk', 'tabulated nk')):
            cols = [column(sc, 'a', 3), column(sc, 'b', 3)][:1 if kind[-1] == 'n' else 2]
            m = material(sc, kind, spectrum_type='wavelength', unit='um', **{kind: table(sc, g[1::2], *cols)})
            p = path(sc, 'r.yml')
            write(sc, m, p, use_rii_aliases=True)
            y = sc.ok('yaml', lambda: sc.call('io.read_yaml_file', p))
            sc.eq(kind + ' types', [d.get('type') for d in y['DATA']], [ty])
            rows = y['DATA'][0].get('data')
            sc.true(kind + ' keyword data', isinstance(rows, str), 'data missing')
            if isinstance(rows, str):
                sc.eq(kind + ' numbers', [[sc.it.to_float(t) for t in r.split()] for r in rows.split('\n') if r.strip()],
                      [[x] + [c[i] for c in cols] for i, x in enumerate(g[1::2])])
            same_material(sc, kind, m, read(sc, p, spectrum_type='wavelength', unit='um'), [spectrum(sc, [g[2], g[4]], UM)])
    for ru in (False, True):
        chk.scenario("tables with refractiveindex.info names%s" % (' (ruamel)' if ru else ''), rii_table, ruamel=ru)

    # metadata
    def meta(sc, i):
        g = points(sc, 'g', 2, NM)
        for k, field in enumerate(('Reference', 'Comment', 'Name', 'FullName', 'Author')):
            m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
            md = dict(META)
            md.update({f: STRINGS[(i + 7 * j) % len(STRINGS)] for j, f in enumerate(('Reference', 'Comment', 'Name', 'FullName', 'Author'))
                       if j == k or k == 0})
            md[field] = STRINGS[i]
            spec = SPECS[(i + k) % len(SPECS)]
            setmeta(sc, m, md, dict(spec))
            p = path(sc, 'x.yml')
            write(sc, m, p)
            b = read(sc, p)
            same_meta(sc, 'string %d as %s' % (i, field), b, md)
            sc.eq('string %d as %s: specification' % (i, field), sc.attr(b, 'meta_data')['Specification'], dict(spec))
            t1 = text(sc, p)
            write(sc, m, p)
            sc.eq('string %d as %s: second writing' % (i, field), text(sc, p), t1)
    for i in range(len(STRINGS)):
        chk.scenario("metadata %d" % i, lambda sc, i=i: meta(sc, i))
    for i in (0, 1, 13, 14, 20):
        chk.scenario("metadata %d (ruamel)" % i, lambda sc, i=i: meta(sc, i), ruamel=True)

    def comments(sc):
        g = points(sc, 'g', 2, NM)
        for c in ('one', 'one\ntwo', 'one\n\nthree', 'ends with e', 'with: colon', 'key: value\nREFERENCES: x', 'ü μ', '# inner', '  indented',
                  'x', '1\n2\n3\n4\n5'):
            m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
            md = dict(META, MetaComment=c)
            setmeta(sc, m, md)
            p = path(sc, 'x.yml')
            write(sc, m, p)
            b = read(sc, p)
            same_meta(sc, 'meta comment %r' % c, b, md)
            t1 = text(sc, p)
            write(sc, b, p)
            sc.eq('meta comment %r: written again after reading' % c, text(sc, p), t1)
    chk.scenario("meta comments", comments)
    chk.scenario("meta comments (ruamel)", comments, ruamel=True)

    def extra(sc):
        """additional metadata is stored under its own key"""
        g = points(sc, 'g', 2, NM)
        m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
        setmeta(sc, m, META, {'temperature': '20 C'})
        sc.attr(m, 'meta_data')['Laboratory'] = 'room 12'
        sc.attr(m, 'meta_data')['Batch'] = 'B-7'
        p = path(sc, 'x.yml')
        write(sc, m, p)
        y = sc.ok('yaml', lambda: sc.call('io.read_yaml_file', p))
        for k, v in (('Laboratory', 'room 12'), ('Batch', 'B-7'), ('REFERENCES', META['Reference']), ('COMMENTS', META['Comment']),
                     ('NAME', META['Name']), ('FULLNAME', META['FullName']), ('AUTHOR', META['Author'])):
            got = {str(a).upper(): b for a, b in y.items()}.get(k.upper())
            sc.eq('key %s' % k, got, v)
        same_meta(sc, 'with additional metadata', read(sc, p), META)
    for ru in (False, True):
        chk.scenario("additional metadata%s" % (' (ruamel)' if ru else ''), extra, ruamel=ru)

    # one Writer used twice, and options
    def again(sc):
        g = points(sc, 'g', 2, NM)
        for kw in ({}, {'use_rii_aliases': True}, {'ignore_constant': False}):
            m = material(sc, 'nk', tabulated_nk=table(sc, g[1::2], column(sc, 'a', 2), column(sc, 'b', 2)))
            setmeta(sc, m, META, dict(SPECS[2]))
            p = path(sc, 'x.yml')
            w = write(sc, m, p, **kw)
            t1 = text(sc, p)
            sc.ok('same writer again', lambda: sc.meth(w, 'write_file', **kw))
            sc.eq('same writer again %s' % sorted(kw), text(sc, p), t1)
            same_meta(sc, 'after writing twice', read(sc, p, spectrum_type='wavelength', unit='nm'), META)
        # order of the specification is the documented one, independent of insertion order
        texts = []
        for spec in [x for s_ in SPECS for x in (s_, dict(list(s_.items())[::-1]))]:
            m = material(sc, 'nk', tabulated_nk=table(sc, g[1::2], column(sc, 'a', 2), column(sc, 'b', 2)))
            setmeta(sc, m, META, dict(spec))
            p = path(sc, 'x.yml')
            write(sc, m, p)
            same_meta(sc, 'specification', read(sc, p), {'Specification': dict(spec)})
    chk.scenario("writing twice", again)

    def inturn(sc):
        """one Writer, one mode after the other: each file as from a Writer of its own"""
        g = points(sc, 'g', 2, NM)
        u = points(sc, 'u', 2, UM)
        ps = {n: params(sc, n) for n in ('Cauchy', 'Sellmeier', 'Drude')}
        kinds = {'table': lambda: material(sc, 'nk', tabulated_nk=table(sc, g[1::2], column(sc, 'a', 2), column(sc, 'b', 2)), spectrum_type='wavelength', unit='nm'),
                 'n table': lambda: material(sc, 'n', tabulated_n=table(sc, u[1::2], column(sc, 'a', 2)), spectrum_type='wavelength', unit='um')}
        for n in ps:
            kinds[n] = lambda n=n: material(sc, n, model_kw={'name': n, 'spectrum_type': MODELS[n][1][0], 'unit': MODELS[n][1][1], 'parameters': sc.arr(ps[n], 'f'),
                                                             'valid_range': sc.arr(inunit(sc, [u[1], u[3]], UM, MODELS[n][1]), 'f')})
        modes = ({}, {'use_rii_aliases': True}, {'ignore_constant': False}, {'use_rii_aliases': True, 'ignore_constant': False})
        for lab, mk in kinds.items():
            alone = []
            for i, kw in enumerate(modes):
                m = mk()
                setmeta(sc, m, META, dict(SPECS[2]))
                p = path(sc, 'alone%d.yml' % i)
                write(sc, m, p, **kw)
                alone.append(text(sc, p))
            for order in ((0, 1, 0), (1, 0, 1), (2, 0, 2), (0, 2, 1, 3, 0), (3, 1, 2, 0), (1, 2, 1, 0, 3)):
                m = mk()
                setmeta(sc, m, META, dict(SPECS[2]))
                p = path(sc, 'turn.yml')
                w = write(sc, m, p, **modes[order[0]])
                keep = sc.snapshot(m)
                for k, i in enumerate(order):
                    if k:
                        sc.ok('%s in mode %s' % (lab, sorted(modes[i])), lambda: sc.meth(w, 'write_file', **modes[i]))
                    sc.eq('%s: write %d of modes %s' % (lab, k, order[:k + 1]), text(sc, p), alone[i])
                sc.unchanged('%s: the material' % lab, keep, m)
    for ru in (False, True):
        chk.scenario("modes in turn%s" % (' (ruamel)' if ru else ''), inturn, ruamel=ru, limit=90)

    def found(sc):
        """texts the source compares with"""
        g = points(sc, 'g', 2, NM)
        ws = chk.strings()
        m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
        spec = {w: w for w in ws}
        setmeta(sc, m, META, dict(spec))
        p = path(sc, 'x.yml')
        write(sc, m, p)
        b = read(sc, p)
        same_meta(sc, 'specification of all texts', b, META)
        got = sc.attr(b, 'meta_data')['Specification']
        for w in ws:
            sc.eq('specification %r' % w, got.get(w) if isinstance(got, dict) else got, w)
        fields = ('Reference', 'Comment', 'Name', 'FullName', 'Author')
        ws = [w for w in ws if len(w) < 9]
        for i in range(0, len(ws), 5):
            m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
            md = dict(META, MetaComment='', **dict(zip(fields, ws[i:i + 5])))
            setmeta(sc, m, md)
            write(sc, m, p)
            same_meta(sc, 'texts %s' % ws[i:i + 5], read(sc, p), md)
    chk.scenario("texts of the source", found, limit=120)

    def longtext(sc):
        """meta comments of many lines, long lines, many specifications"""
        g = points(sc, 'g', 2, NM)
        for n in chk.sizes():
            m = material(sc, 'n', tabulated_n=table(sc, g[1::2], column(sc, 'a', 2)))
            md = {f: ('word%d ' % i * n).strip()[:n] for i, f in enumerate(('Reference', 'Comment', 'Name', 'FullName', 'Author'))}
            md['MetaComment'] = '\n'.join('line %d' % i for i in range(n))
            spec = {'key %04d' % i: 'value %d' % i for i in range(min(n, 300))}
            setmeta(sc, m, md, dict(spec))
            p = path(sc, 'x.yml')
            write(sc, m, p)
            b = read(sc, p)
            same_meta(sc, '%d lines' % n, b, dict(md, Specification=spec))
            md['MetaComment'] = 'z' * n
            setmeta(sc, m, md)
            write(sc, m, p)
            same_meta(sc, 'line of %d' % n, read(sc, p), {'MetaComment': md['MetaComment']})
    chk.scenario("long texts", longtext, limit=120)
