"""C16 unusable input is refused"""
from .iokit import *
from .c15 import rows

EXPLAIN = ("every exit of the Material constructor and of the Writer is enumerated for documents with one unusable element "
           "(extension, dataset type, table kind, formula number, model name, missing range, malformed YAML, non-numeric cells), "
           "alone and next to usable datasets in every position: no normal exit may exist")
BADTYPES = ['constant n', 'constant', 'table nk', 'tabulated zz', 'tabulated N', 'tabulated kn', 'tabulated', 'tabulated n k', 'tabulated_nk',
            'formula 0', 'formula 10', 'formula -1', 'formula x', 'formula 1.5', 'formula', 'formula 12', 'model', 'model Nope', 'model sellmeier',
            'model np', 'model Spectrum', 'model interp1d', 'model __doc__', 'model Fano', 'modelSellmeier', 'model Sellmeier 2', 'other 1', 'x']
MALFORMED = ['DATA: [', 'DATA:\n  - type: formula 1\n coefficients: 1 2\n   x', 'a: b: c', '{', "k: 'unterminated", 'k: "unterminated',
             'DATA:\n\t- x', '- a\nb: c', 'key: [1, 2', '&', '*undefined', 'a: *undefined', '%YAML 9.9 x\n---\na: 1\n...\n%', 'a: |\n  b\n c: d\n e',
             'REFERENCES: x\nDATA: }']
EXTS = ['.yaml', '.dat', '.json', '.tx', '.txtx', '.YMLX', '.ri', '.pdf', '.yml.bak', '.csv~', '']

ODD = ('abc', '1.0.0', '--', '1e', 'one', 'x1', '1x', '1.5;', '(1.5)', '1.5)', '[1.5', "1.5'", '1.5nm', '$1.5', '1.5%', '=1.5', '1.5e+', '1/2', '1.5*',
       '1.5_', '0x10', '1:5', '|1.5', '1.5+', '1.5:', '<1.5', '--1.5', '1 .5x', '1.5d0', '1.5f')


def check(chk):
    chk.rule('refuse', "all exits of loading / writing / building from the unusable input are exceptions")
    chk.rule('control', "the same document with the element repaired loads")

    def doc(sc, sets, order):
        g = points(sc, 'g', 2, UM)
        num = lambda vs: ' '.join(tok(sc, v) for v in vs)
        blk = lambda cols: ''.join('        %s\n' % r for r in rows(sc, g[1::2], cols))
        good = {'n': '  - type: tabulated n\n    data: |\n' + blk([column(sc, 'a', 2)]),
                'k': '  - type: tabulated k\n    data: |\n' + blk([column(sc, 'b', 2)]),
                'f': '  - type: formula 1\n    wavelength_range: %s\n    coefficients: %s\n' % (num([g[1], g[3]]), num(params(sc, 'Sellmeier')))}
        return 'DATA:\n' + ''.join(good.get(s, s) for s in sets)

    def load(sc, t, name='x.yml'):
        return sc.call(sc.pub('Material'), file_path=put(sc, name, t), spectrum_type='wavelength', unit='um')

    def bad(sc, ty):
        g = points(sc, 'h', 2, UM)
        num = lambda vs: ' '.join(tok(sc, v) for v in vs)
        blk = ''.join('        %s\n' % r for r in rows(sc, g[1::2], [column(sc, 'c', 2), column(sc, 'd', 2)]))
        for key in ('type', 'DataType'):
            for full in (('data: |\n' + blk + '    coefficients: 1.0 2.0 0.5\n    wavelength_range: %s\n' % num([g[1], g[3]])),
                         ('Data: |\n' + blk + '    Parameters: 1.0 2.0 0.5\n    ValidRange: %s\n' % num([g[1], g[3]]))):
                b = '  - %s: %s\n    %s' % (key, ty, full)
                for sets in ((b,), ('n', b), (b, 'n'), ('f', b), (b, 'k'), ('n', b, 'k')):
                    sc.raises('%s among %s' % (key, ['bad' if x is b else x for x in sets]), lambda: load(sc, doc(sc, sets, 0)), exc=(Exception,))
        for sets in (('n',), ('n', 'k'), ('f', 'k'), ('f',)):
            sc.ok('usable %s' % (sets,), lambda: load(sc, doc(sc, sets, 0)))
    for ty in BADTYPES:
        for ru in (False, True):
            chk.scenario(".yml dataset type %r%s" % (ty, ' (ruamel)' if ru else ''), lambda sc, t=ty: bad(sc, t), ruamel=ru)

    def textbad(sc, ext, sep, mark):
        g = points(sc, 'g', 2, UM)
        cols = [column(sc, 'a', 2), column(sc, 'b', 2)]
        body = '\n'.join(rows(sc, g[1::2], cols, sep)) + '\n'
        for ty in BADTYPES:
            sc.raises('type %r' % ty, lambda: load(sc, '%s DATATYPE: %s\n%s' % (mark, ty, body), 'x' + ext), exc=(Exception,))
        sc.ok('usable', lambda: load(sc, '%s DATATYPE: tabulated nk\n%s' % (mark, body), 'x' + ext))
        for cell in ODD + ('1,,2' if ext == '.csv' else '1,2',):
            b = sep.join([tok(sc, g[1]), cell, '1.0']) + '\n' + sep.join([tok(sc, g[3]), '1.0', '2.0']) + '\n'
            sc.raises('cell %r' % cell, lambda: load(sc, mark + ' head\n' + b, 'x' + ext), exc=(Exception,))
            b = sep.join([tok(sc, g[1]), '1.0', '2.0']) + '\n' + sep.join([tok(sc, g[3]), cell, '1.0']) + '\n'
            sc.raises('cell %r in the second row' % cell, lambda: load(sc, mark + ' head\n' + b, 'x' + ext), exc=(Exception,))
    for ext, sep, mark in (('.txt', '\t', '#'), ('.csv', ',', '#'), ('.nk', ' ', ';')):
        chk.scenario("%s types and cells" % ext, lambda sc, a=(ext, sep, mark): textbad(sc, *a))

    def ymlcells(sc):
        g = points(sc, 'g', 2, UM)
        for cell in ODD + ('1,5', '~', 'null'):
            for i in (0, 1):
                r = ['%s %s' % (tok(sc, g[1]), cell if i == 0 else '1.0'), '%s %s' % (tok(sc, g[3]), cell if i else '1.0')]
                t = 'DATA:\n  - type: tabulated n\n    data: |\n' + ''.join('        %s\n' % x for x in r)
                sc.raises('cell %r in row %d' % (cell, i), lambda: load(sc, t), exc=(Exception,))
            for k in ('coefficients: 1.0 %s' % cell, 'coefficients: %s 1.0' % cell):
                t = 'DATA:\n  - type: formula 5\n    wavelength_range: %s %s\n    %s\n' % (tok(sc, g[1]), tok(sc, g[3]), k)
                sc.raises(k, lambda: load(sc, t), exc=(Exception,))
            t = 'DATA:\n  - type: formula 5\n    wavelength_range: %s %s\n    coefficients: 1.0 2.0 3.0\n' % (cell, tok(sc, g[3]))
            sc.raises('range %s' % cell, lambda: load(sc, t), exc=(Exception,))
    for ru in (False, True):
        chk.scenario(".yml non-numeric entries%s" % (' (ruamel)' if ru else ''), ymlcells, ruamel=ru)

    def norange(sc):
        ps = ' '.join(tok(sc, v) for v in params(sc, 'Sellmeier'))
        pe = ' '.join(tok(sc, v) for v in params(sc, 'Drude'))
        for no in range(1, 10):
            for first in ((), ('n',), ('f',)):
                t = '  - type: formula %d\n    coefficients: %s\n' % (no, ps)
                sc.raises('formula %d without range after %s' % (no, first), lambda: load(sc, doc(sc, first + (t,), 0)), exc=(Exception,))
                sc.raises('formula %d with empty range after %s' % (no, first),
                          lambda: load(sc, doc(sc, first + (t + "    wavelength_range: ''\n",), 0)), exc=(Exception,))
        for name in MODELS:
            t = 'DATA:\n  - DataType: model %s\n    SpectrumType: %s\n    Unit: %s\n    Parameters: %s\n' % (
                name, MODELS[name][1][0], MODELS[name][1][1], pe if name == 'Drude' else ps)
            sc.raises('model %s without range' % name, lambda: load(sc, t), exc=(Exception,))
        sc.raises('formula without coefficients', lambda: load(sc, 'DATA:\n  - type: formula 1\n    wavelength_range: 0.2 2.0\n'), exc=(Exception,))
        sc.raises('table without data', lambda: load(sc, 'DATA:\n  - type: tabulated nk\n'), exc=(Exception,))
        sc.raises('dataset without type', lambda: load(sc, 'DATA:\n  - data: |\n      1.0 2.0\n      2.0 3.0\n'), exc=(Exception,))
    for ru in (False, True):
        chk.scenario("datasets with missing parts%s" % (' (ruamel)' if ru else ''), norange, ruamel=ru)

    def malformed(sc):
        for t in MALFORMED:
            for pre in ('', 'REFERENCES: r\n'):
                if t.startswith('%') and pre:
                    continue
                sc.raises('document %r' % (pre + t), lambda: load(sc, pre + t + '\n'), exc=(Exception,))
                sc.raises('read_yaml_string %r' % (pre + t), lambda: sc.call('io.read_yaml_string', pre + t + '\n'), exc=(Exception,))
                sc.raises('read_yaml_file %r' % (pre + t), lambda: sc.call('io.read_yaml_file', put(sc, 'y.yml', pre + t + '\n')), exc=(Exception,))
        good = doc(sc, ('n',), 0)
        for i, t in enumerate(MALFORMED):
            if not t.startswith('%'):
                sc.raises('usable data followed by document %d' % i, lambda: load(sc, good + t + '\n'), exc=(Exception,))
    for ru in (False, True):
        chk.scenario("malformed YAML%s" % (' (ruamel)' if ru else ''), malformed, ruamel=ru)

    def ext_(sc):
        body = '400.0 1.5\n500.0 1.6\n'
        for e in EXTS:
            sc.raises('read extension %r' % e, lambda: load(sc, body, 'file' + e), exc=(Exception,))
            sc.raises('read YAML with extension %r' % e, lambda: load(sc, 'DATA:\n  - type: tabulated n\n    data: |\n      1.0 1.5\n      2.0 1.6\n', 'file' + e),
                      exc=(Exception,))
            m = material(sc, 'n', tabulated_n=sc.arr([[sc.num(400.0), sc.num(1.5)], [sc.num(500.0), sc.num(1.6)]], 'f'))
            md = material(sc, 'model', model_kw={'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um',
                                                 'valid_range': sc.arr([sc.num(0.3), sc.num(1.0)], 'f'), 'parameters': sc.arr(params(sc, 'Cauchy'), 'f')})
            for lab, mm in (('table', m), ('model', md)):
                for c in ('', 'meta comment'):
                    sc.attr(mm, 'meta_data')['MetaComment'] = c
                    sc.raises('write %s%s with extension %r' % (lab, ' with meta comment' if c else '', e),
                              lambda: sc.meth(sc.call('io.Writer', path(sc, 'out' + e), mm), 'write_file'), exc=(Exception,))
        for e in ('.txt', '.csv', '.nk', '.yml', '.dat'):
            sc.raises('missing file %s' % e, lambda: sc.call(sc.pub('Material'), file_path=path(sc, 'missing' + e)), exc=(Exception,))
    chk.scenario("extensions", ext_)

    def shapes(sc):
        """tables with a number of columns that fits no kind, documents without data"""
        for ext, sep, mark in (('.txt', '\t', '#'), ('.csv', ',', '#'), ('.nk', ' ', ';')):
            for n in (2, 3):
                sc.ok('%d columns in %s' % (n, ext), lambda: load(sc, '\n'.join(sep.join(str(i + 1.5 * k) for k in range(1, n + 1)) for i in (1, 2)) + '\n', 'x' + ext))
            for n in (1, 4, 5, 6, 9):
                for head in ('', mark + ' comment\n', mark + ' NAME: x\n'):
                    for r in (1, 2, 3):
                        body = '\n'.join(sep.join(str(i + 1.5 * k) for k in range(1, n + 1)) for i in range(r)) + '\n'
                        sc.raises('%d rows of %d columns in %s%s' % (r, n, ext, ' after ' + head.strip() if head else ''), lambda: load(sc, head + body, 'x' + ext), exc=(Exception,))
            for body in ('1.0%s1.5\n2.0%s1.6%s0.1\n', '1.0%s1.5%s0.1\n2.0%s1.6\n'):
                sc.raises('ragged rows in ' + ext, lambda: load(sc, body % (sep, sep, sep), 'x' + ext), exc=(Exception,))
        for n, ks in ((1, ('n', 'k', 'nk', 'eps')), (2, ('nk', 'eps'))):
            for k in ks:
                blk = ''.join('        %s\n' % ' '.join(str(i + 1.5 * c) for c in range(1, n + 1)) for i in (1, 2))
                for first in ((), ('f',)):
                    sc.raises('tabulated %s of %d columns after %s' % (k, n, first), lambda: load(sc, doc(sc, first + ('  - type: tabulated %s\n    data: |\n%s' % (k, blk),), 0)), exc=(Exception,))
        for t in ('REFERENCES: "nothing"\nCOMMENTS: "x"\n', 'REFERENCES: r\nDATA:\n', 'NAME: x\n', 'DATA:\n  - {}\n', "DATA:\n  - type: ''\n",
                  'DATA:\n  - type:\n', 'DATA: text\n'):
            sc.raises('document without data %r' % t, lambda: load(sc, t), exc=(Exception,))
    for ru in (False, True):
        chk.scenario("shapes of tables%s" % (' (ruamel)' if ru else ''), shapes, ruamel=ru)

    def outputs(sc):
        """a model whose output is not an index or permittivity"""
        for u in (EV,):
            kw = {'name': 'Fano', 'spectrum_type': u[0], 'unit': u[1], 'valid_range': sc.arr([sc.num(1.0), sc.num(3.0)], 'f'),
                  'parameters': sc.arr(params(sc, 'Fano'), 'f')}
            sc.raises('Fano', lambda: sc.call(sc.pub('Material'), model_kw=kw), exc=(Exception,))
        for name in ('Nope', 'np', 'Spectrum', 'sellmeier', '', 'interp1d', '__name__', 'Material'):
            kw = {'name': name, 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': sc.arr([sc.num(0.3), sc.num(1.0)], 'f'),
                  'parameters': sc.arr(params(sc, 'Cauchy'), 'f')}
            sc.raises('model name %r' % name, lambda: sc.call(sc.pub('Material'), model_kw=kw), exc=(Exception,))
    chk.scenario("models and kinds", outputs)
