"""C20 catalogue entries"""
import re
from .catkit import *
from .c15 import rows

EXPLAIN = ("Catalogue(rebuild=...) interpreted over abstract database folders (UserData and refractiveindex.info layouts, old and new names, "
           "dividers, missing files, foreign files, both directory orders) with symbolic tables, units and reference spectrum; each entry "
           "is compared cell by cell with what its file says")
FILES = {'.txt': ('\t', '#'), '.csv': (',', '#'), '.yml': (' ', '#')}


def matfile(sc, name, i, u, src, inside, meta=True, kind='nk'):
    """-> (text, expected cells); the reference spectrum is sc.ref in nm"""
    ext = '.' + name.rpartition('.')[2]
    sep, mark = FILES[ext]
    ref = sc.ref
    r = relation(sc, ref, NM, u)
    lo = [Num(r.nf * NF.num(f), 'f') for f in ((Fraction(1, 2), Fraction(5, 4)), (Fraction(5, 4), Fraction(3, 2)), (Fraction(1, 3), Fraction(1, 2)))[inside]]
    n = column(sc, 'n%d_' % i, 2)
    k = column(sc, 'k%d_' % i, 2)
    md = {'FullName': 'full %d' % i, 'Author': 'author %d, b' % i, 'Comment': 'comment: %d' % i, 'Reference': 'ref %d' % i} if meta else \
        {'FullName': '', 'Author': '', 'Comment': '', 'Reference': ''}
    key = {'FullName': 'FULLNAME', 'Author': 'AUTHOR', 'Comment': 'COMMENTS', 'Reference': 'REFERENCES'}
    cols = [n, k][:2 if kind in ('nk', 'eps') else 1]
    body = rows(sc, lo, cols, sep)
    if ext == '.yml':
        t = ''.join("%s: '%s'\n" % (key[m], v) for m, v in md.items() if v) + 'DATA:\n  - type: tabulated %s\n' % kind
        if src == 'file':
            t += '    SpectrumType: %s\n    Unit: %s\n' % u
        t += '    data: |\n' + ''.join('        %s\n' % b for b in body)
    else:
        h = ['%s %s: %s' % (mark, key[m], v) for m, v in md.items() if v]
        if src == 'file':
            h += ['%s SPECTRUMTYPE: %s' % (mark, u[0]), '%s UNIT: %s' % (mark, u[1])]
        h.append('%s DATATYPE: tabulated %s' % (mark, kind))
        t = '\n'.join(h + body) + '\n'
    zero = Num(NF.num(0), 'f')
    if inside == 0:
        a, b = (lerp(sc, r, lo[0], lo[1], *c) for c in (n, k))
        if kind == 'n':
            b = zero
        if kind == 'k':
            a, b = zero, a
        if kind == 'eps':
            q = nsqrt(sc, cplx(sc, a, b))
            a, b = Num(sc.it.nfre(q.nf), 'f'), Num(sc.it.nfim(q.nf), 'f')
    else:
        a = b = NANV
    e = dict(md, Alias='', SpectrumType=u[0], Unit=u[1], SpectrumLowerBound=lo[0], SpectrumUpperBound=lo[1], N_Reference=a, K_Reference=b)
    return t, e


def compare_db(sc, label, cat, want):
    cols, got = frame(sc, cat)
    sc.eq(label + ' columns', cols, COLS)
    if not sc.true(label + ' number of entries', len(got) == len(want), "%d entries for %d files" % (len(got), len(want))):
        return
    key = lambda e: (str(e.get('Module')), str(e.get('Path')).replace('\\', '/'))
    got, want = sorted(got, key=key), sorted(want, key=key)
    for g, w in zip(got, want):
        for c in ('SpectrumType', 'Unit'):
            if isinstance(g.get(c), str):
                g[c] = canon(g[c].lower()) if c == 'Unit' else g[c].lower()
            w[c] = canon(w[c])
        if isinstance(g.get('Path'), str):
            g['Path'] = g['Path'].replace('\\', '/')
        same_rows(sc, '%s %s' % (label, w['Path']), [g], [w])


def check(chk):
    chk.rule('entry', "one entry per readable file of the supported kinds; every cell == what that file says")
    chk.rule('range', "SpectrumLowerBound <= SpectrumUpperBound are the file's bounds in the entry's own quantity and unit")
    chk.rule('reference', "N/K_Reference == value number of the index at the reference spectrum, NaN outside the range")

    def ref(sc, u):
        sc.ref = sc.sym('ref', scale=600.0)
        v = relation(sc, sc.ref, NM, u)
        return (v, u[0], u[1])

    def user(sc, ru, module='UserData', nt=False):
        conf = config(sc, {module: True}, ref(sc, ru), db='C:\\db' if nt else DB)
        j = sc.w.fs.P.join
        d = j(conf['Path'], module)
        sc.w.fs.mkdirs(d)
        want = []
        i = 0
        for ext in FILES:
            for u in UNITS:
                for src, uu in (('file', u), ('default', NM)):
                    if src == 'default' and u not in (NM, UM):
                        continue
                    i += 1
                    name = 'f%02d_%s%s' % (i, u[1].replace('/', ''), ext)
                    kind = ('nk', 'n', 'eps', 'k')[i % 4]
                    t, e = matfile(sc, name, i, uu, src, i % 3 if i % 5 else 0, meta=bool(i % 3), kind=kind)
                    sc.w.fs.put(j(d, name), t)
                    want.append(dict(e, Path=name, Module=module, Name=name.rpartition('.')[0]))
        # things that are no material files of the supported kinds
        sc.w.fs.mkdirs(j(d, 'folder.txt'))
        sc.w.fs.put(j(d, 'folder.txt', 'inner.txt'), '1.0 2.0\n2.0 3.0\n')
        for n in ('README.md', 'notes.pdf', 'x.yaml', 'data', 'y.txt.bak'):
            sc.w.fs.put(j(d, n), 'anything')
        cat = catalogue(sc, conf, rebuild='All')
        compare_db(sc, 'user', cat, want)
    for ru in UNITS:
        for module in ('UserData', 'Filmetrics'):
            if module == 'Filmetrics' and ru not in (NM, EV):
                continue
            chk.scenario("%s, reference in %s %s" % (module, ru[0], ru[1]), lambda sc, a=(ru, module): user(sc, *a), limit=60)
    chk.scenario("UserData (ruamel)", lambda sc: user(sc, NM), ruamel=True, limit=60)
    chk.scenario("UserData (Windows)", lambda sc: user(sc, NM, nt=True), style='nt', limit=60)
    chk.scenario("UserData (other directory order)", lambda sc: user(sc, NM), set_reverse=True, limit=60)

    def model_(sc):
        """user files with models"""
        conf = config(sc, {'UserData': True}, ref(sc, NM))
        d = DB + '/UserData'
        sc.w.fs.mkdirs(d)
        want = []
        from .c08 import ref as formula
        x = relation(sc, sc.ref, NM, UM)
        for i, inside in enumerate((0, 1)):
            ps = params(sc, 'Cauchy', tag='p%d' % i)
            lo = [Num(x.nf * NF.num(f), 'f') for f in ((Fraction(1, 2), Fraction(2)), (Fraction(3, 2), Fraction(2)))[inside]]
            num = lambda vs: ' '.join(tok(sc, v) for v in vs)
            sc.w.fs.put(d + '/m%d.yml' % i, 'AUTHOR: me\nDATA:\n  - DataType: model Cauchy\n    ValidRange: %s\n    SpectrumType: wavelength\n    Unit: um\n'
                        '    Parameters: %s\n' % (num(lo), num(ps)))
            zero = Num(NF.num(0), 'f')
            v = Num(formula(sc, 'Cauchy', [p.nf for p in ps], x.nf), 'f')
            want.append({'Alias': '', 'FullName': '', 'Author': 'me', 'Comment': '', 'Reference': '', 'SpectrumType': 'wavelength', 'Unit': 'um',
                         'SpectrumLowerBound': lo[0], 'SpectrumUpperBound': lo[1], 'N_Reference': NANV if inside else v,
                         'K_Reference': NANV if inside else zero, 'Path': 'm%d.yml' % i, 'Module': 'UserData', 'Name': 'm%d' % i})
        compare_db(sc, 'models', catalogue(sc, conf, rebuild='All'), want)
    chk.scenario("UserData models", model_)

    def rii(sc, layout, lib, ru, missing=(), nt=False, fault='absent'):
        conf = config(sc, {'RefractiveIndexInfo': True}, ref(sc, ru), db='C:\\db' if nt else DB)
        P = sc.w.fs.P
        d = P.join(conf['Path'], 'RefractiveIndexInfo', 'database')
        sc.w.fs.mkdirs(P.join(d, layout))
        lines, want = [], []
        i = 0
        for shelf in ('main', 'organic'):
            lines += ['- SHELF: %s' % shelf, '  name: "%s - shelf"' % shelf, '  content:']
            for book in ('Ag', 'SiO2'):
                lines += ['    - DIVIDER: "before %s"' % book, '    - BOOK: %s' % book, '      name: "%s (%s full)"' % (book, shelf), '      content:']
                for page in ('Smith', 'Jones-n'):
                    i += 1
                    rel = '%s/%s/%s.yml' % (shelf, book, page)
                    lines += ['        - DIVIDER: "div"', '        - PAGE: %s' % page, '          name: "%s 19%02d"' % (page, i), '          data: "%s"' % rel]
                    t, e = matfile(sc, 'p.yml', i, UM, 'default', (0, 0, 1, 2)[i % 4], kind=('nk', 'n', 'k')[i % 3])
                    if i in missing:
                        if fault == 'directory':
                            sc.w.fs.mkdirs(P.join(d, layout, *rel.split('/')))
                        continue
                    full = P.join(d, layout, *rel.split('/'))
                    sc.w.fs.mkdirs(full.rpartition(P.sep)[0])
                    sc.w.fs.put(full, t)
                    want.append(dict(e, Path='database/%s/%s' % (layout, rel), Module='RefractiveIndexInfo', Name=book, FullName='%s (%s full)' % (book, shelf),
                                     Author=page))
        sc.w.fs.put(P.join(d, lib), '\n'.join(lines) + '\n')
        sc.mod('')
        n0 = len(sc.w.events)
        cat = catalogue(sc, conf, rebuild='All')
        compare_db(sc, 'pages', cat, want)
        warns = [e for e in sc.w.events[n0:] if e[0] == 'warn']
        sc.true('warnings', len(warns) >= len(missing), "%d warnings for %d unreadable files" % (len(warns), len(missing)))
    for ru in (False, True):
        for layout in ('data', 'data-nk'):
            for lib in ('catalog-nk.yml', 'library.yml'):
                chk.scenario("refractiveindex.info %s %s%s" % (layout, lib, ' (ruamel)' if ru else ''),
                             lambda sc, a=(layout, lib, NM): rii(sc, *a), ruamel=ru)
    for miss in ((1,), (8,), (2, 3), (4, 5, 7), tuple(range(1, 9))):
        for fault in ('absent', 'directory'):
            chk.scenario("refractiveindex.info, unreadable files %s (%s)" % (miss, fault), lambda sc, m=miss, f=fault: rii(sc, 'data-nk', 'catalog-nk.yml', EV, m, fault=f))
    for u in UNITS:
        chk.scenario("refractiveindex.info, reference in %s %s" % u, lambda sc, u=u: rii(sc, 'data-nk', 'catalog-nk.yml', u))
    chk.scenario("refractiveindex.info (Windows)", lambda sc: rii(sc, 'data', 'library.yml', NM, nt=True), style='nt')

    def many(sc, n, layout):
        """n files in one folder or n pages in one book"""
        conf = config(sc, {'UserData': layout == 'user', 'RefractiveIndexInfo': layout == 'pages'}, ref(sc, NM))
        P = sc.w.fs.P
        t, e = matfile(sc, 'p.yml', 1, UM if layout == 'pages' else NM, 'file', 0)
        want, names = [], ['m%04d' % i for i in range(n)]
        if layout == 'user':
            d = P.join(DB, 'UserData')
            sc.w.fs.mkdirs(d)
            for k in names:
                sc.w.fs.put(P.join(d, k + '.yml'), t)
                want.append((k + '.yml', k))
        else:
            d = P.join(DB, 'RefractiveIndexInfo', 'database')
            sc.w.fs.mkdirs(P.join(d, 'data-nk', 'main'))
            sc.w.fs.put(P.join(d, 'data-nk', 'main', 'p.yml'), t)
            lines = ['- SHELF: main', '  name: "shelf"', '  content:', '    - BOOK: Ag', '      name: "silver"', '      content:']
            for k in names:
                lines += ['        - PAGE: %s' % k, '          name: "page %s"' % k, '          data: "main/p.yml"']
                want.append(('database/data-nk/main/p.yml', k))
            sc.w.fs.put(P.join(d, 'catalog-nk.yml'), '\n'.join(lines) + '\n')
        df = sc.ok('table', lambda: sc.meth(catalogue(sc, conf, rebuild='All'), 'get_database'))
        got = [sc.it.iterate(snippet(sc, 'df[c].values', df=df, c=c)) for c in ('Path', 'Name' if layout == 'user' else 'Author')]
        got = sorted((str(a).replace('\\', '/'), str(b)) for a, b in zip(*got))
        sc.true('%d %s' % (n, layout), got == sorted(want), "%d entries for %d files; missing %s" % (len(got), n, sorted(set(want) - set(got))[:3]))
    for n in chk.sizes(1500, 2):
        for layout in ('user', 'pages'):
            chk.scenario("%d %s" % (n, layout), lambda sc, a=(n, layout): many(sc, *a), limit=120)

    def both(sc, mods):
        """modules do not mix"""
        conf = config(sc, mods, ref(sc, NM))
        want = []
        j = sc.w.fs.P.join
        i = 0
        for module in ('UserData', 'Filmetrics'):
            d = j(DB, module)
            sc.w.fs.mkdirs(d)
            for name in ('same.txt', 'same2.yml'):
                i += 1
                t, e = matfile(sc, name, i, UM, 'file', 0)
                sc.w.fs.put(j(d, name), t)
                if mods.get(module):
                    want.append(dict(e, Path=name, Module=module, Name=name.rpartition('.')[0]))
        compare_db(sc, 'modules', catalogue(sc, conf, rebuild='All'), want)
    for mods in ({'UserData': True, 'Filmetrics': True}, {'Filmetrics': True, 'UserData': False}, {'UserData': False, 'Filmetrics': False}):
        chk.scenario("modules %s" % sorted(k for k in mods if mods[k]), lambda sc, m=mods: both(sc, m))

    def names(sc):
        """file names of every shape"""
        conf = config(sc, {'UserData': True}, ref(sc, NM))
        d = DB + '/UserData'
        sc.w.fs.mkdirs(d)
        t, e = matfile(sc, 'p.txt', 1, NM, 'file', 0)
        want = []
        base = ['a.b', 'a.b.c', '_a', '__', '.hidden', '~a', 'a~', '-a', '#a#', 'a b', ' a', 'A', 'UPPER', 'Mixed.Case', '0', '007', '1e5', 'nan', 'None', 'true',
                'ä', '中', 'a,b', "a'b", 'a;b', '$x', '%d', '{x}', '(1)', '[1]', 'x' * 120, 'a.txt', 'a.yml', 'a.csv', 'a..', 'tmp', 'readme', 'README', 'template', 'con', '@', '!', '+', '=']
        for n in sorted(set(base + [w for w in chk.strings() if '/' not in w and '\\' not in w])):
            n += '.txt'
            sc.w.fs.put(d + '/' + n, t)
            want.append((n, n[:-4] if n != '.txt' else n))
        df = sc.ok('table', lambda: sc.meth(catalogue(sc, conf, rebuild='All'), 'get_database'))
        got = [sc.it.iterate(snippet(sc, 'df[c].values', df=df, c=c)) for c in ('Path', 'Name')]
        got = {str(a): str(b) for a, b in zip(*got)}
        for n, k in want:
            if k.strip('.') == '':
                continue
            sc.true('file %r' % n, got.get(n) == k, "entry %r" % (got.get(n),))
    chk.scenario("file names", names, limit=120)

    def foreign(sc):
        """files of other kinds, next to material files"""
        conf = config(sc, {'UserData': True}, ref(sc, NM))
        d = DB + '/UserData'
        sc.w.fs.mkdirs(d)
        t, e = matfile(sc, 'p.txt', 1, NM, 'file', 0)
        exts = [w for w in chk.strings() if re.fullmatch(r'\.\w+', w)] + ['.txt', '.csv', '.yml', '.yaml', '.md', '.nk', '.dat', '.bak', '.TMP', '']
        for i, x in enumerate(sorted({y for w in exts for y in (w, w.upper(), w.capitalize(), w.title(), w + '~', w + '.bak', w + '.', w + ' ', w[:-1] if len(w) > 2 else w)})):
            if x in ('.txt', '.csv', '.yml'):
                sc.w.fs.mkdirs(d + '/folder%d%s' % (i, x))
            else:
                sc.w.fs.put(d + '/f%d%s' % (i, x), 'nothing: to, see {here\n')
        sc.w.fs.put(d + '/m.txt', t)
        sc.w.fs.put(d + '/z.txt', t)
        df = sc.ok('table', lambda: sc.meth(catalogue(sc, conf, rebuild='All'), 'get_database'))
        got = sorted(str(x) for x in sc.it.iterate(snippet(sc, 'df[c].values', df=df, c='Path')))
        sc.true('files of other kinds are left out', got == ['m.txt', 'z.txt'], "entries of %s" % (got,))
    chk.scenario("files of other kinds", foreign, limit=60)

    def texts(sc):
        """references and comments of several lines and of any length"""
        conf = config(sc, {'UserData': True, 'RefractiveIndexInfo': True}, ref(sc, NM))
        P = sc.w.fs.P
        d, r = DB + '/UserData', DB + '/RefractiveIndexInfo/database'
        sc.w.fs.mkdirs(d)
        sc.w.fs.mkdirs(r + '/data-nk/main')
        ts = ['one', 'two\nlines', 'two\n\nlines with a gap', '  indented', 'a <br> b', 'https://doi.org/10.1/x?y=1&z=2#frag', '1) J. Doe, "T", <i>J</i> 1, 2 (2003)\n2) A. B. #2',
              'M\u00fcller et al.', 'a; b, c: d', '100 %', 'x' * 40, ' '.join(['word'] * 60)] + ['w' * n + ' end' for n in chk.sizes(6000)]
        want = {}
        lines = ['- SHELF: main', '  name: "shelf"', '  content:', '    - BOOK: Ag', '      name: "silver"', '      content:']
        esc = lambda t: '"%s"' % t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
        for i, t in enumerate(ts):
            for j, (a, b) in enumerate(((t, 'c'), ('r', t), (t, t))):
                y = 'REFERENCES: %s\nCOMMENTS: %s\nDATA:\n  - type: tabulated n\n    data: |\n        0.4 1.5\n        0.8 1.6\n' % (esc(a), esc(b))
                n = 't%02d%d.yml' % (i, j)
                sc.w.fs.put(P.join(d, n), y)
                sc.w.fs.put(P.join(r, 'data-nk', 'main', n), y)
                lines += ['        - PAGE: p%d' % i, '          name: "page"', '          data: "main/%s"' % n]
                want[n] = want['database/data-nk/main/' + n] = (a, b)
        sc.w.fs.put(r + '/catalog-nk.yml', '\n'.join(lines) + '\n')
        df = sc.ok('table', lambda: sc.meth(catalogue(sc, conf, rebuild='All'), 'get_database'))
        got = [sc.it.iterate(snippet(sc, 'df[c].values', df=df, c=c)) for c in ('Path', 'Reference', 'Comment')]
        got = {str(p).replace('\\', '/'): (a, b) for p, a, b in zip(*got)}
        for p in want:
            for k, c in enumerate(('Reference', 'Comment')):
                sc.eq('%s of %s (%r)' % (c, p, want[p][k][:30]), got.get(p, (None, None))[k], want[p][k])
    for ru in (False, True):
        chk.scenario("texts of material files%s" % (' (ruamel)' if ru else ''), texts, limit=90, ruamel=ru)

    def far(sc):
        """tables anywhere on the axis, the reference spectrum fixed"""
        conf = config(sc, {'UserData': True, 'RefractiveIndexInfo': True}, (sc.num(500.0), 'wavelength', 'nm'))
        P = sc.w.fs.P
        d, r = DB + '/UserData', DB + '/RefractiveIndexInfo/database'
        sc.w.fs.mkdirs(d)
        sc.w.fs.mkdirs(r + '/data-nk/main')
        want = {}
        lines = ['- SHELF: main', '  name: "shelf"', '  content:', '    - BOOK: Ag', '      name: "silver"', '      content:']
        i = 0
        for e in range(-6, 8):
            for a, b in ((1.5, 3.5), (4.9, 7.25), (1.0, 4.75), (5.25, 9.5)):
                lo, hi = a * 10.0 ** e, b * 10.0 ** e
                for u, x in (('nm', 500.0), ('um', 0.5)):
                    i += 1
                    inside = lo < x < hi
                    n = 'x%03d.yml' % i
                    y = 'DATA:\n  - type: tabulated nk\n    SpectrumType: wavelength\n    Unit: %s\n    data: |\n        %r 1.5 0.25\n        %r 1.5 0.25\n' % (u, lo, hi)
                    sc.w.fs.put(P.join(d, n), y)
                    want[n] = inside
                    if u == 'um':
                        sc.w.fs.put(P.join(r, 'data-nk', 'main', n), y)
                        lines += ['        - PAGE: p%d' % i, '          name: "page"', '          data: "main/%s"' % n]
                        want['database/data-nk/main/' + n] = inside
        sc.w.fs.put(r + '/catalog-nk.yml', '\n'.join(lines) + '\n')
        df = sc.ok('table', lambda: sc.meth(catalogue(sc, conf, rebuild='All'), 'get_database'))
        got = [sc.it.iterate(snippet(sc, 'df[c].values', df=df, c=c)) for c in ('Path', 'N_Reference', 'K_Reference')]
        got = {str(p).replace('\\', '/'): (a, b) for p, a, b in zip(*got)}
        for p in want:
            for k, v in enumerate((1.5, 0.25)):
                sc.eq('reference index %d of %s, %s' % (k, p, 'inside' if want[p] else 'outside'), got.get(p, (None, None))[k], sc.num(v) if want[p] else NANV)
    chk.scenario("ranges anywhere", far, limit=120)

    def folders(sc, lost):
        """pages in several folders, some of them missing"""
        conf = config(sc, {'RefractiveIndexInfo': True}, ref(sc, NM))
        P = sc.w.fs.P
        for layout in ('data', 'data-nk'):
            d = P.join(DB, 'RefractiveIndexInfo', 'database')
            for x in [k for k in sc.w.fs.files if k.startswith(d)]:
                del sc.w.fs.files[x]
            if layout == 'data-nk':
                conf = config(sc, {'RefractiveIndexInfo': True}, ref(sc, NM), db='/home/u/db2')
                d = P.join('/home/u/db2', 'RefractiveIndexInfo', 'database')
            sc.w.fs.mkdirs(P.join(d, layout))
            t, e = matfile(sc, 'p.yml', 1, UM, 'file', 0)
            lines = ['- SHELF: main', '  name: "shelf"', '  content:', '    - BOOK: Ag', '      name: "silver"', '      content:']
            want = []
            for i, rel in enumerate(('main/Ag/a.yml', 'other/b.yml', 'c.yml', 'deep/er/and/deeper/d.yml')):
                lines += ['        - PAGE: p%d' % i, '          name: "page"', '          data: "%s"' % rel]
                if i in lost:
                    continue
                full = P.join(d, layout, *rel.split('/'))
                sc.w.fs.mkdirs(full.rpartition(P.sep)[0])
                sc.w.fs.put(full, t)
                want.append(('database/%s/%s' % (layout, rel), 'p%d' % i))
            sc.w.fs.put(P.join(d, 'catalog-nk.yml'), '\n'.join(lines) + '\n')
            df = sc.ok('table', lambda: sc.meth(catalogue(sc, conf, rebuild='All'), 'get_database'))
            got = [sc.it.iterate(snippet(sc, 'df[c].values', df=df, c=c)) for c in ('Path', 'Author')]
            got = sorted((str(a).replace('\\', '/'), str(b)) for a, b in zip(*got))
            sc.true('%s without folders %s' % (layout, lost), got == sorted(want), "entries %s" % (got,))
    for lost in ((), (0,), (1,), (3,), (0, 1, 3), (0, 1, 2, 3)):
        chk.scenario("pages in folders, missing %s" % (lost,), lambda sc, l=lost: folders(sc, l))
