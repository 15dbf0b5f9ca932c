"""C21 rebuilding and saving"""
import itertools
from .catkit import *

EXPLAIN = ("Catalogue constructor, build_catalogue and save_to_file interpreted over every combination of enabled modules and rebuild "
           "selections on a catalogue with aliases in all modules, and over catalogues with awkward texts, missing numbers and symbolic "
           "numbers; entries, order, columns and written files compared cell by cell; file-write events judged")
MODS = ['UserData', 'RefractiveIndexInfo', 'Filmetrics']
TEXTS = ['NA', '', 'nan', 'NaN', 'null', 'None', 'N/A', '1.0', '007', 'True', 'a, b', 'say "hi"', "it's", 'two\nlines', 'ü μ 中', ' lead', 'trail ', ';', '#', '-',
         'inf', '1e5', '<i>x</i>', 'tab\there', '\\', "''", '""', '  ']


def database(sc):
    """files of all three modules -> module -> expected fresh (Path, N_Reference)"""
    out = {}
    for mod in ('UserData', 'Filmetrics'):
        d = '%s/%s' % (DB, mod)
        sc.w.fs.mkdirs(d)
        out[mod] = []
        for k in range(2):
            v = sc.sym('fresh_%s_%d' % (mod, k), np=True)
            sc.w.fs.put('%s/new%d.txt' % (d, k), '500.0\t%s\n700.0\t%s\n' % (tok(sc, v), tok(sc, v)))
            out[mod].append(('new%d.txt' % k, v))
    d = DB + '/RefractiveIndexInfo/database'
    sc.w.fs.mkdirs(d + '/data-nk/main/Ag')
    v = sc.sym('fresh_rii', np=True)
    sc.w.fs.put(d + '/data-nk/main/Ag/Smith.yml', 'DATA:\n  - type: tabulated n\n    data: |\n        0.5 %s\n        0.7 %s\n' % (tok(sc, v), tok(sc, v)))
    sc.w.fs.put(d + '/catalog-nk.yml', '- SHELF: main\n  name: m\n  content:\n    - BOOK: Ag\n      name: Silver\n      content:\n        - PAGE: Smith\n'
                '          name: S\n          data: main/Ag/Smith.yml\n')
    out['RefractiveIndexInfo'] = [('database/data-nk/main/Ag/Smith.yml', v)]
    return out


def old(sc):
    es = []
    for i, mod in enumerate(('UserData', 'RefractiveIndexInfo', 'UserData', 'Filmetrics', 'RefractiveIndexInfo', 'Filmetrics')):
        es.append(entry(sc, i, Module=mod, Alias='alias%d' % i if i % 2 == 0 else '', Comment=TEXTS[i], N_Reference=sc.sym('old%d' % i),
                        K_Reference=NANV if i == 3 else sc.num(0.5)))
    # entries that differ from another one in a single cell only
    for i, (src, col, v) in enumerate([(0, 'Alias', ''), (1, 'Path', 'p/other.txt'), (5, 'Comment', 'x'), (4, 'N_Reference', sc.sym('oldx'))]):
        es.append(dict(es[src], **{col: v}))
    return es


def files(sc):
    return {k: (f.text, f.enc) for k, f in sc.w.fs.files.items()}


def check(chk):
    chk.rule('rebuild', "entries == old entries of enabled modules not selected (all cells) + fresh entries of selected enabled modules")
    chk.rule('disabled', "no entry of a disabled module; selecting one is refused")
    chk.rule('lossless', "saved and reopened: same columns, order and cells")
    chk.rule('no write', "opening and rebuilding leave every file as it was; saving writes the catalogue file only")

    def rebuild(sc, on, sel, form_):
        mods = {m: m in on for m in MODS}
        conf = config(sc, mods)
        fresh = database(sc)
        es = old(sc)
        sc.w.fs.put(DB + '/catalogue.csv', csvtext(sc, es))
        sc.mod('')
        before = files(sc)
        arg = 'All' if sel == 'All' else ('None' if sel == () else (sel[0] if form_ == 'str' else tuple(sel) if form_ == 'tuple' else list(sel)))
        chosen = set(MODS) if sel == 'All' else set(sel)
        if sel != 'All' and not chosen <= set(on):
            sc.raises('disabled module refused', lambda: sc.call(sc.pub('Catalogue'), config=conf, rebuild=arg))
            sc.true('no file written', files(sc) == before, "files changed")
            return
        cat = catalogue(sc, conf, rebuild=arg)
        cols, got = frame(sc, cat)
        sc.eq('columns', cols, COLS)
        if sel == ():
            same_rows(sc, 'opened', got, es)
        else:
            total = 0
            for m in MODS:
                mine = [r for r in got if r.get('Module') == m]
                total += len(mine)
                if m not in on:
                    sc.true('%s disabled' % m, not mine, "%d entries of a disabled module" % len(mine))
                elif m in chosen:
                    mine.sort(key=lambda r: str(r.get('Path')))
                    want = sorted(fresh[m], key=lambda f: f[0])
                    sc.eq('%s rebuilt' % m, [str(r.get('Path')).replace('\\', '/') for r in mine], [p for p, _ in want])
                    if len(mine) == len(want):
                        sc.eq('%s rebuilt values' % m, [r.get('N_Reference') for r in mine], [v for _, v in want])
                        sc.eq('%s rebuilt alias' % m, [r.get('Alias') for r in mine], [''] * len(mine))
                else:
                    same_rows(sc, '%s kept' % m, mine, [e for e in es if e['Module'] == m])
            sc.true('nothing else', total == len(got), "%d foreign entries" % (len(got) - total))
        sc.true('no file written', files(sc) == before, "files changed: %s" % [k for k, v in files(sc).items() if before.get(k) != v])
        # the table survives saving
        sc.ok('save', lambda: sc.meth(cat, 'save_to_file'))
        now = files(sc)
        ch = [k for k in now if before.get(k) != now[k]]
        sc.true('only the catalogue file is written', set(ch) <= {DB + '/catalogue.csv'} and set(before) <= set(now), "changed %s" % ch)
        cols2, got2 = frame(sc, catalogue(sc, config(sc, mods), 'reopen'))
        sc.eq('columns after saving', cols2, COLS)
        same_rows(sc, 'after saving', got2, got)
    for on in [c for n in range(4) for c in itertools.combinations(MODS, n)]:
        for sel in ['All', ()] + [c for n in (1, 2, 3) for c in itertools.combinations(MODS, n)]:
            for form_ in (('list', 'str', 'tuple') if len(sel) == 1 else ('list',)):
                chk.scenario("enabled %s, rebuild %s%s" % (on, sel, '' if form_ == 'list' else ' as ' + form_), lambda sc, a=(on, sel, form_): rebuild(sc, *a))

    def lossless(sc, nt):
        db = 'C:\\db' if nt else DB
        conf = config(sc, db=db)
        es = []
        n = len(TEXTS)
        for i in range(n):
            kw = {c: TEXTS[(i + 3 * j) % n] for j, c in enumerate(('Alias', 'Name', 'FullName', 'Author', 'Comment', 'Reference'))}
            es.append(entry(sc, i, SpectrumType=('wavelength', 'energy')[i % 2], Unit=('nm', 'ev')[i % 2], Module=MODS[i % 2],
                            N_Reference=NANV if i % 3 == 0 else sc.sym('n%d' % i, sign=None), K_Reference=NANV if i % 4 == 0 else sc.num(1e-7 * i),
                            SpectrumLowerBound=sc.sym('lo%d' % i), **kw))
        p = sc.w.fs.P.join(db, 'catalogue.csv')
        sc.w.fs.put(p, csvtext(sc, es))
        for rnd in range(3):
            cat = catalogue(sc, conf)
            cols, got = frame(sc, cat)
            sc.eq('round %d columns' % rnd, cols, COLS)
            same_rows(sc, 'round %d' % rnd, got, es)
            if rnd == 1:
                sc.ok('register', lambda: sc.meth(cat, 'register_alias', 2, 'fresh alias'))
                es[2]['Alias'] = 'fresh alias'
            sc.ok('save', lambda: sc.meth(cat, 'save_to_file'))
        f = sc.w.fs.files.get(sc.w.fs.norm(p))
        sc.true('encoding', f is not None and f.enc in ('utf-8', 'ascii'), "written as %s" % (f and f.enc))
    chk.scenario("saving is lossless", lambda sc: lossless(sc, False))
    chk.scenario("saving is lossless (Windows)", lambda sc: lossless(sc, True), style='nt')
    chk.scenario("saving is lossless (other locale)", lambda sc: lossless(sc, False), locale='latin-1')

    def empty(sc):
        """no entries at all"""
        conf = config(sc, {'UserData': True})
        sc.w.fs.mkdirs(DB + '/UserData')
        cat = catalogue(sc, conf, rebuild='All')
        cols, got = frame(sc, cat)
        sc.eq('columns', cols, COLS)
        sc.eq('entries', len(got), 0)
        sc.ok('save', lambda: sc.meth(cat, 'save_to_file'))
        cols, got = frame(sc, catalogue(sc, conf))
        sc.eq('reopened columns', cols, COLS)
        sc.eq('reopened entries', len(got), 0)
        sc.raises('missing catalogue', lambda: sc.call(sc.pub('Catalogue'), config=config(sc, db='/home/u/other')), exc=(Exception,))
    chk.scenario("empty catalogue", empty)

    def relabelled(sc):
        """the user reorders the table before saving"""
        es = old(sc)
        sc.w.fs.mkdirs(DB)
        sc.w.fs.put(DB + '/catalogue.csv', csvtext(sc, es))
        cat = catalogue(sc, config(sc))
        order = [4, 2, 5, 0]
        df = sc.ok('reorder', lambda: snippet(sc, 'df.iloc[o, :]', df=sc.meth(cat, 'get_database'), o=order))
        sc.ok('set', lambda: sc.meth(cat, 'set_database', df))
        sc.ok('save', lambda: sc.meth(cat, 'save_to_file'))
        cols, got = frame(sc, catalogue(sc, config(sc)))
        sc.eq('columns', cols, COLS)
        same_rows(sc, 'reordered', got, [es[i] for i in order])
    chk.scenario("reordered table", relabelled)

    def found(sc):
        """texts the source compares with, and many rows"""
        ws = chk.strings()
        es = []
        for i in range(0, len(ws), 5):
            q = (ws + ws)[i:i + 5]
            es.append(entry(sc, i, **dict(zip(('Name', 'FullName', 'Author', 'Comment', 'Reference'), q)), Alias='alias %d' % i))
        sc.w.fs.mkdirs(DB)
        sc.w.fs.put(DB + '/catalogue.csv', csvtext(sc, es))
        cat = catalogue(sc, config(sc))
        cols, got = frame(sc, cat)
        same_rows(sc, 'texts opened', got, es)
        sc.ok('save', lambda: sc.meth(cat, 'save_to_file'))
        cols, got = frame(sc, catalogue(sc, config(sc)))
        same_rows(sc, 'texts saved', got, es)
    chk.scenario("texts of the source", found, limit=120)

    def many(sc, n):
        """catalogues of many entries: kept modules stay complete"""
        es = [entry(sc, i, Module='Filmetrics' if i % 2 else 'UserData') for i in range(n)]
        sc.w.fs.mkdirs(DB + '/UserData')
        sc.w.fs.mkdirs(DB + '/Filmetrics')
        sc.w.fs.put(DB + '/catalogue.csv', csvtext(sc, es))
        mods = {'UserData': True, 'Filmetrics': True}

        TXT = ('Path', 'Alias', 'Name', 'FullName', 'Author', 'Comment', 'Reference', 'Module', 'SpectrumType', 'Unit')

        def paths(cat):
            df = sc.meth(cat, 'get_database')
            return list(zip(*[[str(x) for x in sc.it.iterate(snippet(sc, 'df[c].values', df=df, c=c))] for c in TXT]))

        def cells(es):
            return [tuple(str(e[c]) for c in TXT) for e in es]
        cat = catalogue(sc, config(sc, mods))
        sc.true('%d entries opened' % n, paths(cat) == cells(es), 'entries or their texts differ')
        sc.ok('save', lambda: sc.meth(cat, 'save_to_file'))
        cat = catalogue(sc, config(sc, mods))
        sc.true('%d entries saved' % n, paths(cat) == cells(es), 'entries or their texts differ')
        cat = catalogue(sc, config(sc, mods), rebuild='UserData')
        sc.true('%d entries, kept' % n, paths(cat) == cells([e for e in es if e['Module'] == 'Filmetrics']), 'entries or their texts differ')
    for n in chk.sizes(6000, 2):
        chk.scenario("%d entries" % n, lambda sc, n=n: many(sc, n + n % 2), limit=120)
