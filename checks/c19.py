"""C19 aliases"""
import itertools
from .catkit import *

EXPLAIN = ("register_alias and get_material interpreted over an abstract catalogue table (row labels, cells) and file system: every row "
           "address, alias state and registration sequence up to a length, default and permuted row labels, posix and Windows paths; "
           "table compared cell by cell with a reference map, loaded material compared with the file of that very entry")


def setup(sc, n=3, aliases=None, nt=False, units=None, shuffle=None):
    db = 'C:\\db' if nt else DB
    conf = config(sc, db=db)
    j = sc.w.fs.P.join
    es, files = [], []
    for i in range(n):
        mod = ['UserData', 'RefractiveIndexInfo', 'UserData', 'RefractiveIndexInfo', 'UserData'][i % 5]
        rel = 'file%d.txt' % i if mod == 'UserData' else ['database\\data-nk\\main\\file%d.txt', 'database/data-nk/main/file%d.txt'][i // 2 % 2] % i
        u = (units or [NM, UM, EV, ('frequency', 'hertz'), NM])
        u = u[i % len(u)]
        e = entry(sc, i, Alias=(aliases or {}).get(i, ''), Module=mod, Path=rel, SpectrumType=u[0], Unit=u[1])
        full = j(db, mod, *rel.replace('\\', '/').split('/'))
        sc.w.fs.mkdirs(full.rpartition(sc.w.fs.P.sep)[0])
        x0, x1 = (sc.num(v) for v in ((1.0, 2.0), (300.0, 900.0))[u == NM])
        if u[0] == 'frequency':
            x0, x1 = sc.num(3e14), sc.num(6e14)
        a, b = sc.sym('a%d' % i, np=True), sc.sym('b%d' % i, np=True)
        sc.w.fs.put(full, '%s\t%s\n%s\t%s\n' % (tok(sc, x0), tok(sc, a), tok(sc, x1), tok(sc, b)))
        files.append((u, x0, x1, a, b))
        es.append(e)
    sc.w.fs.put(j(db, 'catalogue.csv'), csvtext(sc, es))
    cat = catalogue(sc, conf)
    return cat, es, files


def ismat(sc, label, m, f):
    u, x0, x1, a, b = f
    d = sc.attr(m, 'defaults')
    sc.eq(label + ' quantity', str(d['spectrum_type']).lower(), u[0])
    sc.eq(label + ' unit', canon(str(d['unit'])), canon(u[1]))
    v = sc.ok(label + ' evaluate', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [x0, x1], u)))
    sc.eq(label + ' data', elems(v), [a, b])


def lookup(sc, label, cat, es, files, aliases):
    for al in aliases:
        hit = [i for i, e in enumerate(es) if e['Alias'] == al]
        if not hit:
            sc.raises('%s lookup %r unknown' % (label, al), lambda: sc.meth(cat, 'get_material', al))
        else:
            ismat(sc, '%s lookup %r' % (label, al), sc.ok(label + ' lookup', lambda: sc.meth(cat, 'get_material', al)), files[hit[0]])


def rows_are(sc, label, cat, es):
    cols, got = frame(sc, cat)
    sc.eq(label + ' columns', cols, COLS)
    same_rows(sc, label, got, es)


def check(chk):
    chk.rule('register', "after register_alias exactly one cell differs; a used alias, several rows or an unknown row: exception and no cell differs")
    chk.rule('lookup', "alias or row number loads module folder + path of that entry, with its quantity and unit; unknown alias: ValueError")

    def seqs(sc, first, how):
        """all registration sequences over rows x aliases"""
        cat, es, files = setup(sc, 3, {1: 'gold'} if first else {})
        base = [dict(e) for e in es]
        ops = [(r, a) for r in range(3) for a in ('gold', 'x')]
        for q in itertools.product(ops, repeat=2):
            db0 = sc.ok('copy', lambda: snippet(sc, 'df.copy()', df=sc.meth(cat, 'get_database')))
            cur = [dict(e) for e in base]
            for r, a in q:
                lab = 'after %s: %s' % (q, (r, a))
                addr = r if how == 'row' else sc.ok('select', lambda: snippet(sc, 'df[df.Path == p]', df=sc.meth(cat, 'get_database'), p=cur[r]['Path']))
                taken = any(e['Alias'] == a for i, e in enumerate(cur) if i != r)
                if taken:
                    sc.raises(lab + ' refused', lambda: sc.meth(cat, 'register_alias', addr, a))
                else:
                    sc.ok(lab, lambda: sc.meth(cat, 'register_alias', addr, a))
                    cur[r]['Alias'] = a
                rows_are(sc, lab, cat, cur)
            lookup(sc, 'after %s' % (q,), cat, cur, files, ['gold', 'x', 'nope', 'Gold', 'mat0', 'file0.txt', '0'])
            sc.ok('restore', lambda: sc.meth(cat, 'set_database', db0))
    for first in (False, True):
        for how in ('row', 'selection'):
            chk.scenario("registration sequences by %s%s" % (how, ', one alias present' if first else ''),
                         lambda sc, a=(first, how): seqs(sc, *a), limit=120)

    def third(sc):
        """longer histories, saving in between"""
        cat, es, files = setup(sc, 4)
        hist = [(0, 'a'), (1, 'b'), (0, 'c'), (2, 'a'), (3, 'b'), (1, 'd'), (3, 'b'), (2, 'd'), (0, 'c')]
        for k, (r, a) in enumerate(hist):
            if any(e['Alias'] == a for i, e in enumerate(es) if i != r):
                sc.raises('step %d refused' % k, lambda: sc.meth(cat, 'register_alias', r, a))
            else:
                sc.ok('step %d' % k, lambda: sc.meth(cat, 'register_alias', r, a))
                es[r]['Alias'] = a
            rows_are(sc, 'step %d' % k, cat, es)
            lookup(sc, 'step %d' % k, cat, es, files, ['a', 'b', 'c', 'd'])
            if k % 3 == 2:
                sc.ok('save', lambda: sc.meth(cat, 'save_to_file'))
                cat = catalogue(sc, config(sc))
                rows_are(sc, 'reopened at step %d' % k, cat, es)
                lookup(sc, 'reopened at step %d' % k, cat, es, files, ['a', 'b', 'c', 'd'])
    chk.scenario("long history with saving", third, limit=60)

    def wrong(sc):
        cat, es, files = setup(sc, 4, {2: 'gold'})
        get = lambda: sc.meth(cat, 'get_database')
        for lab, code in (('two rows', 'df[df.Module == "UserData"]'), ('all rows', 'df'), ('no row', 'df[df.Name == "none"]')):
            addr = sc.ok('select', lambda: snippet(sc, code, df=get()))
            for al in ('new', 'gold'):
                sc.raises('%s refused' % lab, lambda: sc.meth(cat, 'register_alias', addr, al), exc=(Exception,))
                rows_are(sc, lab, cat, es)
        for r in (4, 100):
            sc.raises('row %d refused' % r, lambda: sc.meth(cat, 'register_alias', r, 'new'), exc=(Exception,))
            rows_are(sc, 'row %d' % r, cat, es)
        for r in ('0', None, sc.num(1.0), 'gold', 'mat1', [0]):
            sc.raises('address %r refused' % (r,), lambda: sc.meth(cat, 'register_alias', r, 'new'), exc=(Exception,))
            rows_are(sc, 'address %r' % (r,), cat, es)
        for ident in (None, sc.num(1.0), ['gold'], ('gold',)):
            sc.raises('identifier %r' % (ident,), lambda: sc.meth(cat, 'get_material', ident))
        sc.raises('row number 4', lambda: sc.meth(cat, 'get_material', 4), exc=(Exception,))
        sc.raises('row number 4 of catalogue', lambda: sc.meth(cat, 'get_material', 17), exc=(Exception,))
    chk.scenario("wrong addresses", wrong)

    def numbers(sc, nt):
        cat, es, files = setup(sc, 5, {0: 'zero', 3: 'three', 4: 'ä b, "c"'}, nt)
        for i in range(5):
            ismat(sc, 'row %d' % i, sc.ok('row %d' % i, lambda: sc.meth(cat, 'get_material', i)), files[i])
        lookup(sc, 'alias', cat, es, files, ['zero', 'three', 'ä b, "c"', 'Three', 'zer', ''.join(['t', 'hree'])])
        rows_are(sc, 'after loading', cat, es)
    for nt in (False, True):
        chk.scenario("row numbers and aliases%s" % (' (Windows)' if nt else ''), lambda sc, n=nt: numbers(sc, n), style='nt' if nt else 'posix')

    def twins(sc, how):
        """entries that agree in all cells but the module (and with it the file)"""
        conf = config(sc, {'UserData': True, 'RefractiveIndexInfo': True, 'Filmetrics': True})
        es, files = [], []
        for i, mod in enumerate(('UserData', 'RefractiveIndexInfo', 'Filmetrics')):
            es.append(entry(sc, 0, Module=mod, Path='same.txt', SpectrumType='wavelength', Unit='nm'))
            a, b = sc.sym('ta%d' % i, np=True), sc.sym('tb%d' % i, np=True)
            x0, x1 = sc.num(300.0), sc.num(900.0)
            sc.w.fs.mkdirs(DB + '/' + mod)
            sc.w.fs.put('%s/%s/same.txt' % (DB, mod), '%s\t%s\n%s\t%s\n' % (tok(sc, x0), tok(sc, a), tok(sc, x1), tok(sc, b)))
            files.append((NM, x0, x1, a, b))
        sc.w.fs.put(DB + '/catalogue.csv', csvtext(sc, es))
        for q in itertools.permutations(range(3)):
            cat = catalogue(sc, conf)
            cur = [dict(e) for e in es]
            for k, r in enumerate(q):
                addr = r if how == 'row' else sc.ok('select', lambda: snippet(sc, 'df[df.Module == m]', df=sc.meth(cat, 'get_database'), m=cur[r]['Module']))
                sc.ok('register %d' % r, lambda: sc.meth(cat, 'register_alias', addr, 'twin%d' % r))
                cur[r]['Alias'] = 'twin%d' % r
                rows_are(sc, 'twins %s step %d' % (q, k), cat, cur)
                taken = q[(k + 1) % 3]
                addr = taken if how == 'row' else sc.ok('select', lambda: snippet(sc, 'df[df.Module == m]', df=sc.meth(cat, 'get_database'), m=cur[taken]['Module']))
                sc.raises('twins taken %s step %d' % (q, k), lambda: sc.meth(cat, 'register_alias', addr, 'twin%d' % r))
                rows_are(sc, 'twins taken %s step %d' % (q, k), cat, cur)
            lookup(sc, 'twins %s' % (q,), cat, cur, files, ['twin0', 'twin1', 'twin2'])
            for i in range(3):
                ismat(sc, 'twin row %d' % i, sc.ok('row %d' % i, lambda: sc.meth(cat, 'get_material', i)), files[i])
    for how in ('row', 'selection'):
        chk.scenario("entries that differ in the module only, by %s" % how, lambda sc, h=how: twins(sc, h))

    def labels(sc, order):
        """a table whose row labels are not 0..n-1 in order (sorted or filtered by the user)"""
        cat, es, files = setup(sc, 4, {1: 'gold', 3: 'tin'})
        df = sc.ok('relabel', lambda: snippet(sc, 'df.iloc[o, :]', df=sc.meth(cat, 'get_database'), o=list(order)))
        sc.ok('set', lambda: sc.meth(cat, 'set_database', df))
        cur, fl = [dict(es[i]) for i in order], [files[i] for i in order]
        rows_are(sc, 'relabelled', cat, cur)
        lookup(sc, 'relabelled', cat, cur, fl, ['gold', 'tin', 'none'])
        for i in range(len(order)):
            ismat(sc, 'row number %d' % i, sc.ok('row', lambda: sc.meth(cat, 'get_material', i)), fl[i])
        for i in range(len(order)):
            addr = sc.ok('select', lambda: snippet(sc, 'df[df.Path == p]', df=sc.meth(cat, 'get_database'), p=cur[i]['Path']))
            al = 'new%d' % i
            sc.ok('register %d' % i, lambda: sc.meth(cat, 'register_alias', addr, al))
            cur[i]['Alias'] = al
            rows_are(sc, 'registered %d' % i, cat, cur)
            sc.raises('used alias %d' % i, lambda: sc.meth(cat, 'register_alias', snippet(sc, 'df[df.Path == p]', df=sc.meth(cat, 'get_database'),
                                                                                          p=cur[(i + 1) % len(order)]['Path']), al))
            rows_are(sc, 'used alias %d' % i, cat, cur)
            lookup(sc, 'registered %d' % i, cat, cur, fl, ['new0', 'new%d' % i, 'gold', 'tin'])
    for order in ((3, 2, 1, 0), (1, 3), (2, 0, 3), (1, 2, 3, 0)):
        chk.scenario("row labels %s" % (order,), lambda sc, o=order: labels(sc, o))

    def several(sc):
        """selections of several rows, of the same row repeated, of none"""
        cat, es, files = setup(sc, 4, {1: 'gold'})
        for o in ([0, 0], [1, 1], [2, 2, 2], [0, 1], [3, 2], [0, 1, 0], [0, 1, 2, 3]):
            sel = sc.ok('select', lambda: snippet(sc, 'df.iloc[o, :]', df=sc.meth(cat, 'get_database'), o=o))
            sc.raises('selection of rows %s' % o, lambda: sc.meth(cat, 'register_alias', sel, 'fresh'))
            rows_are(sc, 'selection of rows %s' % o, cat, es)
    chk.scenario("selections of several rows", several)

    def signs(sc):
        """aliases with characters that mean something to patterns, queries, formats or paths"""
        names = ['n.1', 'nx1', 'n1', 'a(b', '[x]', 'x', 'a*', 'a', '^a$', 'a|b', '%s', '@x', "o'k", 'q"q', '\\d', '5', '0', '1', '-1', '{0}', 'nan',
                 'None', 'NA', 'True', ' lead', 'lead', 'trail ', 'a/b', 'a\\b', 'Gold', 'gold', 'GOLD', '\u00e9', 'e\u0301', 'a,b', 'a;b', '#a', '*', '.', '..']
        cat, es, files = setup(sc, len(names))
        for i, w in enumerate(names):
            sc.ok('register %r' % w, lambda: sc.meth(cat, 'register_alias', i, w))
            es[i]['Alias'] = w
        rows_are(sc, 'all registered', cat, es)
        for i, w in enumerate(names):
            ismat(sc, 'look up %r' % w, sc.ok('look up %r' % w, lambda: sc.meth(cat, 'get_material', w)), files[i])
            sc.raises('%r taken' % w, lambda: sc.meth(cat, 'register_alias', (i + 1) % len(names), w))
        for w in ('n?1', '.*', 'a.*', 'b', 'n.', '%', 'GolD', 'o', '2', 'lead ', ''):
            sc.raises('look up %r' % w, lambda: sc.meth(cat, 'get_material', w))
        rows_are(sc, 'in the end', cat, es)
    chk.scenario("aliases of signs", signs, limit=120)

    def nameless(sc):
        """no alias is no name"""
        for n in (1, 2, 3):
            cat, es, files = setup(sc, n)
            sc.raises('empty alias of %d entries without alias' % n, lambda: sc.meth(cat, 'get_material', ''))
            sc.ok('register', lambda: sc.meth(cat, 'register_alias', 0, 'x'))
            es[0]['Alias'] = 'x'
            sc.raises('empty alias of %d entries, one with alias' % n, lambda: sc.meth(cat, 'get_material', ''))
            rows_are(sc, 'entries', cat, es)
    chk.scenario("empty alias", nameless)

    def found(sc):
        """aliases the source compares with"""
        cat, es, files = setup(sc, 3)
        ws = [w for w in chk.strings() if len(w) < 14]
        prev = None
        for k, w in enumerate(ws):
            r = k % 3
            sc.ok('register %r' % w, lambda: sc.meth(cat, 'register_alias', r, w))
            es[r]['Alias'] = w
            sc.raises('%r taken' % w, lambda: sc.meth(cat, 'register_alias', (r + 1) % 3, w))
            got = [sc.it.iterate(snippet(sc, 'df["Alias"].values', df=sc.meth(cat, 'get_database')))]
            sc.eq('aliases after %r' % w, list(got[0]), [e['Alias'] for e in es])
            m = sc.ok('look up %r' % w, lambda: sc.meth(cat, 'get_material', w))
            d = sc.attr(m, 'defaults')
            sc.eq('unit of %r' % w, canon(str(d['unit'])), canon(files[r][0][1]))
            if prev is not None and prev not in [e['Alias'] for e in es]:
                sc.raises('%r given up' % prev, lambda: sc.meth(cat, 'get_material', prev))
            prev = ws[k - 2] if k > 2 else None
        rows_are(sc, 'in the end', cat, es)
    chk.scenario("texts of the source as aliases", found, limit=120)
