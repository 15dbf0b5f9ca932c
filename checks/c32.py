"""C32 interactive catalogue"""
from .catkit import *

EXPLAIN = ("Catalogue with and without interactive mode interpreted against a recording model of qgrid: what is shown, in which mode, "
           "what is taken over from the widget and what reaches the catalogue file")
NAME = {'view_interactive': False, 'edit_interactive': True}


def rows_of(sc, df):
    cols = sc.it.iterate(sc.attr(df, 'columns'))
    n = int(sc.it.as_int(sc.it.call(sc.it.builtins['len'], [df], {})))
    return [{c: snippet(sc, 'df.iloc[i, j]', df=df, i=i, j=j) for j, c in enumerate(cols)} for i in range(n)]


def opened(sc, es, interactive=True):
    conf = config(sc)
    conf['Interactive'] = interactive
    sc.w.fs.put(DB + '/catalogue.csv', csvtext(sc, es))
    return conf, catalogue(sc, conf)


def files(sc):
    return {k: (f.text, f.enc) for k, f in sc.w.fs.files.items()}


def entries(sc):
    return [entry(sc, 0, Alias='gold'), entry(sc, 1), entry(sc, 2, Module='RefractiveIndexInfo', Comment='NA', K_Reference=NANV),
            entry(sc, 3, N_Reference=sc.sym('n3'))]


def check(chk):
    chk.rule('shown', "the widget gets exactly the catalogue table, read-only for viewing and editable for editing, and is returned")
    chk.rule('taken over', "save_interactive == the widget's changed table becomes the catalogue; nothing is written to disk before save_to_file")
    chk.rule('refused', "disabled in the configuration: ValueError, catalogue untouched; qgrid not installed: refused when the catalogue is opened")

    def off(sc):
        es = entries(sc)
        conf, cat = opened(sc, es, False)
        before = files(sc)
        for meth in ('view_interactive', 'edit_interactive', 'save_interactive'):
            sc.raises(meth + ' when disabled', lambda: sc.meth(cat, meth))
            same_rows(sc, 'after ' + meth, frame(sc, cat)[1], es)
        sc.true('nothing written', files(sc) == before)
        sc.true('no widget', not any(k == 'grid' for k, _, _, _ in sc.w.events))
    for q in (False, True):
        chk.scenario("disabled, qgrid %s" % ('installed' if q else 'missing'), off, qgrid=q)

    def missing(sc):
        es = entries(sc)
        conf = config(sc)
        conf['Interactive'] = True
        sc.w.fs.put(DB + '/catalogue.csv', csvtext(sc, es))
        before = files(sc)
        sc.raises('open without qgrid', lambda: sc.call(sc.pub('Catalogue'), config=conf), (Exception,))
        sc.true('nothing written', files(sc) == before)
    chk.scenario("qgrid missing", missing)

    def show(sc, meth):
        es = entries(sc)
        conf, cat = opened(sc, es)
        before = files(sc)
        n = len(sc.w.events)
        g = sc.ok(meth, lambda: sc.meth(cat, meth))
        made = [d[0] for k, d, _, gd in sc.w.events[n:] if k == 'grid']
        sc.true('one widget', len(made) == 1 and made[0] is g, "%d widgets made, %s returned" % (len(made), txt(g)))
        if len(made) != 1:
            return
        same_rows(sc, 'shown', rows_of(sc, made[0].df), es)
        go = made[0].kw.get('grid_options')
        if isinstance(go, dict):
            sc.eq('editable', go.get('editable', True), NAME[meth])
        else:
            sc.true('editable', None if isinstance(go, (Unknown, Phi)) else NAME[meth], "no grid options")
        same_rows(sc, 'table', frame(sc, cat)[1], es)
        sc.true('nothing written', files(sc) == before)
        # not edited: saving changes nothing
        if NAME[meth]:
            sc.ok('save', lambda: sc.meth(cat, 'save_interactive'))
            same_rows(sc, 'saved unedited', frame(sc, cat)[1], es)
            sc.true('nothing written before save_to_file', files(sc) == before)
    for meth in NAME:
        chk.scenario(meth, lambda sc, meth=meth: show(sc, meth), qgrid=True)

    def modes(sc):
        """the mode of the widget depends on the call only"""
        es = entries(sc)
        conf, cat = opened(sc, es)
        for i, meth in enumerate(('view_interactive', 'edit_interactive', 'view_interactive', 'view_interactive', 'edit_interactive', 'edit_interactive', 'view_interactive')):
            g = sc.ok(meth, lambda: sc.meth(cat, meth))
            go = g.kw.get('grid_options') if hasattr(g, 'kw') else None
            sc.true('call %d (%s) makes a widget' % (i, meth), hasattr(g, 'kw'))
            if isinstance(go, dict):
                sc.eq('call %d (%s) editable' % (i, meth), go.get('editable', True), NAME[meth])
            if i in (1, 4):
                sc.ok('save', lambda: sc.meth(cat, 'save_interactive'))
            same_rows(sc, 'shown by call %d' % i, rows_of(sc, g.df), es)
    chk.scenario("views and edits in turn", modes, qgrid=True)

    EDITS = {'alias set': [(1, 'Alias', 'silver')], 'alias moved': [(0, 'Alias', ''), (3, 'Alias', 'gold')],
             'several': [(0, 'Alias', 'Au'), (1, 'Alias', 'Ag'), (3, 'Comment', 'x, "y"'), (2, 'Name', 'other')]}

    def edit(sc, label, times=1):
        es = entries(sc)
        conf, cat = opened(sc, es)
        before = files(sc)
        for t in range(times):
            g = sc.ok('edit', lambda: sc.meth(cat, 'edit_interactive'))
            df = sc.ok('copy', lambda: snippet(sc, 'df.copy()', df=g.df))
            for i, c, v in EDITS[label]:
                if t:
                    v = v + '2'
                sc.it.setitem(sc.attr(df, 'at'), (i, c), v)
            g.changed = df
            same_rows(sc, 'edited, not yet saved', frame(sc, cat)[1], es)
            es = [dict(e) for e in es]
            for i, c, v in EDITS[label]:
                es[i][c] = v + '2' if t else v
            sc.ok('save', lambda: sc.meth(cat, 'save_interactive'))
            same_rows(sc, 'saved', frame(sc, cat)[1], es)
            sc.true('nothing written before save_to_file', files(sc) == before)
        sc.ok('to file', lambda: sc.meth(cat, 'save_to_file'))
        after = files(sc)
        sc.true('only the catalogue file is written', {k for k in after if after[k] != before.get(k)} <= {sc.w.fs.norm(DB + '/catalogue.csv')})
        c2 = catalogue(sc, dict(conf, Interactive=False), 'reopen')
        same_rows(sc, 'reopened', frame(sc, c2)[1], es)
    for label in EDITS:
        for times in (1, 2):
            chk.scenario("edit: %s, %d times" % (label, times), lambda sc, label=label, times=times: edit(sc, label, times), qgrid=True)

    def rows_edit(sc, what):
        """rows removed, added, reordered or relabelled, cells emptied"""
        es = entries(sc)
        conf, cat = opened(sc, es)
        g = sc.ok('edit', lambda: sc.meth(cat, 'edit_interactive'))
        src, want = {'removed': ('df.iloc[[0, 3], :]', [es[0], es[3]]),
                     'all removed': ('df.iloc[:0, :]', []),
                     'first removed': ('df.iloc[1:, :]', es[1:]),
                     'reordered': ('df.iloc[[2, 0, 3, 1], :]', [es[2], es[0], es[3], es[1]]),
                     'reordered and relabelled': ('df.iloc[[2, 0, 3, 1], :].reset_index(drop=True)', [es[2], es[0], es[3], es[1]]),
                     'added': ('pd.concat([df, df.iloc[[1], :]], ignore_index=True)', es + [es[1]]),
                     'emptied': ('df.copy()', es)}[what]
        df = sc.ok('changed', lambda: snippet(sc, src, df=g.df, pd=sc.w.import_module('pandas', sc.it)))
        want = [dict(e) for e in want]
        if what == 'emptied':
            for i, c, v in ((0, 'Alias', ''), (0, 'N_Reference', NANV), (1, 'K_Reference', NANV), (3, 'Comment', '')):
                sc.it.setitem(sc.attr(df, 'at'), (i, c), v)
                want[i][c] = v
        g.changed = df
        sc.ok('save', lambda: sc.meth(cat, 'save_interactive'))
        same_rows(sc, 'rows ' + what, frame(sc, cat)[1], want)
        sc.ok('to file', lambda: sc.meth(cat, 'save_to_file'))
        c2 = catalogue(sc, dict(conf, Interactive=False), 'reopen')
        same_rows(sc, 'reopened, rows ' + what, frame(sc, c2)[1], want)
    for what in ('removed', 'all removed', 'first removed', 'reordered', 'reordered and relabelled', 'added', 'emptied'):
        chk.scenario("rows %s" % what, lambda sc, w=what: rows_edit(sc, w), qgrid=True)

    def many(sc, n):
        """tables of many rows"""
        es = [entry(sc, i, Alias='alias %d' % i if i % 3 else '') for i in range(n)]
        conf, cat = opened(sc, es)

        def cells(df):
            return [[str(x) for x in sc.it.iterate(snippet(sc, 'df[c].values', df=df, c=c))] for c in ('Path', 'Alias', 'Comment')]
        want = [[str(e[c]) for e in es] for c in ('Path', 'Alias', 'Comment')]
        for meth in ('view_interactive', 'edit_interactive'):
            g = sc.ok(meth, lambda: sc.meth(cat, meth))
            sc.eq('%s of %d rows' % (meth, n), cells(g.df), want)
        df = sc.ok('copy', lambda: snippet(sc, 'df.copy()', df=g.df))
        for i in (0, n // 2, n - 1):
            sc.it.setitem(sc.attr(df, 'at'), (i, 'Alias'), 'edited %d' % i)
            want[1][i] = 'edited %d' % i
        g.changed = df
        sc.ok('save', lambda: sc.meth(cat, 'save_interactive'))
        sc.eq('%d rows taken over' % n, cells(sc.meth(cat, 'get_database')), want)
        sc.ok('to file', lambda: sc.meth(cat, 'save_to_file'))
        c2 = catalogue(sc, dict(conf, Interactive=False), 'reopen')
        sc.eq('%d rows reopened' % n, cells(sc.meth(c2, 'get_database')), want)
    for n in sorted({14, 70, 130} | set(chk.sizes(6000, 2))):
        chk.scenario("%d rows" % n, lambda sc, n=n: many(sc, n), qgrid=True, limit=120)

    def setdb(sc, interactive):
        es = entries(sc)
        conf, cat = opened(sc, es, interactive)
        before = files(sc)
        df = sc.ok('copy', lambda: snippet(sc, 'df.copy()', df=sc.meth(cat, 'get_database')))
        sc.it.setitem(sc.attr(df, 'at'), (2, 'Alias'), 'x')
        same_rows(sc, 'a copy is independent', frame(sc, cat)[1], es)
        sc.ok('set', lambda: sc.meth(cat, 'set_database', df))
        want = [dict(e) for e in es]
        want[2]['Alias'] = 'x'
        same_rows(sc, 'table set', frame(sc, cat)[1], want)
        sc.true('nothing written before save_to_file', files(sc) == before)
        sub = sc.ok('subset', lambda: snippet(sc, 'df[df.Module == "UserData"]', df=df))
        sc.ok('set subset', lambda: sc.meth(cat, 'set_database', sub))
        want = [e for e in want if e['Module'] == 'UserData']
        same_rows(sc, 'subset set', frame(sc, cat)[1], want)
        sc.ok('to file', lambda: sc.meth(cat, 'save_to_file'))
        c2 = catalogue(sc, dict(conf, Interactive=False), 'reopen')
        same_rows(sc, 'reopened', frame(sc, c2)[1], want)
    for q in (False, True):
        chk.scenario("set_database, interactive %s" % q, lambda sc, q=q: setdb(sc, q), qgrid=True)

    def rebuilt(sc):
        """the widget shows the catalogue as it is now"""
        es = entries(sc)
        conf, cat = opened(sc, es)
        sc.ok('alias', lambda: sc.meth(cat, 'register_alias', 1, 'silver'))
        es[1]['Alias'] = 'silver'
        for meth in NAME:
            g = sc.ok(meth, lambda: sc.meth(cat, meth))
            same_rows(sc, meth + ' after register_alias', rows_of(sc, g.df), es)
        df = sc.ok('copy', lambda: snippet(sc, 'df.copy()', df=g.df))
        sc.it.setitem(sc.attr(df, 'at'), (3, 'Alias'), 'new')
        sc.ok('set', lambda: sc.meth(cat, 'set_database', df))
        es[3]['Alias'] = 'new'
        g = sc.ok('view', lambda: sc.meth(cat, 'view_interactive'))
        same_rows(sc, 'view after set_database', rows_of(sc, g.df), es)
    chk.scenario("current table shown", rebuilt, qgrid=True)
