"""C23 installer and rebuild scripts"""
import itertools
from .catkit import *
from .c22 import udir, plain
from .base import words

EXPLAIN = ("setup_dispersion.main and rebuild_catalogue interpreted over enumerated sequences of typed answers (invalid, declined, unclear, empty and "
           "confirmed ones, and input ending early) and over all states of the module folder; stored configuration, created folders, clone events, "
           "catalogue file and order of consumption compared with a transition system of the documented dialogue")
ODD = ['', ' ', 'x', 'maybe', 'ny', 'yn', '1', '0', 'ye', 'yess', 'nn', 'o', 'es', 'true', 'y n', 'yy', '-', 'non', 'nope']
YES, NO = ('y', 'yes'), ('n', 'no')
GOODNAME = ['my.csv', 'ü.csv', 'with blank.csv', '{0}.csv', '100%.csv', '.hidden', 'x', 'yes', 'n']
BADNAME = ['a/b.csv', '../x.csv', '..', '.', '/abs.csv', 'sub/']


def confirm(seq, i):
    while True:
        a = seq[i]
        i += 1
        if a in YES:
            return True, i
        if a in NO:
            return False, i


def ask(seq, i, default, valid):
    while True:
        while True:
            v = seq[i] or default
            i += 1
            if valid(v):
                break
        ok, i = confirm(seq, i)
        if ok:
            return v, i


def dialogue(seq, nt, ready, default=None):
    """the documented dialogue -> what must come out; IndexError when the input ends early"""
    import ntpath, posixpath
    P = ntpath if nt else posixpath
    path, i = ask(seq, 0, default or udir(nt), P.isabs)
    name, i = ask(seq, i, 'catalogue.csv', lambda v: v not in ('', '.', '..') and P.basename(v) == v and not (nt and any(c in v for c in '<>:"|?*')))
    r = {'path': path, 'name': name, 'upto': i}
    r['rii'], i = confirm(seq, i)
    r['clone'] = False
    if r['rii']:
        r['clone'], i = confirm(seq, i)
        r['rii'] = r['clone'] or ready
    r['rebuild'], i = confirm(seq, i)
    r['used'] = i
    return r


def fill(fs, base):
    fs.mkdirs(fs.P.join(base, 'database', 'data-nk'))
    fs.put(fs.P.join(base, 'database', 'catalog-nk.yml'), '- SHELF: main\n  name: m\n  content: []\n')


STATES = {'nothing': False, 'empty folder': False, 'other files': False, 'no library': False, 'library folder': False, 'library': True, 'catalog': True, 'both': True}


def state(fs, base, st):
    if st == 'nothing':
        return
    fs.mkdirs(base)
    if st == 'other files':
        fs.put(fs.P.join(base, 'readme.txt'), 'x')
        fs.put(fs.P.join(base, 'library.yml'), 'x')
    db = fs.P.join(base, 'database')
    if st in ('no library', 'library folder', 'library', 'catalog', 'both'):
        fs.mkdirs(db)
        fs.mkdirs(fs.P.join(db, 'data-nk'))
    if st == 'library folder':
        fs.mkdirs(fs.P.join(db, 'library.yml'))
    text = '- SHELF: main\n  name: m\n  content: []\n'
    if st in ('library', 'both'):
        fs.put(fs.P.join(db, 'library.yml'), text)
    if st in ('catalog', 'both'):
        fs.put(fs.P.join(db, 'catalog-nk.yml'), text)


def files(sc):
    return {k: (f.text, f.enc) for k, f in sc.w.fs.files.items()}


def check(chk):
    chk.rule('dialogue', "stored configuration == what the documented dialogue confirms for this sequence of answers; every answer is consumed exactly once")
    chk.rule('modules', "UserData installed and readable; a module is enabled iff accepted and present")
    chk.rule('rebuild', "the catalogue file is written iff the rebuild was confirmed")
    chk.rule('abandoned', "input ending before the name is confirmed leaves nothing behind")
    ROOT = {False: '/home/u/new/db', True: 'C:\\new\\db'}

    def main(sc, seq, nt, st, old, home=None, pre=False):
        fs = sc.w.fs
        d = udir(nt, home)
        try:
            want = dialogue(seq, nt, STATES[st], d)
        except IndexError:
            want = None
        if old:
            fs.put(fs.P.join(d, 'config.yaml'), 'Path: old\nFile: old.csv\n')
            fs.put(fs.P.join(sc.w.pkgdir, 'config.yaml'), 'Path: pkg\nFile: pkg.csv\nWarnMissingPackages: false\n')
        base = want['path'] if want else ROOT[nt]
        if st != 'nothing':
            state(fs, fs.P.join(base, 'RefractiveIndexInfo'), st)
        if pre:         # the root folder is in use already
            fs.mkdirs(base)
            fs.put(fs.P.join(base, 'config.yaml'), 'Path: stale\nFile: stale.csv\nWarnMissingPackages: false\n')
            fs.put(fs.P.join(base, 'notes.txt'), 'mine')
            fs.put(fs.P.join(base, 'UserData', 'own.txt'), '500.0\t1.5\n600.0\t1.5\n')
            fs.put(fs.P.join(base, 'config', 'config.yaml'), 'Path: stale\n')
        cloned = []

        def on_clone(it, url, dest):
            cloned.append((url, dest))
            fill(fs, dest)
        sc.w.on_clone = on_clone
        sc.w.inputs = list(seq)
        if old:
            fs.files[fs.norm(fs.P.join(d, 'config.yaml'))].text += 'WarnMissingPackages: false\n'
        sc.mod('')
        sc.mod('scripts.setup_dispersion')
        before = files(sc)
        dirs = set(fs.dirs)
        if want is None:
            sc.raises('input ends early', lambda: sc.call('scripts.setup_dispersion.main'), exc=(EOFError,))
            early = True
            try:        # was the name confirmed already?
                path, i = ask(seq, 0, d, fs.P.isabs)
                name, i = ask(seq, i, 'catalogue.csv', lambda v: v not in ('', '.', '..') and fs.P.basename(v) == v)
                early = False
            except IndexError:
                pass
            if early:
                now = files(sc)
                sc.true('nothing left behind', now == before, "files changed: %s" % sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k)))
                extra = {x for x in fs.dirs - dirs if not fs.norm(d).startswith(x)}
                sc.true('no folder created', not extra, "folders %s" % sorted(extra))
            return
        sc.ok('main', lambda: sc.call('scripts.setup_dispersion.main'))
        sc.eq('answers left over', len(sc.w.inputs), len(seq) - want['used'])
        stored = fs.files.get(fs.norm(fs.P.join(d, 'config.yaml')))
        if not sc.true('configuration stored', stored is not None, "no config.yaml in %s" % d):
            return
        conf = plain(sc.ok('read stored', lambda: sc.call('config.read_config')))
        sc.eq('stored configuration', conf, {'Path': want['path'], 'File': want['name'], 'Interactive': False, 'WarnMissingPackages': False,
                                             'Modules': {'UserData': True, 'RefractiveIndexInfo': want['rii']},
                                             'ReferenceSpectrum': {'Value': sc.num(632.8), 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}})
        j = fs.P.join
        rii = fs.norm(j(want['path'], 'RefractiveIndexInfo'))
        sc.eq('clones', [x for _, x in cloned], [rii] if want['clone'] else [])
        ud = fs.norm(j(want['path'], 'UserData'))
        mine = sorted(k for k in fs.files if fs.P.dirname(k) == ud)
        sc.true('examples installed', len(mine) >= 2, "UserData holds %s" % mine)
        cat = fs.norm(j(want['path'], want['name']))
        if want['rebuild']:
            sc.true('catalogue written', cat in fs.files, "no %s" % cat)
            cols, got = frame(sc, catalogue(sc, conf, 'open the catalogue'))
            sc.eq('catalogue columns', cols, COLS)
            sc.eq('catalogue entries', sorted(str(r.get('Path')) for r in got), sorted(fs.P.basename(k) for k in mine))
        else:
            sc.true('catalogue not written', (cat in fs.files) == (cat in before), "%s written" % cat)
        # only the root folder and the user's configuration are touched
        now = files(sc)
        ch = [k for k in set(now) | set(before) if now.get(k) != before.get(k) and not k.startswith('<')]
        root = fs.norm(want['path']).rstrip(fs.P.sep) + fs.P.sep
        bad = [k for k in ch if k != fs.norm(j(d, 'config.yaml')) and not k.startswith(root)]
        sc.true('nothing else written', not bad, "%s" % bad)
        if pre:
            for n in (('config.yaml',), ('notes.txt',), ('UserData', 'own.txt'), ('config', 'config.yaml')):
                k = fs.norm(j(want['path'], *n))
                sc.true('%s kept' % n[-1], k == fs.norm(j(d, 'config.yaml')) or now.get(k) == before.get(k), "%s was changed" % k)

    def path_parts(nt):
        R = ROOT[nt]
        rel = ['db', '.\\db', '', 'db\\x'] if nt else ['db', './db', '~', '~/db', 'C:\\db', ' /home/u/db', '\\']
        good = [R, 'C:\\with blank\\ü'] if nt else [R, '/home/u/with blank/ü', '/home/u/{x}', '/home/u/100%', '/home/u/db/', '/home/u/a/../db']
        for g in good:
            yield [g, 'y']
        yield ['', 'y']
        yield ['', 'yes']
        yield [R, 'n', '', 'y']
        yield ['', 'n', R, 'y']
        yield [R, 'no', R + 'x', 'no', R + 'z', 'yes']
        for r in rel:
            if r:
                yield [r, R, 'y']
        yield [r for r in rel if r] + [R, 'y']
        for o in ODD:
            yield [R, o, 'n', R + '2', 'y']
            yield [R, o, 'y']
        yield [R] + ODD + ['n'] + rel[:1] + [''] + ODD + ['y']
        for c in ('N', 'No', 'NO', 'nO'):        # whatever the letter case, this is no confirmation
            yield [R, c, 'n', R + '2', 'y']
    NAME0, MOD0, REB0 = ['', 'y'], ['n'], ['n']

    def name_parts(nt):
        yield ['', 'y']
        for g in GOODNAME:
            yield [g, 'y']
        for b in BADNAME + (['a:b', 'a?b', 'a\\b'] if nt else []):
            yield [b, 'z.csv', 'y']
            yield [b, '', 'y']
        yield BADNAME + ['z.csv', 'n', '', 'y']
        yield ['a.csv', 'n', 'b.csv', 'n', 'c.csv', 'y']
        yield ['a.csv', 'n', '', 'y']
        yield ['', 'n', 'a.csv', 'yes']
        for o in ODD:
            yield ['a.csv', o, 'n', 'b.csv', 'y']
            yield ['a.csv', o, 'y']
        for c in ('N', 'No', 'NO'):
            yield ['a.csv', c, 'n', 'b.csv', 'y']

    def mod_parts():
        yield ['n']
        yield ['no']
        yield ['y', 'n']
        yield ['y', 'y']
        yield ['yes', 'no']
        yield ['yes', 'yes']
        for o in ODD:
            yield [o, 'n']
            yield [o, 'y', 'n']
            yield ['y', o, 'n']
            yield ['y', o, 'y']
        for c in ('N', 'No', 'NO'):
            yield [c, 'n']
            yield ['y', c, 'n']

    def run(seq, nt, st='nothing', old=False, tag='', home=None, pre=False):
        chk.scenario("setup%s %s, %s%s: %s" % (' (Windows)' if nt else '', tag, st, ', configured before' if old else '', ' | '.join(seq)[:150]),
                     lambda sc: main(sc, seq, nt, st, old, home, pre), style='nt' if nt else 'posix',
                     **({'environ': {'LOCALAPPDATA': home, 'HOME': home, 'USERPROFILE': home}} if home else {}))
    for nt in (False, True):
        P0 = [ROOT[nt], 'y']
        for p in path_parts(nt):
            run(p + NAME0 + MOD0 + REB0, nt, tag='path')
        for n in name_parts(nt):
            run(P0 + n + MOD0 + REB0, nt, tag='name')
        for st in STATES:
            for m in (mod_parts() if st in ('nothing', 'no library', 'library') and not nt else [['n'], ['y', 'n'], ['y', 'y']]):
                if m[-1:] == ['y'] and len(m) > 1 and st not in ('nothing', 'empty folder'):
                    continue        # git refuses a folder that is not empty
                if m.count('yes') == 2 and st != 'nothing':
                    continue
                for r in (['n'], ['y']):
                    run(P0 + NAME0 + m + r, nt, st, tag='module')
        for o in ODD + ['N', 'No']:
            run(P0 + NAME0 + MOD0 + [o, 'n'], nt, tag='rebuild')
            if o not in ('N', 'No'):
                run(P0 + NAME0 + MOD0 + [o, 'y'], nt, tag='rebuild')
        for m in (['n'], ['y', 'n'], ['y', 'y']):
            for r in (['n'], ['y'], ['yes']):
                run(P0 + ['cat.csv', 'y'] + m + r, nt, old=True, tag='again')
                run(['', 'y', '', 'y'] + m + r, nt, old=True, tag='again')
        for m in (['n'], ['y', 'y']):
            for r in (['n'], ['y']):
                for old in (False, True):
                    run(P0 + NAME0 + m + r, nt, old=old, tag='root in use', pre=True)
                    run(['', 'y', '', 'y'] + m + r, nt, old=old, tag='root in use', pre=True)
        # a default that is not valid itself
        for p in (['', ROOT[nt], 'y'], ['', '', 'rel', '', ROOT[nt], 'n', '', ROOT[nt], 'y'], [' ', ROOT[nt], 'y'], ['\t', '', ROOT[nt], 'y']):
            run(p + NAME0 + MOD0 + REB0, nt, tag='relative home', home='relhome')
        run([' ', ROOT[nt], 'y'] + NAME0 + MOD0 + REB0, nt, tag='blank')
        if not nt:
            known = set(ODD) | set(YES) | set(NO) | {'\\', '/'}
            for w in sorted(w for w in words() if w.isprintable() and len(w) < 9 and w.lower() not in known):
                if w.lower().strip() not in YES + NO:
                    run([ROOT[nt], w, 'n', ROOT[nt] + '2', 'y', 'a.csv', w, 'n', 'b.csv', 'y'] + [w, 'n'] + [w, 'n'], nt, tag='word')
                if '/' not in w and w.strip() == w:
                    run([ROOT[nt] + '/x' + w, 'y', w + 'x', 'y'] + MOD0 + REB0, nt, tag='word in names')
        full = ['rel', ROOT[nt], 'n', ROOT[nt], 'x', 'y', 'a/b', 'c.csv', 'n', 'd.csv', '?', 'y', '', 'y', '', 'y', '', 'y']
        for k in range(len(full) + 1):
            run(full[:k], nt, tag='cut')
            run(full[:k], nt, old=True, tag='cut')

    # ---- the command line tool
    def tool(sc, seq, entry_, has):
        conf_dir = udir(False)
        sc.w.fs.put(conf_dir + '/config.yaml', 'Path: %s\nFile: c.csv\nInteractive: false\nWarnMissingPackages: false\nModules:\n  UserData: true\n'
                    'ReferenceSpectrum:\n  Value: 600.0\n  SpectrumType: wavelength\n  Unit: nm\n' % DB)
        sc.w.fs.mkdirs(DB + '/UserData')
        v = sc.sym('n', np=True)
        sc.w.fs.put(DB + '/UserData/a.txt', '500.0\t%s\n700.0\t%s\n' % (tok(sc, v), tok(sc, v)))
        es = [entry(sc, 0, Alias='mine')]
        if has:
            sc.w.fs.put(DB + '/c.csv', csvtext(sc, es))
        sc.mod('')
        sc.mod('scripts.catalogue_rebuild')
        before = files(sc)
        sc.w.inputs = list(seq)
        ans = next((a for a in seq if a in ('y', 'n')), None)
        if ans is None:
            sc.raises('input ends', lambda: sc.call(entry_), exc=(EOFError,))
        else:
            sc.ok('tool', lambda: sc.call(entry_))
        now = files(sc)
        ch = [k for k in set(now) | set(before) if now.get(k) != before.get(k)]
        if ans == 'y':
            sc.eq('written', [k for k in ch if k != DB + '/c.csv'], [])
            cat = sc.ok('open', lambda: sc.call('Catalogue'))
            cols, got = frame(sc, cat)
            sc.eq('entries', [r.get('Path') for r in got], ['a.txt'])
            sc.eq('values', [r.get('N_Reference') for r in got], [v])
        else:
            sc.eq('untouched', ch, [])
    for ent in ('catalogue.rebuild_catalogue', 'scripts.catalogue_rebuild.main', 'rebuild_catalogue'):
        for has in (True, False):
            for seq in [['y'], ['n'], [], ['N', 'n'], ['No', 'n'], ['n', 'y']] + [[o, 'n'] for o in ODD] + [[o, 'y'] for o in ODD] + [ODD + ['n'], ODD + ['y'], ODD]:
                if ent == 'catalogue.rebuild_catalogue' or len(seq) < 3:
                    chk.scenario("%s %s: %s" % (ent, 'existing' if has else 'new', ' | '.join(seq)[:100]), lambda sc, a=(seq, ent, has): tool(sc, *a))
