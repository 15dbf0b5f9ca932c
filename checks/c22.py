"""C22 configuration"""
import itertools
from .catkit import *

EXPLAIN = ("config module and package import interpreted over an abstract file system for every presence/absence combination of the user's "
           "directory, the user's file and the package's file, both platforms, both YAML libraries and several home directories; written "
           "configurations with symbolic numbers and awkward texts read back cell by cell; every setting validated with values of every other type")
TEXTS = ['catalogue.csv', 'yes', 'null', '123', '1e5', '- a', 'a: b', '#x.csv', "it's", 'say "hi".csv', 'ü μ 中.csv', 'true', '~', '{a}', '[b]', '*x', '&x', '!x',
         '%x', '@x', 'a #b', ' lead', 'trail ', '0x1F', '1_000', '12:30:45', '2001-01-01', '.', '=', '<<', '?', '|', '>', ',', 'a\tb']
BAD = {'str': '632.8', 'empty': '', 'none': None, 'int': 0, 'one': 1, 'bool': False, 'yes': True, 'list': [], 'dict': {}, 'full list': ['a'], 'full dict': {'a': 1},
       'float': 1.5, 'zero': 0.0, 'bytes': b'x', 'tuple': ()}
GOOD = {'Path': (), 'File': ('str',), 'Interactive': ('bool', 'yes'), 'WarnMissingPackages': ('bool', 'yes'), 'Value': ('float', 'zero', 'int', 'one'),
        'SpectrumType': ('str', 'empty'), 'Unit': ('str', 'empty'), 'Modules': ('dict', 'full dict'), 'ReferenceSpectrum': (), 'module': ('bool', 'yes')}


def udir(nt, home=None):
    return (home or 'C:\\Users\\u\\AppData\\Local') + '\\dispersion' if nt else (home or '/home/u').rstrip('/') + '/.config/dispersion'


def filetext(sc, tag, v):
    return ("Path: %s\nFile: %s.csv\nInteractive: true\nWarnMissingPackages: false\nModules:\n  UserData: true\n  RefractiveIndexInfo: false\n"
            "ReferenceSpectrum:\n  Value: %s\n  SpectrumType: wavelength\n  Unit: nm\n" % (tag, tag, tok(sc, v)))


def conf_of(tag, v):
    return {'Path': tag, 'File': tag + '.csv', 'Interactive': True, 'WarnMissingPackages': False, 'Modules': {'UserData': True, 'RefractiveIndexInfo': False},
            'ReferenceSpectrum': {'Value': v, 'SpectrumType': 'wavelength', 'Unit': 'nm'}}


def default(sc, d):
    return {'Path': d, 'File': 'catalogue.csv', 'Interactive': False, 'WarnMissingPackages': False, 'Modules': {'UserData': True, 'RefractiveIndexInfo': True},
            'ReferenceSpectrum': {'Value': sc.num(632.8), 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}


def plain(v):
    """configuration as plain containers"""
    if isinstance(v, dict):
        return {plain(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def same_conf(sc, label, got, want):
    sc.eq(label, plain(got), want)
    for k in ('Interactive', 'WarnMissingPackages'):
        if isinstance(got, dict) and k in got and not isinstance(got[k], (Unknown, Phi)):
            sc.true('%s: %s is bool' % (label, k), isinstance(got[k], (bool, NBool)), "%s" % txt(got[k]))


def check(chk):
    chk.rule('precedence', "user file, else package file, else the documented defaults; import and get_config never fail")
    chk.rule('round trip', "read_config after write_config == the configuration, values and types")
    chk.rule('defaults', "every documented setting, valid types, modules known to catalogue and installer, independent objects")
    chk.rule('validation', "every value of a wrong type, every missing setting and a path that is no directory are refused")
    combos = list(itertools.product((False, True), repeat=3))

    def found(sc, nt, has_dir, has_user, has_pkg, home, cwd):
        fs = sc.w.fs
        d = udir(nt, home)
        if home:
            fs.mkdirs(home)
        vu, vp, vc = (sc.sym(n, np=False) for n in ('user value', 'package value', 'cwd value'))
        if has_dir:
            fs.mkdirs(d)
        if has_user:
            fs.put(fs.P.join(d, 'config.yaml'), filetext(sc, 'user', vu))
        if has_pkg:
            fs.put(fs.P.join(sc.w.pkgdir, 'config.yaml'), filetext(sc, 'package', vp))
        if cwd:
            fs.put(fs.P.join(fs.cwd, 'config.yaml'), filetext(sc, 'cwd', vc))
        want = conf_of('user', vu) if has_user else conf_of('package', vp) if has_pkg else default(sc, fs.norm(d))
        sc.mod('')          # the import succeeds
        for rnd in range(2):
            c = sc.ok('get_config %d' % rnd, lambda: sc.call('config.get_config'))
            same_conf(sc, 'get_config %d' % rnd, c, want)
            if isinstance(c, dict):
                # what a caller does with its copy is its own affair
                c['Path'] = 'scribble'
                for k in ('Modules', 'ReferenceSpectrum'):
                    if isinstance(c.get(k), dict):
                        for q in list(c[k]):
                            c[k][q] = 'scribble'
        if has_user or has_pkg:
            c = sc.ok('read_config', lambda: sc.call('config.read_config'))
            same_conf(sc, 'read_config', c, want)
            # the file changes
            v2 = sc.sym('second value')
            new = conf_of('second', v2)
            sc.ok('write_config', lambda: sc.call('config.write_config', new))
            same_conf(sc, 'read after write', sc.ok('read', lambda: sc.call('config.read_config')), conf_of('second', v2))
            same_conf(sc, 'get after write', sc.ok('get', lambda: sc.call('config.get_config')), conf_of('second', v2))
        else:
            sc.ok('write_config', lambda: sc.call('config.write_config', conf_of('written', vu), dir_path=fs.norm(d)))
            same_conf(sc, 'get after write', sc.ok('get', lambda: sc.call('config.get_config')), conf_of('written', vu))
    for nt in (False, True):
        homes = [None] + (['D:\\some where\\ü'] if nt else ['/home/u v/ü', '/'])
        for ruamel in (False, True):
            for hd, hu, hp in combos:
                if hu and not hd:
                    continue
                for hc in (True, False):
                    if hc is False and hd:
                        continue
                    for home in homes if not ruamel else homes[:1]:
                        for cwd in (False, True):
                            if cwd and (ruamel or home):
                                continue
                            env = None
                            if home:
                                env = {'LOCALAPPDATA': home, 'USERPROFILE': home, 'APPDATA': home} if nt else {'HOME': home}
                            chk.scenario("%s %s: user dir %s, user file %s, package file %s%s%s%s" % (
                                'Windows' if nt else 'Linux', 'ruamel' if ruamel else 'PyYAML', hd, hu, hp, '' if hc else ', bare home',
                                ', home %s' % home if home else '', ', stray file' if cwd else ''),
                                lambda sc, a=(nt, hd, hu, hp, home, cwd): found(sc, *a),
                                style='nt' if nt else 'posix', ruamel=ruamel, home_config=hc, environ=env)

    def roundtrip(sc, nt):
        fs = sc.w.fs
        d = udir(nt)
        fs.mkdirs(d)
        sc.mod('')
        n = len(TEXTS)
        for i in range(n):
            conf = {'Path': TEXTS[i], 'File': TEXTS[(i + 5) % n], 'Interactive': i % 2 == 0, 'WarnMissingPackages': i % 3 == 0,
                    'Modules': {m: (i >> j) & 1 == 1 for j, m in enumerate(('UserData', 'RefractiveIndexInfo', 'Filmetrics'))},
                    'ReferenceSpectrum': {'Value': sc.sym('v%d' % i) if i % 2 else sc.num((0.0, 1e-7, 632.8, 1e22, 1.0, 0.1, 3.0)[i % 7]),
                                          'SpectrumType': TEXTS[(i + 9) % n], 'Unit': TEXTS[(i + 13) % n]}}
            if i % 4 == 1:
                conf['Path'] = 'C:\\Users\\ü\\my data' if nt else '/home/ü/my data: x'
            if i % 5 == 2:
                conf['Modules'] = [{}, {'UserData': False}, {'RefractiveIndexInfo': False}, {'Filmetrics': True}, {'my module': True, 'UserData': True}][i // 5 % 5]
            if i % 7 == 3:
                conf['ReferenceSpectrum'] = {'Unit': 'ev', 'Value': sc.num(2.25), 'SpectrumType': 'energy'}
            want = plain(conf)
            before = sc.snapshot(conf)
            sc.ok('write %d' % i, lambda: sc.call('config.write_config', conf, d))
            sc.unchanged('argument %d' % i, before, conf)
            same_conf(sc, 'round trip %d' % i, sc.ok('read %d' % i, lambda: sc.call('config.read_config')), want)
            same_conf(sc, 'round trip %d, get_config' % i, sc.ok('get %d' % i, lambda: sc.call('get_config')), want)
    for nt in (False, True):
        for ruamel in (False, True):
            for loc in ('utf-8', 'latin-1', 'cp1252', 'ascii'):
                chk.scenario("round trip %s %s %s" % ('Windows' if nt else 'Linux', 'ruamel' if ruamel else 'PyYAML', loc), lambda sc, nt=nt: roundtrip(sc, nt),
                             style='nt' if nt else 'posix', ruamel=ruamel, locale=loc)

    def moved(sc):
        """the user's directory changes between two calls, and texts the source compares with"""
        fs = sc.w.fs
        sc.mod('')
        for k in 'abab':
            h = '/home/' + k
            fs.mkdirs(h + '/.config')
            sc.w.environ['HOME'] = h
            fs.mkdirs(udir(False, h))
            v = sc.sym('v' + k)
            sc.ok('write', lambda: sc.call('config.write_config', conf_of(k, v), udir(False, h)))
            same_conf(sc, 'configuration of home ' + k, sc.ok('get', lambda: sc.call('config.get_config')), conf_of(k, v))
            same_conf(sc, 'configuration read of home ' + k, sc.ok('read', lambda: sc.call('config.read_config')), conf_of(k, v))
            sc.eq('default path of home ' + k, plain(sc.ok('defaults', lambda: sc.call('config.default_config'))), default(sc, udir(False, h)))
        ws = chk.strings()
        for i in range(0, len(ws), 4):
            q = (ws + ws)[i:i + 4]
            v = sc.num(2.5)
            conf = dict(conf_of('t', v), Path=q[0], File=q[1])
            conf['ReferenceSpectrum'].update(SpectrumType=q[2], Unit=q[3])
            conf['Modules'] = {w: True for w in q}
            want = plain(conf)
            sc.ok('write', lambda: sc.call('config.write_config', conf, udir(False, '/home/b')))
            same_conf(sc, 'texts %s' % q, sc.ok('read', lambda: sc.call('config.read_config')), want)
    chk.scenario("changed home, texts of the source", moved, limit=90)

    def comings(sc, seq):
        """configuration files appear and disappear between two calls"""
        fs = sc.w.fs
        fs.mkdirs(udir(False))
        fs.mkdirs(sc.w.pkgdir)
        sc.mod('')
        pk, us = fs.norm(fs.P.join(sc.w.pkgdir, 'config.yaml')), fs.norm(fs.P.join(udir(False), 'config.yaml'))
        conf = {}
        for i, step in enumerate(seq):
            f, k = {'p': (pk, 'p'), 'u': (us, 'u')}[step.lower()]
            if step.isupper():
                fs.files.pop(f, None)
                conf.pop(k, None)
            else:
                conf[k] = conf_of('%s%d' % (k, i), sc.sym('v%d' % i))
                sc.ok('write', lambda: sc.call('config.write_config', conf[k], f.rpartition('/')[0]))
            want = conf.get('u', conf.get('p'))
            for fn in ('config.get_config', 'config.read_config', 'config.get_config'):
                if want is None and fn == 'config.read_config':
                    sc.raises('%s without a file after %s' % (fn, seq[:i + 1]), lambda: sc.call(fn), (Exception,))
                    continue
                same_conf(sc, '%s after %s' % (fn, seq[:i + 1]), sc.ok('get', lambda: sc.call(fn)), want or default(sc, udir(False)))
    for seq in ('puUP', 'upUP', 'pPuU', 'uUpP', 'ppuu', 'puUu', 'pupUuP', 'uPpU'):
        chk.scenario("files come and go: %s" % seq, lambda sc, s=seq: comings(sc, s))

    def defaults(sc, nt):
        sc.mod('')
        d = udir(nt)
        a = sc.ok('default_config', lambda: sc.call('config.default_config'))
        same_conf(sc, 'default_config', a, default(sc, d))
        same_conf(sc, 'public default_config', sc.ok('default_config', lambda: sc.call('default_config')), default(sc, d))
        sc.true('directory exists', sc.w.fs.is_dir(d), "%s was not created" % d)
        sc.ok('defaults are valid', lambda: sc.call('config.validate_config', a))
        b = sc.ok('again', lambda: sc.call('config.default_config'))
        if isinstance(a, dict) and isinstance(b, dict):
            sc.true('independent', a is not b and a.get('Modules') is not b.get('Modules') and a.get('ReferenceSpectrum') is not b.get('ReferenceSpectrum'),
                    "two default configurations share an object")
        # the catalogue knows all modules of the defaults
        rii = sc.w.fs.P.join(d, 'RefractiveIndexInfo', 'database')
        sc.w.fs.mkdirs(sc.w.fs.P.join(rii, 'data-nk'))
        sc.w.fs.mkdirs(sc.w.fs.P.join(d, 'UserData'))
        sc.w.fs.put(sc.w.fs.P.join(rii, 'catalog-nk.yml'), '- SHELF: main\n  name: m\n  content: []\n')
        cat = catalogue(sc, a, 'catalogue of the defaults', rebuild='All')
        s = sc.attr(cat, 'reference_spectrum')
        sc.eq('reference', sc.ok('convert', lambda: sc.meth(s, 'convert_to', 'wavelength', 'nm')), sc.num(632.8))
    for nt in (False, True):
        for ruamel in (False, True):
            chk.scenario("defaults %s %s" % ('Windows' if nt else 'Linux', 'ruamel' if ruamel else 'PyYAML'), lambda sc, nt=nt: defaults(sc, nt),
                         style='nt' if nt else 'posix', ruamel=ruamel)

    def installer(sc):
        """the installer knows all modules of the defaults"""
        conf = sc.ok('default_config', lambda: sc.call('config.default_config'))
        sc.mod('scripts.setup_dispersion')
        db = DB
        sc.w.fs.mkdirs(db)
        conf['Path'] = db
        sc.it.w.on_clone = lambda it, url, p: sc.w.fs.mkdirs(p)
        sc.ok('install_modules', lambda: sc.call('scripts.setup_dispersion.install_modules', conf))
    chk.scenario("installer knows the default modules", installer, inputs=['y'] * 20)

    def validation(sc):
        sc.w.fs.mkdirs(DB)
        sc.w.fs.put('/home/u/plain.txt', 'x')
        sc.mod('')

        def good():
            return {'Path': DB, 'File': 'catalogue.csv', 'Interactive': False, 'WarnMissingPackages': True,
                    'Modules': {'UserData': True, 'RefractiveIndexInfo': False, 'Filmetrics': True},
                    'ReferenceSpectrum': {'Value': sc.sym('ref value'), 'SpectrumType': 'wavelength', 'Unit': 'nm'}}
        E = (Exception,)
        for flags in itertools.product((False, True), repeat=5):
            c = good()
            c['Interactive'], c['WarnMissingPackages'] = flags[:2]
            c['Modules'] = dict(zip(('UserData', 'RefractiveIndexInfo', 'Filmetrics'), flags[2:]))
            before = sc.snapshot(c)
            sc.ok('valid %s' % (flags,), lambda: sc.call('config.validate_config', c))
            sc.unchanged('argument %s' % (flags,), before, c)
        for v in (0.0, 1e-9, 1e9):
            c = good()
            c['ReferenceSpectrum']['Value'] = sc.num(v)
            sc.ok('valid value %s' % v, lambda: sc.call('config.validate_config', c))
        for st, u in (('energy', 'ev'), ('frequency', 'hertz'), ('angularfrequency', 'thz'), ('wavenumber', '1/cm')):
            c = good()
            c['ReferenceSpectrum'].update(SpectrumType=st, Unit=u)
            sc.ok('valid %s' % u, lambda: sc.call('config.validate_config', c))

        def put(c, key, v):
            if key in ('Value', 'SpectrumType', 'Unit'):
                c['ReferenceSpectrum'][key] = v
            elif key.startswith('module '):
                c['Modules'][key[7:]] = v
            else:
                c[key] = v
            return c
        for key in ('Path', 'File', 'Interactive', 'WarnMissingPackages', 'Value', 'SpectrumType', 'Unit', 'Modules', 'ReferenceSpectrum',
                    'module UserData', 'module RefractiveIndexInfo', 'module Filmetrics'):
            for name, bad in BAD.items():
                if name in GOOD['module' if key.startswith('module') else key]:
                    continue
                if key == 'Modules' and name in ('empty', 'list', 'tuple'):
                    continue        # a container without any setting
                if isinstance(bad, float):
                    bad = sc.num(bad)
                sc.raises('%s = %r' % (key, bad), lambda: sc.call('config.validate_config', put(good(), key, copy_(bad))), exc=E)
            c = good()
            if key in c:
                del c[key]
            elif key in c['ReferenceSpectrum']:
                del c['ReferenceSpectrum'][key]
            else:
                continue
            sc.raises('%s missing' % key, lambda: sc.call('config.validate_config', c), exc=E)
        for p in ('/nowhere', '/home/u/plain.txt', '', 'nowhere', DB + '/sub', '~', DB + 'x', '/home/u/d'):
            sc.raises('Path %r' % p, lambda: sc.call('config.validate_config', put(good(), 'Path', p)), exc=E)
        for f in ('', '.', '..', 'a/b.csv', '../catalogue.csv', '/abs.csv', 'sub/', './x.csv'):
            sc.raises('File %r' % f, lambda: sc.call('config.validate_config', put(good(), 'File', f)), exc=E)
        for f in ('x', 'my catalogue.csv', 'ü.csv', '.hidden', 'a.b.c', 'catalogue'):
            sc.ok('File %r' % f, lambda: sc.call('config.validate_config', put(good(), 'File', f)))
        for p in ('/home/u', '/', DB + '/', DB + '/../db'):
            sc.ok('Path %r' % p, lambda: sc.call('config.validate_config', put(good(), 'Path', p)))
        # the catalogue validates what it is given
        for key, bad in (('Interactive', 1), ('module UserData', 'yes'), ('Path', '/nowhere'), ('Value', '632.8'), ('File', None)):
            sc.raises('Catalogue with %s = %r' % (key, bad), lambda: sc.call('Catalogue', config=put(good(), key, bad), rebuild='All'), exc=E)
    chk.scenario("validation", validation, limit=60)


def copy_(v):
    return type(v)(v) if isinstance(v, (list, dict)) else v
