"""C24 file effects"""
import ast
from .catkit import *
from .c06 import zoo
from .c22 import filetext, udir
from absint.callgraph import Program

EXPLAIN = ("effect analysis over the abstract file system: every public operation is interpreted next to a populated directory tree, without a fault and "
           "with a failure injected at each of its input/output operations and with unusable content; effects on files, folders, working directory and "
           "environment are compared with the operation's designated targets and the typestate of every handle at exit is checked; plus a "
           "whole-program rule on the use of open() results")
TABLES = {'.txt': '# NAME: x\n# COMMENT: ü\n500.0\t1.5\t0.1\n700.0\t1.6\t0.2\n', '.csv': '# NAME: x\n500.0,1.5,0.1\n700.0,1.6,0.2\n', '.nk': '; head\n500.0 1.5 0.1\n700.0 1.6 0.2\n',
          '.yml': 'REFERENCES: ü\nCOMMENTS: c\nDATA:\n  - type: tabulated nk\n    data: |\n        0.5 1.5 0.1\n        0.7 1.6 0.2\n'}
BROKEN = {'.txt': ['', '# only\n', '# NAME: x\n500.0\tabc\n', '# DATATYPE: nonsense\n500.0\t1.0\n600.0\t1.0\n', '500.0\n', 'x\n', '# a\n500.0\t1.0\n600.0\n'],
          '.csv': ['', '# only\n', '500.0,abc\n', 'x', '# DATATYPE: nonsense\n500.0,1.0\n'], '.nk': ['', '; only\n', '500.0 abc\n', 'x\n'],
          '.yml': ['', 'DATA: [', 'DATA:\n', 'x', '- a\n- b\n', 'DATA:\n  - type: formula 99\n', 'DATA:\n  - type: tabulated n\n    data: |\n      a b\n']}
HOSTILE = ['/home/u/victim/keep.csv', '../keep.csv', '../../home/u/victim/keep.csv', 'a/../../keep.csv', './x', '.', '..', '', '/', '/tmp', 'x/', '/tmp/other.csv', '../other.csv',
           'sub/x.csv', '~', '~/x', '../', '../..', 'a\0b', 'x\n', 'plain.csv', 'ü.csv', '*', 'a b', '-rf', '//x', '/home/u/victim', '../x/../other.csv', '.x']
HOSTILE_NT = ['C:\\Users\\u\\victim\\keep.csv', '..\\keep.csv', 'C:keep.csv', '\\keep.csv', '..\\..\\Users\\u\\victim\\keep.csv', 'a/b', 'C:/Users/u/victim/keep.csv', 'D:\\x',
              '\\\\srv\\share\\x', 'x:y', 'a?b', 'a*', '<x>', 'plain.csv', '..', '.', '', '/', '\\', '..\\other.csv', 'ü']
KINDS = ('create', 'truncate', 'remove', 'rmtree', 'write', 'mkdir')
GLOBALS = ('chdir', 'setenv', 'global_state')


def fsnap(sc):
    fs = sc.w.fs
    return {k: (f.text, f.enc) for k, f in fs.files.items() if not k.startswith('<')}, set(fs.dirs)


class Watch:
    """effects of one operation"""

    def __init__(self, sc):
        self.sc = sc
        self.files, self.dirs = fsnap(sc)
        self.n = len(sc.w.events)
        self.h = len(sc.w.fs.handles)

    def judge(self, label, targets=(), folders=(), drop=()):
        """targets: files that may change; folders: folders that may appear"""
        sc, fs = self.sc, self.sc.w.fs
        files, dirs = fsnap(sc)
        T = {fs.norm(t) for t in targets}
        F = set()
        for d in list(folders) + [fs.P.dirname(t) for t in T]:
            d = fs.norm(d)
            while d not in F:
                F.add(d)
                d = fs.P.dirname(d)
        ch = sorted(k for k in set(files) | set(self.files) if files.get(k) != self.files.get(k) and k not in T)
        bad = None
        if ch:
            bad = "%s: %s" % (ch[0], 'created' if ch[0] not in self.files else 'removed' if ch[0] not in files else 'changed')
        nd = sorted((dirs ^ self.dirs) - F)
        if not bad and nd:
            bad = "folder %s %s" % (nd[0], 'created' if nd[0] in dirs else 'removed')
        where = None
        for kind, data, site, guards in sc.w.events[self.n:]:
            if kind in GLOBALS:
                bad, where = bad or "%s %s" % (kind, data), where or site
            if kind in KINDS:
                p = data[0] if isinstance(data, tuple) else data
                if isinstance(p, str) and p in self.files and p not in T and not any(g.opaque() for g in guards):
                    bad, where = bad or "%s of %s, which is not a target" % (kind, p), where or site
                if kind == 'rmtree' and p in self.dirs:
                    bad, where = bad or "removes folder %s" % p, where or site
        if bad and where is None:
            where = next((s for k, d, s, _ in sc.w.events[self.n:] if k in KINDS and ch and (d[0] if isinstance(d, tuple) else d) == ch[0]), None)
        sc.true(label + ': effects', not bad, bad, where and str(where))
        for h in fs.handles[self.h:]:
            if not h.closed and not isinstance(h.closed, bool):
                continue
            sc.true('%s: handle of %s closed' % (label, fs.P.basename(h.path)), bool(h.closed), "file opened at %s is left open" % (h.site,), str(h.site))


def attempt(sc, label, fn, targets=(), folders=()):
    """all exits allowed; effects judged"""
    w = Watch(sc)
    outs = run(sc.w, fn)
    w.judge(label, targets, folders)
    good = [o.value for o in outs if o.kind == 'ok']
    return good[0] if good else None


def tree(sc):
    """files that nothing may touch"""
    fs = sc.w.fs
    j = fs.P.join
    base = [sc.w.pw_home, fs.cwd, '/tmp' if fs.style == 'posix' else 'C:\\Temp', DB if fs.style == 'posix' else 'C:\\db', HOME if fs.style == 'posix' else 'C:\\data']
    for b in base:
        for n in ('other.csv', 'keep.csv', 'catalogue.csv.bak', 'config.yaml.bak', 'out.txt~', 'out.yml~', 'out.txt.bak', 'out.yml.tmp', '.out.txt.swp', 'out.txt.tmp', 'out.tmp',
                  'catalogue.csv~', 'catalogue.csv.tmp', 'catalogue.tmp', 'catalogue.bak', 'tmp', 'temp', 'x.csv', 'x', 'plain.csv', 'config.yaml~', 'config.yaml.tmp', 'out', 'out.bak'):
            if fs.norm(j(b, n)) not in fs.dirs:
                fs.put(j(b, n), 'keep %s' % n)
    fs.put(j(sc.w.pw_home, 'victim', 'keep.csv'), 'keep')


def operations(sc):
    """label -> (function, targets, folders)"""
    fs = sc.w.fs
    ops = []
    for ext, t in TABLES.items():
        p = put(sc, 'in' + ext, t)
        ops.append(('read ' + ext, lambda p=p: sc.call(sc.pub('Material'), file_path=p, spectrum_type='wavelength', unit='nm'), (), ()))
        ops.append(('Reader ' + ext, lambda p=p: sc.meth(sc.call('io.Reader', p), 'read_file'), (), ()))
        ops.append(('read missing ' + ext, lambda ext=ext: sc.call(sc.pub('Material'), file_path=HOME + 'missing' + ext), (), ()))
        ops.append(('read from a missing folder ' + ext, lambda ext=ext: sc.call(sc.pub('Material'), file_path=HOME + 'no/such/folder/missing' + ext), (), ()))
        ops.append(('Reader in a missing folder ' + ext, lambda ext=ext: sc.meth(sc.call('io.Reader', HOME + 'none/missing' + ext), 'read_file'), (), ()))
        ops.append(('read relative missing ' + ext, lambda ext=ext: sc.call(sc.pub('Material'), file_path='nowhere/missing' + ext), (), ()))
        ops.append(('Writer alone ' + ext, lambda ext=ext: sc.call('io.Writer', HOME + 'unwritten/out' + ext, material(sc, fixed_n=sc.num(1.5))), (), ()))
        bad = put(sc, 'enc' + ext, t.replace('NAME: x', 'NAME: ü').replace('head', 'ü').replace('REFERENCES: ü', 'REFERENCES: éü'), 'latin-1')
        ops.append(('read wrongly encoded ' + ext, lambda p=bad: sc.call(sc.pub('Material'), file_path=p), (), ()))
        for i, b in enumerate(BROKEN[ext]):
            q = put(sc, 'broken%d%s' % (i, ext), b)
            ops.append(('read broken %d %s' % (i, ext), lambda p=q: sc.call(sc.pub('Material'), file_path=p), (), ()))
    yp = put(sc, 'in.yaml', 'a: [1, 2]\nb: ü\n')
    ops.append(('read_yaml_file', lambda: sc.call('io.read_yaml_file', yp), (), ()))
    ops.append(('read_yaml_file missing', lambda: sc.call('io.read_yaml_file', HOME + 'never/in.yaml'), (), ()))
    ops.append(('read_yaml_string', lambda: sc.call('io.read_yaml_string', 'a: 1\n'), (), ()))

    def mats():
        t = sc.arr([[sc.num(400.0), sc.num(1.5), sc.num(0.1)], [sc.num(500.0), sc.num(1.6), sc.num(0.2)]], 'f')
        yield 'table', material(sc, 'nk', tabulated_nk=t, spectrum_type='wavelength', unit='nm'), ('.txt', '.yml')
        yield 'model', material(sc, 'model', model_kw={'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um', 'parameters': sc.arr(params(sc, 'Cauchy'), 'f'),
                                                       'valid_range': sc.arr([sc.num(0.3), sc.num(1.0)], 'f')}), ('.yml', '.txt')
        yield 'fixed', material(sc, fixed_n=sc.num(1.5)), ('.txt', '.yml')
    for lab, m, exts in mats():
        for meta in ('', 'two\nlines ü', 'lone \ud800 surrogate'):
            for ext in exts:
                for exists in (False, True):
                    p = path(sc, ('old' if exists else 'out') + ext)
                    if exists:
                        fs.put(p, 'old content ü\n')

                    def w_(m=m, p=p, meta=meta):
                        sc.attr(m, 'meta_data')['MetaComment'] = meta
                        return sc.meth(sc.call('io.Writer', p, m), 'write_file')
                    ops.append(('write %s%s%s to %s' % (lab, ' with meta comment' if meta else '', ' (not encodable)' if '\ud800' in meta else '', fs.P.basename(p)), w_, (p,), ()))
        for p in (HOME + 'new/folder/out.yml', HOME + 'out.xyz', HOME + 'out'):
            ops.append(('write %s to %s' % (lab, p), lambda m=m, p=p: sc.meth(sc.call('io.Writer', p, m), 'write_file'), (p,), ()))
    ops.append(('write_yaml_file', lambda: sc.call('io.write_yaml_file', HOME + 'w.yaml', {'a': 'ü', 'b': [1, 2]}), (HOME + 'w.yaml',), ()))
    ops.append(('write_yaml_file surrogate', lambda: sc.call('io.write_yaml_file', HOME + 'w.yaml', {'a': '\ud800'}), (HOME + 'w.yaml',), ()))
    ops.append(('write_yaml_file to nowhere', lambda: sc.call('io.write_yaml_file', HOME + 'no/w.yaml', {'a': 'x'}), (HOME + 'no/w.yaml',), ()))
    ud = udir(False)
    ops.append(('get_config without file', lambda: sc.call('config.get_config'), (), (ud,)))
    ops.append(('default_config', lambda: sc.call('config.default_config'), (), (ud,)))
    ops.append(('read_config without file', lambda: sc.call('config.read_config'), (), (ud,)))

    def conf(**kw):
        return dict(config(sc), **kw)
    ops.append(('validate_config', lambda: sc.call('config.validate_config', conf()), (), ()))
    for f in HOSTILE:
        ops.append(('validate_config File %r' % f, lambda f=f: sc.call('config.validate_config', conf(File=f)), (), ()))
    ops.append(('write_config', lambda: sc.call('config.write_config', conf(), dir_path=HOME), (HOME + 'config.yaml',), ()))

    def userfile():
        fs.put(ud + '/config.yaml', filetext(sc, '/home/u', sc.num(500.0)))
    ops.append(('get_config with file', lambda: (sc.call('config.get_config')), (), (ud,), userfile))
    ops.append(('write_config to the user file', lambda: sc.call('config.write_config', conf()), (ud + '/config.yaml',), ()))
    cat = DB + '/catalogue.csv'

    def database():
        fs.mkdirs(DB + '/UserData')
        fs.put(DB + '/UserData/a.txt', TABLES['.txt'])
        fs.put(DB + '/UserData/b.yml', TABLES['.yml'])
        fs.put(DB + '/UserData/c.pdf', 'x')
        d = DB + '/RefractiveIndexInfo/database'
        fs.put(d + '/data-nk/main/Ag.yml', TABLES['.yml'])
        fs.put(d + '/catalog-nk.yml', '- SHELF: main\n  name: m\n  content:\n    - BOOK: Ag\n      name: Silver\n      content:\n        - PAGE: Smith\n          name: S\n'
               '          data: main/Ag.yml\n        - PAGE: Gone\n          name: G\n          data: main/Gone.yml\n')
        fs.put(cat, csvtext(sc, [entry(sc, 0, Alias='one', Path='a.txt'), entry(sc, 1, Alias='two', Path='gone.txt')]))
    ops.append(('open catalogue', lambda: sc.call(sc.pub('Catalogue'), config=config(sc)), (), (), database))
    ops.append(('rebuild', lambda: sc.call(sc.pub('Catalogue'), config=config(sc), rebuild='All'), (), ()))
    ops.append(('rebuild one', lambda: sc.call(sc.pub('Catalogue'), config=config(sc), rebuild=['UserData']), (), ()))
    ops.append(('rebuild disabled', lambda: sc.call(sc.pub('Catalogue'), config=config(sc, {'UserData': False}), rebuild=['UserData']), (), ()))
    C = lambda: sc.call(sc.pub('Catalogue'), config=config(sc))
    for a in ('one', 'two', 'nope', 0, 1, 99):
        ops.append(('get_material %r' % (a,), lambda a=a: sc.meth(C(), 'get_material', a), (), ()))
    ops.append(('register_alias', lambda: sc.meth(C(), 'register_alias', 0, 'fresh'), (), ()))
    ops.append(('register_alias taken', lambda: sc.meth(C(), 'register_alias', 0, 'two'), (), ()))
    ops.append(('edit_interactive', lambda: sc.meth(C(), 'edit_interactive'), (), ()))
    ops.append(('save_interactive', lambda: sc.meth(C(), 'save_interactive'), (), ()))
    ops.append(('get_database', lambda: sc.meth(C(), 'get_database'), (), ()))
    ops.append(('save_to_file', lambda: sc.meth(C(), 'save_to_file'), (cat,), ()))
    ops.append(('rebuild and save', lambda: sc.meth(sc.call(sc.pub('Catalogue'), config=config(sc), rebuild='All'), 'save_to_file'), (cat,), ()))
    ops.append(('catalogue without file', lambda: sc.call(sc.pub('Catalogue'), config=config(sc, file='absent.csv')), (), ()))
    ops.append(('rebuild without file', lambda: sc.call(sc.pub('Catalogue'), config=config(sc, file='absent.csv'), rebuild='All'), (), ()))
    ops.append(('rebuild one without file', lambda: sc.call(sc.pub('Catalogue'), config=config(sc, file='absent.csv'), rebuild=['UserData']), (), ()))
    ops.append(('catalogue in a missing folder', lambda: sc.call(sc.pub('Catalogue'), config=dict(config(sc), Path='/home/u/nodb'), rebuild='All'), (), ()))
    ops.append(('catalogue with missing module folders', lambda: sc.call(sc.pub('Catalogue'), config=config(sc, {'Filmetrics': True}), rebuild='All'), (), ()))
    for i, t in enumerate(('', 'Alias\n', 'nonsense', 'Alias,Name\n1\n')):
        fs.put(DB + '/bad%d.csv' % i, t)
        ops.append(('unusable catalogue file %d' % i, lambda i=i: sc.call(sc.pub('Catalogue'), config=config(sc, file='bad%d.csv' % i)), (), ()))
        ops.append(('unusable catalogue file %d rebuilt' % i, lambda i=i: sc.call(sc.pub('Catalogue'), config=config(sc, file='bad%d.csv' % i), rebuild='All'), (), ()))
    ops.append(('rebuild into a new file', lambda: sc.meth(sc.call(sc.pub('Catalogue'), config=config(sc, file='new.csv'), rebuild='All'), 'save_to_file'), (DB + '/new.csv',), ()))

    def tool(ans):
        fs.put(ud + '/config.yaml', filetext(sc, DB, sc.num(600.0)).replace('Interactive: true', 'Interactive: false').replace(DB + '.csv', 'catalogue.csv'))
        sc.w.inputs = [ans]
    ops.append(('rebuild_catalogue confirmed', lambda: sc.call('rebuild_catalogue'), (cat,), (ud,), lambda: tool('y')))
    ops.append(('rebuild_catalogue declined', lambda: sc.call('rebuild_catalogue'), (), (ud,), lambda: tool('n')))
    return ops


def check(chk):
    chk.rule('effects', "files and folders after the operation == before, apart from its designated target and the folders containing it; no change of directory or environment")
    chk.rule('bystanders', "no file that existed before and is not the target is truncated, written, renamed or removed on the way")
    chk.rule('handles', "typestate of every handle at every exit (normal, exception, injected fault) is closed")
    chk.rule('names', "valid_file_name: nothing is left behind or touched outside its own temporary folder, whatever the name and fault")
    chk.rule('managed', "the result of open() is managed by with, closed, or handed to the caller")

    def once(sc, fault=None, only=None):
        tree(sc)
        sc.mod('')
        sc.mod('scripts.setup_dispersion')
        counts = {}
        for op in operations(sc):
            label, fn, targets, folders = op[:4]
            if len(op) > 4:
                op[4]()
            fs = sc.w.fs
            n0 = fs.ops
            saved = {k: File_(f) for k, f in fs.files.items()}, set(fs.dirs)
            attempt(sc, label, fn, targets, folders)
            used = fs.ops - n0
            counts[label] = used
            if fault:
                for k in range(1, min(used, 40) + 1):
                    restore(fs, saved)
                    if label.startswith('rebuild_catalogue'):
                        sc.w.inputs = ['y' if 'confirmed' in label else 'n']
                    fs.fail_at = fs.ops + k
                    attempt(sc, '%s, fault %d' % (label, k), fn, targets, folders)
                    fs.fail_at = None
                    # what remained of the target is irrelevant for the next one
                restore(fs, saved)
                attempt(sc, label + ' again', fn, targets, folders) if not label.startswith('rebuild_catalogue') else None
        chk.notes.append("input/output operations: %d over %d public operations" % (sum(counts.values()), len(counts))) if not fault else None

    class File_:
        def __init__(self, f):
            self.text, self.enc, self.kind = f.text, f.enc, f.kind

    def restore(fs, saved):
        from absint.fs import File
        for k in [k for k in fs.files if not k.startswith('<') and k not in saved[0]]:
            del fs.files[k]
        for k, f in saved[0].items():
            fs.files[k] = File(f.text, f.enc, f.kind)
        fs.dirs = set(saved[1])
    for ru in (False, True):
        chk.scenario("operations%s" % (' (ruamel)' if ru else ''), lambda sc: once(sc), ruamel=ru, limit=120)
        chk.scenario("operations with faults%s" % (' (ruamel)' if ru else ''), lambda sc: once(sc, True), ruamel=ru, limit=200)

    def names(sc, hostile, ro):
        tree(sc)
        sc.mod('')
        fs = sc.w.fs
        if ro:
            fs.readonly.add('/tmp' if fs.style == 'posix' else 'C:\\Temp')
        for n in hostile + type(hostile)('n' * k for k in sorted({100, 151, 201, 249, 255, 256, 300} | set(chk.sizes(300)))):
            n0 = fs.ops
            attempt(sc, 'valid_file_name(%r)' % n, lambda: sc.call('io.valid_file_name', n))
            for k in range(1, fs.ops - n0 + 1):
                fs.fail_at = fs.ops + k
                attempt(sc, 'valid_file_name(%r), fault %d' % (n, k), lambda: sc.call('io.valid_file_name', n))
                fs.fail_at = None
    for ro in (False, True):
        chk.scenario("file names%s" % (', nothing writable' if ro else ''), lambda sc, ro=ro: names(sc, HOSTILE, ro))
        chk.scenario("file names (Windows)%s" % (', nothing writable' if ro else ''), lambda sc, ro=ro: names(sc, HOSTILE_NT, ro), style='nt')

    def evaluation(sc):
        tree(sc)
        sc.mod('')
        for label, m, g, mu in zoo(sc, NM):
            w = Watch(sc)
            for fn, a in (('get_nk_data', (spectrum(sc, [g[2]], mu),)), ('get_permittivity', (spectrum(sc, [g[2]], mu),)), ('get_maximum_valid_range', ()),
                          ('remove_absorption', ()), ('print_info', ()), ('__str__', ()), ('__repr__', ())):
                if run(sc.w, lambda: sc.it.getattr(m, fn))[0].kind == 'ok':
                    run(sc.w, lambda: sc.meth(m, fn, *a))
            w.judge(label)
    chk.scenario("evaluating", evaluation, limit=60)

    def imp(sc):
        tree(sc)
        w = Watch(sc)
        sc.mod('')
        w.judge('import', folders=[udir(sc.w.fs.style == 'nt')])
    for nt in (False, True):
        for ru in (False, True):
            chk.scenario("import %s%s" % ('Windows' if nt else 'Linux', ' (ruamel)' if ru else ''), imp, style='nt' if nt else 'posix', ruamel=ru)
    structural(chk)


OPENERS = ('builtins.open', 'codecs.open', 'io.open', 'os.open', 'os.fdopen', 'gzip.open', 'bz2.open', 'lzma.open', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile',
           'tempfile.mkstemp', 'tempfile.mkdtemp')


def structural(chk):
    """every open() is managed"""
    pr = Program()
    n = 0
    for f in pr.funcs:
        body = f.node.body if f.qual != '<module>' else [s for s in f.node.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
        par = {}
        for s in body:
            for x in ast.walk(s):
                for c in ast.iter_child_nodes(x):
                    par[c] = x
        for call in f.calls:
            c = pr.canon(f, call.func)
            if c not in OPENERS:
                continue
            n += 1
            p = par.get(call)
            site = "%s:%d (%s)" % (f.mod.rel, call.lineno, f.qual)
            v, why = None, ''
            if isinstance(p, ast.withitem):
                v = True
            elif isinstance(p, ast.Return) or isinstance(p, (ast.Yield, ast.IfExp, ast.BoolOp)):
                v = True            # the caller's business; judged by the handle typestate
            elif isinstance(p, ast.Call) and call in p.args and ast.unparse(p.func).endswith(('closing', 'enter_context')):
                v = True
            elif isinstance(p, ast.Attribute) and p.attr in ('close', '__enter__'):
                v = True
            elif isinstance(p, ast.Expr) or isinstance(p, ast.Attribute):
                v, why = False, "result of %s used without ever being closed" % c
            elif isinstance(p, ast.Call) and call in p.args:
                v, why = None, "handed on"
            elif isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                t = ts[0]
                if isinstance(t, ast.Name):
                    uses = [x for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)]
                    closes = [x for x in uses if isinstance(par.get(x), ast.Attribute) and par[x].attr in ('close', '__exit__', 'cleanup')]
                    managed = [x for x in uses if isinstance(par.get(x), ast.withitem)]
                    escapes = [x for x in uses if isinstance(par.get(x), (ast.Return, ast.Call, ast.Assign, ast.Tuple, ast.Dict, ast.List, ast.Yield)) and not (
                        isinstance(par.get(x), ast.Call) and x is par[x].func)]
                    if managed:
                        v = True
                    elif closes:
                        fin = any(x is y for s in body for tr in ast.walk(s) if isinstance(tr, ast.Try) for q in tr.finalbody for y in ast.walk(q) for x in closes)
                        v = True if fin else None
                        why = "" if fin else "closed on some paths only"
                    elif escapes:
                        v, why = None, "handed on"
                    else:
                        v, why = False, "%s is never closed" % t.id
            # where the rule alone cannot decide, the handle typestate of the entry contexts does
            if v is not None:
                chk.ob("open at %s is managed" % site, v, why, site if v is False else None)
    chk.notes.append("open calls: %d" % n)
