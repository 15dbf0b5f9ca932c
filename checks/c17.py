"""C17 data never executes"""
import ast
from .iokit import *
from absint.callgraph import Program

EXPLAIN = ("(a) whole-program rule: over-approximated call graph of the package from every reader entry point; no reference to an "
           "evaluation, unpickling, shell, process, dynamic-import or unsafe-YAML primitive in a reachable function; "
           "(b) abstract interpretation of all readers over hostile documents: every YAML load event uses a non-executing loader, no "
           "code-execution event, and a model name never calls anything but a spectral data class (marker callables planted in the "
           "namespaces that names are looked up in)")
SINKS = {'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.execfile', 'os.system', 'os.popen', 'os.startfile', 'code.interact',
         'pandas.read_pickle', 'pandas.eval', 'numpy.core.numeric.eval', 'yaml.unsafe_load', 'yaml.unsafe_load_all', 'yaml.Loader',
         'yaml.UnsafeLoader', 'yaml.CLoader', 'yaml.CUnsafeLoader', 'yaml.loader.Loader', 'yaml.loader.UnsafeLoader', 'yaml.constructor.UnsafeConstructor',
         'scipy.io.readsav', 'sympy.sympify', 'joblib.load', 'imp.load_source', 'timeit.timeit', 'codeop.compile_command', 'ast.PyCF_ONLY_AST'}
PREFIX = ('pickle.', 'cPickle.', '_pickle.', 'marshal.', 'shelve.', 'dill.', 'cloudpickle.', 'jsonpickle.', 'subprocess.', 'runpy.', 'ctypes.',
          'os.exec', 'os.spawn', 'os.posix_spawn', 'pty.', 'commands.', 'numexpr.')
DYNIMPORT = {'builtins.__import__', 'importlib.import_module', 'importlib.util.spec_from_file_location', 'importlib.machinery.SourceFileLoader',
             'pkgutil.get_loader', 'pydoc.locate', 'zipimport.zipimporter'}
HOSTILE = ['!!python/object/apply:os.system ["true"]', '!!python/object/new:os.system ["true"]', '!!python/name:os.system', '!!python/module:os',
           '!!python/object:os.popen {}', '!!python/object/apply:eval ["1"]']


def structural(chk):
    pr = Program()
    roots = [f for f in pr.funcs if not f.mod.rel.startswith('scripts') or f.qual == '<module>']
    reach = pr.reach(roots)
    nref = 0
    for f, ch in sorted(reach.items(), key=lambda q: str(q[0])):
        chk.functions.add(str(f))
        bad = None
        for c, n, call in f.refs:
            nref += 1
            if c in SINKS or c.startswith(PREFIX) and c not in ('ctypes.', 'subprocess.'):
                bad = (c, n)
            elif c == 'numpy.load':
                bad = bad
            elif c in DYNIMPORT and not call:
                bad = (c, n)
        for n in f.calls:
            c = pr.canon(f, n.func)
            const = bool(n.args) and isinstance(n.args[0], ast.Constant)
            if c in DYNIMPORT and not const:
                bad = (c, n)
            if c == 'numpy.load' and any(k.arg == 'allow_pickle' and not (isinstance(k.value, ast.Constant) and k.value.value is False)
                                         for k in n.keywords):
                bad = (c + '(allow_pickle)', n)
            if c and c.rpartition('.')[2] == 'YAML' and c.startswith('ruamel'):
                for k in n.keywords:
                    if k.arg == 'typ' and isinstance(k.value, ast.Constant) and k.value.value == 'unsafe':
                        bad = ('ruamel YAML(typ=unsafe)', n)
        site = bad and "%s:%d (%s)" % (f.mod.rel, bad[1].lineno, f.qual)
        chk.ob("no executing primitive in %s" % f, bad is None,
               bad and "%s used at %s; reached via %s" % (bad[0], site, " > ".join(map(str, ch))), site)
    chk.notes.append("call graph: %d functions, %d reachable, %d references resolved" % (len(pr.funcs), len(reach), nref))
    chk.callsites |= {str(f) for f in reach}
    return pr


SAFE = {'safe', 'full', 'base', 'rt'}


def judge(sc, label, n0):
    """events since n0"""
    ev = sc.w.events[n0:]
    for kind, data, where, guards in ev:
        if kind == 'codeexec' or (kind == 'yamlload' and data not in SAFE):
            if any(g.opaque() for g in guards):
                return sc.true(label, None, "%s %s at %s" % (kind, data, where))
            return sc.true(label, False, "%s %s at %s" % (kind, data, where), str(where))
        if kind == 'marker':
            return sc.true(label, False, "name taken from the file calls %s at %s" % (data, where), str(where))
    return sc.true(label, True)


def plant(sc):
    """marker callables in every namespace of the package"""
    from absint.interp import ExtFunc

    def mark(it, a, k, name='marker'):
        it.event('marker', name)
        return Unknown('marker')
    cls = AClass('MarkerClass', [], {'__init__': ExtFunc('MarkerClass.__init__', lambda it, a, k: it.event('marker', 'MarkerClass'))}, sc.mod('spectral_data'))
    for m in ('spectral_data', 'material', 'io', ''):
        ns = sc.mod(m).ns
        ns['marker_function'] = ExtFunc('marker_function', mark)
        ns['MarkerClass'] = cls


def check(chk):
    chk.rule('sinks', "no function reachable from a reader references eval/exec/pickle/shell/process/dynamic import/unsafe YAML primitives")
    chk.rule('loader', "every YAML load event on every analysed path uses a non-executing loader")
    chk.rule('names', "a model name selects nothing but SpectralData classes: other names end in an exception before anything is called")
    structural(chk)

    def attempt(sc, label, fn, must_fail=False):
        n0 = len(sc.w.events)
        outs = run(sc.w, fn)
        judge(sc, label, n0)
        if must_fail:
            for o in outs:
                if o.kind == 'ok' and not o.opaque() and satisfiable(o.guards):
                    sc.true(label + ' refused', False, "accepted")

    def names(sc):
        plant(sc)
        sd = sc.mod('spectral_data').ns
        good = set()
        base = sd.get('SpectralData')
        for k, v in sd.items():
            if isinstance(v, AClass) and base is not None and base in v.mro:
                good.add(k)
        allnames = [k for k in sd if k not in good] + ['os', 'os.system', 'np.load', 'eval', 'exec', '__import__', '__builtins__', 'print', 'open', 'input',
                                                      'marker_function', 'MarkerClass', 'SpectralData.__init__', '__class__', 'Material', 'Reader', 'Writer',
                                                      'type', 'object', 'getattr', 'dispersion', 'marker_function()', 'np.marker_function']
        num = '0.3 2.0'
        for n in allnames:
            for f in (lambda: sc.call(sc.pub('Material'), model_kw={'name': n, 'spectrum_type': 'wavelength', 'unit': 'um',
                                                                    'valid_range': [sc.num(0.3), sc.num(2.0)], 'parameters': sc.arr([sc.num(1.0)] * 7, 'f')}),
                      lambda: sc.call(sc.pub('Material'), file_path=put(sc, 'n.yml', 'DATA:\n  - DataType: model %s\n    SpectrumType: wavelength\n    Unit: um\n'
                                                                        '    ValidRange: %s\n    Parameters: 1.0 2.0 0.5\n' % (n, num)))):
                attempt(sc, 'model name %s' % n, f, must_fail=True)
        sc.true('classes', bool(good), "no SpectralData classes found")
    for ru in (False, True):
        chk.scenario("model names%s" % (' (ruamel)' if ru else ''), names, ruamel=ru)

    def docs(sc):
        plant(sc)
        g = '  - type: tabulated n\n    data: |\n        0.4 1.5\n        0.8 1.6\n'
        ts = ['REFERENCES: %s\nDATA:\n' % h + g for h in HOSTILE] + ['DATA: %s\n' % h for h in HOSTILE] + [h + '\n' for h in HOSTILE]
        ts += ['DATA:\n  - type: %s\n    data: |\n      0.4 1.5\n      0.8 1.6\n' % h for h in HOSTILE]
        ts += ['DATA:\n  - type: formula 5\n    wavelength_range: 0.2 0.9\n    coefficients: %s\n' % h for h in
               HOSTILE + ['__import__("os").system("true")', 'marker_function()', '1.0 marker_function()', 'eval("1")']]
        ts += ['DATA:\n  - type: formula 5\n    wavelength_range: %s\n    coefficients: 1 2 3\n' % h for h in ['marker_function() 2', '"(1, 2)"', 'eval("1") 2']]
        ts += ['DATA:\n  - type: tabulated n\n    data: |\n        0.4 marker_function()\n        0.8 1.0\n', 'DATA:\n' + g, 'DATA:\n' + g + 'SPECS: %s\n' % HOSTILE[0],
               'DATA:\n  - type: formula marker_function()\n    wavelength_range: 0.2 0.9\n    coefficients: 1 2\n',
               'DATA:\n  - type: formula 5\n    Unit: marker_function()\n    SpectrumType: MarkerClass\n    wavelength_range: 0.2 0.9\n    coefficients: 1 2 3\n',
               'DATA:\n  - type: tabulated marker_function\n    data: |\n        0.4 1.5\n        0.8 1.6\n']
        for i, t in enumerate(ts):
            attempt(sc, 'document %d' % i, lambda: sc.call(sc.pub('Material'), file_path=put(sc, 'x.yml', t), spectrum_type='wavelength', unit='um'))
            attempt(sc, 'yaml file %d' % i, lambda: sc.call('io.read_yaml_file', put(sc, 'y.yml', t)))
            attempt(sc, 'yaml string %d' % i, lambda: sc.call('io.read_yaml_string', t))
        for ext, sep, mark in (('.txt', '\t', '#'), ('.csv', ',', '#'), ('.nk', ' ', ';')):
            for i, (head, cell) in enumerate((('DATATYPE: marker_function x', '1.5'), ('DATATYPE: tabulated marker_function', '1.5'), ('UNIT: marker_function()', '1.5'),
                                              ('NAME: eval("1")', '1.5'), ('DATATYPE: model MarkerClass', '1.5'), ('x', 'marker_function()'), ('x', 'eval("1")'))):
                t = '%s %s\n0.4%s%s\n0.8%s1.6\n' % (mark, head, sep, cell, sep)
                attempt(sc, '%s %d' % (ext, i), lambda: sc.call(sc.pub('Material'), file_path=put(sc, 'x' + ext, t)))
    for ru in (False, True):
        chk.scenario("hostile documents%s" % (' (ruamel)' if ru else ''), docs, ruamel=ru)

    def conf(sc):
        plant(sc)
        for i, h in enumerate(HOSTILE + ['marker_function()', '__import__("os")']):
            for j, t in enumerate(('Path: %s\n' % h, h + '\n', 'Path: /home/u\nModules:\n  %s: true\n' % h.replace('"', "'").replace('!', ''),
                                   'File: c.csv\nReferenceSpectrum:\n  Value: %s\n' % h)):
                sc.w.fs.mkdirs('/home/u/.config/dispersion')
                sc.w.fs.put('/home/u/.config/dispersion/config.yaml', t)
                attempt(sc, 'configuration %d.%d' % (i, j), lambda: sc.call('config.get_config'))
                attempt(sc, 'catalogue with configuration %d.%d' % (i, j), lambda: sc.call('catalogue.Catalogue'))
        attempt(sc, 'default configuration', lambda: sc.call('config.default_config'))
    for ru in (False, True):
        chk.scenario("hostile configuration%s" % (' (ruamel)' if ru else ''), conf, ruamel=ru)

    def imp(sc):
        n0 = len(sc.w.events)
        sc.mod('')
        judge(sc, 'importing', n0)
    for ru in (False, True):
        chk.scenario("import%s" % (' (ruamel)' if ru else ''), imp, ruamel=ru)
