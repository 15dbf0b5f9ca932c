"""C25 independent of locale and hash seed"""
import ast
from .catkit import *
from .c22 import udir
from .c24 import BROKEN
from absint.callgraph import Program
from absint import text as TX

EXPLAIN = ("the same operations (all readers over documents with every keyword and neighbour of a keyword, all writers, configuration, catalogue building and "
           "saving, unusable files) are interpreted under several locale encodings and several iteration orders of every unordered collection; "
           "returned values, metadata, exceptions, and text and encoding of every written file are compared with the reference context; "
           "plus a whole-program rule on the encoding of text files")
WORDS = ['NAME', 'NAMES', 'FULLNAME', 'FULLNAMES', 'AUTHOR', 'AUTHORS', 'COMMENT', 'COMMENTS', 'METACOMMENT', 'REFERENCE', 'REFERENCES', 'DATATYPE', 'VALIDRANGE', 'SPECTRUMTYPE',
         'UNIT', 'UNITS', 'YIELDS', 'Full Name', 'name', 'Reference', 'Spec', 'Note', 'N', 'SPECIFICATION', 'AUTHORITY', 'COMMENTARY', 'NAMED', 'REFERENCED', 'REF', 'META',
         'COMMENT 2', 'REFERENCE:X', 'UNITED', 'DATA', 'DATATYPES', 'VALID', 'SPECTRUM']
VALS = {'DATATYPE': 'tabulated nk', 'VALIDRANGE': '0.4 0.8', 'SPECTRUMTYPE': 'wavelength', 'UNIT': 'um', 'UNITS': 'um', 'YIELDS': 'n'}


def digest(w, v, depth=0):
    """comparable description of a value, independent of the world it belongs to"""
    if isinstance(v, Num):
        if v.special:
            return ('num', v.special)
        return ('num',) + tuple(('%.9g%+.9gj' % (complex(x).real + 0.0, complex(x).imag + 0.0)) for x in v.nf.vals())
    if isinstance(v, NBool):
        return digest(w, v.v)
    if isinstance(v, str):
        def tk(m):
            n, spec = w.tokens[TX.dec(m.group(1))]
            return '<%s|%s>' % (digest(w, n), spec)
        return TX.TOKEN.sub(tk, v)
    if isinstance(v, (int, float, bool, type(None), bytes)):
        return v
    if isinstance(v, Arr):
        return ('arr', v.shape, [digest(w, x, depth + 1) for x in v.elems()])
    if isinstance(v, dict):
        return {digest(w, k): digest(w, x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [digest(w, x, depth + 1) for x in v]
    if isinstance(v, ASet):
        return ('set', sorted(map(repr, (digest(w, x) for x in v.items))))
    return ('?', type(v).__name__)


def undecided(v):
    if isinstance(v, (Unknown, Phi)):
        return True
    if isinstance(v, dict):
        return any(map(undecided, v.values()))
    if isinstance(v, (list, tuple)):
        return any(map(undecided, v))
    if isinstance(v, Arr):
        return any(map(undecided, v.elems()))
    return False


def observe(sc):
    """label -> (kind, digest)"""
    out = {}
    w = sc.w

    def rec(label, fn):
        """all exits"""
        outs = run(w, fn)
        if len(outs) != 1 or outs[0].guards and any(g.opaque() for g in outs[0].guards):
            out[label] = None
            return None
        o = outs[0]
        if o.kind == 'raise':
            out[label] = ('raises', o.exc.cls.name if hasattr(o.exc, 'cls') and hasattr(o.exc.cls, 'name') else str(o.exc).split('(')[0])
            return None
        out[label] = None if undecided(o.value) else ('value', digest(w, o.value))
        return o.value

    def mat(label, fn, probes=True, at=None):
        """metadata, kind, range and values of a material"""
        box = []

        def f():
            m = fn()
            box.append(m)
            r = [dict(sc.attr(m, 'meta_data')), sc.attr(m, 'data')['name'], dict(sc.attr(m, 'defaults'))]
            return r
        rec(label, f)
        if not box:
            return None
        m = box[-1]
        rec(label + ' range', lambda: sc.meth(m, 'get_maximum_valid_range'))
        if probes:
            rec(label + ' values', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, at or [sc.num(0.5), sc.num(0.6)], UM)))
        return m

    def file(label, p):
        f = w.fs.files.get(w.fs.norm(p))
        if f is None:
            out[label] = ('no file',)
        elif isinstance(f.text, Unknown):
            out[label] = None
        else:
            ascii_ = all(ord(c) < 128 or 0xe000 <= ord(c) < 0xf900 for c in f.text)
            out[label] = ('file', digest(w, f.text), 'ascii' if ascii_ and f.enc in ('utf-8', 'latin-1', 'ascii', 'cp1252', 'cp1251') else f.enc)

    def rewrite(label, m, tag, at=None):
        for ext in ('.txt', '.yml'):
            p = path(sc, 'rewritten%s%s' % (tag, ext))
            rec('%s written as %s' % (label, ext), lambda: sc.meth(sc.call('io.Writer', p, m), 'write_file') and None)
            file('%s file %s' % (label, ext), p)
            mat('%s read back %s' % (label, ext), lambda: sc.call(sc.pub('Material'), file_path=p), at=at)
    M_ = sc.pub('Material')
    nk = [('0.4', '1.5', '0.1'), ('0.6', '1.7', '0.2'), ('0.8', '1.6', '0.3')]
    for ext, mark, sep in (('.txt', '#', '\t'), ('.csv', '#', ','), ('.nk', ';', ' ')):
        body = ''.join(sep.join(r) + '\n' for r in nk)
        for wd in WORDS:
            for val in {VALS.get(wd, 'ü ' + wd), 'μ 中: é'} if wd not in VALS else {VALS[wd]}:
                t = '%s %s: %s\n%s' % (mark, wd, val, body)
                p = put(sc, 'h' + ext, t)
                mat('%s header %s: %s' % (ext, wd, val), lambda: sc.call(M_, file_path=p, spectrum_type='wavelength', unit='um'), probes=wd in VALS)
        t = ''.join('%s %s: %s\n' % (mark, wd, VALS.get(wd, 'ü ' + wd)) for wd in WORDS) + body
        p = put(sc, 'all' + ext, t)
        m = mat(ext + ' all keywords', lambda: sc.call(M_, file_path=p))
        rec(ext + ' reader', lambda: sc.meth(sc.call('io.Reader', p), 'read_file')['MetaData'])
        if m is not None:
            rewrite(ext + ' all keywords', m, ext[1:])
        t = ''.join('%s %s: %s\n' % (mark, wd, VALS.get(wd, 'ü ' + wd)) for wd in reversed(WORDS)) + body
        mat(ext + ' all keywords reversed', lambda: sc.call(M_, file_path=put(sc, 'rev' + ext, t)))
        for i, b in enumerate(BROKEN[ext]):
            mat('%s broken %d' % (ext, i), lambda: sc.call(M_, file_path=put(sc, 'b' + ext, b)))
    block = '    data: |\n' + ''.join('        %s\n' % ' '.join(r) for r in nk)
    heads = ['REFERENCES: ü\nCOMMENTS: é\n', 'REFERENCE: ü\nREFERENCES: é\nCOMMENT: c\nCOMMENTS: d\n', 'Reference: ü\nREFERENCES: é\nName: n\nNAME: o\nAuthor: a\nAUTHOR: b\n',
             'MetaComment: μ\nFullName: f\nNAMES: x\nAUTHORS: y\nComment: 中\n', 'Specification:\n  Ü: 1\n  b: x\n', 'SPECS:\n  n_is_absolute: true\n']
    sets = ['  - type: tabulated nk\n' + block, '  - DataType: tabulated nk\n    Unit: um\n    SpectrumType: wavelength\n' + block.replace('data', 'Data'),
            '  - type: tabulated nk\n    UNIT: nm\n    Unit: um\n    SPECTRUMTYPE: wavelength\n' + block,
            '  - type: formula 2\n    wavelength_range: 0.3 0.9\n    ValidRange: 0.4 0.8\n    range: 0.2 0.7\n    coefficients: 0 1.1 0.1\n',
            '  - type: formula 2\n    validrange: 0.4 0.8\n    RANGE: 0.2 0.7\n    spectra_range: 0.1 0.9\n    Parameters: 0 1.1 0.1\n',
            '  - type: formula 2\n    wavelength_range: 0.3 0.9\n    coefficients: 0 1.1 0.1\n    Parameters: 0 1.2 0.1\n']
    for i, h in enumerate(heads):
        for j, s in enumerate(sets):
            if i and j and i != j:
                continue
            p = put(sc, 'y.yml', h + 'DATA:\n' + s)
            m = mat('.yml head %d set %d' % (i, j), lambda: sc.call(M_, file_path=p, spectrum_type='wavelength', unit='um'))
            rec('.yml reader %d %d' % (i, j), lambda: sc.meth(sc.call('io.Reader', p), 'read_file')['MetaData'])
            if m is not None and j in (0, 3):
                rewrite('.yml head %d set %d' % (i, j), m, 'y')
    for i, b in enumerate(BROKEN['.yml']):
        mat('.yml broken %d' % i, lambda: sc.call(M_, file_path=put(sc, 'b.yml', b)))
    # materials from memory
    g = points(sc, 'g', 2, UM)
    tab = lambda: table(sc, [g[1], g[3]], column(sc, 'a', 2), column(sc, 'b', 2))
    for lab, kw in (('tabulated_nk', {'tabulated_nk': tab()}), ('tabulated_eps', {'tabulated_eps': tab()}), ('fixed_n', {'fixed_n': sc.sym('fn')}),
                    ('model', {'model_kw': {'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um', 'parameters': sc.arr(params(sc, 'Cauchy'), 'f'),
                                            'valid_range': sc.arr([g[1], g[3]], 'f')}})):
        m = sc.ok(lab, lambda: sc.call(M_, spectrum_type='wavelength', unit='um', **kw))
        setmeta(sc, m, {'Reference': 'é', 'Comment': 'μ: 中', 'Name': 'ü', 'FullName': 'ñ', 'Author': 'Ł', 'MetaComment': 'ä\nö'}, {'Ü': 'ß', 'n_is_absolute': True})
        rewrite(lab, m, 'm', [g[2], g[1]])
    # the other kinds of specification of one material are refused in the same way
    for kw in ({'fixed_n': sc.num(1.5), 'fixed_eps': sc.num(2.0)}, {'fixed_n': sc.num(1.5), 'file_path': '/x.txt'}, {'tabulated_nk': tab(), 'tabulated_eps': tab()}, {}):
        rec('constructed from %s' % sorted(kw), lambda: sc.attr(sc.call(M_, **kw), 'data')['name'])
    for bad in ({'spectrum_type': 'nope'}, {'unit': 'nope'}, {'spectrum_type': 'energy', 'unit': 'nm'}):
        rec('spectrum %s' % bad, lambda: sc.attr(sc.call('spectrum.Spectrum', sc.num(1.0), **bad), 'unit'))
    for u in ('NM', 'nanometers', 'Micrometer', 'eV', 'THz', '1/cm'):
        for st in ('wavelength', 'energy', 'frequency', 'wavenumber'):
            rec('spectrum %s %s' % (st, u), lambda: [sc.attr(sc.call('spectrum.Spectrum', sc.num(1.0), spectrum_type=st, unit=u), a) for a in ('unit', 'spectrum_type')])
    # configuration and catalogue
    d = udir(False)
    conf = dict(config(sc, {'UserData': True, 'RefractiveIndexInfo': True}), File='ü.csv')
    rec('write_config', lambda: sc.call('config.write_config', conf, dir_path=d) and None)
    file('config.yaml', d + '/config.yaml')
    rec('read_config', lambda: dict(sc.call('config.read_config')))
    w.fs.mkdirs(DB + '/UserData')
    w.fs.put(DB + '/UserData/ä.txt', '# NAME: ü\n# AUTHOR: é\n# COMMENT: 中\n500.0\t1.5\n700.0\t1.6\n')
    w.fs.put(DB + '/UserData/b.yml', 'REFERENCES: μ\nDATA:\n' + sets[0])
    r = DB + '/RefractiveIndexInfo/database'
    w.fs.put(r + '/data-nk/main/Ag.yml', 'REFERENCES: Ł\nCOMMENTS: ß\nDATA:\n' + sets[0])
    w.fs.put(r + '/catalog-nk.yml', '- SHELF: main\n  name: m\n  content:\n    - BOOK: Ag\n      name: Sílver\n      content:\n        - PAGE: Ünal\n          name: S\n'
             '          data: main/Ag.yml\n')

    def build():
        cat = sc.call(sc.pub('Catalogue'), config=conf, rebuild='All')
        sc.meth(cat, 'register_alias', 0, 'Ä')
        sc.meth(cat, 'save_to_file')
        return None
    rec('catalogue built', build)
    file('catalogue', DB + '/ü.csv')
    rec('catalogue reopened', lambda: [[str(k), r[k]] for r in frame(sc, sc.call(sc.pub('Catalogue')))[1] for k in r])
    rec('material of the catalogue', lambda: dict(sc.attr(sc.meth(sc.call(sc.pub('Catalogue')), 'get_material', 'Ä'), 'meta_data')))
    sc.w.inputs = ['', 'y', 'ö.csv', 'y', 'n', 'y']
    rec('setup', lambda: sc.call('scripts.setup_dispersion.main') and None)
    file('config.yaml after setup', d + '/config.yaml')
    for n in ('example_file.txt', 'example_file2.yml'):
        file('example ' + n, d + '/UserData/' + n)
    return out


def check(chk):
    chk.rule('locale', "values, metadata, exceptions and files (text and encoding) are the same under every locale encoding")
    chk.rule('order', "the same under every iteration order of unordered collections")
    chk.rule('utf-8', "text files are opened as UTF-8")
    locales = ['latin-1', 'ascii', 'cp1252'] + (['utf-16', 'cp1251', 'shift_jis'] if chk.thorough else ['utf-16'])
    orders = [True, 2, 3, 4] + (list(range(5, 21)) if chk.thorough else [])
    for ru in (False, True):
        ref = {}

        def base(sc):
            sc.w.list_fixed = True
            ref.update(observe(sc))
            n = sum(v is not None for v in ref.values())
            sc.true('reference context', n > 0, "nothing decided")
        chk.scenario("reference%s" % (' (ruamel)' if ru else ''), base, ruamel=ru, limit=60)
        if not ref:
            continue

        def other(sc, what):
            sc.w.list_fixed = True
            got = observe(sc)
            for k in ref:
                a, b = ref[k], got.get(k)
                if a is None or b is None:
                    sc.true(k, None, "undecided value")
                    continue
                sc.true(k, a == b, "%s with %s: %s, otherwise %s" % (k, what, clip(b, a), clip(a, b)), "written file" if a[0] == 'file' else None)
        for loc in locales:
            if ru and loc not in ('latin-1', 'ascii'):
                continue
            chk.scenario("locale %s%s" % (loc, ' (ruamel)' if ru else ''), lambda sc, l=loc: other(sc, 'locale ' + l), ruamel=ru, locale=loc, limit=60)
        for o in orders:
            if ru and o not in (True, 2):
                continue
            chk.scenario("set order %s%s" % (o, ' (ruamel)' if ru else ''), lambda sc, o=o: other(sc, 'another iteration order of sets'), ruamel=ru, set_reverse=o, limit=60)
    structural(chk)


def clip(a, b):
    """the first difference"""
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return ('...' if i > 40 else '') + a[max(0, i - 40):i + 80]


def structural(chk):
    """text files are opened with an explicit encoding (names resolved over the whole package)"""
    pr = Program()
    n = 0
    for f in pr.funcs:
        for call in f.calls:
            c = pr.canon(f, call.func)
            pos = {'builtins.open': 3, 'io.open': 3, 'codecs.open': 2}.get(c)
            if pos is None:
                continue
            n += 1
            kw = {k.arg: k.value for k in call.keywords}
            if None in kw:
                continue
            mode = call.args[1] if len(call.args) > 1 else kw.get('mode')
            enc = call.args[pos] if len(call.args) > pos else kw.get('encoding')
            site = "%s:%d (%s)" % (f.mod.rel, call.lineno, f.qual)
            if mode is not None and not isinstance(mode, ast.Constant):
                continue
            if mode is not None and 'b' in str(mode.value):
                continue
            if enc is None and empty_body(f, call):
                chk.ob("encoding of open at %s" % site, True)       # nothing is read or written
            elif isinstance(enc, ast.Constant) and isinstance(enc.value, str):
                ok = enc.value.lower().replace('-', '').replace('_', '') in ('utf8', 'utf8sig')
                chk.ob("encoding of open at %s" % site, ok, "text file opened as %s" % enc.value, site)
            # anything else is decided by the locale contexts above
    chk.notes.append("open calls: %d" % n)


def empty_body(f, call):
    """with open(..): without any use of the handle"""
    for s in ast.walk(f.node):
        if isinstance(s, ast.With):
            for i in s.items:
                if i.context_expr is call and i.optional_vars is None:
                    return True
    return False
