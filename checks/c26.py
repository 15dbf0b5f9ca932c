"""C26 comparing materials"""
import ast
from .iokit import *
from .c06 import zoo
from absint.values import *

EXPLAIN = ("Material comparison interpreted for every ordered pair of material kinds (values, tables, models, files, effective media, extrapolated and "
           "absorption-free ones), for every metadata field changed on either side and for objects of other types: result is a bool, symmetric, reflexive, "
           "!= is its negation, and False where metadata or the kind of data differ")
FIELDS = ('Reference', 'Comment', 'Name', 'FullName', 'Author', 'MetaComment')


def boolean(v):
    if isinstance(v, NBool):
        v = v.v
    return v if isinstance(v, bool) else None


def check(chk):
    chk.rule('total', "== and != return a bool for every pair")
    chk.rule('symmetric', "a == b iff b == a; a == a; != is the negation")
    chk.rule('distinct', "False when a metadata field or the kind of data differs")

    def cmp(sc, label, a, b, want=None):
        r = []
        for x, y in ((a, b), (b, a)):
            e = sc.ok('%s ==' % label, lambda: sc.it.compare(ast.Eq(), x, y))
            n = sc.ok('%s !=' % label, lambda: sc.it.compare(ast.NotEq(), x, y))
            be, bn = boolean(e), boolean(n)
            und = isinstance(e, (Unknown, Phi)) or isinstance(n, (Unknown, Phi))
            sc.true('%s is a bool' % label, None if und else (be is not None and bn is not None), "returns %s / %s" % (txt(e), txt(n)))
            if be is None or bn is None:
                return None
            sc.true('%s negation' % label, be != bn, "== gives %s and != gives %s" % (be, bn))
            r.append(be)
        sc.true('%s symmetric' % label, r[0] == r[1], "%s one way, %s the other" % tuple(r))
        if want is not None:
            sc.true('%s is %s' % (label, want), r[0] == want, "result %s" % r[0])
        return r[0]

    def everything(sc):
        out = [(l, m) for l, m, g, u in zoo(sc)]
        for ext, t in (('.txt', '# NAME: x\n500.0\t1.5\t0.1\n700.0\t1.6\t0.2\n'), ('.csv', '500.0,1.5,0.1\n700.0,1.6,0.2\n'),
                       ('.yml', 'REFERENCES: r\nDATA:\n  - type: formula 1\n    wavelength_range: 0.3 0.9\n    coefficients: 0 1.1 0.1\n  - type: tabulated k\n'
                        '    data: |\n        0.3 0.1\n        0.9 0.2\n')):
            out.append(('file ' + ext, read(sc, put(sc, 'm' + ext, t), spectrum_type='wavelength', unit='um' if ext == '.yml' else 'nm')))
        host, inc = (material(sc, 'nk', tabulated_nk=sc.arr([[sc.num(400.0), sc.num(a), sc.num(0.1)], [sc.num(600.0), sc.num(b), sc.num(0.2)]], 'f'),
                              spectrum_type='wavelength', unit='nm') for a, b in ((1.5, 1.6), (2.5, 2.6)))
        s = spectrum(sc, [sc.num(450.0), sc.num(500.0)], NM)
        for k in ('Simple', 'MaxwellGarnett', 'Bruggeman'):
            out.append((k, sc.ok(k, lambda: sc.call('material.' + k, s, host, inc, sc.num(0.25)))))
        out.append(('mixture of mixtures', sc.ok('nested', lambda: sc.call('material.Simple', s, out[-1][1], out[-2][1], sc.num(0.5)))))
        m = material(sc, 'n', tabulated_nk=sc.arr([[sc.num(400.0), sc.num(1.5), sc.num(0.1)], [sc.num(500.0), sc.num(1.6), sc.num(0.1)], [sc.num(600.0), sc.num(1.7), sc.num(0.2)]], 'f'),
                     spectrum_type='wavelength', unit='nm')
        sc.ok('extrapolate', lambda: sc.meth(m, 'extrapolate', spectrum(sc, [sc.num(300.0), sc.num(700.0)], NM), spline_order=1))
        out.append(('extrapolated', m))
        m2 = material(sc, 'k', tabulated_nk=sc.arr([[sc.num(400.0), sc.num(1.5), sc.num(0.1)], [sc.num(600.0), sc.num(1.7), sc.num(0.2)]], 'f'), spectrum_type='wavelength', unit='nm')
        sc.ok('remove', lambda: sc.meth(m2, 'remove_absorption'))
        out.append(('without absorption', m2))
        return out

    def pairs(sc):
        ms = everything(sc)
        kinds = [sc.attr(m, 'data')['name'] for _, m in ms]
        metas = [sc.attr(m, 'meta_data') for _, m in ms]
        for i, (la, a) in enumerate(ms):
            for j in range(i, len(ms)):
                lb, b = ms[j]
                want = True if i == j else None
                if want is None:
                    v, _ = compare(dict(metas[i]), dict(metas[j]))
                    if v is False or kinds[i] != kinds[j]:
                        want = False
                cmp(sc, '%s / %s' % (la, lb), a, b, want)
    chk.scenario("all pairs", pairs, limit=150)

    def fields(sc):
        # two materials of the same making that differ in one field
        t = lambda: material(sc, 'nk', tabulated_nk=sc.arr([[sc.num(400.0), sc.num(1.5), sc.num(0.1)], [sc.num(600.0), sc.num(1.7), sc.num(0.2)]], 'f'), spectrum_type='wavelength', unit='nm')
        e = lambda: material(sc, 'eps', tabulated_eps=sc.arr([[sc.num(400.0), sc.num(1.5), sc.num(0.1)], [sc.num(600.0), sc.num(1.7), sc.num(0.2)]], 'f'), spectrum_type='wavelength', unit='nm')
        mk = {'nk': t, 'eps': e, 'fixed n': lambda: material(sc, fixed_n=sc.num(1.5)), 'fixed eps': lambda: material(sc, fixed_eps_r=sc.num(2.25)),
              'fixed nk': lambda: material(sc, fixed_nk=sc.sym('z', real=False)),
              'model': lambda: material(sc, model_kw={'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um', 'parameters': sc.arr(params(sc, 'Cauchy'), 'f'),
                                                      'valid_range': sc.arr([sc.num(0.3), sc.num(0.9)], 'f')}),
              'file': lambda: read(sc, put(sc, 'f.txt', '# NAME: x\n500.0\t1.5\t0.1\n700.0\t1.6\t0.2\n'), spectrum_type='wavelength', unit='nm'),
              'mixture': lambda: sc.ok('mix', lambda: sc.call('material.Simple', spectrum(sc, [sc.num(450.0), sc.num(500.0)], NM), t(), e(), sc.num(0.25))),
              'garnett': lambda: sc.ok('mix', lambda: sc.call('material.MaxwellGarnett', spectrum(sc, [sc.num(450.0), sc.num(500.0)], NM), t(), e(), sc.num(0.25)))}
        for lab, f in mk.items():
            a, b = f(), f()
            cmp(sc, '%s made twice' % lab, a, b)
            for fld in FIELDS:
                for va, vb in (('', 'x'), ('x', 'y'), ('x', 'X'), ('x', 'x '), ('x', ''), ('1', '2'), ('ü', 'u')):
                    a, b = f(), f()
                    full = {q: 'same' for q in FIELDS}
                    if (va, vb) == ('x', 'y'):
                        setmeta(sc, a, full)
                        setmeta(sc, b, full)
                    sc.attr(a, 'meta_data')[fld] = va
                    sc.attr(b, 'meta_data')[fld] = vb
                    cmp(sc, '%s with %s %r / %r' % (lab, fld, va, vb), a, b, False)
            a, b = f(), f()
            sc.attr(a, 'meta_data')['Specification'] = {'n_is_absolute': True}
            sc.attr(b, 'meta_data')['Specification'] = {'n_is_absolute': False}
            cmp(sc, '%s with another specification' % lab, a, b, False)
        # the kind of data differs, metadata do not
        for la in mk:
            for lb in mk:
                for meta in ({}, {q: 'same' for q in FIELDS}, {'Name': 'same'}):
                    a, b = mk[la](), mk[lb]()
                    for q in FIELDS:
                        sc.attr(a, 'meta_data')[q] = sc.attr(b, 'meta_data')[q] = meta.get(q, '')
                    if sc.attr(a, 'data')['name'] != sc.attr(b, 'data')['name']:
                        cmp(sc, '%s / %s of another kind, metadata %s' % (la, lb, sorted(meta)), a, b, False)
    chk.scenario("metadata and kind", fields, limit=150)

    def sharing(sc):
        """the parts of one material, all or some, are the parts of another"""
        base = {'fixed n': lambda: material(sc, fixed_n=sc.num(1.5)), 'fixed eps': lambda: material(sc, fixed_eps_r=sc.num(1.5)),
                'nk': lambda: material(sc, 'nk', tabulated_nk=sc.arr([[sc.num(400.0), sc.num(1.5), sc.num(0.1)], [sc.num(600.0), sc.num(1.7), sc.num(0.2)]], 'f'), spectrum_type='wavelength', unit='nm'),
                'eps': lambda: material(sc, 'eps', tabulated_eps=sc.arr([[sc.num(400.0), sc.num(1.5), sc.num(0.1)], [sc.num(600.0), sc.num(1.7), sc.num(0.2)]], 'f'), spectrum_type='wavelength', unit='nm')}
        for la in base:
            for lb in base:
                for keys in (('real',), ('imag',), ('real', 'imag')):
                    for fld in (None,) + FIELDS:
                        a, b = base[la](), base[lb]()
                        for k in keys:
                            sc.attr(b, 'data')[k] = sc.attr(a, 'data')[k]
                        differ = sc.attr(a, 'data')['name'] != sc.attr(b, 'data')['name']
                        if fld:
                            sc.attr(b, 'meta_data')[fld] = 'other'
                        cmp(sc, '%s / %s sharing %s%s' % (la, lb, '+'.join(keys), ', another ' + fld if fld else ''), a, b, False if differ or fld else None)
                a, b = base[la](), base[lb]()
                b.attrs['meta_data'] = sc.attr(a, 'meta_data')
                cmp(sc, '%s / %s sharing the metadata' % (la, lb), a, b, False if sc.attr(a, 'data')['name'] != sc.attr(b, 'data')['name'] else None)
    chk.scenario("shared parts", sharing, limit=90)

    def texts(sc):
        """long and similar texts"""
        for n in sorted({60, 300, 1100} | set(chk.sizes(6000))):
            for fld in FIELDS:
                t = 'abc d' * (n // 5 + 1)
                for lab, va, vb in (('last character', t + 'x', t + 'y'), ('first character', 'x' + t, 'y' + t), ('middle', t + 'x' + t, t + 'y' + t), ('length', t, t + 'x'),
                                    ('line', t + '\nx', t + '\ny'), ('case', t + 'x', t + 'X')):
                    a, b = material(sc, fixed_n=sc.num(1.5)), material(sc, fixed_n=sc.num(1.5))
                    sc.attr(a, 'meta_data')[fld], sc.attr(b, 'meta_data')[fld] = va, vb
                    cmp(sc, '%s of %d characters, other %s' % (fld, n, lab), a, b, False)
                    for q in FIELDS:
                        sc.attr(a, 'meta_data')[q] = sc.attr(b, 'meta_data')[q] = t
                    sc.attr(a, 'meta_data')[fld], sc.attr(b, 'meta_data')[fld] = va, vb
                    cmp(sc, 'texts of %d characters, %s with other %s' % (n, fld, lab), a, b, False)
    chk.scenario("long texts", texts, limit=90)

    def others(sc):
        for la, a in everything(sc):
            md = sc.attr(a, 'meta_data')
            objs = [None, 0, 1, True, False, '', 'x', sc.num(1.5), [], [a], (), {}, dict(md), {'name': 'nk'}, b'x', sc.pub('Material'), sc.pub('Spectrum'),
                    spectrum(sc, [sc.num(450.0)], NM), sc.call(sc.pub('Constant'), sc.num(1.0)), sc.call('io.Reader', '/x.txt')]
            # an object that looks like a material
            cls = AClass('Lookalike', [], {}, sc.mod('material'))
            o = AObj(cls)
            o.attrs['meta_data'] = md
            o.attrs['data'] = sc.attr(a, 'data')
            o.attrs['defaults'] = sc.attr(a, 'defaults')
            bare = AObj(AClass('Bare', [], {}, sc.mod('material')))
            for b in objs + [o, bare]:
                cmp(sc, '%s / %s' % (la, txt(b)[:40]), a, b, False)
    chk.scenario("other objects", others, limit=120)
