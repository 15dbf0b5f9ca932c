"""C30 what is displayed is the data"""
from .kit import *
from .c06 import elems, zoo
from .iokit import read, put

EXPLAIN = ("abstract interpretation of the plot and print methods against a recording model of pyplot: every drawn line is "
           "compared (value numbering) with the evaluated data at the drawn positions, on the axes handed in")
LABELS = {'plot_nk_data': ('n', 'k'), 'plot_permittivity': ('eps_r', 'eps_i')}
GET = {'plot_nk_data': 'get_nk_data', 'plot_permittivity': 'get_permittivity'}


def drawn(sc, fn):
    """lines, axis labels drawn by fn; None when drawing depends on undecided facts"""
    n = len(sc.w.events)
    fn()
    lines, labels, legend, und = [], {}, [], False
    for kind, data, site, guards in sc.w.events[n:]:
        if kind not in ('artist', 'label', 'legend'):
            continue
        if guards:
            if any(c.opaque() for c in guards):
                und = True
                continue
            if not satisfiable(guards):
                continue
        if kind == 'artist':
            lines.append((data[0], data[1], site))
        elif kind == 'label':
            labels[data[1]] = (data[0], data[2])
        else:
            legend.append(data[0])
    return lines, labels, legend, und


def judge(sc, label, m, fn, unit, got, axes=None, want_x=None, single=False, span=None):
    lines, labels, legend, und = got
    if und:
        sc.true(label, None, "drawing depends on undecided facts")
        return
    names = [ln.kw.get('label') for _, ln, _ in lines]
    sc.eq(label + ' lines drawn', sorted(map(str, names)), sorted(LABELS[fn]))
    if sorted(map(str, names)) != sorted(LABELS[fn]):
        return
    if axes is not None:
        sc.true(label + ' drawn on the given axes', all(a is axes for a, _, _ in lines), "lines on other axes")
    else:
        sc.true(label + ' drawn on one set of axes', len({id(a) for a, _, _ in lines}) == 1)
    ax = lines[0][0]
    for k, t in (('x', None), ('y', None)):
        sc.true(label + ' %s label' % k, k in labels and labels[k][0] is ax, "no %s axis label on the axes drawn on" % k)
    sc.true(label + ' legend', any(a is ax for a in legend), "no legend")
    for _, ln, site in lines:
        part = LABELS[fn].index(ln.kw['label'])
        if single:
            x, ys = want_x, elems(ln.y)
            if ln.kind != 'hline' and ln.x is not None:
                sc.eq(label + ' single value x', elems(ln.x), want_x)
        else:
            sc.true(label + ' drawn as a curve', ln.kind == 'plot' and ln.x is not None, "no spectral values on the x axis", site)
            if ln.kind != 'plot' or ln.x is None:
                return
            x, ys = elems(ln.x), elems(ln.y)
        sc.true(label + ' %s size' % ln.kw['label'], len(x) == len(ys), "%d positions, %d values" % (len(x), len(ys)))
        if len(x) != len(ys):
            return
        if want_x is not None:
            sc.eq(label + ' %s positions' % ln.kw['label'], x, want_x)
        if span is not None:
            sc.eq(label + ' %s range' % ln.kw['label'], sorted([x[0], x[-1]], key=lambda v: v.nf.vals()[0].real
                                                              if isinstance(v, Num) and not v.special else 0.0), span)
        idx = [i for i in range(len(x)) if len(x) < 40 or i < 4 or i > len(x) - 5 or i % 197 == 0]
        if span is not None:
            idx = idx[1:-1]
        s = spectrum(sc, [x[i] for i in idx], unit)
        r = elems(sc.ok(label + ' evaluation', lambda: sc.meth(m, GET[fn], s)))
        for i, v in zip(idx, r):
            v = scalarize(v)
            if not isinstance(v, Num):
                sc.true(label + ' %s value' % ln.kw['label'], None, 'gated')
                continue
            sc.eq(label + ' %s value at position %d of %d' % (ln.kw['label'], i, len(x)), ys[i], parts(sc, v)[part])
    yl = labels['y'][1]
    if isinstance(yl, str):
        sc.true(label + ' y label', all(n in yl for n in LABELS[fn]), "y axis labelled %r" % yl)
    s = spectrum(sc, [sc.num(1.0)], unit)
    sc.eq(label + ' x label', labels['x'][1], sc.ok('axis text', lambda: sc.meth(s, 'get_type_unit_string')))


def check(chk):
    chk.rule('curves', "two lines, labelled by the part they show; y == real/imaginary part of the evaluation at the plotted x")
    chk.rule('axes', "x in the requested unit (the material's own by default), named on the axis; all artists on the given axes")
    chk.rule('text', "print_reference/print_comment print the ASCII characters of the text, in order, and never raise")

    for fn in LABELS:
        for u in UNITS:
            def given(sc, fn=fn, u=u):
                ms = zoo(sc, u)
                if not chk.thorough:
                    keep = ('tabulated_nk', 'fixed nk', 'tabulated_eps', 'fixed eps') if u != NM else \
                        ('tabulated_nk', 'fixed nk', 'tabulated_eps', 'model Cauchy', 'model Drude', 'fixed n', 'fixed negative eps_r')
                    ms = [x for x in ms if x[0] in keep]
                for label, m, g, mu in ms:
                    g = inunit(sc, g, mu, mu)
                    for asu in (mu, u) if chk.thorough else ((mu, NM) if mu != NM else (NM, EV)):
                        for kind, vals in (('array', [g[2], g[1], g[3]]), ('list', [g[1], g[2]]), ('list', [g[3], g[1], g[3], g[2]]), ('tuple', [g[3], g[2], g[2], g[1]]), ('tuple', [g[2]]), ('float', [g[2]]), ('array', [g[3]])):
                            x = inunit(sc, vals, mu, asu)
                            if asu != mu:
                                if len(x) > 3:
                                    continue
                                x = x[:1]
                            arg = form(sc, x, kind)
                            axes = sc.ok('axes', lambda: sc.meth(sc.w.import_module('matplotlib.pyplot', sc.it), 'axes'))
                            other = sc.ok('axes', lambda: sc.meth(sc.w.import_module('matplotlib.pyplot', sc.it), 'axes'))
                            before = sc.snapshot(m, arg)
                            lab = '%s %s %s of %d as %s' % (fn, label, kind, len(x), asu[1])
                            got = drawn(sc, lambda: sc.ok(lab, lambda: sc.meth(m, fn, values=arg, spectrum_type=asu[0], unit=asu[1], axes=axes)))
                            sc.unchanged(lab + ' leaves its arguments alone', before, m, arg)
                            judge(sc, lab, m, fn, asu, got, axes, x, single=len(x) == 1)
            chk.scenario("%s of given values in %s" % (fn, u[1]), given, limit=90)

            def own(sc, fn=fn, u=u):
                """defaults: the material's own unit, its whole valid range"""
                g = points(sc, 'g', 2, u)
                a, b = column(sc, 'a', 2), column(sc, 'b', 2)
                m = material(sc, tabulated_nk=table(sc, [g[1], g[3]], a, b), spectrum_type=u[0], unit=u[1])
                if chk.thorough or fn == 'plot_nk_data' or u in (UM, EV):
                    got = drawn(sc, lambda: sc.ok('default', lambda: sc.meth(m, fn)))
                    judge(sc, 'default', m, fn, u, got, span=[g[1], g[3]])
                got = drawn(sc, lambda: sc.ok('values only', lambda: sc.meth(m, fn, values=[g[1], g[2], g[3]])))
                judge(sc, 'values only', m, fn, u, got, want_x=[g[1], g[2], g[3]])
                t = EV if u != EV else UM
                if not chk.thorough and u not in ((UM, EV) if fn == 'plot_nk_data' else (NM,)):
                    return
                r = inunit(sc, [g[1], g[3]], u, t)
                if factor(sc, u[1])[1] != factor(sc, t[1])[1]:
                    r = r[::-1]
                got = drawn(sc, lambda: sc.ok('whole range in ' + t[1], lambda: sc.meth(m, fn, spectrum_type=t[0].upper(), unit=ALIASES[t[1]][-1])))
                judge(sc, 'whole range in ' + t[1], m, fn, t, got, span=r)
                got = drawn(sc, lambda: sc.ok('unit only', lambda: sc.meth(m, fn, unit=ALIASES[u[1]][-1])))
                judge(sc, 'unit only', m, fn, u, got, span=[g[1], g[3]])
            chk.scenario("%s of a material in %s" % (fn, u[1]), own, limit=90)

        for n in chk.sizes(4000, 3):
            def long_(sc, fn=fn, n=n):
                g = longgrid(sc, n, NM)
                x = g[1:-1:2]
                m = material(sc, tabulated_nk=table(sc, [g[0], g[n], g[-1]], column(sc, 'a', 3), column(sc, 'b', 3)), spectrum_type='wavelength', unit='nm')
                for t in (NM, EV):
                    v = inunit(sc, x, NM, t)
                    got = drawn(sc, lambda: sc.ok('%d values' % n, lambda: sc.meth(m, fn, values=form(sc, v, 'array'), spectrum_type=t[0], unit=t[1])))
                    judge(sc, '%d values in %s' % (n, t[1]), m, fn, t, got, want_x=v)
            chk.scenario("%s of %d values" % (fn, n), long_, limit=90)

        def digits(sc, fn=fn):
            # all digits: no conversion for display may decide whether the data can be shown
            sc.w.round_exact = True
            for u in (UM, NM, EV):
                g = sc.w.grid('g' + u[1], 3, SCALE[u[1]], np=False)
                for k, n in (('tabulated_n', 1), ('tabulated_nk', 2)):
                    m = material(sc, k, spectrum_type=u[0], unit=u[1], **{k: table(sc, g, *[column(sc, 'c%d' % i, 3) for i in range(n)])})
                    for t in (UM, NM, EV, ('frequency', 'hz')):
                        if not chk.thorough and (n == 1 or (u, t) not in ((UM, EV), (EV, NM), (NM, UM))):
                            continue
                        got = drawn(sc, lambda: sc.ok('%s in %s shown in %s' % (k, u[1], t[1]), lambda: sc.meth(m, fn, spectrum_type=t[0], unit=t[1])))
                        sc.true('%s in %s shown in %s' % (k, u[1], t[1]), None if got[3] else len(got[0]) == 2, "%d lines" % len(got[0]))
        chk.scenario("%s of data with all digits" % fn, digits, limit=90)

        def constants(sc, fn=fn):
            for kw in (dict(fixed_n=sc.num(1.5)), dict(fixed_eps=sc.sym('e', real=False))):
                for u in (NM, EV):
                    m = material(sc, spectrum_type=u[0], unit=u[1], **kw)
                    lab = 'constant %s in %s' % (list(kw)[0], u[1])
                    got = drawn(sc, lambda: sc.ok(lab, lambda: sc.meth(m, fn)))
                    judge(sc, lab, m, fn, u, got)
        chk.scenario("%s of constants" % fn, constants, limit=60)

    def effective(sc):
        s = spectrum(sc, sc.w.grid('g', 3, SCALE['nm'], np=False), NM)
        a, b = material(sc, fixed_eps=sc.sym('ea', real=False)), material(sc, fixed_eps=sc.sym('eb', real=False))
        for kind in ('Simple', 'MaxwellGarnett'):
            m = sc.ok(kind, lambda: sc.call('material.' + kind, s, a, b, sc.num(0.25)))
            for fn in LABELS:
                got = drawn(sc, lambda: sc.ok(kind + ' ' + fn, lambda: sc.meth(m, fn)))
                judge(sc, kind + ' ' + fn, m, fn, M, got)
    chk.scenario("effective media", effective, limit=60)

    TEXTS = ['plain text', '', 'A. M\u00fcller, Sch\u00f6n 2019', '\u4e2d\u6587', 'a\u00a0b', 'tab\tand\nnewline', '50 % {braces} \\ back',
             '\u03b5 \u2192 \u221e', 'emoji \U0001f600!', "quote ' and \"", 'Physik \u00b5m \u00b0C']

    def prints(sc):
        m = material(sc, fixed_n=sc.num(1.5))
        for meth, key, others in [(a, b, o) for a, b in (('print_reference', 'Reference'), ('print_comment', 'Comment')) for o in (False, True)]:
            md = sc.attr(m, 'meta_data')
            for k in list(md):
                if k != key and isinstance(md[k], str):
                    sc.it.setitem(md, k, 'another text ' + k if others else '')
            for t in TEXTS:
                sc.it.setitem(sc.attr(m, 'meta_data'), key, t)
                before = sc.snapshot(m)
                n = len(sc.w.events)
                sc.ok('%s of %r' % (meth, t), lambda: sc.meth(m, meth))
                out = ''.join(d for k, d, _, g in sc.w.events[n:] if k == 'print' and isinstance(d, str))
                sc.eq('%s of %r' % (meth, t), out.rstrip('\n'), ''.join(c for c in t if ord(c) < 128).rstrip('\n'))
                sc.unchanged('%s leaves the material alone' % meth, before, m)
    def scalars(sc):
        """YAML files whose reference or comment is empty or no text"""
        for t, want in (('', None), ('~', None), ('2015', '2015'), ('1.5', '1.5'), ('"2015"', '2015'), ('no', None), ('[a, b]', None), ('plain', 'plain')):
            doc = 'REFERENCES: %s\nCOMMENTS: %s\nDATA:\n  - type: tabulated n\n    data: |\n        400 1.5\n        500 1.6\n' % (t, t)
            m = read(sc, put(sc, 's.yml', doc))
            for meth in ('print_reference', 'print_comment'):
                n = len(sc.w.events)
                sc.ok('%s of the YAML value %s' % (meth, t), lambda: sc.meth(m, meth))
                if want is not None:
                    out = ''.join(d for k, d, _, g in sc.w.events[n:] if k == 'print' and isinstance(d, str))
                    sc.eq('%s of the YAML value %s' % (meth, t), out.rstrip('\n'), want)
    chk.scenario("printed values of files", scalars, limit=60)
    for loc in ('utf-8', 'ascii', 'cp1252'):
        chk.scenario("printed text, locale %s" % loc, prints, limit=60, locale=loc)
