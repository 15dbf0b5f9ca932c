"""C03 unit vocabulary"""
import unicodedata
from .kit import *

EXPLAIN = ("constant propagation of every documented quantity and unit spelling (aliases and letter cases) through "
           "construction, conversion target, range check and axis label; every mismatching or unknown name must raise ValueError")
LABEL = {'m': 'm', 'cm': 'cm', 'um': '\u03bcm', 'nm': 'nm', 'a': '\u00c5', 'hz': 'Hz', 'ev': 'eV', '1/s': '1/s', '1/cm': '1/cm'}


def cases(s):
    out = [s, s.upper(), s.capitalize(), s[:1] + s[1:].upper(),
           ''.join(c.upper() if i % 2 else c for i, c in enumerate(s))]
    return sorted(set(out))


def norm(lab):
    """compatibility characters (micro sign / mu, angstrom sign / A with ring) are the same symbol"""
    return unicodedata.normalize('NFKC', lab) if isinstance(lab, str) else lab


def check(chk):
    chk.rule('accepted', "every alias in every letter case constructs, converts, range-checks and labels the same unit")
    chk.rule('refused', "every unknown name and every unit of another quantity raises ValueError")
    for q, u in UNITS:
        def accepted(sc, q=q, u=u):
            S = sc.pub('Spectrum')
            x = source(sc, (q, u), 2)
            for qn in cases(q):
                for al in ALIASES[u]:
                    for un in cases(al):
                        if qn not in (q, q.upper()) and un not in (al, al.upper()):
                            continue
                        s = sc.ok('construct %s/%s' % (qn, un), lambda: sc.call(S, sc.arr(x, 'f'), qn, un))
                        r = sc.ok('to metres', lambda: sc.meth(s, 'convert_to', 'wavelength', 'm'))
                        sc.eq('%s/%s means %s' % (qn, un, u), r, [relation(sc, v, (q, u), M) for v in x])
                        sc.eq('%s/%s quantity' % (qn, un), sc.attr(s, 'spectrum_type'), q)
                        sc.eq('%s/%s unit' % (qn, un), sc.attr(s, 'unit'), u)
                        lab = sc.ok('label %s/%s' % (qn, un), lambda: sc.meth(s, 'get_type_unit_string'))
                        sc.eq('label of %s/%s' % (qn, un), norm(lab), norm("%s (%s)" % (q, LABEL[u])))
                        c = sc.ok('range check %s/%s' % (qn, un), lambda: sc.meth(s, 'contains', s))
                        sc.eq('%s/%s contains itself' % (qn, un), c, True)
                        # as conversion target, also in place
                        m = sc.ok('metres', lambda: sc.call(S, sc.arr(inunit(sc, x, (q, u), M), 'f')))
                        t = sc.ok('target %s/%s' % (qn, un), lambda: sc.meth(m, 'convert_to', qn, un))
                        sc.eq('target %s/%s' % (qn, un), t, x)
                        sc.ok('in-place target %s/%s' % (qn, un), lambda: sc.meth(m, 'convert_to', qn, un, in_place=True))
                        sc.eq('in-place quantity %s/%s' % (qn, un), sc.attr(m, 'spectrum_type'), q)
                        sc.eq('in-place unit %s/%s' % (qn, un), sc.attr(m, 'unit'), u)
                        lab = sc.ok('label after conversion', lambda: sc.meth(m, 'get_type_unit_string'))
                        sc.eq('label after conversion to %s/%s' % (qn, un), norm(lab), norm("%s (%s)" % (q, LABEL[u])))
                        c = sc.ok('contains after conversion', lambda: sc.meth(m, 'contains', s))
                        sc.eq('contains after conversion to %s/%s' % (qn, un), c, True)
        chk.scenario("names of %s/%s" % (q, u), accepted)

    def refused(sc):
        S = sc.pub('Spectrum')
        base = spectrum(sc, source(sc, M, 2), M)
        quantities = sorted({q for q, _ in UNITS})
        for bad in ('', 'length', 'wave', 'wavelengths', 'time', 'angular frequency', 'angular', 'm', 'wavelength '):
            for u in ('m', 'ev', 'hz'):
                sc.raises('construct quantity %r unit %s' % (bad, u), lambda: sc.call(S, sc.num(1.0), bad, u))
                for ip in (False, True):
                    sc.raises('target quantity %r unit %s %s' % (bad, u, ip),
                              lambda: sc.meth(base, 'convert_to', bad, u, in_place=ip))
        names = [(a, u) for u in ALIASES for a in ALIASES[u]]
        own = {q: {u for p, u in UNITS if p == q} for q in quantities}
        for q in quantities:
            for a, u in names:
                if u in own[q]:
                    continue
                sc.raises('construct %s in %s' % (q, a), lambda: sc.call(S, sc.num(1.0), q, a))
                sc.raises('target %s in %s' % (q, a), lambda: sc.meth(base, 'convert_to', q, a))
                sc.raises('in-place target %s in %s' % (q, a), lambda: sc.meth(base, 'convert_to', q, a, in_place=True))
            for bad in ('', 'mm', 'km', 'pm', 'thz', 'mev', 'j', '1/m', 'cm-1', 'nm ', 'e', 'meters', 'n', 'u', '1', '/', 'rad'):
                sc.raises('construct %s in %r' % (q, bad), lambda: sc.call(S, sc.num(1.0), q, bad))
                sc.raises('target %s in %r' % (q, bad), lambda: sc.meth(base, 'convert_to', q, bad))
        # a refused request leaves the spectrum as it was
        sc.eq('quantity unchanged', sc.attr(base, 'spectrum_type'), 'wavelength')
        sc.eq('unit unchanged', sc.attr(base, 'unit'), 'm')
    chk.scenario("refused names", refused)
