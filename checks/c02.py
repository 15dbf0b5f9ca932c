"""C02 conversion is elementwise"""
from .kit import *

EXPLAIN = ("abstract interpretation of Spectrum for every ordered pair of (quantity, unit) and every container of the "
           "values: each element of the result is compared, as a value number, with the relation applied to the element "
           "at the same position; zero, infinity and symbols of very small and very large magnitude included")


def check(chk):
    chk.rule('elementwise', "value number of result[i] == relation(values[i]) for float, list, tuple, int array, float array")
    chk.rule('special', "0 -> inf and inf -> 0 exactly for reciprocal relations; other values keep their value number")
    for src in UNITS:
        for tgt in UNITS:
            def forms(sc, src=src, tgt=tgt):
                sc.w.rounding_free = True      # the rounding rule of C01 speaks about roundings
                S = sc.pub('Spectrum')
                z, inf = sc.num(0.0), Num(None, 'f', False, 'inf')

                def conv(label, vals, cont):
                    s = sc.ok(label + ' construct', lambda: sc.call(S, cont, src[0], src[1]))
                    r = sc.ok(label + ' convert', lambda: sc.meth(s, 'convert_to', tgt[0], tgt[1]))
                    want = [relation(sc, v, src, tgt) for v in vals]
                    sc.eq(label, r, want if not isinstance(cont, Num) else want[0])
                    return s
                g = source(sc, src, 5)
                x = [g[2], g[0], g[4], g[1], g[1]]
                for n in (1, 2, 5):
                    conv('list of %d' % n, x[:n], list(x[:n]))
                    conv('tuple of %d' % n, x[:n], tuple(x[:n]))
                    conv('array of %d' % n, x[:n], sc.arr(x[:n], 'f'))
                conv('float', x[:1], x[0])
                conv('numpy float', x[:1], Num(x[0].nf, 'f', True))
                # special values at every position
                conv('zero', [z], z)
                conv('infinity', [inf], inf)
                for i in range(3):
                    for name, s in (('zero', z), ('infinity', inf)):
                        v = list(x[:3])
                        v[i] = s
                        conv('%s at %d' % (name, i), v, sc.arr(v, 'f'))
                conv('all special', [z, inf, z], [z, inf, z])
                # magnitudes
                for e in (-30, -12, 12, 30):
                    m = [sc.sym('mag%d_%d' % (e, i), scale=SCALE[src[1]] * 10.0 ** e) for i in range(2)]
                    conv('magnitude 1e%d scalar' % e, m[:1], m[0])
                    conv('magnitude 1e%d array' % e, m, sc.arr(m, 'f'))
                    c = [sc.num(2.5 * SCALE[src[1]] * 10.0 ** e), x[0]]
                    conv('constant of magnitude 1e%d' % e, c, sc.arr(c, 'f'))
                for e in (-200, -60, 60, 200):
                    c = sc.num(2.5 * SCALE[src[1]] * 10.0 ** e)
                    conv('scalar constant of magnitude 1e%d' % e, [c], c)
                    conv('list with a constant of magnitude 1e%d' % e, [x[1], c], [x[1], c])
                # integers
                ints = [sc.num(k) for k in (2, 7, 1, 300)]
                conv('integer array', ints, sc.arr(ints, 'i'))
                conv('integer list', ints, list(ints))
                for k in range(3):
                    mix = [sc.num(2.75), sc.num(5.5), sc.num(7.125)]
                    mix[k] = sc.num(4)
                    conv('list with an integer at %d' % k, mix, list(mix))
                    conv('tuple with an integer at %d' % k, mix, tuple(mix))
                    mix = [sc.num(4), sc.num(6), sc.num(9)]
                    mix[k] = x[0]
                    conv('integer list with a float at %d' % k, mix, list(mix))
                    conv('integer tuple with a float at %d' % k, mix, tuple(mix))
                iz = [sc.num(3), sc.num(0), sc.num(5)]
                conv('integer array with zero', iz, sc.arr(iz, 'i'))
                isym = [sc.sym('int%d' % k, kind='i', scale=4.0) for k in range(2)]
                conv('symbolic integers', isym, sc.arr(isym, 'i'))
            chk.scenario("%s/%s -> %s/%s" % (src + tgt), forms)
    for src, tgt in ((EV, NM), (NM, EV), (UM, NM), (('wavenumber', '1/cm'), ('frequency', 'hz'))):
        for n in sorted({40, 300} | set(chk.sizes()) | ({1200} if chk.thorough else set())):
            def big(sc, src=src, tgt=tgt, n=n):
                sc.w.rounding_free = True
                x = source(sc, src, n)
                for f in ('list', 'tuple'):
                    s = spectrum(sc, x, src, f)
                    r = sc.ok('convert', lambda: sc.meth(s, 'convert_to', tgt[0], tgt[1]))
                    sc.eq('%s of %d' % (f, n), r, [relation(sc, v, src, tgt) for v in x])
                s = spectrum(sc, x, src)
                r = sc.ok('convert', lambda: sc.meth(s, 'convert_to', tgt[0], tgt[1]))
                sc.eq('array of %d' % n, r, [relation(sc, v, src, tgt) for v in x])
                y = list(reversed(x))
                s = spectrum(sc, y, src)
                r = sc.ok('convert', lambda: sc.meth(s, 'convert_to', tgt[0], tgt[1]))
                sc.eq('descending array of %d' % n, r, [relation(sc, v, src, tgt) for v in y])
            chk.scenario("%d values %s -> %s" % (n, src[1], tgt[1]), big)
