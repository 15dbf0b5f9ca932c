"""C01 conversions obey the vacuum light relations and compose"""
from .kit import *

EXPLAIN = ("abstract interpretation of Spectrum for every ordered pair of (quantity, unit): the values of "
           "convert_to are compared, as value numbers over the symbolic input, with the vacuum light relations")


def check(chk):
    chk.rule('relation', "value number of convert_to(target) == value number of the light relation applied to the input")
    chk.rule('rounding', "every rounding applied to a value is finer than 2e-9 of a value near 1 um (1e-15 m, 1e-9 eV)")
    chk.rule('in-place', "after in-place conversion values, quantity, unit, further conversions and containment agree with the relation")
    for src in UNITS:
        def pairs(sc, src=src):
            S = sc.pub('Spectrum')
            for form in ('float', 'array'):
                x = source(sc, src, 2)
                vals = x[0] if form == 'float' else sc.arr(x, 'f')
                s = sc.ok('construct', lambda: sc.call(S, vals, src[0], src[1]))
                for tgt in UNITS:
                    sc.w.roundings.clear()
                    r = sc.ok('convert to %s/%s' % tgt, lambda: sc.meth(s, 'convert_to', tgt[0], tgt[1]))
                    want = [relation(sc, v, src, tgt) for v in x]
                    sc.eq('%s -> %s/%s' % (form, tgt[0], tgt[1]), r, want[0] if form == 'float' else want)
                    fine(sc, '%s rounding of %s/%s' % (form, tgt[0], tgt[1]))
        chk.scenario("from %s/%s" % src, pairs)
    # grids of many values
    for n in chk.sizes():
        def many(sc, n=n):
            for src in (M, EV, NM):
                x = longgrid(sc, n, src, 'l', True)[:n]
                s = sc.ok('construct', lambda: sc.call(sc.pub('Spectrum'), sc.arr(x, 'f'), src[0], src[1]))
                for tgt in UNITS:
                    sc.w.roundings.clear()
                    r = sc.ok('convert to %s/%s' % tgt, lambda: sc.meth(s, 'convert_to', tgt[0], tgt[1]))
                    sc.eq('%s -> %s' % (src[1], tgt[1]), r, [relation(sc, v, src, tgt) for v in x])
                    fine(sc, 'rounding %s -> %s' % (src[1], tgt[1]))
        chk.scenario("%d values" % n, many, limit=60)
    # chains and in-place conversions
    for src in UNITS:
        for mid in UNITS:
            def inplace(sc, src=src, mid=mid):
                S = sc.pub('Spectrum')
                x = source(sc, src, 2)
                s = sc.ok('construct', lambda: sc.call(S, sc.arr(x, 'f'), src[0], src[1]))
                sc.w.roundings.clear()
                r = sc.ok('in place', lambda: sc.meth(s, 'convert_to', mid[0], mid[1], in_place=True))
                want = [relation(sc, v, src, mid) for v in x]
                sc.eq('values', sc.ok('values', lambda: sc.attr(s, 'values')), want)
                sc.eq('quantity', sc.ok('q', lambda: sc.attr(s, 'spectrum_type')), mid[0])
                u = sc.ok('u', lambda: sc.attr(s, 'unit'))
                sc.eq('unit', u, mid[1])
                back = sc.ok('back', lambda: sc.meth(s, 'convert_to', src[0], src[1]))
                sc.eq('back', back, x)
                other = UNITS[(UNITS.index(src) + UNITS.index(mid) + 1) % len(UNITS)]
                o = sc.ok('onward', lambda: sc.meth(s, 'convert_to', other[0], other[1]))
                sc.eq('onward to %s/%s' % other, o, [relation(sc, v, src, other) for v in x])
                # rebuilding a spectrum from the converted values
                s2 = sc.ok('rebuild', lambda: sc.call(S, sc.attr(s, 'values'), sc.attr(s, 'spectrum_type'), sc.attr(s, 'unit')))
                b = sc.ok('rebuilt back', lambda: sc.meth(s2, 'convert_to', src[0], src[1]))
                sc.eq('rebuilt', b, x)
                # containment still describes the same spectrum
                c = sc.ok('contains', lambda: sc.meth(s, 'contains', s2))
                sc.eq('contains itself', c, True)
                sc.ok('in place back', lambda: sc.meth(s, 'convert_to', src[0], src[1], in_place=True))
                sc.eq('in place back', sc.attr(s, 'values'), x)
                fine(sc, 'rounding in chains')
            chk.scenario("in place %s/%s -> %s/%s" % (src + mid), inplace)


def fine(sc, label):
    bad = [r for r in sc.w.roundings if any(10.0 ** -r[0] > 1.9e-9 * abs(v) for v in r[1].vals() if v != 0)]
    sc.chk.ob(sc.name + ': ' + label, not bad, "" if not bad else "rounds to %d decimals at %s" % (bad[0][0], bad[0][2]),
              bad[0][2] if bad else None)
