"""C10 effective media"""
from .kit import *
from .c06 import elems
from .c08 import at

EXPLAIN = ("value numbering of the three mixing rules over symbolic complex permittivities, symbolic and boundary fractions, "
           "in every spectral unit of the sampling spectrum; order facts decide the refusal of fractions outside [0,1]")
MEDIA = ('Simple', 'MaxwellGarnett', 'Bruggeman')


def host(sc, g, u, tag, kind='eps', n=None):
    xs = g[1::2]
    n = len(xs)
    return material(sc, 'host', spectrum_type=u[0], unit=u[1],
                    **{'tabulated_' + kind: table(sc, xs, column(sc, tag + 'r', n), column(sc, tag + 'i', n))})


def mix(kind, eb, ei, f):
    one = NF.num(1)
    two = NF.num(2)
    if kind == 'Simple':
        return eb * (one - f) + ei * f
    return eb * (two * (one - f) * eb + (one + two * f) * ei) / ((two + f) * eb + (one - f) * ei)


def roots(eb, ei, f):
    import cmath
    p = 0.5 * (f * (eb - 2 * ei) + (1 - f) * (ei - 2 * eb))
    d = cmath.sqrt((0.5 * p) ** 2 + 0.5 * ei * eb)
    return -p / 2 + d, -p / 2 - d


def brugg(eb, ei, f):
    """expected root; both or none qualify -> '+'"""
    a, b = roots(eb, ei, f)
    if a.imag >= -1e-14 or b.imag < -1e-14:
        return a
    return b


def check(chk):
    chk.rule('rule', "value number of the tabulated permittivity at each sample == mixing rule of the constituents there")
    chk.rule('limits', "f=0 gives the host, f=1 the inclusion (simple and Maxwell-Garnett)")
    chk.rule('refuse', "fractions ordered below 0 or above 1 and vanishing Maxwell-Garnett denominators raise ValueError")
    for kind in MEDIA:
        for u in (NM, M, EV, ('frequency', 'hz')):
            def rule(sc, kind=kind, u=u):
                n = 4
                g = points(sc, 'g', n, u)
                xs = g[1::2]
                ma, mb = host(sc, g, u, 'A'), host(sc, g, u, 'B')
                mc = host(sc, g, u, 'C', 'nk')
                f = sc.sym('f', scale=0.4)
                sc.w.order.add(f.nf, '<', NF.num(1))
                for lab, m1, m2 in (('AB', ma, mb), ('AC', ma, mc), ('CA', mc, ma), ('AA', ma, ma)):
                    for fr, fl in ((f, 'f'), (sc.num(0.0), '0'), (sc.num(1.0), '1'), (sc.num(0.5), '0.5')):
                        for order in (1, -1):
                            s = spectrum(sc, xs[::order], u)
                            before = sc.snapshot(s)
                            med = sc.ok('build %s %s' % (lab, fl), lambda: sc.call('material.' + kind, s, m1, m2, fr))
                            if order == 1:
                                e1 = elems(sc.ok('e1', lambda: sc.meth(m1, 'get_permittivity', s)))
                                e2 = elems(sc.ok('e2', lambda: sc.meth(m2, 'get_permittivity', s)))
                            q = spectrum(sc, xs, u)
                            r = elems(sc.ok('evaluate %s %s' % (lab, fl), lambda: sc.meth(med, 'get_permittivity', q)))
                            for i in range(n):
                                a, b = scalarize(e1[i]).nf, scalarize(e2[i]).nf
                                t = '%s fraction %s order %d sample %d' % (lab, fl, order, i)
                                if kind != 'Bruggeman':
                                    sc.eq(t, r[i], Num(mix(kind, a, b, fr.nf), 'c'))
                                else:
                                    for k in range(NFM.K):
                                        z = at(r[i], k)
                                        w = brugg(a.vals()[k], b.vals()[k], fr.nf.vals()[k].real)
                                        sc.true(t + '/%d' % k, None if z is None else abs(z - w) < 1e-8 * (1 + abs(w)),
                                                "%s, expected %s" % (z, w))
                                if fl in '01' and kind != 'Bruggeman':
                                    sc.eq('limit ' + t, r[i], Num((a if fl == '0' else b), 'c'))
                            # other unit of the request, and n = sqrt(eps)
                            q2 = spectrum(sc, inunit(sc, xs, u, UM), UM)
                            r2 = sc.ok('in um', lambda: sc.meth(med, 'get_permittivity', q2))
                            sc.eq('%s fraction %s order %d requested in um' % (lab, fl, order), r2, r)
                            # outside the sampled range
                            for o in (g[0], g[-1]):
                                sc.raises('%s %s outside the sampled range' % (lab, fl),
                                          lambda: sc.meth(med, 'get_permittivity', spectrum(sc, [o], u)))
                # between samples
                s = spectrum(sc, xs, u)
                med = sc.ok('build', lambda: sc.call('material.' + kind, s, ma, mb, sc.num(0.25)))
                sc.ok('between samples', lambda: sc.meth(med, 'get_permittivity', spectrum(sc, [g[2]], u)))
                rg = sc.ok('range', lambda: sc.meth(med, 'get_maximum_valid_range'))
                sc.true('range reported', isinstance(rg, Arr) and rg.size == 2)
            chk.scenario("%s in %s" % (kind, u[1]), rule, limit=90)

        def fractions(sc, kind=kind):
            x = source(sc, NM, 2)
            s = spectrum(sc, x, NM)
            a, b = material(sc, fixed_eps=sc.sym('ea', real=False)), material(sc, fixed_eps=sc.sym('eb', real=False))
            neg = Num(-sc.sym('d', scale=0.3).nf, 'f')
            big = Num(sc.sym('d', scale=0.3).nf + NF.num(1), 'f')
            for l, f in (('negative', neg), ('above one', big), ('-0.01', sc.num(-0.01)), ('1.01', sc.num(1.01)), ('2', sc.num(2.0)),
                         ('-1', sc.num(-1.0)), ('1e-9 too large', sc.num(1.000000001)), ('50', sc.num(50))):
                sc.raises('fraction ' + l, lambda: sc.call('material.' + kind, s, a, b, f))
            for f in (0.0, 1.0, 0.3, 1e-6):
                sc.ok('fraction %g' % f, lambda: sc.call('material.' + kind, s, a, b, sc.num(f)))
            sc.true('fractions accepted', True)
        chk.scenario("%s fractions" % kind, fractions)

    # permittivities of very different size
    for kind in MEDIA:
        def sizes_(sc, kind=kind):
            x = source(sc, NM, 2)
            s = spectrum(sc, x, NM)
            Z = lambda z: Num(sc.num(z.real).nf + sc.w.space.i() * sc.num(z.imag).nf, 'c')
            vals = (1e-5 + 1e-6j, 0.01 + 0.5j, 2.25 + 0j, -3.5 + 2j, 700 + 30j, -4e4 + 9e4j, 3e6 + 1e3j, 1 + 0j)
            for ea in vals:
                for eb in vals:
                    a, b = material(sc, fixed_eps=Z(ea)), material(sc, fixed_eps=Z(eb))
                    for f in (0.125, 0.9375, 0.999999):
                        if kind == 'MaxwellGarnett' and abs((2 + f) * ea + (1 - f) * eb) < 2e-6:
                            continue
                        med = sc.ok('%s in %s' % (eb, ea), lambda: sc.call('material.' + kind, s, a, b, sc.num(f)))
                        r = elems(sc.ok('evaluate', lambda: sc.meth(med, 'get_permittivity', s)))
                        w = brugg(ea, eb, f) if kind == 'Bruggeman' else complex(mix(kind, Z(ea).nf, Z(eb).nf, sc.num(f).nf).vals()[0])
                        if kind == 'Bruggeman':
                            q = roots(ea, eb, f)
                            if min(abs(v.imag) for v in q) < 1e-9 * max(abs(v) for v in q):
                                continue
                        for i, v in enumerate(r):
                            z = at(v, 0)
                            sc.true('%s in %s, fraction %g [%d]' % (eb, ea, f, i), None if z is None else abs(z - w) <= 1e-6 * abs(w) + 1e-12,
                                    "%s, expected %s" % (z, w))
        chk.scenario("%s of small and large permittivities" % kind, sizes_, limit=90)

    def singular(sc):
        # (2+f) eb + (1-f) ei = 0 at one sample only, at any position
        f = 0.5
        eb, good = 2.0, 3.0
        bad = -(2 + f) * eb / (1 - f)
        for pos in range(3):
            for tiny in (0.0, 1e-9):
                col = [good] * 3
                col[pos] = bad + tiny
                x = source(sc, NM, 3)
                inc = material(sc, tabulated_eps=table(sc, x, [sc.num(v, True) for v in col], [sc.num(0.0, True)] * 3))
                h = material(sc, fixed_eps_r=sc.num(eb))
                s = spectrum(sc, x, NM)
                sc.raises('singular at %d (%g)' % (pos, tiny), lambda: sc.call('material.MaxwellGarnett', s, h, inc, sc.num(f)))
        x = source(sc, NM, 2)
        s = spectrum(sc, x, NM)
        h, i = material(sc, fixed_eps_r=sc.num(eb)), material(sc, fixed_eps_r=sc.num(bad))
        sc.raises('singular everywhere', lambda: sc.call('material.MaxwellGarnett', s, h, i, sc.num(f)))
        i = material(sc, fixed_eps=Num(sc.num(bad).nf + sc.w.space.i() * NF.num(1), 'c'))
        sc.ok('lossy denominator', lambda: sc.call('material.MaxwellGarnett', s, h, i, sc.num(f)))
        sc.true('lossy denominator accepted', True)
    chk.scenario("singular Maxwell-Garnett", singular)

    def branches(sc):
        # particular permittivities: dielectric, metal-like, lossy, gain
        vals = [(2.25, 0.0), (4.0, 0.0), (-10.0, 0.5), (-3.0, 0.0), (1.5, 2.0), (-2.0, 8.0), (3.0, -0.4), (2.0, -1.5)]
        x = source(sc, NM, 3)
        s = spectrum(sc, x, NM)
        q = spectrum(sc, x[1:2], NM)
        for a in vals:
            for b in vals:
                for f in (0.0, 0.1, 0.5, 0.9, 1.0):
                    mk = lambda v: material(sc, fixed_eps=Num(sc.num(v[0]).nf + sc.w.space.i() * sc.num(v[1]).nf, 'c'))
                    med = sc.ok('build', lambda: sc.call('material.Bruggeman', s, mk(a), mk(b), sc.num(f)))
                    r = elems(sc.ok('evaluate', lambda: sc.meth(med, 'get_permittivity', q)))[0]
                    z = at(r, 0)
                    p, m = roots(complex(*a), complex(*b), f)
                    label = 'Bruggeman %s in %s, f=%g' % (b, a, f)
                    if z is None:
                        sc.true(label, None, 'undecided')
                        continue
                    edge = min(abs(p.imag), abs(m.imag)) < 1e-9
                    near = lambda y: abs(z - y) < 1e-7 * (1 + abs(y))
                    if edge:
                        ok = near(p) or near(m)
                        # two real roots: the '+' one
                        if abs(p.imag) < 1e-12 and abs(m.imag) < 1e-12:
                            ok = near(p) or abs(p.imag) > 0 or abs(m.imag) > 0
                    elif p.imag > 0:
                        ok = near(p)
                    elif m.imag > 0:
                        ok = near(m)
                    else:
                        continue
                    sc.true(label, ok, "%s, expected %s or %s" % (z, p, m))
    chk.scenario("Bruggeman branches", branches, limit=120)
