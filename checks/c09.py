"""C09 native units of models"""
from .kit import *
from .c06 import elems
from .c03 import cases

EXPLAIN = ("constant propagation of every declared quantity/unit (all aliases and letter cases) into every model constructor, "
           "and value numbering of evaluations requested in all nine units")


def check(chk):
    chk.rule('refuse', "every outcome of constructing a model in a unit other than its native one is ValueError")
    chk.rule('accept', "every spelling of the native unit constructs and evaluates to the same value numbers")
    chk.rule('independent', "the value number of the result is the same for requests in every quantity and unit")
    chk.rule('yields', "the declared output is n for the index models and eps for Drude, Drude-Lorentz and Tauc-Lorentz")
    for name, (ar, nat, out) in MODELS.items():
        def run_(sc, name=name, nat=nat, out=out):
            C = sc.pub('spectral_data.' + name)
            p = sc.arr(params(sc, name), 'f')
            for u in UNITS:
                x = source(sc, u, 2, 'r')
                for al in ALIASES[u[1]]:
                    for un in (al, al.upper(), al.capitalize()):
                        for q in (u[0], u[0].upper()):
                            f = lambda: sc.call(C, p, list(x), spectrum_type=q, unit=un)
                            if u == nat:
                                d = sc.ok('native %s/%s' % (q, un), f)
                                sc.eq('output', sc.ok('output', lambda: sc.attr(d, 'output')), out)
                            else:
                                sc.raises('declared %s/%s' % (q, un), f)
            # the default declaration is metres and therefore refused
            sc.raises('declared by default', lambda: sc.call(C, p, list(source(sc, M, 2, 'r'))))
            sc.raises('declared unit only', lambda: sc.call(C, p, list(source(sc, M, 2, 'r')), unit='nm'))
            g = points(sc, 'g', 3, nat)
            d = model(sc, name, (g[0], g[6]), p=params(sc, name))
            dal = sc.ok('alias', lambda: sc.call(C, p, [g[0], g[6]], spectrum_type=nat[0].upper(), unit=ALIASES[nat[1]][1].upper()))
            xs = [g[2], g[4], g[1]]
            base = elems(sc.ok('native', lambda: sc.meth(d, 'evaluate', spectrum(sc, xs, nat))))
            for u in UNITS:
                for dd, l in ((d, ''), (dal, ' (declared by alias)')):
                    for al in (u[1], ALIASES[u[1]][-1].upper()):
                        vals = inunit(sc, xs, nat, u)
                        s = sc.ok('spectrum', lambda: sc.call('Spectrum', sc.arr(vals, 'f'), u[0], al))
                        r = sc.ok('requested in %s%s' % (al, l), lambda: sc.meth(dd, 'evaluate', s))
                        same(sc, 'requested in %s/%s%s' % (u[0], al, l), r, base)
                    s = spectrum(sc, vals[:1], u, 'float')
                    r = sc.ok('float requested in %s' % u[1], lambda: sc.meth(dd, 'evaluate', s))
                    same(sc, 'float requested in %s/%s%s' % (u + (l,)), Arr.new([r]) if not isinstance(r, Arr) else
                         Arr.new(r.elems()), base[:1])
                # a spectrum converted in place beforehand
                s = spectrum(sc, xs, nat)
                sc.ok('in place', lambda: sc.meth(s, 'convert_to', u[0], u[1], in_place=True))
                r = sc.ok('converted in place', lambda: sc.meth(d, 'evaluate', s))
                same(sc, 'request converted in place to %s' % u[1], r, base)
            # through a material
            if out in ('n', 'eps'):
                for u in UNITS:
                    kw = {'name': name, 'spectrum_type': u[0], 'unit': u[1], 'valid_range': sc.arr(source(sc, u, 2, 'r'), 'f'),
                          'parameters': p}
                    f = lambda: sc.call('Material', model_kw=kw)
                    if u == nat:
                        sc.ok('material', f)
                    else:
                        sc.raises('material declared in %s' % u[1], f)
        chk.scenario("model %s" % name, run_, limit=60)


def same(sc, label, r, base):
    sc.eq(label, r if isinstance(r, Arr) else [r], list(base))
