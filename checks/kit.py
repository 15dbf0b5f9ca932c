"""entry contexts shared by the checks: symbolic tables, spectra, materials and their oracle"""
from fractions import Fraction
from absint.nf import NF
from absint import nf as NFM
from absint.values import *
from .base import *
from .spectra import *

UM, NM, M, EV = ('wavelength', 'um'), ('wavelength', 'nm'), ('wavelength', 'm'), ('energy', 'ev')

# class name -> (arity of the parameter vector, native unit, output)
MODELS = {'Sellmeier': (7, UM, 'n'), 'Sellmeier2': (7, UM, 'n'), 'Polynomial': (7, UM, 'n'),
          'RefractiveIndexInfo': (13, UM, 'n'), 'Cauchy': (7, UM, 'n'), 'Gases': (7, UM, 'n'),
          'Herzberger': (6, UM, 'n'), 'Retro': (4, UM, 'n'), 'Exotic': (6, UM, 'n'),
          'Drude': (2, EV, 'eps'), 'DrudeLorentz': (4, EV, 'eps'), 'TaucLorentz': (5, EV, 'eps'),
          'Fano': (3, EV, 'scattering_cross_setion')}


def params(sc, name, n=None, tag='p'):
    n = n or MODELS[name][0]
    return [sc.sym('%s_%s_%d' % (tag, name, i), np=True) for i in range(n)]


def points(sc, name, n, src, np=False):
    """2n+1 ordered symbols: odd positions are nodes, even ones lie between/outside"""
    return sc.w.grid(name, 2 * n + 1, SCALE[src[1]], np=np)


def column(sc, name, n, sign=None, scale=1.0):
    return [sc.sym('%s%d' % (name, i), scale=scale, sign=sign, np=True) for i in range(n)]


def table(sc, xs, *cols):
    return sc.arr([[x] + [c[i] for c in cols] for i, x in enumerate(xs)], 'f')


def lerp(sc, x, x0, x1, y0, y1):
    t = (x.nf - x0.nf) / (x1.nf - x0.nf)
    return Num(y0.nf + t * (y1.nf - y0.nf), 'f')


def cplx(sc, re, im):
    i = sc.w.space.i()
    return Num(re.nf + i * im.nf, 'c')


def nsq(v):
    return Num(v.nf * v.nf, v.kind)


def nsqrt(sc, v):
    return sc.it.unary('sqrt', v)


def form(sc, vals, kind):
    """the same values as float / list / tuple / array"""
    if kind == 'float':
        return vals[0]
    if kind == 'list':
        return list(vals)
    if kind == 'tuple':
        return tuple(vals)
    return sc.arr(vals, 'f')


def spectrum(sc, vals, unit, kind='array', label='spectrum'):
    return sc.ok(label, lambda: sc.call(sc.pub('Spectrum'), form(sc, vals, kind), unit[0], unit[1]))


def inunit(sc, vals, src, tgt):
    return [relation(sc, v, src, tgt) for v in vals]


def model(sc, name, rng, unit=None, p=None):
    unit = unit or MODELS[name][1]
    p = p or params(sc, name)
    return sc.ok('build ' + name, lambda: sc.call(sc.pub('spectral_data.' + name), sc.arr(p, 'f'), list(rng),
                                                 spectrum_type=unit[0], unit=unit[1]))


def material(sc, label='material', **kw):
    M_ = sc.pub('Material')
    return sc.ok(label, lambda: sc.call(M_, **kw))


def parts(sc, v):
    """real and imaginary part of an abstract complex number"""
    return Num(sc.it.nfre(v.nf), 'f'), Num(sc.it.nfim(v.nf), 'f')


def longgrid(sc, n, src, name='g', const=False):
    """2n+1 increasing values as points(): symbols, or constants when there are many"""
    if n <= 20 and not const:
        return points(sc, name, n, src)
    s = SCALE[src[1]]
    s = Fraction(s).limit_denominator(10 ** 6) if s < 1e6 else Fraction(int(s))
    d = next(k * 10 ** e for e in range(1, 9) for k in (2, 5, 10) if k * 10 ** e >= 2 * n)      # few decimals: conversions round
    return [Num(NF.num(s * (Fraction(1, 2) + Fraction(i, d))), 'f', False) for i in range(2 * n + 1)]


def longcolumn(sc, name, n, off=0):
    """symbols at the ends and here and there, distinct constants elsewhere"""
    if n <= 20:
        return column(sc, name, n)
    return [sc.sym('%s%d' % (name, i), np=True) if i < 3 or i > n - 4 or i % 97 == 50 else
            Num(NF.num(Fraction(1 + (i * 7919 + off) % 1009, 256)), 'f', True) for i in range(n)]
