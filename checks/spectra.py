"""oracle for spectral quantities (independent of the analysed code)"""
from fractions import Fraction
from absint.nf import NF
from absint.values import *
from absint.m_scipy import CONST

UNITS = [('wavelength', 'm'), ('wavelength', 'cm'), ('wavelength', 'um'), ('wavelength', 'nm'),
         ('wavelength', 'a'), ('frequency', 'hz'), ('energy', 'ev'), ('angularfrequency', '1/s'),
         ('wavenumber', '1/cm')]
METRE = {'m': Fraction(1), 'cm': Fraction(1, 100), 'um': Fraction(1, 10**6), 'nm': Fraction(1, 10**9),
         'a': Fraction(1, 10**10)}
C, H, E = (Fraction(CONST[k]) for k in ('c', 'h', 'e'))
ALIASES = {'m': ['m', 'meter', 'metre'], 'cm': ['cm', 'centimeter', 'centimetre'],
           'um': ['um', 'micrometer', 'micrometre'], 'nm': ['nm', 'nanometer', 'nanometre'],
           'a': ['a', 'angstrom'], 'hz': ['hz', 'hertz'], 'ev': ['ev', 'electronvolt'],
           '1/s': ['1/s', 'rad/s'], '1/cm': ['1/cm']}
# magnitude of the quantity for a wavelength near 1 um
SCALE = {'m': 1e-6, 'cm': 1e-4, 'um': 1.0, 'nm': 1e3, 'a': 1e4, 'hz': 3e14, 'ev': 1.24, '1/s': 1.9e15,
         '1/cm': 6.3e4}


def pi(sc):
    return sc.w.space.const('pi', 3.141592653589793)


def factor(sc, unit):
    """lambda = k*x (wavelengths) or k/x"""
    if unit in METRE:
        return NF.num(METRE[unit]), True
    if unit == 'hz':
        return NF.num(C), False
    if unit == 'ev':
        return NF.num(H * C / E), False
    if unit == '1/s':
        return NF.num(2 * C) * pi(sc), False
    if unit == '1/cm':
        return NF.num(Fraction(2, 100)) * pi(sc), False
    raise Gap(unit)


def lam(sc, x, src):
    """normal form of the wavelength in metres"""
    k, direct = factor(sc, src[1])
    return k * x if direct else k / x


def relation(sc, v, src, tgt):
    """expected number"""
    if src == tgt:
        return v
    k0, d0 = factor(sc, src[1])
    k1, d1 = factor(sc, tgt[1])
    if v.special == 'inf' or (v.special is None and not v.nf.t):
        zero = v.special is None
        if d0 != d1:
            zero = not zero
        return fnum(0.0) if zero else Num(None, 'f', False, 'inf')
    if v.special:
        return v
    l = lam(sc, v.nf, src)
    return Num(l / k1 if d1 else k1 / l, 'f')


def source(sc, src, n, name='x'):
    return sc.w.grid(name + src[1], n, SCALE[src[1]], np=False)
