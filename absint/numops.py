"""transfer functions of arithmetic on abstract numbers and arrays"""
import math
import struct
from fractions import Fraction
from . import nf as NFM
from .nf import NF
from .values import *

NFM.EVAL['mul'] = lambda a, b: a * b
NFM.EVAL['add'] = lambda a, b: a + b
NFM.EVAL['floor'] = lambda a: math.floor(a.real)
NFM.EVAL['ceil'] = lambda a: math.ceil(a.real)
NFM.EVAL['trunc'] = lambda a: complex(int(a.real)) + 1e-4
NFM.EVAL['lossy'] = lambda spec, a: a * (1 + 1e-3)
NFM.EVAL['arcsin'] = lambda a: math.asin(a.real)
NFM.EVAL['arccos'] = lambda a: math.acos(a.real)
NFM.EVAL['sinh'] = lambda a: math.sinh(a.real)
NFM.EVAL['cosh'] = lambda a: math.cosh(a.real)
NFM.EVAL['tanh'] = lambda a: math.tanh(a.real)
NFM.EVAL['geom'] = lambda lo, hi, k, n: lo * (hi / lo) ** (k / (n - 1))

BIG = 300
_SCALAR = (Num, int, bool, NBool)


def is_num(x):
    return isinstance(x, _SCALAR)


class NumOps:
    """mixin for the interpreter: self.w.space, self.throw, self.event"""

    # ------------------------------------------------------------ scalars
    def tonum(self, x):
        if isinstance(x, Num):
            return x
        if isinstance(x, NBool):
            return Num(NF.num(int(x.v)), 'i', True)
        if isinstance(x, (bool, int)):
            return Num(NF.num(int(x)), 'i', False)
        raise Gap("not a number: %r" % (x,))

    def lift(self, f, *args):
        """pure elementwise lifting over gated values"""
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                d = self.decide(a.cond)
                if d is not None:
                    return self.lift(f, *(args[:i] + ((a.a if d else a.b),) + args[i + 1:]))
                x = self.lift(f, *(args[:i] + (a.a,) + args[i + 1:]))
                y = self.lift(f, *(args[:i] + (a.b,) + args[i + 1:]))
                return self.mergeval(a.cond, x, y)
        return f(*args)

    def has_abs(self, *args):
        return any(isinstance(a, Unknown) for a in args)

    def sgn(self, n):
        """sign of a Num: '+','-','0' or None"""
        if n.special:
            return {'inf': '+', '-inf': '-'}.get(n.special)
        s = NFM.sign(n.nf)
        if s in ('+', '-', '0'):
            return s
        q = self.w.order.query(n.nf, NFM.ZERO)
        if q == {'>'}:
            return '+'
        if q == {'<'}:
            return '-'
        if q == {'='}:
            return '0'
        return None

    def _special(self, op, a, b):
        """arithmetic with inf / nan"""
        kind = max(a.kind, b.kind, 'f', key=KORD.index)
        np_ = a.np or b.np

        def mk(s):
            if s in ('inf', '-inf', 'nan'):
                return Num(None, kind, np_, s)
            return Num(NF.num(0) if s == 'zero' else NF.num(1), kind, np_)
        if a.special == 'nan' or b.special == 'nan':
            return mk('nan')
        if kind == 'c':
            return mk('nan')
        if op == '-':
            return self._special('+', a, self.neg(b))
        if op == '+':
            if a.special and b.special:
                return mk(a.special if a.special == b.special else 'nan')
            return mk(a.special or b.special)
        if op == '*':
            sa, sb = self.sgn(a), self.sgn(b)
            if sa == '0' or sb == '0':
                return mk('nan')
            if sa is None or sb is None:
                raise Gap("inf times number of unknown sign")
            return mk('inf' if sa == sb else '-inf')
        if op == '/':
            if a.special and b.special:
                return mk('nan')
            if b.special:
                return mk('zero')
            sb = self.sgn(b)
            if sb == '0':
                if not np_:
                    self.throw(ZeroDivisionError, "float division by zero")
                return mk(a.special)
            if sb is None:
                raise Gap("inf divided by number of unknown sign")
            return mk('inf' if (a.special == 'inf') == (sb == '+') else '-inf')
        if op == '**':
            sb = self.sgn(b)
            if a.special == 'inf':
                return mk({'+': 'inf', '-': 'zero', '0': 'one'}.get(sb) or 'nan')
            if a.special == '-inf' and b.is_const() and not b.special:
                v = b.nf.const_value()
                if v == 0:
                    return mk('one')
                if v < 0:
                    return mk('zero')
                return mk('-inf' if v.denominator == 1 and v % 2 else 'inf')
            if b.special and a.is_const():
                v = abs(a.nf.const_value())
                if v == 1:
                    return mk('one')
                up = (v > 1) == (b.special == 'inf')
                return mk('inf' if up else 'zero')
        raise Gap("operation %s on infinity" % op)

    def neg(self, a):
        if isinstance(a, Num) and a.special:
            return Num(None, a.kind, a.np, {'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[a.special])
        return Num(-a.nf, a.kind, a.np)

    def nfmul(self, x, y):
        if len(x.t) * len(y.t) > BIG and len(x.t) > 1 and len(y.t) > 1:
            return self.w.space.fn('mul', (x, y))
        return x * y

    def nfinv(self, x):
        return x.inv()

    def nfpow(self, a, b):
        sp = self.w.space
        if b.is_const():
            v = b.const_value()
            if v.denominator == 1:
                n = int(v)
                if abs(n) <= 16 and (len(a.t) <= 1 or len(a.t) ** abs(n) <= BIG):
                    return a.ipow(n)
            if v == Fraction(1, 2):
                return self.nfsqrt(a)
            if v == Fraction(-1, 2):
                return self.nfsqrt(a).inv()
        if a.is_const() and a.const_value() == 1:
            return NFM.ONE
        s = '+' if NFM.sign(a) == '+' and b.is_real() else None
        return sp.fn('pow', (a, b), sign=s)

    def nfsqrt(self, a):
        if not a.t:
            return a
        if a.is_const():
            v = a.const_value()
            if v > 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return NF.num(Fraction(n, d))
        s = NFM.sign(a)
        if len(a.t) == 1 and s == '+':
            (m, c), = a.t.items()
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator and \
                    all(e % 2 == 0 and x.sign == '+' for x, e in m):
                return NF({tuple((x, e // 2) for x, e in m): Fraction(n, d)})
        # the square root of a possibly negative real number is a complex formal value
        return self.w.space.fn('sqrt', (a,), sign='+' if s == '+' else ('0+' if s == '0+' else None))

    def arith(self, op, a, b):
        """python scalar arithmetic"""
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.lift(lambda x, y: self.arith(op, x, y), a, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown('arith')
        ai = isinstance(a, int)
        bi = isinstance(b, int)
        if ai and bi:
            return self.int_arith(op, int(a), int(b))
        x, y = self.tonum(a), self.tonum(b)
        np_ = x.np or y.np
        kind = max(x.kind, y.kind, key=KORD.index)
        if op in ('//', '%'):
            if x.is_const() and y.is_const() and not x.special and not y.special:
                p, q = x.nf.const_value(), y.nf.const_value()
                if q == 0:
                    if not np_:
                        self.throw(ZeroDivisionError, "division by zero")
                    raise Gap("numpy floor division by zero")
                r = p // q if op == '//' else p % q
                return Num(NF.num(r), kind, np_)
            if x.special or y.special:
                raise Gap("%s with infinity" % op)
            return Num(self.w.space.fn('floor' if op == '//' else 'mod',
                                       ((x.nf / y.nf),) if op == '//' else (x.nf, y.nf)), kind, np_)
        if x.special or y.special:
            return self._special(op, x, y)
        if op == '+':
            return Num(x.nf + y.nf, kind, np_)
        if op == '-':
            return Num(x.nf - y.nf, kind, np_)
        if op == '*':
            return Num(self.nfmul(x.nf, y.nf), kind, np_)
        if op == '/':
            kind = max(kind, 'f', key=KORD.index)
            if not y.nf.t:
                if not np_:
                    self.throw(ZeroDivisionError, "float division by zero")
                self.event('zerodiv', None)
                s = self.sgn(x)
                if kind == 'c' or s == '0':
                    return Num(None, kind, True, 'nan')
                if s is None:
                    raise Gap("unknown sign divided by zero")
                return Num(None, kind, True, 'inf' if s == '+' else '-inf')
            return Num(self.nfmul(x.nf, self.nfinv(y.nf)), kind, np_)
        if op == '**':
            if not x.nf.t:
                s = self.sgn(y)
                if s == '-':
                    if not np_:
                        self.throw(ZeroDivisionError, "0.0 cannot be raised to a negative power")
                    return Num(None, max(kind, 'f', key=KORD.index), True, 'inf')
                if s == '0':
                    return Num(NFM.ONE, kind, np_)
                if s == '+':
                    return Num(NFM.ZERO, kind, np_)
                raise Gap("0 ** unknown")
            if kind == 'i' and np_ and self.sgn(y) == '-':
                self.throw(ValueError, "Integers to negative integer powers are not allowed.")
            if kind == 'i' and not np_ and self.sgn(y) == '-':
                kind = 'f'
            if kind == 'f' and not np_ and self.sgn(x) == '-' and not (
                    y.is_const() and y.nf.const_value().denominator == 1):
                kind = 'c'
            return Num(self.nfpow(x.nf, y.nf), kind, np_)
        raise Gap("operator %s" % op)

    def int_arith(self, op, a, b):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if b == 0:
                self.throw(ZeroDivisionError, "division by zero")
            return Num(NF.num(Fraction(a, b)), 'f')
        if op in ('//', '%'):
            if b == 0:
                self.throw(ZeroDivisionError, "integer division or modulo by zero")
            return a // b if op == '//' else a % b
        if op == '**':
            if b >= 0:
                return a ** b
            if a == 0:
                self.throw(ZeroDivisionError, "0.0 cannot be raised to a negative power")
            return Num(NF.num(Fraction(a) ** b), 'f')
        if op == '<<':
            return a << b
        if op == '>>':
            return a >> b
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        raise Gap("operator %s" % op)

    # ------------------------------------------------------------ comparisons of scalars
    def cmpnum(self, op, a, b):
        """bool, or Phi(cond, True, False)"""
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.lift(lambda x, y: self.cmpnum(op, x, y), a, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown('compare')
        x, y = self.tonum(a), self.tonum(b)
        if 'nan' in (x.special, y.special):
            return op == '!='
        if op not in ('==', '!=') and 'c' in (x.kind, y.kind) and not (x.np or y.np):
            self.throw(TypeError, "'%s' not supported between instances of 'complex'" % op)
        if x.special or y.special:
            v = {'inf': 2, '-inf': -2, None: 0}
            p, q = v[x.special], v[y.special]
            if x.special and y.special or True:
                return {'<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q,
                        '==': p == q, '!=': p != q}[op]
        if op in ('==', '!='):
            if not x.nf.is_real() or not y.nf.is_real():
                e = NFM.equal(x.nf, y.nf)
                return e if op == '==' else not e
        if x.nf.t == y.nf.t:
            return op in ('<=', '>=', '==')
        poss = self.w.order.query(x.nf, y.nf)
        sat = {'<': {'<'}, '<=': {'<', '='}, '>': {'>'}, '>=': {'>', '='},
               '==': {'='}, '!=': {'<', '>'}}[op]
        if poss <= sat:
            return True
        if not (poss & sat):
            return False
        if NFM.equal(x.nf, y.nf):
            return op in ('<=', '>=', '==')
        c = Cond('cmp', op, x.nf, y.nf)
        d = self.decide(c)
        if d is not None:
            return d
        return Phi(c, True, False)

    # ------------------------------------------------------------ unary functions
    def unary(self, name, a):
        if isinstance(a, Phi):
            return self.lift(lambda x: self.unary(name, x), a)
        if isinstance(a, Unknown):
            return a
        if name == 'not_':
            t = self.truth(a)
            if isinstance(t, bool):
                return not t
            return Phi(t, False, True)
        x = self.tonum(a)
        sp = self.w.space
        fk = max(x.kind, 'f', key=KORD.index)
        if name == 'neg':
            return self.neg(x)
        if name == 'pos':
            return x
        if name == 'abs':
            k = 'f' if x.kind == 'c' else x.kind
            if x.special:
                return Num(None, k, x.np, 'nan' if x.special == 'nan' else 'inf')
            s = self.sgn(x) if x.nf.is_real() else None
            if s in ('+', '0'):
                return Num(x.nf, k, x.np)
            if s == '-':
                return Num(-x.nf, k, x.np)
            if x.nf.is_const():
                return Num(NF.num(abs(x.nf.const_value())), k, x.np)
            p = NFM.sign(x.nf)
            if p == '0+':
                return Num(x.nf, k, x.np)
            # |c * m| with real positive factors
            arg = x.nf
            if x.nf.is_real():
                alt = -arg
                if min(alt.key()) < min(arg.key()) or (
                        arg.t and next(iter(sorted(arg.key())))[1] < 0):
                    arg = alt
            return Num(sp.fn('abs', (arg,), real=True, sign='0+'), k, x.np)
        if name in ('real', 'imag'):
            k = 'f' if x.kind == 'c' else x.kind
            if x.special:
                if x.kind == 'c' or name == 'real':
                    return Num(None, k, x.np, x.special)
                return Num(NFM.ZERO, k, x.np)
            return Num(self.nfre(x.nf) if name == 'real' else self.nfim(x.nf), k, x.np)
        if name == 'conj':
            if x.special:
                return x
            return Num(self.nfconj(x.nf), x.kind, x.np)
        if name == 'sqrt':
            if x.special:
                return Num(None, fk, x.np, 'inf' if x.special == 'inf' else 'nan')
            return Num(self.nfsqrt(x.nf), fk, x.np)
        if name == 'square':
            return self.arith('*', x, x)
        if name == 'reciprocal':
            if x.kind == 'i':
                return self.unary('trunc', self.arith('/', Num(NFM.ONE, 'f', True), x))
            return self.arith('/', Num(NFM.ONE, 'f', x.np), x)
        if name in ('isnan', 'isinf', 'isfinite', 'isposinf', 'isneginf'):
            return {'isnan': x.special == 'nan', 'isinf': x.special in ('inf', '-inf'),
                    'isfinite': x.special is None, 'isposinf': x.special == 'inf',
                    'isneginf': x.special == '-inf'}[name]
        if name == 'sign':
            s = self.sgn(x)
            if s is None:
                raise Gap("sign of unknown number")
            return Num(NF.num({'+': 1, '-': -1, '0': 0}[s]), x.kind, x.np)
        if x.special:
            if x.special == 'nan':
                return Num(None, fk, x.np, 'nan')
            if name == 'exp':
                return Num(None, fk, x.np, 'inf') if x.special == 'inf' else Num(NFM.ZERO, fk, x.np)
            if name in ('log', 'log10', 'log2', 'log1p') and x.special == 'inf':
                return x
            if name in ('floor', 'ceil', 'trunc'):
                return x
            raise Gap("%s of infinity" % name)
        if name in ('floor', 'ceil', 'trunc', 'rint'):
            if x.nf.is_const():
                v = x.nf.const_value()
                r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                     'rint': round}[name](v)
                return Num(NF.num(r), x.kind, x.np)
            return Num(sp.fn(name, (x.nf,), real=True), x.kind, x.np)
        if name == 'log10':
            return Num(self.nfmul(sp.fn('log', (x.nf,)), sp.fn('log', (NF.num(10),)).inv()), fk, x.np)
        if name == 'log2':
            return Num(self.nfmul(sp.fn('log', (x.nf,)), sp.fn('log', (NF.num(2),)).inv()), fk, x.np)
        if name == 'log1p':
            return Num(sp.fn('log', (x.nf + NFM.ONE,)), fk, x.np)
        if name in ('log',) and not x.nf.t:
            if not x.np:
                self.throw(ValueError, "math domain error")
            return Num(None, fk, x.np, '-inf')
        if name in ('exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos',
                    'sinh', 'cosh', 'tanh'):
            if x.nf.is_const() and not x.nf.t and name in ('sin', 'tan', 'arctan', 'arcsin', 'sinh', 'tanh'):
                return Num(NFM.ZERO, fk, x.np)
            if x.nf.is_const() and not x.nf.t and name in ('exp', 'cos', 'cosh'):
                return Num(NFM.ONE, fk, x.np)
            return Num(sp.fn(name, (x.nf,), sign='+' if name == 'exp' and x.nf.is_real() else None), fk, x.np)
        raise Gap("function %s" % name)

    def nfsplit(self, n):
        """(real part, imaginary part) when all atoms except i are real, else None"""
        re, im = {}, {}
        for m, c in n.t.items():
            has_i = False
            out = []
            for a, e in m:
                if a.kind == 'I':
                    has_i = True
                elif not a.real:
                    return None
                else:
                    out.append((a, e))
            (im if has_i else re)[tuple(out)] = c
        return NF(re), NF(im)

    def nfre(self, n):
        s = self.nfsplit(n)
        if s:
            return s[0]
        return self.w.space.fn('re', (n,), real=True)

    def nfim(self, n):
        s = self.nfsplit(n)
        if s:
            return s[1]
        return self.w.space.fn('im', (n,), real=True)

    def nfconj(self, n):
        s = self.nfsplit(n)
        if s:
            return s[0] - s[1] * self.w.space.i()
        return self.w.space.fn('conj', (n,), real=False)

    def binfunc(self, name, a, b):
        """two-argument elementwise functions"""
        if name in ('+', '-', '*', '/', '**', '//', '%'):
            return self.arith(name, a, b)
        if name in ('<', '<=', '>', '>=', '==', '!='):
            return self.cmpnum(name, a, b)
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.lift(lambda x, y: self.binfunc(name, x, y), a, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown(name)
        if name in ('&', '|', '^'):
            ta, tb = self.truth(a), self.truth(b)
            if isinstance(a, (bool, NBool)) and isinstance(b, (bool, NBool)):
                return {'&': ta and tb, '|': ta or tb, '^': ta != tb}[name]
            return self.int_arith(name, int(a), int(b))
        x, y = self.tonum(a), self.tonum(b)
        if name in ('minimum', 'maximum'):
            if x.special == 'nan' or y.special == 'nan':
                return Num(None, 'f', True, 'nan')
            r = self.cmpnum('<' if name == 'minimum' else '>', y, x)
            if isinstance(r, bool):
                v = y if r else x
            elif isinstance(r, Phi):
                r2 = self.cmpnum('<=' if name == 'minimum' else '>=', y, x)
                if r2 is True:
                    v = y
                elif r2 is False:
                    v = x
                else:
                    return Num(self.w.space.fn('min' if name == 'minimum' else 'max',
                                               tuple(sorted((x.nf, y.nf), key=lambda n: n.key())),
                                               real=True,
                                               sign='+' if self.sgn(x) == '+' and self.sgn(y) == '+' else None),
                               max(x.kind, y.kind, key=KORD.index), True)
            else:
                return r
            return Num(v.nf, max(x.kind, y.kind, key=KORD.index), True, v.special)
        if name == 'arctan2':
            if x.special or y.special:
                raise Gap("arctan2 of infinity")
            return Num(self.w.space.fn('arctan2', (x.nf, y.nf), real=True), 'f', x.np or y.np)
        if name == 'hypot':
            return self.unary('sqrt', self.arith('+', self.arith('*', x, x), self.arith('*', y, y)))
        raise Gap("function %s" % name)

    # ------------------------------------------------------------ arrays
    def box(self, x):
        """scalar -> numpy scalar"""
        if isinstance(x, Phi):
            return Phi(x.cond, self.box(x.a), self.box(x.b))
        if isinstance(x, bool):
            return NBool(x)
        if isinstance(x, int):
            return Num(NF.num(x), 'i', True)
        if isinstance(x, Num):
            return x if x.np else Num(x.nf, x.kind, True, x.special)
        return x

    def cast(self, x, dtype):
        """element conversion to dtype"""
        if isinstance(x, Phi):
            return self.lift(lambda y: self.cast(y, dtype), x)
        if dtype == 'O' or isinstance(x, Unknown):
            return x
        if dtype == 'U':
            return x if isinstance(x, str) else self.to_str(x)
        if dtype == 'b':
            if isinstance(x, NBool):
                return x.v
            if isinstance(x, bool):
                return x
            t = self.truth(x)
            return t if isinstance(t, bool) else Phi(t, True, False)
        if isinstance(x, str):
            x = self.to_float(x)
        if x is None:
            if dtype == 'f':
                return Num(None, 'f', True, 'nan')
            self.throw(TypeError, "int() argument must be a number, not NoneType")
        if not is_num(x):
            if isinstance(x, Arr) and x.size == 1:
                x = x.elems()[0]
            elif isinstance(x, (list, tuple, Arr)):
                self.throw(ValueError, "setting an array element with a sequence.")
            elif isinstance(x, ModelObj):
                raise Gap("%s as an array element" % self.typename(x))
            else:
                self.throw(TypeError, "float() argument must be a string or a real number")
        n = self.tonum(x)
        if hasattr(dtype, 'fmt') and not n.special:
            n = self.narrow(n, dtype.fmt)
            dtype = str(dtype)
        if dtype == 'i':
            if n.special:
                self.throw(OverflowError, "cannot convert float infinity to integer")
            if n.kind in ('i', 'b'):
                return Num(n.nf, 'i', True)
            r = self.unary('trunc', n)
            return Num(r.nf, 'i', True)
        if dtype == 'f' and n.kind == 'c':
            if n.special:
                return Num(None, 'f', True, n.special)
            return Num(self.nfre(n.nf), 'f', True)
        return Num(n.nf, dtype, True, n.special)

    def narrow(self, n, fmt):
        """rounding to a shorter floating point format"""
        def one(v):
            try:
                return struct.unpack(fmt, struct.pack(fmt, v))[0]
            except OverflowError:
                return math.inf if v > 0 else -math.inf
        if n.nf.is_const():
            v = float(n.nf.const_value())
            w = one(v)
            if w == v:
                return n
            if math.isinf(w):
                return Num(None, n.kind, n.np, 'inf' if w > 0 else '-inf')
            return Num(NF.num(Fraction(w)), n.kind, n.np)
        vals = [complex(one(v.real), one(v.imag)) for v in n.nf.vals()]
        if any(math.isinf(abs(v)) for v in vals):
            raise Gap("overflow in a narrow number type")
        if any(v == 0 for v in vals):
            return Num(NFM.ZERO, n.kind, n.np)
        return Num(self.w.space.fn('narrow', (n.nf, fmt), real=n.nf.is_real(), vals=vals), n.kind, n.np)

    def scalar_out(self, x):
        return self.box(x)

    def asarr(self, x):
        """numpy.asarray"""
        if isinstance(x, Arr):
            return x
        return self.mkarr(x)

    def mkarr(self, x, dtype=None, ndmin=0):
        """numpy.array"""
        if isinstance(x, Phi):
            return self.dist(x, lambda y: self.mkarr(y, dtype, ndmin))
        if isinstance(x, Unknown):
            raise Gap("array of unknown")
        shape, flat = self.flatten(x)
        dt = dtype or dtype_of(flat)
        if isinstance(x, Arr) and dtype is None:
            dt = x.dtype
        elems = [self.cast(e, dt) for e in flat]
        while len(shape) < ndmin:
            shape = (1,) + shape
        return Arr.new(elems, shape, dt)

    def flatten(self, x):
        if isinstance(x, Arr):
            return x.shape, x.elems()
        if hasattr(x, 'as_array'):
            a = x.as_array(self)
            return a.shape, a.elems()
        if isinstance(x, (list, tuple)):
            if not x:
                return (0,), []
            parts = [self.flatten(e) for e in x]
            s0 = parts[0][0]
            if any(p[0] != s0 for p in parts):
                self.throw(ValueError, "setting an array element with a sequence. The requested "
                           "array has an inhomogeneous shape")
            flat = []
            for p in parts:
                flat.extend(p[1])
            return (len(x),) + s0, flat
        if isinstance(x, range):
            return (len(x),), list(x)
        if isinstance(x, (ASet, dict)):
            return (), [x]
        return (), [x]

    def bshape(self, s1, s2):
        if s1 == s2:
            return s1
        n = max(len(s1), len(s2))
        a = (1,) * (n - len(s1)) + s1
        b = (1,) * (n - len(s2)) + s2
        out = []
        for p, q in zip(a, b):
            if p == q or q == 1:
                out.append(p)
            elif p == 1:
                out.append(q)
            else:
                self.throw(ValueError, "operands could not be broadcast together with shapes "
                           "%s %s" % (s1, s2))
        return tuple(out)

    def bcast(self, a, shape):
        """elements of array a broadcast to shape"""
        e = a.elems()
        if a.shape == shape:
            return e
        if len(e) == 1:
            n = 1
            for d in shape:
                n *= d
            return e * n
        s = (1,) * (len(shape) - len(a.shape)) + a.shape
        strides = []
        st = 1
        for d in reversed(s):
            strides.append(st)
            st *= d
        strides.reverse()
        out = []

        def rec(dim, off):
            if dim == len(shape):
                out.append(e[off])
                return
            for i in range(shape[dim]):
                rec(dim + 1, off + (strides[dim] * i if s[dim] != 1 else 0))
        rec(0, 0)
        return out

    RESBOOL = {'<', '<=', '>', '>=', '==', '!='}

    def arr_binary(self, op, a, b, out=None):
        """numpy elementwise binary operation; a or b may be scalars"""
        scal = not isinstance(a, Arr) and not isinstance(b, Arr)
        x = a if isinstance(a, Arr) else self.mkarr(a)
        y = b if isinstance(b, Arr) else self.mkarr(b)
        if x.dtype in 'UO' or y.dtype in 'UO':
            if op in ('==', '!='):
                shape = self.bshape(x.shape, y.shape)
                es = [self.eq(p, q) for p, q in zip(self.bcast(x, shape), self.bcast(y, shape))]
                if op == '!=':
                    es = [self.unary('not_', e) for e in es]
                return self.arr_out(es, shape, 'b')
            if x.dtype == 'U' or y.dtype == 'U':
                self.throw(TypeError, "ufunc did not contain a loop with signature matching types")
        shape = self.bshape(x.shape, y.shape)
        dt = self.result_dtype(op, x.dtype, y.dtype)
        # python scalars are weak: they do not upcast kind beyond their own kind
        xe, ye = self.bcast(x, shape), self.bcast(y, shape)
        f = self.binfunc
        xe = [self.box(e) for e in xe] if not (x.dtype == 'b' and op in '&|^') else xe
        res = []
        same = None
        for p, q in zip(xe, ye):
            if same is not None and same[0] is p and same[1] is q:
                res.append(same[2])
                continue
            r = f(op, p, q)
            same = (p, q, r)
            res.append(r)
        if dt != 'b':
            res = [self.cast(r, dt) if not isinstance(r, Unknown) else r for r in res]
        return self.arr_out(res, shape, dt)

    def result_dtype(self, op, d1, d2):
        if op in self.RESBOOL:
            return 'b'
        if op in ('&', '|', '^') and d1 == d2 == 'b':
            return 'b'
        if d1 == 'O' or d2 == 'O':
            return 'O'
        d = d1 if KORD.index(d1) >= KORD.index(d2) else d2
        if op in ('/', 'arctan2', 'hypot') and d in 'bi':
            return 'f'
        if op in ('+', '*', '-', '**', '//', '%') and d == 'b':
            return 'i'
        return d

    def arr_out(self, elems, shape, dt):
        if shape == ():
            e = elems[0]
            return self.box(e)
        return Arr.new(elems, shape, dt)

    def arr_unary(self, name, a, dtype=None):
        if not isinstance(a, Arr):
            a = self.mkarr(a)
        dt = dtype
        if dt is None:
            if name in ('isnan', 'isinf', 'isfinite', 'not_', 'isposinf', 'isneginf'):
                dt = 'b'
            elif name in ('abs', 'real', 'imag'):
                dt = 'f' if a.dtype == 'c' else a.dtype
            elif name in ('neg', 'pos', 'conj', 'square', 'sign', 'reciprocal'):
                dt = a.dtype
            elif name in ('floor', 'ceil', 'trunc', 'rint'):
                dt = a.dtype
            else:
                dt = a.dtype if a.dtype in 'fc' else 'f'
        es = []
        prev = None
        for e in a.elems():
            if prev is not None and prev[0] is e:
                es.append(prev[1])
                continue
            r = self.unary(name, self.box(e))
            if dt != 'b' and not isinstance(r, Unknown):
                r = self.cast(r, dt)
            prev = (e, r)
            es.append(r)
        return self.arr_out(es, a.shape, dt)

    # ------------------------------------------------------------ indexing
    def norm_index(self, i, n):
        if isinstance(i, Num):
            if i.kind not in 'bi' or not i.is_const():
                if i.kind in 'bi':
                    raise Gap("symbolic index")
                self.throw(IndexError, "only integers, slices are valid indices")
            i = int(i.const())
        if i < -n or i >= n:
            self.throw(IndexError, "index %d is out of bounds for axis with size %d" % (i, n))
        return i + n if i < 0 else i

    def slice_range(self, s, n):
        def g(v):
            if v is None:
                return None
            if isinstance(v, Num):
                if v.kind != 'i' or not v.is_const():
                    self.throw(TypeError, "slice indices must be integers")
                return int(v.const())
            if not isinstance(v, int):
                self.throw(TypeError, "slice indices must be integers or None")
            return v
        try:
            return range(*slice(g(s.start), g(s.stop), g(s.step)).indices(n))
        except ValueError:
            self.throw(ValueError, "slice step cannot be zero")

    def arr_index(self, a, key):
        """(flat positions in a.idx order, result shape, is_view, is_scalar)"""
        if not isinstance(key, tuple):
            key = (key,)
        # boolean masks and fancy
        nd = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, (Arr, list)):
                ka = k if isinstance(k, Arr) else self.mkarr(k)
                nd += ka.ndim if ka.dtype == 'b' else 1
            else:
                nd += 1
        if any(k is Ellipsis for k in key):
            i = next(i for i, k in enumerate(key) if k is Ellipsis)
            key = key[:i] + (slice(None),) * (a.ndim - nd) + key[i + 1:]
        else:
            if nd > a.ndim:
                self.throw(IndexError, "too many indices for array: array is %d-dimensional, but %d "
                           "were indexed" % (a.ndim, nd))
            key = key + (slice(None),) * (a.ndim - nd)
        view = True
        axes = []       # list of ('pick', positions) per source axis ; shape contributions
        dim = 0
        shape = []
        fancy = []
        for k in key:
            if isinstance(k, Phi):
                raise Gap("gated index")
            if k is None:
                shape.append(1)
                axes.append(None)
                continue
            if isinstance(k, NBool):
                k = k.v
            if isinstance(k, bool):
                if a.ndim == 0:
                    return ([0] if k else []), ((1,) if k else (0,)), False, False
                raise Gap("scalar bool index")
            if isinstance(k, (list, Arr)):
                ka = k if isinstance(k, Arr) else self.mkarr(k)
                if ka.size == 0 and not isinstance(k, Arr):
                    ka = Arr.new([], (0,), 'i')
                view = False
                if ka.dtype == 'b':
                    es = ka.elems()
                    if any(not isinstance(e, (bool, NBool)) for e in es):
                        raise Gap("mask with undecided elements")
                    if ka.shape != a.shape[dim:dim + ka.ndim]:
                        self.throw(IndexError, "boolean index did not match indexed array")
                    if ka.ndim == 0:
                        return ([0] if es[0] else []), ((1,) if es[0] else (0,)), False, False
                    if ka.ndim == 1:
                        pos = [i for i, e in enumerate(es) if e]
                        axes.append(pos)
                        fancy.append((len(axes) - 1, (len(pos),)))
                        shape.append(len(pos))
                        dim += 1
                    elif len(key) == 1 or ka.ndim == a.ndim:
                        pos = [i for i, e in enumerate(es) if e]
                        return pos, (len(pos),), False, False
                    else:
                        raise Gap("multi-dim mask")
                else:
                    if ka.dtype != 'i' and ka.size:
                        self.throw(IndexError, "arrays used as indices must be of integer (or boolean) type")
                    if ka.ndim == 0:
                        axes.append([self.norm_index(ka.elems()[0], a.shape[dim])])
                        dim += 1
                        continue
                    pos = [self.norm_index(e, a.shape[dim]) for e in ka.elems()]
                    axes.append(pos)
                    if ka.ndim != 1:
                        if len(key) == 1 and a.ndim == 1:
                            return pos, ka.shape, False, False
                        raise Gap("multi-dim fancy index")
                    fancy.append((len(axes) - 1, (len(pos),)))
                    shape.append(len(pos))
                    dim += 1
            elif isinstance(k, slice):
                pos = list(self.slice_range(k, a.shape[dim]))
                axes.append(pos)
                shape.append(len(pos))
                dim += 1
            elif isinstance(k, (int, Num)):
                axes.append([self.norm_index(k, a.shape[dim])])
                dim += 1
            elif isinstance(k, Unknown):
                raise Gap("unknown index")
            else:
                self.throw(IndexError, "only integers, slices (`:`), ellipsis (`...`), "
                           "numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        if len(fancy) > 1:
            # zip semantics for all-fancy 2-index
            if len(fancy) == len(axes) == a.ndim:
                n = fancy[0][1][0]
                if any(f[1][0] != n for f in fancy):
                    raise Gap("fancy broadcast")
                pos = []
                for j in range(n):
                    off = 0
                    for d in range(a.ndim):
                        off = off * a.shape[d] + axes[d][j]
                    pos.append(off)
                return pos, (n,), False, False
            raise Gap("several fancy indices")
        strides = []
        st = 1
        for d in reversed(a.shape):
            strides.append(st)
            st *= d
        strides.reverse()
        real_axes = [x for x in axes if x is not None]
        pos = [0]
        for d, picks in enumerate(real_axes):
            s = strides[d]
            pos = [p + s * i for p in pos for i in picks]
        scalar = not shape and view
        return pos, tuple(shape), view, scalar

    def undecided_mask(self, a, key):
        """the boolean mask when key is one mask with undecided elements"""
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, list):
            if not any(isinstance(x, Phi) for x in key):
                return None
            key = self.mkarr(key)
        if isinstance(key, Arr) and key.dtype == 'b' and \
                any(isinstance(e, (Phi, Unknown)) for e in key.elems()):
            if any(isinstance(e, Unknown) for e in key.elems()):
                raise Gap("unknown mask")
            if key.shape == a.shape:
                return key
            raise Gap("mask with undecided elements and different shape")
        return None

    def arr_get(self, a, key):
        m = self.undecided_mask(a, key)
        if m is not None:
            from .m_numpy import MaskSel
            return MaskSel(a.copy(), m)
        pos, shape, view, scalar = self.arr_index(a, key)
        if scalar:
            return self.box(a.buf.data[a.idx[pos[0]]])
        if view:
            return Arr(a.buf, [a.idx[p] for p in pos], shape, a.dtype)
        d = a.buf.data
        return Arr.new([d[a.idx[p]] for p in pos], shape, a.dtype)

    def arr_set(self, a, key, value):
        m = self.undecided_mask(a, key)
        from .m_numpy import MaskSel, same_mask
        if m is None and isinstance(value, MaskSel):
            raise Gap("store of masked selection")
        if m is not None:
            if isinstance(value, MaskSel):
                if not same_mask(m, value.mask):
                    raise Gap("different undecided masks")
                vals = value.arr.elems()
            elif isinstance(value, Arr) and value.size == 1 or is_num(value) or isinstance(value, (NBool, Phi)):
                v = value.elems()[0] if isinstance(value, Arr) else value
                vals = [v] * a.size
            else:
                raise Gap("store through undecided mask")
            es = a.elems()
            new = []
            for c, v, o in zip(m.elems(), vals, es):
                v = self.cast(v, a.dtype)
                t = self.truth(c)
                new.append(v if t is True else o if t is False else self.mergeval(t, v, o))
            self.write(a.buf)
            for i, e in zip(a.idx, new):
                a.buf.data[i] = e
            return
        pos, shape, view, scalar = self.arr_index(a, key)
        self.arr_store(a, [a.idx[p] for p in pos], shape, value)

    def arr_store(self, a, flat, shape, value):
        if isinstance(value, Phi):
            v = value
            self.branch(v.cond, lambda: self.arr_store(a, flat, shape, v.a),
                        lambda: self.arr_store(a, flat, shape, v.b))
            return
        if isinstance(value, Unknown):
            raise Gap("store of unknown into array")
        if not isinstance(value, Arr):
            if isinstance(value, Num) and value.kind == 'c' and a.dtype in 'fi' and not value.np:
                self.throw(TypeError, "float() argument must be a string or a real number, not 'complex'")
            v = self.mkarr(value)
        else:
            v = value
        if v.dtype == 'c' and a.dtype in 'fi':
            self.event('complexcast', None)
        bs = shape
        vs = v.shape
        while len(vs) > len(bs) and vs[0] == 1:
            vs = vs[1:]
        if vs != v.shape:
            v = Arr(v.buf, v.idx, vs, v.dtype)
        r = self.bshape(bs, v.shape)
        if r != bs:
            self.throw(ValueError, "could not broadcast input array from shape %s into shape %s"
                       % (v.shape, bs))
        es = [self.cast(e, a.dtype) for e in self.bcast(v, bs)]
        if flat:
            self.write(a.buf)
        for i, e in zip(flat, es):
            a.buf.data[i] = e
