"""Numeric abstract domain.

A number is a Laurent polynomial with rational coefficients over interned *atoms*.
Atoms are opaque symbols (inputs, table cells, model parameters, physical constants, the
imaginary unit) and applications of functions to numbers (sqrt, log, inverse of a sum,
uninterpreted library routines ...).  This is the Herbrand / symbolic-constant domain used
for value numbering.  Two numbers are equal when their normal forms are identical or when
they agree under random interpretation of the symbols (Gulwani & Necula, "Global value
numbering using random interpretation", POPL 2004): every symbol has a few fixed random
sample values and a term is valued bottom-up.  Nothing of the analysed program is executed.

Order facts (a finite partial order over normal forms) decide comparisons.
"""
import cmath
import math
import random
import time
from fractions import Fraction

K = 3           # number of random interpretations
TOL = 1e-8


DEADLINE = [None]


class OutOfTime(Exception):
    pass


def check_deadline():
    d = DEADLINE[0]
    if d is not None and time.monotonic() > d:
        raise OutOfTime()


class Space:
    """interning tables of one analysis run"""

    def __init__(self, seed=1):
        self.seed = seed
        self.atoms = []
        self.by_key = {}
        self.fn_index = {}
        self.I = self._new('I', ('I',), vals=[1j] * K, real=False)
        self.consts = {}
        self.cmp_memo = {}

    def _new(self, kind, key, vals=None, real=True, sign=None, rank=None,
             fname=None, args=None, label=None):
        a = Atom(self, len(self.atoms), kind, key, vals, real, sign, rank,
                 fname, args, label)
        self.atoms.append(a)
        self.by_key[key] = a
        return a

    def sym(self, name, scale=1.0, sign='+', real=True, rank=None, value=None, vals=None):
        """named opaque symbol"""
        key = ('sym', name)
        if key in self.by_key:
            return NF.atom(self.by_key[key])
        rng = random.Random("%s/%s" % (self.seed, name))
        if vals is not None:
            vals = [complex(v) for v in vals]
        elif value is not None:
            vals = [complex(value)] * K
        else:
            vals = []
            for _ in range(K):
                v = rng.uniform(0.61, 1.67)
                if not real:
                    v = complex(v, rng.uniform(0.31, 1.1))
                elif sign is None and rng.random() < 0.5:
                    v = -v
                vals.append(complex(v) * scale)
        return NF.atom(self._new('sym', key, vals, real, sign, rank, label=name))

    def const(self, name, value):
        """known physical/mathematical constant"""
        key = ('const', name)
        if key not in self.by_key:
            self._new('const', key, [complex(value)] * K, True, '+', label=name)
        return NF.atom(self.by_key[key])

    def i(self):
        return NF.atom(self.I)

    def fn(self, fname, args, real=None, sign=None, uninterpreted=False, rank=None, vals=None):
        """application atom; args: NF or hashable constants (or nested tuples)"""
        skey = ('fn', fname, tuple(_akey(a) for a in args))
        if skey in self.by_key:
            return NF.atom(self.by_key[skey])
        shape = (fname, tuple(_ashape(a) for a in args), tuple(_aquant(a) for a in args))
        for other in self.fn_index.get(shape, ()):
            if all(_aeq(x, y) for x, y in zip(args, other.args)):
                self.by_key[skey] = other
                return NF.atom(other)
        if vals is None and not uninterpreted and fname in EVAL:
            vals = []
            f = EVAL[fname]
            cols = [a.vals() if isinstance(a, NF) else [a] * K for a in args]
            for k in range(K):
                try:
                    vals.append(complex(f(*[c[k] for c in cols])))
                except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                    vals.append(complex('nan'))
        if vals is None or any(v != v for v in vals):
            rng = random.Random("%s/%s/%d" % (self.seed, fname, len(self.atoms)))
            vals = [complex(rng.uniform(0.61, 1.67)) for _ in range(K)]
            if real is None:
                real = True
        if real is None:
            real = all(a.is_real() for a in args if isinstance(a, NF))
        a = self._new('fn', skey, vals, real, sign, rank, fname=fname, args=tuple(args))
        self.fn_index.setdefault(shape, []).append(a)
        return NF.atom(a)


def _akey(a):
    if isinstance(a, NF):
        return a.key()
    if isinstance(a, tuple):
        return ('t',) + tuple(_akey(x) for x in a)
    return ('c', a)


def _ashape(a):
    if isinstance(a, NF):
        return 'n'
    if isinstance(a, tuple):
        return ('t',) + tuple(_ashape(x) for x in a)
    return ('c', a)


def _aquant(a):
    """bucket of nearly equal arguments"""
    if isinstance(a, NF):
        v = a.vals()[0]
        return '%.4e' % v.real
    if isinstance(a, tuple):
        if len(a) > 3:
            return (_aquant(a[0]), _aquant(a[len(a) // 2]), _aquant(a[-1]))
        return tuple(_aquant(x) for x in a)
    return None


def _aeq(x, y):
    if isinstance(x, NF):
        return equal(x, y)
    if isinstance(x, tuple):
        return len(x) == len(y) and all(_aeq(p, q) for p, q in zip(x, y))
    return x == y


def _pow(a, b):
    if a == 0:
        return 0j if b.real > 0 else complex('nan')
    return a ** b


def _cmp_real(f):
    return lambda *a: f(x.real for x in a)


EVAL = {
    'sqrt': cmath.sqrt,
    'log': cmath.log,
    'exp': cmath.exp,
    'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan,
    'arctan': cmath.atan,
    'arctan2': lambda y, x: math.atan2(y.real, x.real),
    'abs': abs,
    're': lambda z: z.real,
    'im': lambda z: z.imag,
    'inv': lambda z: 1 / z,
    'pow': _pow,
    'conj': lambda z: z.conjugate(),
    'min': _cmp_real(min),
    'max': _cmp_real(max),
}


class Atom:
    __slots__ = ('space', 'id', 'kind', 'key', 'vals', 'real', 'sign', 'rank',
                 'fname', 'args', 'label')

    def __init__(self, space, id_, kind, key, vals, real, sign, rank, fname, args, label):
        self.space = space
        self.id = id_
        self.kind = kind
        self.key = key
        self.vals = vals
        self.real = real
        self.sign = sign
        self.rank = rank
        self.fname = fname
        self.args = args
        self.label = label

    def text(self):
        if self.kind == 'I':
            return 'i'
        if self.label:
            return self.label
        return "%s(%s)" % (self.fname, ", ".join(_atext(a) for a in self.args))


def _atext(a):
    if isinstance(a, NF):
        return a.text()
    if isinstance(a, tuple):
        s = ",".join(_atext(x) for x in a[:4])
        if len(a) > 4:
            s += ",..%d" % len(a)
        return "[" + s + "]"
    return str(a)


class NF:
    """immutable Laurent polynomial {monomial: coeff}; monomial = ((atom, exp), ...)"""
    __slots__ = ('t', '_vals', '_key')

    def __init__(self, terms):
        self.t = terms
        self._vals = None
        self._key = None

    # -- construction
    @staticmethod
    def atom(a):
        return NF({((a.id, 1),): Fraction(1)}) if False else _mk(a)

    @staticmethod
    def num(q):
        q = Fraction(q)
        return NF({(): q}) if q else NF({})

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(((tuple((a.id, e) for a, e in m), c)
                                      for m, c in self.t.items()),
                                     key=lambda x: x[0]))
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def is_monomial(self):
        return len(self.t) == 1

    def is_real(self):
        for m in self.t:
            for a, e in m:
                if not a.real:
                    return False
        return True

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def vals(self):
        if self._vals is None:
            out = []
            for k in range(K):
                tot = 0j
                for m, c in self.t.items():
                    v = complex(float(c))
                    for a, e in m:
                        try:
                            v *= a.vals[k] ** e
                        except ZeroDivisionError:
                            v = complex('nan')
                    tot += v
                out.append(tot)
            self._vals = out
        return self._vals

    # -- arithmetic
    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, 0) + c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return NF(t)

    def __neg__(self):
        return NF({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if len(self.t) * len(o.t) > 20000:
            raise TooBig()
        res = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, c, factor = _mulmono(m1, m2)
                c = c * c1 * c2
                if factor is None:
                    s = res.get(m, 0) + c
                    if s:
                        res[m] = s
                    else:
                        res.pop(m, None)
                else:
                    term = NF({m: c}) * factor
                    extra = term if extra is None else extra + term
        r = NF(res)
        return r if extra is None else r + extra

    def inv(self):
        if not self.t:
            raise ZeroDivisionError
        if len(self.t) == 1:
            (m, c), = self.t.items()
            r = NF.num(1 / c)
            for a, e in m:
                if a.kind == 'I':
                    r = r * NF({((a, 1),): Fraction(-1)})
                else:
                    r = r * NF({((a, -e),): Fraction(1)})
            return r
        # factor out leading coefficient
        lead = min(self.key(), key=lambda x: (x[0]))[1]
        base = self * NF.num(1 / lead)
        space = next(iter(self.atoms())).space
        return space.fn('inv', (base,), sign=sign(base) if sign(base) in ('+', '-') else None) * NF.num(1 / lead)

    def __truediv__(self, o):
        return self * o.inv()

    def ipow(self, n):
        if n < 0:
            return self.inv().ipow(-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def text(self):
        if not self.t:
            return '0'
        parts = []
        for m, c in sorted(self.t.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))[:12]:
            f = []
            if c != 1 or not m:
                f.append("%g" % float(c))
            for a, e in m:
                f.append(a.text() if e == 1 else "%s^%d" % (a.text(), e))
            parts.append("*".join(f))
        if len(self.t) > 12:
            parts.append("...")
        return " + ".join(parts)

    __repr__ = text


class TooBig(Exception):
    pass


def _mk(a):
    return NF({((a, 1),): Fraction(1)})


def _mulmono(m1, m2):
    """product of two monomials -> (monomial, coefficient, extra NF factor or None)"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    c = Fraction(1)
    factor = None
    out = []
    for a in sorted(d, key=lambda x: x.id):
        e = d[a]
        if not e:
            continue
        if a.kind == 'I':
            e %= 4
            if e >= 2:
                c = -c
                e -= 2
            if e == 0:
                continue
        elif a.kind == 'fn' and a.fname == 'sqrt' and abs(e) >= 2:
            q = int(e / 2)
            f = a.args[0].ipow(q)
            factor = f if factor is None else factor * f
            e -= 2 * q
            if not e:
                continue
        out.append((a, e))
    return tuple(out), c, factor


ZERO = NF({})
ONE = NF({(): Fraction(1)})


def close(u, v):
    if u == v:
        return True
    if u != u or v != v:
        return False
    return abs(u - v) <= TOL * max(abs(u), abs(v))


def equal(a, b):
    """value-number equality"""
    if a is b or a.t == b.t:
        return True
    if a.is_const() and b.is_const():
        x, y = a.const_value(), b.const_value()
        return bool(x) == bool(y) and abs(x - y) <= Fraction(1, 10 ** 10) * max(abs(x), abs(y))
    va, vb = a.vals(), b.vals()
    return all(close(x, y) for x, y in zip(va, vb))


# ------------------------------------------------------------------ signs
def sign(nf):
    """'+', '-', '0', '0+', '0-' or None; sound from atom signs"""
    if not nf.t:
        return '0'
    res = None
    for m, c in nf.t.items():
        s = '+' if c > 0 else '-'
        for a, e in m:
            if a.sign is None:
                if a.real and e % 2 == 0:
                    s = _smul(s, '0+' if e > 0 else '+')
                else:
                    return None
            elif a.sign in ('+', '-'):
                if a.sign == '-' and e % 2:
                    s = _smul(s, '-')
            elif a.sign in ('0+', '0-'):
                if e < 0:
                    t = '+'
                    if a.sign == '0-' and e % 2:
                        t = '-'
                else:
                    t = '0+' if a.sign == '0+' or e % 2 == 0 else '0-'
                s = _smul(s, t)
            else:
                return None
        if res is None:
            res = s
        else:
            if res[-1] != s[-1]:
                return None
            if '0' not in res or '0' not in s:
                res = s[-1]
    return res


def _smul(a, b):
    neg = (a[-1] == '-') != (b[-1] == '-')
    z = '0' in a or '0' in b
    return ('0' if z else '') + ('-' if neg else '+')


# ------------------------------------------------------------------ order facts
class Order:
    """partial order facts over normal forms; edges a<b (strict) or a<=b"""

    def __init__(self):
        self.facts = []
        self.reset()

    def reset(self):
        self.nodes = []
        self.edges = {}      # i -> {j: strict}
        self.neq = set()
        self.memo = {}

    def size(self):
        return len(self.facts)

    def truncate(self, n):
        if len(self.facts) > n:
            old = self.facts[:n]
            self.facts = []
            self.reset()
            for f in old:
                self.add(*f)

    def node(self, nf):
        for i, n in enumerate(self.nodes):
            if n.t == nf.t:
                return i
        for i, n in enumerate(self.nodes):
            if equal(n, nf):
                return i
        self.nodes.append(nf)
        i = len(self.nodes) - 1
        self.edges[i] = {}
        return i

    def add(self, a, rel, b):
        self.facts.append((a, rel, b))
        if self.memo:
            self.memo = {}
        i, j = self.node(a), self.node(b)
        if rel == '<':
            self._edge(i, j, True)
        elif rel == '>':
            self._edge(j, i, True)
        elif rel == '=':
            self._edge(i, j, False)
            self._edge(j, i, False)
        elif rel == '<=':
            self._edge(i, j, False)
        elif rel == '>=':
            self._edge(j, i, False)
        elif rel == '!=':
            self.neq.add((i, j))
            self.neq.add((j, i))

    def _edge(self, i, j, strict):
        self.edges[i][j] = self.edges[i].get(j, False) or strict

    def _reach(self, i, j):
        """None / 'le' / 'lt'"""
        best = {i: False}
        stack = [i]
        while stack:
            x = stack.pop()
            for y, s in self.edges[x].items():
                ns = best[x] or s
                if y not in best or (ns and not best[y]):
                    best[y] = ns
                    stack.append(y)
            for y in range(len(self.nodes)):
                if y in best and best[y]:
                    continue
                r = static_cmp(self.nodes[x], self.nodes[y]) if x != y else None
                if r in ('<', '=', '<='):
                    ns = best[x] or r == '<'
                    if y not in best or (ns and not best[y]):
                        best[y] = ns
                        stack.append(y)
        if j not in best:
            return None
        return 'lt' if best[j] else 'le'

    def query(self, a, b):
        """subset of {'<','=','>'} still possible"""
        s = static_cmp(a, b)
        poss = {'<', '=', '>'}
        if s == '<=':
            poss.discard('>')
        elif s == '>=':
            poss.discard('<')
        elif s is not None:
            return {s}
        if not self.nodes:
            return poss
        mk = (a.key(), b.key())
        r = self.memo.get(mk)
        if r is not None:
            return set(r)
        check_deadline()
        n = len(self.nodes)
        i, j = self.node(a), self.node(b)
        try:
            r = self._query(i, j, poss)
            self.memo[mk] = frozenset(r)
            return r
        finally:
            while len(self.nodes) > n:
                self.edges.pop(len(self.nodes) - 1)
                self.nodes.pop()

    def _query(self, i, j, poss):
        if i == j:
            return {'='}
        r = self._reach(i, j)
        q = self._reach(j, i)
        if r == 'lt':
            return {'<'}
        if q == 'lt':
            return {'>'}
        if r == 'le':
            poss.discard('>')
        if q == 'le':
            poss.discard('<')
        if (i, j) in self.neq:
            poss.discard('=')
        return poss


def ground(x):
    """is the atom built from known constants only?"""
    if x.kind in ('const', 'I'):
        return True
    if x.kind != 'fn' or x.fname not in EVAL:
        return False
    return all(all(ground(y) for y in a.atoms()) for a in x.args if isinstance(a, NF))


_CMP = {}


def static_cmp(a, b):
    """order decided from the terms alone: '<','=','>','<=','>=' or None"""
    if a is b or a.t == b.t:
        return '='
    ka = (a.key(), b.key())
    sp = _space_of(a) or _space_of(b)
    memo = sp.cmp_memo if sp is not None else _CMP
    try:
        return memo[ka]
    except KeyError:
        pass
    r = memo[ka] = _static_cmp(a, b)
    return r


def _space_of(a):
    for m in a.t:
        for x, _ in m:
            return x.space
    return None


def _static_cmp(a, b):
    d = a - b
    if d.is_const():
        v = d.const_value()
        return '=' if v == 0 else ('<' if v < 0 else '>')
    # numeric constants (c, h, pi ...) only
    if all(ground(x) for x in d.atoms()):
        v = d.vals()[0].real
        if a.atoms() | b.atoms():
            m = max(abs(a.vals()[0]), abs(b.vals()[0]))
            if abs(v) <= TOL * m:
                return '='
        return '<' if v < 0 else '>'
    s = sign(d)
    if s == '+':
        return '>'
    if s == '-':
        return '<'
    if s == '0+':
        return '>='
    if s == '0-':
        return '<='
    # symbols of one ordered group, possibly scaled/inverted by the same positive factor
    if a.is_monomial() and b.is_monomial() and sign(a) == '+' and sign(b) == '+':
        ratio = a / b
        (m, c), = ratio.t.items()
        ratom = [(x, e) for x, e in m if x.kind != 'const']
        k = float(c)
        for x, e in m:
            if x.kind == 'const':
                k *= x.vals[0].real ** e
        if not ratom:
            return '=' if abs(k - 1) < TOL else ('<' if k < 1 else '>')
        if abs(k - 1) < TOL and len(ratom) == 2:
            (x, e), (y, f) = ratom
            if e == -f:
                r = rank_cmp(x, y)
                if r:
                    return r if e > 0 else {'<': '>', '>': '<', '<=': '>=',
                                            '>=': '<=', '=': '='}[r]
    if len(d.t) == 2:
        (m1, c1), (m2, c2) = d.t.items()
        if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
            r = rank_cmp(m1[0][0], m2[0][0])
            if r:
                return r if c1 > 0 else {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '='}[r]
    return None


def rank_cmp(x, y):
    """order of two atoms from their rank (group, number)"""
    if x.rank is None or y.rank is None or x.rank[0] != y.rank[0]:
        return None
    a, b = x.rank[1], y.rank[1]
    return '=' if a == b else ('<' if a < b else '>')
