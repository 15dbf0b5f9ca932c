"""abstract values"""
from fractions import Fraction
from . import nf as NFM
from .nf import NF


class Gap(Exception):
    """the analysis cannot decide (unsupported construct, budget)"""


class Prune(Exception):
    """infeasible or bounded-out trace"""


class AbsRaise(Exception):
    def __init__(self, exc):
        Exception.__init__(self)
        self.exc = exc


class Unknown:
    """top; carries a tag for diagnostics"""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "<unknown %s>" % self.tag


class Num:
    """abstract number: normal form + kind ('b','i','f','c') + numpy-ness"""
    __slots__ = ('nf', 'kind', 'np', 'special', 'site')

    def __init__(self, nf, kind='f', np=False, special=None, site=None):
        self.nf = nf
        self.kind = kind
        self.np = np
        self.special = special
        self.site = site

    def is_const(self):
        return self.special is not None or self.nf.is_const()

    def const(self):
        """python float/complex/Fraction-free value of a constant"""
        if self.special == 'inf':
            return float('inf')
        if self.special == '-inf':
            return float('-inf')
        if self.special == 'nan':
            return float('nan')
        v = self.nf.const_value()
        return int(v) if self.kind == 'i' else float(v)

    def text(self):
        return self.special or self.nf.text()

    def __eq__(self, o):
        if isinstance(o, bool):
            return False
        if isinstance(o, int):
            return self.special is None and self.nf.is_const() and self.nf.const_value() == o
        if isinstance(o, Num):
            if self.special or o.special:
                return self.special == o.special and self.special != 'nan'
            return NFM.equal(self.nf, o.nf)
        return NotImplemented

    def __hash__(self):
        if self.special:
            return hash(self.special)
        if self.nf.is_const():
            return hash(self.nf.const_value())
        return 77          # few numeric keys: let __eq__ decide

    def __repr__(self):
        return "Num<%s:%s%s>" % (self.text(), self.kind, '*' if self.np else '')


def fnum(x, np=False):
    """Num from a python number (float text is taken as the decimal it denotes)"""
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(NF.num(int(x)), 'i', np)
    if isinstance(x, int):
        return Num(NF.num(x), 'i', np)
    if isinstance(x, Fraction):
        return Num(NF.num(x), 'f', np)
    if isinstance(x, float):
        if x != x:
            return Num(None, 'f', np, 'nan')
        if x == float('inf'):
            return Num(None, 'f', np, 'inf')
        if x == float('-inf'):
            return Num(None, 'f', np, '-inf')
        return Num(NF.num(Fraction(repr(x))), 'f', np)
    raise Gap("not a number: %r" % (x,))


class NBool:
    """numpy.bool_ scalar (not identical to True/False)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if isinstance(o, NBool):
            return self.v == o.v
        return self.v == o

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "np.%s" % self.v


# ---- conditions (guards of joins)
class Cond:
    """('cmp', op, a, b) | ('not', c) | ('and', c, d) | ('or', c, d) | ('opaque', tag)"""
    __slots__ = ('t',)

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Cond) and self.t == o.t

    def __hash__(self):
        return hash(self.t[0])

    def opaque(self):
        k = self.t[0]
        if k == 'opaque':
            return True
        if k in ('not', 'and', 'or'):
            return any(c.opaque() for c in self.t[1:])
        return False

    def text(self):
        k = self.t[0]
        if k == 'cmp':
            return "%s %s %s" % (self.t[2].text(), self.t[1], self.t[3].text())
        if k == 'not':
            return "not (%s)" % self.t[1].text()
        if k in ('and', 'or'):
            return "(%s %s %s)" % (self.t[1].text(), k, self.t[2].text())
        return "<%s>" % (self.t[1],)

    __repr__ = text


class Phi:
    """gated value: a if cond else b"""
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __repr__(self):
        return "Phi(%s ? %r : %r)" % (self.cond.text(), self.a, self.b)


class Absent:
    def __repr__(self):
        return "<absent>"


ABSENT = Absent()


class Buf:
    """storage of an array; shared by views"""
    __slots__ = ('data', 'owner', 'writes', 'uid')
    count = 0

    def __init__(self, data):
        self.data = data
        self.owner = None
        self.writes = []
        Buf.count += 1
        self.uid = Buf.count


class Arr:
    """numpy array: view (idx) into a Buf"""

    def __init__(self, buf, idx, shape, dtype):
        self.buf = buf
        self.idx = idx
        self.shape = tuple(shape)
        self.dtype = dtype

    @staticmethod
    def new(elems, shape=None, dtype=None):
        elems = list(elems)
        if shape is None:
            shape = (len(elems),)
        if dtype is None:
            dtype = dtype_of(elems)
        return Arr(Buf(elems), list(range(len(elems))), shape, dtype)

    @property
    def size(self):
        return len(self.idx)

    @property
    def ndim(self):
        return len(self.shape)

    def elems(self):
        d = self.buf.data
        return [d[i] for i in self.idx]

    def rows(self):
        """nested python lists"""
        def rec(shape, flat):
            if not shape:
                return flat[0]
            if len(shape) == 1:
                return flat
            n = len(flat) // shape[0] if shape[0] else 0
            return [rec(shape[1:], flat[k * n:(k + 1) * n]) for k in range(shape[0])]
        return rec(self.shape, self.elems())

    def copy(self):
        return Arr.new(self.elems(), self.shape, self.dtype)

    def __repr__(self):
        e = self.elems()
        return "Arr%s:%s[%s%s]" % (self.shape, self.dtype,
                                   ", ".join(x.text() if isinstance(x, Num) else repr(x) for x in e[:6]),
                                   ",..." if len(e) > 6 else "")


KORD = 'bifc'


def kind_of(x):
    if isinstance(x, Phi):
        a, b = kind_of(x.a), kind_of(x.b)
        return max(a, b, key=KORD.index) if a in KORD and b in KORD else 'O'
    if isinstance(x, (bool, NBool)):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, Num):
        return x.kind
    if isinstance(x, str):
        return 'U'
    return 'O'


def dtype_of(elems):
    best = None
    for e in elems:
        k = kind_of(e)
        if k == 'U':
            best = 'U' if best in (None, 'U') else 'O'
        elif k == 'O':
            return 'O'
        elif best is None:
            best = k
        elif best in 'UO':
            best = 'O'
        elif KORD.index(k) > KORD.index(best):
            best = k
    return best or 'f'


class ASet:
    """set with explicit (analysis controlled) iteration order"""

    def __init__(self, items=()):
        self.items = []
        for x in items:
            if x not in self.items:
                self.items.append(x)

    def __repr__(self):
        return "ASet(%r)" % (self.items,)


class AFunc:
    def __init__(self, name, node, module, closure, defaults, kwdefaults, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls          # defining class (for zero-arg super)
        self.attrs = {}

    @property
    def qualname(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<func %s.%s>" % (self.module.name, self.qualname)


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class PropM:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class AClass:
    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) if isinstance(b, AClass) else [b] for b in self.bases]
        seqs.append(list(self.bases))
        out = [self]
        while any(seqs):
            for s in seqs:
                if not s:
                    continue
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Gap("mro")
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return out

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, AClass) and name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        return any(isinstance(c, AClass) and name in c.ns for c in self.mro)

    def exc_base(self):
        for c in self.mro:
            if isinstance(c, ExcType):
                return c
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class AObj:
    count = 0

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.owner = None
        self.writes = []
        AObj.count += 1
        self.uid = AObj.count

    def __repr__(self):
        return "<%s#%d>" % (self.cls.name, self.uid)


class ExcType:
    """builtin exception class"""

    def __init__(self, pycls):
        self.pycls = pycls
        self.name = pycls.__name__

    def __eq__(self, o):
        return isinstance(o, ExcType) and o.pycls is self.pycls

    def __hash__(self):
        return hash(self.pycls)

    def __repr__(self):
        return "<exc %s>" % self.name


class ExcVal:
    """exception instance of a builtin class or of an AClass deriving from one"""

    def __init__(self, cls, args=(), site=None, stack=None):
        self.cls = cls
        self.args = list(args)
        self.site = site
        self.stack = stack
        self.attrs = {}

    @property
    def name(self):
        return self.cls.name

    def isa(self, pycls):
        c = self.cls if isinstance(self.cls, ExcType) else self.cls.exc_base()
        return c is not None and issubclass(c.pycls, pycls)

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(str(a)[:90] for a in self.args))


class ExtFunc:
    """transfer function: f(interp, args, kwargs)"""

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return "<ext %s>" % self.name


class TypeObj:
    """builtin/numpy type usable in isinstance and as a constructor"""

    def __init__(self, name, check, make=None, attrs=None):
        self.name = name
        self.check = check
        self.make = make
        self.attrs = attrs or {}

    def __repr__(self):
        return "<type %s>" % self.name


class ModelObj:
    """base of model objects: attributes via a_<name>, methods via m_<name>"""
    tname = 'object'

    def __repr__(self):
        return "<%s>" % self.tname


class Module:
    def __init__(self, name, ns, filename=None):
        self.name = name
        self.ns = ns
        self.filename = filename

    def __repr__(self):
        return "<module %s>" % self.name
