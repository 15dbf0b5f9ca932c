"""dataclasses, enumerations and typed named tuples"""
import ast
from .values import *
from .natives import NTuple


class EnumBase:
    """marker base"""

    def __init__(self, name):
        self.name = name


class NTBase:
    name = 'NamedTuple'


class Field:
    def __init__(self, k):
        self.k = k


class Auto:
    pass


class EnumStr(str):
    """member of an enumeration whose values are strings"""
    cls = None
    mname = None
    plain = False


def ann_fields(cls):
    """annotated names of the class body in order"""
    out = []
    for s in (cls.node.body if cls.node is not None else ()):
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            t = ast.unparse(s.annotation)
            if 'ClassVar' not in t:
                out.append(s.target.id)
    return out


def is_auto(x):
    return isinstance(x, Auto)


def build_enum(it, cls, marks, strs):
    members = []
    last = 0
    plain = any(m.name == 'StrEnum' for m in marks)
    if any(m.name not in ('Enum', 'StrEnum') for m in marks):
        return Unknown('enum ' + cls.name)
    for b in cls.bases:
        if getattr(b, 'enum', None):
            it.throw(TypeError, "%s: cannot extend enumeration" % cls.name)
    for k, v in list(cls.ns.items()):
        if k.startswith('_') or isinstance(v, (AFunc, PropM, StaticM, ClassM, ExtFunc, AClass)) or hasattr(v, 'bind_to'):
            continue
        if is_auto(v):
            v = k.lower() if plain else last + 1
        if isinstance(v, int):
            last = v
        for m in members:
            if it.truth(it.eq(value_of(m), v)) is True:
                cls.ns[k] = m
                break
        else:
            if strs or plain:
                if not isinstance(v, str):
                    return Unknown('enum ' + cls.name)
                m = EnumStr(v)
                m.cls, m.mname, m.plain = cls, k, plain
            else:
                m = AObj(cls)
                m.attrs.update({'name': k, 'value': v, '_name_': k, '_value_': v})
                init = cls.lookup('__init__')
                if init is not None:
                    it.call(Bound(init, m), list(v) if isinstance(v, tuple) else [v], {})
            members.append(m)
            cls.ns[k] = m
    cls.enum = members
    if '__str__' not in cls.ns and not strs and not plain:
        cls.ns['__str__'] = ExtFunc('__str__', lambda it, a, k: "%s.%s" % (cls.name, a[0].attrs['name']))
    cls.ns['__members__'] = {member_name(m): m for m in members}
    return cls


def value_of(m):
    return str(m) if isinstance(m, EnumStr) else m.attrs['value']


def member_name(m):
    return m.mname if isinstance(m, EnumStr) else m.attrs['name']


def enum_call(it, c, a):
    v = a[0]
    if isinstance(v, (Phi,)):
        return it.dist(v, lambda x: enum_call(it, c, [x]))
    if isinstance(v, Unknown):
        return Unknown('enum member')
    for m in c.enum:
        if v is m:
            return m
        r = it.truth(it.eq(value_of(m), v))
        if r is True:
            return m
        if r is not False:
            raise Gap("undecided enumeration value")
    miss = c.lookup('_missing_')
    if miss is not None:
        r = it.call(Bound(miss.f, c) if isinstance(miss, ClassM) else miss, [v], {})
        if r is not None:
            return r
    it.throw(ValueError, "%s is not a valid %s" % (it.to_repr(v), c.name))


def synth(it, cls, src, ns):
    """define a function given as source in the scope of the class"""
    from .interp import Env
    node = ast.parse(src).body[0]
    for n in ast.walk(node):
        if hasattr(n, 'lineno'):
            n.lineno = cls.node.lineno
    mod = Module(cls.module.name, ns, cls.module.filename)
    env = Env(frozenset(), None, mod)
    env.vars = mod.ns
    f = it.make_func(node, env)
    f.cls = cls
    return f


def dataclass(it, a, k):
    if not a:
        return ExtFunc('dataclass', lambda it, b, kk: dataclass(it, b, k))
    c = a[0]
    if not isinstance(c, AClass) or c.node is None:
        return Unknown('dataclass')
    fields = {}
    for b in reversed(c.mro[1:]):
        fields.update(getattr(b, 'dc_fields', {}))
    for n in ann_fields(c):
        v = c.ns.get(n, ABSENT)
        if isinstance(v, Field):
            fields[n] = dict(v.k)
            if 'default' in v.k:
                c.ns[n] = v.k['default']
            else:
                del c.ns[n]
        elif v is ABSENT:
            fields[n] = {}
        else:
            fields[n] = {'default': v}
    c.dc_fields = fields
    truthy = lambda v, d: d if v is None else v is True
    opts = {n: k.get(n) for n in ('init', 'eq', 'repr', 'order', 'frozen', 'kw_only')}
    ns = {'__missing__': Unknown('missing'), '__builtins_set__': None}
    pars, body = ['self'], []
    if truthy(opts['kw_only'], False):
        pars.append('*')
    kwo = []
    for n, o in fields.items():
        if o.get('init') is False:
            if 'default_factory' in o:
                ns['__f_' + n] = o['default_factory']
                body.append('self.%s = __f_%s()' % (n, n))
            continue
        if 'default_factory' in o:
            ns['__f_' + n] = o['default_factory']
            ns['__m_' + n] = MISSING
            p = '%s=__m_%s' % (n, n)
            body.append('self.%s = __f_%s() if %s is __m_%s else %s' % (n, n, n, n, n))
        elif 'default' in o:
            ns['__d_' + n] = o['default']
            p = '%s=__d_%s' % (n, n)
            body.append('self.%s = %s' % (n, n))
        else:
            p = n
            body.append('self.%s = %s' % (n, n))
        (kwo if o.get('kw_only') is True and len(pars) == 1 or kwo and o.get('kw_only') is True else pars).append(p)
    if kwo:
        pars += ['*'] + kwo
    if pars[-1] == '*':
        pars.pop()
    if c.has('__post_init__'):
        body.append('self.__post_init__()')
    if truthy(opts['init'], True) and '__init__' not in c.ns:
        c.ns['__init__'] = synth(it, c, 'def __init__(%s):\n    %s\n' % (', '.join(pars), '\n    '.join(body or ['pass'])), ns)
    cmpf = [n for n, o in fields.items() if o.get('compare') is not False]
    tup = lambda s: '(%s)' % ''.join('%s.%s, ' % (s, n) for n in cmpf)
    if truthy(opts['eq'], True) and '__eq__' not in c.ns:
        c.ns['__eq__'] = synth(it, c, 'def __eq__(self, other):\n    if self is other: return True\n'
                               '    if type(other) is not type(self): return NotImplemented\n'
                               '    return %s == %s\n' % (tup('self'), tup('other')), {})
        if truthy(opts['frozen'], False) and '__hash__' not in c.ns:
            c.ns['__hash__'] = synth(it, c, 'def __hash__(self):\n    return hash(%s)\n' % tup('self'), {})
    if truthy(opts['order'], False):
        for nm, op in (('__lt__', '<'), ('__le__', '<='), ('__gt__', '>'), ('__ge__', '>=')):
            c.ns[nm] = synth(it, c, 'def %s(self, other):\n    return %s %s %s\n' % (nm, tup('self'), op, tup('other')), {})
    if truthy(opts['repr'], True) and '__repr__' not in c.ns:
        shown = [n for n, o in fields.items() if o.get('repr') is not False]
        c.ns['__repr__'] = synth(it, c, 'def __repr__(self):\n    return "%s(" + %s + ")"\n' % (
            c.name, ' + ", " + '.join('"%s=" + repr(self.%s)' % (n, n) for n in shown) or '""'), {})
    return c


MISSING = ModelObj()


def field(it, a, k):
    return Field(k)


def dc_of(it, o):
    c = o if isinstance(o, AClass) else o.cls if isinstance(o, AObj) else None
    f = getattr(c, 'dc_fields', None)
    if f is None:
        raise Gap("not a dataclass")
    return f


def asdict(it, a, k):
    def rec(v):
        if isinstance(v, AObj) and getattr(v.cls, 'dc_fields', None) is not None:
            return {n: rec(it.getattr(v, n)) for n in v.cls.dc_fields}
        if isinstance(v, list):
            return [rec(x) for x in v]
        if isinstance(v, dict):
            return {x: rec(y) for x, y in v.items()}
        if isinstance(v, tuple):
            return tuple(rec(x) for x in v)
        return deep(it, v)
    dc_of(it, a[0])
    return rec(a[0])


def deep(it, v):
    from .m_std import deepcopy
    return deepcopy(it, v)


def replace(it, a, k):
    fs = dc_of(it, a[0])
    kw = {n: it.getattr(a[0], n) for n, o in fs.items() if o.get('init') is not False}
    kw.update(k)
    return it.call(a[0].cls, [], kw)


def dc_fields(it, a, k):
    class FieldInfo(ModelObj):
        tname = 'Field'

        def __init__(self, n):
            self.a_name = n
    return tuple(FieldInfo(n) for n in dc_of(it, a[0]))


def build_nt(it, cls):
    fl = ann_fields(cls)
    dfl = [n for n in fl if n in cls.ns]

    def make(it, aa, kk):
        vals = dict(zip(fl, aa))
        vals.update(kk)
        for f in dfl:
            vals.setdefault(f, cls.ns[f])
        if set(vals) != set(fl) or len(aa) > len(fl):
            it.throw(TypeError, "%s() arguments" % cls.name)
        t = NTuple(vals[f] for f in fl)
        t.fields, t.tname, t.cls = fl, cls.name, cls
        return t
    t = TypeObj(cls.name, lambda v: isinstance(v, NTuple) and getattr(v, 'cls', None) is cls, make)
    t.attrs['_fields'] = tuple(fl)
    for k, v in cls.ns.items():
        if k not in fl:
            t.attrs[k] = v.f if isinstance(v, StaticM) else Bound(v.f, t) if isinstance(v, ClassM) else v
    return t
