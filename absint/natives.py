"""types, builtin functions and methods of builtin values"""
import re
from fractions import Fraction
from . import nf as NFM
from .nf import NF
from .values import *
from .numops import is_num
from .text import T0, T1, TOKEN, plain
from .flow import cnot, cand, cor


def _name_of(v):
    if v is None:
        return 'NoneType'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, Num):
        if v.np:
            return {'i': 'int64', 'f': 'float64', 'c': 'complex128', 'b': 'bool'}[v.kind]
        return {'i': 'int', 'f': 'float', 'c': 'complex', 'b': 'bool'}[v.kind]
    if isinstance(v, NBool):
        return 'bool'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, list):
        return 'list'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, dict):
        return getattr(v, 'tname', 'dict')
    if isinstance(v, ASet):
        return 'set'
    if isinstance(v, Arr):
        return 'ndarray'
    if isinstance(v, range):
        return 'range'
    if isinstance(v, slice):
        return 'slice'
    if isinstance(v, AObj):
        return v.cls.name
    if isinstance(v, ExcVal):
        return v.name
    if isinstance(v, (AClass, ExcType, TypeObj)):
        return 'type'
    if isinstance(v, (AFunc, ExtFunc)):
        return 'function'
    if isinstance(v, Bound):
        return 'method'
    if isinstance(v, Module):
        return 'module'
    if isinstance(v, ModelObj):
        return v.tname
    return type(v).__name__


class ODict(dict):
    """dict with extra type information"""
    tname = 'OrderedDict'
    __hash__ = object.__hash__


class DDict(dict):
    tname = 'defaultdict'
    default_factory = None
    __hash__ = object.__hash__


class NTuple(tuple):
    """namedtuple instance"""


class Partial(ModelObj):
    tname = 'partial'

    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def m___call__(self, it, *args, **kw):
        return it.call(self.f, list(self.a) + list(args), dict(self.k, **kw))


class IterObj(ModelObj):
    """iterator with a position"""
    tname = 'iterator'

    def __init__(self, items):
        self.items = items
        self.pos = 0

    def op_iter(self, it):
        it.touch(self)
        r = self.items[self.pos:]
        self.pos = len(self.items)
        return r


class Natives:
    """mixin"""

    def typename(self, v):
        return _name_of(v)

    def typeof(self, v):
        if isinstance(v, Phi):
            return self.lift(self.typeof, v)
        if isinstance(v, Unknown):
            return Unknown('type')
        if isinstance(v, AObj):
            return v.cls
        if isinstance(v, ExcVal):
            return v.cls
        if type(v).__name__ == 'EnumStr':
            return v.cls
        if isinstance(v, AClass):
            return self.types['type']
        n = _name_of(v)
        if isinstance(v, NBool):
            n = 'bool_'
        t = self.types.get(n)
        if t is None:
            t = self.types[n] = TypeObj(n, lambda x: _name_of(x) == n)
        return t

    def isinstance(self, v, t):
        if isinstance(t, tuple):
            out = False
            for x in t:
                r = self.isinstance(v, x)
                if r is True:
                    return True
                if r is not False:
                    out = r
            return out
        if isinstance(v, Phi):
            return self.lift(lambda x: self.isinstance(x, t), v)
        if isinstance(v, Unknown) or isinstance(t, Unknown):
            return Unknown('isinstance')
        if isinstance(t, AClass):
            if isinstance(v, AObj):
                return t in v.cls.mro
            if isinstance(v, ExcVal) and isinstance(v.cls, AClass):
                return t in v.cls.mro
            return False
        if isinstance(t, ExcType):
            return isinstance(v, ExcVal) and v.isa(t.pycls)
        if isinstance(t, TypeObj):
            return bool(t.check(v))
        self.throw(TypeError, "isinstance() arg 2 must be a type, a tuple of types, or a union")

    # ------------------------------------------------------------ attributes of builtin values
    def native_attr(self, o, name):
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, Num) or isinstance(o, (int, NBool)):
            n = self.tonum(o)
            if name in ('real', 'imag'):
                r = self.unary(name, n)
                return r
            if n.np or isinstance(o, NBool):
                if name == 'shape':
                    return ()
                if name == 'size':
                    return 1
                if name == 'ndim':
                    return 0
                if name == 'dtype':
                    return self.dtype_obj(n.kind if not isinstance(o, NBool) else 'b')
                if name == 'T':
                    return o
                if name in ('item', 'tolist', 'copy', 'astype', 'round', 'conj', 'conjugate', 'all', 'any',
                            'min', 'max', 'sum', 'mean', 'reshape', 'flatten', 'ravel', 'squeeze',
                            'is_integer', 'view'):
                    return self.nm(o, name)
            if name in ('conjugate', 'is_integer', 'bit_length', 'as_integer_ratio', 'hex'):
                return self.nm(o, name)
            if name == '__class__':
                return self.typeof(o)
            if name.startswith('__'):
                raise Gap("dunder %s of number" % name)
            return ABSENT
        if name == '__class__':
            return self.typeof(o)
        if name == '__len__':
            return ExtFunc('__len__', lambda it, a, k: it.length(o))
        if name == '__contains__':
            return ExtFunc('__contains__', lambda it, a, k: it.contains(o, a[0]))
        if name == '__getitem__':
            return ExtFunc('__getitem__', lambda it, a, k: it.getitem(o, a[0]))
        if name == '__setitem__':
            return ExtFunc('__setitem__', lambda it, a, k: it.setitem(o, a[0], a[1]))
        if isinstance(o, slice):
            return getattr(o, name, ABSENT)
        ok = None
        if isinstance(o, str):
            ok = STR_METHODS
        elif isinstance(o, bytes):
            ok = {'decode', 'strip', 'startswith', 'endswith', 'split', 'replace', 'splitlines'}
        elif isinstance(o, list):
            ok = {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'sort', 'reverse',
                  'copy', 'clear'}
        elif isinstance(o, NTuple) and name in getattr(o, 'fields', ()):
            return o[o.fields.index(name)]
        elif isinstance(o, NTuple) and name == '_fields':
            return tuple(o.fields)
        elif isinstance(o, NTuple) and name == '_asdict':
            return ExtFunc(name, lambda it, a, k: dict(zip(o.fields, o)))
        elif isinstance(o, NTuple) and name == '_replace':
            def rep(it, a, k):
                t = NTuple(k.get(f, v) for f, v in zip(o.fields, o))
                t.__dict__.update(o.__dict__)
                return t
            return ExtFunc(name, rep)
        elif isinstance(o, NTuple) and getattr(o, 'cls', None) is not None and o.cls.has(name):
            return self.bind_attr(o.cls.lookup(name), o, o.cls)
        elif isinstance(o, tuple):
            ok = {'index', 'count'}
        elif isinstance(o, dict):
            ok = {'keys', 'values', 'items', 'get', 'pop', 'popitem', 'setdefault', 'update', 'copy',
                  'clear', 'fromkeys', 'move_to_end', 'insert', 'yaml_set_comment_before_after_key',
                  'yaml_add_eol_comment'}
        elif isinstance(o, ASet):
            ok = {'add', 'remove', 'discard', 'pop', 'update', 'union', 'intersection', 'difference',
                  'issubset', 'issuperset', 'isdisjoint', 'copy', 'clear', 'symmetric_difference',
                  'intersection_update', 'difference_update'}
        elif isinstance(o, range):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
            ok = {'index', 'count'}
        elif type(o).__name__ == 'CmGen':
            ok = set()
        if ok is not None and name in ok:
            return self.nm(o, name)
        if ok is not None:
            py = list if isinstance(o, list) else dict if isinstance(o, dict) else tuple if isinstance(o, tuple) \
                else set if isinstance(o, ASet) else type(o)
            if name.startswith('__') or hasattr(py, name) or isinstance(o, (ODict, DDict)):
                raise Gap("attribute %s of %s" % (name, _name_of(o)))
            return ABSENT
        if o is None:
            return ABSENT
        raise Gap("attribute %s of %s" % (name, _name_of(o)))

    def nm(self, o, name):
        from .interp import NativeM
        return NativeM(o, name)

    def call_native(self, f, args, kwargs):
        o, name = f.obj, f.name
        for i, a in enumerate(args):
            if isinstance(a, Phi) and not (isinstance(o, (list, dict)) and name in
                                           ('append', 'insert', 'setdefault', 'get') and
                                           not (isinstance(o, dict) and i == 0)):
                return self.dist(a, lambda x: self.call_native(f, args[:i] + [x] + args[i + 1:], kwargs))
        for k, a in kwargs.items():
            if isinstance(a, Phi) and not (isinstance(o, str) and name == 'format'):
                return self.dist(a, lambda x: self.call_native(f, args, dict(kwargs, **{k: x})))
        if isinstance(o, str):
            return self.str_method(o, name, args, kwargs)
        if isinstance(o, Arr):
            return self.arr_method(o, name, args, kwargs)
        if isinstance(o, (Num, int, NBool)):
            return self.num_method(o, name, args, kwargs)
        if isinstance(o, list):
            return self.list_method(o, name, args, kwargs)
        if isinstance(o, dict):
            return self.dict_method(o, name, args, kwargs)
        if isinstance(o, ASet):
            return self.set_method(o, name, args, kwargs)
        if isinstance(o, tuple):
            if name == 'index':
                return self.list_index(o, args[0])
            return sum(1 for x in o if self.eq(x, args[0]) is True)
        if isinstance(o, bytes):
            if name == 'decode':
                enc = args[0] if args else kwargs.get('encoding', 'utf-8')
                err = args[1] if len(args) > 1 else kwargs.get('errors', 'strict')
                try:
                    return o.decode(enc, err)
                except UnicodeDecodeError as e:
                    self.throw(UnicodeDecodeError, str(e))
            return getattr(o, name)(*args)
        raise Gap("method %s of %s" % (name, _name_of(o)))

    # ---- numbers
    def num_method(self, o, name, args, kw):
        n = self.tonum(o)
        if name in ('item', 'tolist'):
            if isinstance(o, NBool):
                return o.v
            if n.kind == 'i' and n.is_const():
                return int(n.const())
            return Num(n.nf, n.kind, False, n.special)
        if name in ('copy', 'squeeze', 'view'):
            return o
        if name in ('conj', 'conjugate'):
            return self.unary('conj', n)
        if name == 'astype':
            return self.box(self.cast(n, self.dtype_code(args[0] if args else kw['dtype'])))
        if name in ('all', 'any'):
            t = self.truth(o)
            return NBool(t) if isinstance(t, bool) else Phi(t, NBool(True), NBool(False))
        if name in ('min', 'max', 'sum', 'mean'):
            return o
        if name in ('reshape', 'flatten', 'ravel'):
            return self.arr_method(Arr.new([n], (), n.kind), name, args, kw)
        if name == 'round':
            return self.np_round(o, args, kw)
        if name == 'is_integer':
            if n.special:
                return False
            if n.nf.is_const():
                return n.nf.const_value().denominator == 1
            if n.kind == 'i':
                return True
            return Unknown('is_integer')
        if name == 'bit_length' and isinstance(o, int):
            return o.bit_length()
        raise Gap("method %s of a number" % name)

    # ---- lists
    def list_index(self, o, x):
        for i, y in enumerate(o):
            r = self.truth(self.eq(y, x))
            if r is True:
                return i
            if r is not False:
                raise Gap("undecided list.index")
        self.throw(ValueError, "value is not in list")

    def list_method(self, o, name, args, kw):
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
            if name == 'extend':
                items = self.iterate(args[0])
                self.write(o)
                o.extend(items)
                return None
            if name == 'append':
                self.write(o)
                o.append(args[0])
                return None
            if name == 'insert':
                self.write(o)
                o.insert(self.as_int(args[0]), args[1])
                return None
            if name == 'pop':
                i = self.as_int(args[0]) if args else -1
                if not o or i >= len(o) or i < -len(o):
                    self.throw(IndexError, "pop index out of range")
                self.write(o)
                return o.pop(i)
            if name == 'remove':
                i = self.list_index(o, args[0])
                self.write(o)
                del o[i]
                return None
            if name == 'sort':
                r = self.sorted(list(o), kw.get('key'), kw.get('reverse', False))
                self.write(o)
                o[:] = r
                return None
            if name == 'reverse':
                self.write(o)
                o.reverse()
                return None
            self.write(o)
            o.clear()
            return None
        if name == 'index':
            return self.list_index(o, args[0])
        if name == 'copy':
            return list(o)
        if name == 'count':
            return sum(1 for x in o if self.truth(self.eq(x, args[0])) is True)
        raise Gap("list.%s" % name)

    def as_int(self, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Num) and x.kind == 'i' and x.is_const():
            return int(x.const())
        if isinstance(x, (Unknown, Phi)) or (isinstance(x, Num) and x.kind == 'i'):
            raise Gap("symbolic integer")
        self.throw(TypeError, "'%s' object cannot be interpreted as an integer" % self.typename(x))

    def sorted(self, items, key=None, reverse=False):
        keyed = [(self.call(key, [x], {}) if key is not None else x, x) for x in items]
        out = []
        for k, x in keyed:
            i = len(out)
            # stable insertion: move left while k < previous
            while i > 0:
                r = self.truth(self.cmp('<', k, out[i - 1][0]) if not reverse
                               else self.cmp('<', out[i - 1][0], k))
                if r is True:
                    i -= 1
                elif r is False:
                    break
                else:
                    raise Gap("undecided sort order")
            out.insert(i, (k, x))
        return [x for _, x in out]

    # ---- dicts
    def dict_method(self, o, name, args, kw):
        from .interp import DictView
        if name in ('keys', 'values', 'items'):
            return DictView(o, name)
        if name == 'get':
            k = self.hashable(args[0])
            if k in o:
                return o[k]
            return args[1] if len(args) > 1 else kw.get('default')
        if name == 'pop':
            k = self.hashable(args[0])
            if k in o:
                self.write(o)
                return o.pop(k)
            if len(args) > 1:
                return args[1]
            self.throw(KeyError, k)
        if name == 'popitem':
            if not o:
                self.throw(KeyError, 'popitem(): dictionary is empty')
            self.write(o)
            if kw.get('last', True) is False:
                k = next(iter(o))
                return (k, o.pop(k))
            return o.popitem()
        if name == 'setdefault':
            k = self.hashable(args[0])
            if k not in o:
                self.write(o)
                o[k] = args[1] if len(args) > 1 else None
            return o[k]
        if name == 'update':
            new = {}
            if args:
                if isinstance(args[0], dict):
                    new.update(args[0])
                else:
                    for p in self.iterate(args[0]):
                        k, v = self.iterate(p)
                        new[self.hashable(k)] = v
            new.update(kw)
            self.write(o)
            o.update(new)
            return None
        if name == 'copy':
            c = type(o)() if type(o) is not dict else {}
            c.update(o)
            if isinstance(o, DDict):
                c.default_factory = o.default_factory
            return c
        if name == 'clear':
            self.write(o)
            o.clear()
            return None
        if name == 'move_to_end':
            k = self.hashable(args[0])
            if k not in o:
                self.throw(KeyError, k)
            self.write(o)
            v = o.pop(k)
            if kw.get('last', args[1] if len(args) > 1 else True):
                o[k] = v
            else:
                rest = dict(o)
                o.clear()
                o[k] = v
                o.update(rest)
            return None
        if name == 'insert':       # CommentedMap
            self.write(o)
            items = list(o.items())
            items.insert(self.as_int(args[0]), (args[1], args[2]))
            o.clear()
            o.update(items)
            return None
        if name.startswith('yaml_'):
            return None
        if name == 'fromkeys':
            return {self.hashable(k): (args[1] if len(args) > 1 else None) for k in self.iterate(args[0])}
        raise Gap("dict.%s" % name)

    def set_method(self, o, name, args, kw):
        def has(x):
            return self.contains_raw(o.items, x)
        if name in ('add', 'discard', 'remove'):
            x = args[0]
            self.hashable(x)
            if name == 'add':
                if not has(x):
                    self.write(o)
                    o.items.append(x)
                return None
            if not has(x):
                if name == 'remove':
                    self.throw(KeyError, x)
                return None
            self.write(o)
            o.items = [y for y in o.items if self.eq(y, x) is not True]
            return None
        if name == 'pop':
            if not o.items:
                self.throw(KeyError, 'pop from an empty set')
            self.write(o)
            x = self.permuted(list(o.items))[0]
            return o.items.pop(next(i for i, y in enumerate(o.items) if y is x))
        if name == 'update':
            for a in args:
                for x in self.iterate(a):
                    self.set_method(o, 'add', [x], {})
            return None
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            op = {'union': '|', 'intersection': '&', 'difference': '-', 'symmetric_difference': '^'}[name]
            r = ASet(o.items)
            for a in args:
                r = self.binop(op, r, a if isinstance(a, ASet) else self.mkset(self.iterate(a)))
            return r
        if name in ('intersection_update', 'difference_update'):
            r = self.binop('&' if name[0] == 'i' else '-', o, self.mkset(self.iterate(args[0])))
            self.write(o)
            o.items = r.items
            return None
        other = self.iterate(args[0]) if args else []
        if name == 'issubset':
            return all(self.contains_raw(other, x) for x in o.items)
        if name == 'issuperset':
            return all(has(x) for x in other)
        if name == 'isdisjoint':
            return not any(has(x) for x in other)
        if name == 'copy':
            return ASet(o.items)
        if name == 'clear':
            self.write(o)
            o.items = []
            return None
        raise Gap("set.%s" % name)

    # ---- strings
    def str_method(self, s, name, args, kw):
        if name == 'format':
            return self.str_format(s, args, kw)
        for a in args:
            if isinstance(a, Unknown):
                return Unknown('str.' + name)
        if name == 'join':
            items = self.iterate(args[0])
            out = []
            for x in items:
                if isinstance(x, Phi):
                    x = self.dist(x, lambda y: y)
                if isinstance(x, Unknown):
                    return Unknown('join')
                if isinstance(x, Phi):
                    raise Gap("join of gated strings")
                if not isinstance(x, str):
                    self.throw(TypeError, "sequence item: expected str instance, %s found" % self.typename(x))
                out.append(x)
            return s.join(out)
        if name == 'encode':
            enc = args[0] if args else kw.get('encoding', 'utf-8')
            err = args[1] if len(args) > 1 else kw.get('errors', 'strict')
            if T0 in s:
                return s.encode('utf-8')
            try:
                return s.encode(enc, err)
            except UnicodeEncodeError as e:
                self.throw(UnicodeEncodeError, str(e))
        if name in ('upper', 'lower', 'title', 'capitalize', 'casefold', 'swapcase', 'isspace', 'isdigit',
                    'isalpha', 'isnumeric', 'isidentifier', 'isupper', 'islower', 'isalnum', 'isdecimal',
                    'isascii', 'istitle', 'isprintable'):
            if T0 in s and name in ('isdigit', 'isnumeric', 'isdecimal', 'isalpha', 'isalnum', 'isascii'):
                return False
            return getattr(s, name)()
        def iarg(a):
            if isinstance(a, Num):
                return self.as_int(a)
            return a
        args = [iarg(a) for a in args]
        if name in ('ljust', 'rjust', 'center', 'zfill'):
            if T0 in s:
                # padding only; width of a token is not known
                return s
            return getattr(s, name)(*args)
        if name in ('startswith', 'endswith'):
            for a in (args[0] if isinstance(args[0], tuple) else (args[0],)):
                if not isinstance(a, str):
                    self.throw(TypeError, "%s first arg must be str" % name)
            if T0 in s and ((name == 'startswith' and s.startswith(T0)) or
                            (name == 'endswith' and s.endswith(T1))):
                # a number never starts/ends with a letter
                alla = args[0] if isinstance(args[0], tuple) else (args[0],)
                if any(a and re.match(r'[\d.+\-ein]', a) for a in alla):
                    raise Gap("prefix test on a formatted number")
            return getattr(s, name)(*args)
        if name == 'translate':
            t = args[0]
            table = {}
            for k, v in t.items():
                table[ord(k) if isinstance(k, str) else k] = v
            return s.translate(table)
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip',
                    'replace', 'find', 'rfind', 'index', 'rindex', 'count', 'expandtabs', 'removeprefix',
                    'removesuffix'):
            for a in args:
                if not (isinstance(a, (str, int)) or a is None):
                    self.throw(TypeError, "must be str, not %s" % self.typename(a))
                if isinstance(a, str) and T0 in s and a and name in ('split', 'replace', 'find', 'count') and \
                        re.fullmatch(r'[\d.eE+\-]', a):
                    raise Gap("text operation inside a formatted number")
            kk = {k: iarg(v) for k, v in kw.items()}
            try:
                return getattr(s, name)(*args, **kk)
            except ValueError as e:
                self.throw(ValueError, str(e))
            except TypeError as e:
                self.throw(TypeError, str(e))
        raise Gap("str.%s" % name)

    def length(self, x):
        if isinstance(x, Phi):
            return self.dist(x, self.length)
        if isinstance(x, (str, bytes, list, tuple, dict, range)):
            if isinstance(x, str) and T0 in x:
                raise Gap("length of formatted number")
            return len(x)
        if isinstance(x, ASet):
            return len(x.items)
        if isinstance(x, Arr):
            if x.ndim == 0:
                self.throw(TypeError, "len() of unsized object")
            return x.shape[0]
        if isinstance(x, Unknown):
            return Unknown('len')
        if isinstance(x, AObj):
            m = x.cls.lookup('__len__')
            if m is not None:
                return self.call(Bound(m, x), [], {})
        if type(x).__name__ == 'DictView':
            return len(x.d)
        if isinstance(x, AClass) and getattr(x, 'enum', None) is not None:
            return len(x.enum)
        if hasattr(x, 'op_len'):
            return x.op_len(self)
        self.throw(TypeError, "object of type '%s' has no len()" % self.typename(x))

    # ------------------------------------------------------------ builtins
    def install_natives(self):
        T = self.types = {}
        b = self.builtins

        def ty(name, check, make=None, attrs=None, key=None):
            t = TypeObj(name, check, make, attrs)
            T[key or name] = t
            return t

        def is_pyfloat(v):
            return isinstance(v, Num) and v.kind == 'f'

        def mk_float(it, a, k):
            if not a:
                return fnum(0.0)
            x = a[0]
            if isinstance(x, str):
                return it.to_float(x)
            if isinstance(x, Unknown):
                return x
            if isinstance(x, Arr):
                if x.size != 1:
                    it.throw(TypeError, "only length-1 arrays can be converted to Python scalars")
                x = x.elems()[0]
                if isinstance(x, Phi):
                    return it.lift(lambda y: mk_float(it, [y], {}), x)
            if hasattr(x, 'op_float'):
                return x.op_float(it)
            if isinstance(x, AObj) and x.cls.has('__float__'):
                return it.call(it.getattr(x, '__float__'), [], {})
            if not is_num(x):
                it.throw(TypeError, "float() argument must be a string or a real number, not '%s'"
                         % it.typename(x))
            n = it.tonum(x)
            if n.kind == 'c':
                if n.np:
                    it.event('complexcast', None)
                    return Num(it.nfre(n.nf), 'f', False) if not n.special else Num(None, 'f', False, n.special)
                it.throw(TypeError, "float() argument must be a string or a real number, not 'complex'")
            return Num(n.nf, 'f', False, n.special)

        def mk_int(it, a, k):
            if not a:
                return 0
            x = a[0]
            if isinstance(x, Unknown):
                return x
            if isinstance(x, str):
                if T0 in x:
                    it.throw(ValueError, "invalid literal for int() with base 10")
                try:
                    return int(x, *[it.as_int(y) for y in a[1:]])
                except ValueError as e:
                    it.throw(ValueError, str(e))
            if isinstance(x, Arr) and x.size == 1:
                x = x.elems()[0]
            if not is_num(x):
                it.throw(TypeError, "int() argument must be a string, a bytes-like object or a real number, "
                         "not '%s'" % it.typename(x))
            n = it.tonum(x)
            if n.special == 'nan':
                it.throw(ValueError, "cannot convert float NaN to integer")
            if n.special:
                it.throw(OverflowError, "cannot convert float infinity to integer")
            if n.kind == 'c':
                it.throw(TypeError, "int() argument must be a real number, not 'complex'")
            if n.nf.is_const():
                v = n.nf.const_value()
                return int(v)
            if n.kind == 'i':
                return Num(n.nf, 'i', False)
            r = it.unary('trunc', n)
            return Num(r.nf, 'i', False)

        def mk_complex(it, a, k):
            if not a:
                return Num(NFM.ZERO, 'c')
            x = a[0]
            if isinstance(x, Unknown):
                return x
            if isinstance(x, Arr) and x.size == 1:
                x = x.elems()[0]
            if isinstance(x, str):
                x = it.to_float(x)
            if not is_num(x):
                it.throw(TypeError, "complex() first argument must be a string or a number")
            r = it.tonum(x)
            if len(a) > 1 or 'imag' in k:
                y = it.tonum(a[1] if len(a) > 1 else k['imag'])
                if r.special or y.special:
                    return Num(None, 'c', False, 'nan')
                return Num(r.nf + it.nfmul(y.nf, it.w.space.i()), 'c')
            return Num(r.nf, 'c', False, r.special)

        ty('float', is_pyfloat, mk_float, {
            'fromhex': Unknown('fromhex'),
            '__name__': 'float'})
        ty('int', lambda v: isinstance(v, int) or (isinstance(v, Num) and v.kind == 'i' and not v.np), mk_int)
        ty('bool', lambda v: isinstance(v, bool), lambda it, a, k: it.as_bool(a[0]) if a else False)
        ty('complex', lambda v: isinstance(v, Num) and v.kind == 'c', mk_complex)
        ty('str', lambda v: isinstance(v, str),
           lambda it, a, k: it.mk_str(a, k),
           {'join': ExtFunc('join', lambda it, a, k: it.str_method(a[0], 'join', a[1:], k)),
            'lower': ExtFunc('lower', lambda it, a, k: it.str_method(a[0], 'lower', [], {})),
            'upper': ExtFunc('upper', lambda it, a, k: it.str_method(a[0], 'upper', [], {})),
            'strip': ExtFunc('strip', lambda it, a, k: it.str_method(a[0], 'strip', a[1:], {})),
            'maketrans': ExtFunc('maketrans', lambda it, a, k: str.maketrans(*a))})
        ty('bytes', lambda v: isinstance(v, bytes))
        ty('list', lambda v: isinstance(v, list), lambda it, a, k: it.iterate(a[0]) if a else [])
        ty('tuple', lambda v: isinstance(v, tuple), lambda it, a, k: tuple(it.iterate(a[0])) if a else ())
        ty('dict', lambda v: isinstance(v, dict), self._mk_dict,
           {'fromkeys': ExtFunc('fromkeys', lambda it, a, k: {it.hashable(x): (a[1] if len(a) > 1 else None)
                                                              for x in it.iterate(a[0])})})
        ty('set', lambda v: isinstance(v, ASet), lambda it, a, k: it.mkset(it.iterate(a[0])) if a else ASet(),
           {m: ExtFunc(m, lambda it, a, k, m=m: it.set_method(a[0], m, a[1:], k))
            for m in ('union', 'intersection', 'difference')})
        ty('frozenset', lambda v: isinstance(v, ASet), lambda it, a, k: it.mkset(it.iterate(a[0])) if a else ASet())
        ty('range', lambda v: isinstance(v, range), self._mk_range)
        ty('slice', lambda v: isinstance(v, slice), lambda it, a, k: slice(*a))
        ty('object', lambda v: True, lambda it, a, k: AObj(it.plain_class))
        ty('type', lambda v: isinstance(v, (AClass, TypeObj, ExcType)), self._mk_type)
        ty('NoneType', lambda v: v is None)
        ty('function', lambda v: isinstance(v, (AFunc, ExtFunc)))
        for n in ('float', 'int', 'bool', 'complex', 'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'frozenset',
                  'range', 'slice', 'object', 'type'):
            b[n] = T[n]
        import builtins as pyb
        for n in dir(pyb):
            v = getattr(pyb, n)
            if isinstance(v, type) and issubclass(v, BaseException):
                b[n] = ExcType(v)
        b['None'] = None
        b['True'], b['False'] = True, False
        b['NotImplemented'] = NOTIMPL
        b['Ellipsis'] = Ellipsis
        b['__name__'] = '?'
        b['__debug__'] = True
        self.plain_class = AClass('object', [], {}, None)

        def fn(name, f, phi_ok=False):
            e = ExtFunc(name, f)
            e.phi_ok = phi_ok
            b[name] = e

        def f_isinstance(it, a, k):
            t = a[1]
            if isinstance(t, (list,)):
                it.throw(TypeError, "isinstance() arg 2 must be a type, a tuple of types, or a union")
            return it.isinstance(a[0], t)
        fn('isinstance', f_isinstance, True)

        def f_issubclass(it, a, k):
            c = a[0]
            for t in (a[1] if isinstance(a[1], tuple) else (a[1],)):
                if isinstance(c, AClass):
                    if isinstance(t, AClass) and t in c.mro:
                        return True
                    if isinstance(t, ExcType) and c.exc_base() and issubclass(c.exc_base().pycls, t.pycls):
                        return True
                    if isinstance(t, TypeObj) and t.name == 'object':
                        return True
                elif isinstance(c, ExcType):
                    if isinstance(t, ExcType) and issubclass(c.pycls, t.pycls):
                        return True
                elif isinstance(c, TypeObj):
                    if c is t or (isinstance(t, TypeObj) and t.name == 'object'):
                        return True
                else:
                    it.throw(TypeError, "issubclass() arg 1 must be a class")
            return False
        fn('issubclass', f_issubclass)
        fn('len', lambda it, a, k: it.length(a[0]), True)
        fn('print', self._print, True)
        fn('input', self._input)
        fn('enumerate', lambda it, a, k: self._gen(
            [(i + it.as_int(k.get('start', a[1] if len(a) > 1 else 0)), x)
             for i, x in enumerate(it.iterate(a[0]))]))

        def f_zip(it, a, k):
            cols = [it.iterate(x) for x in a]
            if k.get('strict') and len({len(c) for c in cols}) > 1:
                it.throw(ValueError, "zip() arguments have different lengths")
            return self._gen([tuple(t) for t in zip(*cols)])
        fn('zip', f_zip)
        fn('map', lambda it, a, k: self._gen([it.call(a[0], list(t), {})
                                              for t in zip(*[it.iterate(x) for x in a[1:]])]))

        def f_filter(it, a, k):
            out = []
            for x in it.iterate(a[1]):
                t = it.truth(it.call(a[0], [x], {}) if a[0] is not None else x)
                if not isinstance(t, bool):
                    raise Gap("undecided filter")
                if t:
                    out.append(x)
            return self._gen(out)
        fn('filter', f_filter)
        fn('sorted', lambda it, a, k: it.sorted(it.iterate(a[0]), k.get('key'), k.get('reverse', False)))
        fn('reversed', lambda it, a, k: self._gen(list(reversed(it.iterate(a[0])))))
        fn('iter', lambda it, a, k: IterObj(it.iterate(a[0])))

        def f_next(it, a, k):
            o = a[0]
            if isinstance(o, Unknown):
                return Unknown('next')
            if hasattr(o, 'items') and hasattr(o, 'pos'):
                if o.pos >= len(o.items):
                    if len(a) > 1:
                        return a[1]
                    it.throw(StopIteration)
                it.touch(o)
                o.pos += 1
                return o.items[o.pos - 1]
            if hasattr(o, 'm___next__'):
                return o.m___next__(it)
            if isinstance(o, AObj):
                return it.call(it.getattr(o, '__next__'), [], {})
            it.throw(TypeError, "'%s' object is not an iterator" % it.typename(o))
        fn('next', f_next)

        def minmax(op):
            def f(it, a, k):
                items = it.iterate(a[0]) if len(a) == 1 else list(a)
                key = k.get('key')
                if not items:
                    if 'default' in k:
                        return k['default']
                    it.throw(ValueError, "%s() iterable argument is empty" % ('min' if op == '<' else 'max'))
                best = items[0]
                bk = it.call(key, [best], {}) if key is not None else best
                for x in items[1:]:
                    xk = it.call(key, [x], {}) if key is not None else x
                    t = it.truth(it.cmp(op, xk, bk))
                    if t is True:
                        best, bk = x, xk
                    elif t is not False:
                        if key is None and is_num(x) and is_num(best):
                            r = it.binfunc('minimum' if op == '<' else 'maximum', best, x)
                            best = bk = r
                        else:
                            raise Gap("undecided min/max")
                return best
            return f
        fn('min', minmax('<'))
        fn('max', minmax('>'))

        def f_sum(it, a, k):
            tot = a[1] if len(a) > 1 else k.get('start', 0)
            for x in it.iterate(a[0]):
                tot = it.binop('+', tot, x)
            return tot
        fn('sum', f_sum)

        def f_abs(it, a, k):
            x = a[0]
            if isinstance(x, Arr):
                return it.arr_unary('abs', x)
            if isinstance(x, bool):
                return int(x)
            if isinstance(x, int):
                return abs(x)
            if is_num(x):
                return it.unary('abs', x)
            if isinstance(x, Unknown):
                return x
            if hasattr(x, 'as_array'):
                return it.arr_unary('abs', x.as_array(it))
            if hasattr(x, 'op_unary'):
                return x.op_unary(it, 'abs')
            it.throw(TypeError, "bad operand type for abs(): '%s'" % it.typename(x))
        fn('abs', f_abs)

        def f_round(it, a, k):
            x = a[0]
            nd = a[1] if len(a) > 1 else k.get('ndigits')
            if isinstance(x, Arr):
                return it.np_round(x, [nd or 0], {})
            if isinstance(x, int):
                return x if nd is None or nd >= 0 else round(x, nd)
            n = it.tonum(x)
            if n.special:
                if nd is None:
                    it.throw(OverflowError, "cannot convert float infinity to integer")
                return n
            if nd is None:
                if n.nf.is_const():
                    return round(n.nf.const_value())
                return Num(it.unary('rint', n).nf, 'i')
            return it.np_round(x, [nd], {})
        fn('round', f_round)

        def quant(all_):
            def f(it, a, k):
                und = None
                for x in it.iterate(a[0]):
                    t = it.truth(x)
                    if t is (not all_):
                        return not all_
                    if t is not all_:
                        und = t if und is None else (cand(und, t) if all_ else cor(und, t))
                return all_ if und is None else Phi(und, True, False)
            return f
        fn('all', quant(True))
        fn('any', quant(False))

        def f_getattr(it, a, k):
            if isinstance(a[1], Unknown):
                raise Gap("getattr with unknown name")
            if len(a) > 2:
                r = it.getattr_or(a[0], a[1])
                return a[2] if r is ABSENT else r
            return it.getattr(a[0], a[1])
        fn('getattr', f_getattr)

        def f_hasattr(it, a, k):
            try:
                r = it.getattr_or(a[0], a[1])
            except AbsRaise as e:
                if e.exc.isa(AttributeError):
                    return False
                raise
            if isinstance(r, Unknown):
                return Unknown('hasattr')
            return r is not ABSENT
        fn('hasattr', f_hasattr)
        fn('setattr', lambda it, a, k: it.setattr(a[0], a[1], a[2]))

        def f_delattr(it, a, k):
            if isinstance(a[0], AObj) and a[1] in a[0].attrs:
                it.write(a[0])
                del a[0].attrs[a[1]]
                return None
            it.throw(AttributeError, a[1])
        fn('delattr', f_delattr)
        fn('callable', lambda it, a, k: isinstance(a[0], (AFunc, Bound, AClass, ExtFunc, TypeObj, ExcType)) or
           hasattr(a[0], 'm___call__') or (isinstance(a[0], AObj) and a[0].cls.has('__call__')))
        fn('id', lambda it, a, k: getattr(a[0], 'uid', id(a[0]) % 100003))
        fn('hash', lambda it, a, k: it._hash(a[0]))
        fn('repr', lambda it, a, k: it.to_repr(a[0]))
        fn('format', lambda it, a, k: it.format(a[0], a[1] if len(a) > 1 else ''))
        fn('ascii', lambda it, a, k: it.to_repr(a[0]))
        fn('ord', lambda it, a, k: ord(a[0]))
        fn('chr', lambda it, a, k: chr(it.as_int(a[0])))
        fn('bin', lambda it, a, k: bin(it.as_int(a[0])))
        fn('hex', lambda it, a, k: hex(it.as_int(a[0])))
        fn('pow', lambda it, a, k: it.binop('**', a[0], a[1]))
        fn('divmod', lambda it, a, k: (it.binop('//', a[0], a[1]), it.binop('%', a[0], a[1])))
        fn('vars', lambda it, a, k: it.getattr(a[0], '__dict__'))
        fn('locals', lambda it, a, k: {})
        fn('globals', lambda it, a, k: {})
        fn('dir', lambda it, a, k: it._dir(a[0]))
        fn('staticmethod', lambda it, a, k: StaticM(a[0]))
        fn('classmethod', lambda it, a, k: ClassM(a[0]))

        def f_property(it, a, k):
            return PropObj(a[0] if a else None, a[1] if len(a) > 1 else None)
        fn('property', f_property)

        def f_super(it, a, k):
            from .interp import SuperObj
            return SuperObj(a[0], a[1])
        fn('super', f_super)
        for n in ('eval', 'exec', 'compile', '__import__'):
            fn(n, lambda it, a, k, n=n: it._dangerous(n, a))
        fn('open', lambda it, a, k: it.w.fs.open_(it, a, k))
        fn('exit', lambda it, a, k: it.throw(SystemExit))
        fn('quit', lambda it, a, k: it.throw(SystemExit))

    def _dangerous(self, name, a):
        self.event('codeexec', (name, a[0] if a else None))
        if name == '__import__' and a and isinstance(a[0], str):
            return self.w.import_module(a[0], self)
        if name == 'eval' and a and isinstance(a[0], str) and T0 not in a[0]:
            import ast as _ast
            env = self.stack[-1] if self.stack else None
            try:
                tree = _ast.parse(a[0].strip(), mode='eval')
            except SyntaxError as e:
                self.throw(SyntaxError, str(e))
            if env is not None:
                return self.ev(tree.body, env)
        return Unknown(name)

    def _hash(self, x):
        self.hashable(x)
        if isinstance(x, AObj) and x.cls.has('__hash__'):
            return self.call(self.getattr(x, '__hash__'), [], {})
        if isinstance(x, int):
            return hash(x)
        return Unknown('hash')

    def _dir(self, o):
        if isinstance(o, AObj):
            names = set(o.attrs)
            for c in o.cls.mro:
                if isinstance(c, AClass):
                    names |= set(c.ns)
            return sorted(names)
        if isinstance(o, AClass):
            names = set()
            for c in o.mro:
                if isinstance(c, AClass):
                    names |= set(c.ns)
            return sorted(names)
        if isinstance(o, Module) and not getattr(o, 'external', False):
            return sorted(k for k in o.ns)
        raise Gap("dir()")

    def as_bool(self, x):
        t = self.truth(x)
        return t if isinstance(t, bool) else Phi(t, True, False)

    def mk_str(self, a, k):
        if not a:
            return ''
        if isinstance(a[0], bytes) and (len(a) > 1 or k):
            return a[0].decode(a[1] if len(a) > 1 else k.get('encoding', 'utf-8'))
        return self.to_str(a[0])

    def _mk_dict(self, it, a, k):
        d = {}
        if a:
            if isinstance(a[0], dict):
                d.update(a[0])
            elif isinstance(a[0], Unknown):
                raise Gap("dict of unknown")
            else:
                for p in self.iterate(a[0]):
                    kv = self.iterate(p)
                    if len(kv) != 2:
                        self.throw(ValueError, "dictionary update sequence element has wrong length")
                    d[self.hashable(kv[0])] = kv[1]
        d.update(k)
        return d

    def _mk_range(self, it, a, k):
        return range(*[self.as_int(x) for x in a])

    def _mk_type(self, it, a, k):
        if len(a) == 1:
            return self.typeof(a[0])
        if len(a) == 3:
            return AClass(a[0], list(a[1]), dict(a[2]), self.stack[-1].module)
        raise Gap("type()")

    def _gen(self, items):
        from .interp import GenObj
        return GenObj(items)

    def _print(self, it, a, k):
        parts = []
        for x in a:
            s = self.to_str(x) if not isinstance(x, (Phi, Unknown)) else '?'
            parts.append(s if isinstance(s, str) else '?')
        f = k.get('file')
        end = k.get('end', '\n')
        sep = k.get('sep', ' ')
        text = (sep if isinstance(sep, str) else ' ').join(parts) + (end if isinstance(end, str) else '\n')
        if f is not None and hasattr(f, 'm_write'):
            f.m_write(self, text)
            return None
        self.event('print', text)
        return None

    def _input(self, it, a, k):
        self.event('input', a[0] if a else '')
        if not self.w.inputs:
            self.throw(EOFError, "EOF when reading a line")
        return self.w.inputs.pop(0)


class PropObj(PropM):
    pass


class _NotImpl(ModelObj):
    tname = 'NotImplementedType'


NOTIMPL = _NotImpl()

STR_METHODS = {m for m in dir(str) if not m.startswith('_')}
