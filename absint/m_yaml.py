"""PyYAML and ruamel.yaml: documents are parsed/emitted structurally; number tokens are opaque scalars"""
import re
import yaml as Y
from .nf import NF
from .values import *
from .text import T0, TOKEN, dec
from .fs import Handle
from .natives import ODict

PH = re.compile(r'QzTok(\d+)QzT')


class CMap(dict):
    """ruamel CommentedMap"""
    __hash__ = object.__hash__


class CSeq(list):
    __hash__ = object.__hash__


class YamlErr(Exception):
    pass


def source(it, s):
    if isinstance(s, Handle):
        return s.m_read(it)
    if isinstance(s, Unknown) or isinstance(s, Phi):
        raise Gap("yaml text unknown")
    if isinstance(s, bytes):
        return s.decode('utf-8')
    if not isinstance(s, str):
        it.throw(AttributeError, "'%s' object has no attribute 'read'" % it.typename(s))
    return s


def load(it, s, kind, ruamel=False):
    """kind: safe | full | unsafe | base"""
    it.event('yamlload', kind)
    text = source(it, s)
    key = (text, kind, ruamel)
    cache = it.w.yaml_cache
    node = cache.get(key)
    if node is None:
        try:
            loader = Y.SafeLoader(text)
            try:
                node = loader.get_single_node()
            finally:
                loader.dispose()
        except Y.YAMLError as e:
            it.throw_cls(it.yaml_error, str(e).replace('\n', ' ')[:200])
        cache[key] = (node,)
        node = (node,)
    node = node[0]
    if node is None:
        return None
    memo = {}
    return construct(it, node, kind, ruamel, memo)


def construct(it, n, kind, ruamel, memo):
    if id(n) in memo:
        return memo[id(n)]
    tag = n.tag
    if tag.startswith('tag:yaml.org,2002:python/') or tag.startswith('!'):
        py = tag[len('tag:yaml.org,2002:python/'):] if tag.startswith('tag') else tag
        if tag.startswith('!') and ruamel and kind != 'unsafe':
            raise Gap("ruamel custom tag")
        if kind == 'unsafe':
            it.event('codeexec', ('yaml ' + tag, None))
            return Unknown('python object')
        if kind == 'full' and py in ('tuple', 'none', 'bool', 'str', 'unicode', 'int', 'long', 'float', 'complex',
                                     'list', 'dict', 'bytes'):
            if py == 'tuple':
                return tuple(construct(it, c, kind, ruamel, memo) for c in n.value)
            return Unknown('python/' + py)
        if kind == 'full' and py.startswith(('object/apply', 'object/new', 'object:', 'name:', 'module:')):
            # FullLoader refuses modules that are not imported; numpy is imported by the package
            if py.startswith('name:') or py.startswith('object:'):
                it.event('yamlname', py)
            it.throw_cls(it.yaml_error, "could not determine a constructor for the tag '%s'" % tag)
        it.throw_cls(it.yaml_error, "could not determine a constructor for the tag '%s'" % tag)
    if isinstance(n, Y.ScalarNode):
        v = n.value
        if kind == 'base':
            return v
        m = TOKEN.fullmatch(v)
        if m is not None and n.style in (None, ''):
            return it.token_num(v)
        t = tag.rpartition(':')[2]
        try:
            if t == 'null':
                return None
            if t == 'bool':
                return Y.SafeLoader.bool_values[v.lower()]
            if t == 'int':
                return Y.SafeLoader('').construct_yaml_int(n)
            if t == 'float':
                return fnum(Y.SafeLoader('').construct_yaml_float(n))
        except (ValueError, KeyError) as e:
            it.throw(type(e), str(e))
        if t == 'timestamp':
            return Unknown('timestamp')
        if t == 'binary':
            return Unknown('binary')
        if ruamel and t == 'str' and n.style in (None, '') and re.fullmatch(r'[-+]?\d+(\.\d*)?[eE][-+]?\d+', v):
            return fnum(float(v))
        return v
    if isinstance(n, Y.SequenceNode):
        out = memo[id(n)] = (CSeq() if ruamel else [])
        for c in n.value:
            out.append(construct(it, c, kind, ruamel, memo))
        return out
    if isinstance(n, Y.MappingNode):
        if tag.rpartition(':')[2] == 'set':
            return ASet([construct(it, k, kind, ruamel, memo) for k, _ in n.value])
        if tag.rpartition(':')[2] in ('omap', 'pairs'):
            raise Gap("yaml omap")
        out = memo[id(n)] = (CMap() if ruamel else {})
        for k, v in n.value:
            if k.tag.endswith(':merge'):
                base = construct(it, v, kind, ruamel, memo)
                for b in (base if isinstance(base, list) else [base]):
                    for x, y in b.items():
                        out.setdefault(x, y)
                continue
            kk = construct(it, k, kind, ruamel, memo)
            if isinstance(kk, (list, dict)):
                it.throw_cls(it.yaml_error, "found unhashable key")
            if ruamel and kk in out:
                it.throw_cls(it.yaml_error, "found duplicate key")
            out[kk] = construct(it, v, kind, ruamel, memo)
        return out
    raise Gap("yaml node")


# ---------------------------------------------------------------- dump
class Ph(str):
    pass


class PyTag:
    def __init__(self, tag, text):
        self.tag = tag
        self.text = text


class Lit(str):
    pass


class Qs(str):
    pass


def mirror(it, v, safe, ruamel, memo):
    if isinstance(v, Phi):
        raise Gap("dump of gated value")
    if isinstance(v, Unknown):
        raise Gap("dump of unknown")
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, str):
        s = TOKEN.sub(lambda m: 'QzTok%dQzT' % dec(m.group(1)), v)
        return Qs(s) if TOKEN.fullmatch(v) or (ruamel and re.fullmatch(r'[-+]?\d+(\.\d*)?[eE][-+]?\d+', v)) else s      # looks like a number: emitted in quotes
    if isinstance(v, Num):
        if v.np:
            if safe or ruamel:
                it.throw_cls(it.yaml_rep_error, "cannot represent an object", v)
            return PyTag('tag:yaml.org,2002:python/object/apply:numpy._core.multiarray.scalar', 'np')
        if v.kind == 'c':
            if safe:
                it.throw_cls(it.yaml_rep_error, "cannot represent an object", v)
            return PyTag('tag:yaml.org,2002:python/complex', 'c')
        if v.special:
            return v.const()
        if v.nf.is_const():
            return int(v.nf.const_value()) if v.kind == 'i' else float(v.nf.const_value())
        tok = it.token(v)
        return Ph('QzTok%dQzT' % dec(TOKEN.fullmatch(tok).group(1)))
    if isinstance(v, NBool):
        if safe or ruamel:
            it.throw_cls(it.yaml_rep_error, "cannot represent an object", v)
        return PyTag('tag:yaml.org,2002:python/object/apply:numpy._core.multiarray.scalar', 'np')
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, list):
        out = []
        memo[id(v)] = (out, v)
        out.extend(mirror(it, x, safe, ruamel, memo) for x in v)
        return out
    if isinstance(v, tuple):
        if safe or ruamel:
            return [mirror(it, x, safe, ruamel, memo) for x in v]
        return tuple(mirror(it, x, safe, ruamel, memo) for x in v)
    if isinstance(v, (ODict, CMap)) and not ruamel:
        if safe:
            it.throw_cls(it.yaml_rep_error, "cannot represent an object", v)
        return PyTag('tag:yaml.org,2002:python/object/apply:collections.OrderedDict', 'od')
    if isinstance(v, dict):
        out = {}
        memo[id(v)] = (out, v)
        for k, x in v.items():
            out[mirror(it, k, safe, ruamel, memo)] = mirror(it, x, safe, ruamel, memo)
        return out
    if isinstance(v, ASet):
        return {mirror(it, x, safe, ruamel, memo) for x in v.items}
    if isinstance(v, Arr):
        if safe or ruamel:
            it.throw_cls(it.yaml_rep_error, "cannot represent an object", v)
        return PyTag('tag:yaml.org,2002:python/object/apply:numpy._core.multiarray._reconstruct', 'arr')
    if safe or ruamel:
        it.throw_cls(it.yaml_rep_error, "cannot represent an object", v)
    return PyTag('tag:yaml.org,2002:python/object:%s' % it.typename(v), 'obj')


class Dump(Y.Dumper):
    pass


Dump.add_representer(Ph, lambda d, v: d.represent_scalar('tag:yaml.org,2002:float', str(v)))
Dump.add_representer(Qs, lambda d, v: d.represent_scalar('tag:yaml.org,2002:str', str(v), style="'"))
Dump.add_representer(PyTag, lambda d, v: d.represent_scalar(v.tag, v.text))
Dump.add_representer(Lit, lambda d, v: d.represent_scalar('tag:yaml.org,2002:str', str(v), style='|'))


def dump(it, a, k, safe=False, ruamel=False):
    names = ['data', 'stream', 'Dumper']
    p = dict(zip(names, a))
    p.update(k)
    p.pop('Dumper', None)
    data = mirror(it, p.pop('data'), safe, ruamel, {})
    stream = p.pop('stream', None)
    kw = {}
    for q in ('default_flow_style', 'sort_keys', 'allow_unicode', 'indent', 'width', 'explicit_start',
              'explicit_end', 'default_style', 'line_break', 'encoding', 'canonical', 'version', 'tags'):
        if q in p:
            kw[q] = p.pop(q)
    enc = kw.pop('encoding', None)
    if p:
        it.throw(TypeError, "dump() got an unexpected keyword argument '%s'" % sorted(p)[0])
    if isinstance(kw.get('width'), Num):
        kw['width'] = float('inf') if kw['width'].special else int(kw['width'].const())
    try:
        text = Y.dump(data, None, Dumper=Dump, **kw)
    except Y.YAMLError as e:
        it.throw_cls(it.yaml_error, str(e))
    except TypeError as e:
        it.throw(TypeError, str(e))
    text = re.sub(r"!!float '?(QzTok\d+QzT)'?", r'\1', text)

    def back(m):
        from .text import enc as tenc
        return tenc(int(m.group(1)))
    text = PH.sub(back, text)
    if stream is None:
        return text if enc is None else text.encode(enc)
    if isinstance(stream, Phi) or isinstance(stream, Unknown):
        raise Gap("dump stream")
    stream.m_write(it, text)
    return None


class RYaml(ModelObj):
    tname = 'YAML'

    def __init__(self, typ, pure=None):
        self.typ = typ
        self.attrs = {}

    def m_load(self, it, s):
        k = 'unsafe' if self.typ == 'unsafe' else 'safe'
        return load(it, s, k, ruamel=True)

    def m_dump(self, it, data, stream=None, **k):
        kw = {'sort_keys': False, 'default_flow_style': False, 'allow_unicode': True}
        if 'width' in self.attrs:
            kw['width'] = self.attrs['width']
        return dump(it, [data, stream], kw, ruamel=True)

    def m_indent(self, it, *a, **k):
        return None

    def setattr_(self, it, name, v):
        self.attrs[name] = v

    def getattr_(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        return ABSENT


def install(it, have_ruamel):
    mods = {}
    Err = AClass('YAMLError', [ExcType(Exception)], {}, Module('yaml', {}))
    ConErr = AClass('ConstructorError', [Err], {}, Module('yaml', {}))
    RepErr = AClass('RepresenterError', [Err], {}, Module('yaml', {}))
    it.yaml_error = ConErr
    it.yaml_rep_error = RepErr

    def throw_cls(cls, *args):
        raise AbsRaise(ExcVal(cls, list(args), it.where(), it.callstack()))
    it.throw_cls = throw_cls

    def F(name, f):
        return ExtFunc(name, f)

    class LoaderT(ModelObj):
        tname = 'Loader'

        def __init__(self, kind):
            self.kind = kind

        def m_add_constructor(self, it, *a, **k):
            it.event('yamlctor', a[0] if a else None)
            raise Gap("yaml constructor registration")

        m_add_multi_constructor = m_add_constructor
        m_add_implicit_resolver = m_add_constructor

    L = {}
    for n, kd in (('SafeLoader', 'safe'), ('CSafeLoader', 'safe'), ('FullLoader', 'full'), ('CFullLoader', 'full'),
                  ('Loader', 'unsafe'), ('CLoader', 'unsafe'), ('UnsafeLoader', 'unsafe'),
                  ('CUnsafeLoader', 'unsafe'), ('BaseLoader', 'base')):
        L[n] = LoaderT(kd)

    def kind_of_loader(it, l):
        if isinstance(l, LoaderT):
            return l.kind
        if isinstance(l, AClass):
            for c in l.mro:
                if isinstance(c, LoaderT):
                    return c.kind
        raise Gap("yaml loader")

    def f_load(it, a, k):
        p = dict(zip(['stream', 'Loader'], a))
        p.update(k)
        if 'Loader' not in p:
            it.throw(TypeError, "load() missing 1 required positional argument: 'Loader'")
        return load(it, p['stream'], kind_of_loader(it, p['Loader']))

    def f_load_all(it, a, k):
        raise Gap("yaml.load_all")

    def one(kind):
        return lambda it, a, k: load(it, a[0] if a else k['stream'], kind)
    ns = dict(L)
    ns.update({'load': F('yaml.load', f_load), 'safe_load': F('yaml.safe_load', one('safe')),
               'full_load': F('yaml.full_load', one('full')), 'unsafe_load': F('yaml.unsafe_load', one('unsafe')),
               'load_all': F('load_all', f_load_all), 'safe_load_all': F('safe_load_all', f_load_all),
               'dump': F('yaml.dump', lambda it, a, k: dump(it, a, k)),
               'safe_dump': F('yaml.safe_dump', lambda it, a, k: dump(it, a, k, True)),
               'SafeDumper': Unknown('SafeDumper'), 'Dumper': Unknown('Dumper'),
               'YAMLError': Err, '__version__': '6.0.1',
               'constructor': Module('yaml.constructor', {'ConstructorError': ConErr}),
               'scanner': Module('yaml.scanner', {'ScannerError': ConErr}),
               'parser': Module('yaml.parser', {'ParserError': ConErr}),
               'representer': Module('yaml.representer', {'RepresenterError': RepErr}),
               'error': Module('yaml.error', {'YAMLError': Err})})
    m = Module('yaml', ns)
    m.external = True
    mods['yaml'] = m
    if have_ruamel:
        def walk_tree(it, a, k):
            return None
        scal = Module('ruamel.yaml.scalarstring', {
            'walk_tree': F('walk_tree', walk_tree),
            'LiteralScalarString': F('LSS', lambda it, a, k: a[0]),
            'PreservedScalarString': F('PSS', lambda it, a, k: a[0])})
        com = Module('ruamel.yaml.comments', {
            'CommentedMap': TypeObj('CommentedMap', lambda v: isinstance(v, CMap),
                                    lambda it, a, k: CMap(it._mk_dict(it, a, k))),
            'CommentedSeq': TypeObj('CommentedSeq', lambda v: isinstance(v, CSeq),
                                    lambda it, a, k: CSeq(it.iterate(a[0]) if a else []))})
        ry = Module('ruamel.yaml', {
            'YAML': F('YAML', lambda it, a, k: RYaml(k.get('typ', a[0] if a else 'rt'))),
            'scalarstring': scal, 'comments': com})
        ru = Module('ruamel', {'yaml': ry})
        for x in (scal, com, ry, ru):
            x.external = True
            mods[x.name] = x
    return mods
