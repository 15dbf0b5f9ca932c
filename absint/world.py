"""one analysis world: source of the package, library models, abstract environment"""
import ast
import glob
import os
import sys
from . import nf as NFM
from .nf import NF, Space, Order
from .values import *
from .fs import FS
from .m_plot import Plot
from .flow import Dead, SIGNALS, Ret

sys.setrecursionlimit(20000)

REPO = os.environ.get('DISPERSION_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
_asts = {}


def source_files():
    out = []
    for d, ds, fs in os.walk(os.path.join(SRC, 'dispersion')):
        ds[:] = [x for x in ds if x != '__pycache__']
        for f in sorted(fs):
            if f.endswith('.py'):
                out.append(os.path.join(d, f))
    return sorted(out)


def parse(path):
    if path not in _asts:
        with open(path, encoding='utf-8') as f:
            text = f.read()
        _asts[path] = ast.parse(text, path)
    return _asts[path]


LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib')


def _gap(it, a, k):
    raise Gap(a[0] if a else 'prelude')


def _prelude_names():
    return {f[8:-3].replace('_', '.') for f in os.listdir(LIB) if f.startswith('prelude_')}


def site_dirs():
    return glob.glob('/opt/venv/lib/python3*/site-packages') or \
        [d for d in sys.path if d.endswith('site-packages')]


def stdlib_submodule(name):
    rel = name.replace('.', '/')
    d = os.path.dirname(os.__file__)
    return os.path.isdir(os.path.join(d, rel)) or os.path.isfile(os.path.join(d, rel + '.py')) or name == 'os.path'


class World:
    def __init__(self, seed=1, style='posix', ruamel=False, yaml=True, locale='utf-8', set_reverse=False,
                 environ=None, inputs=(), home_config=True, qgrid=False):
        self.space = Space(seed)
        self.order = Order()
        self.space.context = lambda: [Cond('cmp', '==' if r == '=' else r, a, b) for a, r, b in self.order.facts]
        self.events = []
        self.owned = {}
        self.mutations = []
        self.global_writes = []
        self.callsites = set()
        self.functions = set()
        self.modules = {}
        self.loading = set()
        self.set_reverse = set_reverse
        self.list_fixed = False
        self.max_steps = 3000000
        self.max_depth = 120
        self.max_undecided_loop = 6
        self.max_joins = 3000
        self.max_join_depth = 24
        self.tokens = []
        self.token_ids = {}
        self.printoptions = {}
        self.inputs = list(inputs)
        self.roundings = []
        self.rounding_free = False
        self.round_exact = False      # True: rounding is never the identity, however fine
        self.tempdirs = []
        self.plot = Plot()
        self.have_qgrid = qgrid
        self.tempfiles = []
        self.yaml_cache = {}
        self.locale_encoding = locale
        self.have_ruamel = ruamel
        self.have_yaml = yaml
        if environ is None:
            environ = {'HOME': '/home/u'} if style == 'posix' else \
                {'USERPROFILE': 'C:\\Users\\u', 'APPDATA': 'C:\\Users\\u\\AppData\\Roaming',
                 'LOCALAPPDATA': 'C:\\Users\\u\\AppData\\Local'}
        self.environ = environ
        self.pw_home = '/home/u' if style == 'posix' else 'C:\\Users\\u'
        self.nfresh = 0
        self.fs = FS(self, style)
        self.fs.mkdirs(self.pw_home)
        if home_config:
            if style == 'posix':
                self.fs.mkdirs('/home/u/.config')
            else:
                self.fs.mkdirs('C:\\Users\\u\\AppData\\Roaming')
                self.fs.mkdirs('C:\\Users\\u\\AppData\\Local')
        # the package's own files
        self.pkgdir = '/pkg/dispersion' if style == 'posix' else 'C:\\pkg\\dispersion'
        from .interp import Interp
        self.it = Interp(self)

    # ---- numbers
    def sym(self, name, scale=1.0, sign='+', real=True, rank=None, np=False, kind=None):
        n = self.space.sym(name, scale, sign, real, rank)
        return Num(n, kind or ('f' if real else 'c'), np)

    def grid(self, name, n, scale=1.0, kind='f', np=True, start=1, reverse=False):
        """n ordered positive symbols name0 < name1 < ...; samples respect the order"""
        import random
        out = []
        K = NFM.K
        for j in range(start, start + n):
            vals = []
            for k in range(K):
                r = random.Random("%s/%s/%d" % (self.space.seed, name, k))
                u, v = r.uniform(0.5, 0.9), r.uniform(0.11, 0.23)
                jit = random.Random("%s/%s/%d/%d" % (self.space.seed, name, k, j)).uniform(-0.3, 0.3)
                vals.append(scale * (u + v * (j + jit)))
            out.append(Num(self.space.sym('%s%d' % (name, j), scale, '+', True,
                                          rank=(('grid', name), j), vals=vals), kind, np))
        return out

    def fresh(self):
        self.nfresh += 1
        return Num(self.space.sym('uninit%d' % self.nfresh, sign=None), 'f', True)

    def order_group(self, nums, rel):
        """nums is monotone in the direction rel (a subset of {'<','=','>'})"""
        if rel == {'<'}:
            op = '<'
        elif rel == {'>'}:
            op = '>'
        elif rel == {'='}:
            op = '='
        elif rel == {'<', '='}:
            op = '<='
        elif rel == {'>', '='}:
            op = '>='
        else:
            return
        if len(nums) > 60:
            # ranks order the interior; relate it to the end points
            for a, b in ((nums[0], nums[1]), (nums[-2], nums[-1])):
                self.order.add(a.nf, op, b.nf)
            return
        for a, b in zip(nums, nums[1:]):
            if not a.special and not b.special:
                self.order.add(a.nf, op, b.nf)

    def own(self, obj, label):
        """mark a caller-owned object (and what it holds) for the mutation log"""
        seen = set()

        def rec(o, lbl):
            if id(o) in seen:
                return
            seen.add(id(o))
            if isinstance(o, Arr):
                self.owned[id(o.buf)] = (lbl, o.buf)
                self.owned[id(o)] = (lbl, o)
            elif isinstance(o, AObj):
                self.owned[id(o)] = (lbl, o)
                for k, v in o.attrs.items():
                    rec(v, lbl + '.' + k)
            elif isinstance(o, dict):
                self.owned[id(o)] = (lbl, o)
                for k, v in o.items():
                    rec(v, "%s[%r]" % (lbl, k))
            elif isinstance(o, (list,)):
                self.owned[id(o)] = (lbl, o)
                for i, v in enumerate(o):
                    rec(v, "%s[%d]" % (lbl, i))
            elif isinstance(o, tuple):
                for i, v in enumerate(o):
                    rec(v, "%s[%d]" % (lbl, i))
        rec(obj, label)

    # ---- modules
    def find_spec(self, name):
        if name in self.ext or name.split('.')[0] == 'dispersion' or self.installed(name):
            return Unknown('spec')
        return None

    def import_module(self, name, it):
        if name in self.modules:
            return self.modules[name]
        if name in self.ext:
            return self.ext[name]
        if name.split('.')[0] == 'dispersion':
            return self.load(name, it)
        if not self.installed(name):
            it.throw(ModuleNotFoundError, "No module named '%s'" % name)
        # present in the environment, not modelled: its attributes are unknown
        m = self.ext[name] = Module(name, {}, None)
        m.external = True
        m.lazy = lambda it, a: ABSENT if a.startswith('__') else Unknown(name + '.' + a)
        return m

    def installed(self, name):
        top = name.split('.')[0]
        if top in ('ruamel', 'yaml', 'qgrid'):
            return False
        if name != top and name in _prelude_names():
            return True
        if top in sys.stdlib_module_names:
            return name == top or stdlib_submodule(name)
        rel = name.replace('.', '/')
        for d in site_dirs():
            if os.path.isdir(os.path.join(d, rel)) or os.path.isfile(os.path.join(d, rel + '.py')) \
                    or glob.glob(os.path.join(glob.escape(d), rel + '.*.so')):
                return True
        return False

    def prelude(self, mod, name, it):
        """attribute of a library module written in python in absint/lib and interpreted like the code"""
        from .interp import Env
        key = '<%s>' % mod
        m = self.modules.get(key)
        if m is None:
            path = os.path.join(LIB, 'prelude_%s.py' % mod.replace('.', '_'))
            if not os.path.isfile(path):
                return ABSENT
            m = Module(key, {'__name__': key, '__gap__': ExtFunc('__gap__', _gap),
                             '__abs__': it.builtins['abs']}, path)
            m.prelude = True
            m.imported = ()
            self.modules[key] = m
            env = Env(frozenset(), None, m)
            env.vars = m.ns
            it.stack.append(env)
            try:
                it.block(parse(path).body, env)
            finally:
                it.stack.pop()
            m.ns = dict(m.ns)
            m.imported = {k for k, v in m.ns.items() if isinstance(v, Module)}
        if name.startswith('_') or name not in m.ns or name in m.imported:
            return ABSENT
        return m.ns[name]

    def load(self, name, it):
        from .interp import Env
        parts = name.split('.')
        if len(parts) > 1:
            self.import_module('.'.join(parts[:-1]), it)
            if name in self.modules:
                return self.modules[name]
        base = os.path.join(SRC, *parts)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            path, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            path, pkg = base + '.py', False
        else:
            it.throw(ModuleNotFoundError, "No module named '%s'" % name)
        try:
            tree = parse(path)
        except SyntaxError as e:
            raise Gap("syntax error in %s: %s" % (path, e))
        rel = os.path.relpath(path, os.path.join(SRC, 'dispersion'))
        m = Module(name, {'__name__': name, '__file__': self.fs.P.join(self.pkgdir, *rel.split('/')),
                          '__doc__': '', '__package__': name if pkg else name.rpartition('.')[0]}, path)
        m.is_pkg = pkg
        self.modules[name] = m
        env = Env(frozenset(), None, m)
        env.vars = m.ns
        it.stack.append(env)
        try:
            it.block(tree.body, env)
        except AbsRaise:
            del self.modules[name]
            raise
        finally:
            it.stack.pop()
        if len(parts) > 1:
            par = self.modules.get('.'.join(parts[:-1]))
            if par is not None:
                par.ns[parts[-1]] = m
        return m


class Outcome:
    """one exit of an analysed entry"""

    def __init__(self, kind, value, guards, exc=None):
        self.kind = kind          # 'ok' | 'raise'
        self.value = value
        self.guards = guards
        self.exc = exc

    def opaque(self):
        return any(g.opaque() for g in self.guards)

    def text(self):
        g = " and ".join(x.text() for x in self.guards)
        if self.kind == 'raise':
            return "%r at %s%s" % (self.exc, self.exc.site, " when " + g if g else "")
        return "%r%s" % (self.value, " when " + g if g else "")

    __repr__ = text


def run(world, f):
    """analyse f() (a python callable driving the interpreter) and collect all its exits;
    the state left behind is the joined normal state (or the base state when there is none)"""
    it = world.it
    tgt = it.open_target()
    sig, dead, value = None, False, None
    st = it.save_stack()
    try:
        value = f()
    except SIGNALS as e:
        it.restore_stack(st)
        sig = e
    except Dead:
        it.restore_stack(st)
        dead = True
    except BaseException:
        it.restore_stack(st)
        while it.targets and it.targets[-1] is not tgt:
            it.targets.pop()
        if it.targets:
            it.targets.pop()
        raise
    if not tgt.exits and not dead:
        it.targets.pop()
        if sig is None:
            return [Outcome('ok', value, [])]
        if isinstance(sig, AbsRaise):
            return [Outcome('raise', None, [], sig.exc)]
        raise Gap("signal %r" % sig)
    alts = it.close_target(tgt, value, sig, dead)
    outs = []
    norm = []
    for g, s, d, v in alts:
        if s is None:
            norm.append((g, s, d, v))
        elif isinstance(s, AbsRaise):
            outs.append(Outcome('raise', None, list(g), s.exc))
        else:
            raise Gap("signal %r" % s)
    if len(norm) == 1:
        g, s, d, v = norm[0]
        it.apply(d)
        for q in g:
            it.assume(q)
        outs.append(Outcome('ok', v, list(g)))
    elif norm:
        v = it.join([(it.guard_cond(g), d, x) for g, _, d, x in norm])
        outs.append(Outcome('ok', v, []))
    return outs
