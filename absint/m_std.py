"""standard library modules"""
import re as _re
from . import nf as NFM
from .nf import NF
from .values import *
from .numops import is_num
from .text import T0, TOKEN
from .fs import Handle, StrIO, PathObj
from . import m_plot


def os_mkdir(it, p, parents=False, exist_ok=False):
    fs = it.w.fs
    raw = fs.path(it, p)
    full = fs.norm(raw)
    if fs.is_dir(full) or fs.is_file(full):
        if exist_ok and fs.is_dir(full):
            return None
        it.throw(FileExistsError, 17, "File exists: %s" % raw)
    par = fs.P.dirname(full)
    if not fs.is_dir(par):
        if not parents or par == full:
            it.throw(FileNotFoundError, 2, "No such file or directory: %s" % raw)
        os_mkdir(it, par, True, True)
    if any(full == r or full.startswith(r + fs.P.sep) for r in fs.readonly):
        it.throw(PermissionError, 13, "Permission denied: %s" % raw)
    it.event('mkdir', full)
    it.touch(fs)
    fs.dirs = set(fs.dirs)
    fs.dirs.add(full)
    return None


def os_remove(it, p):
    fs = it.w.fs
    full = fs.norm(fs.path(it, p))
    if full not in fs.files:
        it.throw(FileNotFoundError, 2, "No such file or directory: %s" % full)
    it.event('remove', full)
    it.touch(fs.files)
    del fs.files[full]


def os_rename(it, a, b):
    fs = it.w.fs
    x, y = fs.norm(fs.path(it, a)), fs.norm(fs.path(it, b))
    if x not in fs.files:
        if x in fs.dirs:
            raise Gap("rename of directory")
        it.throw(FileNotFoundError, 2, "No such file or directory: %s" % x)
    it.event('remove', x)
    it.event('create', y)
    it.touch(fs.files)
    fs.files[y] = fs.files.pop(x)


def rmtree(it, p, ignore=False):
    fs = it.w.fs
    full = fs.norm(fs.path(it, p))
    it.event('rmtree', full)
    if full not in fs.dirs:
        if ignore:
            return None
        it.throw(FileNotFoundError, 2, "No such file or directory: %s" % full)
    pre = full + fs.P.sep
    it.touch(fs.files)
    for f in list(fs.files):
        if f.startswith(pre):
            del fs.files[f]
    it.touch(fs)
    fs.dirs = {d for d in fs.dirs if d != full and not d.startswith(pre)}


def listdir(it, p):
    fs = it.w.fs
    full = fs.norm(fs.path(it, p))
    if not fs.is_dir(full):
        if fs.is_file(full):
            it.throw(NotADirectoryError, 20, "Not a directory: %s" % full)
        it.throw(FileNotFoundError, 2, "No such file or directory: %s" % full)
    pre = full if full.endswith(fs.P.sep) else full + fs.P.sep
    out = set()
    for f in list(fs.files) + list(fs.dirs):
        if f.startswith(pre) and f != pre:
            out.add(f[len(pre):].split(fs.P.sep)[0])
    out = sorted(x for x in out if x)
    if it.w.set_reverse is True and not it.w.list_fixed:
        out.reverse()
    it.event('listdir', full)
    return out


def walk(it, p):
    fs = it.w.fs
    res = []

    def rec(d):
        names = listdir(it, d)
        dirs = [n for n in names if fs.is_dir(fs.P.join(d, n))]
        files = [n for n in names if fs.is_file(fs.P.join(d, n))]
        res.append((d, dirs, files))
        for n in dirs:
            rec(fs.P.join(d, n))
    if fs.is_dir(p):
        rec(p)
    return it._gen(res)


def glob_(it, root, pat):
    """names below root (a directory) that match the relative pattern"""
    import fnmatch
    fs = it.w.fs
    parts = [x for x in pat.replace('\\', '/').split('/') if x]
    out = []

    def rec(rel, ps):
        d = fs.P.join(root, rel) if rel else root
        if not ps:
            out.append(rel)
            return
        if ps[0] == '**':
            if len(ps) == 1:
                out.append(rel)
            else:
                rec(rel, ps[1:])
            for n in (listdir(it, d) if fs.is_dir(d) else ()):
                x = fs.P.join(rel, n) if rel else n
                if fs.is_dir(fs.P.join(root, x)) and not n.startswith('.'):
                    rec(x, ps)
            return
        if not any(c in ps[0] for c in '*?['):
            x = fs.P.join(rel, ps[0]) if rel else ps[0]
            if fs.is_dir(fs.P.join(root, x)) or (len(ps) == 1 and fs.is_file(fs.P.join(root, x))):
                rec(x, ps[1:])
            return
        for n in (listdir(it, d) if fs.is_dir(d) else ()):
            if fnmatch.fnmatchcase(n, ps[0]) and (not n.startswith('.') or ps[0].startswith('.')):
                x = fs.P.join(rel, n) if rel else n
                if len(ps) == 1 or fs.is_dir(fs.P.join(root, x)):
                    rec(x, ps[1:])
    rec('', parts)
    return out


def f_glob(it, a, k):
    fs = it.w.fs
    pat = fs.path(it, a[0])
    rd = k.get('root_dir')
    if rd is not None:
        return glob_(it, fs.path(it, rd), pat)
    if it.truth(k.get('recursive', False)) is not True:
        pat = pat.replace('**', '*')
    drive, rest = fs.P.splitdrive(pat)
    segs = rest.replace('\\', '/').split('/') if fs.style == 'nt' else rest.split('/')
    fixed = []
    while segs and not any(c in segs[0] for c in '*?['):
        fixed.append(segs.pop(0))
    if not segs:
        return [pat] if fs.is_file(pat) or fs.is_dir(pat) else []
    root = drive + fs.P.sep.join(fixed)
    if rest[:1] in ('/', '\\') and len(fixed) == 1:
        root = drive + fs.P.sep
    names = glob_(it, root or '.', '/'.join(segs))
    return [fs.P.join(root, n) if root else n for n in names]


class DirEnt(ModelObj):
    tname = 'DirEntry'

    def __init__(self, fs, d, n):
        self.fs, self.n, self.p = fs, n, fs.P.join(d, n)

    def a_name(self, it):
        return self.n

    def a_path(self, it):
        return self.p

    def m_is_file(self, it, follow_symlinks=True):
        return self.fs.is_file(self.p)

    def m_is_dir(self, it, follow_symlinks=True):
        return self.fs.is_dir(self.p)

    def m_is_symlink(self, it):
        return False


class ScanDir(ModelObj):
    tname = 'ScandirIterator'

    def __init__(self, items):
        self.items = items

    def op_iter(self, it):
        return self.items

    def m___enter__(self, it):
        return self

    def m___exit__(self, it, *a):
        return False

    def m_close(self, it):
        return None


class TempDir(ModelObj):
    tname = 'TemporaryDirectory'

    def __init__(self, it, k):
        fs = it.w.fs
        self.p = fs.P.join('/tmp' if fs.style == 'posix' else 'C:\\Temp', 'tmp%d' % fs.fresh())
        fs.mkdirs(fs.P.dirname(self.p))
        fs.mkdirs(self.p)
        it.w.tempdirs.append(self.p)

    def a_name(self, it):
        return self.p

    def m___enter__(self, it):
        return self.p

    def m___exit__(self, it, exc=None, *a):
        self.m_cleanup(it)
        return False

    def m_cleanup(self, it):
        if self.p in it.w.fs.dirs:
            rmtree(it, self.p, True)


def nt_temp(it, k, delete=True):
    fs = it.w.fs
    d = k.get('dir')
    if d is None:
        d = '/tmp' if fs.style == 'posix' else 'C:\\Temp'
        fs.mkdirs(d)
    p = fs.P.join(fs.path(it, d), (k.get('prefix') or 'tmp') + '%d' % fs.fresh() + (k.get('suffix') or ''))
    h = fs.open_(it, [p, k.get('mode', 'w+b').replace('w', 'w')], {'encoding': k.get('encoding')})
    it.w.tempfiles.append(h.path)
    return h


def mkstemp(it, k):
    h = nt_temp(it, {'dir': k.get('dir'), 'prefix': k.get('prefix'), 'suffix': k.get('suffix')})
    return (h, h.path)


class Environ(ModelObj):
    tname = 'environ'

    def __init__(self, d):
        self.d = d

    def op_getitem(self, it, k):
        if k not in self.d:
            it.throw(KeyError, k)
        return self.d[k]

    def op_contains(self, it, k):
        return k in self.d

    def op_setitem(self, it, k, v):
        it.event('setenv', k)
        self.d[k] = v

    def m_get(self, it, k, default=None):
        return self.d.get(k, default)

    def m_keys(self, it):
        return list(self.d)

    def m_items(self, it):
        return list(self.d.items())

    def m_copy(self, it):
        return dict(self.d)

    def op_iter(self, it):
        return list(self.d)


def expanduser(it, p):
    fs = it.w.fs
    p = fs.path(it, p)
    if p == '~' or p.startswith('~/') or p.startswith('~\\'):
        home = it.w.environ.get('HOME' if fs.style == 'posix' else 'USERPROFILE')
        if home is None:
            home = it.w.pw_home
        return home.rstrip('/') + p[1:]
    return p


class Stream(ModelObj):
    tname = 'TextIOWrapper'

    def __init__(self, name):
        self.name = name

    def m_write(self, it, s):
        it.event('print', s)
        return 0

    def m_flush(self, it):
        return None

    def m_isatty(self, it):
        return False

    def m_close(self, it):
        return None

    def m_readline(self, it):
        return it._input(it, [], {}) + '\n'

    def a_encoding(self, it):
        return it.w.locale_encoding


class Match(ModelObj):
    tname = 're.Match'

    def __init__(self, m):
        self.m = m

    def m_group(self, it, *a):
        a = [it.as_int(x) if not isinstance(x, str) else x for x in a]
        return self.m.group(*a)

    def m_groups(self, it, default=None):
        return self.m.groups(default)

    def m_groupdict(self, it):
        return self.m.groupdict()

    def m_start(self, it, *a):
        return self.m.start(*a)

    def m_end(self, it, *a):
        return self.m.end(*a)

    def m_span(self, it, *a):
        return self.m.span(*a)

    def op_getitem(self, it, k):
        return self.m[k]

    def op_truth(self, it):
        return True


class Pattern(ModelObj):
    tname = 're.Pattern'

    def __init__(self, p, flags=0):
        try:
            self.rx = _re.compile(p, flags)
        except _re.error:
            raise Gap("regular expression")
        self.p = p
        self.flags = flags


def rx(it, p, flags=0):
    if isinstance(p, Pattern):
        return p
    if not isinstance(p, str) or not isinstance(flags, int):
        raise Gap("regular expression argument")
    return Pattern(p, flags)


NUMERIC_CLASS = _re.compile(r'\\d|\\w|0-9|\\S|\.')


def re_guard(it, p, s):
    """regular expressions are applied to constant text; number tokens are opaque"""
    if not isinstance(s, str):
        raise Gap("regular expression on unknown text")
    if T0 in s and NUMERIC_CLASS.search(p.p.replace('\\.', '')):
        raise Gap("regular expression %r may look into a formatted number" % p.p)


def re_call(kind):
    def f(it, a, k):
        flags = k.get('flags', 0)
        if kind in ('sub', 'subn'):
            p = rx(it, a[0], flags if len(a) < 5 else a[4])
            repl, s = a[1], a[2]
            re_guard(it, p, s)
            cnt = k.get('count', a[3] if len(a) > 3 else 0)
            if isinstance(repl, str):
                r = repl
            else:
                def r(m):
                    v = it.call(repl, [Match(m)], {})
                    if not isinstance(v, str):
                        raise Gap("re.sub callback")
                    return v
            out = p.rx.subn(r, s, count=it.as_int(cnt))
            return out[0] if kind == 'sub' else out
        p = rx(it, a[0], flags if len(a) < 3 or kind == 'split' else a[2])
        s = a[1]
        re_guard(it, p, s)
        if kind in ('match', 'search', 'fullmatch'):
            m = getattr(p.rx, kind)(s)
            return Match(m) if m else None
        if kind == 'findall':
            return p.rx.findall(s)
        if kind == 'finditer':
            return it._gen([Match(m) for m in p.rx.finditer(s)])
        if kind == 'split':
            return p.rx.split(s, maxsplit=it.as_int(k.get('maxsplit', a[2] if len(a) > 2 else 0)))
        raise Gap("re." + kind)
    return f


for _n in ('sub', 'subn', 'match', 'search', 'fullmatch', 'findall', 'finditer', 'split'):
    def _mk(n):
        def m(self, it, *a, **k):
            return re_call(n)(it, [self] + list(a), k)
        return m
    setattr(Pattern, 'm_' + _n, _mk(_n))


def deepcopy(it, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, AObj) and getattr(v.cls, 'enum', None) is not None:
        return v
    if id(v) in memo:
        return memo[id(v)][0]

    def put(n):
        memo[id(v)] = (n, v)
        return n
    if isinstance(v, list):
        out = put([])
        out.extend(deepcopy(it, x, memo) for x in v)
        return out
    if isinstance(v, tuple):
        return tuple(deepcopy(it, x, memo) for x in v)
    if isinstance(v, dict):
        out = put(type(v)())
        for k, x in v.items():
            out[k] = deepcopy(it, x, memo)
        if hasattr(v, 'default_factory'):
            out.default_factory = v.default_factory
        return out
    if isinstance(v, ASet):
        return put(ASet([deepcopy(it, x, memo) for x in v.items]))
    if isinstance(v, Arr):
        return put(v.copy())
    if isinstance(v, AObj):
        m = v.cls.lookup('__deepcopy__')
        if m is not None:
            return put(it.call(Bound(m, v), [{}], {}))
        o = put(AObj(v.cls))
        for k, x in v.attrs.items():
            o.attrs[k] = deepcopy(it, x, memo)
        return o
    if isinstance(v, Phi):
        return Phi(v.cond, deepcopy(it, v.a, memo), deepcopy(it, v.b, memo))
    if isinstance(v, Bound):
        return Bound(v.func, deepcopy(it, v.self_, memo))
    if hasattr(v, 'op_deepcopy'):
        return put(v.op_deepcopy(it, memo))
    return v


def shallow(it, v):
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        out = type(v)()
        out.update(v)
        return out
    if isinstance(v, ASet):
        return ASet(v.items)
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, AObj):
        m = v.cls.lookup('__copy__')
        if m is not None:
            return it.call(Bound(m, v), [], {})
        o = AObj(v.cls)
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, Phi):
        return it.lift(lambda x: shallow(it, x), v)
    if hasattr(v, 'op_copy'):
        return v.op_copy(it)
    return v


class ABCMetaStub(ModelObj):
    tname = 'ABCMeta'


def install(it):
    w = it.w
    fs = w.fs
    mods = {}

    def mod(name, ns, lazy=None):
        m = Module(name, ns)
        m.external = True
        if lazy:
            m.lazy = lazy
        mods[name] = m
        return m

    def F(name, f, phi_ok=False):
        e = ExtFunc(name, f)
        e.phi_ok = phi_ok
        return e
    P = fs.P

    def S(it, x):
        return fs.path(it, x)

    # ---- os.path
    pns = {
        'join': F('join', lambda it, a, k: P.join(*[S(it, x) for x in a])),
        'splitext': F('splitext', lambda it, a, k: tuple(P.splitext(S(it, a[0])))),
        'basename': F('basename', lambda it, a, k: P.basename(S(it, a[0]))),
        'dirname': F('dirname', lambda it, a, k: P.dirname(S(it, a[0]))),
        'split': F('split', lambda it, a, k: tuple(P.split(S(it, a[0])))),
        'normpath': F('normpath', lambda it, a, k: P.normpath(S(it, a[0]))),
        'normcase': F('normcase', lambda it, a, k: P.normcase(S(it, a[0]))),
        'isabs': F('isabs', lambda it, a, k: P.isabs(S(it, a[0]))),
        'abspath': F('abspath', lambda it, a, k: fs.norm(S(it, a[0]))),
        'realpath': F('realpath', lambda it, a, k: fs.norm(S(it, a[0]))),
        'exists': F('exists', lambda it, a, k: fs.is_file(S(it, a[0])) or fs.is_dir(S(it, a[0]))),
        'lexists': F('lexists', lambda it, a, k: fs.is_file(S(it, a[0])) or fs.is_dir(S(it, a[0]))),
        'isfile': F('isfile', lambda it, a, k: fs.is_file(S(it, a[0]))),
        'isdir': F('isdir', lambda it, a, k: fs.is_dir(S(it, a[0]))),
        'islink': F('islink', lambda it, a, k: False),
        'expanduser': F('expanduser', lambda it, a, k: expanduser(it, a[0])),
        'expandvars': F('expandvars', lambda it, a, k: a[0] if '$' not in a[0] else Unknown('expandvars')),
        'relpath': F('relpath', lambda it, a, k: P.relpath(fs.norm(S(it, a[0])), fs.norm(S(it, a[1])) if len(a) > 1
                                                          else fs.cwd)),
        'commonpath': F('commonpath', lambda it, a, k: P.commonpath([S(it, x) for x in it.iterate(a[0])])),
        'commonprefix': F('commonprefix', lambda it, a, k: P.commonprefix([S(it, x) for x in it.iterate(a[0])])),
        'splitdrive': F('splitdrive', lambda it, a, k: tuple(P.splitdrive(S(it, a[0])))),
        'getsize': F('getsize', lambda it, a, k: Unknown('getsize')),
        'getmtime': F('getmtime', lambda it, a, k: Unknown('getmtime')),
        'sep': P.sep, 'altsep': P.altsep, 'pardir': '..', 'curdir': '.',
    }
    path = mod('os.path', pns)
    mods['posixpath'] = mods['ntpath'] = path

    def deny(name):
        def f(it, a, k):
            it.event('codeexec', ('os.' + name, a[0] if a else None))
            return Unknown('os.' + name)
        return F(name, f)
    ons = {
        'path': path, 'name': fs.style, 'sep': P.sep, 'linesep': '\n' if fs.style == 'posix' else '\r\n',
        'extsep': '.', 'pardir': '..', 'curdir': '.', 'devnull': '/dev/null', 'altsep': P.altsep,
        'environ': Environ(w.environ),
        'getenv': F('getenv', lambda it, a, k: w.environ.get(a[0], a[1] if len(a) > 1 else k.get('default'))),
        'getcwd': F('getcwd', lambda it, a, k: fs.cwd),
        'listdir': F('listdir', lambda it, a, k: listdir(it, a[0] if a else '.')),
        'walk': F('walk', lambda it, a, k: walk(it, fs.norm(S(it, a[0])))),
        'mkdir': F('mkdir', lambda it, a, k: os_mkdir(it, a[0])),
        'makedirs': F('makedirs', lambda it, a, k: os_mkdir(it, a[0], True, it.truth(
            k.get('exist_ok', a[2] if len(a) > 2 else False)) is True)),
        'remove': F('remove', lambda it, a, k: os_remove(it, a[0])),
        'unlink': F('unlink', lambda it, a, k: os_remove(it, a[0])),
        'rename': F('rename', lambda it, a, k: os_rename(it, a[0], a[1])),
        'replace': F('replace', lambda it, a, k: os_rename(it, a[0], a[1])),
        'rmdir': F('rmdir', lambda it, a, k: rmtree(it, a[0])),
        'fspath': F('fspath', lambda it, a, k: S(it, a[0])),
        'access': F('access', lambda it, a, k: fs.is_file(S(it, a[0])) or fs.is_dir(S(it, a[0]))),
        'chdir': F('chdir', lambda it, a, k: it.event('chdir', a[0])),
        'getpid': F('getpid', lambda it, a, k: 4242),
        'close': F('close', lambda it, a, k: None),
        'fsync': F('fsync', lambda it, a, k: None),
        'F_OK': 0, 'R_OK': 4, 'W_OK': 2, 'X_OK': 1,
        'PathLike': TypeObj('PathLike', lambda v: isinstance(v, PathObj)),
    }
    for n in ('system', 'popen', 'execv', 'execve', 'spawnv', 'startfile'):
        ons[n] = deny(n)
    ons['scandir'] = F('scandir', lambda it, a, k: ScanDir(
        [DirEnt(fs, S(it, a[0] if a else '.'), n) for n in listdir(it, a[0] if a else '.')]))

    def fdopen(it, a, k):
        h = a[0]
        if not isinstance(h, Handle):
            raise Gap("fdopen")
        p = dict(zip(['fd', 'mode', 'buffering', 'encoding'], a), **k)
        h.mode = p.get('mode', 'r')
        h.enc = p.get('encoding') or w.locale_encoding
        fs.files[h.path].enc = h.enc
        return h
    ons['fdopen'] = F('fdopen', fdopen)

    def os_close(it, a, k):
        if isinstance(a[0], Handle):
            a[0].closed = True
    ons['close'] = F('close', os_close)
    ons['replace'] = F('replace', lambda it, a, k: os_rename(it, a[0], a[1]))
    mod('os', ons)

    # ---- codecs / io
    mod('codecs', {
        'open': F('codecs.open', lambda it, a, k: fs.open_(it, a, k, codecs=True)),
        'encode': F('codecs.encode', lambda it, a, k: codec_conv(it, a, k, True)),
        'decode': F('codecs.decode', lambda it, a, k: codec_conv(it, a, k, False)),
        'BOM_UTF8': b'\xef\xbb\xbf'})
    mod('io', {
        'open': F('open', lambda it, a, k: fs.open_(it, a, k)),
        'StringIO': F('StringIO', lambda it, a, k: StrIO(fs, a[0] if a else '')),
        'BytesIO': F('BytesIO', lambda it, a, k: Unknown('BytesIO')),
        'TextIOBase': TypeObj('TextIOBase', lambda v: isinstance(v, Handle)),
        'IOBase': TypeObj('IOBase', lambda v: isinstance(v, Handle)),
        'UnsupportedOperation': ExcType(__import__('io').UnsupportedOperation)})

    # ---- tempfile / shutil
    mod('tempfile', {
        'TemporaryDirectory': F('TemporaryDirectory', lambda it, a, k: TempDir(it, k)),
        'NamedTemporaryFile': F('NamedTemporaryFile', lambda it, a, k: nt_temp(it, dict(zip(['mode'], a), **k))),
        'TemporaryFile': F('TemporaryFile', lambda it, a, k: nt_temp(it, dict(zip(['mode'], a), **k))),
        'mkstemp': F('mkstemp', lambda it, a, k: mkstemp(it, dict(zip(['suffix', 'prefix', 'dir'], a), **k))),
        'mkdtemp': F('mkdtemp', lambda it, a, k: TempDir(it, k).p),
        'gettempdir': F('gettempdir', lambda it, a, k: '/tmp' if fs.style == 'posix' else 'C:\\Temp')})

    def sh_copy(it, a, k):
        x, y = fs.norm(S(it, a[0])), fs.norm(S(it, a[1]))
        if fs.is_dir(y):
            y = P.join(y, P.basename(x))
        if x not in fs.files:
            it.throw(FileNotFoundError, 2, "No such file or directory: %s" % x)
        from .fs import File
        it.event('create', y)
        it.touch(fs.files)
        fs.files[y] = File(fs.files[x].text, fs.files[x].enc)
        return y
    def copytree(it, a, k):
        x, y = fs.norm(S(it, a[0])), fs.norm(S(it, a[1]))
        ok = it.truth(k.get('dirs_exist_ok', False)) is True
        if not fs.is_dir(x):
            it.throw(FileNotFoundError, 2, "No such file or directory: %s" % x)
        if k.get('ignore') is not None:
            raise Gap("copytree ignore")
        os_mkdir(it, y, True, ok)
        for d, ds, ff in it.iterate(walk(it, x)):
            rel = d[len(x):].lstrip(P.sep)
            tgt = P.join(y, rel) if rel else y
            os_mkdir(it, tgt, True, True)
            for n in ff:
                sh_copy(it, [P.join(d, n), P.join(tgt, n)], {})
        return y

    def copyfileobj(it, a, k):
        it.call(it.getattr(a[1], 'write'), [it.call(it.getattr(a[0], 'read'), [], {})], {})
    mod('shutil', {
        'copytree': F('copytree', copytree), 'copyfileobj': F('copyfileobj', copyfileobj),
        'rmtree': F('rmtree', lambda it, a, k: rmtree(it, a[0], it.truth(k.get('ignore_errors', False)) is True)),
        'move': F('move', lambda it, a, k: os_rename(it, a[0], a[1])),
        'copy': F('copy', sh_copy), 'copyfile': F('copyfile', sh_copy), 'copy2': F('copy2', sh_copy)})
    mod('pathlib', {'Path': F('Path', lambda it, a, k: PathObj(fs, P.join(*[S(it, x) for x in a]) if a else '.')),
                    'PurePath': F('PurePath', lambda it, a, k: PathObj(fs, P.join(*[S(it, x) for x in a])))})
    mods['pathlib'].ns['Path'].attrs = {'home': F('home', lambda it, a, k: PathObj(fs, expanduser(it, '~'))),
                                        'cwd': F('cwd', lambda it, a, k: PathObj(fs, fs.cwd))}

    # ---- re
    rns = {n: F('re.' + n, re_call(n)) for n in ('sub', 'subn', 'match', 'search', 'fullmatch', 'findall',
                                                  'finditer', 'split')}
    rns['compile'] = F('re.compile', lambda it, a, k: rx(it, a[0], a[1] if len(a) > 1 else k.get('flags', 0)))
    rns['escape'] = F('re.escape', lambda it, a, k: _re.escape(a[0]))
    for n in ('IGNORECASE', 'I', 'MULTILINE', 'M', 'DOTALL', 'S', 'VERBOSE', 'X', 'ASCII', 'A', 'UNICODE', 'U'):
        rns[n] = int(getattr(_re, n))
    rns['Pattern'] = TypeObj('Pattern', lambda v: isinstance(v, Pattern))
    rns['error'] = ExcType(_re.error)
    mod('re', rns)

    # ---- sys, warnings ...
    mod('sys', {'stdout': Stream('stdout'), 'stderr': Stream('stderr'), 'stdin': Stream('stdin'),
                'argv': ['prog'], 'platform': 'linux' if fs.style == 'posix' else 'win32',
                'version_info': (3, 12, 3, 'final', 0), 'path': [], 'modules': {}, 'version': '3.12.3',
                'exit': F('exit', lambda it, a, k: it.throw(SystemExit, *a)),
                'maxsize': 2 ** 63 - 1, 'executable': '/usr/bin/python', 'byteorder': 'little',
                'float_info': Unknown('float_info'),
                'getsizeof': F('getsizeof', lambda it, a, k: Unknown('n')),
                'getdefaultencoding': F('gde', lambda it, a, k: 'utf-8'),
                'getfilesystemencoding': F('gfe', lambda it, a, k: 'utf-8'),
                'exc_info': F('exc_info', lambda it, a, k: (Unknown('t'), Unknown('v'), Unknown('tb')))})

    class CatchWarn(ModelObj):
        tname = 'catch_warnings'

        def m___enter__(self, it):
            return []

        def m___exit__(self, it, exc=None, *a):
            return False
    mod('warnings', {'warn': F('warn', lambda it, a, k: it.event('warn', a[0])),
                     'filterwarnings': F('filterwarnings', lambda it, a, k: None),
                     'simplefilter': F('simplefilter', lambda it, a, k: None),
                     'catch_warnings': F('catch_warnings', lambda it, a, k: CatchWarn())})
    mod('copy', {'copy': F('copy', lambda it, a, k: shallow(it, a[0])),
                 'deepcopy': F('deepcopy', lambda it, a, k: deepcopy(it, a[0]), True)})
    mod('numbers', {'Number': it.types.get('Number') or TypeObj('Number', lambda v: is_num(v)),
                    'Real': TypeObj('Real', lambda v: is_num(v) and kind_of(v) != 'c'),
                    'Integral': TypeObj('Integral', lambda v: is_num(v) and kind_of(v) in 'bi'),
                    'Complex': TypeObj('Complex', lambda v: is_num(v))})

    # ---- collections
    from .natives import ODict, DDict, NTuple, Partial

    def mk_od(it, a, k):
        d = ODict()
        d.update(it._mk_dict(it, a, k))
        return d

    def mk_dd(it, a, k):
        d = DDict()
        d.default_factory = a[0] if a else None
        d.update(it._mk_dict(it, a[1:], k))
        return d

    def mk_counter(it, a, k):
        d = DDict()
        d.default_factory = F('zero', lambda it, a, k: 0)
        if a:
            for x in it.iterate(a[0]):
                d[it.hashable(x)] = d.get(x, 0) + 1
        return d

    def mk_nt(it, a, k):
        name, fields = a[0], a[1]
        fl = fields.replace(',', ' ').split() if isinstance(fields, str) else list(it.iterate(fields))
        defaults = list(it.iterate(k['defaults'])) if k.get('defaults') else []

        def make(it, aa, kk):
            vals = dict(zip(fl, aa))
            vals.update(kk)
            for f, d in zip(fl[len(fl) - len(defaults):], defaults):
                vals.setdefault(f, d)
            if set(vals) != set(fl) or len(aa) > len(fl):
                it.throw(TypeError, "%s() arguments" % name)
            t = NTuple(vals[f] for f in fl)
            t.fields = fl
            t.tname = name
            return t
        return TypeObj(name, lambda v: isinstance(v, NTuple) and getattr(v, 'tname', None) == name, make)
    mod('collections', {
        'OrderedDict': TypeObj('OrderedDict', lambda v: isinstance(v, ODict), mk_od),
        'defaultdict': TypeObj('defaultdict', lambda v: isinstance(v, DDict), mk_dd),
        'Counter': TypeObj('Counter', lambda v: isinstance(v, DDict), mk_counter),
        'namedtuple': F('namedtuple', mk_nt),
        'deque': TypeObj('deque', lambda v: isinstance(v, list), lambda it, a, k: list(it.iterate(a[0])) if a else []),
        'abc': None})
    abc = mod('collections.abc', {
        'Mapping': TypeObj('Mapping', lambda v: isinstance(v, dict)),
        'MutableMapping': TypeObj('MutableMapping', lambda v: isinstance(v, dict)),
        'Sequence': TypeObj('Sequence', lambda v: isinstance(v, (list, tuple, str, range))),
        'Iterable': TypeObj('Iterable', lambda v: isinstance(v, (list, tuple, str, range, dict, ASet, Arr)) and not
                            (isinstance(v, Arr) and False)),
        'Callable': TypeObj('Callable', lambda v: isinstance(v, (AFunc, Bound, ExtFunc, AClass)))})
    mods['collections'].ns['abc'] = abc

    # ---- functools / itertools / operator / math / contextlib / abc / typing / enum
    mod('functools', {
        'partial': F('partial', lambda it, a, k: Partial(a[0], list(a[1:]), dict(k)), True),
        'reduce': F('reduce', f_reduce),
        'wraps': F('wraps', lambda it, a, k: F('wraps', lambda it, b, kk: b[0])),
        'lru_cache': F('lru_cache', lambda it, a, k: Cached(a[0]) if a and isinstance(a[0], AFunc)
                       else F('lru_cache', lambda it, b, kk: Cached(b[0]))),
        'cache': F('cache', lambda it, a, k: Cached(a[0])),
        'total_ordering': F('total_ordering', lambda it, a, k: a[0]),
        'cached_property': F('cached_property', lambda it, a, k: CachedProp(a[0])),
        'partialmethod': F('partialmethod', lambda it, a, k: PartialM(a[0], list(a[1:]), dict(k)), True)})

    def chain(it, a, k):
        return it._gen([x for s in a for x in it.iterate(s)])

    def product(it, a, k):
        import itertools
        return it._gen(list(itertools.product(*[it.iterate(s) for s in a], repeat=it.as_int(k.get('repeat', 1)))))

    def zip_longest(it, a, k):
        ls = [it.iterate(s) for s in a]
        n = max((len(x) for x in ls), default=0)
        return it._gen([tuple(x[i] if i < len(x) else k.get('fillvalue') for x in ls) for i in range(n)])

    def islice(it, a, k):
        xs = it.iterate(a[0])
        return it._gen(xs[slice(*[None if q is None else it.as_int(q) for q in a[1:]])])

    def groupby(it, a, k):
        key = k.get('key', a[1] if len(a) > 1 else None)
        out = []
        for x in it.iterate(a[0]):
            kx = it.call(key, [x], {}) if key is not None else x
            if out:
                t = it.truth(it.eq(out[-1][0], kx))
                if not isinstance(t, bool):
                    raise Gap("undecided groupby")
                if t:
                    out[-1][1].append(x)
                    continue
            out.append((kx, [x]))
        return it._gen(out)

    def takewhile(drop):
        def f(it, a, k):
            out = []
            on = False
            for x in it.iterate(a[1]):
                t = it.truth(it.call(a[0], [x], {})) if not on else False
                if not isinstance(t, bool):
                    raise Gap("undecided takewhile")
                if not t:
                    on = True
                    if not drop:
                        break
                if drop and on or not drop:
                    out.append(x)
            return it._gen(out)
        return f

    def accumulate(it, a, k):
        out = []
        for x in it.iterate(a[0]):
            out.append(x if not out else it.binop('+', out[-1], x) if len(a) < 2 else it.call(a[1], [out[-1], x], {}))
        return it._gen(out)
    itc = F('chain', chain)
    itc.attrs = {'from_iterable': F('from_iterable', lambda it, a, k: chain(it, it.iterate(a[0]), {}))}
    import itertools as _it
    mod('itertools', {
        'chain': itc, 'product': F('product', product), 'zip_longest': F('zip_longest', zip_longest),
        'islice': F('islice', islice), 'groupby': F('groupby', groupby),
        'repeat': F('repeat', lambda it, a, k: it._gen([a[0]] * it.as_int(a[1] if len(a) > 1 else 64))),
        'count': F('count', lambda it, a, k: it._gen(list(range(it.as_int(a[0]) if a else 0, 4096)))),
        'combinations': F('combinations', lambda it, a, k: it._gen(list(_it.combinations(it.iterate(a[0]), it.as_int(a[1]))))),
        'permutations': F('permutations', lambda it, a, k: it._gen(list(_it.permutations(it.iterate(a[0]))))),
        'takewhile': F('takewhile', takewhile(False)), 'dropwhile': F('dropwhile', takewhile(True)),
        'pairwise': F('pairwise', lambda it, a, k: it._gen(list(zip(it.iterate(a[0]), it.iterate(a[0])[1:])))),
        'accumulate': F('accumulate', accumulate),
        'starmap': F('starmap', lambda it, a, k: it._gen([it.call(a[0], list(x), {}) for x in it.iterate(a[1])]))})
    opm = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'pow': '**', 'mod': '%', 'floordiv': '//',
           'and_': '&', 'or_': '|', 'xor': '^', 'matmul': '@'}
    ops = {n: F(n, lambda it, a, k, o=o: it.binop(o, a[0], a[1])) for n, o in opm.items()}
    for n, o in {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}.items():
        ops[n] = F(n, lambda it, a, k, o=o: it.eq(a[0], a[1]) if o == '==' else it.cmp(o, a[0], a[1]))
    ops['neg'] = F('neg', lambda it, a, k: it.unop('-', a[0]))
    ops['not_'] = F('not_', lambda it, a, k: it.as_bool(it.truth(a[0]) is False))

    def itemgetter(it, a, k):
        if len(a) == 1:
            return F('itemgetter', lambda it, b, kk: it.getitem(b[0], a[0]))
        return F('itemgetter', lambda it, b, kk: tuple(it.getitem(b[0], x) for x in a))

    def attrgetter(it, a, k):
        def one(o, p):
            for q in p.split('.'):
                o = it.getattr(o, q)
            return o
        if len(a) == 1:
            return F('attrgetter', lambda it, b, kk: one(b[0], a[0]))
        return F('attrgetter', lambda it, b, kk: tuple(one(b[0], x) for x in a))
    ops['itemgetter'] = F('itemgetter', itemgetter)
    ops['attrgetter'] = F('attrgetter', attrgetter)
    ops['methodcaller'] = F('methodcaller', lambda it, a, k: F('mc', lambda it, b, kk: it.call(
        it.getattr(b[0], a[0]), list(a[1:]), k)))
    ops['contains'] = F('contains', lambda it, a, k: it.contains(a[0], a[1]))
    ops['getitem'] = F('getitem', lambda it, a, k: it.getitem(a[0], a[1]))
    mod('operator', ops)

    mns = {'pi': it.np.ns['pi'], 'e': it.np.ns['e'], 'inf': fnum(float('inf')), 'nan': fnum(float('nan'))}
    for n in ('sqrt', 'log', 'exp', 'sin', 'cos', 'tan', 'log10', 'log2', 'floor', 'ceil'):
        def mk(n):
            def f(it, a, k):
                x = a[0]
                if isinstance(x, Arr):
                    if x.size != 1:
                        it.throw(TypeError, "only length-1 arrays can be converted to Python scalars")
                    x = x.elems()[0]
                if kind_of(x) == 'c':
                    it.throw(TypeError, "must be real number, not complex")
                if n == 'log' and len(a) > 1:
                    return it.binop('/', f(it, [x], {}), f(it, [a[1]], {}))
                x = it.tonum(x)
                if n == 'sqrt' and not x.special and it.sgn(x) in ('-',):
                    it.throw(ValueError, "math domain error")
                r = it.unary(n, Num(x.nf, x.kind, False, x.special))
                if isinstance(r, Num):
                    return Num(r.nf, 'i' if n in ('floor', 'ceil') else r.kind, False, r.special)
                return r
            return f
        mns[n] = F(n, mk(n))
    for n in ('isnan', 'isinf', 'isfinite'):
        mns[n] = F(n, lambda it, a, k, n=n: it.unbox(it.unary(n, it.tonum(a[0]))))
    mns['atan2'] = F('atan2', lambda it, a, k: it.binfunc('arctan2', a[0], a[1]))
    mns['atan'] = F('atan', lambda it, a, k: it.unary('arctan', it.tonum(a[0])))
    mns['fabs'] = F('fabs', lambda it, a, k: it.unary('abs', it.tonum(a[0])))
    mns['pow'] = F('pow', lambda it, a, k: it.arith('**', it.tonum(a[0]), it.tonum(a[1])))
    mns['hypot'] = F('hypot', lambda it, a, k: it.binfunc('hypot', a[0], a[1]))
    mns['isclose'] = F('isclose', lambda it, a, k: it.unbox(it.np_isclose(it, a[:2], {
        'rtol': k.get('rel_tol', fnum(1e-9)), 'atol': k.get('abs_tol', fnum(0.0))})))

    def fsum(it, a, k):
        r = fnum(0.0)
        for x in it.iterate(a[0]):
            r = it.binop('+', r, x)
        return r
    mns['fsum'] = F('fsum', fsum)
    mns['copysign'] = F('copysign', lambda it, a, k: Unknown('copysign'))
    mod('math', mns)
    cns = {n: F('cmath.' + n, lambda it, a, k, n=n: it.unary(n, it.cast(it.tonum(a[0]), 'c')))
           for n in ('sqrt', 'exp', 'log')}
    cns['pi'] = it.np.ns['pi']
    mod('cmath', cns)

    from .interp import CmGen

    class Suppress(ModelObj):
        tname = 'suppress'

        def __init__(self, ts):
            self.ts = ts

        def m___enter__(self, it):
            return None

        def m___exit__(self, it, exc=None, *a):
            return exc is not None and any(it.exc_match(exc, t) for t in self.ts)

    class Closing(ModelObj):
        tname = 'closing'

        def __init__(self, o):
            self.o = o

        def m___enter__(self, it):
            return self.o

        def m___exit__(self, it, exc=None, *a):
            it.call(it.getattr(self.o, 'close'), [], {})
            return False

    class NullCtx(ModelObj):
        tname = 'nullcontext'

        def __init__(self, v):
            self.v = v

        def m___enter__(self, it):
            return self.v

        def m___exit__(self, it, exc=None, *a):
            return False

    class ExitStack(ModelObj):
        tname = 'ExitStack'

        def __init__(self):
            self.cms = []

        def m___enter__(self, it):
            return self

        def m_enter_context(self, it, cm):
            if isinstance(cm, CmGen):
                raise Gap("ExitStack of generator")
            v = it.enter(cm)
            it.touch(self)
            self.cms = self.cms + [cm]
            return v

        def m_callback(self, it, f, *a, **k):
            raise Gap("ExitStack callback")

        def m___exit__(self, it, exc=None, *a):
            for c in reversed(self.cms):
                if isinstance(c, AObj):
                    it.call(it.getattr(c, '__exit__'), [None, None, None], {})
                else:
                    c.m___exit__(it, exc)
            return False
    mod('contextlib', {
        'contextmanager': F('contextmanager', lambda it, a, k: F('cm', lambda it, b, kk: CmGen(a[0], list(b), kk), True)),
        'suppress': F('suppress', lambda it, a, k: Suppress(a)),
        'closing': F('closing', lambda it, a, k: Closing(a[0])),
        'nullcontext': F('nullcontext', lambda it, a, k: NullCtx(a[0] if a else None)),
        'ExitStack': F('ExitStack', lambda it, a, k: ExitStack())})

    def abstract(it, a, k):
        if isinstance(a[0], AFunc):
            a[0].abstract = True
        return a[0]
    abcobj = AClass('ABC', [], {}, Module('abc', {}))
    mod('abc', {'ABC': abcobj, 'ABCMeta': ABCMetaStub(), 'abstractmethod': F('abstractmethod', abstract),
                'abstractproperty': F('abstractproperty', lambda it, a, k: PropM(a[0]))})

    def anyattr(tag):
        return lambda it, name: Unknown(tag + '.' + name)
    for n in ('typing', 'types'):
        mod(n, {'TYPE_CHECKING': False, 'cast': F('cast', lambda it, a, k: a[1]),
                'MappingProxyType': F('MappingProxyType', lambda it, a, k: a[0])}, anyattr(n))
    mod('inspect', {'isclass': F('isclass', lambda it, a, k: isinstance(a[0], (AClass, TypeObj, ExcType))),
                    'isfunction': F('isfunction', lambda it, a, k: isinstance(a[0], AFunc)),
                    'getmembers': F('getmembers', lambda it, a, k: f_getmembers(it, a))},
        anyattr('inspect'))
    for n in ('logging', 'datetime', 'time', 'argparse', 'textwrap', 'string', 'platform', 'locale', 'uuid',
              'hashlib', 'urllib', 'urllib.request', 'traceback', 'dataclasses', 'enum', 'random', 'unittest',
              'struct', 'csv', 'glob', 'fnmatch', 'threading', 'gc', 'weakref', 'timeit', 'decimal', 'fractions',
              'zipfile', 'gzip', 'errno', 'stat', 'atexit', 'signal', 'concurrent', 'multiprocessing',
              'configparser', 'getpass', 'posix', 'ctypes', 'html', 'string.templatelib', 'xml', 'sysconfig',
              'importlib.metadata', 'importlib.resources', 'pkg_resources', 'site'):
        if n not in mods:
            mod(n, {}, anyattr(n))
    from . import m_class as MC
    mods['dataclasses'].ns.update({'dataclass': F('dataclass', MC.dataclass), 'field': F('field', MC.field),
                                   'asdict': F('asdict', MC.asdict), 'replace': F('replace', MC.replace),
                                   'fields': F('fields', MC.dc_fields),
                                   'astuple': F('astuple', lambda it, a, k: tuple(MC.asdict(it, a, k).values()))})
    mods['enum'].ns.update({n: MC.EnumBase(n) for n in ('Enum', 'StrEnum', 'IntEnum', 'Flag', 'IntFlag')})
    mods['enum'].ns.update({'auto': F('auto', lambda it, a, k: MC.Auto()), 'unique': F('unique', lambda it, a, k: a[0])})
    mods['glob'].ns.update({'glob': F('glob', f_glob),
                            'iglob': F('iglob', lambda it, a, k: it._gen(f_glob(it, a, k))),
                            'escape': F('escape', lambda it, a, k: __import__('glob').escape(a[0]))})
    mods['fnmatch'].ns.update({
        'fnmatch': F('fnmatch', lambda it, a, k: __import__('fnmatch').fnmatchcase(P.normcase(a[0]), P.normcase(a[1]))),
        'fnmatchcase': F('fnmatchcase', lambda it, a, k: __import__('fnmatch').fnmatchcase(a[0], a[1])),
        'translate': F('translate', lambda it, a, k: __import__('fnmatch').translate(a[0])),
        'filter': F('filter', lambda it, a, k: [x for x in it.iterate(a[0]) if __import__('fnmatch').fnmatchcase(
            P.normcase(x), P.normcase(a[1]))])})
    mods['typing'].ns['NamedTuple'] = MC.NTBase()
    mods['string'].ns.update({'ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
                              'digits': '0123456789', 'punctuation': '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~',
                              'whitespace': ' \t\n\r\x0b\x0c'})
    mods['textwrap'].ns['dedent'] = F('dedent', lambda it, a, k: __import__('textwrap').dedent(a[0]))
    for n in ('pickle', 'marshal', 'shelve', 'dill', 'cloudpickle', 'joblib', 'jsonpickle'):
        ns = {}
        for q in ('load', 'loads', 'Unpickler', 'open'):
            ns[q] = F(n + '.' + q, lambda it, a, k, q=n + '.' + q: (it.event('codeexec', (q, None)), Unknown(q))[1])
        mod(n, ns, anyattr(n))
    for n, fs_ in (('subprocess', ('run', 'call', 'Popen', 'check_call', 'check_output', 'getoutput')),
                   ('runpy', ('run_path', 'run_module'))):
        ns = {q: F(n + '.' + q, lambda it, a, k, q=n + '.' + q: (it.event('codeexec', (q, a[0] if a else None)), Unknown(q))[1])
              for q in fs_}
        mod(n, ns, anyattr(n))

    def imp(it, a, k):
        it.event('codeexec', ('importlib.import_module', a[0] if a else None))
        if a and isinstance(a[0], str):
            return it.w.import_module(a[0], it)
        return Unknown('module')
    mod('importlib', {'import_module': F('import_module', imp),
                      'reload': F('reload', lambda it, a, k: a[0])}, anyattr('importlib'))
    mods['importlib.util'] = mod('importlib.util', {'find_spec': F('find_spec', lambda it, a, k: it.w.find_spec(a[0]))},
                                 anyattr('importlib.util'))
    mods['importlib'].ns['util'] = mods['importlib.util']

    def lit(it, a, k):
        import ast as _ast
        s = a[0]
        if isinstance(s, str) and T0 not in s:
            try:
                v = _ast.literal_eval(s.strip())
            except (ValueError, SyntaxError) as e:
                it.throw(type(e), str(e))
            return to_abs(v)
        raise Gap("literal_eval of formatted numbers")
    mod('ast', {'literal_eval': F('literal_eval', lit)}, anyattr('ast'))

    def jdump(it, a, k):
        raise Gap("json")
    mod('json', {n: F('json.' + n, jdump) for n in ('dump', 'dumps', 'load', 'loads')})

    # ---- third party not analysed
    def clone(it, a, k):
        p = dict(zip(['url', 'to_path'], a))
        p.update(k)
        dest = fs.norm(S(it, p['to_path']))
        it.event('clone', (p.get('url'), dest, {x: y for x, y in p.items() if x not in ('url', 'to_path')}))
        hook = getattr(it.w, 'on_clone', None)
        if hook is not None:
            hook(it, p.get('url'), dest)
        return Unknown('repo')
    repo = F('Repo', lambda it, a, k: Unknown('Repo'))
    repo.attrs = {'clone_from': F('clone_from', clone)}
    mod('git', {'Repo': repo, 'exc': Unknown('git.exc'), 'GitCommandError': ExcType(RuntimeError)}, anyattr('git'))
    for n in ('matplotlib', 'pylab', 'IPython', 'IPython.display'):
        mod(n, {}, anyattr(n))
    m_plot.install(mod, F, anyattr, w.plot)
    mods['matplotlib'].ns['pyplot'] = mods['matplotlib.pyplot']
    if w.have_qgrid:
        m_plot.install_qgrid(mod, F, anyattr)
    return mods


def to_abs(v):
    if isinstance(v, float):
        return fnum(v)
    if isinstance(v, list):
        return [to_abs(x) for x in v]
    if isinstance(v, tuple):
        return tuple(to_abs(x) for x in v)
    if isinstance(v, dict):
        return {to_abs(k): to_abs(x) for k, x in v.items()}
    if isinstance(v, set):
        return ASet([to_abs(x) for x in sorted(v, key=repr)])
    return v


def f_getmembers(it, a):
    o = a[0]
    if isinstance(o, Module):
        names = [(k, v) for k, v in sorted(o.ns.items())]
    elif isinstance(o, AClass):
        d = {}
        for c in reversed(o.mro):
            if isinstance(c, AClass):
                d.update(c.ns)
        names = sorted(d.items())
    else:
        raise Gap("getmembers")
    if len(a) > 1:
        names = [(k, v) for k, v in names if it.truth(it.call(a[1], [v], {})) is True]
    return names


class Cached(ModelObj):
    """functools.lru_cache"""
    tname = 'lru_cache_wrapper'

    def __init__(self, f):
        self.f = f
        self.memo = []

    def m_cache_clear(self, it):
        it.touch(self)
        self.memo = []

    def m___call__(self, it, *a, **k):
        for x in list(a) + list(k.values()):
            it.hashable(x)
        for aa, kk, v in self.memo:
            if len(aa) == len(a) and set(kk) == set(k):
                ok = True
                for x, y in list(zip(aa, a)) + [(kk[q], k[q]) for q in k]:
                    t = it.truth(it.eq(x, y))
                    if t is False:
                        ok = False
                        break
                    if t is not True:
                        raise Gap("undecided cache key")
                if ok:
                    return v
        v = it.call(self.f, list(a), k)
        it.touch(self)
        self.memo = self.memo + [(a, k, v)]
        return v

    def bind_to(self, it, o, cls):
        return Bound(self, o)


class PartialM:
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def bind_to(self, it, o, cls):
        from .natives import Partial
        return Partial(it.bind_attr(self.f, o, cls), self.a, self.k)


class CachedProp:
    def __init__(self, f):
        self.f = f

    def bind_to(self, it, o, cls):
        n = '__cached_' + self.f.name
        if n in o.attrs:
            return o.attrs[n]
        v = it.call(self.f, [o], {})
        it.touch(o)
        o.attrs[n] = v
        return v


def f_reduce(it, a, k):
    xs = list(it.iterate(a[1]))
    if len(a) > 2:
        r = a[2]
    else:
        if not xs:
            it.throw(TypeError, "reduce() of empty iterable with no initial value")
        r = xs.pop(0)
    for x in xs:
        r = it.call(a[0], [r, x], {})
    return r


def codec_conv(it, a, k, enc):
    v = a[0]
    e = a[1] if len(a) > 1 else k.get('encoding', 'utf-8')
    err = a[2] if len(a) > 2 else k.get('errors', 'strict')
    if isinstance(v, Unknown):
        return v
    if not isinstance(e, str) or not isinstance(err, str):
        raise Gap("codec")
    try:
        import codecs
        return codecs.encode(v, e, err) if enc else codecs.decode(v, e, err)
    except (UnicodeError, LookupError, TypeError) as x:
        it.throw(type(x) if type(x) is not LookupError else LookupError, str(x))
