"""abstract file system: file events, typestate of handles, encodings"""
import ntpath
import posixpath
import re
from . import text as TX
from .nf import NF
from .values import *
from .numops import is_num

PUA = re.compile('([\ue000-\uf8ff]+)')


def norm_enc(e):
    e = e.lower().replace('_', '-')
    return {'utf8': 'utf-8', 'utf-8-sig': 'utf-8-sig', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1',
            'ascii': 'ascii'}.get(e, e)


def recode(it, s, enc_w, enc_r, errors):
    """text written with enc_w as seen by a reader using enc_r"""
    if enc_w == enc_r:
        return s
    out = []
    for part in PUA.split(s):
        if PUA.fullmatch(part or ''):
            out.append(part)
            continue
        try:
            b = part.encode(enc_w)
        except UnicodeEncodeError as e:
            it.throw(UnicodeEncodeError, str(e))
        try:
            out.append(b.decode(enc_r, errors))
        except UnicodeDecodeError as e:
            it.throw(UnicodeDecodeError, str(e))
        except LookupError as e:
            it.throw(LookupError, str(e))
    return "".join(out)


class File:
    """content of one file"""

    def __init__(self, text, enc='utf-8', kind='file'):
        self.text = text
        self.enc = enc
        self.kind = kind


class Handle(ModelObj):
    tname = 'TextIOWrapper'

    def __init__(self, fs, path, mode, enc, errors, site):
        self.fs = fs
        self.path = path
        self.mode = mode
        self.enc = enc
        self.errors = errors
        self.closed = False
        self.pos = 0
        self.site = site
        self.lazy_text = None

    def check(self, it):
        if self.closed:
            it.throw(ValueError, "I/O operation on closed file.")

    def rtext(self, it):
        self.check(it)
        if 'r' not in self.mode and '+' not in self.mode:
            it.throw(__import__('io').UnsupportedOperation, "not readable")
        if not isinstance(self, StrIO):
            self.fs.tick(it, 'read')
        f = self.fs.files.get(self.path)
        if f is None:
            it.throw(OSError, "file vanished")
        if isinstance(f.text, Unknown):
            raise Gap("content of %s unknown" % self.path)
        if 'b' in self.mode:
            if TX.T0 in f.text:
                raise Gap("binary read of formatted numbers")
            return f.text.encode(f.enc)
        t = recode(it, f.text, f.enc, self.enc, self.errors)
        return t.replace('\r\n', '\n').replace('\r', '\n')

    def m_read(self, it, n=-1):
        t = self.rtext(it)
        it.touch(self)
        if n is None or (isinstance(n, int) and n < 0):
            r = t[self.pos:]
            self.pos = len(t)
            return r
        n = it.as_int(n)
        r = t[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def m_readline(self, it, n=-1):
        t = self.rtext(it)
        it.touch(self)
        nl = b'\n' if isinstance(t, bytes) else '\n'
        j = t.find(nl, self.pos)
        j = len(t) if j < 0 else j + 1
        r = t[self.pos:j]
        self.pos = j
        return r

    def m_readlines(self, it, n=-1):
        return list(self.op_iter(it))

    def op_iter(self, it):
        t = self.rtext(it)
        it.touch(self)
        r = t[self.pos:].splitlines(True) if isinstance(t, bytes) else split_lines(t[self.pos:])
        self.pos = len(t)
        return r

    def m___iter__(self, it):
        return self

    def m_readable(self, it):
        return 'r' in self.mode

    def m_writable(self, it):
        return 'r' not in self.mode

    def m_seek(self, it, p, w=0):
        self.check(it)
        it.touch(self)
        if it.as_int(w) == 0:
            self.pos = it.as_int(p)
        else:
            self.pos = len(self.rtext(it))
        return self.pos

    def m_tell(self, it):
        return self.pos

    def m_truncate(self, it, n=None):
        f = self.fs.files[self.path]
        it.touch(f)
        f.text = f.text[:self.pos if n is None else it.as_int(n)]

    def m_write(self, it, s):
        self.check(it)
        if not any(c in self.mode for c in 'wax+'):
            it.throw(__import__('io').UnsupportedOperation, "not writable")
        if not isinstance(self, StrIO):
            self.fs.tick(it, 'write')
        if isinstance(s, Phi):
            return it.dist(s, lambda v: self.m_write(it, v))
        if isinstance(s, Unknown):
            f = self.fs.files[self.path]
            it.touch(f)
            f.text = Unknown('written ' + s.tag)
            it.event('write', (self.path, None))
            return Unknown('n')
        if 'b' in self.mode:
            if not isinstance(s, bytes):
                it.throw(TypeError, "a bytes-like object is required, not '%s'" % it.typename(s))
            s = s.decode('utf-8', 'surrogateescape')
        elif not isinstance(s, str):
            it.throw(TypeError, "write() argument must be str, not %s" % it.typename(s))
        f = self.fs.files[self.path]
        if 'b' not in self.mode:
            recode(it, s, self.enc, 'latin-1' if self.enc == 'ascii' else self.enc, 'strict')
            for part in PUA.split(s):
                if not PUA.fullmatch(part or ''):
                    try:
                        part.encode(self.enc)
                    except UnicodeEncodeError as e:
                        it.throw(UnicodeEncodeError, str(e))
        it.touch(f)
        if isinstance(f.text, Unknown):
            return Unknown('n')
        if 'a' in self.mode:
            f.text += s
        else:
            it.touch(self)
            f.text = f.text[:self.pos] + s + f.text[self.pos + len(s):]
            self.pos += len(s)
        it.event('write', (self.path, s))
        return len(s)

    def m_writelines(self, it, lines):
        for s in it.iterate(lines):
            self.m_write(it, s)

    def m_flush(self, it):
        return None

    def m_fileno(self, it):
        return 9

    def m_close(self, it):
        it.touch(self)
        self.closed = True
        return None

    def m___enter__(self, it):
        self.check(it)
        return self

    def m___exit__(self, it, exc=None, *a):
        it.touch(self)
        self.closed = True
        return False

    def a_closed(self, it):
        return self.closed

    def a_name(self, it):
        return self.path

    def a_mode(self, it):
        return self.mode

    def a_encoding(self, it):
        return self.enc


def split_lines(t):
    out = []
    i = 0
    while i < len(t):
        j = t.find('\n', i)
        j = len(t) if j < 0 else j + 1
        out.append(t[i:j])
        i = j
    return out


class StrIO(Handle):
    tname = 'StringIO'

    def __init__(self, fs, text):
        Handle.__init__(self, fs, '<StringIO#%d>' % fs.fresh(), 'r+', 'utf-8', 'strict', '')
        fs.files[self.path] = File(text)

    def m_getvalue(self, it):
        return self.fs.files[self.path].text


class FS:
    def __init__(self, world, style='posix'):
        self.w = world
        self.files = {}
        self.dirs = set()
        self.handles = []
        self.n = 0
        self.style = style
        self.P = posixpath if style == 'posix' else ntpath
        self.cwd = '/work' if style == 'posix' else 'C:\\work'
        self.mkdirs(self.cwd)
        self.mkdirs('/tmp' if style == 'posix' else 'C:\\Temp')
        self.ops, self.fail_at = 0, None
        self.readonly = set()      # directories that refuse creation

    def fresh(self):
        self.n += 1
        return self.n

    def tick(self, it, what):
        """injected fault: the k-th input/output operation fails"""
        self.ops += 1
        if self.ops == self.fail_at:
            it.throw(OSError, 5, "Input/output error (%s)" % what)

    # ---- analysis side
    def mkdirs(self, p):
        p = self.norm(p)
        while True:
            self.dirs.add(p)
            q = self.P.dirname(p)
            if q == p or not q:
                break
            p = q

    def put(self, path, text, enc='utf-8'):
        p = self.norm(path)
        self.mkdirs(self.P.dirname(p))
        self.files[p] = File(text, enc)

    def norm(self, p):
        if not self.P.isabs(p):
            p = self.P.join(self.cwd, p)
        return self.P.normpath(p)

    # ---- program side
    def path(self, it, p):
        if isinstance(p, PathObj):
            p = p.p
        if isinstance(p, Phi):
            raise Gap("gated path")
        if isinstance(p, Unknown):
            raise Gap("unknown path")
        if isinstance(p, bytes):
            p = p.decode('utf-8')
        if isinstance(p, Handle):
            return p.path
        if not isinstance(p, str):
            it.throw(TypeError, "expected str, bytes or os.PathLike object, not %s" % it.typename(p))
        if '\0' in p:
            it.throw(ValueError, "embedded null byte")
        return p

    def is_dir(self, p):
        return p != '' and self.norm(p) in self.dirs

    def is_file(self, p):
        return p != '' and self.norm(p) in self.files

    def open_(self, it, a, k, codecs=False):
        names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline', 'closefd', 'opener']
        if codecs:
            names = ['filename', 'mode', 'encoding', 'errors', 'buffering']
        p = dict(zip(names, a))
        p.update(k)
        path = p.get('file', p.get('filename'))
        mode = p.get('mode', 'r')
        enc = p.get('encoding')
        errors = p.get('errors') or 'strict'
        if not isinstance(mode, str) or isinstance(enc, (Unknown, Phi)):
            raise Gap("open mode")
        raw = self.path(it, path)
        full = self.norm(raw)
        if enc is None:
            e = self.w.locale_encoding
        else:
            e = norm_enc(enc)
        it.event('open', (full, mode, enc, 'b' in mode))
        self.tick(it, 'open')
        if raw == '':
            it.throw(FileNotFoundError, 2, "No such file or directory: ''")
        if full in self.dirs:
            it.throw(IsADirectoryError if self.style == 'posix' else PermissionError, 21,
                     "Is a directory: %s" % raw)
        if mode.startswith('r'):
            if full not in self.files:
                it.throw(FileNotFoundError, 2, "No such file or directory: %s" % raw)
        else:
            d = self.P.dirname(full)
            if d not in self.dirs:
                it.throw(FileNotFoundError, 2, "No such file or directory: %s" % raw)
            if self.style == 'nt' and re.search(r'[<>:"|?*]', self.P.basename(full)):
                it.throw(OSError, 22, "Invalid argument: %s" % raw)
            if any(full == r or full.startswith(r + self.P.sep) for r in self.readonly):
                it.throw(PermissionError, 13, "Permission denied: %s" % raw)
            if mode.startswith('x') and full in self.files:
                it.throw(FileExistsError, 17, "File exists: %s" % raw)
            if full not in self.files:
                it.touch(self.files)
                self.files[full] = File('', e)
                it.event('create', full)
            elif mode.startswith('w'):
                f = self.files[full]
                it.touch(f)
                f.text = ''
                f.enc = e
                it.event('truncate', full)
        h = Handle(self, full, mode, e, errors, it.where())
        self.handles.append(h)
        return h

    # ---- numpy text files
    def savetxt(self, it, a, k):
        names = ['fname', 'X', 'fmt', 'delimiter', 'newline', 'header', 'footer', 'comments', 'encoding']
        p = dict(zip(names, a))
        p.update(k)
        X = it.asarr(p['X'])
        if X.ndim == 1:
            rows = [[e] for e in X.elems()]
        elif X.ndim == 2:
            rows = X.rows()
        elif X.ndim == 0:
            it.throw(ValueError, "Expected 1D or 2D array, got 0D array instead")
        else:
            raise Gap("savetxt ndim")
        fmt = p.get('fmt', '%.18e')
        delim = p.get('delimiter', ' ')
        nl = p.get('newline', '\n')
        com = p.get('comments', '# ')
        head, foot = p.get('header', ''), p.get('footer', '')
        if X.dtype == 'c':
            raise Gap("savetxt of complex data")
        parts = []
        if head:
            head = head.replace('\n', '\n' + com)
            parts.append(com + head + nl)
        for r in rows:
            r = list(r) if isinstance(r, list) else [r]
            if isinstance(fmt, (list, tuple)):
                if len(fmt) != len(r):
                    it.throw(AttributeError, "fmt has wrong shape.")
                line = delim.join(it.percent(f, (e,)) for f, e in zip(fmt, r))
            else:
                n = fmt.count('%')
                if n == 1:
                    line = delim.join(it.percent(fmt, (e,)) for e in r)
                elif n == len(r):
                    line = it.percent(fmt, tuple(r))
                else:
                    it.throw(ValueError, "fmt has wrong number of %% formats:  %s" % fmt)
            parts.append(line + nl)
        if foot:
            foot = foot.replace('\n', '\n' + com)
            parts.append(com + foot + nl)
        h = p['fname']
        if isinstance(h, Handle):
            for s in parts:
                h.m_write(it, s)
            return None
        h = self.open_(it, [h, 'w'], {'encoding': p.get('encoding')})
        try:
            for s in parts:
                h.m_write(it, s)
        finally:
            h.closed = True
        return None

    def loadtxt(self, it, a, k, generic):
        names = ['fname', 'dtype', 'comments', 'delimiter', 'converters', 'skiprows', 'usecols', 'unpack',
                 'ndmin', 'encoding', 'max_rows']
        if generic:
            names = ['fname', 'dtype', 'comments', 'delimiter', 'skip_header']
        p = dict(zip(names, a))
        p.update(k)
        src = p['fname']
        if isinstance(src, (list, tuple, IterLike)) if IterLike else isinstance(src, (list, tuple)):
            lines = [x for x in it.iterate(src)]
        elif isinstance(src, Handle):
            lines = src.op_iter(it)
        else:
            h = self.open_(it, [src, 'r'], {'encoding': p.get('encoding')})
            try:
                lines = h.op_iter(it)
            finally:
                h.closed = True
        com = p.get('comments', '#')
        coms = [com] if isinstance(com, str) else ([] if com is None else list(it.iterate(com)))
        skip = it.as_int(p.get('skiprows', p.get('skip_header', 0)))
        delim = p.get('delimiter')
        rows = []
        for ln in lines[skip:]:
            if isinstance(ln, bytes):
                ln = ln.decode('utf-8')
            if not isinstance(ln, str):
                raise Gap("loadtxt lines")
            for c in coms:
                if c and c in ln:
                    ln = ln[:ln.index(c)]
            ln = ln.strip('\r\n')
            cells = ln.split() if delim is None else ln.split(delim)
            if not cells or (delim is not None and not (ln.strip() if generic else ln)):
                continue
            vals = []
            for c in cells:
                if p.get('dtype') is not None and it.dtype_code(p['dtype']) in 'UO':
                    vals.append(c.strip())
                    continue
                try:
                    v = it.to_float(c.strip())
                except AbsRaise:
                    if generic:
                        vals.append(Num(None, 'f', True, 'nan'))
                        continue
                    raise
                vals.append(v if isinstance(v, Phi) else it.box(v))
            rows.append(vals)
        if p.get('max_rows') is not None:
            rows = rows[:it.as_int(p['max_rows'])]
        uc = p.get('usecols')
        if uc is not None:
            uc = [it.as_int(x) for x in it.iterate(uc)] if not isinstance(uc, int) else [uc]
            rows = [[r[i] for i in uc] for r in rows]
        if rows and any(len(r) != len(rows[0]) for r in rows):
            it.throw(ValueError, "the number of columns changed")
        ndmin = it.as_int(p.get('ndmin', 0))
        n, m = len(rows), (len(rows[0]) if rows else 0)
        flat = [e for r in rows for e in r]
        if n == 0:
            arr = Arr.new([], (0, 1) if ndmin == 2 else (0,), 'f')
            it.event('warn', 'loadtxt: input contained no data')
            return arr
        shape = (n, m)
        if ndmin < 2:
            shape = tuple(d for d in shape if d != 1)
            if len(shape) < ndmin:
                shape = (n * m,)
        arr = Arr.new(flat, shape, 'f')
        if it.truth(p.get('unpack', False)) is True:
            arr = it.transpose(arr)
        return arr


IterLike = None


class PathObj(ModelObj):
    """pathlib path"""
    tname = 'PosixPath'

    def __init__(self, fs, p):
        self.fs = fs
        self.p = p

    def mk(self, p):
        return PathObj(self.fs, p)

    def op_str(self, it):
        return self.p

    def op_binop(self, it, op, a, b):
        if op != '/':
            it.throw(TypeError, "unsupported operand for path")
        x = a.p if isinstance(a, PathObj) else a
        y = b.p if isinstance(b, PathObj) else b
        return self.mk(self.fs.P.join(x, y))

    def op_cmp(self, it, op, a, b):
        x = a.p if isinstance(a, PathObj) else None
        y = b.p if isinstance(b, PathObj) else None
        return (x == y) == (op == '==')

    def a_name(self, it):
        return self.fs.P.basename(self.p)

    def a_stem(self, it):
        return self.fs.P.splitext(self.fs.P.basename(self.p))[0]

    def a_suffix(self, it):
        return self.fs.P.splitext(self.p)[1]

    def a_parent(self, it):
        return self.mk(self.fs.P.dirname(self.p))

    def m_exists(self, it):
        return self.fs.is_file(self.p) or self.fs.is_dir(self.p)

    def m_is_file(self, it):
        return self.fs.is_file(self.p)

    def m_is_dir(self, it):
        return self.fs.is_dir(self.p)

    def m_joinpath(self, it, *a):
        return self.mk(self.fs.P.join(self.p, *[x.p if isinstance(x, PathObj) else x for x in a]))

    def m_with_suffix(self, it, s):
        return self.mk(self.fs.P.splitext(self.p)[0] + s)

    def m_resolve(self, it, *a, **k):
        return self.mk(self.fs.norm(self.p))

    m_absolute = m_resolve

    def m_as_posix(self, it):
        return self.p.replace('\\', '/')

    def m_open(self, it, *a, **k):
        return self.fs.open_(it, [self.p] + list(a), k)

    def m_mkdir(self, it, mode=511, parents=False, exist_ok=False):
        from .m_std import os_mkdir
        return os_mkdir(it, self.p, it.truth(parents) is True, it.truth(exist_ok) is True)

    def m_read_text(self, it, encoding=None, errors=None):
        h = self.fs.open_(it, [self.p, 'r'], {'encoding': encoding, 'errors': errors})
        try:
            return h.m_read(it)
        finally:
            h.closed = True

    def m_write_text(self, it, s, encoding=None, errors=None):
        h = self.fs.open_(it, [self.p, 'w'], {'encoding': encoding, 'errors': errors})
        try:
            h.m_write(it, s)
        finally:
            h.closed = True
        return len(s)

    def m_unlink(self, it, missing_ok=False):
        from .m_std import os_remove
        return os_remove(it, self.p)

    def a_parts(self, it):
        return tuple(_parts(self.fs, self.p))

    def a_parents(self, it):
        out, p = [], self.p
        while True:
            q = self.fs.P.dirname(p)
            if q == p or (not q and p in ('', '.')):
                return tuple(out)
            out.append(self.mk(q or '.'))
            p = q or '.'

    def a_suffixes(self, it):
        return ['.' + x for x in self.fs.P.basename(self.p).lstrip('.').split('.')[1:]]

    def m_with_name(self, it, n):
        return self.mk(self.fs.P.join(self.fs.P.dirname(self.p), n))

    def m_with_stem(self, it, n):
        return self.m_with_name(it, n + self.a_suffix(it))

    def m_is_absolute(self, it):
        return self.fs.P.isabs(self.p)

    def m_is_symlink(self, it):
        return False

    def m_expanduser(self, it):
        from .m_std import expanduser
        return self.mk(expanduser(it, self.p))

    def m_relative_to(self, it, o):
        x, y = _parts(self.fs, self.p), _parts(self.fs, self.fs.path(it, o))
        if x[:len(y)] != y:
            it.throw(ValueError, "%r is not in the subpath of %r" % (self.p, self.fs.path(it, o)))
        return self.mk(self.fs.P.join(*x[len(y):]) if x[len(y):] else '.')

    def m_is_relative_to(self, it, o):
        x, y = _parts(self.fs, self.p), _parts(self.fs, self.fs.path(it, o))
        return x[:len(y)] == y

    def m_rename(self, it, o):
        from .m_std import os_rename
        os_rename(it, self.p, o)
        return self.mk(self.fs.path(it, o))

    m_replace = m_rename

    def m_touch(self, it, mode=438, exist_ok=True):
        if not self.fs.is_file(self.p):
            self.fs.open_(it, [self.p, 'w'], {}).closed = True

    def m_iterdir(self, it):
        from .m_std import listdir
        return it._gen([self.mk(self.fs.P.join(self.p, n)) for n in listdir(it, self.p)])

    def m_glob(self, it, pat):
        from .m_std import glob_
        return it._gen([self.mk(self.fs.P.join(self.p, n)) for n in glob_(it, self.p, pat)])

    def m_rglob(self, it, pat):
        return self.m_glob(it, '**/' + pat)

    def m_rmdir(self, it):
        from .m_std import rmtree
        return rmtree(it, self.p)

    def m_read_bytes(self, it):
        h = self.fs.open_(it, [self.p, 'rb'], {})
        try:
            return h.m_read(it)
        finally:
            h.closed = True

    def m_match(self, it, pat):
        import fnmatch
        if '/' in pat or '**' in pat:
            raise Gap("path match")
        return fnmatch.fnmatchcase(self.fs.P.basename(self.p), pat)

    def m_as_uri(self, it):
        return Unknown('uri')

    def m_stat(self, it, **k):
        return Unknown('stat')


def _parts(fs, p):
    out = []
    while True:
        a, b = fs.P.split(p)
        if b:
            out.insert(0, b)
            p = a
        else:
            if a and a == p:
                out.insert(0, a)
                return out
            if not a:
                return out
            p = a
