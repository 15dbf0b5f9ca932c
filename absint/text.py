"""text of abstract numbers: opaque tokens inside ordinary strings"""
import re
from fractions import Fraction
from .nf import NF
from . import nf as NFM
from .values import *

T0, T1 = '\ue000', '\ue001'
DIG = [chr(0xe100 + i) for i in range(16)]
TOKEN = re.compile(T0 + '([\ue100-\ue10f]+)' + T1)


def enc(i):
    s = ''
    while True:
        s = DIG[i % 16] + s
        i //= 16
        if not i:
            return T0 + s + T1


def dec(s):
    i = 0
    for c in s:
        i = i * 16 + (ord(c) - 0xe100)
    return i


def plain(s):
    """string for reports: tokens shown as <..>"""
    return TOKEN.sub('<num>', s)


def spec_exact(spec):
    """does a format specification keep a double exactly?"""
    m = re.fullmatch(r'(?:.?[<>=^])?[+\- ]?#?0?\d*,?(?:\.(\d+))?([eEfFgGnrs%]?)', spec)
    if not m:
        return False
    p, t = m.groups()
    if t in ('r', 's') or (t == '' and p is None):
        return True
    if p is None:
        return False
    p = int(p)
    if t in ('e', 'E'):
        return p >= 16
    if t in ('g', 'G', ''):
        return p >= 17
    return False


class TextOps:
    def token(self, num, spec=None):
        w = self.w
        key = (num.nf.key(), spec, num.kind == 'c', num.kind == 'i')
        i = w.token_ids.get(key)
        if i is None:
            i = len(w.tokens)
            w.tokens.append((num, spec))
            w.token_ids[key] = i
        return enc(i)

    def num_text(self, n):
        """str() of a number"""
        if n.special:
            if n.kind == 'c':
                return '(nan+nanj)'
            return n.special
        if n.nf.is_const() and n.kind != 'c':
            v = n.nf.const_value()
            if n.kind == 'i':
                return str(int(v))
            f = float(v)
            return repr(f)
        return self.token(n)

    def to_str(self, v):
        if isinstance(v, str):
            if type(v).__name__ == 'EnumStr' and not v.plain:
                return "%s.%s" % (v.cls.name, v.mname)
            return str(v)
        if isinstance(v, Phi):
            return self.dist(v, self.to_str)
        if isinstance(v, Unknown):
            return Unknown('str')
        if isinstance(v, Num):
            return self.num_text(v)
        if isinstance(v, NBool):
            return str(v.v)
        if isinstance(v, ExcVal):
            if not v.args:
                return ''
            if len(v.args) == 1:
                if v.isa(KeyError):
                    return self.to_repr(v.args[0])
                return self.to_str(v.args[0])
            return self.to_repr(tuple(v.args))
        if isinstance(v, AObj) and v.cls.has('__str__'):
            return self.call(self.getattr(v, '__str__'), [], {})
        if isinstance(v, Arr):
            return self.array2string(v)
        return self.to_repr(v)

    def to_repr(self, v):
        if isinstance(v, Phi):
            return self.dist(v, self.to_repr)
        if isinstance(v, Unknown):
            return Unknown('repr')
        if v is None or isinstance(v, (bool, int)):
            return repr(v)
        if isinstance(v, str):
            return repr(v) if T0 not in v else "'" + v.replace('\n', '\\n') + "'"
        if isinstance(v, bytes):
            return repr(v)
        if isinstance(v, Num):
            s = self.num_text(v)
            if v.np:
                return 'np.%s(%s)' % ({'f': 'float64', 'i': 'int64', 'c': 'complex128'}.get(v.kind, v.kind), s)
            return s
        if isinstance(v, NBool):
            return 'np.' + str(v.v)
        if isinstance(v, (list, tuple)):
            parts = []
            for x in v:
                r = self.to_repr(x)
                if not isinstance(r, str):
                    return Unknown('repr')
                parts.append(r)
            if isinstance(v, list):
                return '[' + ', '.join(parts) + ']'
            return '(' + ', '.join(parts) + (',)' if len(parts) == 1 else ')')
        if isinstance(v, dict):
            parts = []
            for k, x in v.items():
                p, q = self.to_repr(k), self.to_repr(x)
                if not isinstance(p, str) or not isinstance(q, str):
                    return Unknown('repr')
                parts.append(p + ': ' + q)
            return '{' + ', '.join(parts) + '}'
        if isinstance(v, ASet):
            if not v.items:
                return 'set()'
            return '{' + ', '.join(self.to_repr(x) for x in self.set_order(v)) + '}'
        if isinstance(v, Arr):
            return 'array(' + self.array2string(v, sep=', ') + ')'
        if isinstance(v, (AClass, ExcType, TypeObj)):
            return "<class '%s'>" % v.name
        if isinstance(v, AObj):
            m = v.cls.lookup('__repr__')
            if m is not None:
                return self.call(Bound(m, v), [], {})
            return '<%s object at 0x%x>' % (v.cls.name, v.uid)
        if isinstance(v, ExcVal):
            return v.name + '(' + ', '.join(str(self.to_repr(a)) for a in v.args) + ')'
        if hasattr(v, 'op_str'):
            return v.op_str(self)
        return '<%s>' % self.typename(v)

    def format(self, v, spec=''):
        if isinstance(v, Phi):
            return self.dist(v, lambda x: self.format(x, spec))
        if isinstance(v, Unknown) or isinstance(spec, Unknown):
            return Unknown('format')
        if spec == '':
            return self.to_str(v)
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            try:
                return format(v, spec)
            except ValueError as e:
                self.throw(ValueError, str(e))
        if isinstance(v, Num):
            if v.special:
                return v.special
            if v.nf.is_const() and v.kind != 'c':
                try:
                    x = float(v.nf.const_value())
                    return format(int(x) if v.kind == 'i' else x, spec)
                except ValueError as e:
                    self.throw(ValueError, str(e))
            return self.token(v, None if spec_exact(spec) else spec)
        if isinstance(v, (bool, NBool)):
            return format(bool(v == True), spec)
        if v is None or isinstance(v, (list, dict, tuple, Arr)):
            self.throw(TypeError, "unsupported format string passed to %s.__format__" % self.typename(v))
        return self.to_str(v)

    def str_format(self, s, args, kwargs):
        """str.format"""
        out = ''
        auto = 0
        i = 0
        while i < len(s):
            c = s[i]
            if c == '{':
                if s[i:i + 2] == '{{':
                    out += '{'
                    i += 2
                    continue
                depth = 1
                j = i + 1
                while j < len(s) and depth:
                    if s[j] == '{':
                        depth += 1
                    elif s[j] == '}':
                        depth -= 1
                    j += 1
                if depth:
                    self.throw(ValueError, "expected '}' before end of string")
                body = s[i + 1:j - 1]
                i = j
                conv = ''
                spec = ''
                m = re.match(r'([^!:]*)(![rsa])?(?::(.*))?$', body, re.S)
                field, conv, spec = m.group(1), m.group(2) or '', m.group(3) or ''
                if '{' in spec:
                    def sub(mm):
                        nonlocal auto
                        f = mm.group(1)
                        if f == '':
                            v = args[auto]
                            auto += 1
                        elif f.isdigit():
                            v = args[int(f)]
                        else:
                            v = kwargs[f]
                        return self.to_str(v)
                    # the value itself is numbered first
                if field == '' or re.match(r'[.\[]', field):
                    idx = auto
                    auto += 1
                    rest = field
                    if idx >= len(args):
                        self.throw(IndexError, "Replacement index %d out of range for positional args tuple" % idx)
                    v = args[idx]
                else:
                    mm = re.match(r'[^.\[]+', field)
                    base, rest = mm.group(0), field[mm.end():]
                    if base.isdigit():
                        if int(base) >= len(args):
                            self.throw(IndexError, "Replacement index %s out of range" % base)
                        v = args[int(base)]
                    else:
                        if base not in kwargs:
                            self.throw(KeyError, base)
                        v = kwargs[base]
                for mm in re.finditer(r'\.(\w+)|\[([^\]]*)\]', rest):
                    if mm.group(1):
                        v = self.getattr(v, mm.group(1))
                    else:
                        k = mm.group(2)
                        v = self.getitem(v, int(k) if k.isdigit() else k)
                if '{' in spec:
                    spec = re.sub(r'\{(\w*)\}', sub, spec)
                if conv == '!r':
                    v = self.to_repr(v)
                elif conv == '!s':
                    v = self.to_str(v)
                r = self.format(v, spec)
                if isinstance(r, Phi):
                    r = self.dist(r, lambda x: x)
                if not isinstance(r, str):
                    return Unknown('format')
                out += r
            elif c == '}':
                if s[i:i + 2] == '}}':
                    out += '}'
                    i += 2
                    continue
                self.throw(ValueError, "Single '}' encountered in format string")
            else:
                out += c
                i += 1
        return out

    PCT = re.compile(r'%(\((\w+)\))?([#0\- +]*\d*)(\.\d+)?([sdrfFeEgGixXc%])')

    def percent(self, s, arg):
        if isinstance(arg, (Unknown, Phi)):
            return Unknown('percent')
        args = list(arg) if isinstance(arg, tuple) else [arg]
        pos = [0]
        unk = [False]

        def sub(m):
            if m.group(5) == '%':
                return '%'
            if m.group(2):
                v = self.getitem(arg, m.group(2))
            else:
                if pos[0] >= len(args):
                    self.throw(TypeError, "not enough arguments for format string")
                v = args[pos[0]]
                pos[0] += 1
            t = m.group(5)
            if t == 's':
                r = self.to_str(v)
            elif t == 'r':
                r = self.to_repr(v)
            elif t in 'dixX':
                if isinstance(v, int):
                    r = ('%' + m.group(3) + t) % v
                elif isinstance(v, Num):
                    r = self.to_str(self.unary('trunc', v))
                else:
                    self.throw(TypeError, "%%%s format: a real number is required, not %s" % (t, self.typename(v)))
            else:
                if not isinstance(v, (Num, int)):
                    self.throw(TypeError, "must be real number, not %s" % self.typename(v))
                r = self.format(self.tonum(v) if isinstance(v, Num) else Num(NF.num(v), 'f'),
                                m.group(3).strip() + (m.group(4) or '.6') + t)
            if not isinstance(r, str):
                unk[0] = True
                return '?'
            return r
        out = self.PCT.sub(sub, s)
        if unk[0]:
            return Unknown('percent')
        if pos[0] < len(args) and not isinstance(arg, dict):
            self.throw(TypeError, "not all arguments converted during string formatting")
        return out

    def token_num(self, tok):
        """Num denoted by a token"""
        num, spec = self.w.tokens[dec(TOKEN.fullmatch(tok).group(1))]
        if spec is None:
            return Num(num.nf, num.kind, False)
        self.event('lossy_number', spec)
        return Num(self.w.space.fn('lossy', (spec, num.nf), real=True,
                                   sign=NFM.sign(num.nf) if NFM.sign(num.nf) in ('+', '-') else None),
                   num.kind if num.kind != 'i' else 'f', False)

    def to_float(self, s):
        if isinstance(s, Phi):
            return self.dist(s, self.to_float)
        t = s.strip()
        neg = False
        if T0 in t:
            m = re.fullmatch(r'(-?)(?:np\.float64\()?(' + TOKEN.pattern + r')\)?', t)
            if m is None:
                if re.search(r'[^\d.eE+\-' + T0 + T1 + '\ue100-\ue10f]', t):
                    self.throw(ValueError, "could not convert string to float: %r" % plain(s))
                raise Gap("number token inside other text: %r" % plain(t))
            if 'np.' in t:
                self.throw(ValueError, "could not convert string to float: %r" % plain(s))
            n = self.token_num(m.group(2))
            if n.kind == 'c':
                self.throw(ValueError, "could not convert string to float")
            n = Num(n.nf, 'f', False)
            return self.neg(n) if m.group(1) else n
        try:
            f = float(t)
        except ValueError:
            self.throw(ValueError, "could not convert string to float: %r" % s)
        if f == f and f not in (float('inf'), float('-inf')):
            try:
                return Num(NF.num(Fraction(t.replace('_', ''))), 'f')
            except ValueError:
                return fnum(f)
        return fnum(f)

    # ---- numpy array text
    def arr_elem_text(self, e, precision, exact, width):
        if isinstance(e, bool):
            return str(e)
        if not isinstance(e, Num):
            return self.to_str(e)
        if e.special:
            return e.special
        if e.kind == 'i':
            return self.num_text(e)
        if exact:
            return self.num_text(e)
        if e.nf.is_const() and e.kind != 'c':
            v = float(e.nf.const_value())
            r = float('%.*e' % (precision, v))
            return repr(r)
        return self.token(e, 'array2string precision %d' % precision)

    def array2string(self, a, sep=' ', precision=None, threshold=None, max_line_width=None,
                     floatmode=None, edgeitems=3, formatter=None, **kw):
        opts = self.w.printoptions
        precision = precision if precision is not None else opts.get('precision', 8)
        threshold = threshold if threshold is not None else opts.get('threshold', 1000)
        width = max_line_width if max_line_width is not None else opts.get('linewidth', 75)
        floatmode = floatmode or opts.get('floatmode', 'maxprec')
        if isinstance(threshold, Num):
            threshold = float('inf') if threshold.special == 'inf' else int(threshold.const())
        if isinstance(width, Num):
            width = float('inf') if width.special == 'inf' else int(width.const())
        if isinstance(precision, Num):
            precision = int(precision.const())
        exact = floatmode == 'unique' or (isinstance(precision, int) and precision >= 17)
        fm = None
        if isinstance(formatter, dict):
            for k in ('float_kind', 'float', 'all'):
                if k in formatter:
                    fm = formatter[k]

        def txt(e):
            if fm is not None:
                return self.to_str(self.call(fm, [self.box(e)], {}))
            return self.arr_elem_text(e, precision, exact, width)
        if a.ndim == 0:
            return txt(a.elems()[0])
        self.event('array2string', (threshold, a.size))
        if a.size > threshold:
            self.event('summarised_array', a.size)
            e = a.elems()
            s = sep.join(txt(x) for x in e[:edgeitems]) + sep + '...' + sep + \
                sep.join(txt(x) for x in e[-edgeitems:])
            return '[' * a.ndim + s + ']' * a.ndim
        # worst-case width of one number
        wid = 24 if exact else precision + 7

        def tw(t):
            return wid if T0 in t else len(t)

        def rec(rows, ndim, indent):
            if ndim == 1:
                line = '['
                length = indent + 1
                first = True
                out = ''
                for e in rows:
                    t = txt(e)
                    n = tw(t)
                    if not first:
                        if length + len(sep) + n + 1 >= width:
                            out += line.rstrip() + sep.rstrip() + '\n' + ' ' * (indent + 1)
                            line = ''
                            length = indent + 1
                        else:
                            line += sep
                            length += len(sep)
                    line += t
                    length += n
                    first = False
                return out + line + ']'
            parts = [rec(r, ndim - 1, indent + 1) for r in rows]
            return '[' + (sep.rstrip() + '\n' * (ndim - 1) + ' ' * (indent + 1)).join(parts) + ']'
        return rec(a.rows(), a.ndim, 0)
