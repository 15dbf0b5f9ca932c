"""Obligations, scenarios (entry contexts of the analysis) and verdicts."""
import ast
import json
import os
import sys
import time
import traceback
from absint import nf as NFM
from absint.nf import NF, K
from absint.values import *
from absint.world import World, run, source_files, parse, REPO
from absint.flow import cnot

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """scenario cannot go on (already recorded)"""


PATH = []                       # conditions the analysed part of the entry context is restricted to


# ---------------------------------------------------------------- witnesses for guards
def cond_at(c, k):
    """truth of a condition at sample k: True/False/None"""
    t = c.t
    if t[0] == 'cmp':
        a, b = t[2].vals()[k], t[3].vals()[k]
        if a != a or b != b:
            return None
        a, b = a.real, b.real
        eq = abs(a - b) <= 1e-12 * max(abs(a), abs(b))
        return {'<': a < b and not eq, '<=': a < b or eq, '>': a > b and not eq, '>=': a > b or eq,
                '==': eq, '!=': not eq}[t[1]]
    if t[0] == 'not':
        r = cond_at(t[1], k)
        return None if r is None else not r
    if t[0] in ('and', 'or'):
        r = [cond_at(x, k) for x in t[1:]]
        if t[0] == 'and':
            return False if False in r else (None if None in r else True)
        return True if True in r else (None if None in r else False)
    return None


def satisfiable(guards):
    """does one of the sample interpretations, or one of them at another magnitude, satisfy all guards?"""
    if PATH:
        guards = [c for c, _ in PATH] + list(guards)
    if not guards:
        return True
    if any(all(cond_at(g, k) is True for g in guards) for k in range(K)):
        return True
    return rescaled(guards)


# ---- other magnitudes: every spectral symbol (or every other one) multiplied by one factor
class _Other(Exception):
    """cannot be evaluated at another magnitude"""


class Rescale:
    def __init__(self, k, grid, rest):
        self.k, self.grid, self.rest, self.memo = k, grid, rest, {}

    def atom(self, a):
        if a.id not in self.memo:
            self.memo[a.id] = self._atom(a)
        return self.memo[a.id]

    def _atom(self, a):
        v = a.vals[self.k]
        if a.kind == 'sym':
            return v * (self.grid if isgrid(a) else self.rest)
        if a.kind != 'fn':
            return v
        args = [self.nf(x) if isinstance(x, NF) else x for x in a.args]
        try:
            if a.fname == 'geom':
                lo, hi, i, n = args
                return complex(lo.real * (hi.real / lo.real) ** (i / (n - 1)))
            if a.fname == 'round':
                return complex(round(args[0].real, args[1]), round(args[0].imag, args[1]))
            if a.fname in NFM.EVAL:
                return complex(NFM.EVAL[a.fname](*args))
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            pass
        raise _Other()

    def nf(self, n):
        tot = 0j
        for m, c in n.t.items():
            v = complex(float(c))
            for a, e in m:
                try:
                    v *= self.atom(a) ** e
                except (ZeroDivisionError, OverflowError):
                    raise _Other()
            tot += v
        return tot

    def cond(self, c):
        t = c.t
        if t[0] == 'cmp':
            a, b = self.nf(t[2]), self.nf(t[3])
            if a != a or b != b:
                return None
            a, b = a.real, b.real
            eq = abs(a - b) <= 1e-12 * max(abs(a), abs(b))
            return {'<': a < b and not eq, '<=': a < b or eq, '>': a > b and not eq, '>=': a > b or eq,
                    '==': eq, '!=': not eq}[t[1]]
        if t[0] == 'not':
            r = self.cond(t[1])
            return None if r is None else not r
        if t[0] in ('and', 'or'):
            r = [self.cond(x) for x in t[1:]]
            if t[0] == 'and':
                return False if False in r else (None if None in r else True)
            return True if True in r else (None if None in r else False)
        return None


def isgrid(a):
    return isinstance(a.rank, tuple) and bool(a.rank) and isinstance(a.rank[0], tuple) and a.rank[0][:1] == ('grid',)


def thresholds(c, out):
    """comparisons with a constant inside a condition"""
    t = c.t
    if t[0] == 'cmp':
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if x.is_const() and x.t and not y.is_const():
                out.append((abs(x.vals()[0]), y))
    elif t[0] in ('not', 'and', 'or'):
        for x in t[1:]:
            thresholds(x, out)
    return out


def rescaled(guards):
    th = []
    for g in guards:
        if g.opaque():
            return False
        thresholds(g, th)
    if not th or len(th) > 12:
        return False
    space = next((a.space for _, y in th for m in y.t for a, _ in m), None)
    facts = getattr(space, 'context', lambda: [])() if space is not None else []
    for k in range(K):
        fs = {1.0}
        for c, y in th:
            v = abs(y.vals()[k])
            if v and v == v and v != float('inf'):
                for r in (c / v, v / c):
                    fs |= {r * q for q in (0.03, 0.5, 0.999, 1.0, 1.001, 2.0, 30.0)}
        for f in sorted(fs):
            if not 1e-40 < f < 1e40:
                continue
            for grid, rest in ((f, 1.0), (1.0, f)):
                w = Rescale(k, grid, rest)
                try:
                    if all(w.cond(g) is True for g in guards) and all(w.cond(x) is True for x in facts):
                        return True
                except _Other:
                    continue
    return False


# ---------------------------------------------------------------- comparing abstract values
def leaves(v, guards=()):
    if isinstance(v, Phi):
        yield from leaves(v.a, guards + (v.cond,))
        yield from leaves(v.b, guards + (cnot(v.cond),))
    else:
        yield guards, v


def scalarize(v):
    if isinstance(v, Arr) and v.shape == ():
        return v.elems()[0]
    return v


def tonum(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, NBool):
        v = bool(v.v)
    if isinstance(v, (bool, int, float)):
        return fnum(v)
    return None


def compare(got, want):
    """-> (verdict True/False/None, text)"""
    verdict, text = True, ''
    for g1, a in leaves(got):
        for g2, b in leaves(want):
            v, t = cmp1(a, b)
            if v is True:
                continue
            g = list(g1) + list(g2)
            if any(cnot(x) in g2 for x in g1):
                continue
            if (g or PATH) and not any(x.opaque() for x in g) and not satisfiable(g):
                continue                # no sample of the context takes both branches together
            if v is False and any(x.opaque() for x in g):
                v = None
            if v is False:
                return False, t + (" when " + " and ".join(x.text() for x in g) if g else '')
            if v is None and verdict:
                verdict, text = None, t
    return verdict, text


def txt(v):
    if isinstance(v, Num):
        t = v.text()
    else:
        t = repr(v)
    return t if len(t) < 300 else t[:300] + '...'


def cmp1(a, b):
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return None, "undecided value %r" % (a,)
    a, b = scalarize(a), scalarize(b)
    if isinstance(a, Phi) or isinstance(b, Phi):
        return compare(a, b)
    na, nb = tonum(a), tonum(b)
    if na is not None and nb is not None:
        if na.special or nb.special:
            ok = na.special == nb.special
        else:
            ok = NFM.equal(na.nf, nb.nf)
        return ok, "" if ok else "%s, expected %s" % (txt(na), txt(nb))
    if isinstance(a, Arr) and isinstance(b, (list, tuple)) and a.ndim <= 1:
        a = a.elems()
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.shape != b.shape:
            return False, "shape %s, expected %s" % (a.shape, b.shape)
        a, b = a.elems(), b.elems()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False, "%d values, expected %d" % (len(a), len(b))
        und = None
        for i, (x, y) in enumerate(zip(a, b)):
            v, t = compare(x, y)
            if v is False:
                return False, "element %d: %s" % (i, t)
            if v is None and und is None:
                und = "element %d: %s" % (i, t)
        return (True, '') if und is None else (None, und)
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a), list(b)
        if set(map(repr, ka)) != set(map(repr, kb)):
            return False, "keys %s, expected %s" % (sorted(map(str, ka)), sorted(map(str, kb)))
        und = None
        for k in kb:
            v, t = compare(a[k], b[k])
            if v is False:
                return False, "[%r]: %s" % (k, t)
            if v is None:
                und = t
        return (True, '') if und is None else (None, und)
    if type(a) is type(b) or (isinstance(a, str) and isinstance(b, str)):
        try:
            ok = a == b
        except Exception:
            return None, "uncomparable %r" % (a,)
        return bool(ok), "" if ok else "%s, expected %s" % (txt(a), txt(b))
    return False, "%s, expected %s" % (txt(a), txt(b))


# ---------------------------------------------------------------- lengths the source speaks about
def fold(e):
    if isinstance(e, ast.Constant) and type(e.value) is int:
        return e.value
    if isinstance(e, ast.Constant) and type(e.value) is float and e.value == int(min(e.value, 1e6)):
        return int(e.value)
    if isinstance(e, ast.BinOp):
        a, b = fold(e.left), fold(e.right)
        if a is not None and b is not None and 0 <= a <= 5000 and 0 <= b <= 5000:
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Pow) and b < 20:
                return a ** b
            if isinstance(e.op, ast.LShift) and b < 20:
                return a << b
    return None


NOLEN = {'geomspace', 'linspace', 'logspace', 'round', 'around', 'indent', 'power', 'pow', 'format', 'reshape'}


def lengths():
    """whole numbers in the analysed source that may be compared with a length"""
    out = set()

    def visit(n):
        if isinstance(n, ast.Call):
            f = n.func
            if (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')) in NOLEN:
                for k in n.args + [w.value for w in n.keywords]:
                    if not isinstance(k, ast.Constant):
                        visit(k)
                return
        if isinstance(n, ast.expr):
            v = fold(n)
            if v is not None:
                if 4 <= v <= 20000 and not (isinstance(n, ast.Constant) and type(n.value) is float):
                    out.add(v)
                return
        if isinstance(n, ast.Compare):
            for k in [n.left] + n.comparators:
                v = fold(k)
                if v is not None and 4 <= v <= 20000:
                    out.add(v)
        for k in ast.iter_child_nodes(n):
            visit(k)
    for f in source_files():
        if os.sep + 'scripts' + os.sep not in f:
            visit(parse(f))
    return out


DECIDING = {'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'replace', 'find', 'rfind', 'partition', 'rpartition', 'index',
            'rindex', 'count', 'removeprefix', 'removesuffix', 'sub', 'match', 'search', 'fullmatch', 'compile', 'translate', 'fnmatch', 'glob'}


def words():
    """texts in the analysed source that may be compared with a text handed in"""
    out = set()

    def consts(n):
        for k in ast.walk(n):
            if isinstance(k, ast.Constant) and isinstance(k.value, str) and 0 < len(k.value) <= 24:
                out.add(k.value)
    for f in source_files():
        for n in ast.walk(parse(f)):
            if isinstance(n, ast.Compare):
                consts(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DECIDING:
                consts(n)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, (ast.Tuple, ast.Set, ast.List, ast.Constant)):
                consts(n.value)
            elif hasattr(ast, 'match_case') and isinstance(n, ast.match_case):
                consts(n.pattern)
    return out


# ---------------------------------------------------------------- check
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []            # (name, status, detail, site)
        self.functions = set()
        self.callsites = set()
        self.scenarios = 0
        self.samples = []
        self.rules = {}
        self.notes = []
        self.t0 = time.time()
        self.budget = 700 if tier == 'thorough' else 400

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def sizes(self, cap=3500, most=4):
        """lengths to analyse: a plain one and those around the numbers found in the source"""
        new = sorted(v for v in lengths() if 12 < v <= cap)[-most:]
        out = [14] + sorted({n for v in new for n in (v, v + 2, 2 * v) if n <= 2 * cap // 2})
        if self.thorough and 101 < cap:
            out += [101]
        return sorted(set(out))

    def strings(self):
        """texts to analyse: those the source compares with, and what they are the beginning, end or middle of"""
        out = []
        for w in sorted(words()):
            if not w.isprintable():
                continue
            out += [w, w + 'x', 'x' + w, 'x%sx' % w]
            if len(w) < 5 and not w.isalnum():
                out += [k % c for c in w for k in ('%s', '%sx', 'x%s')]
        return sorted(set(out))

    def rule(self, key, text):
        self.rules[key] = text

    def ob(self, name, verdict, detail='', site=None, sig=None):
        if verdict is False and PATH:
            if not satisfiable([]):
                verdict, detail = None, "no witness for the path: " + detail
            else:
                detail += "; when " + " and ".join(c.text() for c, _ in PATH)
        st = {True: 'ok', False: 'violated', None: 'undecided'}[verdict]
        self.obs.append((name, st, detail, site, sig or name))
        return verdict

    def scenario(self, name, fn, **kw):
        """analyse one entry context"""
        self.scenarios += 1
        kw.setdefault('seed', self.seed)
        nv = sum(1 for o in self.obs if o[1] == 'violated')
        if nv and (time.time() - self.t0 > 60 or nv > 200):
            self.notes.append("stopped after %d violations" % nv)
            return None
        left = self.budget - (time.time() - self.t0)
        if left <= 0:
            self.ob(name, None, "analysis gap: time budget of the check exhausted")
            return None
        limit = kw.pop('limit', 30)
        NFM.DEADLINE[0] = time.monotonic() + min(limit, left)
        return self.analyse(name, fn, kw, {}, [24])

    def analyse(self, name, fn, kw, forced, runs):
        """one entry context; where states cannot be joined, the context is split at the undecided test"""
        runs[0] -= 1
        w = World(**kw)
        w.it.forced = forced
        PATH[:] = []
        w.it.path = PATH
        sc = Scenario(self, name, w)
        split = None
        try:
            fn(sc)
        except Skip:
            pass
        except (Gap, NFM.TooBig) as e:
            split = self.split(w, e, forced, runs)
            if split is None:
                self.ob(name, None, "analysis gap: %s" % e if isinstance(e, Gap) else "analysis gap: term too big")
        except NFM.OutOfTime:
            self.ob(name, None, "analysis gap: time budget of the entry context exhausted")
        except RecursionError:
            self.ob(name, None, "analysis gap: recursion")
        except AbsRaise as e:
            self.ob(name, False, "raises %r" % (e.exc,), e.exc.site)
        except Exception:
            if os.environ.get('ABSINT_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.ob(name, None, "internal: %s at %s:%d" % (traceback.format_exc().strip().splitlines()[-1],
                                                          os.path.basename(tb.filename), tb.lineno))
        finally:
            PATH[:] = []
        self.functions |= {str(f) for f in w.functions}
        self.callsites |= {str(f) for f in w.callsites}
        if split is not None:
            for side in (True, False):
                self.analyse(name, fn, kw, {**forced, split: side}, runs)
        return sc

    def split(self, w, e, forced, runs):
        if runs[0] < 2:
            return None
        k = getattr(e, 'fork', None)
        if k is None or k not in w.it.forks:
            k = min((n for n in w.it.forks if n not in forced), default=None)
        return k if k is not None and all(n < k for n in forced) else None


class Scenario:
    def __init__(self, chk, name, w):
        self.chk, self.name, self.w, self.it = chk, name, w, w.it
        self._mods = {}

    # -- access to the analysed package
    def mod(self, name):
        full = 'dispersion' + ('.' + name if name else '')
        if full not in self._mods:
            o = run(self.w, lambda: self.w.import_module(full, self.it))
            bad = [x for x in o if x.kind == 'raise']
            if bad:
                self.chk.ob(self.name + ": import " + full, False, bad[0].text(), bad[0].exc.site)
                raise Skip()
            self._mods[full] = o[0].value
        return self._mods[full]

    def pub(self, path):
        """'spectrum.Spectrum' -> class"""
        m, _, n = path.rpartition('.')
        ns = self.mod(m).ns
        if n not in ns:
            self.chk.ob(self.name + ": public name " + path, None, "anchor dispersion.%s not found" % path)
            raise Skip()
        return ns[n]

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = self.pub(f)
        return self.it.call(f, list(a), dict(k))

    def meth(self, o, name, *a, **k):
        return self.it.call(self.it.getattr(o, name), list(a), dict(k))

    def attr(self, o, name):
        return self.it.getattr(o, name)

    def sym(self, *a, **k):
        return self.w.sym(*a, **k)

    def num(self, x, np=False):
        return fnum(x, np)

    def arr(self, elems, dtype=None):
        if elems and isinstance(elems[0], (list, tuple)):
            flat = [x for r in elems for x in r]
            return Arr.new(flat, (len(elems), len(elems[0])), dtype or dtype_of(flat))
        return Arr.new(list(elems), None, dtype or dtype_of(elems))

    # -- obligations
    def site(self, o=None):
        return None

    def ok(self, label, fn):
        """fn must not raise; returns its (joined) value"""
        name = self.name + ": " + label
        outs = run(self.w, fn)
        good = [o for o in outs if o.kind == 'ok']
        und = None
        for o in outs:
            if o.kind != 'raise':
                continue
            if not o.opaque() and satisfiable(o.guards):
                self.chk.ob(name, False, "unexpected exception " + o.text() + chain(o), o.exc.site)
                raise Skip()
            und = o
        if not good:
            self.chk.ob(name, None, "no decided outcome: " + (und.text() if und else ''))
            raise Skip()
        if und is not None and und.opaque():
            self.chk.ob(name, None, "possible exception: " + und.text())
        elif und is not None:
            # guard contradicts every sample of the context: reported as an assumption, not as an obligation
            t = "guard of %s holds at no sample of the context" % und.text()[:160]
            if t not in self.chk.notes and len(self.chk.notes) < 50:
                self.chk.notes.append(t)
        return good[0].value

    def raises(self, label, fn, exc=(ValueError,), quiet=False):
        """fn must raise (one of) exc on every outcome"""
        name = self.name + ": " + label
        if not isinstance(exc, tuple):
            exc = (exc,)
        outs = run(self.w, fn)
        und = None
        for o in outs:
            if o.kind == 'ok':
                if not o.opaque() and satisfiable(o.guards):
                    return self.chk.ob(name, False, "accepted (returns %s), expected %s" % (
                        txt(o.value), "/".join(e.__name__ for e in exc)))
                und = o
            elif not any(o.exc.isa(e) for e in exc):
                if not o.opaque() and satisfiable(o.guards):
                    return self.chk.ob(name, False, "raises %s, expected %s%s" % (
                        o.text(), "/".join(e.__name__ for e in exc), chain(o)), o.exc.site)
                und = o
        return self.chk.ob(name, None if und is not None else True, und.text() if und else '')

    def eq(self, label, got, want, detail=''):
        v, t = compare(got, want)
        return self.chk.ob(self.name + ": " + label, v, (detail + ' ' if detail else '') + t)

    def true(self, label, v, detail='', site=None):
        return self.chk.ob(self.name + ": " + label, v, detail, site)

    # -- purity
    def snapshot(self, *objs):
        return [snap(o, {}) for o in objs]

    def unchanged(self, label, before, *objs):
        after = [snap(o, {}) for o in objs]
        for b, a in zip(before, after):
            v, t = snapcmp(b, a)
            if v is not True:
                m = self.w.mutations[-1] if self.w.mutations else None
                return self.chk.ob(self.name + ": " + label, v, "caller's object changed: %s%s" % (
                    t, " (%s)" % (m,) if m else ''), str(m) if m else None)
        return self.chk.ob(self.name + ": " + label, True)


def chain(o):
    st = getattr(o.exc, 'stack', None)
    return "; via " + " > ".join(map(str, st)) if st else ""


def snap(o, seen):
    """deep copy of the observable state"""
    if isinstance(o, (Num, NBool, str, int, float, bool, type(None), bytes)):
        return o
    if isinstance(o, Phi):
        return Phi(o.cond, snap(o.a, seen), snap(o.b, seen))
    if id(o) in seen:
        return ('ref', seen[id(o)])
    seen[id(o)] = len(seen)
    if isinstance(o, Arr):
        return ('arr', o.shape, o.dtype, [snap(e, seen) for e in o.elems()])
    if isinstance(o, AObj):
        return ('obj', o.cls.name, {k: snap(v, seen) for k, v in o.attrs.items()})
    if isinstance(o, dict):
        return ('dict', [(snap(k, seen), snap(v, seen)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(x, seen) for x in o])
    if isinstance(o, ASet):
        return ('set', [snap(x, seen) for x in o.items])
    if isinstance(o, ModelObj):
        return ('model', type(o).__name__, {k: snap(v, seen) for k, v in sorted(o.__dict__.items())})
    return ('id', id(o))


def snapcmp(a, b, path=''):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] != b[0] or len(a) != len(b):
            return False, "%s became %s" % (path, b[0])
        if a[0] == 'obj' or a[0] == 'model':
            pub = lambda m: {k for k in m if not str(k).startswith('_')}     # private attributes (caches) are not observable
            ka, kb = pub(a[2]), pub(b[2])
            if ka != kb:
                return False, "%s attributes %s" % (path, sorted(ka ^ kb))
            for k in sorted(ka):
                v, t = snapcmp(a[2][k], b[2][k], path + '.' + str(k))
                if v is not True:
                    return v, t
            return True, ''
        if a[0] == 'dict':
            if len(a[1]) != len(b[1]):
                return False, "%s: %d keys became %d" % (path, len(a[1]), len(b[1]))
            for (k1, v1), (k2, v2) in zip(a[1], b[1]):
                if not (k1 == k2):
                    return False, "%s: key %r became %r" % (path, k1, k2)
                v, t = snapcmp(v1, v2, "%s[%r]" % (path, k1))
                if v is not True:
                    return v, t
            return True, ''
        if a[0] == 'arr':
            if a[1] != b[1] or a[2] != b[2]:
                return False, "%s: array %s %s became %s %s" % (path, a[1], a[2], b[1], b[2])
            a, b = ('list', a[3]), ('list', b[3])
        if a[0] in ('list', 'tuple', 'set'):
            if len(a[1]) != len(b[1]):
                return False, "%s: %d elements became %d" % (path, len(a[1]), len(b[1]))
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                v, t = snapcmp(x, y, "%s[%d]" % (path, i))
                if v is not True:
                    return v, t
            return True, ''
        return (a == b), "%s changed" % path
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False, "%s changed from %s to %s" % (path, txt(a), txt(b))
    v, t = compare(b, a)
    return v, "%s: %s" % (path, t)
