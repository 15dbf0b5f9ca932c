"""pandas data frames (label indexed tables of cells)"""
import csv
import io
from .nf import NF
from .values import *
from .numops import is_num
from .text import T0, plain
from .fs import Handle

NAN = Num(None, 'f', False, 'nan')
DEFAULT_NA = {'', '#N/A', '#N/A N/A', '#NA', '-1.#IND', '-1.#QNAN', '-NaN', '-nan', '1.#IND', '1.#QNAN', '<NA>',
              'N/A', 'NA', 'NULL', 'NaN', 'None', 'n/a', 'nan', 'null'}


def isna(v):
    return v is None or (isinstance(v, Num) and v.special == 'nan')


def cell(v):
    if isinstance(v, Arr) and v.ndim == 0:
        return v.elems()[0]
    return v


def same(it, x, y):
    t = it.truth(it.eq(x, y))
    if not isinstance(t, bool):
        raise Gap("undecided label")
    return t


def dups(it, keys, keep):
    """which rows pandas calls duplicated"""
    eq = lambda a, b: all((isna(x) and isna(y)) or same(it, x, y) for x, y in zip(a, b))
    n = len(keys)
    first = [any(eq(keys[i], keys[j]) for j in range(i)) for i in range(n)]
    last = [any(eq(keys[i], keys[j]) for j in range(i + 1, n)) for i in range(n)]
    if keep == 'first':
        return first
    if keep == 'last':
        return last
    return [a or b for a, b in zip(first, last)]


class Index(ModelObj):
    tname = 'Index'

    def __init__(self, labels):
        self.labels = list(labels)

    def op_len(self, it):
        return len(self.labels)

    def a_size(self, it):
        return len(self.labels)

    def a_shape(self, it):
        return (len(self.labels),)

    def a_empty(self, it):
        return not self.labels

    def a_is_unique(self, it):
        if not all(isinstance(v, (int, str)) for v in self.labels):
            raise Gap("uniqueness of an index")
        return len(set(self.labels)) == len(self.labels)

    def a_has_duplicates(self, it):
        return not self.a_is_unique(it)

    def a_values(self, it):
        return as_arr(it, self.labels)

    def m_tolist(self, it):
        return list(self.labels)

    m_to_list = m_tolist

    def m_to_numpy(self, it):
        return self.a_values(it)

    def op_iter(self, it):
        return list(self.labels)

    def op_contains(self, it, x):
        return any(same(it, x, y) for y in self.labels)

    def op_getitem(self, it, k):
        if isinstance(k, (Series, Arr, list)):
            m = mask_of(it, k, len(self.labels))
            if m is not None:
                return Index([l for l, b in zip(self.labels, m) if b])
            return Index([self.labels[it.as_int(i)] for i in it.iterate(k)])
        if isinstance(k, slice):
            return Index([self.labels[i] for i in it.slice_range(k, len(self.labels))])
        i = it.as_int(k)
        if not -len(self.labels) <= i < len(self.labels):
            it.throw(IndexError, "index %d is out of bounds for axis 0 with size %d" % (i, len(self.labels)))
        return self.labels[i]

    def op_cmp(self, it, op, a, b):
        v = as_arr(it, self.labels)
        return it.cmp(op, v if a is self else a, v if b is self else b)

    def op_truth(self, it):
        it.throw(ValueError, "The truth value of a Index is ambiguous.")

    def m_get_loc(self, it, k):
        for i, l in enumerate(self.labels):
            if same(it, l, k):
                return i
        it.throw(KeyError, k)

    def m_max(self, it):
        return max(self.labels)

    def as_array(self, it):
        return as_arr(it, self.labels)


def as_arr(it, vals):
    vals = [it.box(v) if is_num(v) and not isinstance(v, Phi) else v for v in vals]
    d = dtype_of(vals)
    return Arr.new(vals, None, 'O' if d == 'U' else d)


def mask_of(it, k, n):
    """list of bools when k is a boolean mask"""
    if isinstance(k, Series):
        vals = k.vals
    elif isinstance(k, Arr):
        if k.dtype != 'b' and not all(isinstance(e, (bool, NBool)) for e in k.elems()):
            return None
        vals = k.elems()
    elif isinstance(k, list):
        vals = k
    else:
        return None
    out = []
    for v in vals:
        if isinstance(v, NBool):
            v = v.v
        if isinstance(v, Phi):
            raise Gap("undecided row mask")
        if not isinstance(v, bool):
            return None
        out.append(v)
    if len(out) != n:
        it.throw(ValueError if not isinstance(k, list) else ValueError, "Item wrong length %d instead of %d."
                 % (len(out), n))
    return out


class Series(ModelObj):
    tname = 'Series'

    def __init__(self, vals, index, name=None, frame=None, col=None):
        self.vals = list(vals)
        self.index = list(index)
        self.name = name
        self.frame = frame
        self.col = col

    def getattr_(self, it, n):
        if n in self.index:
            return self.vals[self.index.index(n)]
        return ABSENT

    def a_values(self, it):
        return as_arr(it, self.vals)

    a_array = a_values

    def a_index(self, it):
        return Index(self.index)

    def a_name(self, it):
        return self.name

    def a_size(self, it):
        return len(self.vals)

    def a_shape(self, it):
        return (len(self.vals),)

    def a_empty(self, it):
        return not self.vals

    def a_iloc(self, it):
        return Loc(self, 'iloc')

    def a_loc(self, it):
        return Loc(self, 'loc')

    def a_at(self, it):
        return Loc(self, 'loc')

    def a_dtype(self, it):
        return Unknown('dtype')

    def a_str(self, it):
        return StrAcc(self)

    def as_array(self, it):
        return as_arr(it, self.vals)

    def m_tolist(self, it):
        return list(self.vals)

    m_to_list = m_tolist

    def m_to_numpy(self, it, *a, **k):
        return as_arr(it, self.vals)

    def m_copy(self, it, *a, **k):
        return Series(self.vals, self.index, self.name)

    def m_to_dict(self, it):
        return dict(zip(self.index, self.vals))

    def m_get(self, it, k, d=None):
        return self.vals[self.index.index(k)] if k in self.index else d

    def m_isin(self, it, vs):
        vs = it.iterate(vs)
        return Series([any(same(it, x, y) for y in vs) for x in self.vals], self.index)

    def m_eq(self, it, o):
        return self.op_cmp(it, '==', self, o)

    def m_any(self, it):
        return NBool(any(self._bools(it)))

    def m_all(self, it):
        return NBool(all(self._bools(it)))

    def m_sum(self, it):
        return sum(self._bools(it))

    def _bools(self, it):
        out = []
        for v in self.vals:
            t = it.truth(v)
            if not isinstance(t, bool):
                raise Gap("undecided series")
            out.append(t)
        return out

    def m_isnull(self, it):
        return Series([isna(v) for v in self.vals], self.index)

    m_isna = m_isnull

    def m_notnull(self, it):
        return Series([not isna(v) for v in self.vals], self.index)

    m_notna = m_notnull

    def m_unique(self, it):
        out = []
        for v in self.vals:
            if not any(same(it, v, x) for x in out):
                out.append(v)
        return as_arr(it, out)

    def m_astype(self, it, t, *a, **k):
        return Series([it.to_str(v) if it.dtype_code(t) == 'U' else v for v in self.vals], self.index, self.name)

    def m_fillna(self, it, v, *a, **k):
        return Series([v if isna(x) else x for x in self.vals], self.index, self.name)

    def m_items(self, it):
        return list(zip(self.index, self.vals))

    def m_drop(self, it, labels=None, index=None, **k):
        if k:
            raise Gap("Series.drop")
        ls = index if index is not None else labels
        ls = it.iterate(ls) if isinstance(ls, (list, Index, Arr, tuple)) else [ls]
        keep = [i for i, l in enumerate(self.index) if not any(same(it, l, x) for x in ls)]
        return Series([self.vals[i] for i in keep], [self.index[i] for i in keep], self.name)

    def m_duplicated(self, it, keep='first'):
        return Series(dups(it, [[v] for v in self.vals], keep), self.index)

    def m_drop_duplicates(self, it, keep='first', **k):
        if k:
            raise Gap("drop_duplicates")
        d = dups(it, [[v] for v in self.vals], keep)
        return Series([v for v, b in zip(self.vals, d) if not b], [l for l, b in zip(self.index, d) if not b], self.name)

    def m_dropna(self, it, **k):
        if k:
            raise Gap("dropna")
        return self.op_getitem(it, self.m_notnull(it))

    def m_head(self, it, n=5):
        return self.op_getitem(it, slice(None, n))

    def m_tail(self, it, n=5):
        n = it.as_int(n)
        return self.op_getitem(it, slice(-n, None) if n else slice(0, 0))

    def m_count(self, it):
        return sum(not isna(v) for v in self.vals)

    def m_nunique(self, it):
        return len(self.m_unique(it).elems())

    def m_replace(self, it, a, b=None, **k):
        if k or isinstance(a, (list, dict, Series)):
            raise Gap("Series.replace")
        return Series([b if same(it, v, a) else v for v in self.vals], self.index, self.name)

    def m_ne(self, it, o):
        return self.op_cmp(it, '!=', self, o)

    def m_map(self, it, f, *a, **k):
        return Series([it.call(f, [v], {}) for v in self.vals], self.index, self.name)

    m_apply = m_map

    def m_item(self, it):
        if len(self.vals) != 1:
            it.throw(ValueError, "can only convert an array of size 1 to a Python scalar")
        return self.vals[0]

    def op_len(self, it):
        return len(self.vals)

    def op_iter(self, it):
        return list(self.vals)

    def op_contains(self, it, x):
        return any(same(it, x, l) for l in self.index)

    def op_truth(self, it):
        it.throw(ValueError, "The truth value of a Series is ambiguous.")

    def op_getitem(self, it, k):
        m = mask_of(it, k, len(self.vals)) if isinstance(k, (Series, Arr, list)) else None
        if m is not None:
            return Series([v for v, b in zip(self.vals, m) if b], [l for l, b in zip(self.index, m) if b], self.name)
        if isinstance(k, slice):
            r = it.slice_range(k, len(self.vals))
            return Series([self.vals[i] for i in r], [self.index[i] for i in r], self.name)
        for l, v in zip(self.index, self.vals):
            if same(it, l, k):
                return v
        it.throw(KeyError, k)

    def op_setitem(self, it, k, v):
        it.event('pandas_chained', None)
        for i, l in enumerate(self.index):
            if same(it, l, k):
                it.touch(self)
                self.vals = list(self.vals)
                self.vals[i] = v
                return

    def op_cmp(self, it, op, a, b):
        o = b if a is self else a
        if isinstance(o, (Series, Arr, list, tuple)):
            ov = o.vals if isinstance(o, Series) else it.iterate(o)
            if len(ov) != len(self.vals):
                it.throw(ValueError, "Lengths must match to compare")
        else:
            ov = [o] * len(self.vals)
        out = []
        for x, y in zip(self.vals, ov):
            p, q = (x, y) if a is self else (y, x)
            if op in ('==', '!='):
                r = it.eq(p, q)
                t = it.truth(r)
                r = t if isinstance(t, bool) else Phi(t, True, False)
                if op == '!=':
                    r = (not r) if isinstance(r, bool) else Phi(r.cond, False, True)
            else:
                r = it.cmp(op, p, q)
            out.append(r)
        return Series(out, self.index)

    def op_binop(self, it, op, a, b):
        o = b if a is self else a
        ov = o.vals if isinstance(o, Series) else it.iterate(o) if isinstance(o, (Arr, list)) else [o] * len(self.vals)
        return Series([it.binop(op, x, y) if a is self else it.binop(op, y, x) for x, y in zip(self.vals, ov)],
                      self.index, self.name)

    def op_inv(self, it):
        return Series([not b for b in self._bools(it)], self.index)


class StrAcc(ModelObj):
    tname = 'StringMethods'

    def __init__(self, s):
        self.s = s

    def getattr_(self, it, n):
        def f(it, a, k):
            return Series([it.call(it.getattr(v, n), a, k) if isinstance(v, str) else NAN for v in self.s.vals],
                          self.s.index, self.s.name)
        def rx(it, a, k):
            kk = dict(zip(('pat', 'case', 'flags', 'na', 'regex'), a), **k)
            if set(kk) - {'pat', 'na', 'regex', 'case'} or kk.get('case', True) is not True or not isinstance(kk['pat'], str):
                raise Gap("arguments of Series.str." + n)
            if kk.get('regex', True) is False:
                t = lambda v: it.contains(v, kk['pat'])
            else:
                g = it.getattr(it.w.ext['re'], 'search' if n == 'contains' else n)
                t = lambda v: it.call(g, [kk['pat'], v], {}) is not None
            if not all(isinstance(v, str) for v in self.s.vals):
                raise Gap("Series.str over other values")
            return Series([t(v) for v in self.s.vals], self.s.index, self.s.name)
        if n in ('contains', 'match', 'fullmatch'):
            return ExtFunc(n, rx)
        if n in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'lstrip', 'rstrip', 'casefold', 'title', 'split', 'removeprefix',
                 'removesuffix', 'find', 'isdigit', 'zfill'):
            return ExtFunc(n, f)
        if n == 'len':
            return ExtFunc(n, lambda it, a, k: Series([it.call(it.builtins['len'], [v], {}) for v in self.s.vals], self.s.index, self.s.name))
        return ABSENT


class Loc(ModelObj):
    tname = 'indexer'

    def __init__(self, o, kind):
        self.o = o
        self.kind = kind

    def rows(self, it, k, enlarge=False):
        """(positions, scalar?)"""
        idx = self.o.index
        n = len(idx)
        if isinstance(k, Index):
            if self.kind in ('at', 'iat'):
                it.throw_cls(it.pd_invalid_index, "You can only assign a scalar value not a Index")
            k = list(k.labels)
        if isinstance(k, slice):
            if self.kind == 'loc' and (k.start is not None or k.stop is not None):
                a = 0 if k.start is None else self.pos(it, k.start)
                b = n - 1 if k.stop is None else self.pos(it, k.stop)
                return list(range(a, b + 1)), False
            return list(it.slice_range(k, n)), False
        if isinstance(k, (Series, Arr, list, tuple)):
            if self.kind in ('at', 'iat'):
                it.throw_cls(it.pd_invalid_index, k)
            m = mask_of(it, k, n) if not isinstance(k, tuple) else None
            if m is not None:
                return [i for i, b in enumerate(m) if b], False
            return [self.pos(it, x) for x in it.iterate(k)], False
        if self.kind in ('iloc', 'iat'):
            if not (isinstance(k, int) or isinstance(k, Num) and k.kind == 'i'):
                it.throw(TypeError, "Cannot index by location index with a non-integer key")
            i = it.as_int(k)
            if not -n <= i < n:
                it.throw(IndexError, "single positional indexer is out-of-bounds")
            return [i % n], True
        p = self.pos(it, k, enlarge)
        return [p], True

    def pos(self, it, label, enlarge=False):
        if self.kind in ('iloc', 'iat'):
            n = len(self.o.index)
            i = it.as_int(label)
            if not -n <= i < n:
                it.throw(IndexError, "positional indexers are out-of-bounds")
            return i % n
        hits = [i for i, l in enumerate(self.o.index) if same(it, l, label)]
        if not hits:
            if enlarge:
                self.o.enlarge(it, label)
                return len(self.o.index) - 1
            it.throw(KeyError, label)
        if len(hits) > 1:
            raise Gap("duplicate labels")
        return hits[0]

    def cols(self, it, c):
        df = self.o
        if isinstance(c, slice):
            if c == slice(None):
                return list(df.columns), False
            if self.kind in ('iloc', 'iat'):
                return [df.columns[i] for i in it.slice_range(c, len(df.columns))], False
            i = df.columns.index(c.start) if c.start is not None else 0
            j = df.columns.index(c.stop) if c.stop is not None else len(df.columns) - 1
            return df.columns[i:j + 1], False
        if isinstance(c, (list, Index)):
            return [self.cols(it, x)[0][0] for x in it.iterate(c)], False
        if self.kind in ('iloc', 'iat'):
            i = it.as_int(c)
            if not -len(df.columns) <= i < len(df.columns):
                it.throw(IndexError, "single positional indexer is out-of-bounds")
            return [df.columns[i]], True
        if c not in df.columns:
            it.throw(KeyError, c)
        return [c], True

    def op_getitem(self, it, k):
        if isinstance(self.o, Series):
            ps, sc = self.rows(it, k)
            if sc:
                return self.o.vals[ps[0]]
            return Series([self.o.vals[i] for i in ps], [self.o.index[i] for i in ps], self.o.name)
        df = self.o
        r, c = k if isinstance(k, tuple) and len(k) == 2 else (k, slice(None))
        ps, rs = self.rows(it, r)
        cs, cc = self.cols(it, c)
        if rs and cc:
            return df.data[cs[0]][ps[0]]
        if rs:
            return Series([df.data[q][ps[0]] for q in cs], list(cs), df.index[ps[0]])
        if cc:
            return Series([df.data[cs[0]][i] for i in ps], [df.index[i] for i in ps], cs[0])
        return DF(list(cs), [df.index[i] for i in ps], {q: [df.data[q][i] for i in ps] for q in cs})

    def op_setitem(self, it, k, v):
        if isinstance(self.o, Series):
            raise Gap("assignment through series indexer")
        df = self.o
        r, c = k if isinstance(k, tuple) and len(k) == 2 else (k, slice(None))
        it.write(df)
        df.data = {q: list(x) for q, x in df.data.items()}
        df.index = list(df.index)
        df.columns = list(df.columns)
        if isinstance(c, str) and c not in df.columns and self.kind in ('loc', 'at'):
            df.columns.append(c)
            df.data[c] = [NAN] * len(df.index)
        ps, rs = self.rows(it, r, enlarge=True)
        cs, cc = self.cols(it, c)
        vals = None
        if isinstance(v, (Series, Arr, list, tuple)) and not (rs and cc):
            vals = it.iterate(v)
        for a, i in enumerate(ps):
            for b, q in enumerate(cs):
                if vals is None:
                    x = v
                elif len(ps) == 1:
                    x = vals[b]
                else:
                    x = vals[a]
                df.data[q][i] = cell(x)


def align(it, v, index):
    """values of a series at the labels of another index"""
    if len(v.index) == len(index) and all(same(it, a, b) for a, b in zip(v.index, index)):
        return list(v.vals)
    out = []
    for l in index:
        hit = [x for k, x in zip(v.index, v.vals) if same(it, k, l)]
        if len(hit) > 1:
            it.throw(ValueError, "cannot reindex on an axis with duplicate labels")
        out.append(hit[0] if hit else NAN)
    return out


class DF(ModelObj):
    tname = 'DataFrame'

    def __init__(self, columns, index, data):
        self.columns = list(columns)
        self.index = list(index)
        self.data = data

    def n(self):
        return len(self.index)

    def enlarge(self, it, label):
        self.index.append(label)
        for q in self.columns:
            self.data[q].append(NAN)

    def getattr_(self, it, n):
        if n in self.data:
            return self.op_getitem(it, n)
        if n in ('append',):
            it.throw(AttributeError, "'DataFrame' object has no attribute 'append'")
        return ABSENT

    def setattr_(self, it, n, v):
        if n in self.data:
            self.op_setitem(it, n, v)
            return
        if n == 'columns':
            new = it.iterate(v)
            it.write(self)
            self.data = {a: self.data[b] for a, b in zip(new, self.columns)}
            self.columns = list(new)
            return
        if n == 'index':
            it.write(self)
            self.index = list(it.iterate(v))
            return
        raise Gap("DataFrame attribute assignment")

    def a_columns(self, it):
        return Index(self.columns)

    def a_index(self, it):
        return Index(self.index)

    def a_values(self, it):
        flat = [self.data[c][i] for i in range(self.n()) for c in self.columns]
        return Arr.new(flat, (self.n(), len(self.columns)), 'O')

    def m_to_numpy(self, it, *a, **k):
        return self.a_values(it)

    def a_shape(self, it):
        return (self.n(), len(self.columns))

    def a_size(self, it):
        return self.n() * len(self.columns)

    def a_empty(self, it):
        return self.n() == 0 or not self.columns

    def a_loc(self, it):
        return Loc(self, 'loc')

    def a_iloc(self, it):
        return Loc(self, 'iloc')

    def a_at(self, it):
        return Loc(self, 'at')

    def a_iat(self, it):
        return Loc(self, 'iat')

    def a_dtypes(self, it):
        return Unknown('dtypes')

    def op_len(self, it):
        return self.n()

    def op_iter(self, it):
        return list(self.columns)

    def op_contains(self, it, x):
        return x in self.columns

    def op_truth(self, it):
        it.throw(ValueError, "The truth value of a DataFrame is ambiguous.")

    def op_getitem(self, it, k):
        if isinstance(k, (Series, Arr, list)):
            if isinstance(k, list) and all(isinstance(x, str) for x in k):
                for x in k:
                    if x not in self.columns:
                        it.throw(KeyError, x)
                return DF(k, self.index, {c: list(self.data[c]) for c in k})
            m = mask_of(it, k, self.n())
            if m is None:
                raise Gap("DataFrame selection")
            return self.take([i for i, b in enumerate(m) if b])
        if isinstance(k, slice):
            return self.take(list(it.slice_range(k, self.n())))
        if isinstance(k, Index):
            return self.op_getitem(it, list(k.labels))
        if k not in self.columns:
            it.throw(KeyError, k)
        return Series(self.data[k], self.index, k, self, k)

    def take(self, ps):
        return DF(self.columns, [self.index[i] for i in ps], {c: [self.data[c][i] for i in ps] for c in self.columns})

    def op_setitem(self, it, k, v):
        it.write(self)
        n = self.n()
        self.data = dict(self.data)
        if isinstance(v, Series):
            vals = align(it, v, self.index) if self.columns else list(v.vals)
        elif isinstance(v, DF):
            raise Gap("assignment of a frame")
        elif isinstance(v, (list, Arr, tuple)):
            vals = [cell(x) for x in it.iterate(v)]
        else:
            vals = [v] * n
        if isinstance(k, (Series, Arr)):
            raise Gap("masked frame assignment")
        if self.columns and len(vals) != n and (n or self.columns):
            it.throw(ValueError, "Length of values (%d) does not match length of index (%d)" % (len(vals), n))
        if k not in self.columns:
            self.columns = self.columns + [k]
        self.data[k] = vals

    def op_cmp(self, it, op, a, b):
        raise Gap("DataFrame comparison")

    def m_copy(self, it, *a, **k):
        return DF(self.columns, self.index, {c: list(v) for c, v in self.data.items()})

    def op_deepcopy(self, it, memo):
        return self.m_copy(it)

    op_copy = m_copy

    def m_keys(self, it):
        return Index(self.columns)

    def m_head(self, it, n=5):
        return self.take(list(range(min(self.n(), it.as_int(n)))))

    def m_reset_index(self, it, drop=False, inplace=False, **k):
        if it.truth(drop) is not True:
            raise Gap("reset_index without drop")
        if it.truth(inplace) is True:
            it.write(self)
            self.index = list(range(self.n()))
            return None
        return DF(self.columns, range(self.n()), {c: list(v) for c, v in self.data.items()})

    def m_iterrows(self, it):
        return it._gen([(l, Series([self.data[c][i] for c in self.columns], self.columns, l))
                        for i, l in enumerate(self.index)])

    def m_itertuples(self, it, index=True, name='Pandas'):
        from .natives import NTuple
        out = []
        for i, l in enumerate(self.index):
            vals = ([l] if index else []) + [self.data[c][i] for c in self.columns]
            t = NTuple(vals)
            t.fields = (['Index'] if index else []) + list(self.columns)
            out.append(t)
        return it._gen(out)

    def m_to_dict(self, it, orient='dict', **k):
        if orient == 'records':
            return [{c: self.data[c][i] for c in self.columns} for i in range(self.n())]
        if orient == 'list':
            return {c: list(self.data[c]) for c in self.columns}
        raise Gap("to_dict")

    def m_drop(self, it, labels=None, axis=0, index=None, columns=None, inplace=False, **k):
        if columns is not None or axis in (1, 'columns'):
            cs = columns if columns is not None else labels
            cs = [cs] if isinstance(cs, str) else it.iterate(cs)
            out = DF([c for c in self.columns if c not in cs], self.index,
                     {c: list(v) for c, v in self.data.items() if c not in cs})
        else:
            ls = index if index is not None else labels
            ls = it.iterate(ls) if isinstance(ls, (list, Index, Arr, tuple)) else [ls]
            out = self.take([i for i, l in enumerate(self.index) if not any(same(it, l, x) for x in ls)])
        if it.truth(inplace) is True:
            it.write(self)
            self.columns, self.index, self.data = out.columns, out.index, out.data
            return None
        return out

    def m_fillna(self, it, v=None, **k):
        return DF(self.columns, self.index, {c: [v if isna(x) else x for x in self.data[c]] for c in self.columns})

    def m_isnull(self, it):
        return DF(self.columns, self.index, {c: [isna(x) for x in self.data[c]] for c in self.columns})

    m_isna = m_isnull

    def m_update(self, it, other, join='left', overwrite=True, **k):
        if k or not isinstance(other, DF) or overwrite is not True:
            raise Gap("update")
        it.write(self)
        self.data = dict(self.data)
        for c in self.columns:
            if c in other.columns:
                new = align(it, Series(other.data[c], other.index), self.index)
                self.data[c] = [o if isna(x) else x for o, x in zip(self.data[c], new)]

    def m_assign(self, it, **kw):
        out = self.m_copy(it)
        for k, v in kw.items():
            if type(v).__name__ in ('AFunc', 'Bound', 'ExtFunc'):
                v = it.call(v, [out], {})
            out.op_setitem(it, k, v)
        return out

    def m_insert(self, it, loc, column, value, *a, **k):
        if column in self.columns:
            it.throw(ValueError, "cannot insert %s, already exists" % column)
        self.op_setitem(it, column, value)
        self.columns = self.columns[:-1]
        self.columns.insert(it.as_int(loc), column)

    def m_pop(self, it, c):
        if c not in self.columns:
            it.throw(KeyError, c)
        r = Series(self.data[c], self.index, c)
        it.write(self)
        self.data = {q: v for q, v in self.data.items() if q != c}
        self.columns = [q for q in self.columns if q != c]
        return r

    def m_get(self, it, c, default=None):
        return self.op_getitem(it, c) if isinstance(c, str) and c in self.columns else default

    def m_items(self, it):
        return [(c, self.op_getitem(it, c)) for c in self.columns]

    def m_sort_index(self, it, inplace=False, **k):
        if k or not all(isinstance(l, int) for l in self.index) or len(set(self.index)) != self.n():
            raise Gap("sort_index")
        return self._inplace(it, self.take(sorted(range(self.n()), key=lambda i: self.index[i])), inplace)

    def m_reindex(self, it, *a, **k):
        cs = k.get('columns')
        if cs is None or a:
            raise Gap("reindex")
        cs = it.iterate(cs)
        return DF(cs, self.index, {c: list(self.data.get(c, [NAN] * self.n())) for c in cs})

    def m_astype(self, it, t, *a, **k):
        return self.m_copy(it)

    def m_equals(self, it, o):
        if not isinstance(o, DF) or o.columns != self.columns or o.n() != self.n():
            return False
        return all((isna(x) and isna(y)) or same(it, x, y)
                   for c in self.columns for x, y in zip(self.data[c], o.data[c]))

    def _inplace(self, it, out, inplace):
        if it.truth(inplace) is True:
            it.write(self)
            self.columns, self.index, self.data = out.columns, out.index, out.data
            return None
        return out

    def m_sort_values(self, it, by, ascending=True, inplace=False, ignore_index=False, kind=None, **k):
        cs = [by] if isinstance(by, str) else it.iterate(by)
        if k or not isinstance(ascending, bool) or not all(isinstance(v, str) for c in cs for v in self.data[c]):
            raise Gap("sort_values")
        key = [tuple(self.data[c][i] for c in cs) for i in range(self.n())]
        if len(set(key)) != len(key) and kind not in ('stable', 'mergesort'):
            raise Gap("unstable sort")
        out = self.take(sorted(range(self.n()), key=lambda i: key[i], reverse=not ascending))
        if it.truth(ignore_index) is True:
            out.index = list(range(out.n()))
        return self._inplace(it, out, inplace)

    def m_duplicated(self, it, subset=None, keep='first'):
        cs = self.columns if subset is None else [subset] if isinstance(subset, str) else it.iterate(subset)
        return Series(dups(it, [[self.data[c][i] for c in cs] for i in range(self.n())], keep), self.index)

    def m_drop_duplicates(self, it, subset=None, keep='first', inplace=False, ignore_index=False):
        d = self.m_duplicated(it, subset, keep).vals
        out = self.take([i for i, b in enumerate(d) if not b])
        if it.truth(ignore_index) is True:
            out.index = list(range(out.n()))
        return self._inplace(it, out, inplace)

    def m_dropna(self, it, axis=0, how='any', subset=None, inplace=False, ignore_index=False, **k):
        if k or axis not in (0, 'index'):
            raise Gap("dropna")
        cs = self.columns if subset is None else [subset] if isinstance(subset, str) else it.iterate(subset)
        f = any if how == 'any' else all
        out = self.take([i for i in range(self.n()) if not f(isna(self.data[c][i]) for c in cs)])
        if it.truth(ignore_index) is True:
            out.index = list(range(out.n()))
        return self._inplace(it, out, inplace)

    def m_tail(self, it, n=5):
        n = it.as_int(n)
        return self.take(list(range(self.n()))[-n:] if n else [])

    def m_rename(self, it, mapper=None, columns=None, inplace=False, **k):
        if k or mapper is not None or not isinstance(columns, dict):
            raise Gap("rename")
        f = lambda c: columns.get(c, c)
        return self._inplace(it, DF([f(c) for c in self.columns], self.index, {f(c): list(v) for c, v in self.data.items()}), inplace)

    def m_to_csv(self, it, path_or_buf=None, *a, **k):
        if a:
            names = ['sep', 'na_rep', 'float_format', 'columns', 'header', 'index', 'index_label']
            k = dict(zip(names, a), **k)
        sep = k.get('sep', ',')
        na = k.get('na_rep', '')
        ff = k.get('float_format')
        cols = it.iterate(k['columns']) if k.get('columns') is not None else self.columns
        index = it.truth(k.get('index', True)) is True
        for q in k:
            if q not in ('sep', 'na_rep', 'float_format', 'columns', 'header', 'index', 'index_label', 'encoding',
                         'mode', 'line_terminator', 'lineterminator', 'quoting', 'errors', 'date_format'):
                it.throw(TypeError, "to_csv() got an unexpected keyword argument '%s'" % q)
        if 'line_terminator' in k:
            it.throw(TypeError, "to_csv() got an unexpected keyword argument 'line_terminator'")
        buf = io.StringIO()
        w = csv.writer(buf, delimiter=sep, lineterminator='\n')
        hdr = k.get('header', True)
        if isinstance(hdr, (list, tuple)):
            head = list(hdr)
        else:
            head = list(cols) if it.truth(hdr) is True else None
        if head is not None:
            lbl = k.get('index_label')
            w.writerow(([lbl if isinstance(lbl, str) else ''] if index else []) + head)
        for i in range(self.n()):
            row = []
            if index:
                row.append(it.to_str(self.index[i]))
            for c in cols:
                v = self.data[c][i]
                if isinstance(v, (Phi, Unknown)):
                    raise Gap("undecided cell written to csv")
                if isna(v):
                    row.append(na)
                elif ff is not None and isinstance(v, Num) and v.kind == 'f':
                    row.append(it.percent(ff, (v,)) if isinstance(ff, str) and '%' in ff else it.call(
                        it.getattr(ff, 'format') if isinstance(ff, str) else ff, [v], {}))
                else:
                    row.append(it.to_str(v))
            w.writerow(row)
        text = buf.getvalue()
        if path_or_buf is None:
            return text
        if isinstance(path_or_buf, Handle):
            path_or_buf.m_write(it, text)
            return None
        mode = k.get('mode', 'w')
        h = it.w.fs.open_(it, [path_or_buf, mode], {'encoding': k.get('encoding') or 'utf-8'})
        try:
            h.m_write(it, text)
        finally:
            h.closed = True
        return None


def mk_df(it, a, k):
    p = dict(zip(['data', 'index', 'columns', 'dtype', 'copy'], a))
    p.update(k)
    data, index, columns = p.get('data'), p.get('index'), p.get('columns')
    if columns is not None:
        columns = it.iterate(columns)
    if data is None:
        data = []
    if isinstance(data, DF):
        out = data.m_copy(it)
        if columns is not None:
            out = out.m_reindex(it, columns=columns)
        return out
    if isinstance(data, dict):
        cols = columns if columns is not None else list(data)
        ls = {}
        n = None
        for c in cols:
            v = data.get(c)
            if isinstance(v, Series):
                v = v.vals
            elif isinstance(v, (list, tuple, Arr)):
                v = [cell(x) for x in it.iterate(v)]
            if isinstance(v, list):
                if n is not None and n != len(v):
                    it.throw(ValueError, "All arrays must be of the same length")
                n = len(v)
            ls[c] = v
        if n is None:
            if index is None and cols and any(v is not None for v in ls.values()):
                it.throw(ValueError, "If using all scalar values, you must pass an index")
            n = len(it.iterate(index)) if index is not None else 0
        d = {c: (v if isinstance(v, list) else [NAN if v is None else v] * n) for c, v in ls.items()}
    else:
        rows = it.iterate(data) if not isinstance(data, list) else data
        n = len(rows)
        if all(isinstance(r, (dict, Series)) for r in rows):
            rows = [dict(zip(r.index, r.vals)) if isinstance(r, Series) else r for r in rows]
            cols = columns
            if cols is None:
                cols = []
                for r in rows:
                    for c in r:
                        if c not in cols:
                            cols.append(c)
            d = {c: [cell(r[c]) if c in r else NAN for r in rows] for c in cols}
        else:
            rows = [it.iterate(r) for r in rows]
            cols = columns if columns is not None else list(range(len(rows[0]) if rows else 0))
            if any(len(r) != len(cols) for r in rows):
                it.throw(ValueError, "%d columns passed, passed data had %d columns"
                         % (len(cols), len(rows[0]) if rows else 0))
            d = {c: [cell(r[j]) for r in rows] for j, c in enumerate(cols)}
    idx = it.iterate(index) if index is not None else range(n)
    return DF(cols, idx, d)


def concat(it, a, k):
    p = dict(zip(['objs'], a))
    p.update(k)
    for q in p:
        if q not in ('objs', 'ignore_index', 'sort', 'axis', 'join', 'copy', 'keys', 'names', 'verify_integrity',
                     'levels'):
            it.throw(TypeError, "concat() got an unexpected keyword argument '%s'" % q)
    if p.get('axis', 0) not in (0, 'index') or p.get('join', 'outer') != 'outer' or p.get('keys'):
        raise Gap("concat options")
    objs = [o for o in it.iterate(p['objs']) if o is not None]
    if not objs:
        it.throw(ValueError, "No objects to concatenate")
    if any(not isinstance(o, DF) for o in objs):
        raise Gap("concat of non-frames")
    cols = []
    for o in objs:
        for c in o.columns:
            if c not in cols:
                cols.append(c)
    if it.truth(p.get('sort', False)) is True:
        cols = sorted(cols)
    d = {c: [] for c in cols}
    idx = []
    for o in objs:
        for c in cols:
            d[c].extend(o.data[c] if c in o.data else [NAN] * o.n())
        idx.extend(o.index)
    if it.truth(p.get('ignore_index', False)) is True:
        idx = list(range(len(idx)))
    return DF(cols, idx, d)


def read_csv(it, a, k):
    p = dict(zip(['path'], a))
    p.update(k)
    p.setdefault('path', p.get('filepath_or_buffer'))
    known = {'path', 'filepath_or_buffer', 'dtype', 'na_values', 'keep_default_na', 'sep', 'delimiter', 'index_col',
             'encoding', 'header', 'usecols', 'na_filter', 'engine', 'low_memory', 'float_precision', 'names',
             'skipinitialspace', 'comment', 'converters', 'encoding_errors'}
    for q in p:
        if q not in known:
            it.throw(TypeError, "read_csv() got an unexpected keyword argument '%s'" % q)
    if p.get('header', 'infer') not in ('infer', 0) or p.get('converters') or p.get('comment') or p.get('names'):
        raise Gap("read_csv options")
    src = p['path']
    if isinstance(src, Handle):
        text = src.m_read(it)
    else:
        h = it.w.fs.open_(it, [src, 'r'], {'encoding': p.get('encoding') or 'utf-8'})
        try:
            text = h.m_read(it)
        finally:
            h.closed = True
    rows = list(csv.reader(io.StringIO(text, newline=''), delimiter=p.get('sep', p.get('delimiter') or ',')))
    rows = [r for r in rows if r]
    if not rows:
        it.throw(ValueError, "No columns to parse from file")
    cols = rows[0]
    dt = p.get('dtype')
    keep = it.truth(p.get('keep_default_na', True)) is True
    nav = p.get('na_values')
    nafilter = it.truth(p.get('na_filter', True)) is True
    data = {}
    body = rows[1:]
    for r in body:
        if len(r) > len(cols):
            it.throw(ValueError, "Error tokenizing data")
    for j, c in enumerate(cols):
        vals = [r[j] if j < len(r) else '' for r in body]
        na = set(DEFAULT_NA) if keep else set()
        if isinstance(nav, dict):
            if c in nav:
                extra = nav[c]
                na |= set(it.iterate(extra)) if not isinstance(extra, str) else {extra}
        elif nav is not None:
            na |= set(it.iterate(nav)) if not isinstance(nav, str) else {nav}
        if not nafilter:
            na = set()
        t = dt.get(c) if isinstance(dt, dict) else dt
        out = []
        if t is None:
            num = True
            for v in vals:
                if v in na:
                    continue
                try:
                    it.to_float(v)
                except AbsRaise:
                    num = False
            isint = all(v.strip().lstrip('+-').isdigit() for v in vals) and vals
            for v in vals:
                if v in na:
                    out.append(NAN)
                elif isint:
                    out.append(Num(NF.num(int(v)), 'i', True))
                elif num:
                    out.append(it.to_float(v))
                else:
                    out.append(v)
        else:
            code = it.dtype_code(t)
            for v in vals:
                if v in na:
                    out.append(NAN)
                elif code in 'UO':
                    out.append(v)
                elif code == 'i':
                    out.append(it.call(it.builtins['int'], [v], {}))
                elif code == 'b':
                    out.append(v == 'True')
                else:
                    out.append(it.to_float(v))
        data[c] = out
    df = DF(cols, range(len(body)), data)
    uc = p.get('usecols')
    if uc is not None:
        uc = it.iterate(uc)
        df = df.op_getitem(it, [c for c in cols if c in uc])
    ic = p.get('index_col')
    if ic is not None and ic is not False:
        c = ic if isinstance(ic, str) else df.columns[it.as_int(ic)]
        df.index = df.data.pop(c)
        df.columns = [x for x in df.columns if x != c]
    return df


def install(it):
    inv = AClass('InvalidIndexError', [ExcType(Exception)], {}, Module('pandas.errors', {}))
    it.pd_invalid_index = inv

    def F(n, f):
        return ExtFunc(n, f)
    dft = TypeObj('DataFrame', lambda v: isinstance(v, DF), mk_df)
    dft.attrs['from_dict'] = F('from_dict', lambda it, a, k: mk_df(it, a[:1], k))
    dft.attrs['from_records'] = F('from_records', lambda it, a, k: mk_df(it, a, k))
    st = TypeObj('Series', lambda v: isinstance(v, Series),
                 lambda it, a, k: Series(it.iterate(a[0]) if not isinstance(a[0], dict) else list(a[0].values()),
                                         it.iterate(k['index']) if 'index' in k else
                                         list(a[0]) if isinstance(a[0], dict) else range(len(it.iterate(a[0])))))
    frame = Module('pandas.core.frame', {'DataFrame': dft})
    series = Module('pandas.core.series', {'Series': st})
    core = Module('pandas.core', {'frame': frame, 'series': series})
    errs = Module('pandas.errors', {'InvalidIndexError': inv, 'EmptyDataError': ExcType(ValueError),
                                    'ParserError': ExcType(ValueError)})
    ns = {'DataFrame': dft, 'Series': st, '__version__': '3.1.0', 'core': core, 'errors': errs,
          'read_csv': F('read_csv', read_csv), 'concat': F('concat', concat),
          'Index': TypeObj('Index', lambda v: isinstance(v, Index)),
          'isnull': F('isnull', lambda it, a, k: isna(a[0])), 'isna': F('isna', lambda it, a, k: isna(a[0])),
          'notnull': F('notnull', lambda it, a, k: not isna(a[0])),
          'notna': F('notna', lambda it, a, k: not isna(a[0])),
          'NA': NAN, 'set_option': F('set_option', lambda it, a, k: None), 'options': Unknown('options')}
    m = Module('pandas', ns)
    for x in (m, frame, series, core, errs):
        x.external = True
    return {x.name: x for x in (m, frame, series, core, errs)}
