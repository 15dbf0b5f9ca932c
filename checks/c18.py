"""C18 tables are made strictly increasing"""
import itertools
from .iokit import *
from .c15 import rows

EXPLAIN = ("all weak orderings (orders with ties) of the spectral column up to a length, as order facts between symbolic values, are "
           "enumerated for tables in .txt, .csv, .nk and .yml files; range, node values and every interval of the loaded material are "
           "compared term by term with the table reduced by the rule; long increasing and partly disordered tables too")


def weak(n):
    """all weak orderings of n rows as rank tuples 0..k"""
    out = set()
    for t in itertools.product(range(n), repeat=n):
        s = sorted(set(t))
        if s == list(range(len(s))):
            out.add(t)
    return sorted(out)


def keep(ranks):
    out, last = [0], ranks[0]
    for i, r in enumerate(ranks[1:], 1):
        if r > last:
            out.append(i)
            last = r
    return out


def verify(sc, label, m, ranks, g, cols, eps=False):
    ks = keep(ranks)
    xs = [g[2 * ranks[i] + 1] for i in ks]
    r = sc.ok(label + ' range', lambda: sc.meth(m, 'get_maximum_valid_range'))
    sc.eq(label + ' range', r, [xs[0], xs[-1]])
    fn = 'get_permittivity' if eps else 'get_nk_data'
    zero = Num(NF.num(0), 'f')
    col = lambda c, i: cols[c][i] if c < len(cols) else zero
    v = sc.ok(label + ' nodes', lambda: sc.meth(m, fn, spectrum(sc, xs, NM)))
    sc.eq(label + ' nodes', elems(v), [cplx(sc, col(0, i), col(1, i)) for i in ks])
    pts, want = [], []
    for a, b in zip(ks, ks[1:]):
        for q in range(ranks[a], ranks[b]):
            x = g[2 * q + 2]
            l = lambda c: lerp(sc, x, g[2 * ranks[a] + 1], g[2 * ranks[b] + 1], col(c, a), col(c, b))
            pts.append(x)
            want.append(cplx(sc, l(0), l(1)))
    if pts:
        v = sc.ok(label + ' between', lambda: sc.meth(m, fn, spectrum(sc, pts, NM)))
        sc.eq(label + ' between', elems(v), want)
    for x in (g[2 * ranks[ks[0]]], g[2 * ranks[ks[-1]] + 2]):
        sc.raises(label + ' outside', lambda: sc.meth(m, fn, spectrum(sc, [x], NM)))


def load(sc, ext, kind, xs, cols):
    if ext == '.yml':
        t = 'DATA:\n  - type: tabulated %s\n    data: |\n' % kind + ''.join('        %s\n' % r for r in rows(sc, xs, cols))
    else:
        mark = ';' if ext == '.nk' else '#'
        t = '%s DATATYPE: tabulated %s\n' % (mark, kind) + '\n'.join(rows(sc, xs, cols, ',' if ext == '.csv' else '\t')) + '\n'
    return read(sc, put(sc, 'o' + ext, t))


def check(chk):
    chk.rule('reduce', "kept rows: the first, then exactly those whose spectral value exceeds all kept before; rows intact")
    chk.rule('unchanged', "a strictly increasing table is used row by row")
    for ext in ('.yml', '.txt', '.csv', '.nk'):
        for kind, nc in (('nk', 2), ('n', 1), ('eps', 2)):
            for n in (1, 2, 3, 4) + ((5,) if ext == '.yml' and kind == 'nk' or chk.thorough else ()):
                if n == 4 and kind != 'nk' and not chk.thorough:
                    continue
                allr = weak(n)
                for k in range(0, len(allr), 60):
                    def go(sc, rs=allr[k:k + 60], n=n, nc=nc, kind=kind, ext=ext):
                        g = points(sc, 'g', n, NM)
                        cols = [column(sc, 'ab'[c], n) for c in range(nc)]
                        for ranks in rs:
                            m = load(sc, ext, kind, [g[2 * r + 1] for r in ranks], cols)
                            verify(sc, str(ranks), m, ranks, g, cols, kind == 'eps')
                    chk.scenario("%s %s of %d rows, orderings from %d" % (ext, kind, n, k), go, limit=60)

    def long_(sc, ext, n):
        g = points(sc, 'g', n, NM)
        cols = [column(sc, 'a', n), column(sc, 'b', n)]
        inc = tuple(range(n))
        shapes = {'increasing': inc, 'decreasing': inc[::-1], 'last row repeated': inc[:-1] + (n - 2,), 'first two equal': (0, 0) + tuple(range(1, n - 1)),
                  'swap at the end': inc[:-2] + (n - 1, n - 2), 'swap at the start': (1, 0) + inc[2:], 'one far outlier': inc[:n // 2] + (n - 1,) + inc[n // 2:-1],
                  'saw': tuple((i // 2) if i % 2 else min(n - 1, i) for i in range(n))}
        for lab, ranks in shapes.items():
            verify(sc, lab, load(sc, ext, 'nk', [g[2 * r + 1] for r in ranks], cols), ranks, g, cols)
    for ext in ('.yml', '.txt', '.csv', '.nk'):
        chk.scenario("%s long tables" % ext, lambda sc, e=ext: long_(sc, e, 14), limit=60)

    def rows_(sc, ext, n):
        g = longgrid(sc, n, NM)
        cols = [longcolumn(sc, 'a', n), longcolumn(sc, 'b', n, 5)]
        inc = tuple(range(n))
        for lab, ranks in {'increasing': inc, 'last row repeated': inc[:-1] + (n - 2,), 'first two equal': (0, 0) + tuple(range(1, n - 1))}.items():
            m = load(sc, ext, 'nk', [g[2 * r + 1] for r in ranks], cols)
            ks = keep(ranks)
            xs = [g[2 * ranks[i] + 1] for i in ks]
            r = sc.ok(lab + ' range', lambda: sc.meth(m, 'get_maximum_valid_range'))
            sc.eq(lab + ' range', r, [xs[0], xs[-1]])
            v = sc.ok(lab + ' nodes', lambda: sc.meth(m, 'get_nk_data', spectrum(sc, xs, NM)))
            sc.eq(lab + ' nodes', elems(v), [cplx(sc, cols[0][i], cols[1][i]) for i in ks])
    for n in chk.sizes():
        if n > 14:
            for ext in ('.yml', '.txt'):
                chk.scenario("%s of %d rows" % (ext, n), lambda sc, e=ext, n=n: rows_(sc, e, n), limit=120)

    def signs(sc, ext):
        """particular spectral values: negative, zero, of very different size"""
        for vals in ((-5, -9, 1, 2), (0, -2, 1, 1, 3), (1, -9, 2, 2, 3), (-4, -3, -3, -1), (-1, 0, 1), (3, 3, -3, 4), (0.5, -0.5, 0.75, 0.75),
                     (1e-6, 1, 1e6, 1e3, 1e9), (1e9, 1, 2e9), (2, 2.5, 2.25, 1e-9, 1e9), (7, 6, 5, 4, 8), (1, 1, 1, 1, 2)):
            n = len(vals)
            cols = [column(sc, 'a', n), column(sc, 'b', n)]
            ranks = [sorted(set(vals)).index(v) for v in vals]
            ks = keep(ranks)
            m = load(sc, ext, 'nk', [sc.num(float(v)) for v in vals], cols)
            xs = [sc.num(float(vals[i])) for i in ks]
            sc.eq('%s range' % (vals,), sc.ok('range', lambda: sc.meth(m, 'get_maximum_valid_range')), [xs[0], xs[-1]])
            v = sc.ok('%s nodes' % (vals,), lambda: sc.meth(m, 'get_nk_data', spectrum(sc, xs, NM)))
            sc.eq('%s nodes' % (vals,), elems(v), [cplx(sc, cols[0][i], cols[1][i]) for i in ks])
            for i, j in zip(ks, ks[1:]):
                x = sc.num((vals[i] + vals[j]) / 2.0)
                v = sc.ok('%s between' % (vals,), lambda: sc.meth(m, 'get_nk_data', spectrum(sc, [x], NM)))
                sc.eq('%s between' % (vals,), elems(v)[0], Num((cplx(sc, cols[0][i], cols[1][i]).nf + cplx(sc, cols[0][j], cols[1][j]).nf) / NF.num(2), 'c'))
    for ext in ('.yml', '.txt', '.csv', '.nk'):
        chk.scenario("%s particular spectral values" % ext, lambda sc, e=ext: signs(sc, e), limit=60)

    def gaps(sc, ext):
        """empty lines and lines of blanks between the rows are no rows, and no row after them is lost"""
        for ranks in ((0, 1, 2), (0, 2, 1), (1, 0, 2)):
            g = points(sc, 'g', 3, NM)
            cols = [column(sc, 'a', 3), column(sc, 'b', 3)]
            rs = rows(sc, [g[2 * r + 1] for r in ranks], cols, ',' if ext == '.csv' else ' ')
            for at in (1, 2, 3):
                for empty in ('',) + (() if ext == '.csv' else ('   ',)):
                    ls = rs[:at] + [empty] + rs[at:]
                    if ext == '.yml':
                        t = 'DATA:\n  - type: tabulated nk\n    data: |\n' + ''.join(('        %s\n' % r) if r else '\n' for r in ls)
                    else:
                        t = '%s DATATYPE: tabulated nk\n' % (';' if ext == '.nk' else '#') + '\n'.join(ls) + '\n'
                    verify(sc, '%s, %r before row %d' % (ranks, empty, at), read(sc, put(sc, 'e' + ext, t)), ranks, g, cols)
    for ext in ('.yml', '.txt', '.csv', '.nk'):
        chk.scenario("%s empty lines between rows" % ext, lambda sc, e=ext: gaps(sc, e), limit=60)

    def pair(sc, ru):
        """several tables in one file, each reduced on its own"""
        n = 3
        g = points(sc, 'g', n, NM)
        for ra in weak(3):
            rb = (0, 2, 1)
            ca, cb = column(sc, 'a', n), column(sc, 'b', n)
            t = 'DATA:\n' + ''.join('  - type: tabulated %s\n    data: |\n' % k + ''.join('        %s\n' % r for r in rows(sc, [g[2 * q + 1] for q in rr], [c]))
                                    for k, rr, c in (('n', ra, ca), ('k', rb, cb)))
            m = read(sc, put(sc, 'p.yml', t))
            d = sc.attr(m, 'data')
            for part, rr, c in (('real', ra, ca), ('imag', rb, cb)):
                ks = keep(rr)
                v = sc.ok(part, lambda: sc.meth(d[part], 'evaluate', spectrum(sc, [g[2 * rr[i] + 1] for i in ks], NM)))
                sc.eq('%s %s' % (part, rr), elems(v), [c[i] for i in ks])
    for ru in (False, True):
        chk.scenario("two tables%s" % (' (ruamel)' if ru else ''), lambda sc: pair(sc, ru), ruamel=ru)
