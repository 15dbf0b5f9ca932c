"""catalogue contexts"""
import ast
import csv
import io
from .iokit import *
from absint.interp import Env

DB = '/home/u/db'
COLS = ['Alias', 'Name', 'FullName', 'Author', 'Comment', 'Reference', 'SpectrumType', 'Unit', 'SpectrumLowerBound', 'SpectrumUpperBound',
        'N_Reference', 'K_Reference', 'Path', 'Module']
NUMERIC = ('SpectrumLowerBound', 'SpectrumUpperBound', 'N_Reference', 'K_Reference')


def snippet(sc, code, **vs):
    """value of a caller's expression"""
    n = ast.parse(code, mode='eval').body
    m = sc.mod('')
    env = Env(frozenset(vs), None, m)
    env.vars.update(vs)
    sc.it.stack.append(env)
    try:
        return sc.it.ev(n, env)
    finally:
        sc.it.stack.pop()


def config(sc, modules=None, ref=(632.8, 'wavelength', 'nanometer'), db=DB, file='catalogue.csv'):
    sc.w.fs.mkdirs(db)
    v = ref[0] if isinstance(ref[0], Num) else sc.num(ref[0])
    return {'Path': db, 'File': file, 'Interactive': False, 'WarnMissingPackages': False,
            'Modules': dict(modules or {'UserData': True, 'RefractiveIndexInfo': True}),
            'ReferenceSpectrum': {'Value': v, 'SpectrumType': ref[1], 'Unit': ref[2]}}


def cellsrc(sc, v):
    if isinstance(v, Num):
        return '' if v.special == 'nan' else tok(sc, v)
    return str(v)


def csvtext(sc, entries):
    """a catalogue file as pandas writes it"""
    b = io.StringIO(newline='')
    w = csv.writer(b, lineterminator='\n')
    w.writerow(COLS)
    for e in entries:
        w.writerow([cellsrc(sc, e[c]) for c in COLS])
    return b.getvalue()


NANV = Num(None, 'f', True, 'nan')


def entry(sc, i, **kw):
    e = {'Alias': '', 'Name': 'mat%d' % i, 'FullName': 'material %d' % i, 'Author': 'author %d' % i, 'Comment': 'comment %d' % i,
         'Reference': 'reference %d' % i, 'SpectrumType': 'wavelength', 'Unit': 'nanometer', 'SpectrumLowerBound': sc.num(400.0 + i),
         'SpectrumUpperBound': sc.num(700.0 + i), 'N_Reference': sc.num(1.5 + i), 'K_Reference': sc.num(0.25 * i), 'Path': 'file%d.txt' % i,
         'Module': 'UserData'}
    e.update(kw)
    return e


def catalogue(sc, conf, label='open catalogue', **kw):
    return sc.ok(label, lambda: sc.call(sc.pub('Catalogue'), config=conf, **kw))


def frame(sc, cat):
    """rows of the catalogue table as dicts, in order"""
    df = sc.ok('table', lambda: sc.meth(cat, 'get_database'))
    cols = sc.it.iterate(sc.attr(df, 'columns'))
    n = sc.it.call(sc.it.builtins['len'], [df], {})
    n = int(sc.it.as_int(n))
    out = []
    for i in range(n):
        out.append({c: snippet(sc, 'df.iloc[i, j]', df=df, i=i, j=j) for j, c in enumerate(cols)})
    return list(cols), out


def same_rows(sc, label, got, want, cols=COLS):
    if not sc.true(label + ': number of entries', len(got) == len(want), "%d entries, expected %d" % (len(got), len(want))):
        return
    for i, (a, b) in enumerate(zip(got, want)):
        for c in cols:
            if c not in a:
                sc.true('%s: entry %d %s' % (label, i, c), False, "column missing")
                continue
            v = a[c]
            if isinstance(b[c], Num) and b[c].special == 'nan':
                ok = isinstance(v, Num) and v.special == 'nan'
                sc.true('%s: entry %d %s' % (label, i, c), None if isinstance(v, (Unknown, Phi)) else ok, "%s, expected NaN" % txt(v))
            else:
                sc.eq('%s: entry %d %s' % (label, i, c), v, b[c])
