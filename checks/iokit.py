"""writing and reading material files over the abstract file system"""
from .kit import *
from .c06 import elems

HOME = '/home/u/data/'
META = {'Reference': 'A. Author, Journal 12, 34 (2020)', 'Comment': 'sample at 20 C: measured twice', 'Name': 'SiO2',
        'FullName': 'silicon dioxide', 'Author': 'Author-2020', 'MetaComment': 'written by hand\nsecond line'}


def canon(unit):
    for k, al in ALIASES.items():
        if unit.lower() in [a.lower() for a in al]:
            return k
    return unit


def setmeta(sc, m, meta, spec=None):
    md = sc.attr(m, 'meta_data')
    for k, v in meta.items():
        md[k] = v
    if spec is not None:
        md['Specification'] = spec


def path(sc, name):
    sc.w.fs.mkdirs(HOME)
    return HOME + name


def write(sc, m, p, **kw):
    w = sc.ok('writer', lambda: sc.call('io.Writer', p, m))
    sc.ok('write ' + p.rpartition('/')[2], lambda: sc.meth(w, 'write_file', **kw))
    return w


def read(sc, p, **kw):
    return sc.ok('read ' + p.rpartition('/')[2], lambda: sc.call(sc.pub('Material'), file_path=p, **kw))


def text(sc, p):
    f = sc.w.fs.files.get(sc.w.fs.norm(p))
    return None if f is None else f.text


def put(sc, name, t, enc='utf-8'):
    p = path(sc, name)
    sc.w.fs.put(p, t, enc)
    return p


def tok(sc, v):
    """number written out exactly"""
    return sc.it.num_text(v)


def same_values(sc, label, a, b, probes):
    for i, s in enumerate(probes):
        for fn in ('get_nk_data', 'get_permittivity'):
            x = sc.ok(label + ' original', lambda: sc.meth(a, fn, s))
            y = sc.ok(label + ' read back', lambda: sc.meth(b, fn, s))
            sc.eq('%s: %s at probe %d' % (label, fn, i), y, x)


def same_material(sc, label, a, b, probes, outside=()):
    sc.eq(label + ': kind of data', sc.attr(b, 'data')['name'], sc.attr(a, 'data')['name'])
    da, db = sc.attr(a, 'defaults'), sc.attr(b, 'defaults')
    sc.eq(label + ': quantity', str(db['spectrum_type']).lower(), str(da['spectrum_type']).lower())
    sc.eq(label + ': unit', canon(str(db['unit'])), canon(str(da['unit'])))
    ra = sc.ok('range', lambda: sc.meth(a, 'get_maximum_valid_range'))
    rb = sc.ok(label + ' range', lambda: sc.meth(b, 'get_maximum_valid_range'))
    sc.eq(label + ': valid range', rb, ra)
    same_values(sc, label, a, b, probes)
    for s in outside:
        sc.raises(label + ': outside still refused', lambda: sc.meth(b, 'get_nk_data', s))


def same_meta(sc, label, b, meta):
    md = sc.attr(b, 'meta_data')
    for k, v in meta.items():
        if k not in md:
            sc.true('%s: %s' % (label, k), False, "key %s missing after reading back" % k)
        else:
            sc.eq('%s: %s' % (label, k), md[k], v)
