"""tryref.py [-n] [ids]: every check against each behaviour-keeping edit of tools/refactors.py, in scratch clones (-n: repository tests only)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from tools.refactors import REFS
from tools import plant_tests
args = sys.argv[1:]
only = '-n' in args
want = [a for a in args if not a.startswith('-')]
checks = [a[2:].split(',') for a in args if a.startswith('-c')]
CHECKS = checks[0] if checks else [c['property'] for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']]


def prepare(r):
    id, edits = r
    tmp = tempfile.mkdtemp(prefix='ref_')
    d = tmp + '/r'
    subprocess.run(['git', 'clone', '-q', '/repo', d])
    for f, old, new in edits:
        p = d + '/src/dispersion/' + f
        t = open(p, encoding='utf-8').read()
        if t.count(old) < 1:
            return id, tmp, 'pattern of %s missing: %r' % (f, old[:80])
        t = t.replace(old, new, 1)
        open(p, 'w', encoding='utf-8').write(t)
    bad = plant_tests.run(d)
    return id, tmp, bad


def check(a):
    id, tmp, c = a
    out = tempfile.mkdtemp(prefix='refo_')
    try:
        r = subprocess.run(['timeout', '900', 'python3-vt', 'run.py', c], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, DISPERSION_REPO=tmp + '/r', ABSINT_OUT=out))
        l = [x for x in r.stdout.splitlines() if ' obligations, ' in x]
        und = int(l[0].split(' undecided')[0].split()[-1]) if l else -1
        return id, c, r.returncode, und, r.stdout[:1500] + r.stderr[-300:]
    finally:
        shutil.rmtree(out, ignore_errors=True)


refs = [r for r in REFS if not want or any(r[0].startswith(w) for w in want)]
with ThreadPoolExecutor(8) as ex:
    prep = list(ex.map(prepare, refs))
    for id, tmp, bad in prep:
        if bad:
            print('%-22s NOT USABLE %s' % (id, bad), flush=True)
    try:
        if not only:
            jobs = [(id, tmp, c) for id, tmp, bad in prep if not bad for c in CHECKS]
            res = {}
            for id, c, rc, und, out in ex.map(check, jobs):
                res.setdefault(id, []).append((c, rc, und))
                if rc:
                    print('%s %s ALARM rc=%s\n%s' % (id, c, rc, out), flush=True)
                if c == CHECKS[-1]:
                    print('%-22s quiet %d/%d  undecided: %s' % (id, sum(x[1] == 0 for x in res[id]), len(res[id]),
                          ' '.join('%s:%d' % (x[0], x[2]) for x in res[id] if x[2])), flush=True)
    finally:
        for id, tmp, bad in prep:
            shutil.rmtree(tmp, ignore_errors=True)
