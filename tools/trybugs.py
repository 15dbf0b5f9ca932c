"""trybugs.py [-a] [ids]: run the property's check (-a: all checks) against each planted bug, in scratch clones"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allc = '-a' in sys.argv
want = [a for a in sys.argv[1:] if a != '-a']
DIR = os.environ.get('BUGDIR', os.path.join(ROOT, 'seeded'))
ids = [d for d in sorted(os.listdir(DIR)) if not want or any(d.startswith(w) for w in want)]
CHECKS = [c['property'] for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']]


def one(i):
    meta = json.load(open('%s/%s/meta.json' % (DIR, i)))
    tmp = tempfile.mkdtemp(prefix='try_')
    res = {}
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/r'])
        r = subprocess.run(['git', '-C', tmp + '/r', 'apply', '%s/%s/patch.diff' % (DIR, i)], capture_output=True, text=True)
        if r.returncode:
            return i, meta['property'], {'apply': r.stderr}
        for c in (CHECKS if allc else [meta['property']]):
            try:
                r = subprocess.run(['timeout', '900', 'python3-vt', 'run.py', c], cwd=ROOT, capture_output=True, text=True,
                                   env=dict(os.environ, DISPERSION_REPO=tmp + '/r', ABSINT_OUT=tmp))
                und = [l for l in r.stdout.splitlines() if ' obligations, ' in l]
                res[c] = (r.returncode, und[0] if und else r.stdout[-300:] + r.stderr[-300:])
            except Exception as e:
                res[c] = (-1, str(e))
        return i, meta['property'], res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


tot = hit = 0
with ThreadPoolExecutor(8) as ex:
    for i, p, res in ex.map(one, ids):
        own = res.get(p, (None, ''))
        tot += 1
        hit += own[0] == 1
        print('%-28s %s %-7s %s%s' % (i, p, {1: 'caught', 0: 'MISSED'}.get(own[0], '?' + str(own[0])), own[1] if own[0] != 1 else own[1][:90],
              ' others: ' + ','.join(c for c in res if res[c][0] == 1 and c != p) +
              ' ODD:' + ','.join(c for c in res if res[c][0] not in (0, 1)) if allc else ''), flush=True)
print('%d of %d caught by the own check' % (hit, tot))
