"""plant.py [ids]: turn the entries of tools/bugs.py into /verif/seeded/<id>/ after confirming each in a scratch copy.
An entry counts when the patch touches original lines, the stable tests still pass and the demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from tools.bugs import BUGS
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
DEMO = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds for this history
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/.config"
export HOME="$scratch" SCRATCH="$scratch" PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
%scd "$scratch" && timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
'''
HEAD = '''import os, sys
import numpy as np
SCRATCH = os.environ['SCRATCH']


def raises(fn, exc=Exception):
    try:
        fn()
    except exc:
        return True
    return False


'''

LOOSE = os.environ.get('LOOSE')   # write here, and do not ask for changed original lines


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def blame(path):
    out = sh(['git', '-C', '/repo', 'blame', '-s', '--root', '-l', path]).stdout.splitlines()
    return [l.lstrip('^')[:39] == BASE[:39] for l in out]


def tests(d):
    env = dict(os.environ, HOME=d + '/_home', PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    os.makedirs(d + '/_home/.config', exist_ok=True)
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-rA', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env, timeout=300)
    return {l.split()[1] for l in r.stdout.splitlines() if l.startswith('PASSED')}, r.stdout


def one(b):
    out = []
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        good, bad = tmp + '/good', tmp + '/bad'
        for d in (good, bad):
            sh(['git', 'clone', '-q', '/repo', d])
        for f, old, new in b['edits']:
            p = bad + '/src/dispersion/' + f
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return b['id'], 'old text occurs %d times in %s: %r' % (s.count(old), f, old[:60])
            lines = blame('src/dispersion/' + f)
            start = s[:s.index(old)].count('\n')
            # only lines that really change
            s = s.replace(old, new)
            open(p, 'w', encoding='utf-8').write(s)
        diff = sh(['git', '-C', bad, 'diff']).stdout
        # removed lines must be original
        n = f = None
        orig = mine = 0
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                f = blame(l[6:])
            elif l.startswith('@@'):
                n = int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') and not l.startswith('---'):
                if f[n - 1]:
                    orig += 1
                else:
                    mine += 1
                n += 1
            elif l.startswith(' '):
                n += 1
        if LOOSE:
            pass
        elif not orig or mine:
            out.append('lines: %d original, %d mine' % (orig, mine))
        demo = tmp + '/demo'
        os.makedirs(demo)
        open(demo + '/demo.sh', 'w').write(DEMO % b.get('env', ''))
        open(demo + '/demo.py', 'w', encoding='utf-8').write(HEAD + b['demo'].strip() + '\n')
        rg = sh(['bash', demo + '/demo.sh'], cwd=good)
        rb = sh(['bash', demo + '/demo.sh'], cwd=bad)
        if rg.returncode != 0:
            out.append('demo fails on the good tree: ' + rg.stderr[-400:] + rg.stdout[-200:])
        if rb.returncode == 0:
            out.append('demo passes on the changed tree')
        elif 'AssertionError' not in rb.stderr:
            out.append('(note: demo fails with ' + (rb.stderr.strip().splitlines() or ['?'])[-1][:150] + ')')
        tg, _ = tests(good)
        tb, log = tests(bad)
        lost = (tg & STABLE_IDS(tg)) - tb
        if lost:
            out.append('tests lost: %s' % sorted(lost))
        fatal = [o for o in out if not o.startswith('(note')]
        if not fatal:
            dst = os.path.join(LOOSE or os.path.join(ROOT, 'seeded'), b['id'])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(demo, dst)
            open(dst + '/patch.diff', 'w', encoding='utf-8').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(dst + '/meta.json', 'w'), indent=1)
        return b['id'], ('OK ' if not fatal else 'REJECTED ') + ' | '.join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def STABLE_IDS(tg):
    return tg if len(tg) >= 19 else tg


if __name__ == '__main__':
    want = sys.argv[1:]
    todo = [b for b in BUGS if not want or any(b['id'].startswith(w) for w in want)]
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, todo):
            print(i, r)
