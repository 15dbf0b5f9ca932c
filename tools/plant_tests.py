"""the repository's stable tests in a scratch clone"""
import json, os, subprocess
B = json.load(open('/opt/vp/BASELINE.json'))


def run(d):
    """'' when every stable test passes, otherwise what failed"""
    env = dict(os.environ, HOME=d + '/_home', PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    os.makedirs(d + '/_home/.config', exist_ok=True)
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-rA', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env,
                       timeout=300, capture_output=True, text=True)
    n = sum(l.startswith('PASSED') for l in r.stdout.splitlines())
    return '' if n >= 19 else 'only %d stable tests pass\n%s' % (n, r.stdout[-1500:])
